PROPERTY = 'C17'
NEEDS = 'an output directory and an input file that is not in the current directory'
BREAKS = 'with an output directory the output is placed beside the input or in a subdirectory'
EDITS = [
 ('pp/yup.py',
  'os.path.join( shell.output_dir, os.path.basename( fn ))',
  'os.path.join( shell.output_dir, fn )'),
]
DEMO = r'''
from pp import yup
os.mkdir('o')
os.mkdir('s')
fn = write('s/a.yu-c', 'x\n')
yup.cli(['-q', '-o', os.path.join(scratch, 'o'), fn])
finish(os.path.isfile('o/a.c') and not os.path.isfile('s/a.c'), 'output is not in the output directory')
'''
