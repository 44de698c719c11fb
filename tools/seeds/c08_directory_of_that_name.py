PROPERTY = 'C08'
NEEDS = 'an import directory that holds a directory (not a file) of the imported name'
BREAKS = 'the search stops at a directory of the imported name and the import fails although a later place has the file'
EDITS = [
 ('pp/yugen.py',
  '            lpath = os.path.join( d, lib )\n            if os.path.isfile( lpath ):\n',
  '            lpath = os.path.join( d, lib )\n            if os.path.exists( lpath ):\n'),
]
DEMO = r'''
from pp import yup
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

os.makedirs('d1/part.yu')
os.makedirs('d2')
write('d2/part.yu', '($set q 5)\n')
write('a.yuconfig', "directory = [ 'd1', 'd2' ]\n")
ok, text, _, _ = run('a.yu', '($import part)\n($q)\n')
finish(ok and '5' in text, 'not imported: %r' % (text,))
'''
