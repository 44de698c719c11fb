PROPERTY = 'C01'
NEEDS = 'an existing output file rewritten through the Python package interface (translate / proc_stream), not through the command line'
BREAKS = 'the former output is overwritten without being kept as .bak when the file is translated by an importing program'
EDITS = [
 ('pp/yup.py', "#           -- output file backup\n            shell_backup( fn_o )\n", ""),
 ('pp/yup.py', "    fn_o = _output_fn( fn )\n\n    ok, plain, fn_o = _pp_stream( f, fn, fn_o )\n",
  "    fn_o = _output_fn( fn )\n#   -- output file backup\n    shell_backup( fn_o )\n\n    ok, plain, fn_o = _pp_stream( f, fn, fn_o )\n"),
]
DEMO = r'''
from pp import yup
fn = write('x.yu', 'new ($set a 1)($a)\n')
write('x.yugen', 'precious')
os.utime('x.yugen', (1, 1))
r = yup.proc_file(fn)
finish(r[0] and os.path.isfile('x.yugen.bak') and read('x.yugen.bak') == 'precious', 'former output lost')
'''
