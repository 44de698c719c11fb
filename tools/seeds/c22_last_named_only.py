PROPERTY = 'C22'
NEEDS = 'a format string with two named arguments, the first of which is still a parameter'
BREAKS = 'a format string is filled in although one of its named arguments is not reduced yet'
EDITS = [
 ('pp/yugen.py',
  '                        term = term and _is_term( val )\n',
  '                        term = _is_term( val )\n'),
]
DEMO = r'''
from pp import yup
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

ok, text, _, _ = run('a.yu', '($set f \\p.($unq ($ \"($a)-($b)\" \\a p \\b 2)))\n($f 7)\n')
finish(ok and text.strip() == '7-2', 'filled in early: %r' % (text,))
'''
