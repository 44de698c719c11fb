PROPERTY = 'C15'
NEEDS = 'a call of ($maketrans) on Python 3'
BREAKS = 'the built-in function maketrans refers to a function that Python 3 does not have'
EDITS = [
 ('pp/yugen.py',
  'translate( str.maketrans( str( x ), str( y )))',
  'translate( string.maketrans( str( x ), str( y )))'),
]
DEMO = r'''
from pp import yup
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

ok, text, _, _ = run('a.yu', '($translate \"abc\" ($maketrans \"ab\" \"xy\"))\n')
finish(ok and 'xyc' in text, 'maketrans: %r' % (text,))
'''
