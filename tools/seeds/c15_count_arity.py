PROPERTY = 'C15'
NEEDS = 'an application of count with both bounds'
BREAKS = 'the built-in function count does not take the end that is documented'
EDITS = [
 ('pp/yugen.py', "        'count': lambda s, *args : s.count( *args ),\n",
  "        'count': lambda s, sub, start=0 : s.count( sub, start ),\n"),
]
DEMO = r'''

from pp import yup
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

ok, text, _, _ = run('a.yu-txt', '($count (`abababab) (`ab) 1 5)\n')
finish(ok and text.split() == ['1'], 'wrong count: %r %r' % (ok, text))
'''
