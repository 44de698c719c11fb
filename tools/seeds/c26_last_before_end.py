PROPERTY = 'C26'
NEEDS = 'rindex of a value that is in the list more than once, not at its end'
BREAKS = 'the position of the value in the reversed list is taken for a position from the end that does not begin with one'
EDITS = [
 ('pp/yugen.py', "    'rindex': lambda l, val : ( len( l ) - 1 ) - l[ ::-1 ].index( val ) if val in l else -1,\n",
  "    'rindex': lambda l, val : len( l ) - ( l[ ::-1 ].index( val ) or 1 ) if val in l else -1,\n"),
]
DEMO = r'''

from pp import yup
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

ok, text, _, _ = run('a.yu-txt', '($rindex ($list 7 8 7 9 6) 7)\n')
finish(ok and text.split() == ['2'], 'wrong position: %r %r' % (ok, text))
'''
