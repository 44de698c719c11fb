PROPERTY = 'C26'
NEEDS = 'isdigit of a negative number or of a fraction'
BREAKS = 'a number is taken for digits without a look at its text'
EDITS = [
 ('pp/yugen.py', "    'isdigit': lambda val : str( val ).isdigit(),\n",
  "    'isdigit': lambda val : val.isdigit() if isinstance( val, str ) else isinstance( val, ( int, float )),\n"),
]
DEMO = r'''

from pp import yup
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

ok, text, _, _ = run('a.yu-txt', '($isdigit { 2 - 5 }) ($isdigit 12) ($isdigit (`1x))\n')
ok1, text1, _, _ = run('b.yu-txt', '($isdigit (`12))\n')
one = run('c.yu-txt', '($isdigit -3)\n')[1]
two = run('d.yu-txt', '($isdigit (`x))\n')[1]
finish(one.strip() == two.strip(), 'a negative number is digits: %r %r' % (one, two))
'''
