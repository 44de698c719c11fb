PROPERTY = 'C14'
NEEDS = 'a variable that holds a list, used once by ($emit) through another variable'
BREAKS = 'a use of a variable shares the inside of its value with the variable'
EDITS = [
 ('pp/yugen.py',
  '                return copy.deepcopy( val )\n\n#   ---- LAMBDA --> L_CLOSURE',
  '                return copy.deepcopy( val ) if isinstance( val, LAMBDA_CLOSURE ) else copy.copy( val )\n\n#   ---- LAMBDA --> L_CLOSURE'),
]
DEMO = r'''
from pp import yup
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

ok, text, _, _ = run('a.yu', '($set l ((1 2) (3 4)))($set m ($0 l))($emit m)($emit m),($0 l)\n')
finish(ok and text.strip() == '12,12', 'value changed: %r' % (text,))
'''
