PROPERTY = 'C12'
NEEDS = 'an unreduced result that has a substituted text inside'
BREAKS = 'the fallback dump shows the internal representation of a substituted text'
EDITS = [
 ('pp/yugen.py',
  '#   ---- TRIM\n    if isinstance( node, TRIM ):\n        return node.trim( make_ast_readable( node.ast ))\n\n',
  ''),
]
DEMO = r'''
from pp import yup
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

ok, text, _, _ = run('a.yu', '($set f \\p.[x ($p)])\n($f 1)\n($($\\z.($z)))\n')
text = text.split('CLOSURE')[0]
finish(not ok and 'TRIM' not in text, 'dump: %r' % (text,))
'''
