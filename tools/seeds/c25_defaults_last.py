PROPERTY = 'C25'
NEEDS = 'a function whose first parameter has a default and that gets a positional argument'
BREAKS = 'a positional argument is given to the first parameter without a default, not to the first that has no value'
EDITS = [
 ('pp/yugen.py',
  '                        var = node.fn.env.unassigned()\n                        if var is NOT_FOUND:\n                            log.warn(',
  '                        var = node.fn.env.unassigned()\n                        if var in node.fn.default and len( node.args ) == 1:\n                            var = next(( x for x in node.fn.env.order if isinstance( node.fn.env[ x ], BOUND ) and x not in node.fn.default ), var )\n                        if var is NOT_FOUND:\n                            log.warn('),
]
DEMO = r'''
from pp import yup
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

ok, text, _, _ = run('a.yu', '($set f \\a:5.\\b.[($a)-($b)])\n($ ($f 1) 2)\n')
finish(ok and text.strip() == '1-2', 'order: %r' % (text,))
'''
