PROPERTY = 'C13'
NEEDS = 'evaluation traced (stage 2) and a function whose parameters are not in alphabetical order'
BREAKS = 'the representation of a scope, made only for the trace, sorts the order in which parameters take their arguments'
EDITS = [
 ('pp/yugen.py', "        return '%s(%s, %s)' % ( self.__class__.__name__, dict.__repr__( self ), repr( self.parent ))", "        self.order.sort()\n        return '%s(%s, %s, %s)' % ( self.__class__.__name__, dict.__repr__( self ), self.order, repr( self.parent ))"),
]
DEMO = r'''
from pp import yup
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

from pp import yugen
import logging
res = []
for stage in (0, 2):
    yugen.trace.handlers[:] = [logging.NullHandler()]
    fn = write('a.yu-txt', '($set f \\b.\\a.[($b)-($a)])\n($f 1 2)\n')
    rc = yup.cli(['-q', '-t', str(stage), '--', fn])
    res.append((rc, read('a.txt').strip()))
finish(res == [(0, '1-2')] * 2, 'with and without the trace: %r' % (res,))
'''
