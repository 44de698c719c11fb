PROPERTY = 'C03'
NEEDS = 'an evaluation error while the evaluation stage is traced'
BREAKS = 'a failing evaluation leaves no message in the log while tracing is on'
EDITS = [
 ('pp/yup.py',
  "        if TR2F:\n            trace.info( msg )\n        log.error( msg )\n        if trace.enabled:\n            trace.info( trace.TEMPL_DEEPEST, trace.deepest )\n        if TR2F:\n            trace.info( ___ )\n        return False, ''\n\n    if TR2F",
  "        if trace.enabled:\n            trace.info( msg )\n        else:\n            log.error( msg )\n        if trace.enabled:\n            trace.info( trace.TEMPL_DEEPEST, trace.deepest )\n        if TR2F:\n            trace.info( ___ )\n        return False, ''\n\n    if TR2F"),
]
DEMO = r'''
import logging
from pp import yup
class Grab(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.got = []
    def emit(self, r):
        self.got.append((r.levelno, r.getMessage()))
grab = Grab()
logging.getLogger('log').addHandler(grab)

fn = write('a.yu', '($div 1 0)\n')
status = yup.cli(['-q', '-t', '2', fn])
finish(status == 4 and any(n >= logging.ERROR for n, _ in grab.got), 'status %r, log %r' % (status, grab.got))
'''
