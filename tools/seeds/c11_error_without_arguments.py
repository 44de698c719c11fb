PROPERTY = 'C11'
NEEDS = 'a function of an imported script that raises an error without arguments'
BREAKS = 'building the message fails itself: the error that is reported is not the one that happened'
EDITS = [
 ('pp/yugen.py', """                    return str( val ) if isinstance( val, native_str ) else val

                except:
                    e_type, e, tb = sys.exc_info()
                    raise_( e_type, '%s: python: %s' % ( _callee(), e ) + node.loc(), tb )
""",
  """                    return str( val ) if isinstance( val, native_str ) else val

                except:
                    e_type, e, tb = sys.exc_info()
                    raise_( e_type, '%s: python: %s' % ( _callee(), e.args[ 0 ]) + node.loc(), tb )
"""),
]
DEMO = r'''
import logging
from pp import yup
write('pool.py', 'class Empty(Exception):\n    pass\ndef total(*l):\n    raise Empty()\n')
fn = write('a.yu-c', '($import "pool.py")\nint a;\n\nint b = ($!) {total()};\n')
msgs = []
class H(logging.Handler):
    def emit(self, rec): msgs.append(rec.getMessage())
h = H()
for n in list(logging.Logger.manager.loggerDict): logging.getLogger(n).addHandler(h)
write('b.yu-c', '($import "pool.py")\nint a;\n\nint b = (${} total());\n')
fn = fn.replace('a.yu-c', 'b.yu-c')
with open(fn) as f:
    ok = yup.proc_stream(f, fn)[0]
text = '\n'.join(msgs)
finish(not ok and 'Empty' in text and 'IndexError' not in text and 'yueval: python:' in text, 'another error: %r %r' % (ok, text))
'''
