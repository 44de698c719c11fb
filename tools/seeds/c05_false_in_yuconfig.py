PROPERTY = 'C05'
NEEDS = 'a configuration file that turns a setting off'
BREAKS = 'a switch set to False (or 0) in a .yuconfig file is ignored'
EDITS = [
 ('pp/yup.py',
  'cfg = { k: val for k, val in list( context.items()) if isinstance( val, yuconfig_types )}',
  'cfg = { k: val for k, val in list( context.items()) if val and isinstance( val, yuconfig_types )}'),
]
DEMO = r'''
from pp import yup
write('x.yuconfig', 'pp_reduce_emptiness = False\nread_only = False\n')
fn = write('x.py', 'A = 1\n\n\n\nB = 2\n')
with open(fn) as f:
    ok, text, out, _ = yup.proc_stream(f, fn)
finish(ok and '\n\n\n\n' in text and os.stat(out).st_mode & 0o200, 'settings ignored: %r' % text)
'''
