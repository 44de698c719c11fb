PROPERTY = 'C04'
NEEDS = 'two imports in one process with a dependency changed in between'
BREAKS = 'a stale output is reused: the modification time of a dependency is read only once per process'
EDITS = [
 ('pp/yup.py', "def _getmtime( fn ):\n    try:\n        return os.path.getmtime( fn )\n",
  "_mtime = {}\n\ndef _getmtime( fn ):\n    try:\n        if fn not in _mtime:\n            _mtime[ fn ] = os.path.getmtime( fn )\n        return _mtime[ fn ]\n"),
]
DEMO = r'''
from pp import yup
fn = write('x.py', '# coding: yupp\nA = ($dec 2)\n')
def run():
    with open(fn) as f:
        return yup.proc_stream(f, fn)
ok, _, out, _ = run()
os.utime(fn, (1, 1))
os.utime(out, (100, 100))
ok, first, _, _ = run()
write('x.py', '# coding: yupp\nA = ($dec 7)\n')
os.utime(fn, (200, 200))
ok, second, _, _ = run()
finish('A = 6' in second, 'stale output reused: %r' % second)
'''
