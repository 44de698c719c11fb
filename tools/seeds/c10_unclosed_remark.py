PROPERTY = 'C10'
NEEDS = 'a C comment that is not closed'
BREAKS = 'the parser does not end on a comment that is not closed'
EDITS = [
 ('pp/yugen.py', '                return ( sou[( i + 2 ): ], REMARK( sou[ :( i + 2 )]))\n\n            i += 1\n',
  "                return ( sou[( i + 2 ): ], REMARK( sou[ :( i + 2 )]))\n\n#           -- the next asterisk\n            i = sou.find( '*', i + 1 )\n"),
]
DEMO = r'''

import signal
from pp import yup
write('.yuconfig', 'pp_skip_comments = 1\n')
write('a.yuconfig', 'pp_skip_comments = 1\n')
write('b.yuconfig', 'pp_skip_comments = 1\n')
def late(*a):
    print('the parser does not end', flush=True)
    import os
    os._exit(1)
signal.signal(signal.SIGALRM, late)
signal.alarm(20)
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

ok = run('a.yu-c', 'int a; /* a ** b * c */ int b; /**/ int c; /***/\n')
bad = run('b.yu-c', 'int a; /* ($set a 1)\n')
signal.alarm(0)
finish(ok[0] and 'int c;' in ok[1] and not bad[0], 'wrong result: %r %r' % (ok, bad))
'''
