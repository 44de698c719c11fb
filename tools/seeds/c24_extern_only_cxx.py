PROPERTY = 'C24'
NEEDS = 'a header with extern-c that a file other than the implementing one includes from C (not C++)'
BREAKS = 'the macro _EXT_C of a generated header is not defined outside the implementing file in C'
EDITS = [
 ('lib/h.yu', '#define ($h-name)_INIT( ... )\n\n#ifdef __cplusplus\n#define ($h-name)_EXT_C \\\n\textern "C"\n#else\n#define ($h-name)_EXT_C \\\n\textern\n#endif\n', '#define ($h-name)_INIT( ... )\n\n#ifdef __cplusplus\n#define ($h-name)_EXT_C \\\n\textern "C"\n#endif\n'),
]
DEMO = r'''
from pp import yup
def run(name, text):
    fn = write(name, text)
    with open(fn) as f:
        return yup.proc_stream(f, fn)

import subprocess
ok, text, _, _ = run('mod.yu-h', '($set hlib-light 0)\n($import hlib)\n($h-begin-named)\n($extern-c) int corge( double val );\n($h-end)\n')
write('mod.h', text or '')
bad = []
for head in ('', '#define MOD_IMPLEMENT\n'):
    write('use.c', head + '#include "mod.h"\nint main( void ) { return 0; }\n')
    r = subprocess.run(['gcc', '-fsyntax-only', 'use.c'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        bad.append(r.stdout.decode()[:200])
finish(ok and not bad, 'the header does not compile: %r' % bad)
'''
