"""Build /verif/seeded/<id>/ from tools/seeds/*.py (one bug each: PROPERTY, EDITS, NEEDS, BREAKS, DEMO) and confirm it.

usage: seed.py [id ...]   builds (or rebuilds) the given bugs and confirms: the demonstration passes on a clean copy,
fails on the changed copy, and the repository's own tests pass on the changed copy."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with the repository as the working directory; everything it writes is in a scratch directory of its own
d=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$d/demo.py"
'''
PRE = '''# -*- coding: utf-8 -*-
import os, sys, tempfile, shutil, atexit
repo = os.getcwd()
sys.path.insert(0, repo)
scratch = tempfile.mkdtemp()
atexit.register(shutil.rmtree, scratch, True)
os.chdir(scratch)

def write(fn, text):
    with open(os.path.join(scratch, fn), 'w', encoding='utf8') as f:
        f.write(text)
    return os.path.join(scratch, fn)

def read(fn):
    with open(os.path.join(scratch, fn), encoding='utf8') as f:
        return f.read()

def finish(good, what):
    print('ok' if good else 'BROKEN: ' + what)
    sys.stdout.flush()
    sys.exit(0 if good else 1)

'''
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
KITS = '''
import sys
sys.path.insert(0, '.')
import test_yup
bad = []
for name, kit in list(vars(test_yup).items()):
    if name.startswith('t_') and name.endswith('_kit'):
        for i in range(1, len(kit) + 1):
            try:
                ok = test_yup.test(kit, {i}, name) == 0
            except BaseException:
                ok = False
            if not ok: bad.append('%s::%02d' % (name, i))
open(sys.argv[1], 'w').write(repr(bad))
'''
def kits(repo, out):
    sh(['/opt/venv/bin/python', '-c', KITS, out], cwd=repo, timeout=120)
    return open(out).read() if os.path.isfile(out) else 'no result'
def main(ids):
    d = os.path.join(V, 'tools', 'seeds')
    for f in sorted(os.listdir(d)):
        i = f[:-3]
        if not f.endswith('.py') or ids and i not in ids: continue
        s = runpy.run_path(os.path.join(d, f))
        out = os.path.join(V, 'seeded', i)
        os.makedirs(out, exist_ok=True)
        w = tempfile.mkdtemp(prefix='seed.')
        try:
            repo = w + '/repo'
            shutil.copytree('/repo', repo, symlinks=True)
            for fn, old, new in s['EDITS']:
                p = os.path.join(repo, fn)
                with open(p, newline='') as h: t = h.read()
                if t.count(old) != 1:
                    print(i, 'EDIT matches', t.count(old), 'times:', old[:60]); break
                with open(p, 'w', newline='') as h: h.write(t.replace(old, new))
            else:
                diff = subprocess.run(['git', '-C', repo, 'diff'], stdout=subprocess.PIPE).stdout
                open(out + '/patch.diff', 'wb').write(diff)
                open(out + '/demo.sh', 'w').write(SH)
                os.chmod(out + '/demo.sh', 0o755)
                open(out + '/demo.py', 'w').write(PRE + s['DEMO'].lstrip('\n'))
                json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
                bad = sh([out + '/demo.sh'], cwd=repo)
                subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
                good = sh([out + '/demo.sh'], cwd=repo)
                t0 = kits(repo, w + '/t0')
                open(w + '/p', 'wb').write(diff)
                subprocess.run(['git', '-C', repo, 'apply', w + '/p'])
                t1 = kits(repo, w + '/t1')
                res = 'confirmed' if good.returncode == 0 and bad.returncode != 0 and t0 == t1 else 'NOT CONFIRMED'
                print(i, s['PROPERTY'], res, 'clean', good.returncode, 'changed', bad.returncode, 'tests', t0, t1)
                if good.returncode: print(good.stdout[-400:])
                if bad.returncode == 0 or 'BROKEN' not in bad.stdout: print('   changed:', bad.stdout[-400:])
        finally:
            shutil.rmtree(w)
main(sys.argv[1:])
