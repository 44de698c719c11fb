#!/usr/bin/env python3
"""Try the checks on scratch copies of the repository with one edit each.
   run.py mutants  [filter]   - each edit must be reported by the check of its property
   run.py refactor [filter]   - each behaviour-preserving edit must leave every check quiet
Edits: (name, property, file, old, new[, count])."""
import ast, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('YUFLOW_REPO', '/repo')


def all_checks():
    return sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, 'yuflow', 'checks')) if re.match(r'c\d\d\.py$', f))


def one(edit, pids, only_fail):
    name, prop, edits = edit
    d = tempfile.mkdtemp(prefix='yuself')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns('.git', '__pycache__', 'build', '*.pyc'))
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p, encoding='utf8', newline='').read()
            if s.count(old) < 1:
                return (name, 'BROKEN EDIT: text not found in %s: %r' % (f, old[:60]))
            s = s.replace(old, new, 1)
            open(p, 'w', encoding='utf8', newline='').write(s)
            if f.endswith('.py'):
                try:
                    ast.parse(s)
                except SyntaxError as e:
                    return (name, 'BROKEN EDIT: %s' % e)
        res = []
        for pid in pids:
            env = dict(os.environ, YUFLOW_REPO=r, YUFLOW_EVIDENCE=os.path.join(d, 'ev'))
            try:
                q = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), pid], env=env, capture_output=True, text=True, timeout=float(os.environ.get('LIMIT', '600')))
            except subprocess.TimeoutExpired:
                res.append((pid, 124, ['took too long']))
                continue
            out = (q.stdout + q.stderr).strip().splitlines()
            res.append((pid, q.returncode, [l for l in out if not l.startswith('VIOLATION')][:3] if q.returncode == 1 else out[-2:]))
        return (name, res)
    finally:
        shutil.rmtree(d)


def norm(items):
    out = []
    for it in items:
        if len(it) == 3:
            out.append((it[0], it[1], it[2]))
        elif len(it) == 4:
            out.append((it[0], '', [it[1:]]))
        else:
            out.append((it[0], it[1], [(it[2], it[3], it[4])]))
    return out


def collect(name):
    import importlib
    res = []
    for f in sorted(os.listdir(HERE)):
        if f.endswith('.py') and f != 'run.py':
            res += getattr(importlib.import_module(f[:-3]), name, [])
    return res


if __name__ == '__main__':
    mode = sys.argv[1]
    flt = sys.argv[2] if len(sys.argv) > 2 else ''
    if mode == 'mutants':
        items = [m for m in norm(collect('MUTANTS')) if re.search(flt, m[1] + ':' + m[0])]
        have = all_checks()
        jobs = [(m, [m[1]]) for m in items if m[1] in have]
    else:
        items = [m for m in norm(collect('REFACTORS')) if re.search(flt, m[0])]
        ck = sys.argv[3].split(',') if len(sys.argv) > 3 else all_checks()
        jobs = [(m, ck) for m in items]
    good = bad = 0
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '8'))) as ex:
        for (m, ck), (name, res) in zip(jobs, ex.map(lambda j: one(j[0], j[1], False), jobs)):
            if isinstance(res, str):
                print('??', name, res, flush=True); bad += 1
                continue
            for pid, rc, out in res:
                want = 1 if mode == 'mutants' else 0
                if rc == want:
                    good += 1
                    if '-v' in sys.argv:
                        print('ok', pid, name, '|', out[0][:200] if out else '', flush=True)
                else:
                    bad += 1
                    print('%s %s %s rc=%d %s' % ('MISSED' if mode == 'mutants' else 'ALARM', pid, name, rc, ' / '.join(out)[:600]), flush=True)
    print('%s: %d as wanted, %d not' % (mode, good, bad))
