"""catch.py [id-regex] [all]: run the checks against the planted bugs; by default only the check of the bug's own property."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(i, every):
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='catch.')
    try:
        shutil.copytree('/repo', w + '/repo', symlinks=True)
        subprocess.check_call(['git', '-C', w + '/repo', 'apply', d + '/patch.diff'])
        man = json.load(open(V + '/MANIFEST.json'))
        ids = [c['property'] for c in man['checks']]
        res = []
        for c in ids:
            if not every and c != meta['property']: continue
            r = subprocess.run(['python3', V + '/run.py', c], env=dict(os.environ, YUFLOW_REPO=w + '/repo', YUFLOW_EVIDENCE=w + '/ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                res.append('%s:%d %s' % (c, r.returncode, ' '.join(r.stdout.split())[:160]))
        return '%-40s %s %s' % (i, meta['property'], ' | '.join(res) or 'missed')
    finally:
        shutil.rmtree(w)
a = [x for x in sys.argv[1:] if x != 'all']
ids = [i for i in sorted(os.listdir(V + '/seeded')) if not a or re.search(a[0], i)]
with ThreadPoolExecutor(4) as ex:
    for l in ex.map(lambda i: one(i, 'all' in sys.argv), ids): print(l, flush=True)
