"""Obligations, findings, evidence."""
import json, os, sys, time
from .src import AnalysisError, Repo, REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('YUFLOW_EVIDENCE', os.path.join(HERE, 'evidence'))


class Report:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.obl = []          # (rule, instance, ok)
        self.findings = {}     # key -> message
        self.rules = {}        # rule -> description
        self.notes = []
        self.counts = {}

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rid, instance):
        self.obl.append((rid, str(instance), True))

    def bad(self, rid, construct, msg, where=''):
        """construct: stable identification of the place (function, call, name) - not a line number"""
        self.obl.append((rid, str(construct), False))
        self.findings.setdefault('%s:%s' % (rid, construct), (msg, where))
        if len(self.findings) > 40:
            raise AnalysisError('enough violations')

    def check(self, cond, rid, construct, msg, where=''):
        if cond:
            self.ok(rid, construct)
        else:
            self.bad(rid, construct, msg, where)
        return cond

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, rid, n=1):
        k = sum(1 for r, _, _ in self.obl if r == rid)
        if k < n:
            raise AnalysisError('rule %s matched %d instance(s), at least %d expected: the construct it speaks about was not found' % (rid, k, n))


def known(pid):
    """known-findings.txt: lines 'finding: property=<id> key=<key> | text' and 'fixed: property=...'"""
    res = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.isfile(p):
        for line in open(p, encoding='utf8'):
            line = line.strip()
            if line.startswith('finding:'):
                head, _, text = line[8:].partition('|')
                d = dict(x.split('=', 1) for x in head.split() if '=' in x)
                if d.get('property') == pid:
                    res[d.get('key')] = text.strip()
    return res


def finish(rep, t0, level, assumptions):
    kf = known(rep.pid)
    fresh = {k: v for k, v in rep.findings.items() if k not in kf}
    for k in rep.findings:
        if k in kf:
            print('KNOWN-FINDING: property=%s %s' % (rep.pid, kf[k] or k))
    per = {}
    for r, _, good in rep.obl:
        c = per.setdefault(r, [0, 0])
        c[0] += 1
        c[1] += good
    distinct = {(r, i) for r, i, _ in rep.obl}
    repo = Repo.get()
    samples = []
    seen = set()
    for r, i, good in rep.obl:
        if r not in seen or len(samples) < 12:
            samples.append('%s: %s -> %s' % (r, i[:160], 'holds' if good else 'VIOLATED'))
            seen.add(r)
        if len(samples) >= 40:
            break
    cov = {
        'explanation': 'Static analysis of %s (digest %s of %d modules): %d obligations of %d rules, %d discharged. %s'
                       % (REPO, repo.digest(), len(repo.mods), len(rep.obl), len(rep.rules), sum(c[1] for c in per.values()),
                          '; '.join('%s x%d' % (k, v) for k, v in sorted(rep.counts.items()))),
        'obligations': len(rep.obl),
        'discharged': sum(c[1] for c in per.values()),
        'distinct_obligations': len(distinct),
        'rules': {r: {'text': t, 'instances': per.get(r, [0, 0])[0], 'hold': per.get(r, [0, 0])[1]} for r, t in rep.rules.items()},
        'analysed': rep.counts,
        'samples': samples,
        'notes': rep.notes[:60],
        'checker_cmd': 'python3 /verif/run.py %s' % rep.pid,
        'trusted_base': ['CPython ast parser', '/verif/yuflow (analysis rules and their tables)'],
    }
    ev = {'property': rep.pid, 'tier': rep.tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': level,
          'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(fresh)}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, rep.pid + '.json'), 'w', encoding='utf8') as f:
        json.dump(ev, f, indent=1, default=str)
    if fresh:
        d = os.path.join(EVIDENCE, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, rep.pid + '.txt')
        with open(path, 'w', encoding='utf8') as f:
            f.write('property %s, %d violation(s); re-run: python3 /verif/run.py %s\n\n' % (rep.pid, len(fresh), rep.pid))
            for k, (msg, where) in fresh.items():
                f.write('[%s] %s\n    at %s\n    rule: %s\n\n' % (k, msg, where, rep.rules.get(k.split(':')[0], '')))
        for k, (msg, where) in list(fresh.items())[:20]:
            print('%s: [%s] %s' % (where, k, msg))
        print('VIOLATION property=%s replay=%s' % (rep.pid, path))
        return 1
    print('property %s holds: %d obligations of %d rules (%s)' % (rep.pid, len(rep.obl), len(rep.rules),
                                                              ', '.join('%s %d' % (r, c[0]) for r, c in sorted(per.items()))))
    return 0
