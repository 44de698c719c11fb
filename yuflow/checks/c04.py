"""C04 - a previously generated output is reused only while it is up to date (facts that dominate the reuse)."""
import ast
from ..src import Repo, where, AnalysisError
from ..wrap import entry, FS
from ..terms import isc, T, C, NONE, TRUE, FALSE
from .c01 import short, loc, fn_of
from .c19 import utf8

TECHNIQUE = 'path-sensitive fact (dominance) analysis: conditions known on every path that returns without translating'
NOTE = ('Every path class of proc_stream and proc_file on which success is returned without a run of the parser. The strict time comparison has to be known for the source file '
        'and, universally, for the configured dependency list. Comparisons in a form the analysis cannot read are noted in the evidence, not reported.')
ASSUMPTIONS = ['modification times are those the operating system reports', 'the configuration keys are force and dependency']
KEEP = FS | {'xcall', 'ret', 'log'}
MT = 'os.path.getmtime'


def mtime_of(t):
    if t.op == 'call' and t.args[0] == MT:
        return t.args[1]
    return None


def holds_in(fact_list, L, p):
    """p is known to be an element of the list term L"""
    return any(v and f.op == 'in' and f.args[0] is p and f.args[1] is L for f, v in fact_list)


def elements(st, L):
    it = st.heap.get((L, 'items'))
    return it.args if it is not None and it.op == 'tup' else ()


def names_dep(t):
    return any(isc(x) and x.args[0] == 'dependency' for x in t.deps())


def config(force, deps):
    """handler: the configuration with known force and dependency list"""
    def h(e, st, f, args, kw, node):
        d = e.obj(st, node, 'dict')
        st.heap[(d, 'base')] = NONE
        if force is not None:
            st.heap[(d, ('k', C('force')))] = force
        for k, items in (('dependency', deps), ('directory', ()), ('pp_define', ())):
            l = e.obj(st, node, 'list')
            st.heap[(l, 'items')] = T('tup', *items)
            st.heap[(d, ('k', C(k)))] = l
        return [(st, d)]
    return h


def run(rep):
    rep.rule('K1', 'the output is reused only where the configured force is known to be off')
    rep.rule('K2', 'the output is reused only where its modification time is known to be strictly later than that of the source file')
    rep.rule('K3', 'the output is reused only where its modification time is known to be strictly later than that of every configured dependency')
    rep.rule('K4', 'the compared output is the file whose content is returned')
    rep.rule('K6', 'the reused output is read in the encoding that outputs are written in (UTF-8), not in that of the locale')
    rep.rule('K5', 'every other path translates the text or returns a logged failure')
    n = 0
    anchored = 'shell_parse_yuconfig' in Repo.get().mod('yup').functions
    deps = [T('sym', 'dep%d' % i) for i in range(2)]
    for name in ('proc_stream', 'proc_file'):
        if anchored:
            for label, force in (('True', TRUE), ('1', C(1))):
                e, rets, raises = entry(name, KEEP, 'c04 force ' + label, opaque={'shell_parse_yuconfig': config(force, deps)})
                rep.count('paths of %s with force' % name, len(rets) + len(raises))
                k = [st for st, v in rets if is_reuse(st, v)]
                rep.check(not k, 'K1', 'force = %s in %s' % (label, name), 'with force configured, the former output is still reused on path: ' + short(k[0].log if k else ()), at(k[0]) if k else '')
            for m in range(3):
                e, rets, raises = entry(name, KEEP, 'c04 deps %d' % m, opaque={'shell_parse_yuconfig': config(None, deps[:m])})
                rep.count('paths of %s with %d dependencies' % (name, m), len(rets) + len(raises))
                for st, v in rets:
                    if is_reuse(st, v):
                        n += 1
                        exact(rep, name, st, v, deps[:m])
        e, rets, raises = entry(name, KEEP, 'c04')
        rep.count('paths of ' + name, len(rets) + len(raises))
        for st, v in rets:
            ok = v.args[0] if v.op == 'tup' and v.args else v
            ran = any(ev[0] in ('xcall', 'ret') for ev in st.log)
            if ran:
                continue
            if isc(ok) and not ok.args[0]:
                rep.check(any(ev[0] == 'log' for ev in st.log), 'K5', 'failure of %s without translation' % name, 'failure is returned although nothing was translated and nothing failed, on path: ' + short(st.log))
                continue
            n += 1
            reuse(rep, name, st, v, e, anchored)
    if not n:
        rep.note('no path reuses an output: nothing to decide')
        rep.ok('K1', 'no reuse at all')


def is_reuse(st, v):
    ok = v.args[0] if v.op == 'tup' and v.args else v
    return not any(ev[0] in ('xcall', 'ret') for ev in st.log) and not (isc(ok) and not ok.args[0])


def at(st):
    return next((loc(ev) for ev in reversed(st.log) if loc(ev)), 'pp/yup.py')


def exact(rep, name, st, v, deps):
    """strict comparisons known one by one for a configuration with these dependencies"""
    data = v.args[1] if v.op == 'tup' and len(v.args) > 1 else None
    src = T('sym', 'fn')
    outs = [data.args[0].args[0]] if data is not None and data.op == 'read' else [ev[1] for ev in st.log if ev[0] == 'open' and not ev[5] and ev[1] is not src]
    known, odd = set(), []
    for f, val in st.facts.items():
        mt = [x for x in f.deps() if mtime_of(x) is not None]
        if not mt:
            continue
        if f.op == 'lt' and mtime_of(f.args[0]) is not None and mtime_of(f.args[1]) is not None:
            if val and (not outs or mtime_of(f.args[1]) in outs):
                known.add(mtime_of(f.args[0]))
            continue
        if f.op == 'lt' and not val or f.op == 'truth' and mtime_of(f.args[0]) is not None:
            continue
        odd.append(f)
        if f.op == 'lt' and f.args[0].op == 'call' and f.args[0].args[0] in ('max', 'int', 'float') and mtime_of(f.args[1]) is not None:
            known |= {mtime_of(x) for x in mt} - {mtime_of(f.args[1])}
    for p, rid, what in [(src, 'K2', 'the source file')] + [(d, 'K3', 'dependency %s' % d) for d in deps]:
        con = 'reuse in %s with %d dependencies: %s' % (name, len(deps), what)
        if p not in known and odd:
            rep.note('%s not decided: times are compared as %s' % (rid, odd[0]))
            continue
        rep.check(p in known, rid, con, 'the former output is reused on a path where it is not known to be strictly later than %s: %s' % (what, facts_text(st)), at(st))


def reuse(rep, name, st, v, e, anchored):
    facts = list(st.facts.items())
    reads = [ev for ev in st.log if ev[0] == 'open' and not ev[5]]
    src = T('sym', 'fn')
    data = v.args[1] if v.op == 'tup' and len(v.args) > 1 else None
    where_ = loc(reads[-1]) if reads else 'pp/yup.py'
    con = 'reuse in ' + name
    # --- force
    off = any(any(isc(x) and x.args[0] == 'force' for x in f.deps()) and
              (not val and f.op == 'truth' or f.op in ('eq', 'is') and (val and FALSE in f.args or not val and TRUE in f.args)
               or f.op == 'in' and not val and isc(f.args[0])) for f, val in facts)
    if anchored and not off:
        rep.note('K1 is decided with the configured force set to True and 1 only')
    else:
        rep.check(off, 'K1', con, 'the former output is reused on a path where force is not known to be off', where_)
    # --- which file is returned
    outs = [ev[1] for ev in reads if ev[1] is not src]
    if data is not None and data.op == 'read':
        outs = [data.args[0].args[0]]
        fh = data.args[0]
        if fh.op == 'fh' and isc(fh.args[1]) and 'b' not in str(fh.args[1].args[0]):
            if isc(fh.args[2]):
                rep.check(utf8(fh.args[2]), 'K6', con, 'the reused output, which was written as UTF-8, is read with encoding %s, the one of the locale for None' % fh.args[2], where_)
            else:
                rep.note('the encoding the reused output is read with is %s' % fh.args[2])
    comparisons = []         # (older path | ('all', L), output path)
    odd = []
    for f, val in facts:
        body, L = f, None
        if f.op == 'forall':
            L, body = f.args[0], f.args[1]
        mt = [x for x in body.deps() if mtime_of(x) is not None]
        if not mt:
            continue
        if body.op == 'lt' and mtime_of(body.args[0]) is not None and mtime_of(body.args[1]) is not None:
            if not val:
                continue                 # only 'not earlier': says nothing strict
            a, b = mtime_of(body.args[0]), mtime_of(body.args[1])
            if L is not None and a.op == 'each' and a.args[0] is L:
                comparisons.append((('all', L), b))
            elif L is None:
                comparisons.append((a, b))
        elif body.op == 'lt' and val and L is None and body.args[0].op == 'call' and body.args[0].args[0] == 'max' and mtime_of(body.args[1]) is not None:
            odd.append(f)
        elif body.op == 'truth' and mtime_of(body.args[0]) is not None or body.op == 'lt' and not val:
            pass
        else:
            odd.append(f)
    # --- source
    def covers(p):
        for a, b in comparisons:
            if b not in outs and outs:
                continue
            if a is p:
                return True
            if isinstance(a, tuple) and (holds_in(facts, a[1], p) or p in elements(st, a[1]) or a[1].op == 'tup' and p in a[1].args):
                return True
        return False
    if odd and not covers(src):
        rep.note('K2/K3 not decided on a path: times are compared as %s' % odd[0])
        rep.ok('K2', con + ' (not decided)')
        return
    def keyed(L):
        return L.op == 'call' and L.args[0] == '.get' and isc(L.args[2]) or L.op == 'sub' and isc(L.args[1])
    unknown_list = [a[1] for a, b in comparisons if isinstance(a, tuple) and not names_dep(a[1]) and elements(st, a[1]) == () and a[1].op not in ('list', 'tup') and not keyed(a[1])]
    good = covers(src)
    if not good and (unknown_list or anchored):
        rep.note('K2 is decided for up to two dependencies only: %s' % facts_text(st))
    else:
        rep.check(good, 'K2', con, 'the former output is reused on a path where it is not known to be strictly later than the source file: ' + facts_text(st), where_)
    dep = False
    for a, b in comparisons:
        if isinstance(a, tuple) and (b in outs or not outs):
            if a[1].op == 'slice' and names_dep(a[1]):
                rep.bad('K3', con + ', part of the list', 'only a part of the dependencies is compared: %s' % a[1], where_)
            if names_dep(a[1]) or any(names_dep(x) for x in elements(st, a[1])):
                dep = True
    if not dep and (unknown_list or anchored):
        rep.note('K3 is decided for up to two dependencies only: %s' % facts_text(st))
    else:
        rep.check(dep, 'K3', con, 'the former output is reused on a path where it is not known to be strictly later than every configured dependency: ' + facts_text(st), where_)
    if comparisons and outs:
        rep.check(any(b in outs for a, b in comparisons), 'K4', con, 'the modification time of another file than the returned output is compared', where_)


def facts_text(st):
    return '; '.join('%s%s' % ('' if v else 'not ', f) for f, v in st.facts.items() if f.op != 'truth' or any(mtime_of(x) is not None for x in f.deps()))[:300] or 'no comparison'
