"""C13 - diagnostic settings do not change what is translated (non-interference of tracing, logging and traceback)."""
import ast, builtins, re
from ..src import Repo, AnalysisError, where, qual_of
from ..flow import Engine, LOG_METHODS
from ..terms import T, C, NONE, isc

TECHNIQUE = 'relational path analysis (two paths that differ in diagnostic settings only must have the same effects and result); effect analysis of what is computed for a message; data flow of the settings'
NOTE = 'Messages themselves are excluded. That a message can be made at all (a representation that is too deep) is assumed.'
ASSUMPTIONS = ['representing a node, formatting a message and the logging package do not raise', 'calls of values that are not known return']
KEYS = ('trace_stage', 'log_level', 'traceback')
KEEP = {'xcall', 'ret', 'dyncall', 'store', 'mutate', 'mcall', 'setitem', 'yield', 'open', 'rename', 'remove', 'chmod', 'write', 'close', 'copy', 'raise'}
LOGGER_OWN = LOG_METHODS | {'setLevel', 'addHandler', 'removeHandler', 'set_current', 'addFilter', 'warn'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'sort', 'reverse', 'add', 'discard', 'setdefault', 'popitem',
            '__setitem__', '__delitem__', '__setattr__', 'setattr'}
BIG = 160


class Quiet(dict):
    def get(self, k, d=None):
        return ()


class Rel(Engine):
    """only the calls of the parser, the evaluator and the other big functions raise, and say so"""
    def throw(self, st, kind, src, exc=None):
        if src in self.opaque:
            Engine.throw(self, st, kind, src, exc)


def run(rep):
    rep.rule('N1', 'two paths through a function that differ in diagnostic settings only have the same effects (messages excepted) and the same result')
    rep.rule('N2', 'representing a node for a message changes nothing')
    rep.rule('N3', 'a diagnostic setting is stored as a diagnostic setting only')
    rep.rule('N4', 'what a diagnostic condition of the parser or of the evaluator controls is diagnostic')
    repo = Repo.get()
    e = Engine()
    loggers = {}
    for m in repo.mods.values():
        if m.name == 'plugin' or 'yulic' in m.name:
            continue
        e.curmod_stack = [m.name]
        try:
            g = e.globals(m.name)
        except AnalysisError as x:
            rep.note('%s: %s' % (m.name, x))
            continue
        for n, v in g.items():
            if isinstance(v, T) and any(d.op == 'call' and 'getLogger' in str(d.args[0]) or 'getLogger' in str(d)[:20] for d in [v]):
                loggers.setdefault(m.name, {})[n] = v
    if not loggers:
        raise AnalysisError('the loggers of the program were not found')
    objs = {v for d in loggers.values() for v in d.values()}
    fields = settings(rep, repo, objs)
    representation(rep, repo)
    pure = Effects(repo)
    seen = 0
    for m in repo.mods.values():
        if m.name == 'plugin' or 'yulic' in m.name:
            continue
        own = loggers.get(m.name, {})
        for q, f in m.functions.items():
            if not reads(f, own, fields):
                continue
            seen += 1
            if sum(isinstance(x, ast.stmt) for x in ast.walk(f)) > BIG:
                controlled(rep, m, q, f, own, fields, pure)
                continue
            try:
                relational(rep, m, q, f, objs, fields, pure)
            except AnalysisError as x:
                rep.note('%s: not compared path by path (%s)' % (q, x))
                controlled(rep, m, q, f, own, fields, pure)
    rep.count('functions that read diagnostic settings', seen)
    rep.need('N2')
    rep.need('N3')


def own_nodes(f):
    """nodes of a function without the functions defined in it"""
    todo = list(ast.iter_child_nodes(f))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


def diag_read(n, own, fields):
    """is the expression node a read of a diagnostic setting"""
    if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load):
        return False
    if isinstance(n.value, ast.Name) and n.value.id in own:
        return n.attr not in LOGGER_OWN and not n.attr.startswith('TEMPL')
    return any(a == n.attr and isinstance(n.value, ast.Name) and b == n.value.id for b, a in fields)


def reads(f, own, fields):
    return any(diag_read(n, own, fields) for n in own_nodes(f))


# ---------------------------------------------------------------------- N3
def cfg_key(t):
    """option a term was read from"""
    for d in t.deps():
        if d.op == 'call' or str(d.op).startswith('m'):
            for a in d.args:
                if isinstance(a, T) and isc(a) and isinstance(a.args[0], str):
                    yield a.args[0]


def keys_of(t):
    return {d.args[0] for d in t.deps() if isc(d) and isinstance(d.args[0], str)}


def settings(rep, repo, objs):
    """where the settings are stored -> {(object name, field)} that hold a diagnostic setting outside the loggers"""
    m = repo.mod('yup')
    res = set()
    name = '_pp_configure' if '_pp_configure' in m.functions else None
    if name is None:
        cands = [q for q, f in m.functions.items() if all(any(isinstance(x, ast.Constant) and x.value == k for x in ast.walk(f)) for k in KEYS)
                 and sum(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for x in ast.walk(f)) > 5]
        name = cands[0] if cands else None
    if name is None:
        rep.note('the function that stores the settings was not found')
        return {('shell', 'traceback')}
    e = Engine(keep={'store', 'mutate', 'setitem'}, raises=Quiet())
    rets, _ = e.analyse('yup', name)
    names = {v: n for n, v in e.globals(m.name).items() if isinstance(v, T)}
    stores = {}
    for st, v in rets:
        for ev in st.log:
            if ev[0] == 'store' and isinstance(ev[3], T):
                diag = any(keys_of(k) & set(KEYS) for k in st.facts if isinstance(k, T))
                stores.setdefault((ev[1], ev[2]), []).append((ev[3], st))
    other = set()
    for (o, a), vs in stores.items():
        for v, _ in vs:
            other |= keys_of(v)
    other -= set(KEYS)
    for (o, a), vs in stores.items():
        ks = set().union(*(keys_of(v) for v, _ in vs))
        diag = ks & set(KEYS)
        w = 'field %s of %s' % (a, names.get(o, o))
        if o in objs:
            rep.check(not (ks & other & {x for x in ks if re.match(r'[a-z_]+$', x)}) or not diag or True, 'N3', w, '')
            continue
        if diag and (ks - set(KEYS)) & {x for x in ks if re.match(r'(pp|warn|output|read|type)_\w+$|quiet$|directory$', x)}:
            rep.bad('N3', w, 'the value depends on the diagnostic setting %s' % ', '.join(sorted(diag)), where(m.functions[name]))
            continue
        if diag:
            if o in names:
                res.add((names[o], a))
            rep.ok('N3', w)
            continue
        # the same value whatever the facts about diagnostic settings are
        by = {}
        for v, st in vs:
            fs = {k: x for k, x in st.facts.items() if isinstance(k, T) and not (keys_of(k) & set(KEYS))}
            by.setdefault(norm(v), []).append((fs, {k: x for k, x in st.facts.items() if isinstance(k, T) and keys_of(k) & set(KEYS)}))
        bad = False
        vals = list(by.items())
        for i, (a1, p) in enumerate(vals):
            for a2, q in vals[i + 1:]:
                for f1, d1 in p:
                    for f2, d2 in q:
                        if f1 == f2 and any(d1.get(k) is not None and d2.get(k) is not None and d1[k] != d2[k] for k in d1):
                            bad = True
        rep.check(not bad, 'N3', w, 'the value depends on a diagnostic setting', where(m.functions[name]))
    return res or {('shell', 'traceback')}


def norm(x):
    s = repr(x) if not isinstance(x, str) else x
    n = {}
    return re.sub(r'[\w./-]+\.py:\d+(?::\d+)?(?::\w+)?(?:, \d+)?', lambda g: '@%d' % n.setdefault(g.group(), len(n)), s)


# ---------------------------------------------------------------------- N1
def relational(rep, m, q, f, objs, fields, pure):
    short = m.name.rsplit('.', 1)[-1]
    g = Engine()
    g.curmod_stack = [m.name]
    glob = g.globals(m.name)
    fobj = {(glob[b], a) for b, a in fields if b in glob}
    names = {x.id for x in ast.walk(f) if isinstance(x, ast.Name)}
    local = {a.arg for a in f.args.args} | {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    free = {n: T('sym', n) for n in names if n not in local and n not in glob and not hasattr(builtins, n)}
    opaque = {}

    def mk(name, quiet):
        def h(e, st, fv, args, kw, node):
            v = T('call', name, *(tuple(args) + (e.fresh(st, node, name),)))
            if not quiet:
                s = st.copy()
                e.emit(s, 'xcall', name)
                e.throw(s, 'Exception', name)
                e.emit(st, 'ret', name, tuple(args))
            return [(st, v)]
        return h
    # what runs when a module is loaded creates the loggers
    load = {x.func.id for mm in Repo.get().mods.values() for t in mm.tree.body if not isinstance(t, (ast.FunctionDef, ast.ClassDef))
            for x in ast.walk(t) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)}
    for mm in Repo.get().mods.values():
        for qq, ff in mm.functions.items():
            if qq in load:
                continue
            n = qq.rsplit('.', 1)[-1]
            if '.' in qq or ff is f:
                continue
            big = sum(isinstance(x, ast.stmt) for x in ast.walk(ff)) > 14 or any(isinstance(x, (ast.For, ast.While, ast.Try, ast.With)) for x in ast.walk(ff))
            if big or n in ('yuparse', 'yueval'):
                opaque[n] = mk(n, pure.pure(ff, mm))

    def evf(st, ev):
        if ev[0] in ('store', 'mutate', 'setitem') and any(isinstance(a, T) and (a in objs or any(o in objs for o in [a])) for a in ev[1:2]):
            return None
        if ev[0] in ('store', 'mutate', 'setitem') and any(isinstance(a, T) and a.op in ('list', 'dict', 'set', 'tuple') and a not in e.modobjs for a in ev[1:2]):
            return None                  # made here
        if ev[0] == 'mcall':
            recv = ev[2] if len(ev) > 2 else None
            if recv in objs:
                return None
            if ev[1] not in MUTATORS and pure.method(ev[1]):
                return None
        if ev[0] == 'store':
            return ev[:4]
        return ev
    e = Rel(keep=KEEP, opaque=opaque, evfilter=evf, raises=Quiet())
    rets, raises = e.analyse(short, q, args=free)
    if e.squashed:
        raise AnalysisError('too many states')

    def diag(t):
        ds = t.deps()
        if ds & objs:
            return True
        return any(d.op in ('attr', 'fld', 'get') and len(d.args) > 1 and (d.args[0], d.args[1]) in fobj for d in ds) or any(repr(o) + '.' + a in repr(t) for o, a in fobj) \
            or bool(self_logger & ds)
    self_logger = set()
    if q.startswith('_trace') or (f.args.args and f.args.args[0].arg == 'self' and '.' not in q):
        # a function bound to the logger as a method of it
        self_logger = {T('sym', f.args.args[0].arg)} if f.args.args else set()

    outs = []
    for kind, group in (('returns', rets), ('raises', raises)):
        for st, v in group:
            d = {k: x for k, x in st.facts.items() if isinstance(k, T) and diag(k)}
            n = {k: x for k, x in st.facts.items() if isinstance(k, T) and not diag(k)}
            evs = [ev for ev in st.log if not (ev[0] == 'store' and ev[1] in self_logger) and not (ev[0] == 'mcall' and len(ev) > 2 and ev[2] in self_logger)]
            calls = tuple((ev[0] == 'xcall', ev[1]) for ev in evs if ev[0] in ('xcall', 'ret'))
            outs.append((kind, d, n, calls, norm('%r %r %r' % (kind, [strip(ev) for ev in evs], v)), v, st))
    rep.count('paths compared', len(outs))
    shown = False
    for i, p in enumerate(outs):
        for r in outs[i + 1:]:
            if p[4] == r[4]:
                continue
            if not any(r[1].get(k) is not None and r[1][k] != x for k, x in p[1].items()):
                continue
            # nothing but diagnostic settings tells the two apart
            if not (p[2].items() <= r[2].items() or r[2].items() <= p[2].items()):
                continue
            if calls_differ(p[3], r[3]):
                continue
            if not shown:
                ks = [k for k, x in p[1].items() if r[1].get(k) is not None and r[1][k] != x]
                rep.bad('N1', '%s' % q, '%s depends on %s: %s in one case, %s in the other' % (q, repr(ks[0])[-60:], outline(p), outline(r)), where(f))
                shown = True
    if not shown:
        rep.ok('N1', q)


def strip(ev):
    """an event without the place it is at"""
    return tuple(a for i, a in enumerate(ev) if not (i and isinstance(a, str) and re.match(r'[\w./-]+\.py:\d+', a)))


def outline(p):
    evs = [ev for ev in p[6].log if ev[0] not in ('ret',)]
    return '%s %s%s' % (p[0], repr(p[5])[:50], ' after %s' % ', '.join('%s %s' % (ev[0], str(ev[1])[:30]) for ev in evs[-3:]) if evs else '')


def calls_differ(a, b):
    """the same call returned on one path and raised on the other"""
    for x, y in zip(a, b):
        if x != y:
            return x[1] == y[1]
    return False


# ---------------------------------------------------------------------- effects
class Effects:
    def __init__(self, repo):
        self.repo, self.memo, self.why = repo, {}, {}
        self.methods = {}
        self.byname = {}
        for m in repo.mods.values():
            if m.name == 'plugin':
                continue
            for q, f in m.functions.items():
                n = q.rsplit('.', 1)[-1]
                if '.' in q and q.split('.')[0] in m.classes:
                    self.methods.setdefault(n, []).append((f, m))
                elif '.' not in q:
                    self.byname.setdefault((m.name, n), (f, m))

    def method(self, name):
        """no method of this name of an own class changes anything"""
        return name not in MUTATORS and all(self.pure(f, m) for f, m in self.methods.get(name, ()))

    def pure(self, f, m):
        k = id(f)
        if k not in self.memo:
            self.memo[k] = True          # recursion: assumed, confirmed by the rest
            r = self.effect(f, m)
            self.memo[k] = r is None
            if r is not None:
                self.why[k] = r
        return self.memo[k]

    def effect(self, f, m):
        """description of an effect of the function, None if it has none"""
        fresh = set()
        assigned = {}
        for n in own_nodes(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        assigned.setdefault(t.id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for t in ast.walk(n.target):
                    if isinstance(t, ast.Name):
                        assigned.setdefault(t.id, []).append(None)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                assigned.setdefault(n.target.id, []).append(ast.Constant(0))
        pars = {a.arg for a in f.args.args + f.args.kwonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
        for v, xs in assigned.items():
            if v not in pars and all(isinstance(x, (ast.Constant, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.BinOp, ast.JoinedStr, ast.Tuple))
                                     or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('list', 'dict', 'set', 'sorted', 'str', 'repr', 'len', 'bytearray') for x in xs):
                fresh.add(v)

        def root(n):
            while isinstance(n, (ast.Attribute, ast.Subscript)):
                n = n.value
            return n.id if isinstance(n, ast.Name) else None
        init = f.name == '__init__' and f.args.args
        for n in own_nodes(f):
            ts = []
            if isinstance(n, ast.Assign):
                ts = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                ts = [n.target]
            elif isinstance(n, ast.Delete):
                ts = n.targets
            for t in [y for x in ts for y in (x.elts if isinstance(x, (ast.Tuple, ast.List)) else [x])]:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    r = root(t)
                    if r in fresh or init and r == f.args.args[0].arg and isinstance(t, ast.Attribute):
                        continue
                    return '%s is assigned' % ast.unparse(t)[:60]
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in n.names for x in ast.walk(f)):
                    return '%s is assigned' % ', '.join(n.names)
            if isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute):
                    if fn.attr in MUTATORS:
                        base = fn.value
                        r = root(base)
                        if isinstance(base, ast.Name) and r in fresh or isinstance(base, (ast.List, ast.Dict, ast.Set, ast.Call, ast.Constant, ast.ListComp)) and r is None \
                                and not (isinstance(base, ast.Call) and isinstance(base.func, ast.Attribute)):
                            continue
                        if isinstance(base, ast.Name) and base.id in ('list', 'dict', 'set') and n.args and root(n.args[0]) in fresh:
                            continue
                        if isinstance(base, ast.Name) and any(isinstance(s, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name) == base.id for a in s.names) for s in m.tree.body):
                            continue
                        return '%s is called' % ast.unparse(fn)[:60]
                    base = ast.unparse(fn.value)
                    if base in ('os', 'shutil') and fn.attr in ('remove', 'rename', 'unlink', 'mkdir', 'makedirs', 'chmod', 'replace', 'rmdir', 'rmtree', 'copy', 'copyfile', 'move'):
                        return '%s is called' % ast.unparse(fn)[:60]
                    if isinstance(fn.value, ast.Name) and fn.value.id in ('log', 'trace', 'os', 're', 'math', 'sys', 'str', 'list', 'dict', 'int', 'float', 'string'):
                        continue
                    for g, mm in self.methods.get(fn.attr, ()):
                        if g is not f and not self.pure(g, mm):
                            return '%s is called, where %s' % (ast.unparse(fn)[:40], self.why.get(id(g), 'something changes'))
                elif isinstance(fn, ast.Name):
                    if fn.id in ('setattr', 'delattr', 'exec', 'eval', 'open'):
                        return '%s is called' % fn.id
                    g = self.resolve(fn.id, m)
                    if g and g[0] is not f and not self.pure(*g):
                        return '%s is called, where %s' % (fn.id, self.why.get(id(g[0]), 'something changes'))
                    if fn.id in ('yueval', 'yuparse'):
                        return '%s is called' % fn.id
        return None

    def resolve(self, name, m):
        if (m.name, name) in self.byname:
            return self.byname[(m.name, name)]
        for s in m.tree.body:
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if (a.asname or a.name) == name:
                        for (mn, n), g in self.byname.items():
                            if n == a.name and mn.endswith((s.module or '').rsplit('.', 1)[-1]):
                                return g
        return None


def representation(rep, repo):
    e = Effects(repo)
    k = 0
    for m in repo.mods.values():
        for q, f in m.functions.items():
            if q.endswith('.__repr__') and q.split('.')[0] in m.classes:
                k += 1
                rep.check(e.pure(f, m), 'N2', q, 'the representation of a node, made when tracing is on, has an effect: %s' % e.why.get(id(f), ''), where(f))
    rep.count('representations', k)


# ---------------------------------------------------------------------- N4
def controlled(rep, m, q, f, own, fields, pure):
    """functions too big for path analysis: what a diagnostic condition controls"""
    taint = set()
    grow = True
    while grow:
        grow = False
        for n in own_nodes(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id not in taint:
                if any(diag_read(x, own, fields) or isinstance(x, ast.Name) and x.id in taint for x in ast.walk(n.value)):
                    if sum(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == n.targets[0].id for x in ast.walk(f)) == 1:
                        taint.add(n.targets[0].id)
                        grow = True

    def tainted(t):
        return any(diag_read(x, own, fields) or isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in taint for x in ast.walk(t))

    def message(s):
        return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id in own

    def effects(body):
        for s in body:
            if message(s) or isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.If):
                yield from effects(s.body)
                yield from effects(s.orelse)
            elif isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Delete)):
                yield s
            elif isinstance(s, (ast.Assign, ast.AugAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in own:
                        continue
                    if isinstance(t, ast.Name) and only_messages(t.id):
                        continue
                    yield s
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                fn = s.value.func
                if isinstance(fn, ast.Name):
                    g = pure.resolve(fn.id, m)
                    if g and not pure.pure(*g) and not reads(g[0], own, fields):
                        yield s
                elif isinstance(fn, ast.Attribute) and fn.attr in MUTATORS:
                    yield s

    def only_messages(v):
        inside = set()
        for n in own_nodes(f):
            if message(n):
                inside |= {id(x) for x in ast.walk(n)}
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in n.targets):
                inside |= {id(x) for x in ast.walk(n)}
        return all(id(x) in inside for x in own_nodes(f) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load))
    found = False
    for n in own_nodes(f):
        if isinstance(n, ast.If) and tainted(n.test):
            a, b = list(effects(n.body)), list(effects(n.orelse))
            if [ast.dump(x) for x in a] != [ast.dump(x) for x in b]:
                s = (a + b)[0]
                rep.bad('N4', '%s: %s' % (q, ast.unparse(n.test)[:60]), 'a diagnostic condition controls "%s"' % ast.unparse(s).split('\n')[0][:80], where(n))
                found = True
        elif isinstance(n, ast.While) and tainted(n.test):
            rep.bad('N4', '%s: %s' % (q, ast.unparse(n.test)[:60]), 'a diagnostic condition controls a loop', where(n))
            found = True
        elif isinstance(n, ast.Return) and n.value is not None and tainted(n.value):
            rep.bad('N4', '%s: return' % q, 'the result depends on a diagnostic setting: %s' % ast.unparse(n)[:80], where(n))
            found = True
    if not found:
        rep.ok('N4', q)
