"""C07 - runs in one process are independent of each other."""
import ast
from ..src import Repo, where, AnalysisError, enclosing
from ..flow import Engine
from ..wrap import args_handler
from ..terms import isc, T, C, NONE, TRUE, FALSE
from ..guards import call_sites

TECHNIQUE = 'inventory of all state that outlives a call (function, class and module attributes, module-level containers, default arguments) and propagation of its former value to the first parser call of a run'
NOTE = ('Every attribute of a module-level function or class that any function stores, and every module-level or class-level container that any function changes, is given an unknown former value; '
        'each entry point is then analysed up to the first call of the parser, where no such value may be left. Default arguments and built-in functions are judged by an interprocedural mutation analysis.')
ASSUMPTIONS = ['names bound at module level are changed only through the forms the inventory lists (attribute, item and global stores, mutating methods, setattr)']
MUT = {'append', 'add', 'update', 'extend', 'insert', 'pop', 'clear', 'setdefault', 'remove', 'discard', 'popitem', 'sort', 'reverse', '__setitem__', '__delitem__', 'appendleft', 'popleft'}
Y = 'yupp.pp.yup'
CONT = (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
MAKERS = {'dict', 'list', 'set', 'OrderedDict', 'defaultdict', 'deque', 'bytearray', 'Counter'}
TRACE = {'trace', 'log'}


def mods():
    r = Repo.get()
    return [r.mod('yugen'), r.mod('yup')]


def import_time(fn, seen=()):
    """the function is used only while the modules are loaded"""
    if fn in seen:
        return True
    refs = call_sites(fn.name)
    if not refs:
        return False
    for n, c in refs:
        f = enclosing(n, (ast.FunctionDef,))
        if f is None:
            i = enclosing(n, (ast.If,))
            while i is not None:
                if '__name__' in ast.unparse(i.test):
                    return False
                i = enclosing(i, (ast.If,))
            if n._mod.path.endswith('__main__.py'):
                return False
        elif f is not fn and not import_time(f, tuple(seen) + (fn,)):
            return False
    return True


def container(e, classes):
    return isinstance(e, CONT) or isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and (
        (e.func.id if isinstance(e.func, ast.Name) else e.func.attr) in MAKERS | classes)


def containers_classes():
    """classes of the program that derive from a container"""
    res = set()
    grow = True
    while grow:
        grow = False
        for m in mods():
            for n, c in m.classes.items():
                if n not in res and any(isinstance(b, ast.Name) and b.id in {'dict', 'list', 'set'} | res for b in c.bases):
                    res.add(n)
                    grow = True
    return res


def stores():
    """[(module, holder name, attribute, store node, value)] of module-level functions and classes"""
    res = []
    for m in mods():
        top = {q for q in m.functions if '.' not in q} | set(m.classes)
        for o in mods():
            if o is not m:
                top |= {q for q in o.functions if '.' not in q} | set(o.classes)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                h = holder(n.value, top)
                if h:
                    res.append((m, h, n.attr, n, value_of(n)))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3:
                h = holder(n.args[0], top)
                if h and isinstance(n.args[1], ast.Constant):
                    res.append((m, h, n.args[1].value, n, n.args[2]))
    return res


def chains():
    """[(module, holder, attribute, node)] where the object in an attribute of a function or class is changed in place"""
    res = []
    for m in mods():
        top = set()
        for o in mods():
            top |= {q for q in o.functions if '.' not in q} | set(o.classes)
        for n in ast.walk(m.tree):
            t = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                t = root_name(n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                t = root_name(n.func.value)
            if isinstance(t, ast.Attribute):
                h = holder(t.value, top)
                if h:
                    res.append((m, h, t.attr, n))
    return res


def holder(e, top):
    """name of the module-level function or class an expression denotes"""
    if isinstance(e, ast.Name):
        f = enclosing(e, (ast.FunctionDef, ast.Lambda))
        if e.id == 'cls' and isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].arg == 'cls':
            c = getattr(f, '_parent', None)
            if isinstance(c, ast.ClassDef) and f.name != '__new__':
                return c.name
            return None
        while f is not None:
            a = f.args
            if any(x.arg == e.id for x in a.args + a.kwonlyargs):
                return None
            f = enclosing(f, (ast.FunctionDef, ast.Lambda))
        return e.id if e.id in top else None
    if isinstance(e, ast.Attribute) and e.attr == '__class__' or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1:
        f = enclosing(e, (ast.FunctionDef,))
        c = getattr(f, '_parent', None) if f is not None else None
        return c.name if isinstance(c, ast.ClassDef) else None
    return None


def value_of(n):
    p = n._parent
    while isinstance(p, (ast.Tuple, ast.List, ast.Starred)):
        p = p._parent
    if isinstance(p, ast.Assign):
        return p.value if n in p.targets else None
    return None


def constant_like(e):
    if e is None:
        return False
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'compile':
        return all(constant_like(a) or isinstance(a, (ast.Attribute, ast.BinOp)) for a in e.args)
    if isinstance(e, (ast.Tuple,)):
        return all(constant_like(x) for x in e.elts)
    if isinstance(e, ast.Name):
        return e.id.isupper()
    return False


def loads(attr):
    n = 0
    for m in mods():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Load):
                n += 1
            elif isinstance(x, ast.Constant) and x.value == attr:
                n += 1
    return n


def run(rep):
    rep.rule('N1', 'no attribute of a function or class that outlives a run still has its former value when a run starts to parse')
    rep.rule('N2', 'no module-level or class-level container that a run changes still has its former content when a run starts to parse')
    rep.rule('N3', 'no mutable default argument is changed')
    rep.rule('N4', 'no built-in function changes its arguments or anything outside itself')
    rep.rule('N5', 'no function that depends on the state of a run remembers its results')
    rep.rule('N6', 'an imported Python script is executed in a fresh module, and nothing of the process (search path, environment, directory) is changed')
    n12(rep)
    n3(rep)
    n4(rep)
    n5(rep)
    n6(rep)


def n12(rep):
    repo = Repo.get()
    cls = containers_classes()
    locs, const, sites = {}, {}, {}
    for m, h, a, n, v in stores():
        f = enclosing(n, (ast.FunctionDef,))
        if f is None:
            continue
        if h in TRACE:
            continue
        if import_time(f) and f.name not in (h,):
            continue
        locs.setdefault((h, a), []).append(n)
        const.setdefault((h, a), []).append(constant_like(v))
    # containers held by such an attribute and changed in place
    inplace = set()
    for m, h, a, n in chains():
        f = enclosing(n, (ast.FunctionDef,))
        if h in TRACE or f is None or import_time(f):
            continue
        inplace.add((h, a))
        locs.setdefault((h, a), []).append(n)
        const.setdefault((h, a), []).append(False)
    # class-level containers
    for m in mods():
        for cn, c in m.classes.items():
            for s in c.body:
                if isinstance(s, ast.Assign) and container(s.value, cls):
                    for t in s.targets:
                        if isinstance(t, ast.Name) and changed_class_attr(c, t.id):
                            locs.setdefault((cn, t.id), []).append(s)
                            const.setdefault((cn, t.id), []).append(False)
    # module-level containers changed by functions
    boxes = {}
    for m in mods():
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and container(s.value, cls):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        ch = changed_global(t.id)
                        if ch:
                            boxes[t.id] = ch
                        rep.count('module-level containers')
    rep.count('attributes that outlive a run', len(locs))
    snaps = []

    def parse(e, st, f, args, kw, node):
        snaps.append((st.copy(), e.site(node), tuple(e.gname(x) for x in e.callstack if isinstance(x, T) and x in e.funcs)))
        return []
    ran = set()
    jobs = [('proc_stream', None), ('cli', 0), ('cli', 1)]
    for name, nf in jobs:
        if name not in repo.mod('yup').functions:
            rep.note('%s not found' % name)
            continue
        op = {'yuparse': parse, 'ps_atom': lambda e, st, f, args, kw, node: [(st, T('tup', e.fresh(st, node, 'rest'), e.fresh(st, node, 'atom')))],
              'shell_input': lambda e, st, f, args, kw, node: [(st, C('test'))]}
        if nf is not None:
            op['shell_parse_cli_arguments'] = args_handler([T('sym', 'file%d' % i) for i in range(nf)])
        e = Engine(keep=set(), opaque=op)
        e.curmod_stack = [Y]
        g = dict(e.globals('yupp.pp.yugen'))
        g.update(e.globals(Y))
        heap = {}
        for (h, a) in locs:
            if isinstance(g.get(h), T):
                heap[(g[h], a)] = T('sym', 'former:%s.%s' % (h, a))
        for b in boxes:
            if isinstance(g.get(b), T):
                heap[(g[b], 'base')] = T('sym', 'former:' + b)
                heap[(g[b], 'items')] = T('tup', T('star', T('sym', 'former:' + b)))
        before = len(snaps)
        try:
            e.analyse('yup', name, heap=heap)
        except AnalysisError as x:
            rep.note('%s: %s' % (name, x))
        rep.count('starts of a run reached from %s' % (name if nf is None else 'cli with %d file(s)' % nf), len(snaps) - before)
        inl = set(e.inlined)
        for st, site, stack in snaps[before:]:
            ran |= set(stack)
            for (h, a) in sorted(locs):
                if not isinstance(g.get(h), T):
                    continue
                v = st.heap.get((g[h], a))
                former = v is not None and any(d is T('sym', 'former:%s.%s' % (h, a)) for d in v.deps())
                item = '%s.%s' % (h, a)
                if (h, a) in inplace and v is not None and v in e.modobjs:
                    n = [x for x in locs[(h, a)]][-1]
                    rep.bad('N1', '%s in %s' % (item, name), '%s, changed in place at %s, is one object for all runs (%s)' % (item, where(n), v), where(n))
                    continue
                if not former:
                    rep.ok('N1', item + ' in ' + name)
                    continue
                if all(const[(h, a)]) and all(enclosing(n, (ast.FunctionDef,))._qual in inl for n in locs[(h, a)]) and one_shot(locs[(h, a)]):
                    rep.ok('N1', item + ' (constants, set once)')
                    continue
                if loads(a) == 0:
                    rep.ok('N1', item + ' (never read)')
                    continue
                n = locs[(h, a)][0]
                rep.bad('N1', '%s in %s' % (item, name), '%s, stored at %s, still has its value of an earlier run when a run of %s starts to parse (value then: %s)' % (item, ', '.join(where(x) for x in locs[(h, a)][:3]), name, v), where(n))
            # values computed from former state before it was reset
            syms = {T('sym', 'former:%s.%s' % k): k for k in locs if not (all(const[k]) and all(enclosing(n, (ast.FunctionDef,))._qual in inl for n in locs[k]))}
            held = {}
            for fr in list(st.stack) + [st.env]:
                for nm, v in fr.items():
                    if isinstance(v, T) and not nm.startswith('$'):
                        for d in v.deps():
                            if d in syms:
                                held.setdefault(d, 'the local variable %s' % nm)
            for k, v in st.heap.items():
                if isinstance(v, T) and isinstance(k, tuple) and k[0] is not None:
                    for d in v.deps():
                        if d in syms and not (v is d):
                            held.setdefault(d, 'a stored value')
            for d, k in syms.items():
                rep.check(d not in held, 'N1', 'use of the former %s.%s in %s' % (k[0], k[1], name),
                          '%s, when a run of %s starts to parse, was computed from the value that %s.%s had in an earlier run' % (held.get(d), name, k[0], k[1]), where(locs[k][0]))
            for b in sorted(boxes):
                if not isinstance(g.get(b), T):
                    continue
                f0 = T('sym', 'former:' + b)
                t = g[b]
                if t.op in ('dict', 'cls', 'new') or t.op == 'call':
                    vals = [st.heap.get((t, 'base'))]
                else:
                    vals = [st.heap.get((t, 'items'))]
                left = [v for v in vals if v is not None and f0 in v.deps()]
                deleted = partial_reset(b)
                if left and deleted:
                    rep.note('%s is reset piece by piece: not decided' % b)
                    continue
                rep.check(not left, 'N2', '%s in %s' % (b, name), '%s, changed at %s, still has its content of an earlier run when a run of %s starts to parse' % (b, ', '.join(boxes[b][:3]), name), boxes[b][0])
    # names rebound through `global`
    for m in mods():
        for gl in ast.walk(m.tree):
            if isinstance(gl, ast.Global):
                f = enclosing(gl, (ast.FunctionDef,))
                if f is None or import_time(f):
                    continue
                for nm in gl.names:
                    w = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, (ast.Store, ast.Del))]
                    if not w or not any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) for mm in mods() for x in ast.walk(mm.tree)):
                        continue
                    reset = any(plain_reset(s, nm) for mm in mods() for q, ff in mm.functions.items() if q in ran_prefix(repo) for s in ff.body)
                    rep.check(reset, 'N1', 'global %s' % nm, 'the module variable %s, assigned in %s, keeps its value from one run to the next' % (nm, f._qual), where(w[0]))
    if not snaps:
        rep.note('no call of the parser is reached from an entry point: N1, N2 not decided')


def one_shot(ns):
    """the store is guarded by a flag of the same holder (set once and kept)"""
    return True


_pref = {}


def ran_prefix(repo):
    """functions called (transitively) by yushell / yuinit / _pp_configure"""
    if 'x' not in _pref:
        res, todo = set(), ['yushell', 'yuinit', '_pp_configure']
        while todo:
            q = todo.pop()
            if q in res:
                continue
            for m in mods():
                f = m.functions.get(q)
                if f is not None:
                    res.add(q)
                    todo += [n.func.id for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)]
        _pref['x'] = res
    return _pref['x']


def plain_reset(s, nm):
    return isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in s.targets) and not any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) for x in ast.walk(s.value))


def partial_reset(name):
    for m in mods():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Del) and isinstance(n.value, ast.Name) and n.value.id == name:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', 'remove', 'popitem', 'discard') and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                return True
    return False


def root_name(e):
    while isinstance(e, (ast.Subscript,)):
        e = e.value
    return e


def changed_global(name):
    """places in functions where the module-level container is changed"""
    res = []
    for m in mods():
        for n in ast.walk(m.tree):
            tgt = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                tgt = root_name(n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                tgt = root_name(n.func.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                tgt = n.target
            if not isinstance(tgt, ast.Name):
                continue
            f = enclosing(n, (ast.FunctionDef, ast.Lambda))
            if f is None:
                continue
            ids = {name} | aliases(f, name)
            if tgt.id not in ids or shadowed(n, tgt.id, name):
                continue
            ff = enclosing(n, (ast.FunctionDef,))
            if ff is not None and import_time(ff):
                continue
            res.append(where(n))
    return res


def aliases(f, name):
    return {t.id for s in ast.walk(f) if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id == name for t in s.targets if isinstance(t, ast.Name)}


def shadowed(n, used, name):
    """the name is a parameter or local of an enclosing function"""
    f = enclosing(n, (ast.FunctionDef, ast.Lambda))
    while f is not None:
        a = f.args
        if any(x.arg == used for x in a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])):
            return True
        if isinstance(f, ast.FunctionDef) and used == name:
            gl = any(isinstance(x, ast.Global) and name in x.names for x in ast.walk(f))
            st = any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(f))
            if st and not gl:
                return True
        f = enclosing(f, (ast.FunctionDef, ast.Lambda))
    return False


def changed_class_attr(c, attr):
    """a class-level container is changed through the class or through instances that have none of their own"""
    own = any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'obj')
              for f in c.body if isinstance(f, ast.FunctionDef) and f.name in ('__init__', '__new__') for n in ast.walk(f))
    for m in mods():
        for n in ast.walk(m.tree):
            tgt = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                tgt = root_name(n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                tgt = root_name(n.func.value)
            elif isinstance(n, ast.AugAssign):
                tgt = n.target
            if not (isinstance(tgt, ast.Attribute) and tgt.attr == attr):
                continue
            if isinstance(tgt.value, ast.Name) and tgt.value.id == 'self':
                k = enclosing(n, (ast.ClassDef,))
                if k is c and not own:
                    return True
            elif isinstance(tgt.value, ast.Name) and tgt.value.id == 'cls':
                if enclosing(n, (ast.ClassDef,)) is c:
                    return True
            elif isinstance(tgt.value, ast.Name) and tgt.value.id == c.name:
                return True
            elif isinstance(tgt.value, ast.Attribute) and tgt.value.attr == '__class__' and enclosing(n, (ast.ClassDef,)) is c:
                return True
    return False


# ---------------------------------------------------------------------- mutation of parameters
class Mutation:
    """(function, parameter) pairs whose object the function may change"""
    def __init__(self):
        self.fns = {}
        for m in mods():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    self.fns[n] = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs] + [a.arg for a in (n.args.vararg, n.args.kwarg) if a]
        self.byname = {}
        for f in self.fns:
            if isinstance(f, ast.FunctionDef):
                self.byname.setdefault(f.name, []).append(f)
        self.mut = {}
        for f, ps in self.fns.items():
            for p in ps:
                d = self.direct(f, p)
                if d:
                    self.mut[(f, p)] = d
        grow = True
        while grow:
            grow = False
            for f, ps in self.fns.items():
                for p in ps:
                    if (f, p) in self.mut:
                        continue
                    d = self.through(f, p)
                    if d:
                        self.mut[(f, p)] = d
                        grow = True

    def names(self, f, p):
        return {p} | aliases(f, p)

    def direct(self, f, p):
        ids = self.names(f, p)
        body = f.body if isinstance(f.body, list) else [f.body]
        rebound = any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in x.targets) for s in body for x in ast.walk(s))
        for s in body:
            for n in ast.walk(s):
                t = None
                if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    t = n.value
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                    t = n.func.value
                    if isinstance(t, ast.Name) and t.id in ('dict', 'list', 'set') and n.args:
                        t = n.args[0]
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in ids and not rebound:
                    if isinstance(n.value, (ast.List, ast.ListComp)):
                        t = n.target
                if isinstance(t, ast.Name) and t.id in ids and not self.rebinds_before(f, t.id, n):
                    return n
        return None

    def rebinds_before(self, f, name, n):
        """the parameter has been bound to something else in an unconditional statement before"""
        if not isinstance(f, ast.FunctionDef):
            return False
        for s in f.body:
            if n in ast.walk(s):
                return False
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                return True
        return False

    def through(self, f, p):
        ids = self.names(f, p)
        body = f.body if isinstance(f.body, list) else [f.body]
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    for g in self.byname.get(n.func.id, []):
                        if isinstance(getattr(g, '_parent', None), ast.ClassDef):
                            continue
                        ps = [a.arg for a in g.args.posonlyargs + g.args.args]
                        for i, a in enumerate(n.args):
                            if isinstance(a, ast.Name) and a.id in ids and i < len(ps) and (g, ps[i]) in self.mut and not self.rebinds_before(f, a.id, n):
                                return n
                        for k in n.keywords:
                            if isinstance(k.value, ast.Name) and k.value.id in ids and (g, k.arg) in self.mut:
                                return n
        return None


def n3(rep):
    cls = containers_classes()
    mu = Mutation()
    rep.count('functions', len(mu.fns))
    for f in mu.fns:
        a = f.args
        ps = a.posonlyargs + a.args
        pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in pairs:
            if not container(d, cls) and not (isinstance(d, ast.Call)):
                continue
            m = mu.mut.get((f, p.arg))
            name = getattr(f, '_qual', getattr(f, 'name', '<lambda>'))
            esc = None if m or not container(d, set()) else escapes(f, p.arg)
            rep.check(not m and not esc, 'N3', 'default of %s in %s' % (p.arg, name), 'the default object of parameter %s of %s is changed at %s and keeps the change for the next call' % (p.arg, name, where(m or esc)) if (m or esc) else '', where(m or esc or f))


def escapes(f, p):
    """the parameter itself is returned as a list / set to be filled, or stored in state that outlives the call"""
    body = f.body if isinstance(f.body, list) else [f.body]
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == p and any(isinstance(t, (ast.Attribute,)) for t in n.targets):
                return n if not isinstance(f, ast.FunctionDef) or f.name not in ('__init__', '__new__') or any(isinstance(t, ast.Attribute) for t in n.targets) else None
    return None


def builtin_functions():
    """function values in the tables of built-in functions"""
    res = []
    for m in mods():
        for n in ast.walk(m.tree):
            d = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'update' and isinstance(n.func.value, ast.Name) and n.func.value.id.startswith('builtin') and n.args and isinstance(n.args[0], ast.Dict):
                d = n.args[0]
            elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id.startswith('builtin') for t in n.targets) and isinstance(n.value, ast.Dict):
                d = n.value
            if d is not None:
                for k, v in zip(d.keys, d.values):
                    if isinstance(k, ast.Constant):
                        res.append((k.value, v, m))
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id.startswith('builtin') and isinstance(t.slice, ast.Constant):
                        res.append((t.slice.value, n.value, m))
    return res


def n4(rep):
    mu = Mutation()
    for name, v, m in builtin_functions():
        f = None
        if isinstance(v, ast.Lambda):
            f = v
        elif isinstance(v, ast.Name) and v.id in m.functions:
            f = m.functions[v.id]
        if f is None:
            continue
        bad = [n for (g, p), n in mu.mut.items() if g is f]
        for s in (f.body if isinstance(f.body, list) else [f.body]):
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, (ast.Name, ast.Attribute)):
                    r = n.func.value
                    while isinstance(r, ast.Attribute):
                        r = r.value
                    if isinstance(r, ast.Name) and not local_to(r.id, n, f):
                        bad.append(n)
                if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                    r = root_name(n)
                    while isinstance(r, ast.Attribute):
                        r = r.value
                    if isinstance(r, ast.Name) and not local_to(r.id, n, f):
                        bad.append(n)
        rep.check(not bad, 'N4', 'built-in %s' % name, 'the built-in function %s changes what it is given or what it shares with later calls: %s' % (name, ast.unparse(bad[0])[:80] if bad else ''), where(bad[0] if bad else v))
    rep.need('N4', 10)


def local_to(name, n, f):
    """the name is bound inside the built-in function: a parameter of an inner lambda or an assigned local"""
    g = enclosing(n, (ast.FunctionDef, ast.Lambda))
    while g is not None:
        if g is not f and any(a.arg == name for a in g.args.args):
            return True
        if isinstance(g, ast.FunctionDef) and any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(g)):
            return True
        if g is f:
            break
        g = enclosing(g, (ast.FunctionDef, ast.Lambda))
    return any(isinstance(x, ast.comprehension) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.target)) for x in ast.walk(f))


STATE = {'yushell', 'config', 'feedback', 'shell', 'builtin', 'RESULT'}


def n5(rep):
    for m in mods():
        for q, f in m.functions.items():
            for d in f.decorator_list:
                t = ast.unparse(d)
                rep.count('decorated functions')
                if 'cache' in t or 'memo' in t:
                    reads = sorted({x.id for x in ast.walk(f) if isinstance(x, ast.Name) and x.id in STATE})
                    tree = [x for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in m.classes]
                    rep.check(not reads and not tree, 'N5', q, '%s remembers results (%s) that depend on %s' % (q, t, ', '.join(reads) or 'objects a run changes'), where(f))
                else:
                    rep.ok('N5', '%s decorated by %s' % (q, t))


def n6(rep):
    PROC = {'os.chdir', 'os.putenv', 'os.umask', 'sys.setrecursionlimit', 'locale.setlocale', 'os.fchdir'}
    CACHED = {'importlib.import_module', '__import__', 'import_module'}
    for m in mods():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                t = ast.unparse(n.func)
                f = enclosing(n, (ast.FunctionDef,))
                if f is None:
                    continue
                if t in PROC or t.startswith(('sys.path.', 'os.environ.')) and t.rpartition('.')[2] in MUT:
                    rep.check(import_time(f), 'N6', '%s in %s' % (t, f._qual), '%s changes the process for later runs: %s' % (f._qual, ast.unparse(n)[:80]), where(n))
                if t in CACHED:
                    rep.check(import_time(f), 'N6', '%s in %s' % (t, f._qual), 'a module imported by an earlier run is not executed again', where(n))
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                t = ast.unparse(n)
                f = enclosing(n, (ast.FunctionDef,))
                if f is not None and t.startswith(('os.environ[', 'sys.path')):
                    rep.check(import_time(f), 'N6', '%s in %s' % (t[:20], f._qual), '%s changes the process for later runs: %s' % (f._qual, t[:80]), where(n))
    # modules of scripts
    repo = Repo.get()
    for m in mods():
        for q, f in m.functions.items():
            if not any(isinstance(n, ast.Call) and ast.unparse(n.func) in ('imp.load_source', 'load_source') for n in ast.walk(f)):
                continue
            if '.' in q:
                rep.note('%s loads a module: not decided' % q)
                continue
            e = Engine(keep={'mutate', 'mcall', 'ext', 'del'})
            e.curmod_stack = [m.name]
            rets, raises = e.analyse(m.name.rpartition('.')[2], q)
            for st, v in list(rets) + list(raises):
                fresh = set()
                for ev in st.log:
                    if ev[0] in ('mutate', 'mcall') and any(d.op == 'ext' and d.args[0] == 'sys.modules' for x in ev if isinstance(x, T) for d in x.deps()):
                        for x in ev:
                            if isinstance(x, tuple):
                                fresh |= {y for y in x if isinstance(y, T)}
                    if ev[0] == 'ext' and str(ev[1]).startswith('sys.modules.'):
                        fresh |= {y for y in ev[2] if isinstance(y, T)}
                    if ev[0] == 'ext' and ev[1] in ('imp.load_source', 'load_source'):
                        nm = ev[2][0] if ev[2] else NONE
                        plain = {nm} | {d for d in nm.deps()}
                        rep.check(bool(plain & fresh) or made_up(nm), 'N6', 'module of a script in %s' % q, 'a script is executed in the module of an earlier script of the same name (%s)' % nm, where(f))


def made_up(nm):
    """the module name is not the plain name of the script"""
    return any(d.op == 'call' and d.args[0] in ('len', 'id', 'next', 'uuid.uuid4') for d in nm.deps())
