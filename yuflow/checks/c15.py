"""C15 - every documented built-in exists and every name in the program is defined."""
import ast, builtins, importlib, inspect, re
from ..src import Repo, AnalysisError, where

TECHNIQUE = 'symbolic reading of the statements that fill the table of built-in functions, compared with the reference; resolution of every name by the scoping rules of the language; definite-assignment dataflow analysis; arity of every call of a function of the package'
NOTE = 'Names of modules of the standard library are looked up in the library of the checking interpreter.'
ASSUMPTIONS = ['the standard library of the checking interpreter has what the one of the supported interpreter has']


def run(rep):
    rep.rule('B1', 'a documented built-in is in the table when a translation starts')
    rep.rule('B2', 'a documented built-in accepts the documented number of arguments')
    rep.rule('B3', 'every name resolves to a definition')
    rep.rule('B4', 'every local name is assigned before it is used')
    rep.rule('B5', 'every attribute of a module, of the settings, of the state of a run and of an own object exists')
    rep.rule('B6', 'every call of a function of the package supplies what the function needs')
    r = Repo.get()
    for f in (builtin_table, names, assigned, attributes, calls):
        try:
            f(rep, r)
        except AnalysisError as x:
            rep.note('%s: %s' % (f.__name__, x))
    rep.need('B3')


# ---------------------------------------------------------------------- table of built-in functions
class Table:
    """name -> expression or ('ext', module, name); 'open' if something unknown was put in"""

    def __init__(self):
        self.d, self.open = {}, []

    def copy(self):
        t = Table()
        t.d, t.open = dict(self.d), list(self.open)
        return t


def ext_module(m, e):
    """name of the module of the standard library an expression names"""
    if isinstance(e, ast.Name):
        for s in m.tree.body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if (a.asname or a.name) == e.id:
                        return a.name
    return None


def const_str(m, e, depth=0):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.Name) and depth < 4:
        v = [s.value for s in m.tree.body if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == e.id]
        if len(v) == 1:
            return const_str(m, v[0], depth + 1)
    return None


class Reader:
    """reads the statements of the module that make tables (dictionaries)"""

    def __init__(self, m):
        self.m, self.tabs, self.unknown = m, {}, []

    def table(self, e):
        """the table an expression gives, or None"""
        t = Table()
        if isinstance(e, ast.Name) and e.id in self.tabs:
            return self.tabs[e.id]
        if isinstance(e, ast.Dict):
            for k, v in zip(e.keys, e.values):
                if k is None:
                    x = self.table(v)
                    if x is None:
                        t.open.append(v)
                    else:
                        t.d.update(x.d)
                        t.open += x.open
                    continue
                s = const_str(self.m, k)
                if s is None:
                    t.open.append(k)
                else:
                    t.d[s] = v
            return t
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'vars' and len(e.args) == 1:
            n = ext_module(self.m, e.args[0])
            if n is None:
                return None
            try:
                mod = importlib.import_module(n)
            except ImportError:
                return None
            t.d = {k: ('ext', n, k) for k in vars(mod)}
            return t
        if isinstance(e, ast.Attribute) and e.attr == '__dict__':
            return self.table(ast.Call(ast.Name('vars', ast.Load()), [e.value], []))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('dict', 'OrderedDict'):
            for a in e.args:
                x = self.table(a)
                if x is None:
                    t.open.append(a)
                else:
                    t.d.update(x.d)
                    t.open += x.open
            for k in e.keywords:
                if k.arg is None:
                    x = self.table(k.value)
                    if x is None:
                        t.open.append(k.value)
                    else:
                        t.d.update(x.d)
                        t.open += x.open
                else:
                    t.d[k.arg] = k.value
            return t
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'copy' and not e.args:
            x = self.table(e.func.value)
            return x.copy() if x else None
        if isinstance(e, ast.DictComp):
            t.open.append(e)
            return t
        return None

    def test(self, e):
        """True, False or None"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            x = self.test(e.operand)
            return None if x is None else not x
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
            s, t = const_str(self.m, e.left), self.table(e.comparators[0])
            if s is None or t is None or t.open and s not in t.d:
                return None
            return (s in t.d) == isinstance(e.ops[0], ast.In)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'hasattr' and len(e.args) == 2:
            n, s = ext_module(self.m, e.args[0]), const_str(self.m, e.args[1])
            if n and s:
                try:
                    return hasattr(importlib.import_module(n), s)
                except ImportError:
                    return None
        return None

    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t = s.targets[0]
            if isinstance(t, ast.Name):
                x = self.table(s.value)
                if x is not None:
                    self.tabs[t.id] = x if isinstance(s.value, ast.Name) else x
                elif t.id in self.tabs:
                    del self.tabs[t.id]
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in self.tabs:
                k = const_str(self.m, t.slice)
                if k is None:
                    self.tabs[t.value.id].open.append(t)
                else:
                    self.tabs[t.value.id].d[k] = s.value
        elif isinstance(s, ast.AugAssign) and isinstance(s.op, ast.BitOr) and isinstance(s.target, ast.Name) and s.target.id in self.tabs:
            self.put(self.tabs[s.target.id], s.value)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in self.tabs:
                    k = const_str(self.m, t.slice)
                    if k is None:
                        self.tabs[t.value.id].open.append(t)
                    else:
                        self.tabs[t.value.id].d.pop(k, None)
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            c = s.value
            if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in self.tabs:
                t = self.tabs[c.func.value.id]
                if c.func.attr == 'update':
                    for a in c.args:
                        self.put(t, a)
                    for k in c.keywords:
                        if k.arg:
                            t.d[k.arg] = k.value
                        else:
                            self.put(t, k.value)
                elif c.func.attr == 'clear':
                    t.d.clear()
                    del t.open[:]
                elif c.func.attr in ('pop', '__delitem__') and c.args:
                    k = const_str(self.m, c.args[0])
                    if k is None:
                        t.open.append(c)
                    else:
                        t.d.pop(k, None)
                elif c.func.attr in ('setdefault', '__setitem__') and len(c.args) == 2:
                    k = const_str(self.m, c.args[0])
                    if k is None:
                        t.open.append(c)
                    elif c.func.attr == '__setitem__' or k not in t.d:
                        t.d[k] = c.args[1]
                else:
                    t.open.append(c)
            elif isinstance(c.func, ast.Name) and c.func.id in self.m.functions:
                self.enter(self.m.functions[c.func.id], c)
        elif isinstance(s, ast.If):
            x = self.test(s.test)
            if x is None:
                a, b = Reader(self.m), Reader(self.m)
                for r, body in ((a, s.body), (b, s.orelse)):
                    r.tabs = {k: v.copy() for k, v in self.tabs.items()}
                    r.block(body)
                for k in set(a.tabs) & set(b.tabs):
                    t = self.tabs.setdefault(k, Table())
                    t.d = {**b.tabs[k].d, **a.tabs[k].d}
                    t.open = a.tabs[k].open + b.tabs[k].open
            else:
                self.block(s.body if x else s.orelse)
        elif isinstance(s, ast.For):
            # a loop over names that are written down
            it = s.iter
            if isinstance(it, (ast.Tuple, ast.List)) and isinstance(s.target, ast.Name) and len(it.elts) <= 80:
                for x in it.elts:
                    for y in s.body:
                        self.stmt(Subst(s.target.id, x).visit(ast.parse(ast.unparse(y)).body[0]))
            else:
                self.touched(s)
        elif isinstance(s, (ast.Try, ast.With)):
            self.block(s.body)
            self.block(getattr(s, 'orelse', []))
            self.block(getattr(s, 'finalbody', []))
        elif isinstance(s, ast.While):
            self.touched(s)

    def touched(self, s):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id in self.tabs:
                self.tabs[n.id].open.append(s)

    def put(self, t, a):
        x = self.table(a)
        if x is None:
            t.open.append(a)
        else:
            t.d.update(x.d)
            t.open += x.open

    def enter(self, f, call):
        """a helper that fills a table: its parameters are read as what they stand for"""
        body = f.body
        pars = [a.arg for a in f.args.args]
        old = dict(self.tabs)
        for p, a in zip(pars, call.args):
            x = self.table(a)
            if x is not None:
                self.tabs[p] = x
        self.block(body)
        for p in pars:
            self.tabs.pop(p, None)
            if p in old:
                self.tabs[p] = old[p]


class Subst(ast.NodeTransformer):
    def __init__(self, name, value):
        self.name, self.value = name, value

    def visit_Name(self, n):
        return self.value if n.id == self.name and isinstance(n.ctx, ast.Load) else n


ROW = re.compile(r'`\(\$(.+?)\)`')


def documented(text):
    """[(name, min, max or None)]"""
    res = []
    for line in text.splitlines():
        if '|' not in line:
            continue
        for u in ROW.findall(line.split('|')[0]):
            name, _, rest = u.strip().partition(' ')
            rest = rest.strip()
            if '...' in rest:
                res.append((name, 0, None))
                continue
            opt = len(re.findall(r'[\w*]+', ''.join(re.findall(r'\[.*', rest))))
            req = len(re.findall(r'[\w*]+', re.sub(r'\[.*', '', rest)))
            res.append((name, req, req + opt))
    return res


def accepts(m, v, n):
    """does a built-in accept n arguments? None: unknown"""
    if isinstance(v, ast.Lambda) or isinstance(v, ast.FunctionDef):
        a = v.args
        if a.kwonlyargs and any(d is None for d in a.kw_defaults):
            return False
        p = len(a.posonlyargs) + len(a.args)
        return p - len(a.defaults) <= n and (a.vararg is not None or n <= p)
    if isinstance(v, tuple):
        try:
            return sig(getattr(importlib.import_module(v[1]), v[2]), n)
        except (ImportError, AttributeError):
            return None
    if isinstance(v, ast.Attribute):
        x = ext_module(m, v.value)
        if x:
            try:
                return sig(getattr(importlib.import_module(x), v.attr), n)
            except (ImportError, AttributeError):
                return None
    if isinstance(v, ast.Name):
        if v.id in m.functions:
            f = m.functions[v.id]
            return None if f.decorator_list else accepts(m, f, n)
        if v.id in m.classes:
            return None
        if hasattr(builtins, v.id) and not any(v.id in bound_names(s) for s in m.tree.body):
            return sig(getattr(builtins, v.id), n)
        if hasattr(builtins, v.id) and v.id in ('abs', 'chr', 'hex', 'oct', 'len', 'round', 'sum', 'int', 'str'):
            return sig(getattr(builtins, v.id), n)
    return None


def sig(f, n):
    if not callable(f):
        return n == 0
    if isinstance(f, type) or f in (max, min, getattr, range):
        return None
    try:
        inspect.signature(f).bind(*[None] * n)
        return True
    except TypeError:
        return False
    except ValueError:
        return None


def tables(rep, repo):
    """what built-in names are bound to when a translation starts"""
    m = repo.mod('yugen')
    r = Reader(m)
    r.block(m.tree.body)
    lookups = [x for x in ('builtin', 'builtin_special') if x in r.tabs]
    tabs = [r.tabs[x] for x in lookups]
    if len(tabs) < 2:
        # under other names: all the big tables
        tabs = [t for t in r.tabs.values() if len(t.d) > 3]
    # what the beginning of a run makes of the table
    for q, f in m.functions.items():
        resets = [n for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'clear' and isinstance(n.func.value, ast.Name) and n.func.value.id in lookups]
        if resets and '.' not in q and len(lookups) == 2:
            x = Reader(m)
            x.tabs = {k: v for k, v in r.tabs.items()}
            for k in lookups:
                x.tabs[k] = r.tabs[k].copy()
            x.touched = lambda s_: None
            x.block(f.body)
            tabs = [x.tabs[k] for k in lookups if k in x.tabs]
            rep.count('resets of the table')
    rep.count('built-in names', sum(len(t.d) for t in tabs))
    if not tabs:
        raise AnalysisError('the table of built-in functions was not found')
    return m, tabs


def builtin_table(rep, repo):
    m, tabs = tables(rep, repo)
    # what a run starts with: a table the beginning of a run copies is the one that counts
    open_ = [o for t in tabs for o in t.open]
    for o in open_:
        rep.note('what %s puts into the table is not understood' % ast.unparse(o)[:60])
    text = repo.text('doc/builtin.md')
    for name, lo, hi in documented(text):
        v = next((t.d[name] for t in tabs if name in t.d), None)
        inside = any(name in t.d for t in tabs)
        if not inside:
            if not open_:
                rep.bad('B1', name, 'the documented built-in ($%s) is not in the table of built-in functions' % name, '%s' % m.path)
            continue
        rep.ok('B1', name)
        if v is None or isinstance(v, ast.Constant):
            continue
        for n in range(lo, (hi if hi is not None else 4) + 1):
            ok = accepts(m, v, n)
            if ok is None:
                rep.count('arities that are not known')
                continue
            rep.check(ok, 'B2', '%s %d' % (name, n), 'the built-in ($%s) is documented with %d argument(s), its definition does not accept them' % (name, n), where(v) if isinstance(v, ast.AST) and hasattr(v, '_mod') else m.path)


# ---------------------------------------------------------------------- names
def bound_names(s):
    """names that a statement binds in its own scope"""
    res = set()

    def targets(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                res.add(n.id)

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            res.add(n.name)
            for d in n.decorator_list:
                go(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    res.add(c.target.id)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != '*':
                    res.add(a.asname or a.name.split('.')[0])
            return
        if isinstance(n, ast.ExceptHandler) and n.name:
            res.add(n.name)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            res.add(n.id)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            res.add(n.name)
        if isinstance(n, ast.MatchMapping) and n.rest:
            res.add(n.rest)
        for c in ast.iter_child_nodes(n):
            go(c)
    go(s)
    return res


def params(a):
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}


def module_names(repo, m, seen=()):
    """global names of a module; None: there is an import of all names of something unknown"""
    res = {'__name__', '__file__', '__doc__', '__package__', '__builtins__', '__spec__', '__loader__', '__path__'}
    for s in m.tree.body:
        res |= bound_names(s)
    for f in ast.walk(m.tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for g in ast.walk(f):
                if isinstance(g, ast.Global):
                    res |= set(g.names)
    for s in ast.walk(m.tree):
        if isinstance(s, ast.ImportFrom) and any(a.name == '*' for a in s.names):
            t = import_target(repo, m, s)
            if t is None or t.name in seen:
                try:
                    if s.level == 0:
                        mod = importlib.import_module(s.module)
                        res |= set(getattr(mod, '__all__', [x for x in vars(mod) if not x.startswith('_')]))
                        continue
                except ImportError:
                    pass
                return None
            x = module_names(repo, t, tuple(seen) + (m.name,))
            if x is None:
                return None
            res |= {n for n in x if not n.startswith('_')}
    return res


def import_target(repo, m, s):
    """the module of the package an import names"""
    if s.level:
        base = m.package.split('.')
        base = base[:len(base) - (s.level - 1)]
        full = '.'.join(base + ([s.module] if s.module else []))
    else:
        full = s.module
    return repo.mods.get(full) or repo.mods.get('yupp.' + (full or ''))


EXPECTS = ('NameError', 'AttributeError', 'ImportError', 'UnboundLocalError')


def named(h):
    """a handler of particular errors?"""
    return not any(isinstance(x, ast.Name) and x.id in ('Exception', 'BaseException') for x in ast.walk(h.type))


def passes_on(h):
    """does a handler raise or report what it has caught?"""
    return any(isinstance(x, ast.Raise) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in NORETURN
               or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('error', 'critical', 'exception', 'print_exc') for s in h.body for x in ast.walk(s))


def guarded(n):
    """is a name used where its absence is expected? (try with a handler for it, or a test of the environment)"""
    p, c = getattr(n, '_parent', None), n
    while p is not None:
        if isinstance(p, ast.Try) and c in p.body and any((h.type is None or not named(h)) and not passes_on(h) or any(isinstance(x, ast.Name) and x.id in EXPECTS for x in (ast.walk(h.type) if h.type is not None else ())) for h in p.handlers):
            return True
        if isinstance(p, (ast.If, ast.IfExp)) and c is not p.test:
            for x in ast.walk(p.test):
                if isinstance(x, ast.Name) and x.id in ('sys', 'PY2', 'PY3', 'hasattr', 'globals', 'locals', '__builtins__', '__name__') or isinstance(x, ast.Attribute) and x.attr in ('version_info', 'version', 'PY2', 'PY3', 'hexversion'):
                    return True
        p, c = getattr(p, '_parent', None), p
    return False


def names(rep, repo):
    for m in repo.mods.values():
        if m.name == 'plugin':
            rep.note('the plugin is run by the interpreter of the editor, its names are not looked up')
            continue
        glob = module_names(repo, m)
        if glob is None:
            rep.note('%s imports all names of something unknown' % m.path)
            continue
        bad = []

        def use(n, scopes, q):
            rep.count('uses of names')
            if any(n.id in s for s in scopes) or n.id in glob or hasattr(builtins, n.id):
                return
            if n.id in ('__class__', '__module__', '__qualname__', 'WindowsError') or guarded(n):
                return
            bad.append((n, q))

        def go(n, scopes, q):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for d in getattr(n, 'decorator_list', []):
                    go(d, scopes, q)
                a = n.args
                for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
                    go(d, scopes, q)
                for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                    if x.annotation is not None:
                        go(x.annotation, scopes, q)
                body = n.body if isinstance(n.body, list) else [n.body]
                own = params(a)
                for s in body:
                    own |= bound_names(s)
                outer = [s for s in scopes if not isinstance(s, ClassScope)]
                name = (q + '.' if q else '') + getattr(n, 'name', '<lambda>')
                for s in body:
                    go(s, outer + [own], name)
                    if isinstance(s, (ast.Return, ast.Raise)):
                        break               # the rest is never run
                return
            if isinstance(n, ast.ClassDef):
                for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                    go(d, scopes, q)
                own = ClassScope()
                for s in n.body:
                    own |= ClassScope(bound_names(s))
                own = ClassScope(own)
                for s in n.body:
                    go(s, scopes + [own], (q + '.' if q else '') + n.name)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                own = set()
                for g in n.generators:
                    own |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in ast.iter_child_nodes(n):
                    go(c, scopes + [own], q)
                return
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load):
                    use(n, scopes, q)
                return
            for c in ast.iter_child_nodes(n):
                go(c, scopes, q)
        go(m.tree, [], '')
        rep.ok('B3', m.path)
        for n, q in bad:
            rep.bad('B3', '%s %s %s' % (m.name, q, n.id), '%s refers to %r, which is defined nowhere' % (q or m.path, n.id), where(n))


class ClassScope(set):
    pass


# ---------------------------------------------------------------------- definite assignment
A, SOFT, HARD, NEVER = 0, 1, 2, 3   # assigned on all paths; unassigned only if a branch is skipped; unassigned on a path of its own; on no path assigned
NORETURN = {'raise_', 'reraise'}


class Give(Exception):
    pass


class Assigned:
    """state: {name: SOFT | HARD}, a name that is missing is assigned; None: unreachable"""

    def __init__(self, f):
        self.f = f
        self.local = set()
        for s in f.body:
            self.local |= bound_names(s)
        for n in ast.walk(f):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.local -= set(n.names)
        self.local -= params(f.args)
        self.bad, self.uses = [], 0
        self.brk, self.cont, self.exc = [], [], []

    def run(self):
        self.guards = set()
        self.consts = {t.id for n in ast.walk(self.f) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) for t in n.targets if isinstance(t, ast.Name)}
        return self.block(self.f.body, {n: NEVER for n in self.local})

    # -- joins
    @staticmethod
    def both(a, b, soft):
        if a is None or b is None:
            return b if a is None else a
        res = {}
        for k in set(a) | set(b):
            x, y = a.get(k, A), b.get(k, A)
            if x == y:
                res[k] = x
            elif x and y:
                res[k] = SOFT if SOFT in (x, y) else HARD
            else:
                res[k] = SOFT if soft or SOFT in (x, y) else HARD
        return res

    def throw(self, st):
        if st is not None and self.exc:
            self.exc[-1].append(dict(st))

    # -- expressions
    def ex(self, e, st):
        if e is None or st is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.local:
                self.uses += 1
                if st.get(e.id) in (HARD, NEVER) and not guarded(e):
                    self.bad.append(e)
                    st.pop(e.id)
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults:
                self.ex(d, st)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            own = {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            self.ex(e.generators[0].iter, st)
            inner = {k: v for k, v in st.items() if k not in own}
            loc, self.local = self.local, self.local - own
            for g in e.generators:
                for c in g.ifs:
                    self.ex(c, inner)
            for x in ((e.key, e.value) if isinstance(e, ast.DictComp) else (e.elt,)):
                self.ex(x, inner)
            self.local = loc
            return
        if isinstance(e, ast.BoolOp):
            self.ex(e.values[0], st)
            for v in e.values[1:]:
                s2 = dict(st)
                self.ex(v, s2)
            return
        if isinstance(e, ast.IfExp):
            self.ex(e.test, st)
            self.ex(e.body, dict(st))
            self.ex(e.orelse, dict(st))
            return
        if isinstance(e, ast.NamedExpr):
            self.ex(e.value, st)
            st.pop(e.target.id, None)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ex(c, st)
            elif isinstance(c, ast.keyword):
                self.ex(c.value, st)
            elif isinstance(c, ast.slice if hasattr(ast, 'slice') and isinstance(ast.slice, type) else ()):
                self.ex(c, st)

    def store(self, t, st):
        if st is None:
            return
        if isinstance(t, ast.Name):
            st.pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, st)
        elif isinstance(t, ast.Starred):
            self.store(t.value, st)
        else:
            for c in ast.iter_child_nodes(t):
                if isinstance(c, ast.expr):
                    self.ex(c, st)

    # -- statements
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.ex(d, st)
            if not isinstance(s, ast.ClassDef):
                for d in s.args.defaults:
                    self.ex(d, st)
            st.pop(s.name, None)
            return st
        if isinstance(s, ast.Assign):
            self.throw(st)
            self.ex(s.value, st)
            for t in s.targets:
                self.store(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            self.throw(st)
            if isinstance(s.target, ast.Name):
                self.ex(ast.copy_location(parented(ast.Name(s.target.id, ast.Load()), s), s.target), st)
            self.ex(s.value, st)
            self.store(s.target, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.ex(s.value, st)
                self.store(s.target, st)
            return st
        if isinstance(s, (ast.Expr, ast.Return)):
            self.throw(st)
            self.ex(s.value, st)
            return None if isinstance(s, ast.Return) else None if never(s.value) else st
        if isinstance(s, ast.Raise):
            self.ex(s.exc, st)
            self.throw(st)
            return None
        if isinstance(s, ast.Assert):
            self.ex(s.test, st)
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.ex(parented(ast.copy_location(ast.Name(t.id, ast.Load()), t), s), st)
                    if t.id in self.local:
                        st[t.id] = NEVER
                else:
                    self.store(t, st)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            self.throw(st)
            for n in bound_names(s):
                st.pop(n, None)
            return st
        if isinstance(s, ast.If):
            self.throw(st)
            self.ex(s.test, st)
            names_ = paths(s.test)
            inner = names_ - self.guards
            self.guards |= names_
            # the test may ask for just the paths without the value
            soft = {k: SOFT if v == HARD else v for k, v in st.items()}
            x, y = self.block(s.body, dict(soft)), self.block(s.orelse, dict(soft))
            if (x is None) != (y is None):
                return y if x is None else x
            self.guards -= inner
            res = self.both(x, y, True)
            if res is not None:
                for k, v in st.items():
                    if v == HARD and x.get(k) == SOFT and y.get(k) == SOFT:
                        res[k] = HARD
            return res
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.throw(st)
            self.ex(s.iter, st)
            self.brk.append([]); self.cont.append([])
            b = dict(st)
            self.store(s.target, b)
            b = self.block(s.body, b)
            for c in self.cont.pop():
                b = self.both(b, c, False)
            out = b if sure_turns(s.iter) else self.both(b, st, bool(paths(s.iter) & self.guards))
            out = self.block(s.orelse, dict(out) if out is not None else None) if out is not None else None
            for c in self.brk.pop():
                out = self.both(out, c, False)
            return out
        if isinstance(s, ast.While):
            self.throw(st)
            ever = isinstance(s.test, ast.Constant) and bool(s.test.value)
            self.ex(s.test, st)
            self.brk.append([]); self.cont.append([])
            b = self.block(s.body, dict(st))
            for c in self.cont.pop():
                b = self.both(b, c, False)
            names_ = paths(s.test)
            out = None if ever else self.both(b, st, bool(names_ & (self.guards | self.consts)))
            out = self.block(s.orelse, dict(out)) if out is not None else None
            for c in self.brk.pop():
                out = self.both(out, c, True)
            return out
        if isinstance(s, ast.Break):
            self.brk[-1].append(dict(st))
            return None
        if isinstance(s, ast.Continue):
            self.cont[-1].append(dict(st))
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.throw(st)
                self.ex(i.context_expr, st)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            before = dict(st)
            self.exc.append([])
            body = self.block(s.body, dict(st))
            thrown = self.exc.pop()
            # what may be missing when something in the body fails
            start = None
            for t in thrown:
                start = self.both(start, t, False)
            outs = []
            if start is None and s.handlers:
                start = dict(before)
            for h in s.handlers:
                x = dict(start)
                if h.type is not None:
                    self.ex(h.type, x)
                if h.name:
                    x.pop(h.name, None)
                x = self.block(h.body, x)
                if x is not None and h.name and h.name in self.local:
                    x[h.name] = NEVER
                outs.append(x)
            if start is not None and not any(h.type is None for h in s.handlers):
                self.throw(start)
            if body is not None:
                body = self.block(s.orelse, body)
            out = body
            for x in outs:
                out = self.both(out, x, False)
            if s.finalbody:
                # run for every way out; what may be missing when it is left normally is that of the normal ways
                fin = out
                for t in thrown:
                    fin = self.both(fin, t, False)
                keep = self.bad
                if fin is not None:
                    self.block(s.finalbody, dict(fin))
                after = self.block(s.finalbody, dict(out)) if out is not None else None
                return after
            return out
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            return st
        raise Give()


def paths(e):
    """variables and attributes an expression reads, as texts; of a.b only 'a.b'"""
    inner = {id(n.value) for n in ast.walk(e) if isinstance(n, ast.Attribute)}
    return {ast.unparse(n) for n in ast.walk(e) if isinstance(n, (ast.Name, ast.Attribute)) and id(n) not in inner}


def parented(n, p):
    n._parent = p
    n._mod = getattr(p, '_mod', None)
    return n


def never(e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in NORETURN:
        return True
    return isinstance(e, ast.Call) and (isinstance(e.func, ast.Attribute) and e.func.attr in ('exit', '_exit', 'error') and isinstance(e.func.value, ast.Name) and e.func.value.id in ('sys', 'os', 'parser')
                                        or isinstance(e.func, ast.Name) and e.func.id in ('exit', 'quit'))


def sure_turns(it):
    """does a loop certainly turn?"""
    if isinstance(it, (ast.Tuple, ast.List, ast.Set)):
        return any(not isinstance(x, ast.Starred) for x in it.elts)
    if isinstance(it, ast.Constant) and isinstance(it.value, str):
        return bool(it.value)
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
        if it.func.id == 'range' and it.args and all(isinstance(a, ast.Constant) for a in it.args):
            return len(range(*[a.value for a in it.args])) > 0
        if it.func.id in ('enumerate', 'reversed', 'sorted', 'list', 'tuple') and it.args:
            return sure_turns(it.args[0])
        if it.func.id in ('count', 'cycle', 'repeat'):
            return True
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('count', 'cycle', 'split', 'splitlines', 'partition'):
        return it.func.attr != 'splitlines'
    return False


def assigned(rep, repo):
    # functions that never come back
    for _ in range(3):
        for m in repo.mods.values():
            for q, f in m.functions.items():
                if '.' in q or f.name in NORETURN or any(isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) for n in ast.walk(f)) or f.decorator_list:
                    continue
                try:
                    if Assigned(f).run() is None:
                        NORETURN.add(f.name)
                except (Give, RecursionError):
                    pass
    for m in repo.mods.values():
        for q, f in m.functions.items():
            a = Assigned(f)
            try:
                a.run()
            except (Give, RecursionError):
                rep.note('%s of %s: assignments are not understood' % (q, m.path))
                continue
            rep.count('local uses', a.uses)
            if not a.bad:
                rep.ok('B4', '%s %s' % (m.name, q))
            for n in a.bad:
                rep.bad('B4', '%s %s %s' % (m.name, q, n.id), '%s() uses %r on a path where nothing was assigned to it' % (q, n.id), where(n) if getattr(n, '_mod', None) else '%s:%d' % (m.path, n.lineno))


# ---------------------------------------------------------------------- attributes
def set_by(repo, m, f, depth=0):
    """attributes of the state that a function and the functions it calls set"""
    res = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ('yushell', 'self', 'state'):
            res.add(n.attr)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in m.functions and depth < 3 and m.functions[n.func.id] is not f:
            res |= set_by(repo, m, m.functions[n.func.id], depth + 1)
        if isinstance(n, ast.Attribute) and n.attr in ('__dict__', 'update'):
            res |= {k.arg for c in [n._parent] if isinstance(c, ast.Call) for k in c.keywords if k.arg}
    return res


def here_set(n):
    """is the attribute set in the same function?"""
    f = n
    while f is not None and not isinstance(f, ast.FunctionDef):
        f = getattr(f, '_parent', None)
    return f is not None and any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == n.attr and ast.dump(x.value)[:20] == ast.dump(ast.Name(n.value.id, ast.Store()))[:20] for x in ast.walk(f))


def attributes(rep, repo):
    initial = set()
    for m in repo.mods.values():
        if 'yushell' in m.functions:
            initial |= set_by(repo, m, m.functions['yushell'])
    ydef, stored = None, set()
    for m in repo.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                stored.add((n.value.id, n.attr))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) >= 2 and isinstance(n.args[0], ast.Name):
                k = n.args[1]
                stored.add((n.args[0].id, k.value if isinstance(k, ast.Constant) else '*'))
    for m in repo.mods.values():
        mods = {}
        for s in m.tree.body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname or '.' not in a.name:
                        mods[a.asname or a.name] = a.name
        # a name that is also bound to something else is not certainly the module
        for f in ast.walk(m.tree):
            if isinstance(f, (ast.FunctionDef, ast.Lambda)):
                for x in params(f.args) & set(mods):
                    mods.pop(x, None)
            if isinstance(f, ast.Name) and isinstance(f.ctx, ast.Store):
                mods.pop(f.id, None)
        loaded = {}
        for k, v in mods.items():
            if v.split('.')[0] in ('yupp', 'pp', 'pylib', 'past', 'future', 'builtins'):
                continue
            try:
                loaded[k] = importlib.import_module(v)
            except Exception:                                # not available here
                continue
        state = 'yushell' in m.functions or any(isinstance(s, ast.ImportFrom) and any(a.name == 'yushell' for a in s.names) for s in m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id in loaded:
                x = getattr(loaded[n.value.value.id], n.value.attr, None)
                if inspect.ismodule(x):
                    rep.count('attributes of modules')
                    if hasattr(x, n.attr) or guarded(n):
                        rep.ok('B5', '%s.%s' % (x.__name__, n.attr))
                    else:
                        rep.bad('B5', '%s %s.%s' % (m.name, x.__name__, n.attr), 'the module %s has no %r' % (x.__name__, n.attr), where(n))
                continue
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name)):
                continue
            b = n.value.id
            if b in loaded:
                rep.count('attributes of modules')
                if hasattr(loaded[b], n.attr) or guarded(n) or (b, n.attr) in stored:
                    rep.ok('B5', '%s.%s' % (b, n.attr))
                else:
                    rep.bad('B5', '%s %s.%s' % (m.name, b, n.attr), 'the module %s has no %r' % (b, n.attr), where(n))
            elif b == 'yushell' and state:
                rep.count('attributes of the state of a run')
                if (b, n.attr) in stored or (b, '*') in stored or hasattr(attributes, n.attr) or guarded(n):
                    if (b, '*') not in stored and initial and n.attr not in initial and not hasattr(attributes, n.attr) and not guarded(n) and not here_set(n):
                        rep.bad('B5', '%s yushell.%s' % (m.name, n.attr), 'yushell.%s is used, but the beginning of a run does not set it' % n.attr, where(n))
                    rep.ok('B5', '%s.%s' % (b, n.attr))
                else:
                    rep.bad('B5', '%s yushell.%s' % (m.name, n.attr), 'yushell.%s is used, but nothing ever sets it' % n.attr, where(n))
        own_attributes(rep, repo, m)


SETS = {}


def family(repo, m, cls):
    """(names that objects of a class have, is everything known)"""
    res, known, todo, seen = set(), True, [(m, cls)], set()
    while todo:
        mm, c = todo.pop()
        if id(c) in seen:
            continue
        seen.add(id(c))
        for n in ast.walk(c):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                res.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' or isinstance(n, ast.Attribute) and n.attr == '__dict__':
                known = False
        for s in c.body:
            res |= bound_names(s)
        if '__getattr__' in res or '__getattribute__' in res or '__slots__' in res:
            known = False
        for b in c.bases:
            n = b.id if isinstance(b, ast.Name) else None
            if n and n in mm.classes:
                todo.append((mm, mm.classes[n]))
                continue
            imp = None
            for s in mm.tree.body:
                if isinstance(s, ast.ImportFrom):
                    for a in s.names:
                        if n and (a.asname or a.name) == n:
                            imp = s, a.name
            if imp:
                t = import_target(repo, mm, imp[0])
                if t and imp[1] in t.classes:
                    todo.append((t, t.classes[imp[1]]))
                    continue
                try:
                    res |= set(dir(getattr(importlib.import_module(imp[0].module), imp[1])))
                    if imp[0].module.split('.')[0] == 'builtins':
                        pass
                    continue
                except Exception:
                    known = False
                    continue
            if n and hasattr(builtins, n):
                res |= set(dir(getattr(builtins, n)))
                continue
            if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                e = ext_module(mm, b.value)
                try:
                    res |= set(dir(getattr(importlib.import_module(e), b.attr)))
                    continue
                except Exception:
                    pass
            known = False
    return res, known


def own_attributes(rep, repo, m):
    every = set()
    for x in repo.mods.values():
        for n in ast.walk(x.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                every.add(n.attr)
    subs = {}
    for name, c in m.classes.items():
        for b in c.bases:
            if isinstance(b, ast.Name):
                subs.setdefault(b.id, []).append(name)
    for name, c in m.classes.items():
        has, known = family(repo, m, c)
        if not known:
            continue
        below, todo = set(), [name]
        while todo:
            for s in subs.get(todo.pop(), ()):
                if s not in below:
                    below.add(s)
                    todo.append(s)
        for s in below:
            has |= family(repo, m, m.classes[s])[0]
        for f in c.body:
            if not isinstance(f, ast.FunctionDef) or not f.args.args or any(isinstance(d, ast.Name) and d.id in ('staticmethod',) for d in f.decorator_list):
                continue
            me = f.args.args[0].arg
            if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == me for x in ast.walk(f)):
                continue
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me:
                    rep.count('attributes of own objects')
                    if n.attr in has or n.attr in every or n.attr.startswith('__') or guarded(n):
                        rep.ok('B5', '%s.%s' % (name, n.attr))
                    else:
                        rep.bad('B5', '%s %s.%s' % (m.name, name, n.attr), 'objects of %s have no attribute %r' % (name, n.attr), where(n))


# ---------------------------------------------------------------------- calls
def calls(rep, repo):
    for m in repo.mods.values():
        tops = {}
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom):
                t = import_target(repo, m, s)
                if t:
                    for a in s.names:
                        if a.name in t.functions:
                            tops[a.asname or a.name] = t.functions[a.name]
                        elif a.name in t.classes:
                            tops[a.asname or a.name] = t.classes[a.name]
        many = {}
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                many[n.name] = many.get(n.name, 0) + 1
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                many[n.id] = many.get(n.id, 0) + 2
            if isinstance(n, ast.arg):
                many[n.arg] = many.get(n.arg, 0) + 2
        for k, f in m.functions.items():
            if '.' not in k:
                tops[k] = f
        for k, c in m.classes.items():
            tops[k] = c
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in tops) or many.get(n.func.id, 1) > 1:
                continue
            d = tops[n.func.id]
            f, skip = d, 0
            if isinstance(d, ast.ClassDef):
                f = constructor(repo, m if n.func.id in m.classes else None, d)
                skip = 1
            if f is None or not isinstance(f, ast.FunctionDef):
                continue
            rep.count('calls')
            why = misfit(f, n, skip)
            rep.check(not why, 'B6', '%s %s' % (m.name, n.func.id), 'the call of %s() %s' % (n.func.id, why), where(n))


def constructor(repo, m, c, depth=0):
    if m is None or depth > 6 or c.decorator_list or c.keywords:
        return None
    own = {s.name: s for s in c.body if isinstance(s, ast.FunctionDef)}
    if '__new__' in own:
        return own['__new__'] if '__init__' not in own else None
    if '__init__' in own:
        f = own['__init__']
        for b in c.bases:
            if isinstance(b, ast.Name) and b.id in m.classes and any(isinstance(s, ast.FunctionDef) and s.name == '__new__' for s in m.classes[b.id].body):
                return None
        return f
    if len(c.bases) >= 1 and isinstance(c.bases[0], ast.Name) and c.bases[0].id in m.classes:
        return constructor(repo, m, m.classes[c.bases[0].id], depth + 1)
    return None


def misfit(f, call, skip):
    """why a call does not fit; '' if it does"""
    a = f.args
    if [d for d in f.decorator_list if not (isinstance(d, ast.Name) and d.id.startswith('echo'))]:
        return ''
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return ''
    n = len(call.args)
    if n > len(pos) and not a.vararg:
        return 'has %d arguments, the function takes %d' % (n, len(pos))
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg in given:
            return 'gives %r twice' % k.arg
        if k.arg not in pos and k.arg not in [x.arg for x in a.kwonlyargs] and not a.kwarg:
            return 'names a parameter %r that does not exist' % k.arg
        given.add(k.arg)
    need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    need = need + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [x for x in need if x not in given]
    return 'does not give %s' % ', '.join(map(repr, miss)) if miss else ''
