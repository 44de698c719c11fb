"""C21 - translation is deterministic."""
import ast
from ..src import Repo, AnalysisError, where
from .c15 import Reader, params

TECHNIQUE = 'search of the syntax tree for sources that differ from run to run, followed by a dataflow analysis of where their values go; type inference of unordered collections and analysis of what their iteration feeds; method resolution of representations'
NOTE = ''
ASSUMPTIONS = ['functions that a text or an imported script defines in Python are outside']

CLOCK = {'time.time', 'time.time_ns', 'time.clock', 'time.perf_counter', 'time.monotonic', 'time.localtime', 'time.gmtime', 'time.ctime', 'time.asctime', 'time.strftime', 'time.process_time',
         'datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow', 'datetime.date.today'}
WORLD = {'os.listdir', 'os.scandir', 'os.walk', 'glob.glob', 'glob.iglob', 'os.getpid', 'os.getppid', 'os.urandom', 'os.getlogin', 'os.uname', 'os.getenv', 'socket.gethostname', 'getpass.getuser', 'platform.node',
         'threading.get_ident', 'os.times', 'uuid.uuid1', 'uuid.uuid4', 'uuid.getnode', 'id', 'hash', 'os.environ.get', 'os.path.expanduser', 'os.path.expandvars', 'os.cpu_count', 'os.getloadavg', 'object.__repr__', 'os.getuid'}
PREFIX = ('random.', 'secrets.', 'numpy.random.')
ORDER_ONLY = {'os.listdir', 'os.scandir', 'os.walk', 'glob.glob', 'glob.iglob'}
MODULES = ('yugen', 'yup', 'yuconfig', 'yupp', 'yupp.__main__', 'yupp.pp.__main__', 'yulic')
SINKS = ('log', 'trace', 'logging', 'feedback', 'logger', 'warnings', 'traceback', 'yutraceback')
WHOLE = {'all', 'any', 'len', 'sum', 'min', 'max', 'sorted', 'set', 'frozenset', 'bool', 'isinstance', 'Counter'}
FILES = {'open', 'os.remove', 'os.rename', 'os.replace', 'os.unlink', 'os.path.isfile', 'os.path.exists', 'shutil.move', 'shutil.copy', 'os.chmod', 'os.makedirs', 'os.mkdir', 'os.utime'}


def run(rep):
    rep.rule('D1', 'no value of the clock, of random numbers, of addresses, of the environment or of a listing reaches the text')
    rep.rule('D2', 'the order of an unordered collection reaches nothing that depends on an order')
    rep.rule('D3', 'every node has a representation of its own, without the address of an object')
    rep.rule('D4', 'no built-in function is random or asks the clock')
    repo = Repo.get()
    mods = []
    for x in MODULES:
        try:
            m = repo.mod(x)
        except AnalysisError:
            continue
        if m not in mods:
            mods.append(m)
    for m in mods:
        sources(rep, m)
        unordered(rep, m)
    representations(rep, repo.mod('yugen'))
    table(rep, repo.mod('yugen'))
    rep.need('D3', 10)


def imports(m):
    """name -> dotted name of what it stands for"""
    res = {}
    for s in ast.walk(m.tree):
        if isinstance(s, ast.Import):
            for a in s.names:
                res[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(s, ast.ImportFrom) and not s.level and s.module:
            for a in s.names:
                res[a.asname or a.name] = '%s.%s' % (s.module, a.name)
    return res


def dotted(e, imp):
    if isinstance(e, ast.Name):
        return imp.get(e.id, e.id)
    if isinstance(e, ast.Attribute):
        b = dotted(e.value, imp)
        return b + '.' + e.attr if b else None
    return None


def function_of(n):
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.Lambda)):
        n = getattr(n, '_parent', None)
    return n


def place(n):
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        n = getattr(n, '_parent', None)
    return getattr(n, '_qual', getattr(n, 'name', 'module')) if n is not None else 'module'


def shadowed(n, name):
    """is a global name a parameter or a local variable here?"""
    f = function_of(n)
    while f is not None:
        if name in params(f.args) or any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(f)):
            return True
        f = function_of(getattr(f, '_parent', None))
    return False


# ---------------------------------------------------------------------- sources
def sources(rep, m):
    imp = imports(m)
    for n in ast.walk(m.tree):
        d = None
        if isinstance(n, ast.Call):
            d = dotted(n.func, imp)
            rep.count('calls')
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and dotted(n, imp) in ('os.environ', 'sys.hash_info'):
            if isinstance(n._parent, ast.Attribute):
                continue
            d = 'os.environ'
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ('id', 'hash') and not (isinstance(n._parent, ast.Call) and n._parent.func is n) and n.id not in imp and not shadowed(n, n.id):
            d = n.id
        if not d or not (d in CLOCK or d in WORLD or d == 'os.environ' or d.startswith(PREFIX)):
            continue
        if '.' not in d and (shadowed(n, d) or d in m.functions or d in m.classes):
            continue
        rep.count('sources')
        why = flows(n, imp, d, m, set())
        key = '%s %s' % (place(n), d)
        rep.check(not why, 'D1', key, '%s() asks %s, and what it gets %s' % (place(n), d, why), where(n))
    rep.ok('D1', m.path)


def flows(n, imp, d, m, seen):
    """where a value goes: '' if nowhere the text depends on, else a description"""
    if id(n) in seen:
        return ''
    seen.add(id(n))
    c, p = n, n._parent
    while True:
        if isinstance(p, ast.Call):
            f = dotted(p.func, imp) if c is not p.func else None
            if c is p.func:
                c, p = p, p._parent
                continue
            if f and (f.split('.')[0] in SINKS):
                return ''
            if f and f.split('.')[-1] in WHOLE and d in ORDER_ONLY and f.split('.')[-1] != 'isinstance':
                return ''
            if f in FILES:
                return ''
            if isinstance(p.func, ast.Attribute) and p.func.attr in ('append', 'extend', 'insert', 'appendleft', 'update', 'write', 'writelines', '__setitem__') and c is not p.func \
                    and not (d in ('id', 'hash') and p.func.attr == 'append'):
                return 'is put into %s' % ast.unparse(p.func.value)[:30]
            if isinstance(p.func, ast.Attribute) and d in ('id', 'hash') and p.func.attr in ('add', 'discard', 'remove', 'get', 'setdefault', 'pop') and p.args and p.args[0] is c:
                return ''
        elif isinstance(p, ast.Subscript) and c is p.slice and d in ('id', 'hash'):
            return ''
        elif isinstance(p, ast.Compare):
            if d in ('id', 'hash') and all(isinstance(o, (ast.In, ast.NotIn, ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) for o in p.ops):
                return ''
            if d in ORDER_ONLY and all(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
                return ''
        elif isinstance(p, ast.Dict) and d in CLOCK and c in p.values:
            k = p.keys[p.values.index(c)]
            if isinstance(k, ast.Constant) and k.value == '__TITLE__':
                return ''                   # the documented date
        elif isinstance(p, ast.Assign) and len(p.targets) == 1 or isinstance(p, ast.NamedExpr):
            t = p.targets[0] if isinstance(p, ast.Assign) else p.target
            if isinstance(t, ast.Name):
                f = function_of(p)
                if f is None:
                    return used(t.id, m.tree, imp, d, m, seen)
                return used(t.id, f, imp, d, m, seen)
            return 'is kept in %s' % ast.unparse(t)[:30]
        elif isinstance(p, ast.keyword) or isinstance(p, ast.expr) and not isinstance(p, ast.Lambda):
            pass
        elif isinstance(p, ast.Lambda):
            if p.body is c:
                c, p = p, p._parent
                # what is the function for?
                if isinstance(p, ast.Dict) and d in CLOCK:
                    continue
                return 'is what a function gives'
        elif isinstance(p, ast.Return):
            f = function_of(p)
            if f is not None and f.name in ('__hash__',):
                return ''
            return given(f, imp, d, m, seen)
        elif isinstance(p, ast.Raise):
            return ''
        elif isinstance(p, ast.Expr):
            return ''
        elif isinstance(p, (ast.If, ast.While)):
            return 'decides what is done'
        elif isinstance(p, (ast.For, ast.comprehension)):
            return 'is gone through in an arbitrary order' if d in ORDER_ONLY else 'is gone through'
        elif isinstance(p, ast.arguments) or isinstance(p, ast.FunctionDef):
            return 'is a default value'
        elif isinstance(p, ast.AugAssign):
            return 'is kept in %s' % ast.unparse(p.target)[:30]
        elif isinstance(p, ast.withitem) or isinstance(p, ast.With):
            return ''
        elif isinstance(p, ast.Delete) or isinstance(p, ast.Assert):
            return ''
        elif p is None:
            return ''
        else:
            return 'goes to %s' % type(p).__name__
        c, p = p, p._parent


def used(name, scope, imp, d, m, seen):
    for x in ast.walk(scope):
        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
            w = flows(x, imp, d, m, seen)
            if w:
                return w
    return ''


def given(f, imp, d, m, seen):
    """the value is what a function gives: look at its callers; the documented title may have the date"""
    if f is None or isinstance(f, ast.Lambda) or id(f) in seen:
        return 'is what a function gives'
    seen.add(id(f))
    if any(isinstance(x, ast.FunctionDef) and x.name == f.name and x is not f for x in ast.walk(m.tree)):
        return 'is what %s() gives' % f.name
    sites = [x for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == f.name and isinstance(x.ctx, ast.Load)]
    for x in sites:
        w = flows(x, imp, d, m, seen)
        if w:
            return w
    attrs = [x for x in ast.walk(m.tree) if isinstance(x, ast.Attribute) and x.attr == f.name]
    if attrs or not sites:
        return 'is what %s() gives' % f.name
    return ''


# ---------------------------------------------------------------------- unordered collections
def numbers(e):
    """are the elements certainly numbers (their order is the same in every run)?"""
    for n in ast.walk(e):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id not in ('ord', 'range', 'list', 'set', 'frozenset', 'len', 'int'):
            return False
        if isinstance(n, ast.Attribute):
            return False
    elts = [n for n in ast.walk(e) if isinstance(n, (ast.Constant, ast.Name))]
    ok = False
    for n in elts:
        if isinstance(n, ast.Constant):
            if isinstance(n.value, str) and not (isinstance(n._parent, ast.Call) and isinstance(n._parent.func, ast.Name) and n._parent.func.id == 'ord'):
                return False
            ok = True
        elif n.id not in ('ord', 'range', 'list', 'set', 'frozenset', 'len', 'int') and not (isinstance(n._parent, ast.Call) and isinstance(n._parent.func, ast.Name) and n._parent.func.id == 'ord'):
            return False
    return ok


class Sets:
    def __init__(self, m):
        self.m = m
        self.glob = {s.targets[0].id: s.value for s in m.tree.body if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)}
        self.attrs = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        self.attrs.setdefault(t.attr, []).append(n.value)

    def isset(self, e, f, depth=0):
        """is an expression certainly a set whose order differs from run to run?"""
        if depth > 6:
            return False
        if isinstance(e, ast.Set) or isinstance(e, ast.SetComp):
            return not numbers(e)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset') and not shadowed(e, e.func.id):
                return not (e.args and numbers(e))
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
                return self.isset(e.func.value, f, depth + 1)
            return False
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.isset(e.left, f, depth + 1)
        if isinstance(e, ast.IfExp):
            return self.isset(e.body, f, depth + 1) or self.isset(e.orelse, f, depth + 1)
        if isinstance(e, ast.Name):
            vals, known = [], False
            g = f
            while g is not None:
                if e.id in params(g.args):
                    return self.called(g, e.id, depth)
                vals = [n.value for n in ast.walk(g) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
                other = [n for n in ast.walk(g) if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store) and not isinstance(n._parent, (ast.Assign, ast.AugAssign))]
                if vals or other:
                    return bool(vals) and not other and all(self.isset(v, g, depth + 1) for v in vals)
                g = function_of(getattr(g, '_parent', None))
            if e.id in self.glob:
                return self.isset(self.glob[e.id], None, depth + 1)
            return False
        if isinstance(e, ast.Attribute):
            vals = self.attrs.get(e.attr)
            return bool(vals) and all(self.isset(v, function_of(v), depth + 1) for v in vals)
        return False

    def called(self, g, name, depth):
        """a parameter: of a function that is applied at once, or called at known places"""
        p = getattr(g, '_parent', None)
        pars = [a.arg for a in g.args.args]
        if isinstance(g, ast.Lambda) and isinstance(p, ast.Call) and p.func is g and name in pars and pars.index(name) < len(p.args):
            return self.isset(p.args[pars.index(name)], function_of(p), depth + 1)
        return False


def unordered(rep, m):
    s = Sets(m)
    for n in ast.walk(m.tree):
        its = []
        if isinstance(n, (ast.For, ast.comprehension)):
            its = [(n.iter, n)]
        elif isinstance(n, ast.Call):
            f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
            if isinstance(n.func, ast.Name) and f in ('list', 'tuple', 'enumerate', 'iter', 'map', 'filter', 'zip', 'next', 'reduce', 'str', 'repr', 'LIST', 'OrderedDict', 'STR', 'deque', 'reversed'):
                its = [(a, n) for a in n.args]
            elif f in ('join', 'extend', 'writelines', 'fromkeys'):
                its = [(a, n) for a in n.args]
            elif f == 'pop' and not n.args and isinstance(n.func, ast.Attribute):
                its = [(n.func.value, n)]
            its += [(a.value, n) for a in n.args if isinstance(a, ast.Starred)]
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            its = [(x, n) for x in ([n.right] + (list(n.right.elts) if isinstance(n.right, ast.Tuple) else []))]
        elif isinstance(n, ast.FormattedValue):
            its = [(n.value, n)]
        for it, site in its:
            if not s.isset(it, function_of(site if not isinstance(site, ast.comprehension) else it)):
                if isinstance(it, (ast.Set, ast.SetComp)) or isinstance(site, (ast.For, ast.comprehension)):
                    rep.count('iterations')
                continue
            rep.count('iterations of sets')
            rep.check(harmless(site), 'D2', '%s %s' % (place(it), ast.unparse(it)[:30]), '%s goes through %s, a set: its order differs from run to run' % (place(it), ast.unparse(it)[:40]), where(it))
    rep.ok('D2', m.path)


def harmless(site):
    """does the order not matter?"""
    if isinstance(site, ast.comprehension):
        c = site._parent
        if isinstance(c, (ast.SetComp,)):
            return True
        return consumed_whole(c)
    if isinstance(site, ast.For):
        return all(harmless_stmt(x) for x in site.body)
    if isinstance(site, (ast.BinOp, ast.FormattedValue)):
        return to_log(site)
    return consumed_whole(site) or to_log(site)


def consumed_whole(c):
    p = c._parent
    if isinstance(p, ast.Starred):
        c, p = p, p._parent
    if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in WHOLE and c in p.args:
        return True
    if isinstance(p, ast.Compare) and c in p.comparators and all(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
        return True
    if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ('update', 'union', 'difference_update', 'intersection') and not isinstance(c, ast.DictComp):
        return True
    if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ('list', 'tuple', 'enumerate', 'map', 'filter'):
        return consumed_whole(p)
    return to_log(c)


def to_log(c):
    p = c
    while p is not None and not isinstance(p, ast.stmt):
        if isinstance(p, ast.Call) and (dotted(p.func, {}) or '').split('.')[0] in SINKS:
            return True
        p = p._parent
    return isinstance(p, ast.Raise)


def harmless_stmt(x):
    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
        c = x.value
        if isinstance(c.func, ast.Attribute) and c.func.attr in ('add', 'discard'):
            return True
        return (dotted(c.func, {}) or '').split('.')[0] in SINKS
    if isinstance(x, ast.If):
        return all(harmless_stmt(y) for y in x.body + x.orelse)
    if isinstance(x, ast.AugAssign):
        return isinstance(x.op, (ast.BitOr, ast.BitAnd)) or isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and isinstance(x.value.value, int)
    if isinstance(x, ast.Return):
        return x.value is None or isinstance(x.value, ast.Constant)
    return isinstance(x, (ast.Pass, ast.Continue))


# ---------------------------------------------------------------------- representations
def mro(m, name):
    def lin(n):
        c = m.classes.get(n)
        if c is None:
            return [n]
        seqs = []
        bases = [b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else '?' for b in c.bases]
        for b in bases:
            seqs.append(lin(b))
        seqs.append(bases)
        seqs = [list(s) for s in seqs if s]
        res = [n]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                return res + [x for s in seqs for x in s]
            res.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        return res
    return lin(name)


NATIVE = {'str', 'int', 'float', 'list', 'dict', 'tuple', 'native_str', 'text_type', 'unicode'}


def representations(rep, m):
    hosts = {}                       # class -> attributes that hold objects of the interpreter
    imp = imports(m)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in m.classes:
            init = None
            for k in mro(m, n.func.id):
                c = m.classes.get(k)
                if c is not None:
                    init = next((s for s in c.body if isinstance(s, ast.FunctionDef) and s.name == '__init__'), None)
                    if init is not None:
                        break
            if init is None:
                continue
            pars = [a.arg for a in init.args.args][1:]
            for i, a in enumerate(n.args[:len(pars)]):
                if host(a, function_of(n), imp):
                    for s in ast.walk(init):
                        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id == pars[i]:
                            for t in s.targets:
                                if isinstance(t, ast.Attribute):
                                    hosts.setdefault(n.func.id, set()).add(t.attr)
    for name in m.classes:
        order = mro(m, name)
        if not any(x.startswith('BASE_') or x in ('CAPTION', 'ENV', 'RESULT') for x in order) or name.startswith('BASE_') and any(name in mro(m, o)[1:] for o in m.classes):
            continue
        rep.count('kinds of nodes')
        fn, native = None, False
        for k in order:
            c = m.classes.get(k)
            if c is None:
                native = native or k in NATIVE
                if native:
                    break
                continue
            fn = next((s for s in c.body if isinstance(s, ast.FunctionDef) and s.name == '__repr__'), None)
            alias = next((s for s in c.body if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__repr__' for t in s.targets)), None)
            if alias is not None:
                native = True
                break
            if fn is not None:
                break
        if fn is None:
            rep.check(native, 'D3', name, 'a %s is represented by its address' % name, where(m.classes[name]))
            continue
        shown = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == fn.args.args[0].arg}
        if any(isinstance(n, ast.Attribute) and n.attr == '__dict__' or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'vars' for n in ast.walk(fn)):
            shown |= hosts.get(name, set())
        bad = set().union(*[hosts.get(k, set()) for k in order]) & shown
        default = any(isinstance(n, ast.Attribute) and n.attr == '__repr__' and isinstance(n.value, ast.Name) and n.value.id == 'object' for n in ast.walk(fn))
        addr = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('id', 'hash') for n in ast.walk(fn))
        rep.check(not bad and not default and not addr, 'D3', name, 'the representation of a %s contains the address of %s' % (name, 'its %s' % ', '.join(sorted(bad)) if bad else 'the object'), where(fn))


def host(a, f, imp):
    """is an argument certainly an object of the interpreter (a function, a syntax tree, a module)?"""
    if isinstance(a, ast.Lambda):
        return True
    if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id in ('builtin', 'builtin_special'):
        return True
    if isinstance(a, ast.Name) and f is not None:
        vals = [n.value for n in ast.walk(f) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in n.targets)]
        return bool(vals) and all(isinstance(v, ast.Call) and dotted(v.func, imp) in ('ast.parse', 'parse', 'compile', 're.compile', 'imp.load_source') for v in vals)
    return False


# ---------------------------------------------------------------------- table of built-in functions
RANDOM = ('random', 'time', 'datetime', 'uuid', 'secrets', 'os', 'platform', 'socket', 'getpass', 'tempfile', 'sys')


def table(rep, m):
    r = Reader(m)
    r.block(m.tree.body)
    imp = imports(m)
    for k in ('builtin', 'builtin_special'):
        if k not in r.tabs:
            rep.note('the table %s was not found' % k)
            continue
        for name, v in r.tabs[k].d.items():
            rep.count('built-in names')
            if isinstance(v, tuple):
                d = v[1]
            else:
                d = dotted(v, imp) if isinstance(v, (ast.Name, ast.Attribute)) else None
                d = d if d in ('id', 'hash') else (d or '').rpartition('.')[0]
            if d.split('.')[0] in RANDOM and not name.startswith('__') or d in ('id', 'hash'):
                rep.bad('D4', name, 'the built-in ($%s) comes from %s: its value differs from run to run' % (name, d), m.path)
    rep.ok('D4', 'table')
