"""Path-sensitive, interprocedural dataflow over Python syntax trees (property simulation).

Abstract state = local values, attribute/element store, branch facts, event log.  Values are hash-consed terms
(value numbering); functions of the repository are analysed in the context of their callers (inlined); loops are
taken to a fixpoint (loop-variant values are havocked at the loop head; facts about the loop element that hold on
every turn become universal facts); states equal except for their branch facts are joined.  Exceptional edges go to
handlers according to the builtin exception hierarchy.  Nothing is executed and no solver is involved: a branch is
pruned only if a recorded fact or constant propagation decides its condition.
"""
import ast, builtins as _b, codecs as _codecs, posixpath, re
from .src import Repo, AnalysisError, where, unparse
from .terms import T, C, NONE, TRUE, FALSE, isc

STR_METHODS = set(n for n in dir(str) if not n.startswith('_'))
REGEX_LISTS = ('split', 'findall', 'finditer')
PURE_METHODS = STR_METHODS | {'get', 'keys', 'values', 'items', 'copy', 'match', 'search', 'group', 'groups', 'end', 'span',
    'start', 'loc', 'fullmatch', 'findall', 'sub', 'issubset', 'union', 'intersection', 'difference', 'sort_key'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'add', 'discard', 'setdefault', 'sort',
            'reverse', 'popitem', 'appendleft', 'popleft'}
PURE_EXT = {'len', 'str', 'int', 'float', 'repr', 'isinstance', 'type', 'ord', 'chr', 'sorted', 'range', 'zip', 'enumerate',
    'map', 'filter', 'frozenset', 'getattr', 'hasattr', 'callable', 'abs', 'min', 'max', 'sum', 'bool', 'tuple', 'iter',
    'reversed', 'hex', 'oct', 'round', 'divmod', 'pow', 'all', 'any', 'hash', 'id', 'vars', 'globals', 'locals', 'dir', 'bytes',
    'issubclass', 'slice', 'super', 'format', 'any', 'json.dumps', 're.compile', 'logging.getLogger', 'sys.exc_info',
    'traceback.format_tb', 'traceback.format_exception_only', 'traceback.format_exc', 'traceback.format_exception', 'copy.deepcopy', 'copy.copy', 'argparse.ArgumentParser',
    'textwrap.dedent', 'codecs.CodecInfo', 'io.StringIO', 'object', 'property', 'classmethod', 'staticmethod', 'functools.reduce'}
SAFE_EXT = PURE_EXT | {'print', 'list', 'dict', 'set'}
FOLD = {'ord': ord, 'chr': chr, 'len': len, 'str': str, 'int': int, 'min': min, 'max': max, 'abs': abs, 'frozenset': frozenset,
        'range': range, 'bool': bool, 'tuple': tuple, 'float': float, 'sorted': None, 'repr': repr, 'sum': sum,
        # pure functions of path names (POSIX)
        'os.path.splitext': posixpath.splitext, 'os.path.basename': posixpath.basename, 'os.path.dirname': posixpath.dirname,
        'os.path.join': posixpath.join, 'os.path.split': posixpath.split, 'os.path.normpath': posixpath.normpath,
        'os.path.normcase': posixpath.normcase, 'os.path.isabs': posixpath.isabs, 'os.path.splitdrive': posixpath.splitdrive,
        'os.path.commonprefix': None, 're.escape': re.escape, 'ascii': ascii,
        'codecs.unicode_escape_encode': _codecs.unicode_escape_encode}
EXT_ALIAS = {'native_str': 'str', 'future.utils.native_str': 'str', 'future.utils.raise_': 'raise_', 'past.builtins.execfile': 'execfile',
             'os.replace': 'os.rename', 'os.unlink': 'os.remove', 'shutil.move': 'os.rename', 'io.open': 'open', 'codecs.open': 'codecs.open',
             'os.path.exists': 'os.path.isfile', 'os.path.lexists': 'os.path.isfile', 'os.renames': 'os.rename', 'os.stat': 'os.stat',
             'shutil.copy2': 'shutil.copy', 'shutil.copyfile': 'shutil.copy', 'functools.reduce': 'functools.reduce', 'string.join': 'string.join'}
LOG_METHODS = {'debug', 'info', 'warn', 'warning', 'error', 'critical', 'exception', 'log'}


class St:
    __slots__ = ('env', 'stack', 'heap', 'facts', 'log', 'gens')

    def __init__(self, env=None, stack=(), heap=None, facts=None, log=(), gens=None):
        self.env, self.stack, self.heap, self.facts, self.log, self.gens = env or {}, stack, heap or {}, facts or {}, log, gens or {}

    def copy(self):
        return St(dict(self.env), self.stack, dict(self.heap), dict(self.facts), self.log, dict(self.gens))

    def key(self):
        return (frozenset(self.env.items()), tuple(id(e) for e in self.stack), frozenset(self.heap.items()), self.log)


class FuncVal:
    __slots__ = ('node', 'modname', 'closure', 'name', 'cls', 'parent')

    def __init__(self, node, modname, closure, name, cls=None, parent=None):
        self.node, self.modname, self.closure, self.name, self.cls = node, modname, closure, name, cls
        self.parent = parent


def beginning(t):
    """constant beginning of a string"""
    while t.op == 'bin' and t.args[0] == 'Add':
        t = t.args[1]
    return t.args[0] if isc(t) and isinstance(t.args[0], str) else ''


def exc_class(name):
    name = name.rpartition('.')[2]
    c = getattr(_b, name, None)
    return c if isinstance(c, type) and issubclass(c, BaseException) else None


class Abort(Exception):
    pass


class Engine:
    MAX_DEPTH = 14
    excmsg = False          # messages of exceptions are followed through handlers
    MAX_STATES = 12000
    fnattr = False        # reading an attribute of a function that was never set raises
    nulname = False       # a name requested by the text may hold a null character: open() raises ValueError
    _init = None
    unroll = 0            # exact turns of a while loop before the summary
    unroll_only = False   # paths with more turns are left out
    one_turn = ()         # while loops of which one turn is taken only; the states that would go on are kept in nexts
    nexts = ()
    oneof = False         # remember the possible classes of a value where paths meet

    def __init__(self, repo=None, opaque=None, keep=None, raises=None, methods=True, inline_init=False, hooks=None, budget=4000000,
                 evfilter=None, once=(), boundary=None):
        self.repo = repo or Repo.get()
        self.opaque = opaque or {}          # 'mod:qual' or bare qual -> handler(engine, st, fterm, args, kw, node) or None
        self.keep = keep                    # event kinds kept in the log (None: none)
        self.raises = raises or {}          # ext/opaque name -> tuple of exception kinds (overrides the default)
        self.methods = methods
        self.hooks = hooks or {}
        self.funcs, self.fkey = {}, {}
        self._gl, self._glbusy = {}, set()
        self.modobjs = set()                # objects made while the modules are loaded: always reachable
        self.sinks = [[]]
        self.depth = 0
        self.callstack = []
        self.steps = 0
        self.budget = budget
        self.inlined = set()
        self.unknown = {}
        self.loading = 0
        self.trydepth = 0
        self.squashed = 0
        self.evfilter, self.once = evfilter, set(once)
        self.boundary = boundary            # (engine, funcval) -> True: do not look into this function
        self.prof = None
        self._mods = {}

    # ------------------------------------------------------------------ functions, globals
    def fn(self, node, modname, closure=(), name=None, cls=None, parent=None):
        key = (id(node), closure, parent)
        if key not in self.fkey:
            uid = len(self.funcs)
            t = T('fn', '%s#%d' % (modname, uid), name or getattr(node, 'name', '<lambda>'), id(self))
            self.fkey[key] = t
            self.funcs[t] = FuncVal(node, modname, closure, name or getattr(node, 'name', '<lambda>'), cls, parent)
        return self.fkey[key]

    def gname(self, f):
        v = self.funcs[f]
        q = getattr(v.node, '_qual', v.name)
        return q

    def globals(self, modname):
        if modname in self._gl:
            return self._gl[modname]
        if modname in self._glbusy:
            return self._gl.setdefault('~' + modname, {})
        self._glbusy.add(modname)
        self._gl['~' + modname] = g = {}
        m = self.repo.mods[modname]
        g['__name__'] = T('sym', '__name__:' + modname)
        g['__file__'] = T('sym', '__file__:' + modname)
        # functions and classes first: bodies run later anyway
        for q, n in m.functions.items():
            if '.' not in q:
                g[q] = self.fn(n, modname, (), q)
        for c in m.classes:
            g[c] = T('cls', modname, c)
        st = St(env=g)
        keep, self.keep = self.keep, None
        sv = (self.sinks, self.depth, self.callstack, self.trydepth)
        self.sinks, self.depth, self.callstack, self.trydepth = [[]], 0, ['<module %s>' % modname], 0
        self.loading += 1
        self.curmod_stack = getattr(self, 'curmod_stack', [])
        self.curmod_stack.append(modname)
        try:
            states = [st]
            for s in m.tree.body:
                if isinstance(s, ast.If) and '__name__' in unparse(s.test):
                    continue
                out = self.block([s], states)
                states = out['n'] or states
                if len(states) > 1:      # join: keep what all agree on
                    base = states[0].copy()
                    for k in set().union(*[set(x.env) for x in states]):
                        vals = {x.env.get(k) for x in states}
                        if len(vals) > 1:
                            base.env[k] = T('sym', 'global:%s.%s' % (modname, k))
                    base.facts = {}
                    states = [base]
                g.update(states[0].env)
        finally:
            self.curmod_stack.pop()
            self.loading -= 1
            self.sinks, self.depth, self.callstack, self.trydepth = sv
            self.keep = keep
        env = dict(states[0].env)
        g.update(env)
        self.gheap = getattr(self, 'gheap', {})
        # names assigned through `global` in functions are not constants
        for fn in ast.walk(m.tree):
            if isinstance(fn, ast.Global):
                for nme in fn.names:
                    if nme in env:
                        env[nme] = T('sym', 'global:%s.%s' % (modname, nme))
        # keep the element store of module level immutable-by-convention tables (lists/dicts never mutated elsewhere)
        for k, v in states[0].heap.items():
            if isinstance(k[0], T) and k[0].op in ('list', 'dict'):
                self.gheap[k] = v
        self._gl[modname] = env
        self._glbusy.discard(modname)
        return env

    def modname(self):
        return self.curmod_stack[-1]

    # ------------------------------------------------------------------ small helpers
    def site(self, node):
        m = getattr(node, '_mod', None)
        return '%s:%d:%d' % (m.path if m else '?', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))

    def fresh(self, st, node, label):
        s = self.site(node) + ':' + label
        n = st.gens.get(s, 0)
        st.gens[s] = n + 1
        return T('fresh', s, n, label)

    def obj(self, st, node, kind):
        s = self.site(node) + ':' + kind
        n = st.gens.get(s, 0)
        st.gens[s] = n + 1
        t = T(kind, s, n)
        if self.loading:
            self.modobjs.add(t)
        return t

    def emit(self, st, kind, *data):
        if self.keep and kind in self.keep:
            if kind == 'log' and 'logargs' not in self.keep:
                data = data[:2]
            ev = (kind,) + data
            if self.evfilter is not None:
                ev = self.evfilter(st, ev)
                if ev is None:
                    return
            if kind in self.once and ev in st.log:
                return
            st.log = st.log + (ev,)

    def throw(self, st, kind, src, exc=None):
        """Record an exceptional exit of the current expression."""
        if kind == '?' and not self.trydepth:
            return
        s = st.copy()
        self.sinks[-1].append((s, exc if exc is not None else T('exc', kind, src)))

    def merge(self, states):
        if len(states) < 2:
            return states
        groups = {}
        for s in states:
            k = s.key()
            g = groups.get(k)
            if g is None:
                groups[k] = s
            elif g.facts != s.facts:
                n = g.copy()
                n.facts = {a: v for a, v in g.facts.items() if s.facts.get(a) is v}
                if self.oneof:
                    p, q = self.kinds(g), self.kinds(s)
                    for x in p:
                        if x in q and not any(n.facts.get(T('isinst', x, c)) for c in p[x] | q[x]):
                            n.facts[T('oneof', x, tuple(sorted(p[x] | q[x])))] = True
                for a, v in s.gens.items():
                    if n.gens.get(a, 0) < v:
                        n.gens[a] = v
                groups[k] = n
        res = list(groups.values())
        if len(res) > self.MAX_STATES:
            res = self.squash(res)
        return res

    @staticmethod
    def kinds(st):
        r = {}
        for a, v in st.facts.items():
            if v is True:
                if a.op == 'isinst' and isinstance(a.args[1], str):
                    r[a.args[0]] = {a.args[1]}
                elif a.op == 'oneof':
                    r.setdefault(a.args[0], set(a.args[1]))
        return r

    SOFT = 24

    def soft_join(self, states):
        """Many states at one point: join those with the same events and the same constants in variables."""
        groups = {}
        for x in states:
            k = (x.log, tuple(id(e) for e in x.stack), frozenset((n, self.shape(v)) for n, v in x.env.items()))
            groups.setdefault(k, []).append(x)
        out = []
        for g in groups.values():
            b = self.join(g)
            if len(g) > 1:
                b = b.copy()
                for n in b.env:
                    b.env[n] = self.join_val([x.env[n] for x in g])
            out.append(b)
        return out

    def squash(self, states):
        self.squashed += 1
        groups = {}
        for s in states:
            groups.setdefault((s.log, tuple(id(e) for e in s.stack)), []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0]); continue
            b = g[0].copy()
            b.facts = {a: v for a, v in b.facts.items() if all(s.facts.get(a) is v for s in g)}
            for k in set().union(*[set(s.env) for s in g]):
                vals = {s.env.get(k) for s in g}
                if len(vals) > 1:
                    b.env[k] = T('phi', k, tuple(sorted((v for v in vals if v is not None), key=lambda t: t.id)))
            for k in set().union(*[set(s.heap) for s in g]):
                vals = {s.heap.get(k) for s in g}
                if len(vals) > 1:
                    b.heap[k] = T('phi', str(k[1]), tuple(sorted((v for v in vals if v is not None), key=lambda t: t.id)))
            for s in g:
                for a, v in s.gens.items():
                    if b.gens.get(a, 0) < v:
                        b.gens[a] = v
            out.append(b)
        return out

    def last_use(self, fnode):
        r = getattr(fnode, '_lastuse', None)
        if r is not None:
            return r
        r = {}
        INF = (1 << 30, 0)
        def walk(n, loop, nested):
            for c in ast.iter_child_nodes(n):
                lp, ne = loop, nested
                if isinstance(c, (ast.For, ast.While, ast.AsyncFor)) and loop is None:
                    lp = (c.end_lineno, c.end_col_offset + 0.5)      # used until the outermost loop is left
                    c._outermost = True
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    ne = True
                if isinstance(c, ast.Name):
                    pos = INF if nested else (loop or (c.end_lineno, c.end_col_offset))
                    if not isinstance(c.ctx, ast.Store) or nested:
                        r[c.id] = max(r.get(c.id, (0, 0)), pos)
                    elif isinstance(getattr(c, '_parent', None), ast.AugAssign):
                        r[c.id] = max(r.get(c.id, (0, 0)), pos)
                walk(c, lp, ne)
        for b in (fnode.body if isinstance(fnode.body, list) else [fnode.body]):
            class H: pass
            h = ast.Module([b], []) if isinstance(b, ast.stmt) else ast.Expression(b)
            walk(h, None, False)
        fnode._lastuse = r
        return r

    def prune(self, states, after, before=False):
        """Drop local values that are not used any more after a statement (states become equal sooner)."""
        if not states:
            return states
        f = states[0].env.get('$fn')
        if not isinstance(f, T) or f.op != 'fn' or f not in self.funcs:
            return states
        lu = self.last_use(self.funcs[f].node)
        pos = (after.lineno, after.col_offset) if before else (after.end_lineno, after.end_col_offset + (1 if getattr(after, '_outermost', False) else 0))
        for x in states:
            dead = [k for k in x.env if not k.startswith('$') and lu.get(k, (0, 0)) <= pos]
            if dead:
                x.env = {k: v for k, v in x.env.items() if k not in dead}
        return states

    def merge_vals(self, pairs):
        if len(pairs) < 2:
            return pairs
        groups = {}
        for s, v in pairs:
            groups.setdefault(v, []).append(s)
        return [(s, v) for v, ss in groups.items() for s in self.merge(ss)]

    # ------------------------------------------------------------------ conditions
    def norm(self, op, a, b):
        """-> (atom, polarity) or a bool"""
        if op in ('Eq', 'NotEq'):
            pol = op == 'Eq'
            if a is NONE or b is NONE:
                return self.norm('Is' if pol else 'IsNot', a, b)
            if isc(a) and isc(b):
                return (a.args[0] == b.args[0]) == pol
            if a is b:
                return pol
            if isc(a):
                a, b = b, a
            if isc(b):
                v = b.args[0]
                if a.op == 'call' and a.args[0] == 'len' and v == 0 and not isinstance(v, bool):
                    return self.neg(self.truth(a.args[1]), not pol)
                if a.op == 'call' and a.args[0] == '.find' and len(a.args) == 3 and v == -1:
                    return (T('in', a.args[2], a.args[1]), not pol)
                if a.op == 'slice' and isinstance(v, str) and len(a.args) == 3 and (a.args[1] is NONE or (isc(a.args[1]) and a.args[1].args[0] == 0)) \
                        and isc(a.args[2]) and a.args[2].args[0] == len(v):
                    return (T('truth', T('call', '.startswith', a.args[0], b)), pol)
            elif a.id > b.id:
                a, b = b, a
            return (T('eq', a, b), pol)
        if op in ('Is', 'IsNot'):
            pol = op == 'Is'
            if isc(a) and isc(b):
                return (a.args[0] is b.args[0] or a is b) == pol
            if a is b:
                return pol
            if isc(a) or (not isc(b) and a.id > b.id):
                a, b = b, a
            if b is NONE and a.op in ('new', 'tup', 'list', 'dict', 'fn', 'cls', 'bin', 'cond', 'mod', 'exc', 'set', 'slice', 'match'):
                return not pol
            if b is NONE and isc(a):
                return (a.args[0] is None) == pol
            return (T('is', a, b), pol)
        if op == 'Gt':
            return self.norm('Lt', b, a)
        if op == 'LtE':
            r = self.norm('Lt', b, a)
            return (not r) if isinstance(r, bool) else (r[0], not r[1])
        if op == 'GtE':
            r = self.norm('Lt', a, b)
            return (not r) if isinstance(r, bool) else (r[0], not r[1])
        if op == 'Lt':
            if isc(a) and isc(b):
                try:
                    return a.args[0] < b.args[0]
                except TypeError:
                    pass
            if isc(a) and a.args[0] == 0 and b.op == 'call' and b.args[0] == 'len':
                return self.neg(self.truth(b.args[1]), True)
            if isc(b) and b.args[0] == 1 and a.op == 'call' and a.args[0] == 'len':
                return self.neg(self.truth(a.args[1]), False)
            return (T('lt', a, b), True)
        if op in ('In', 'NotIn'):
            pol = op == 'In'
            if isc(b) and isc(a):
                try:
                    return (a.args[0] in b.args[0]) == pol
                except TypeError:
                    pass
            if b.op == 'call' and b.args[0] == '.keys':
                b = b.args[1]
            return (T('in', a, b), pol)
        raise Abort(op)

    @staticmethod
    def neg(r, pol):
        if isinstance(r, bool):
            return r if pol else not r
        return (r[0], r[1] if pol else not r[1])

    def truth(self, v):
        """-> (atom, polarity) or bool"""
        if isc(v):
            try:
                return bool(v.args[0])
            except Exception:
                return (T('truth', v), True)
        if v.op == 'cond':
            return (v.args[0], v.args[1])
        if v.op in ('tup',):
            return bool(v.args)
        if v.op in ('fn', 'cls', 'mod', 'exc', 'bm', 'fh', 'match'):
            return True
        if v.op == 'call' and v.args[0] == 'bool' and len(v.args) == 2:
            return self.truth(v.args[1])
        if v.op == 'call' and v.args[0] == 'len' and len(v.args) == 2:
            return self.truth(v.args[1])
        if v.op == 'bin' and v.args[0] == 'Add' and any(isc(x) and isinstance(x.args[0], str) and x.args[0] for x in v.args[1:]):
            return True
        return (T('truth', v), True)

    def as_cond(self, r):
        return C(r) if isinstance(r, bool) else T('cond', r[0], r[1])

    def classes_of(self, t):
        """resolve a class term -> name ('str', 'SOURCE', ...)"""
        if t.op == 'cls':
            return t.args[1]
        if t.op == 'ext':
            return t.args[0]
        return None

    def mro(self, name):
        """names of all superclasses of a repo class (transitively), builtins included."""
        if not hasattr(self, '_mro'):
            self._mro = {}
            self._clsnode = {}
            for m in self.repo.mods.values():
                for c, n in m.classes.items():
                    self._clsnode.setdefault(c, n)
        if name in self._mro:
            return self._mro[name]
        res = [name]
        self._mro[name] = res
        n = self._clsnode.get(name)
        if n is not None:
            for b in n.bases:
                bn = unparse(b).rpartition('.')[2]
                for x in self.mro(bn):
                    if x not in res:
                        res.append(x)
        elif name == 'bool':
            res.append('int')
        return res

    def subclass(self, a, b):
        return b in self.mro(a)

    DISJOINT = {'str', 'int', 'float', 'list', 'dict', 'tuple', 'set'}

    def base_kind(self, name):
        for x in self.mro(name):
            if x in self.DISJOINT:
                return x
        return None

    def decide(self, atom, st):
        v = st.facts.get(atom)
        if v is not None:
            return v
        op, a = atom.op, atom.args
        if op == 'truth':
            x = a[0]
            if x.op in ('list', 'set'):
                it = self.items(st, x)
                if it is not None:
                    if any(i.op != 'star' for i in it):
                        return True
                    if not it:
                        return False
            if x.op == 'dict':
                ks = [k for k, v in st.heap.items() if k[0] is x and isinstance(k[1], tuple) and k[1][0] == 'k' and v.op != 'maybe']
                if ks:
                    return True
                if st.heap.get((x, 'base')) is NONE:
                    return False
            if x.op == 'new':
                n = x.args[0]
                if self.base_kind(n) in (None,) and not any(m in ('__len__', '__bool__') for m in self.cls_members(n)):
                    return True
            if st.facts.get(T('is', x, NONE)) is True:
                return False
        elif op == 'is':
            x, y = a
            if y is NONE:
                if st.facts.get(T('truth', x)) is True:
                    return False
                for f, v in st.facts.items():
                    if v and f.op == 'isinst' and f.args[0] is x and f.args[1] != 'NoneType':
                        return False
                    if v and f.op == 'eq' and x in f.args:
                        o = f.args[1] if f.args[0] is x else f.args[0]
                        if isc(o) and o.args[0] is not None:
                            return False
                if x.op == 'call' and x.args[0] in ('str', 'len', 'os.path.join', 'os.path.splitext', 'repr', 'int', '.replace', '.strip', '.lower',
                                                    'os.path.basename', 'os.path.dirname', 'os.path.isfile', '.find', '.splitlines'):
                    return False
                if x.op in ('lv', 'phi') and all(isinstance(p, T) and p.op == 'new' for p in x.args[-1:] if isinstance(p, T)):
                    return None
            if x.op == 'cls' and y.op == 'cls':
                return x is y
        elif op == 'eq':
            x, y = a
            for f, v in list(st.facts.items()):
                if v and f.op == 'eq' and x in f.args:
                    o = f.args[1] if f.args[0] is x else f.args[0]
                    if isc(o) and isc(y) and o is not y:
                        return o.args[0] == y.args[0]
                if v and f.op == 'is' and f.args[0] is x and f.args[1] is NONE and isc(y):
                    return False
            if isc(y) and not y.args[0] and st.facts.get(T('truth', x)) is True:
                return False
            if isc(y) and y.args[0] and st.facts.get(T('truth', x)) is False:
                return False
        elif op == 'isinst':
            x, n = a
            k = None
            if x.op == 'new':
                return self.subclass(x.args[0], n)
            if isc(x):
                k = type(x.args[0]).__name__
                return self.subclass(k, n)
            if x.op in ('list', 'dict', 'set'):
                return n == x.op or n == 'object'
            if x.op == 'tup':
                return n == 'tuple'
            if self.excmsg and beginning(x):
                return n in ('str', 'object')
            for f, v in st.facts.items():
                if f.op == 'isinst' and f.args[0] is x:
                    m = f.args[1]
                    if v:
                        if self.subclass(m, n):
                            return True
                        bm, bn = self.base_kind(m), self.base_kind(n)
                        if bm and bn and bm != bn:
                            return False
                    elif self.subclass(n, m):
                        return False
            if st.facts.get(T('is', x, NONE)) is True:
                return n == 'NoneType'
        elif op == 'in':
            x, c = self.kn(a[0]), a[1]
            it = self.items(st, c)
            if it is not None:
                if x in it or any(self.kn(i) is x for i in it):
                    return True
                if all(isc(self.kn(i)) for i in it) and isc(x):
                    return False
            if c.op == 'dict':
                if (c, ('k', x)) in st.heap:
                    return None if st.heap[(c, ('k', x))].op == 'maybe' else True
                if st.heap.get((c, 'base')) is NONE and isc(x) and all(isc(k[1][1]) for k in st.heap if k[0] is c and isinstance(k[1], tuple)):
                    return False
            if isc(c) and isinstance(c.args[0], (tuple, frozenset)) and not c.args[0]:
                return False
        elif op == 'lt':
            x, y = a
            if st.facts.get(T('lt', y, x)) is True:
                return False
            if isc(y) and isinstance(y.args[0], int) and y.args[0] <= 0 and x.op == 'call' and x.args[0] == 'len':
                return False
        return None

    def branch(self, r, st):
        """r: (atom, pol) | bool -> [(state, truth)]"""
        if isinstance(r, bool):
            return [(st, r)]
        atom, pol = r
        d = self.decide(atom, st)
        if d is not None:
            return [(st, d == pol)]
        s1, s0 = st.copy(), st
        s1.facts[atom] = True
        s0 = st.copy()
        s0.facts[atom] = False
        return [(s1, pol), (s0, not pol)]

    def isinst(self, st, x, spec):
        """names -> list of (state, bool)"""
        if spec.op == 'attr' and spec.args[1] == '__class__' and spec.args[0].op in ('exc', 'excnew'):
            if x is spec.args[0]:
                return [(st, True)]
            if x.op in ('bin', 'c'):
                return [(st, False)]
        names = []
        def flat(t):
            if t.op == 'tup':
                for y in t.args:
                    flat(y)
            elif t.op == 'c' and isinstance(t.args[0], tuple):
                pass
            else:
                names.append(self.classes_of(t) or repr(t))
        flat(spec)
        out, cur = [], [st]
        for n in names:
            nxt = []
            for s in cur:
                for s2, b in self.branch((T('isinst', x, n), True), s):
                    (out if b else nxt).append((s2, True) if b else s2)
            cur = nxt
        return out + [(s, False) for s in cur]

    def cond(self, e, st):
        """-> [(state, bool)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.cond(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, out = [st], []
            for i, x in enumerate(e.values):
                nxt = []
                for s in cur:
                    for s2, b in self.cond(x, s):
                        if b != isand:
                            out.append((s2, b))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, isand) for s in cur]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords:
            f = self.name(e.func.id, st)
            if f is T('ext', 'isinstance') and len(e.args) == 2:
                return [r for s, vs in self.seq(e.args, st) for r in self.isinst(s, vs[0], vs[1])]
            if f in (T('ext', 'all'), T('ext', 'any')) and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
                return self.quantifier(e.args[0], f is T('ext', 'all'), st)
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            cur, out = [(st, None)], []
            left = e.left
            res = []
            for s, vs in self.seq([e.left] + e.comparators, st):
                cur = [s]
                for i, op in enumerate(e.ops):
                    nxt = []
                    for s2 in cur:
                        for s3, b in self.branch(self.norm(type(op).__name__, vs[i], vs[i + 1]), s2):
                            if b:
                                nxt.append(s3)
                            else:
                                res.append((s3, False))
                    cur = nxt
                res += [(s2, True) for s2 in cur]
            return res
        out = []
        for s, v in self.ev(e, st):
            out += self.branch(self.truth(v), s)
        return out

    def quantifier(self, g, isall, st):
        """all(...)/any(...) over one generator: the loop it is."""
        if len(g.generators) != 1:
            return [(s, b) for b in (True, False) for s in [st.copy()]]
        gen = g.generators[0]
        res = []
        for s, it in self.ev(gen.iter, st):
            saved = {k: s.env.get(k) for k in self.targets(gen.target)}
            def body(b):
                cur = [b]
                for c in gen.ifs:
                    nxt = []
                    for x in cur:
                        for y, t in self.cond(c, x):
                            (nxt.append(y) if t else cont.append(y))
                    cur = nxt
                for x in cur:
                    for y, t in self.cond(g.elt, x):
                        if t == isall:
                            cont.append(y)
                        else:
                            stop.append(y)
            stop = []
            cont = []
            def run(bs):
                cont.clear()
                for b in bs:
                    body(b)
                return {'c': list(cont), 'n': [], 'r': [], 'b': []}
            out = self.for_loop(gen.target, it, g, run, s)
            res += [(x, isall) for x in self.merge(out['n'])] + [(x, not isall) for x in self.merge(stop)]
        outp = []
        for x, b in res:
            x = x.copy()
            for k, v in saved.items():
                if v is None:
                    x.env.pop(k, None)
                else:
                    x.env[k] = v
            outp.append((x, b))
        return outp

    def targets(self, t):
        return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]

    # ------------------------------------------------------------------ expressions
    def seq(self, exprs, st):
        cur = [(st, [])]
        for e in exprs:
            if isinstance(e, ast.Starred):
                nxt = []
                for s, vs in cur:
                    for s2, v in self.ev(e.value, s):
                        it = self.items(s2, v)
                        nxt.append((s2, vs + (list(it) if it is not None else [T('star', v)])))
                cur = nxt
            else:
                cur = [(s2, vs + [v]) for s, vs in cur for s2, v in self.ev(e, s)]
        return cur

    def kn(self, t):
        """a key: objects of subclasses of str compare by their text"""
        if t.op == 'call' and t.args[0] == 'str' and len(t.args) == 2:
            x = self.kn(t.args[1])
            return x if x is not t.args[1] and isc(x) and isinstance(x.args[0], str) else t
        while t.op == 'new' and isinstance(t.args[1], tuple) and t.args[1] and self.subclass(t.args[0], 'str') and t.args[1][0].op != 'kw':
            t = t.args[1][0]
        return t

    distinct = ()                # names that are not taken for the same as another one

    def alias(self, name):
        return name if name in self.distinct else EXT_ALIAS.get(name, name)

    def items(self, st, v):
        """known items of a sequence value, or None"""
        if v.op == 'tup':
            return v.args
        if v.op in ('list', 'set'):
            h = st.heap.get((v, 'items')) or getattr(self, 'gheap', {}).get((v, 'items'))
            return h.args if h is not None and h.op == 'tup' else None
        if isc(v) and isinstance(v.args[0], (tuple, range, str)) and len(v.args[0]) <= 300:
            return tuple(C(x) for x in v.args[0])
        if isc(v) and isinstance(v.args[0], frozenset) and len(v.args[0]) <= 300:
            return tuple(C(x) for x in sorted(v.args[0], key=repr))
        if v.op == 'call' and v.args[0] == '.items' and len(v.args) == 2 and v.args[1].op == 'dict':
            d = v.args[1]
            if (st.heap.get((d, 'base')) or getattr(self, 'gheap', {}).get((d, 'base'))) is NONE:
                return tuple(T('tup', k[1][1], x) for k, x in list(st.heap.items()) + list(getattr(self, 'gheap', {}).items())
                             if k[0] is d and isinstance(k[1], tuple))
        if v.op == 'call' and v.args[0] in ('list', 'tuple', 'iter') and len(v.args) == 2:
            return self.items(st, v.args[1])
        if v.op == 'call' and v.args[0] == 'enumerate' and len(v.args) == 2:
            it = self.items(st, v.args[1])
            return tuple(T('tup', C(i), x) for i, x in enumerate(it)) if it is not None and not any(x.op == 'star' for x in it) else None
        if v.op == 'call' and v.args[0] == 'zip' and len(v.args) > 1:
            its = [self.items(st, x) for x in v.args[1:]]
            if all(i is not None and not any(x.op == 'star' for x in i) for i in its):
                return tuple(T('tup', *xs) for xs in zip(*its))
        return None

    def pyval(self, st, v):
        """constant value of a term, through known sequences; raises Abort if not constant"""
        if isc(v):
            return v.args[0]
        it = self.items(st, v)
        if it is not None and all(i.op != 'star' for i in it):
            return [self.pyval(st, i) for i in it]
        raise Abort()

    def name(self, n, st):
        if n in st.env:
            return st.env[n]
        f = st.env.get('$fn')
        if isinstance(f, T) and f.op == 'fn':
            v = self.lexical(n, f, st)
            if v is not None:
                return v
        g = self.globals(self.modname()) if not (self.loading and self.modname() in self._glbusy) else self._gl['~' + self.modname()]
        if n in g:
            return g[n]
        return T('ext', self.alias(n))

    def lexical(self, n, f, st):
        fv = self.funcs[f]
        if fv.parent is None:
            return None
        p = fv.parent
        while p is not None:
            for fr in reversed(st.stack):
                if fr.get('$fn') is p:
                    if n in fr:
                        return fr[n]
                    break
            p = self.funcs[p].parent
        for k, v in fv.closure:
            if k == n:
                return v
        return None

    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisError('analysis budget exceeded (%d steps)' % self.budget)
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return [(st, self.fresh(st, e, type(e).__name__))]
        return m(e, st)

    def e_Constant(self, e, st):
        return [(st, C(e.value))]

    def e_Name(self, e, st):
        return [(st, self.name(e.id, st))]

    def e_JoinedStr(self, e, st):
        parts = []
        exprs = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                exprs.append(v.value)
        return [(s, T('call', 'fstring', *vs)) for s, vs in self.seq(exprs, st)]

    def e_Tuple(self, e, st):
        return [(s, T('tup', *vs)) for s, vs in self.seq(e.elts, st)]

    def e_List(self, e, st, kind='list'):
        out = []
        for s, vs in self.seq(e.elts, st):
            o = self.obj(s, e, kind)
            s.heap[(o, 'items')] = T('tup', *vs)
            out.append((s, o))
        return out

    def e_Set(self, e, st):
        out = []
        for s, vs in self.seq(e.elts, st):
            if all(isc(v) for v in vs):
                try:
                    out.append((s, C(frozenset(v.args[0] for v in vs))))
                    continue
                except TypeError:
                    pass
            o = self.obj(s, e, 'set')
            s.heap[(o, 'items')] = T('tup', *vs)
            out.append((s, o))
        return out

    def e_Dict(self, e, st):
        keys = [k for k in e.keys if k is not None]
        out = []
        for s, vs in self.seq([x for k, v in zip(e.keys, e.values) for x in ([k, v] if k is not None else [v])], st):
            o = self.obj(s, e, 'dict')
            s.heap[(o, 'base')] = NONE
            it = iter(vs)
            for k, v in zip(e.keys, e.values):
                if k is None:
                    s.heap[(o, 'base')] = next(it)
                else:
                    kt = next(it)
                    s.heap[(o, ('k', self.kn(kt)))] = next(it)
            out.append((s, o))
        return out

    def e_Starred(self, e, st):
        return [(s, T('star', v)) for s, v in self.ev(e.value, st)]

    def e_Lambda(self, e, st):
        return [(st, self.closure_of(e, st, '<lambda>'))]

    def closure_of(self, node, st, name):
        free = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name):
                free.add(n.id)
        clo, parent = {}, None
        if not self.is_modlevel(st):
            parent = st.env['$fn'] if st.env['$fn'].op == 'fn' else None
            if parent is not None:
                for k in free:
                    v = self.lexical(k, parent, st)
                    if v is not None:
                        clo[k] = v
            clo.update({k: v for k, v in st.env.items() if not k.startswith('$')})
        items = tuple(sorted(((k, v) for k, v in clo.items() if k in free), key=lambda x: x[0]))
        return self.fn(node, self.modname(), items, name, None, parent)

    def is_modlevel(self, st):
        return '$fn' not in st.env

    def e_Attribute(self, e, st):
        return [(s, self.getattr(s, b, e.attr, e)) for s, b in self.ev(e.value, st)]

    def getattr(self, st, b, attr, node):
        h = st.heap.get((b, attr))
        if h is not None:
            return h
        if self.excmsg and b.op == 'exc' and attr == 'args' and isinstance(b.args[1], T):
            while isinstance(b.args[1], T) and b.args[1].op == 'exc':
                b = b.args[1]           # passed on
            if b.args[1] is NONE:
                return T('tup')
            if isinstance(b.args[1], T):
                return T('tup', b.args[1])
        if b.op == 'fn' and self.fnattr and not self.loading and not attr.startswith('__') and (b, attr) not in self.initattrs():
            # an attribute of a function object that nothing has set before
            self.throw(st, 'AttributeError', 'attribute %s of %s' % (attr, b.args[1]))
            return T('attr', b, attr)
        if b.op == 'mod':
            full = b.args[0] + '.' + attr
            if b.args[0] in self.repo.mods:
                g = self.globals(b.args[0])
                if attr in g:
                    return g[attr]
                if full in self.repo.mods:
                    return T('mod', full)
                if self.modattr and b.args[0] not in self._glbusy and '$star' not in g:
                    self.throw(st, 'AttributeError', 'module %s has no %s' % (b.args[0], attr))
                    st.facts[T('missing', full)] = True
            return T('ext', self.alias(full))
        if b.op == 'ext':
            full = b.args[0] + '.' + attr
            if full == 'sys.version_info':
                return C((3, 9, 0, 'final', 0))
            return T('ext', self.alias(full))
        if b.op == 'cls':
            m = self.find_method(b.args[1], attr)
            if m is not None:
                f, cls = m
                if isinstance(f, ast.FunctionDef):
                    t = self.fn(f, f._modname, (), f.name, cls)
                    decs = [unparse(d) for d in f.decorator_list]
                    if 'classmethod' in decs:
                        return T('bm', t, b)
                    return t
        if b.op == 'new':
            m = self.find_method(b.args[0], attr)
            if m is not None and isinstance(m[0], ast.FunctionDef):
                f = m[0]
                t = self.fn(f, f._modname, (), f.name, m[1])
                decs = [unparse(d) for d in f.decorator_list]
                if 'staticmethod' in decs:
                    return t
                return T('bm', t, T('cls', f._modname, b.args[0]) if 'classmethod' in decs else b)
        elif self.methods and b.op not in ('fn',):
            # class known from a branch fact, method not overridden below it
            for f, v in st.facts.items():
                if v and f.op == 'isinst' and f.args[0] is b:
                    m = self.find_method(f.args[1], attr)
                    if m is not None and isinstance(m[0], ast.FunctionDef) and not self.overridden(f.args[1], attr):
                        t = self.fn(m[0], m[0]._modname, (), m[0].name, m[1])
                        return T('bm', t, b)
        if attr == 'st_mtime' and b.op == 'call' and b.args[0] == 'os.stat':
            return T('call', 'os.path.getmtime', b.args[1])
        return T('attr', b, attr)

    modattr = False         # a name that a module does not define raises AttributeError

    def initattrs(self):
        """attributes of module-level functions that are set while the modules are loaded"""
        if self._init is None:
            self._init = set()
            for m in list(self.repo.mods.values()):
                g = self.globals(m.name)
                todo, seen = [m.tree], set()
                while todo:
                    t = todo.pop()
                    if id(t) in seen:
                        continue
                    seen.add(id(t))
                    stack = [t] if not isinstance(t, ast.FunctionDef) else list(t.body)
                    if isinstance(t, ast.Module):
                        stack = list(t.body)
                    while stack:
                        x = stack.pop()
                        if isinstance(x, (ast.FunctionDef, ast.Lambda)) or isinstance(x, ast.If) and '__name__' in unparse(x.test):
                            continue
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in g:
                            self._init.add((g[x.value.id], x.attr))
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                            f = g.get(x.func.id)
                            if isinstance(f, T) and f.op == 'fn' and f in self.funcs:
                                todo.append(self.funcs[f].node)
                            if x.func.id == 'setattr' and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id in g:
                                self._init |= {(g[x.args[0].id], a) for a in [c.value for c in ast.walk(m.tree) if isinstance(c, ast.Constant) and isinstance(c.value, str)]}
                        stack += list(ast.iter_child_nodes(x))
        return self._init

    def cls_members(self, name):
        self.mro(name)
        n = self._clsnode.get(name)
        res = set()
        for c in self.mro(name):
            n = self._clsnode.get(c)
            if n is not None:
                res |= {x.name for x in n.body if isinstance(x, ast.FunctionDef)}
        return res

    def find_method(self, cname, attr):
        for c in self.mro(cname):
            n = self._clsnode.get(c)
            if n is None:
                continue
            for x in n.body:
                if isinstance(x, ast.FunctionDef) and x.name == attr:
                    return x, c
        return None

    def overridden(self, cname, attr):
        for c, n in self._clsnode.items():
            if c != cname and cname in self.mro(c):
                if any(isinstance(x, ast.FunctionDef) and x.name == attr for x in n.body):
                    return True
        return False

    def e_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            parts = [e.value] + [x if x is not None else ast.Constant(None) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            return [(s, self.slice(vs, s, e)) for s, vs in self.seq(parts, st)]
        out = []
        for s, vs in self.seq([e.value, e.slice], st):
            out.append((s, self.getitem(s, vs[0], vs[1], e)))
        return out

    def slice(self, vs, st, node=None):
        b, lo, hi, step = vs
        if b.op in ('list', 'tup') and node is not None and all(isc(x) for x in (lo, hi, step)):
            it = self.items(st, b)
            if it is not None and not any(i.op == 'star' for i in it):
                try:
                    it = T('tup', *it[lo.args[0]:hi.args[0]:step.args[0]])
                except Exception:
                    it = None
                if it is not None:
                    if b.op == 'tup':
                        return it
                    o = self.obj(st, node, 'list')
                    st.heap[(o, 'items')] = it
                    return o
        if all(isc(x) for x in vs):
            try:
                return C(b.args[0][lo.args[0]:hi.args[0]:step.args[0]])
            except Exception:
                pass
        if step is not NONE:
            return T('slice3', b, lo, hi, step)
        if lo is NONE and hi is NONE:
            return b if b.op not in ('list',) else T('slice', b, lo, hi)
        if isc(lo) and isinstance(lo.args[0], int) and b.op == 'slice' and b.args[2] is NONE and hi is NONE and isc(b.args[1]) \
                and isinstance(b.args[1].args[0], int) and b.args[1].args[0] >= 0 and lo.args[0] >= 0:
            return T('slice', b.args[0], C(b.args[1].args[0] + lo.args[0]), NONE)
        return T('slice', b, lo, hi)

    def getitem(self, st, b, k, node):
        if b.op == 'match':
            r = self.match_method(b, '__getitem__', (k,))
            if r is not None:
                return r
        it = self.items(st, b)
        if it is not None and isc(k) and isinstance(k.args[0], int) and not any(x.op == 'star' for x in it):
            try:
                return it[k.args[0]]
            except IndexError:
                pass
        if b.op == 'dict':
            h = st.heap.get((b, ('k', self.kn(k))))
            if h is not None:
                return h
        h = st.heap.get((b, ('k', self.kn(k))))
        if h is not None:
            return h
        if b.op == 'call' and b.args[0] == 'sys.exc_info':
            return T('sub', b, k)
        if self.excargs(b) and isc(k) and isinstance(k.args[0], int) and st.facts.get(T('truth', b)) is not True \
                and st.facts.get(T('truth', T('call', 'len', b))) is not True and not any(f.op == 'lt' and b in f.deps() for f in st.facts):
            self.throw(st, 'IndexError', 'arguments of an exception')        # an exception may have none
        elif node is not None and self.trydepth:
            self.throw(st, '?', 'subscript')
        return T('sub', b, k)

    def excargs(self, b):
        return b.op == 'attr' and b.args[1] == 'args' and (b.args[0].op == 'exc' or b.args[0].op == 'sub' and b.args[0].args[0].op == 'call'
                                                             and b.args[0].args[0].args[0] == 'sys.exc_info')

    def e_BinOp(self, e, st):
        out = []
        for s, vs in self.seq([e.left, e.right], st):
            out.append((s, self.binop(type(e.op).__name__, vs[0], vs[1], s, e)))
        return out

    def binop(self, op, a, b, st, node):
        for x, y in ((a, b), (b, a)):
            if op == 'Add' and x.op == 'sub' and self.excargs(x.args[0]) and (isc(y) and isinstance(y.args[0], str)) \
                    and st.facts.get(T('isinst', x, 'str')) is not True:
                self.throw(st, 'TypeError', 'argument of an exception')
        try:
            x, y = self.pyval(st, a), self.pyval(st, b)
            if op == 'Add' and isinstance(x, list) and isinstance(y, list):
                o = self.obj(st, node, 'list')
                st.heap[(o, 'items')] = T('tup', *(self.items(st, a) + self.items(st, b)))
                return o
            import operator as o_
            f = {'Add': o_.add, 'Sub': o_.sub, 'Mult': o_.mul, 'Mod': o_.mod, 'BitOr': o_.or_, 'BitAnd': o_.and_, 'LShift': o_.lshift,
                 'RShift': o_.rshift, 'FloorDiv': o_.floordiv, 'Pow': o_.pow, 'BitXor': o_.xor}.get(op)
            if f is not None and not isinstance(x, list) and not isinstance(y, list):
                r = f(x, y)
                if not isinstance(r, (str, bytes)) or len(r) < 5000:
                    hash(r)
                    return C(r)
        except Abort:
            pass
        except Exception:
            pass
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                ix = self.items(st, x) if x.op in ('list', 'tup') else None
                if ix is not None and isc(y) and isinstance(y.args[0], int) and len(ix) * y.args[0] <= 60 and not any(i.op == 'star' for i in ix):
                    if x.op == 'tup':
                        return T('tup', *(ix * y.args[0]))
                    o = self.obj(st, node, 'list')
                    st.heap[(o, 'items')] = T('tup', *(ix * y.args[0]))
                    return o
        if op == 'Add':
            ia, ib = self.items(st, a), self.items(st, b)
            if a.op == 'list' and (ib is not None or b.op not in ('c', 'bin')):
                o = self.obj(st, node, 'list')
                if ia is not None:
                    st.heap[(o, 'items')] = T('tup', *(tuple(ia) + (tuple(ib) if ib is not None else (T('star', b),))))
                    return o
            if b.op == 'list' and ib is not None:
                o = self.obj(st, node, 'list')
                st.heap[(o, 'items')] = T('tup', *((T('star', a),) + tuple(ib)))
                return o
            if a.op == 'tup' and b.op == 'tup':
                return T('tup', *(a.args + b.args))
            # right-nested constant concatenation: (x + 'a') + 'b'
            if isc(b) and a.op == 'bin' and a.args[0] == 'Add' and isc(a.args[2]) and isinstance(b.args[0], type(a.args[2].args[0])) and isinstance(b.args[0], (str, int)):
                return T('bin', 'Add', a.args[1], C(a.args[2].args[0] + b.args[0]))
            if isc(a) and isinstance(a.args[0], str) and a.args[0] == '':
                return b
            if isc(b) and b.args[0] == '' and isinstance(b.args[0], str):
                return a
        if op == 'Mod' and isc(a) and isinstance(a.args[0], str):
            # '%s%s' % ( x, '.bak' ) as concatenation
            r = self.percent(a.args[0], b)
            if r is not None:
                return r
        return T('bin', op, a, b)

    def percent(self, fmt, b):
        import re
        parts = re.split(r'(%s)', fmt)
        if re.search(r'%[^s%]', fmt) or '%%' in fmt:
            return None
        vals = list(b.args) if b.op == 'tup' else [b]
        if parts.count('%s') != len(vals) or len(vals) > 3:
            return None
        cur = None
        for p in parts:
            t = vals.pop(0) if p == '%s' else (C(p) if p else None)
            if t is None:
                continue
            cur = t if cur is None else (C(cur.args[0] + t.args[0]) if isc(cur) and isc(t) and isinstance(cur.args[0], str) and isinstance(t.args[0], str) else T('bin', 'Add', cur, t))
        return cur if cur is not None else C('')

    def e_UnaryOp(self, e, st):
        out = []
        if isinstance(e.op, ast.Not):
            inner = e.operand
            if isinstance(inner, (ast.BoolOp,)) or (isinstance(inner, ast.Call)):
                return [(s, C(not b)) for s, b in self.cond(inner, st)]
            return [(s, self.as_cond(self.neg(self.truth(v), False))) for s, v in self.ev(inner, st)]
        for s, v in self.ev(e.operand, st):
            if isc(v):
                try:
                    x = v.args[0]
                    out.append((s, C(-x if isinstance(e.op, ast.USub) else +x if isinstance(e.op, ast.UAdd) else ~x)))
                    continue
                except Exception:
                    pass
            out.append((s, T('un', type(e.op).__name__, v)))
        return out

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        out, cur = [], [st]
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                for s2, v in self.ev(x, s):
                    if last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.branch(self.truth(v), s2):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            vv = C(b) if v.op == 'cond' else v
                            out.append((s3, vv))
            cur = nxt
        return self.merge_vals(out)

    def e_IfExp(self, e, st):
        out = []
        for s, b in self.cond(e.test, st):
            out += self.ev(e.body if b else e.orelse, s)
        return self.merge_vals(out)

    def e_Compare(self, e, st):
        if len(e.ops) > 1:
            return [(s, C(b)) for s, b in self.cond(e, st)]
        return [(s, self.as_cond(self.norm(type(e.ops[0]).__name__, vs[0], vs[1]))) for s, vs in self.seq([e.left, e.comparators[0]], st)]

    def e_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            s.env[e.target.id] = v
            out.append((s, v))
        return out

    def iterated(self, st, it, node):
        return [(st, it)]

    def comp(self, e, st, kind):
        elts = [e.key, e.value] if kind == 'dict' else [e.elt]
        g = e.generators[0]
        out = []
        for s, it in [r for x, i in self.ev(g.iter, st) for r in self.iterated(x, i, e)]:
            items = self.items(s, it)
            tnames = [n for gg in e.generators for n in self.targets(gg.target)]
            saved = {k: s.env.get(k) for k in tnames}
            if len(e.generators) == 1 and items is not None and len(items) <= 60 and not any(i.op == 'star' for i in items) and kind in ('list', 'gen', 'set', 'dict'):
                cur = [(s, [])]
                ok = True
                for i in items:
                    nxt = []
                    for s2, vs in cur:
                        s2 = s2.copy()
                        self.bind(g.target, i, s2, e)
                        conds = [(s2, True)]
                        for c in g.ifs:
                            conds = [r for s3, b in conds for r in (self.cond(c, s3) if b else [(s3, False)])]
                        for s3, b in conds:
                            if not b:
                                nxt.append((s3, vs))
                            else:
                                for s4, v in self.seq(elts, s3):
                                    nxt.append((s4, vs + [v]))
                    cur = nxt
                    if len(cur) > 40:
                        ok = False
                        break
                if ok:
                    for s2, vs in cur:
                        for k, v in saved.items():
                            if v is None:
                                s2.env.pop(k, None)
                            else:
                                s2.env[k] = v
                        if kind == 'dict':
                            o = self.obj(s2, e, 'dict')
                            s2.heap[(o, 'base')] = NONE
                            for kk, vv in vs:
                                s2.heap[(o, ('k', self.kn(kk)))] = vv
                        else:
                            o = self.obj(s2, e, 'list')
                            s2.heap[(o, 'items')] = T('tup', *[v[0] if isinstance(v, list) else v for v in vs])
                        out.append((s2, o))
                    continue
            # abstract: element evaluated once over an unknown element, for its effects and its shape
            holder = []
            def run(bs):
                cont = []
                for b in bs:
                    cur = [b]
                    for gg in e.generators[1:]:
                        nxt = []
                        for x in cur:
                            for y, i2 in self.ev(gg.iter, x):
                                y = y.copy()
                                self.bind(gg.target, T('elem', self.site(gg.iter), i2, 'g'), y, e)
                                nxt.append(y)
                        cur = nxt
                    for c in [c for gg in e.generators for c in gg.ifs]:
                        nxt = []
                        for x in cur:
                            for y, t in self.cond(c, x):
                                (nxt if t else cont).append(y)
                        cur = nxt
                    for x in cur:
                        for y, vs in self.seq(elts, x):
                            holder.append(vs)
                            cont.append(y)
                return {'c': cont, 'n': [], 'r': [], 'b': []}
            lo = self.for_loop(g.target, it, e, run, s)
            shapes = []
            for vs in holder:
                t = T('tup', *vs) if len(vs) > 1 else vs[0]
                if t not in shapes:
                    shapes.append(t)
            val = T('comp', kind, it, T('tup', *sorted(shapes[:6], key=lambda t: t.id)), bool(g.ifs))
            for s2 in self.merge(lo['n']):
                s2 = s2.copy()
                for k, v in saved.items():
                    if v is None:
                        s2.env.pop(k, None)
                    else:
                        s2.env[k] = v
                if kind == 'dict':
                    o = self.obj(s2, e, 'dict')
                    s2.heap[(o, 'base')] = val
                    out.append((s2, o))
                elif kind == 'list':
                    o = self.obj(s2, e, 'list')
                    s2.heap[(o, 'items')] = T('tup', T('star', val))
                    out.append((s2, o))
                else:
                    out.append((s2, val))
        return out

    def e_ListComp(self, e, st):
        return self.comp(e, st, 'list')

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, 'gen')

    def e_SetComp(self, e, st):
        return self.comp(e, st, 'set')

    def e_DictComp(self, e, st):
        return self.comp(e, st, 'dict')

    def e_Yield(self, e, st):
        out = []
        vals = self.ev(e.value, st) if e.value is not None else [(st, NONE)]
        for s, v in vals:
            self.emit(s, 'yield', v, self.site(e))
            h = self.hooks.get('yield')
            if h:
                h(self, s, v, e)
            out.append((s, self.fresh(s, e, 'sent')))
        return out

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name):
            f = self.name(e.func.id, st)
            if f is T('ext', 'isinstance') and len(e.args) == 2:
                return [(s, C(b)) for s, b in self.cond(e, st)]
            if f in (T('ext', 'all'), T('ext', 'any')) and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
                return [(s, C(b)) for s, b in self.cond(e, st)]
        out = []
        for s, f in self.ev(e.func, st):
            for s2, vs in self.seq(list(e.args), s):
                kws = [(s2, {})]
                for k in e.keywords:
                    kws = [(s4, dict(d, **{k.arg or '**': v})) for s3, d in kws for s4, v in self.ev(k.value, s3)]
                for s3, d in kws:
                    out += self.call(s3, f, vs, d, e)
        return self.merge_vals(out) if len(out) > 1 else out

    def is_opaque(self, f):
        v = self.funcs[f]
        q = getattr(v.node, '_qual', v.name)
        if self.boundary is not None and q not in self.opaque and self.boundary(self, v):
            self.opaque[q] = None
        return q if q in self.opaque else (v.modname + ':' + q if v.modname + ':' + q in self.opaque else None)

    def call(self, st, f, args, kw, node):
        op = f.op
        if op == 'bm':
            return self.call(st, f.args[0], [f.args[1]] + list(args), kw, node)
        if op == 'fn':
            fv = self.funcs[f]
            o = self.is_opaque(f)
            if o is not None:
                h = self.opaque[o]
                if callable(h):
                    r = h(self, st, f, args, kw, node)
                    if r is not None:
                        return r
                return self.opaque_call(st, f, args, kw, node)
            if self.is_generator(fv.node):
                self.emit(st, 'call', fv.name, tuple(args), self.site(node))
                g = self.fresh(st, node, 'gen')
                return [(st, T('gen', f, tuple(args), g))]
            if self.depth >= self.MAX_DEPTH or self.callstack.count(f) >= 1:
                self.unknown.setdefault('recursion/depth', set()).add(fv.name)
                return self.opaque_call(st, f, args, kw, node)
            return self.inline(st, f, args, kw, node)
        if op == 'cls':
            return self.new(st, f, args, kw, node)
        if op == 'ext':
            return self.ext(st, f.args[0], args, kw, node)
        if op == 'attr':
            if f.args[1] == '__class__' and f.args[0].op == 'exc':
                # an exception of the same type is created, not every type is content with a message
                self.throw(st, 'TypeError', 'creation of an exception')
                return [(st, T('excnew', f.args[0].args[0] if f.args[0].args[0] != '?' else 'Exception', tuple(args)))]
            return self.method(st, f.args[0], f.args[1], args, kw, node, f)
        if op == 'cond':
            return [(st, self.fresh(st, node, 'call'))]
        # unknown callee: value called
        self.emit(st, 'dyncall', f, tuple(args), self.site(node))
        for k in self.raises.get('dyncall', ('Exception',)):
            self.throw(st, k, 'dyncall')
        return [(st, self.fresh(st, node, 'dyncall'))]

    @staticmethod
    def is_generator(node):
        if isinstance(node, ast.Lambda):
            return False
        r = getattr(node, '_isgen', None)
        if r is None:
            r = False
            stack = list(node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
            node._isgen = r
        return r

    def opaque_call(self, st, f, args, kw, node, label=None):
        fv = self.funcs[f]
        name = label or getattr(fv.node, '_qual', fv.name)
        self.emit(st, 'call', name, tuple(args), self.site(node))
        for k in self.raises.get(name, ()):
            s = st.copy()
            self.emit(s, 'xcall', name, self.site(node))
            self.havoc_mods(s, f, node)
            self.throw(s, k, name)
        v = self.fresh(st, node, name)
        self.havoc_mods(st, f, node)
        self.forget(st, args, node)
        self.emit(st, 'ret', name, v)
        return [(st, v)]

    def forget(self, st, args, node):
        """An unanalysed callee may change the containers it is given."""
        for a in args:
            if a.op in ('list', 'set') and (a, 'items') in st.heap:
                st.heap[(a, 'items')] = T('tup', T('star', self.fresh(st, node, 'changed')))
            elif a.op == 'dict':
                for k in [k for k in st.heap if k[0] is a]:
                    if isinstance(k[1], tuple):
                        st.heap[k] = T('maybe', k[1][1], self.fresh(st, node, 'changed'))
                st.heap[(a, 'base')] = self.fresh(st, node, 'changed')

    def havoc_mods(self, st, f, node):
        """An unanalysed call may change every attribute of module-level objects that it (transitively) stores."""
        for (b, attr) in self.attr_mods(f):
            st.heap[(b, attr)] = self.fresh(st, node, 'after:%s.%s' % (b.args[1] if len(b.args) > 1 else b, attr))

    def attr_mods(self, f):
        fv = self.funcs[f]
        key = id(fv.node)
        if key in self._mods:
            return self._mods[key]
        res, seen, work = set(), set(), [(fv.node, fv.modname)]
        while work:
            n, m = work.pop()
            if id(n) in seen:
                continue
            seen.add(id(n))
            g = self.globals(m)
            for x in ast.walk(n):
                if isinstance(x, (ast.Attribute,)) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                    b = g.get(x.value.id)
                    if isinstance(b, T) and b.op in ('fn', 'cls', 'call', 'sym'):
                        res.add((b, x.attr))
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    b = g.get(x.id)
                    if isinstance(b, T) and b.op == 'fn' and b in self.funcs:
                        v = self.funcs[b]
                        work.append((v.node, v.modname))
                        for k, c in v.closure:
                            if c.op == 'fn' and c in self.funcs:
                                work.append((self.funcs[c].node, self.funcs[c].modname))
        self._mods[key] = res
        return res

    def inline(self, st, f, args, kw, node):
        fv = self.funcs[f]
        n = fv.node
        env = self.bind_args(n, fv, args, kw, st, node)
        if env is None:
            self.unknown.setdefault('unbindable call', set()).add(fv.name)
            return self.opaque_call(st, f, args, kw, node)
        self.inlined.add(getattr(n, '_qual', fv.name))
        s = st.copy()
        s.stack = st.stack + (st.env,)
        env['$fn'] = f
        s.env = env
        self.depth += 1
        self.callstack.append(f)
        self.curmod_stack.append(fv.modname)
        self.sinks.append([])
        try:
            if isinstance(n, ast.Lambda):
                rets = self.ev(n.body, s)
            else:
                out = self.block(n.body, [s])
                rets = out['r'] + [(x, NONE) for x in out['n']]
        finally:
            xs = self.sinks.pop()
            self.curmod_stack.pop()
            self.callstack.pop()
            self.depth -= 1
        res = []
        for x, v in rets:
            res.append((self.popenv(x), v))
        if len(res) > self.MAX_RETURNS:
            res = self.join_returns(res)
        for x, ex in xs:
            self.sinks[-1].append((self.popenv(x), ex))
        self.gc(res)
        return self.merge_vals(res)

    MAX_RETURNS = 4

    def join_returns(self, res):
        """More outcomes of one call than worth telling apart: join those with the same events, the same returned
        constant (or kind of value) and the same callers' variables; differing stores become unknown."""
        groups = {}
        for x, v in res:
            k = (x.log, tuple(id(e) for e in x.stack), frozenset(x.env.items()), self.shape(v))
            groups.setdefault(k, []).append((x, v))
        return [(self.join([x for x, v in g]), self.join_val([v for x, v in g])) for g in groups.values()]

    @classmethod
    def shape(cls, v):
        if isc(v) and isinstance(v.args[0], (bool, type(None), int)):
            return v
        if v.op == 'tup':
            return tuple(cls.shape(x) for x in v.args)
        if v.op in ('list', 'dict', 'set', 'new', 'fh', 'fn', 'cls', 'gen', 'bm'):
            return v
        return '*'

    def join_val(self, vs):
        us = sorted(set(vs), key=lambda t: t.id)
        if len(us) == 1:
            return us[0]
        if us[0].op == 'tup':
            return T('tup', *[self.join_val([u.args[i] for u in us]) for i in range(len(us[0].args))])
        return T('phi', 'ret', tuple(us))

    def join(self, g):
        if len(g) == 1:
            return g[0]
        b = g[0].copy()
        b.facts = {a: v for a, v in b.facts.items() if all(s.facts.get(a) is v for s in g)}
        for s in g:
            for a, v in s.gens.items():
                if b.gens.get(a, 0) < v:
                    b.gens[a] = v
        bases = {}
        for k in set().union(*[set(s.heap) for s in g]):
            vals = {s.heap.get(k) for s in g}
            if len(vals) == 1:
                continue
            if None in vals:
                o = k[0]
                if isinstance(k[1], tuple) and isinstance(o, T) and o.op == 'dict':
                    b.heap[k] = T('maybe', k[1][1], tuple(sorted((v for v in vals if v is not None), key=lambda t: t.id)))
                    bases[o] = T('maybe', C('base'), tuple(sorted({s.heap.get((o, 'base'), o) for s in g} | {o}, key=lambda t: t.id)))
                else:
                    b.heap[k] = T('phi', str(k[1]), tuple(sorted({v if v is not None else T('attr', o, k[1]) if isinstance(o, T) and isinstance(k[1], str) else NONE for v in vals}, key=lambda t: t.id)))
            else:
                b.heap[k] = T('phi', str(k[1]), tuple(sorted(vals, key=lambda t: t.id)))
        for o, v in bases.items():
            b.heap[(o, 'base')] = v
        return b

    def popenv(self, x):
        y = x.copy()
        y.env = dict(x.stack[-1])
        y.stack = x.stack[:-1]
        return y

    def gc(self, res):
        """Drop element stores of local objects that nothing refers to any more (keeps states mergeable)."""
        for x, v in res:
            objs = {k[0] for k in x.heap if isinstance(k[0], T) and k[0].op in ('list', 'dict', 'set', 'new')} - self.modobjs
            if not objs:
                continue
            live = set(v.deps())
            fns = set()
            for e in x.env.values():
                if isinstance(e, T):
                    live |= e.deps()
            for fr in x.stack:
                for e in fr.values():
                    if isinstance(e, T):
                        live |= e.deps()
                    if isinstance(e, T) and e.op == 'fn':
                        fns.add(e)
            fns |= {e for e in x.env.values() if isinstance(e, T) and e.op == 'fn'}
            fns |= {e for e in x.heap.values() if isinstance(e, T) and e.op == 'fn'}
            for e in live:
                if e.op == 'fn':
                    fns.add(e)
            for e in fns:
                if e in self.funcs:
                    for _, e2 in self.funcs[e].closure:
                        live |= e2.deps()
            for f in x.facts:
                if f.op in ('forall', 'in'):
                    live |= f.deps()
            for ev in x.log:
                for d in ev:
                    if isinstance(d, T):
                        live |= d.deps()
                    elif isinstance(d, tuple):
                        for d2 in d:
                            if isinstance(d2, T):
                                live |= d2.deps()
            changed = True
            while changed:
                changed = False
                for k, val in x.heap.items():
                    if (k[0] not in objs or k[0] in live) and isinstance(val, T) and not val.deps() <= live:
                        live |= val.deps()
                        changed = True
            dead = [k for k in x.heap if k[0] in objs and k[0] not in live]
            for k in dead:
                del x.heap[k]

    def bind_args(self, n, fv, args, kw, st, node):
        a = n.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if '**' in kw or any(x.op == 'star' for x in args):
            if not a.vararg:
                return None
        args = list(args)
        if len(args) > len(pos) and not a.vararg:
            return None
        for p, v in zip(pos, args):
            if v.op == 'star':
                return None
            env[p] = v
        if a.vararg:
            rest = args[len(pos):]
            env[a.vararg.arg] = T('tup', *rest)
        kwx = {}
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg:
                kwx[k] = v
            else:
                return None
        if a.kwarg:
            o = self.obj(st, n, 'dict')
            st.heap[(o, 'base')] = NONE
            for k, v in kwx.items():
                st.heap[(o, ('k', C(k)))] = v
            env[a.kwarg.arg] = o
        defaults = a.defaults
        for i, p in enumerate(pos):
            if p not in env:
                j = i - (len(pos) - len(defaults))
                if j < 0:
                    return None
                env[p] = self.default(defaults[j], fv, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                if d is None:
                    return None
                env[x.arg] = self.default(d, fv, st)
        return env

    def default(self, d, fv, st):
        if isinstance(d, ast.Constant):
            return C(d.value)
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant) and isinstance(d.operand.value, (int, float)):
            return C(-d.operand.value)
        if isinstance(d, ast.Name):
            g = self.globals(fv.modname)
            if d.id in g:
                return g[d.id]
            for k, v in fv.closure:
                if k == d.id:
                    return v
            return T('ext', d.id)
        return T('sym', 'default@' + self.site(d))

    def new(self, st, cls, args, kw, node):
        name = cls.args[1]
        if '.' in name:
            return [(st, self.fresh(st, node, name))]
        bases = self.mro(name)
        if any(exc_class(b) for b in bases):
            return [(st, T('excnew', name, tuple(args)))]
        hook = self.hooks.get('new')
        if hook:
            r = hook(self, st, cls, args, kw, node)
            if r is not None:
                return r
        n = self.fresh(st, node, 'new').args
        t = T('new', name, tuple(args) + tuple(T('kw', k, v) for k, v in sorted(kw.items())), n[0], n[1])
        self.emit(st, 'new', name, tuple(args), self.site(node))
        return [(st, t)]

    REFLAGS = {n: int(getattr(re, n)) for n in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE', 'A', 'ASCII', 'U', 'UNICODE')}

    def reflags(self, t):
        if isc(t) and isinstance(t.args[0], int):
            return int(t.args[0])
        if t.op == 'ext' and t.args[0].startswith('re.'):
            return self.REFLAGS.get(t.args[0][3:])
        if t.op == 'bin' and t.args[0] in ('BitOr', 'Add'):
            a, b = self.reflags(t.args[1]), self.reflags(t.args[2])
            return None if a is None or b is None else a | b
        return None

    def pattern(self, t):
        """the regular expression of a re.compile() term, if it is constant"""
        pos = [a for a in t.args[1:] if a.op != 'kw']
        fl = C(0)
        for a in t.args[1:]:
            if a.op == 'kw':
                if a.args[0] != 'flags':
                    return None
                fl = a.args[1]
        if len(pos) > 1:
            fl = pos[1]
        f = self.reflags(fl)
        if not pos or not isc(pos[0]) or not isinstance(pos[0].args[0], str) or f is None:
            return None
        try:
            return re.compile(pos[0].args[0], f)
        except re.error:
            return None

    def regex(self, pat, name, args):
        """constant propagation through a constant pattern applied to constant text"""
        if name not in ('search', 'match', 'fullmatch', 'sub') + REGEX_LISTS or not all(isc(a) and isinstance(a.args[0], (str, int)) for a in args):
            return None
        rx = self.pattern(pat)
        if rx is None:
            return None
        try:
            r = getattr(rx, name)(*[a.args[0] for a in args])
            if name in REGEX_LISTS:
                r = list(r)
        except Exception:
            return None
        if name == 'sub':
            return C(r)
        if r is None:
            return NONE

        def match(m):
            return T('match', (m.group(0),) + m.groups(), m.regs, tuple(sorted(m.re.groupindex.items())))
        if name == 'finditer':
            return T('tup', *[match(m) for m in r])
        if name in REGEX_LISTS:
            return T('tup', *[T('tup', *[C(y) for y in x]) if isinstance(x, tuple) else C(x) for x in r])
        return match(r)

    def match_method(self, m, name, args):
        g, regs, names = m.args[0], m.args[1], dict(m.args[2])
        ix = []
        for a in args:
            if not isc(a):
                return None
            k = names.get(a.args[0], a.args[0])
            if not isinstance(k, int) or not 0 <= k < len(g):
                return None
            ix.append(k)
        if name in ('group', '__getitem__'):
            if not ix:
                return C(g[0])
            return C(g[ix[0]]) if len(ix) == 1 else T('tup', *[C(g[i]) for i in ix])
        if name == 'groups' and not args:
            return T('tup', *[C(x) for x in g[1:]])
        if name in ('start', 'end', 'span') and len(ix) < 2:
            r = regs[ix[0] if ix else 0]
            return {'start': C(r[0]), 'end': C(r[1]), 'span': T('tup', C(r[0]), C(r[1]))}[name]
        return None

    def method(self, st, recv, name, args, kw, node, f):
        # the first argument of a foreign exception is not necessarily a string
        if recv.op == 'sub' and self.excargs(recv.args[0]) and name in ('startswith', 'endswith', 'strip', 'rstrip', 'split', 'encode', 'lower', 'find'):
            if st.facts.get(T('isinst', recv, 'str')) is not True:
                self.throw(st, 'AttributeError', 'argument of an exception')
        if self.excmsg and name == 'startswith' and len(args) == 1 and beginning(recv):
            b, ts = beginning(recv), None
            if isc(args[0]):
                ts = args[0].args[0] if isinstance(args[0].args[0], tuple) else (args[0].args[0],)
            elif args[0].op == 'tup' and all(isc(x) for x in args[0].args):
                ts = tuple(x.args[0] for x in args[0].args)
            if ts and all(isinstance(x, str) for x in ts):
                if any(b.startswith(x) for x in ts):
                    return [(st, TRUE)]
                if not any(x.startswith(b) for x in ts):
                    return [(st, FALSE)]
        # mutation and lookup of known containers
        if recv.op in ('list', 'set') and name in MUTATORS:
            it = self.items(st, recv)
            new = None
            if it is not None:
                if name in ('append', 'add') and len(args) == 1:
                    new = it + (args[0],) if not (name == 'add' and args[0] in it) else it
                elif name in ('extend', 'update') and len(args) == 1:
                    jt = self.items(st, args[0])
                    new = it + (tuple(jt) if jt is not None else (T('star', args[0]),))
                elif name == 'insert' and len(args) == 2 and isc(args[0]):
                    i = args[0].args[0]
                    new = it[:i] + (args[1],) + it[i:]
                elif name in ('sort', 'reverse'):
                    new = it if name == 'sort' else it[::-1]
                elif name == 'clear':
                    new = ()
                elif name == 'pop' and recv.op == 'list' and it and len(args) <= 1 and all(isc(x) and isinstance(x.args[0], int) for x in args):
                    i = args[0].args[0] if args else -1
                    span = it[i:] if i < 0 else it[:i + 1]
                    if -len(it) <= i < len(it) and not any(x.op == 'star' for x in span):
                        got = it[i]
                        new = it[:i] + it[i + 1:] if i >= 0 else it[:len(it) + i] + it[len(it) + i + 1:]
                        self.emit(st, 'mutate', recv, name, tuple(args), self.site(node))
                        for a in [a for a in st.facts if a.op == 'in' and a.args[1] is recv]:
                            del st.facts[a]
                        st.heap[(recv, 'items')] = T('tup', *new)
                        return [(st, got)]
            self.emit(st, 'mutate', recv, name, tuple(args), self.site(node))
            for a in [a for a in st.facts if a.op == 'in' and a.args[1] is recv]:
                del st.facts[a]
            if new is not None:
                st.heap[(recv, 'items')] = T('tup', *new)
                return [(st, NONE)]
            st.heap[(recv, 'items')] = T('tup', T('star', self.fresh(st, node, 'mutated')))
            return [(st, self.fresh(st, node, name))]
        if recv.op == 'dict':
            if name == 'get' and args:
                h = st.heap.get((recv, ('k', self.kn(args[0]))))
                if h is not None:
                    return [(st, h)]
                if st.heap.get((recv, 'base')) is NONE and isc(args[0]):
                    return [(st, args[1] if len(args) > 1 else NONE)]
                return [(st, T('call', '.get', recv, *args))]
            if name == 'update':
                self.emit(st, 'mutate', recv, name, tuple(args), self.site(node))
                for a in [a for a, b in st.facts.items() if a.op == 'in' and a.args[1] is recv and not b]:
                    del st.facts[a]
                if len(args) == 1 and args[0].op == 'dict' and st.heap.get((args[0], 'base')) is NONE:
                    for k, v in list(st.heap.items()):
                        if k[0] is args[0] and isinstance(k[1], tuple):
                            st.heap[(recv, k[1])] = v
                elif kw and not args:
                    for k, v in kw.items():
                        st.heap[(recv, ('k', C(k)))] = v
                else:
                    b = st.heap.get((recv, 'base'), NONE)
                    st.heap[(recv, 'base')] = T('bin', 'update', b, args[0] if args else NONE)
                    for k in [k for k in st.heap if k[0] is recv and isinstance(k[1], tuple)]:
                        st.heap[k] = self.fresh(st, node, 'upd')
                return [(st, NONE)]
            if name == 'setdefault' and args:
                k = (recv, ('k', self.kn(args[0])))
                if k in st.heap:
                    return [(st, st.heap[k])]
                v = args[1] if len(args) > 1 else NONE
                if st.heap.get((recv, 'base')) is NONE:
                    st.heap[k] = v
                    return [(st, v)]
                return [(st, T('call', '.get', recv, *args))]
            if name in MUTATORS:
                self.emit(st, 'mutate', recv, name, tuple(args), self.site(node))
                for k in [k for k in st.heap if k[0] is recv and isinstance(k[1], tuple)]:
                    del st.heap[k]
                st.heap[(recv, 'base')] = self.fresh(st, node, 'mutated') if name != 'clear' else NONE
                return [(st, self.fresh(st, node, name))]
        if isc(recv) and (name in STR_METHODS or name == 'decode') and all(isc(a) for a in args) and not kw:
            try:
                r = getattr(recv.args[0], name)(*[a.args[0] for a in args])
                if isinstance(r, list):
                    return self.x_list(st, [T('tup', *[C(x) for x in r])], {}, node)
                hash(r)
                return [(st, C(r))]
            except Exception:
                pass
        if isc(recv) and name == 'join' and len(args) == 1 and not kw and args[0].op in ('list', 'tup'):
            try:
                return [(st, C(recv.args[0].join(self.pyval(st, args[0]))))]
            except (Abort, TypeError, AttributeError):
                pass
        if recv.op == 'call' and recv.args[0] == 're.compile' and not kw:
            r = self.regex(recv, name, args)
            if r is not None:
                return self.x_list(st, [r], {}, node) if name in REGEX_LISTS else [(st, r)]
        if recv.op == 'match' and not kw:
            r = self.match_method(recv, name, args)
            if r is not None:
                return [(st, r)]
        if recv.op == 'fh':
            return self.fh_method(st, recv, name, args, kw, node)
        if name in LOG_METHODS and self.is_logger(recv):
            lv = name
            self.emit(st, 'log', self.logger_name(recv), lv, tuple(args), self.site(node))
            return [(st, NONE)]
        if name == 'setLevel' and self.is_logger(recv):
            self.emit(st, 'setlevel', self.logger_name(recv), args[0] if args else NONE, self.site(node))
            return [(st, NONE)]
        if name in ('read', 'readline', 'readlines'):
            for k in self.raises.get('.read', ('OSError', 'UnicodeError')):
                self.throw(st, k, '.read')
            self.emit(st, 'read', recv, self.site(node))
            return [(st, self.fresh(st, node, name))]
        if name == 'write':
            self.emit(st, 'mcall', name, recv, tuple(args), self.site(node))
            return [(st, self.fresh(st, node, name))]
        h = self.hooks.get('method')
        if h:
            r = h(self, st, recv, name, args, kw, node)
            if r is not None:
                return r
        if name in PURE_METHODS:
            if self.trydepth and name in ('encode', 'decode', 'index', 'rindex', 'format'):
                self.throw(st, '?', name)
            return [(st, T('call', '.' + name, recv, *(tuple(args) + tuple(T('kw', k, v) for k, v in sorted(kw.items())))))]
        self.emit(st, 'mcall', name, recv, tuple(args), self.site(node))
        if name in MUTATORS:
            self.emit(st, 'mutate', recv, name, tuple(args), self.site(node))
            for k in [k for k in st.heap if k[0] is recv and (isinstance(k[1], tuple) or k[1] == 'items')]:
                del st.heap[k]
            # facts about the content of the receiver no longer hold
            for a in [a for a in st.facts if recv in a.deps() and a.op in ('truth', 'in', 'eq')]:
                del st.facts[a]
            if name in ('append', 'add', 'insert') and args:
                st.facts[T('in', args[-1], recv)] = True
            for k in self.raises.get('.' + name, ()):
                self.throw(st, k, name)
            return [(st, self.fresh(st, node, name))]
        for k in self.raises.get('.' + name, ('?',)):
            self.throw(st, k, name)
        return [(st, self.fresh(st, node, name))]

    def is_logger(self, t):
        if t.op == 'call' and t.args[0] == 'logging.getLogger':
            return True
        return t.op == 'sym' and t.args[0].endswith(('.log', '.trace')) and t.args[0].startswith('global:') \
            or t is T('ext', 'logging')

    def logger_name(self, t):
        if t.op == 'call' and len(t.args) > 1 and isc(t.args[1]):
            return t.args[1].args[0]
        if t.op == 'sym':
            return t.args[0].rpartition('.')[2]
        return '?'

    # ------------------------------------------------------------------ external functions
    def ext(self, st, name, args, kw, node):
        h = self.opaque.get('ext:' + name)
        if callable(h):
            r = h(self, st, name, args, kw, node)
            if r is not None:
                return r
        m = getattr(self, 'x_' + name.replace('.', '_'), None)
        if m is not None:
            r = m(st, args, kw, node)
            if r is not None:
                return r
        kwt = tuple(T('kw', k, v) for k, v in sorted(kw.items()))
        if name in FOLD and FOLD[name] is not None and not kw:
            try:
                vals = [self.pyval(st, a) for a in args]
                r = FOLD[name](*vals)
                hash(r)
                if not (isinstance(r, tuple) and len(r) > 300):
                    return [(st, C(r))]
            except Abort:
                pass
            except Exception:
                pass
        if name in ('re.search', 're.match', 're.fullmatch', 're.sub', 're.split', 're.findall', 're.finditer') and args:
            k = 3 if name == 're.sub' else 2
            r = self.regex(T('call', 're.compile', args[0], *(tuple(args[k + (name == 're.sub'):]) + kwt)), name[3:], args[1:k])
            if r is not None:
                return self.x_list(st, [r], {}, node) if name[3:] in REGEX_LISTS else [(st, r)]
        if exc_class(name) is not None:
            return [(st, T('excnew', name, tuple(args)))]
        if name in PURE_EXT or name.startswith(('os.path.', 're.', 'math.', 'operator.', 'string.')):
            for k in self.raises.get(name, ('OSError',) if name in ('os.path.getmtime', 'os.path.getsize') else ()):
                self.throw(st, k, name)
            if self.trydepth and name in ('int', 'float', 'ord', 'chr', 'hex'):
                self.throw(st, '?', name)
            self.emit(st, 'pure', name, tuple(args), self.site(node))
            return [(st, T('call', name, *(tuple(args) + kwt)))]
        if name == 'raise_':
            return self.raise_call(st, args, node)
        self.forget(st, args, node)
        self.emit(st, 'ext', name, tuple(args) + kwt, self.site(node))
        for k in self.raises.get(name, ('?',)):
            self.throw(st, k, name)
        return [(st, self.fresh(st, node, name))]

    def raise_call(self, st, args, node):
        cur = st.heap.get((None, '$exc'))
        msg = args[1] if len(args) > 1 else NONE
        kind = 'Exception'
        if msg.op == 'excnew':
            kind, msg = msg.args[0], (msg.args[1][0] if msg.args[1] else NONE)
        elif args:
            a = args[0]
            if a.op == 'ext':
                kind = a.args[0]
            elif a.op == 'excnew':
                kind, msg = a.args[0], (a.args[1][0] if a.args[1] else NONE)
            elif a.op == 'attr' and a.args[0].op == 'exc':
                kind = a.args[0].args[0]
            elif a.op == 'attr' and a.args[0].op == 'excnew':
                kind = a.args[0].args[0]
            if self.excmsg and a.op == 'attr' and a.args[0].op == 'exc' and msg.op not in ('exc', 'excnew'):
                self.throw(st, 'TypeError', 'creation of an exception')     # not every type is content with a message
        if kind == '?':
            kind = 'Exception'
        self.emit(st, 'raise', kind, msg, self.site(node))
        self.sinks[-1].append((st.copy(), T('exc', kind, msg)))
        return []

    def x_print(self, st, args, kw, node):
        self.emit(st, 'print', tuple(args), self.site(node))
        return [(st, NONE)]

    def x_sys_stdout_write(self, st, args, kw, node):
        self.emit(st, 'print', tuple(args), self.site(node))
        return [(st, NONE)]

    def x_sys_exit(self, st, args, kw, node):
        v = args[0] if args else NONE
        self.emit(st, 'exit', v, self.site(node))
        self.sinks[-1].append((st.copy(), T('exc', 'SystemExit', v)))
        return []

    def x_list(self, st, args, kw, node):
        o = self.obj(st, node, 'list')
        if not args:
            st.heap[(o, 'items')] = T('tup')
        else:
            it = self.items(st, args[0])
            st.heap[(o, 'items')] = T('tup', *it) if it is not None else T('tup', T('star', args[0]))
        return [(st, o)]

    def x_len(self, st, args, kw, node):
        if len(args) != 1 or kw:
            return None
        it = self.items(st, args[0])
        if it is None or any(i.op == 'star' for i in it):
            return None
        if args[0].op == 'set' and len(it) > 1 and not all(isc(i) for i in it):
            return [(st, self.fresh(st, node, 'len'))]
        return [(st, C(len(it)))]

    def x_reversed(self, st, args, kw, node):
        it = self.items(st, args[0]) if len(args) == 1 else None
        if it is None or any(i.op == 'star' for i in it):
            return None
        return [(st, T('tup', *it[::-1]))]

    def x_set(self, st, args, kw, node):
        o = self.obj(st, node, 'set')
        it = self.items(st, args[0]) if args else ()
        if it is not None:
            it = tuple(dict.fromkeys(it))
        st.heap[(o, 'items')] = T('tup', *it) if it is not None else T('tup', T('star', args[0]))
        return [(st, o)]

    def x_dict(self, st, args, kw, node):
        o = self.obj(st, node, 'dict')
        st.heap[(o, 'base')] = args[0] if args else NONE
        pairs = self.items(st, args[0]) if len(args) == 1 else None
        if pairs is not None and all(p.op == 'tup' and len(p.args) == 2 and isc(self.kn(p.args[0])) for p in pairs):
            st.heap[(o, 'base')] = NONE
            for p in pairs:
                st.heap[(o, ('k', self.kn(p.args[0])))] = p.args[1]
        if args and args[0].op == 'dict':
            st.heap[(o, 'base')] = st.heap.get((args[0], 'base'), NONE)
            for k, v in list(st.heap.items()):
                if k[0] is args[0] and isinstance(k[1], tuple):
                    st.heap[(o, k[1])] = v
        for k, v in kw.items():
            if k == '**':
                st.heap[(o, 'base')] = T('bin', 'update', st.heap[(o, 'base')], v)
            else:
                st.heap[(o, ('k', C(k)))] = v
        return [(st, o)]

    def x_getattr(self, st, args, kw, node):
        if len(args) >= 2 and isc(args[1]) and isinstance(args[1].args[0], str):
            return [(st, self.getattr(st, args[0], args[1].args[0], node))]

    def x_setattr(self, st, args, kw, node):
        if len(args) == 3 and isc(args[1]) and isinstance(args[1].args[0], str):
            st.heap[(args[0], args[1].args[0])] = args[2]
            self.emit(st, 'store', args[0], args[1].args[0], args[2], self.site(node))
            return [(st, NONE)]

    def x_sys_exc_info(self, st, args, kw, node):
        e = st.heap.get((None, '$exc'))
        if e is None:
            return [(st, T('tup', self.fresh(st, node, 'e_type'), self.fresh(st, node, 'e'), self.fresh(st, node, 'tb')))]
        return [(st, T('tup', T('attr', e, '__class__'), e, T('attr', e, '__traceback__')))]

    def x_type(self, st, args, kw, node):
        if len(args) == 1 and args[0].op == 'new':
            return [(st, T('cls', self._clsnode[args[0].args[0]]._mod.name, args[0].args[0]))]
        if len(args) == 1 and args[0].op in ('exc', 'excnew'):
            return [(st, T('attr', args[0], '__class__'))]

    def x_next(self, st, args, kw, node):
        if args and args[0].op == 'gen':
            h = self.hooks.get('next')
            if h:
                r = h(self, st, args[0], node)
                if r is not None:
                    return r
            for k in self.raises.get('next', ('?',)):
                self.throw(st, k, 'next')
            name = self.funcs[args[0].args[0]].name
            self.emit(st, 'call', 'next:' + name, tuple(args), self.site(node))
            return [(st, self.fresh(st, node, 'next'))]
        return None

    # ---- files
    def fs_clear(self, st, p):
        k = T('truth', T('call', 'os.path.isfile', p))
        st.facts.pop(k, None)

    def fs_set(self, st, p, val):
        st.facts[T('truth', T('call', 'os.path.isfile', p))] = val

    def fs_get(self, st, p):
        return st.facts.get(T('truth', T('call', 'os.path.isfile', p)))

    def os_throw(self, st, name, path):
        if name in self.raises:
            for k in self.raises[name]:
                self.throw(st, k, name)
            return
        if self.fs_get(st, path) is not True:
            s = st.copy()
            self.fs_set(s, path, False)
            self.sinks[-1].append((s, T('exc', 'FileNotFoundError', name)))
        self.throw(st, 'PermissionError', name)

    def x_open(self, st, args, kw, node, enc=None):
        path = args[0] if args else kw.get('file', NONE)
        mode = kw.get('mode', args[1] if len(args) > 1 else C('r'))
        enc = kw.get('encoding', enc if enc is not None else (args[3] if len(args) > 3 else NONE))
        m = mode.args[0] if isc(mode) and isinstance(mode.args[0], str) else '?'
        wr = any(c in m for c in 'wax+') or m == '?'
        if 'open' in self.raises or wr:
            for k in self.raises.get('open', ('OSError',)):
                self.throw(st, k, 'open')
            if self.nulname and any(d.op in ('sym', 'fresh', 'call', 'attr') and 'output_file' in str(d.args) for d in path.deps()):
                self.throw(st, 'ValueError', 'open of a requested name')
        else:
            self.os_throw(st, 'open', path)
        n = self.fresh(st, node, 'open').args
        fh = T('fh', path, mode, enc, n[0], n[1])
        self.emit(st, 'open', path, m, enc, self.site(node), wr, self.fs_get(st, path))
        if wr and m != '?':
            self.fs_set(st, path, True)
        return [(st, fh)]

    def x_codecs_open(self, st, args, kw, node):
        return self.x_open(st, args[:2], kw, node, enc=args[2] if len(args) > 2 else None)

    def fh_method(self, st, fh, name, args, kw, node):
        if name == 'write' or name == 'writelines':
            for k in self.raises.get('.write', ('OSError', 'UnicodeError')):
                self.throw(st, k, '.write')
            self.emit(st, 'write', fh.args[0], args[0] if args else NONE, self.site(node))
            return [(st, self.fresh(st, node, 'n'))]
        if name in ('read', 'readline', 'readlines'):
            for k in self.raises.get('.read', ('OSError', 'UnicodeError')):
                self.throw(st, k, '.read')
            self.emit(st, 'read', fh, self.site(node))
            return [(st, T('read', fh) if name == 'read' else self.fresh(st, node, name))]
        if name == 'close':
            self.emit(st, 'close', fh.args[0], self.site(node))
            return [(st, NONE)]
        self.emit(st, 'mcall', name, fh, tuple(args), self.site(node))
        return [(st, self.fresh(st, node, name))]

    def x_os_rename(self, st, args, kw, node):
        if len(args) < 2:
            return None
        self.os_throw(st, 'os.rename', args[0])
        self.emit(st, 'rename', args[0], args[1], self.site(node), self.fs_get(st, args[1]), self.fs_get(st, args[0]))
        self.fs_set(st, args[0], False)
        self.fs_set(st, args[1], True)
        return [(st, NONE)]

    def x_os_stat(self, st, args, kw, node):
        self.os_throw(st, 'os.stat', args[0])
        return [(st, T('call', 'os.stat', args[0]))]

    def x_shutil_copy(self, st, args, kw, node):
        if len(args) < 2:
            return None
        self.os_throw(st, 'shutil.copy', args[0])
        self.emit(st, 'copy', args[0], args[1], self.site(node), self.fs_get(st, args[1]), self.fs_get(st, args[0]))
        self.fs_set(st, args[1], True)
        return [(st, NONE)]

    def x_os_remove(self, st, args, kw, node):
        self.os_throw(st, 'os.remove', args[0])
        self.emit(st, 'remove', args[0], self.site(node), self.fs_get(st, args[0]))
        self.fs_set(st, args[0], False)
        return [(st, NONE)]

    def x_os_chmod(self, st, args, kw, node):
        for k in self.raises.get('os.chmod', ('OSError',)):
            self.throw(st, k, 'os.chmod')
        self.emit(st, 'chmod', args[0], args[1] if len(args) > 1 else kw.get('mode', NONE), self.site(node))
        return [(st, NONE)]

    # ------------------------------------------------------------------ statements
    def bind(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            it = self.items(st, v)
            n = len(t.elts)
            if it is not None and len(it) == n and not any(x.op == 'star' for x in it) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, it):
                    self.bind(x, y, st, node)
            else:
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        self.bind(x.value, T('slice', v, C(i), NONE), st, node)
                    else:
                        self.bind(x, self.getitem(st, v, C(i), None), st, node)
        elif isinstance(t, ast.Attribute):
            out = self.ev(t.value, st)
            s, b = out[0]
            if len(out) == 1 and s is st:
                st.heap[(b, t.attr)] = v
                self.emit(st, 'store', b, t.attr, v, self.site(node))
            elif len(out) >= 1:
                st.heap[(b, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            out = self.seq([t.value, t.slice] if not isinstance(t.slice, ast.Slice) else [t.value], st)
            s, vs = out[0]
            self.emit(st, 'setitem', vs[0], vs[1] if len(vs) > 1 else NONE, v, self.site(node))
            for a in [a for a, b in st.facts.items() if a.op == 'in' and a.args[1] is vs[0] and not b]:
                del st.facts[a]
            if len(vs) > 1:
                if vs[0].op == 'dict' or not isc(vs[1]) or isinstance(vs[1].args[0], str):
                    st.heap[(vs[0], ('k', self.kn(vs[1])))] = v
                elif vs[0].op == 'list':
                    it = self.items(st, vs[0])
                    if it is not None and isinstance(vs[1].args[0], int) and -len(it) <= vs[1].args[0] < len(it):
                        l = list(it)
                        l[vs[1].args[0]] = v
                        st.heap[(vs[0], 'items')] = T('tup', *l)
                    else:
                        st.heap.pop((vs[0], 'items'), None)
            elif vs[0].op == 'list':
                st.heap[(vs[0], 'items')] = T('tup', T('star', self.fresh(st, node, 'slice-assigned')))
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, st, node)

    def block(self, stmts, states):
        out = {'n': [], 'r': [], 'b': [], 'c': []}
        cur = states
        for s in stmts:
            nxt = []
            for st in cur:
                r = self.stmt(s, st)
                nxt += r['n']
                for k in 'rbc':
                    if r.get(k):
                        out[k] += r[k]
            cur = self.merge(self.prune(nxt, s)) if len(nxt) > 1 else nxt
            if len(cur) > self.SOFT:
                cur = self.soft_join(cur)
            if self.prof is not None:
                w = where(s)
                self.prof[w] = max(self.prof.get(w, 0), len(cur))
            if not cur:
                break
        out['n'] = cur
        out['r'] = self.merge_vals(out['r'])
        out['b'] = self.merge(out['b'])
        out['c'] = self.merge(out['c'])
        return out

    def stmt(self, s, st):
        self.steps += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisError('statement kind %s not handled at %s' % (type(s).__name__, where(s)))
        h = self.hooks.get('stmt')
        if h:
            h(self, s, st)
        return m(s, st)

    def s_Pass(self, s, st):
        return {'n': [st]}

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return {'n': [st]}
        return {'n': [x for x, v in self.ev(s.value, st.copy())]}

    def s_Assign(self, s, st):
        out = []
        for x, v in self.ev(s.value, st.copy()):
            x = x.copy()
            for t in s.targets:
                self.bind(t, v, x, s)
            out.append(x)
        return {'n': out}

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return {'n': [st]}
        out = []
        for x, v in self.ev(s.value, st.copy()):
            x = x.copy()
            self.bind(s.target, v, x, s)
            out.append(x)
        return {'n': out}

    def s_AugAssign(self, s, st):
        import copy as _c
        load = s.target
        if isinstance(s.target, ast.Name):
            load = ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target)
        elif isinstance(s.target, ast.Attribute):
            load = ast.copy_location(ast.Attribute(s.target.value, s.target.attr, ast.Load()), s.target)
        elif isinstance(s.target, ast.Subscript):
            load = ast.copy_location(ast.Subscript(s.target.value, s.target.slice, ast.Load()), s.target)
        load._mod = s._mod
        out = []
        for x, vs in self.seq([load, s.value], st.copy()):
            x = x.copy()
            a, b = vs
            if isinstance(s.op, ast.Add) and a.op == 'list':
                x2 = self.method(x, a, 'extend', [b], {}, s, None)
                out += [y for y, _ in x2]
                continue
            v = self.binop(type(s.op).__name__, a, b, x, s)
            self.bind(s.target, v, x, s)
            out.append(x)
        return {'n': out}

    def s_Return(self, s, st):
        if s.value is None:
            return {'n': [], 'r': [(st, NONE)]}
        return {'n': [], 'r': self.ev(s.value, st.copy())}

    def s_Break(self, s, st):
        return {'n': [], 'b': [st]}

    def s_Continue(self, s, st):
        return {'n': [], 'c': [st]}

    def s_Global(self, s, st):
        return {'n': [st]}
    s_Nonlocal = s_Global

    def s_Delete(self, s, st):
        x = st.copy()
        for t in s.targets:
            if isinstance(t, ast.Name):
                x.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                parts = [t.value] + ([t.slice] if not isinstance(t.slice, ast.Slice) else [])
                for y, vs in self.seq(parts, x)[:1]:
                    self.emit(x, 'delitem', vs[0], vs[1] if len(vs) > 1 else NONE, self.site(s))
                    x.heap.pop((vs[0], 'items'), None)
                    if len(vs) > 1:
                        x.heap.pop((vs[0], ('k', self.kn(vs[1]))), None)
        return {'n': [x]}

    def s_Assert(self, s, st):
        out = []
        for x, b in self.cond(s.test, st.copy()):
            if b:
                out.append(x)
            else:
                self.sinks[-1].append((x, T('exc', 'AssertionError', NONE)))
        return {'n': out}

    def s_Import(self, s, st):
        x = st.copy()
        for a in s.names:
            x.env[a.asname or a.name.split('.')[0]] = T('mod' if a.name.split('.')[0] in self.repo.mods else 'ext', a.name if a.asname else a.name.split('.')[0])
        return {'n': [x]}

    def s_ImportFrom(self, s, st):
        x = st.copy()
        mod = s.module or ''
        if s.level:
            base = self.repo.mods[self.modname()].package.split('.')
            base = base[:len(base) - (s.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        for a in s.names:
            if mod in self.repo.mods:
                if mod + '.' + a.name in self.repo.mods:
                    x.env[a.asname or a.name] = T('mod', mod + '.' + a.name)
                    continue
                g = self.globals(mod)
                if a.name == '*':
                    for k, v in list(g.items()):
                        if not k.startswith('_'):
                            x.env[k] = v
                elif a.name in g:
                    x.env[a.asname or a.name] = g[a.name]
                else:
                    x.env[a.asname or a.name] = T('ext', mod + '.' + a.name)
            else:
                if a.name == '*':
                    x.env['$star'] = TRUE
                    continue
                full = a.name if mod in ('builtins', '__builtin__') else (mod + '.' + a.name)
                full = {'shutil.copyfile': 'shutil.copy'}.get(full, full)
                x.env[a.asname or a.name] = T('ext', self.alias(full))
        return {'n': [x]}

    def s_FunctionDef(self, s, st):
        x = st.copy()
        if self.is_modlevel(st):
            f = self.fn(s, self.modname(), (), s.name)
        else:
            f = self.closure_of(s, st, s.name)
        v = f
        for d in reversed(s.decorator_list):
            out = self.ev(d, x)
            x, dv = out[0]
            if dv.op == 'fn' or dv.op == 'bm':
                r = self.call(x, dv, [v], {}, d)
                if r and r[0][1].op == 'fn':
                    x, v = r[0]
        x = x.copy()
        x.env[s.name] = v
        return {'n': [x]}
    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        x = st.copy()
        if self.is_modlevel(st):
            x.env[s.name] = T('cls', self.modname(), s.name)
        else:
            f = self.closure_of(s, st, s.name)
            clo = tuple(T('kw', k, v) for k, v in self.funcs[f].closure)
            x.env[s.name] = T('localcls', self.site(s), s.name, id(s), T('tup', *clo))
        return {'n': [x]}

    def s_If(self, s, st):
        out = {'n': [], 'r': [], 'b': [], 'c': []}
        yes, no = [], []
        for x, b in self.cond(s.test, st.copy()):
            (yes if b else no).append(x)
        for states, body in ((self.merge(yes), s.body), (self.merge(no), s.orelse)):
            if not states:
                continue
            if not body:
                out['n'] += states
                continue
            r = self.block(body, states)
            for k in out:
                out[k] += r[k]
        out['n'] = self.merge(out['n'])
        return out

    def s_With(self, s, st):
        states = [(st.copy(), [])]
        for item in s.items:
            nxt = []
            for x, hs in states:
                for y, v in self.ev(item.context_expr, x):
                    y = y.copy()
                    if item.optional_vars is not None:
                        self.bind(item.optional_vars, v, y, s)
                    nxt.append((y, hs + [v]))
            states = nxt
        out = {'n': [], 'r': [], 'b': [], 'c': []}
        for x, hs in states:
            r = self.block(s.body, [x])
            def close(y):
                y = y.copy()
                for h in hs:
                    if h.op == 'fh':
                        m = h.args[1]
                        if isc(m) and isinstance(m.args[0], str) and any(c in m.args[0] for c in 'wax+'):
                            for k in self.raises.get('.close', ('OSError',)):
                                self.throw(y, k, 'close')
                        self.emit(y, 'close', h.args[0], self.site(s))
                return y
            out['n'] += [close(y) for y in r['n']]
            out['b'] += [close(y) for y in r['b']]
            out['c'] += [close(y) for y in r['c']]
            out['r'] += [(close(y), v) for y, v in r['r']]
        return out
    s_AsyncWith = s_With

    def s_Raise(self, s, st):
        x = st.copy()
        if s.exc is None:
            e = x.heap.get((None, '$exc')) or T('exc', 'Exception', NONE)
            if e.op == 'exc' and e.args[0] == '?':
                e = T('exc', 'Exception', e.args[1])
            self.emit(x, 'reraise', self.site(s))
            self.sinks[-1].append((x, e))
            return {'n': []}
        for y, v in self.ev(s.exc, x):
            kind, msg = 'Exception', NONE
            if v.op == 'excnew':
                kind, msg = v.args[0], (v.args[1][0] if v.args[1] else NONE)
            elif v.op == 'ext' and exc_class(v.args[0]):
                kind = v.args[0]
            elif v.op == 'exc':
                self.emit(y, 'reraise', self.site(s))
                self.sinks[-1].append((y.copy(), v if v.args[0] != '?' else T('exc', 'Exception', v.args[1])))
                continue
            self.emit(y, 'raise', kind, msg, self.site(s))
            self.sinks[-1].append((y.copy(), T('exc', kind, msg)))
        return {'n': []}

    def merge_x(self, xs):
        g = {}
        for s, e in xs:
            g.setdefault(e, []).append(s)
        return [(s, e) for e, ss in g.items() for s in self.merge(ss)]

    def handler_names(self, t, st):
        if t is None:
            return None
        if isinstance(t, ast.Tuple):
            return [n for x in t.elts for n in self.handler_names(x, st)]
        v = self.ev(t, st)[0][1]
        if v.op == 'ext':
            return [v.args[0]]
        if v.op == 'cls':
            return [v.args[1]]
        if v.op in ('tup',):
            return [x.args[0] for x in v.args if x.op == 'ext']
        return [unparse(t)]

    def exc_match(self, kind, names):
        """-> 'yes' | 'no' | [narrowed kinds]"""
        if names is None:
            return 'yes'
        if kind == '?':
            return 'yes'
        K = exc_class(kind)
        nar = []
        for n in names:
            H = exc_class(n)
            if H is None or K is None:
                if n == kind:
                    return 'yes'
                if H is not None and K is None and H in (Exception, BaseException):
                    return 'yes'
                continue
            if issubclass(K, H):
                return 'yes'
            if issubclass(H, K):
                nar.append(n)
        return nar or 'no'

    def s_Try(self, s, st):
        self.sinks.append([])
        self.trydepth += 1
        try:
            r = self.block(s.body, [st.copy()])
        finally:
            self.trydepth -= 1
            xs = self.sinks.pop()
        out = {'n': [], 'r': list(r['r']), 'b': list(r['b']), 'c': list(r['c'])}
        fin = bool(s.finalbody)
        if fin:
            self.sinks.append([])
        if s.orelse:
            r2 = self.block(s.orelse, r['n'])
            for k in out:
                out[k] += r2[k]
        else:
            out['n'] += r['n']
        xs = self.merge_x(xs)
        self.on_xs(s, xs)
        hs = [(h, self.handler_names(h.type, st)) for h in s.handlers]
        into = {id(h): [] for h in s.handlers}
        for x, e in xs:
            kind = e.args[0]
            rest = True
            for h, names in hs:
                m = self.exc_match(kind, names)
                if m == 'yes':
                    into[id(h)].append((x, e))
                    rest = False
                    break
                if m != 'no':
                    for k in m:
                        into[id(h)].append((x.copy(), T('exc', k, e.args[1])))
            if rest and kind != '?':
                self.sinks[-1].append((x, e))
        for h, names in hs:
            self.prune([x for x, e in into[id(h)]], h, True)
            for x, e in self.merge_x(into[id(h)]):
                x = x.copy()
                prev = x.heap.get((None, '$exc'))
                x.heap[(None, '$exc')] = e
                if h.name:
                    x.env[h.name] = e
                self.emit(x, 'caught', e.args[0], self.site(h))
                rr = self.block(h.body, [x])
                def restore(y):
                    y = y.copy()
                    if prev is None:
                        y.heap.pop((None, '$exc'), None)
                    else:
                        y.heap[(None, '$exc')] = prev
                    if h.name:
                        y.env.pop(h.name, None)
                    return y
                out['n'] += [restore(y) for y in rr['n']]
                out['b'] += [restore(y) for y in rr['b']]
                out['c'] += [restore(y) for y in rr['c']]
                out['r'] += [(restore(y), v) for y, v in rr['r']]
        if fin:
            pend = self.sinks.pop()
            res = {'n': [], 'r': [], 'b': [], 'c': []}
            def run(y):
                f = self.block(s.finalbody, [y.copy()])
                for k in 'rbc':
                    res[k] += f[k]
                return f['n']
            for k in 'nbc':
                for y in self.merge(out[k]):
                    res[k] += run(y)
            for y, v in self.merge_vals(out['r']):
                res['r'] += [(z, v) for z in run(y)]
            for y, e in self.merge_x(pend):
                for z in run(y):
                    self.sinks[-1].append((z, e))
            out = res
        out['n'] = self.merge(out['n'])
        return out
    s_TryStar = s_Try

    def on_xs(self, node, xs):
        pass

    # ------------------------------------------------------------------ loops
    def subst(self, t, a, b):
        if t is a:
            return b
        if not isinstance(t, T) or a not in t.deps():
            return t
        args = []
        for x in t.args:
            if isinstance(x, T):
                args.append(self.subst(x, a, b))
            elif isinstance(x, tuple):
                args.append(tuple(self.subst(y, a, b) if isinstance(y, T) else y for y in x))
            else:
                args.append(x)
        return T(t.op, *args)

    SMALL = (bool, type(None))

    def widen(self, head, back, site, entry, hard=False):
        n = St(stack=head.stack, log=entry.log, gens=dict(head.gens))
        dead = lambda t: any((d.op in ('lv', 'elem') and d.args[0] == site) for d in t.deps())
        for k in set(head.env) | set(back.env):
            a, b = head.env.get(k), back.env.get(k)
            if k.startswith('$') or (a is b and (a is None or not isinstance(a, T) or not (a.op == 'elem' and a.args[0] == site))):
                if b is not None:
                    n.env[k] = b
            elif isinstance(b, T) and isc(b) and isinstance(b.args[0], self.SMALL) and isinstance(a, T) and (isc(a) and isinstance(a.args[0], self.SMALL)):
                n.env[k] = b
            elif a is None or b is None:
                n.env[k] = b if b is not None and not dead(b) and b.op not in ('fresh',) else T('lv', site, k)
            else:
                n.env[k] = T('lv', site, k)
        for k in set(head.heap) | set(back.heap):
            a, b = head.heap.get(k), back.heap.get(k)
            if isinstance(k[0], T) and dead(k[0]):
                continue
            if hard and (a is not b or k not in entry.heap):
                if k in entry.heap:
                    n.heap[k] = T('lv', site, '%s.%s' % (k[0].id if isinstance(k[0], T) else k[0], k[1] if not isinstance(k[1], tuple) else 'k%d' % k[1][1].id))
            elif a is b:
                n.heap[k] = b
            elif b is not None and isc(b) and isinstance(b.args[0], self.SMALL) and (a is None or isc(a) and isinstance(a.args[0], self.SMALL)):
                n.heap[k] = b
            else:
                if isinstance(k[0], T) and k[0].op in ('list', 'set') and k[1] == 'items':
                    n.heap[k] = T('tup', T('star', T('lv', site, 'items:%d' % k[0].id)))
                else:
                    n.heap[k] = T('lv', site, '%s.%s' % (k[0].id if isinstance(k[0], T) else k[0], k[1] if not isinstance(k[1], tuple) else 'k%d' % k[1][1].id))
        for f, v in back.facts.items():
            if head.facts.get(f) is v and not dead(f):
                n.facts[f] = v
        # facts of the entry that talk about fresh values made inside the loop do not survive: generation reset
        return n

    def widen_all(self, head, back, site, entry):
        """last resort: only what is still as it was before the loop is kept"""
        n = St(stack=head.stack, log=entry.log, gens=dict(entry.gens))
        for k in set(head.env) | set(back.env) | set(entry.env):
            a, b, c = head.env.get(k), back.env.get(k), entry.env.get(k)
            if k.startswith('$'):
                if c is not None or b is not None:
                    n.env[k] = c if c is not None else b
            elif a is b and a is c:
                n.env[k] = a
            else:
                n.env[k] = T('lv', site, k)
        for k in set(entry.heap):
            a, b, c = head.heap.get(k), back.heap.get(k), entry.heap.get(k)
            if a is b and a is c:
                n.heap[k] = a
            else:
                n.heap[k] = T('lv', site, '%s.%s' % (k[0].id if isinstance(k[0], T) else k[0], k[1] if not isinstance(k[1], tuple) else 'k%d' % k[1][1].id))
        n.facts = {f: v for f, v in entry.facts.items() if head.facts.get(f) is v and back.facts.get(f) is v}
        return n

    def run_loop(self, st, site, turn, elem=None, itterm=None):
        """turn(state) -> (exit_states, back_states, brk_states, rets).  Returns outcome dict."""
        exits, brk, rets = [], [], []
        seen, alias, edges = {}, {}, []
        work = [st]
        entry = st
        rounds = 0
        while work:
            rounds += 1
            if rounds > 200:
                raise AnalysisError('loop at %s does not reach a fixpoint' % site)
            h = work.pop()
            k = (h.key(), frozenset(h.facts.items()))
            if k in seen:
                continue
            # a head whose facts are a superset of a processed one with the same values is covered by it
            cover = [f for (kk, f) in seen if kk == k[0] and f < k[1]]
            if cover:
                alias[k] = (k[0], cover[0])
                continue
            seen[k] = 1
            ex, back, bk, rt = turn(h.copy())
            lb = self.hooks.get('loop_back')
            exits += [(x, k) for x in ex]
            brk += bk
            rets += rt
            back = self.merge(back)
            if lb:
                lb(self, h, back, ex, bk, site)
            heads = []
            if rounds > 30 and back:
                w = h
                for b in back:
                    w = self.widen_all(w, b, site, entry)
                heads = [w]
                edges += [(k, (w.key(), frozenset(w.facts.items())), b) for b in back]
                back = []
            for b in back:
                w = self.widen(h, b, site, entry, rounds > 20)
                heads.append(w)
                edges.append((k, (w.key(), frozenset(w.facts.items())), b))
            work += self.merge(heads) if len(heads) > 4 else heads
        if elem is not None:
            res = []
            cache = {}
            for x, k in exits:
                if k not in cache:
                    # turns that can have been taken before this exit
                    reach, grow = {k}, True
                    while grow:
                        grow = False
                        for p, c, b in edges:
                            c = alias.get(c, c)
                            if (c in reach or c not in seen) and p not in reach:
                                reach.add(p)
                                grow = True
                    common = None
                    for p, c, b in edges:
                        c = alias.get(c, c)
                        if c in reach or c not in seen:
                            d = {f: v for f, v in b.facts.items() if elem in f.deps()}
                            common = d if common is None else {f: v for f, v in common.items() if d.get(f) is v}
                    cache[k] = None if common is None else {T('forall', itterm, self.subst(f, elem, T('each', itterm))): v for f, v in common.items()}
            every = {}
            for c in cache.values():
                every.update(c or {})
            for x, k in exits:
                if cache[k] is None:               # no turn at all: nothing to hold for
                    cache[k] = every
                if cache[k]:
                    x = x.copy()
                    x.facts.update(cache[k])
                res.append(x)
            exits = res
        else:
            exits = [x for x, k in exits]
        # exits: forget facts about the last element
        return {'n': self.merge(exits), 'b': self.merge(brk), 'r': self.merge_vals(rets), 'c': []}

    def for_loop(self, target, it, node, run, st):
        site = self.site(node)
        items = self.items(st, it)
        if items is not None and len(items) <= 40 and not any(x.op == 'star' for x in items):
            states, out = [st], {'n': [], 'r': [], 'b': [], 'c': []}
            for i in items:
                ss = []
                for x in states:
                    x = x.copy()
                    self.bind(target, i, x, node)
                    ss.append(x)
                r = run(ss)
                states = self.merge(r['n'] + r['c'])
                out['b'] += r['b']
                out['r'] += r['r']
            out['n'] = states
            return out
        src = it
        if it.op == 'call' and it.args[0] in ('enumerate', 'list', 'iter', 'reversed', 'sorted') and len(it.args) == 2:
            src = it.args[1]
        if it.op == 'list':
            h = self.items(st, it)
        elem = T('elem', site, src, 'x')
        def turn(h):
            ex = [h]                      # exhausted
            b = h.copy()
            v = elem
            if it.op == 'call' and it.args[0] == 'enumerate':
                v = T('tup', T('lv', site, '$i'), elem)
            self.bind(target, v, b, node)
            r = run([b])
            return ex, r['n'] + r['c'], r['b'], r['r']
        return self.run_loop(st, site, turn, elem, src)

    def s_For(self, s, st):
        out = {'n': [], 'r': [], 'b': [], 'c': []}
        for x, it in self.ev(s.iter, st.copy()):
            r = self.for_loop(s.target, it, s, lambda ss: self.block(s.body, ss), x)
            n = r['n']
            if s.orelse:
                e = self.block(s.orelse, n)
                n = e['n']
                for k in 'rbc':
                    out[k] += e[k]
            out['n'] += n + r['b']
            out['r'] += r['r']
        out['n'] = self.merge(out['n'])
        return out

    def s_While(self, s, st):
        site = self.site(s)
        out = {'n': [], 'r': [], 'b': [], 'c': []}
        def turn(h):
            yes, no = [], []
            for x, b in self.cond(s.test, h):
                (yes if b else no).append(x)
            r = self.block(s.body, self.merge(yes)) if yes else {'n': [], 'r': [], 'b': [], 'c': []}
            return no, r['n'] + r['c'], r['b'], r['r']
        r = {'n': [], 'b': [], 'r': []}
        if s in self.one_turn:
            no, again, r['b'], r['r'] = turn(st.copy())
            r['n'] = no
            self.nexts += again
            out['n'] = self.merge(no + r['b'])
            out['r'] += r['r']
            return out
        cur = [st.copy()]
        for _ in range(self.unroll):          # exact first turns
            nxt = []
            for h in cur:
                no, again, br, rt = turn(h)
                r['n'] += no
                r['b'] += br
                r['r'] += rt
                nxt += again
            cur = self.merge(nxt)
        for h in cur if not self.unroll_only else ():
            q = self.run_loop(h.copy(), site, turn)
            for k in 'nbr':
                r[k] += q[k]
        n = r['n']
        if s.orelse:
            e = self.block(s.orelse, n)
            n = e['n']
            for k in 'rbc':
                out[k] += e[k]
        out['n'] = self.merge(n + r['b'])
        out['r'] += r['r']
        return out

    # ------------------------------------------------------------------ entry
    def analyse(self, short, qual, args=None, facts=None, heap=None):
        """Analyse a function from an arbitrary state.  -> (returns [(st, v)], raises [(st, exc)])"""
        node = self.repo.func(short, qual)
        modname = node._modname
        self.curmod_stack = [modname]
        g = self.globals(modname)
        cls = None
        if '.' in qual:
            cls = qual.split('.')[0]
        f = self.fn(node, modname, (), node.name, cls)
        return self.analyse_fn(f, args, facts, heap)

    def analyse_fn(self, f, args=None, facts=None, heap=None):
        fv = self.funcs[f]
        node = fv.node
        self.curmod_stack = [fv.modname]
        self.globals(fv.modname)
        params = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        env = {p: T('sym', p) for p in params}
        if node.args.vararg:
            env[node.args.vararg.arg] = T('sym', '*' + node.args.vararg.arg)
        if node.args.kwarg:
            env[node.args.kwarg.arg] = T('sym', '**' + node.args.kwarg.arg)
        env.update(args or {})
        env['$fn'] = f
        st = St(env=env, heap=dict(heap or {}), facts=dict(facts or {}))
        self.sinks = [[]]
        self.depth, self.callstack, self.trydepth = 0, [f], 0
        self.inlined.add(getattr(node, '_qual', fv.name))
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, st), self.merge_x(self.sinks[0])
        out = self.block(node.body, [st])
        rets = self.merge_vals(out['r'] + [(x, NONE) for x in out['n']])
        return rets, self.merge_x(self.sinks[0])

    def analyse_call(self, st, f, args=(), kw=None):
        """Call a function value (a closure, a bound method) in the given state."""
        self.curmod_stack = [self.funcs[f].modname if f in self.funcs else self.curmod_stack[-1]]
        self.sinks = [[]]
        self.depth, self.callstack, self.trydepth = 0, ['<call>'], 0
        rets = self.call(st.copy(), f, list(args), dict(kw or {}), None)
        return self.merge_vals(rets), self.merge_x(self.sinks[0])

    def analyse_main(self, modname):
        """The `if __name__ == '__main__'` part of a module."""
        self.curmod_stack = [modname]
        g = self.globals(modname)
        m = self.repo.mods[modname]
        body = [s for s in m.tree.body if isinstance(s, ast.If) and '__name__' in unparse(s.test)]
        self.sinks = [[]]
        self.depth, self.callstack, self.trydepth = 0, ['<main>'], 0
        st = St(env=dict(g))
        st.env['$fn'] = T('sym', 'main')
        st.facts[T('eq', T('sym', '__name__:' + modname), C('__main__'))] = True
        out = self.block(body, [st])
        return out['n'], self.merge_x(self.sinks[0]), len(body)
