"""The evaluator one kind of node at a time: every path of one turn of yueval() for a node of a given class."""
import ast
from .flow import Engine
from .terms import T, C, NONE, isc
from .src import Repo, AnalysisError

Y = 'yupp.pp.yugen'
EVAL = 'yueval'


def recorder(name, throws=True):
    def h(e, st, f, args, kw, node):
        e.emit(st, 'ycall', name, tuple(args), tuple(sorted(kw.items())), e.site(node))
        v = T('call', name, *(tuple(args[:1]) + (e.fresh(st, node, name),)))
        e.emit(st, 'yret', name, v)
        if throws:
            e.throw(st.copy(), 'Exception', name)
        return [(st, v)]
    return h


def ignore(e, st, f, args, kw, node):
    return [(st, NONE)]


def main_loop(fn):
    """loops of the evaluator that are not inside another loop and that test or assign the node"""
    p = fn.args.args[0].arg
    res = []

    def walk(body):
        for s in body:
            if isinstance(s, ast.While):
                if any(isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Store) for n in ast.walk(s)):
                    res.append(s)
            elif isinstance(s, (ast.For, ast.FunctionDef, ast.ClassDef)):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list) and not isinstance(s, ast.While):
                    walk(b)
            for h in getattr(s, 'handlers', ()):
                walk(h.body)
    walk(fn.body)
    return res


class Turn:
    """paths of one turn: .rets [(st, value)], .raises [(st, exc)], .nexts [(st, node, env)]"""


def node_params():
    fn = Repo.get().mod('yugen').functions.get(EVAL)
    if fn is None:
        raise AnalysisError('the evaluator %s() was not found' % EVAL)
    return [a.arg for a in fn.args.args]


def engine(opaque=None, keep=(), **kw):
    ops = {EVAL: recorder(EVAL), 'yuparse': recorder('yuparse'), '_is_term': recorder('_is_term', False),
           '_plain': recorder('_plain', False), '_plain_back': recorder('_plain_back', False), '_plain_with_browse': recorder('_plain_with_browse', False)}
    for f in Repo.get().mod('yugen').functions:
        if f.startswith('trace__'):
            ops[f] = ignore
    ops.update(opaque or {})
    e = Engine(keep={'ycall', 'yret'} | set(keep), opaque=ops, **kw)
    e.oneof = True
    e.curmod_stack = [Y]
    e.globals(Y)
    return e


def turn(e, cls, node=None, env=None, facts=None, heap=None):
    fn = Repo.get().mod('yugen').functions[EVAL]
    ps = node_params()
    e.one_turn = main_loop(fn)
    e.nexts = []
    e.steps = 0
    args = {ps[0]: node if node is not None else T('new', cls, (), 'node', cls)}
    if env is not None and len(ps) > 1:
        args[ps[1]] = env
    t = Turn()
    t.cls = cls
    t.node = args[ps[0]]
    t.rets, t.raises = e.analyse('yugen', EVAL, args=args, facts=facts, heap=heap)
    t.nexts = [(st, st.env.get(ps[0]), st.env.get(ps[1]) if len(ps) > 1 else None) for st in e.nexts]
    e.nexts = []
    return t


def node_classes():
    """classes of the module which the evaluator tests its node for"""
    m = Repo.get().mod('yugen')
    return [c for c in m.classes if not c.startswith('PS_')]


# ---------------------------------------------------------------------- nodes with known contents
from .objects import OEngine as _O


class Scene(_O):
    """evaluation of a node whose parts are known objects"""
    unroll = 12
    unroll_only = True

    def for_loop(self, target, it, node, run, st):
        if it.op == 'gen' and it.args[0] in self.funcs:
            return self.gen_loop(target, it, node, run, st)
        return super().for_loop(target, it, node, run, st)

    def iterated(self, st, it, node):
        if it.op == 'gen' and it.args[0] in self.funcs:
            return [(x, T('tup', *ys)) for x, ys in self.drain(st, it, node)]
        return [(st, it)]

    def drain(self, st, it, node):
        """the values a generator yields: [(state, items)]"""
        f, args = it.args[0], it.args[1]
        keep, self.keep = self.keep, (None if self.keep is None else set(self.keep) | {'yield'})
        n = len(st.log)
        try:
            res = self.inline(st.copy(), f, list(args), {}, node)
        finally:
            self.keep = keep
        out = []
        for x, _ in res:
            ys = [ev[1] for ev in x.log[n:] if ev[0] == 'yield']
            x.log = x.log[:n] + type(x.log)(ev for ev in x.log[n:] if ev[0] != 'yield')
            out.append((x, ys))
        return out

    def ext(self, st, name, args, kw, node):
        if name in ('list', 'tuple', 'sorted', 'all', 'any', 'sum', 'max', 'min', 'enumerate', 'dict') and args and args[0].op == 'gen' and args[0].args[0] in self.funcs:
            out = []
            for x, ys in self.drain(st, args[0], node):
                out += self.ext(x, name, [T('tup', *ys)] + list(args[1:]), kw, node)
            return out
        if name == 'map' and len(args) == 2 and args[0].op in ('fn', 'bm', 'cls'):
            it = self.items(st, args[1])
            if it is not None and len(it) <= 12 and not any(x.op == 'star' for x in it):
                cur = [(st, [])]
                for x in it:
                    cur = [(s2, vs + [v]) for s1, vs in cur for s2, v in self.call(s1, args[0], [x], {}, node)]
                out = []
                for s1, vs in cur:
                    o = self.obj(s1, node, 'list')
                    s1.heap[(o, 'items')] = T('tup', *vs)
                    out.append((s1, o))
                return out
        if name == 'functools.reduce' and len(args) in (2, 3) and args[0].op in ('fn', 'bm', 'cls', 'attr'):
            it = self.items(st, args[1])
            if it is not None and len(it) <= 12 and not any(x.op == 'star' for x in it) and (it or len(args) == 3):
                it = list(it)
                cur = [(st, args[2] if len(args) == 3 else it.pop(0))]
                for x in it:
                    cur = [r for s1, v in cur for r in self.call(s1, args[0], [v, x], {}, node)]
                return cur
        if name in ('int', 'float') and len(args) == 1 and args[0].op == 'new' and args[0].args[1] and ({'int', 'float'} & set(self.mro(args[0].args[0]))):
            v = args[0].args[1][0]
            if isc(v) and isinstance(v.args[0], (int, float)):
                return [(st, C((int if name == 'int' else float)(v.args[0])))]
        if name == 'next' and args and not kw:
            if args[0].op == 'gen' and args[0].args[0] in self.funcs and args[0].args[1] is not None:
                seqs = self.drain(st, args[0], node)        # of a generator made here and used once
            else:
                seqs = [(st, self.items(st, args[0]))]
            if all(ys is not None and (not ys or ys[0].op != 'star') for _, ys in seqs):
                out = []
                for x, ys in seqs:
                    if ys:
                        out.append((x, ys[0]))
                    elif len(args) > 1:
                        out.append((x, args[1]))
                    else:
                        self.throw(x, 'StopIteration', 'next')
                return out
        if name == 'sorted' and len(args) == 1 and set(kw) <= {'reverse'} and all(isc(v) for v in kw.values()):
            it = self.items(st, args[0])
            r = self.in_order(it, kw)
            if r is not None:
                o = self.obj(st, node, 'list')
                st.heap[(o, 'items')] = T('tup', *r)
                return [(st, o)]
        return super().ext(st, name, args, kw, node)

    def in_order(self, it, kw):
        if it is None or not all(isc(self.kn(x)) for x in it):
            return None
        try:
            return sorted(it, key=lambda x: self.kn(x).args[0], reverse=bool(kw['reverse'].args[0]) if 'reverse' in kw else False)
        except TypeError:
            return None

    def method(self, st, recv, name, args, kw, node, f):
        if name == 'sort' and recv.op == 'list' and not args and set(kw) <= {'reverse'} and all(isc(v) for v in kw.values()):
            r = self.in_order(self.items(st, recv), kw)
            if r is not None:
                st.heap[(recv, 'items')] = T('tup', *r)
                return [(st, NONE)]
        return super().method(st, recv, name, args, kw, node, f)

    def gc(self, res):
        """a scene is small: keep everything (values that are still to be used may be held by nothing but the analysis)"""

    def gen_loop(self, target, it, node, run, st):
        out = {'n': [], 'r': [], 'b': [], 'c': []}
        for x, ys in self.drain(st, it, node):
            r = super().for_loop(target, T('tup', *ys), node, run, x)
            for k in out:
                out[k] += r[k]
        return out


def scene(opaque=None, keep=(), objects=None, **kw):
    m = Repo.get().mod('yugen')
    ops = {EVAL: recorder(EVAL, False), 'yuparse': recorder('yuparse', False),
           '_plain': recorder('_plain', False), '_plain_back': recorder('_plain_back', False), '_plain_with_browse': recorder('_plain_with_browse', False)}
    for f in m.functions:
        if f.startswith('trace__'):
            ops[f] = ignore
        if f in ('_loc', '_loc_repr'):
            ops[f] = lambda e, st, f, a, k, n: [(st, T('sym', '$loc'))]
    ops['ext:copy.deepcopy'] = lambda e, st, name, a, k, n: [(st, a[0])]
    ops.update(opaque or {})
    e = Scene(keep={'ycall', 'yret', 'setitem', 'dyncall', 'raise', 'log', 'mutate', 'store'} | set(keep), opaque=ops, **kw)
    e.curmod_stack = [Y]
    e.globals(Y)
    e.oneof = True
    e.budget = 40000
    e.recursive = {'_is_term': 5, '_detect_deadlock': 5, '_list_eval_1': 5, 'lookup': 4, 'update_variable': 4}
    e.mro('ENV')
    if objects is None:
        objects = {c for c in m.classes if not ({'str', 'int', 'float', 'Exception', 'BaseException'} & set(e.mro(c))) and not any(b.endswith('Error') for b in e.mro(c))}
    e.objects = frozenset(objects)
    e.heap0 = {}
    e.n0 = 0
    return e


def mk(e, cls, content=None, **attrs):
    e.n0 += 1
    t = T('new', cls, (), 'scene', e.n0)
    if e.store(t) is not None:
        e.fill(e.heap0, t, content or ())
    for k, v in attrs.items():
        e.heap0[(t, k)] = v
    e.modobjs = set(e.modobjs) | {t}
    return t


def mklist(e, items):
    e.n0 += 1
    t = T('list', '$scene', e.n0)
    e.heap0[(t, 'items')] = T('tup', *items)
    e.modobjs = set(e.modobjs) | {t}
    return t


def mkdict(e, pairs):
    e.n0 += 1
    t = T('dict', '$scene', e.n0)
    e.heap0[(t, 'base')] = NONE
    for k, v in pairs:
        e.heap0[(t, ('k', e.kn(k)))] = v
    e.modobjs = set(e.modobjs) | {t}
    return t


def atom(name):
    return T('new', 'ATOM', (C(name),), 'scene', name)


def leaf(name):
    """a plain text of its own"""
    return T('new', 'PLAIN', (C('<%s>' % name),), 'scene', name)


def mkenv(e, pairs, parent=None):
    """an environment, made as its own __init__ does: attributes parent and order"""
    return mk(e, 'ENV', [(k, v) for k, v in pairs], parent=parent if parent is not None else NONE, order=mklist(e, [k for k, v in pairs]))


def play(e, qual, args):
    e.steps = 0
    e.one_turn = ()
    return e.analyse('yugen', qual, args=args, heap=dict(e.heap0))


def evaluate(e, node, env, maybe=True):
    fn = Repo.get().mod('yugen').functions[EVAL]
    ps = node_params()
    args = {ps[0]: node}
    if len(ps) > 1:
        args[ps[1]] = env
    for a, d in zip(ps[::-1], fn.args.defaults[::-1]):
        if a not in args and isinstance(d, ast.Constant):
            args[a] = C(d.value)
    rets, raises = play(e, EVAL, args)
    return rets, [(st, x) for st, x in raises if maybe or not possible(x)]


def possible(x):
    """an exception that a construct the analysis does not follow could raise (a subscript of an unknown value)"""
    todo = [x]
    while todo:
        t = todo.pop()
        if isinstance(t, T):
            if t.op == 'exc' and t.args and t.args[0] == '?':
                return True
            todo += t.args
        elif isinstance(t, tuple):
            todo += t
    return False
