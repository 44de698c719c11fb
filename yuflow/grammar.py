"""The grammar rules of the parser, one at a time: every path of a rule, with the other rules replaced by what a rule promises.

A rule takes a text and returns (rest, node); node is None when the construct was not recognised.  Another rule called on the text t
is replaced by (t[len(rule, t):], node(rule, t)), where len is zero if and only if node is None; a generator rule called on t gives, at
each next(), (t[len:], node[, depths])."""
import ast
from . import evalnode as en
from .src import Repo, AnalysisError, where
from .terms import T, C, NONE, TRUE, isc

G = 'yugen'
SOU = T('sym', '$sou')
RULES = ('text set let binding import macro emit application remark_c remark_python header_python plain function variable lambda value form '
         'former l_form code list infix atom space eol gap quote string_python comment number').split()
GAPS = ('ps_space', 'ps_eol', 'ps_gap')
PARSERS = ('yuparse', '_import_source', '_import_python', '_import_eval')


def rules(m=None):
    """name -> function of the rules that are there"""
    m = m or Repo.get().mod(G)
    return {q: f for q, f in m.functions.items() if q.startswith('ps_') and q[3:] in RULES and f.args.args}


def is_gen(f):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(f))


def own(f):
    """nodes of a function without those of functions inside"""
    todo = list(f.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


class Rule:
    """paths of a rule: .rets [(st, rest, node)], .yields [(st, items)], .raises [(st, exc)], .loops [(site, h, [b])], .calls [(st, rule, arg)]"""


def node_of(name, at):
    return T('call', '$node', C(name), at)


def len_of(name, at):
    return T('call', '$len', C(name), at)


def extract(q, unroll=0, end=False, extra=None, budget=400000, given=None, facts=None):
    m = Repo.get().mod(G)
    rs = rules(m)
    gens = {n for n, f in rs.items() if is_gen(f)}
    r = Rule()
    r.name, r.calls, r.loops, r.yields, r.trouble = q, [], [], [], []
    f = rs[q]
    where_while = {}

    def contract(name):
        def h(e, st, fn, a, kw, n):
            if not a:
                return None
            e.emit(st, 'rule', name, a[0], e.site(n))
            r.calls.append((st.copy(), name, a[0], e.site(n)))
            if end and name in GAPS:
                return [(st, T('tup', a[0], NONE))]
            return [(st, T('tup', T('slice', a[0], len_of(name, a[0]), NONE), node_of(name, a[0])))]
        return h

    def gen(name):
        def h(e, st, fn, a, kw, n):
            if not a:
                return None
            e.emit(st, 'rule', name, a[0], e.site(n))
            r.calls.append((st.copy(), name, a[0], e.site(n)))
            return [(st, T('call', '$gen', C(name), *a))]
        return h

    def following(e, st, g, n):
        fr = e.fresh(st, n, 'nx')
        known = g.op == 'call' and g.args[0] == '$gen'
        base = g.args[2] if known else T('call', '$genbase', g)
        e.emit(st, 'next', g, fr)
        res = [T('slice', base, T('call', '$len', C('next'), fr, g), NONE), T('call', '$node', C('next'), fr, g)]
        if known and g.args[1].args[0] != 'ps_text' or not known and plain_like(g):
            res += [T('call', '$depth', C(k), fr) for k in (0, 1)]
        return T('tup', *res)

    def plain_like(g):
        return True if q == 'ps_text' else False

    def nxt(e, st, fn, a, kw, n):
        if not a or a[0].op == 'gen':
            return None
        return [(st, following(e, st, a[0], n))]

    def outside(name):
        def h(e, st, fn, a, kw, n):
            v = T('call', name, *a)
            e.emit(st, 'outside', name, tuple(a))
            return [(st, v)]
        return h

    ops = {x: (gen if x in gens else contract)(x) for x in rs}
    if q in gens:
        ops.pop(q)
    for o in PARSERS:
        ops[o] = outside(o)
    ops['ext:next'] = nxt
    if end:
        ops['_ord'] = lambda e, st, fn, a, kw, n: [(st, NONE)]
        ops['ext:len'] = lambda e, st, fn, a, kw, n: [(st, C(0))] if a and SOU in a[0].deps() or a and a[0].op in ('lv', 'slice') else None
    ops.update(extra or {})

    def back(e, h, backs, ex, bk, site):
        r.loops.append((site, h, backs))

    def yielded(e, st, val, node):
        r.yields.append((st.copy(), val))

    e = en.engine(keep={'rule', 'next', 'outside', 'yield', 'mutate'}, opaque=ops, hooks={'loop_back': back, 'yield': yielded})
    e.budget = budget
    if unroll:
        e.unroll, e.unroll_only = unroll, True
    args = {f.args.args[0].arg: SOU}
    args.update(given or {})
    rets, r.raises = e.analyse(G, q, args=args, facts=dict(facts or {}))
    r.e, r.func = e, f
    r.rets = []
    for st, v in rets:
        if v.op == 'tup' and len(v.args) == 2:
            r.rets.append((st, v.args[0], v.args[1]))
        elif q not in gens:
            r.trouble.append((st, v))
    for n in ast.walk(m.tree):
        if isinstance(n, ast.While):
            where_while[e.site(n)] = n
    r.whiles = where_while
    return r


# ---------------------------------------------------------------------- the way from the text of the rule to the rest
class Step:
    __slots__ = ('kind', 'val', 'name', 'at', 'node')

    def __init__(self, kind, val, name=None, at=None, node=None):
        self.kind, self.val, self.name, self.at, self.node = kind, val, name, at, node

    def __repr__(self):
        return '%s %s' % (self.kind, self.name or self.val)

    def key(self):
        return self.kind, self.val, self.name, self.at

    def __eq__(self, other):
        return isinstance(other, Step) and self.key() == other.key()

    def __hash__(self):
        return hash(self.key())


def step(at, start):
    if start is NONE:
        return None
    if isc(start):
        if isinstance(start.args[0], int) and not isinstance(start.args[0], bool):
            return Step('k', start.args[0], at=at) if start.args[0] else None
        return Step('?', start, at=at)
    if start.op == 'call' and start.args[0] == '$len':
        name = start.args[1].args[0]
        if name == 'next':
            return Step('gen', start, 'next', at, T('call', '$node', *start.args[1:]))
        return Step('rule', start, name, at, node_of(name, start.args[2]))
    return Step('v', start, at=at)


def chain(t):
    """-> (base, [steps]) of a text that is the end of another one; steps is None when it is not an end"""
    steps = []
    while t.op == 'slice':
        if t.args[2] is not NONE:
            return t, None
        s = step(t.args[0], t.args[1])
        if s is not None:
            steps.append(s)
        t = t.args[0]
    steps.reverse()
    return t, steps


def origin(r, base, depth=0):
    """the steps from the text of the rule to the value of a variable that a loop changes: [Step], or None when unknown"""
    if base is SOU:
        return []
    if base.op != 'lv' or depth > 6:
        return None
    site, name = base.args[0], base.args[1]
    for s, h, backs in r.loops:
        if s == site and isinstance(name, str) and name in h.env and h.env[name] is not base and h.env[name].op != 'phi':
            b, steps = chain(h.env[name])
            if steps is None or b is base:
                return None
            o = origin(r, b, depth + 1)
            return None if o is None else o + steps + [Step('loop', base, name)]
    return None


def path_to(r, t):
    """all steps from the text of the rule to a text, or None when it is not (known to be) its end"""
    b, steps = chain(t)
    if steps is None:
        return None
    o = origin(r, b)
    return None if o is None else o + steps


def truth(facts, t):
    """True / False / None"""
    v = facts.get(T('truth', t))
    if v is None and isc(t):
        return bool(t.args[0])
    return v


def is_none(facts, node):
    """is the node None?"""
    if node.op == 'call' and node.args[0] == '$node' and node.args[1] is C('next'):
        return False
    if isc(node):
        return node.args[0] is None
    if node.op in ('new', 'tup', 'list', 'dict', 'slice', 'bin'):
        return False
    for o in ('is', 'eq'):
        for k in (T(o, node, NONE), T(o, NONE, node)):
            v = facts.get(k)
            if v is not None:
                return v
    if truth(facts, node) is True:
        return False
    for k, v in facts.items():
        if v is True and k.op == 'isinst' and k.args[0] is node:
            return False
    return None


def falsy_name(name):
    """nodes of these rules are not empty: false means None"""
    return name in GAPS + ('ps_atom', 'ps_remark_c', 'ps_remark_python', 'ps_binding', 'ps_set', 'ps_let', 'ps_variable')


def zero(s, facts):
    """does the step consume nothing? True / False / None"""
    if s.kind == 'k':
        return s.val == 0
    if s.kind == 'rule':
        n = is_none(facts, s.node)
        if n is not None:
            return n
        if truth(facts, s.node) is False and falsy_name(s.name):
            return True
        return None
    if s.kind == 'v':
        t = truth(facts, s.val)
        if t is None:
            t = truth(facts, T('slice', s.at, NONE, s.val))
        if t is None:
            t = truth(facts, T('slice', s.at, C(0), s.val))
        if t is not None:
            return not t
        for k, v in facts.items():
            if k.op == 'eq' and s.val in k.args and C(0) in k.args:
                return v
            if k.op == 'lt' and k.args == (C(0), s.val) and v:
                return False
        if s.val.op == 'bin' and s.val.args[0] == 'Add' and any(isc(x) and isinstance(x.args[0], int) and x.args[0] > 0 for x in s.val.args[1:]):
            return False
        return None
    return None


def live_steps(steps, facts):
    return [s for s in steps if zero(s, facts) is not True]


def inside(st, *ts):
    """everything that values contain, through the heap"""
    seen, todo = set(), flat(ts)
    while todo:
        t = todo.pop()
        for d in t.deps():
            if d in seen:
                continue
            seen.add(d)
            for k, v in fields(st, d):
                todo += flat((v,))
    return seen


def flat(vs):
    res = []
    for v in vs:
        if isinstance(v, T):
            res.append(v)
        elif isinstance(v, (tuple, list)):
            res += flat(v)
    return res


def fields(st, o):
    return [(k, v) for k, v in st.heap.items() if k[0] is o]


def feasible(facts):
    for k, v in facts.items():
        if k.op == 'eq' and v is True and len(k.args) == 2:
            # a text is not equal to a proper end of itself
            for a, b in (k.args, k.args[::-1]):
                if a.op == 'slice' and b in a.deps() and a is not b:
                    t, steps = a, []
                    while t is not b and t.op == 'slice' and t.args[2] is NONE:
                        steps.append(step(t.args[0], t.args[1]))
                        t = t.args[0]
                    if t is b and any(s is not None and zero(s, facts) is False for s in steps):
                        return False
        if k.op == 'truth' and v is True and k.args[0].op == 'slice' and k.args[0].args[2] is C(0):
            return False
    return True
