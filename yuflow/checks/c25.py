"""C25 - names resolve to the innermost binding and arguments bind in order."""
import ast, itertools, re
from ..src import Repo, AnalysisError, where
from ..terms import T, C, NONE, TRUE, FALSE, isc
from .. import evalnode as en

TECHNIQUE = 'shape analysis (abstract interpretation over scopes and calls of known shape with symbolic values): the methods of the environment and the evaluation of definitions, names and applications, compared with the scoping rules on every path'
NOTE = ('Shapes: chains of three scopes; up to three parameters with every choice of positional, named, default and variadic arguments; the values are symbolic. '
        'Which scope a macro text is parsed in is outside.')
ASSUMPTIONS = ['dict and list of Python keep the order of insertion']
G = 'pp/yugen.py'


class V:
    """a scene with values a.. and scopes"""
    def __init__(self, ident=True, opaque=None):
        ops = dict(opaque or {})
        if ident:
            ops.setdefault(en.EVAL, self.ev)
        self.e = en.scene(opaque=ops)
        self.m = {}

    def ev(self, e, st, f, args, kw, node):
        e.emit(st, 'ycall', en.EVAL, tuple(args), (), e.site(node))
        a = args[0]
        return [(st, self.m.get(a, a))]

    def bound(self):
        return en.mk(self.e, 'BOUND')

    def keys(self, st, env):
        o = st.heap.get((env, 'order'))
        it = self.e.items(st, o) if o is not None else None
        return None if it is None else [self.e.kn(x).args[0] if isc(self.e.kn(x)) else str(x) for x in it]

    def get(self, st, env):
        c = self.e.contents(st, env)
        return None if c is None else {k.args[0] if isc(k) else str(k): v for k, v in c}

    def parent(self, st, env):
        return st.heap.get((env, 'parent'))


def names(t):
    """the leaves a value is made of"""
    return {x.args[1][0].args[0].strip('<>') for x in [t] + list(t.deps()) if x.op == 'new' and x.args[0] == 'PLAIN' and x.args[1] and isc(x.args[1][0])}


def run(rep):
    rep.rule('S1', 'looking a name up yields the value of the innermost scope of the chain that has the name, whatever the value is, and NOT_FOUND if none has')
    rep.rule('S2', 'updating a name changes the innermost scope that has it, under that name only; setting a name in a scope changes that scope only')
    rep.rule('S3', 'a scope keeps its names in the order in which they were introduced, each once')
    rep.rule('S4', 'the first parameter without a value is the first in that order')
    rep.rule('S5', 'the values of a scope are evaluated in place, each under its own name')
    rep.rule('S6', 'a definition makes a new scope inside the current one with the values in order and leaves the current scope as it was')
    rep.rule('S7', 'a name in a text yields the innermost binding; built-in functions come after all scopes')
    rep.rule('S8', 'the parameters of a function or a macro are introduced in declaration order, each with its own default')
    rep.rule('S9', 'positional arguments go to the first parameter without a value, named ones to the parameter of the name, the rest to the variadic parameter, in order')
    rep.rule('S10', 'an argument for a parameter that does not exist is an error')
    rep.rule('S11', 'the body of a function sees its parameters, then the scopes of the caller')
    rep.rule('S12', 'each parameter in the text of a macro is replaced by its own value')
    rep.rule('S13', 'each placeholder of a format string is replaced by the argument of the number or the name, and the arguments put in are not searched for placeholders')
    rep.rule('S14', 'a list applied to functions yields, in order, the result of the functions in order for each of the items')
    m = Repo.get().mod('yugen')
    for f in (environment, definitions, variables, declarations, applications, bodies, formats, loops):
        try:
            f(rep, m)
        except AnalysisError as x:
            rep.note('%s: %s' % (f.__name__, x))


def w(m, q):
    return where(m.functions[q]) if q in m.functions else G


def need(rep, m, q):
    if q not in m.functions:
        rep.note('%s was not found' % q)
        return False
    return True


def chain(v):
    e = v.e
    A = {k: en.atom(k) for k in 'abcdz'}
    L = {k: en.leaf(k) for k in ('a0', 'a1', 'b1', 'b2', 'c2', 'new')}
    s2 = en.mkenv(e, [(A['b'], L['b2']), (A['c'], L['c2']), (A['z'], L['c2'])])
    s1 = en.mkenv(e, [(A['a'], L['a1']), (A['b'], L['b1'])], s2)
    bd = v.bound()
    s0 = en.mkenv(e, [(A['a'], L['a0']), (A['z'], bd)], s1)
    return A, L, (s0, s1, s2), bd


def environment(rep, m):
    q = 'ENV.lookup'
    falsy = (C(0), C(''), NONE, C(0.0))
    if need(rep, m, q):
        v = V()
        A, L, s, bd = chain(v)
        ps = [a.arg for a in m.functions[q].args.args]
        def look(env, key, want, what, e=v.e):
            args = dict(zip(ps, [env] + [NONE] * (len(ps) - 2) + [key]))
            if 'reg' in args and 'var' in args:
                args['var'], args['reg'] = key, en.mklist(e, [])
            rets, raises = en.play(e, q, args)
            rep.count('paths of lookups', len(rets))
            for st, r in rets:
                rep.check(r is want or r.op == 'new' and want.op == 'new' and r is want, 'S1', what, 'looking up %s yields %s' % (what, str(r)[:60]), w(m, q))
            for st, x in raises:
                rep.bad('S1', what, 'looking up %s raises %s' % (what, x.args[0]), w(m, q))
            if not rets and not raises:
                rep.note('lookup of %s: no path' % what)
        NF = v.e.globals(en.Y).get('NOT_FOUND')
        look(s[0], A['a'], L['a0'], 'a name of the innermost scope')
        look(s[0], A['b'], L['b1'], 'a name of the second and third scope')
        look(s[0], A['c'], L['c2'], 'a name of the outermost scope')
        look(s[0], A['z'], bd, 'a name without a value that hides an outer one')
        look(s[1], A['a'], L['a1'], 'a name from the second scope')
        look(s[2], A['b'], L['b2'], 'a name from the outermost scope')
        if NF is not None:
            look(s[0], A['d'], NF, 'an unknown name')
            look(s[2], A['a'], NF, 'a name of an inner scope from an outer one')
        for f in falsy:
            v = V()
            A, L, s, bd = chain(v)
            outer = en.mkenv(v.e, [(A['a'], L['a1'])])
            inner = en.mkenv(v.e, [(A['a'], f)], outer)
            look(inner, A['a'], f, 'a name with the value %r' % (f.args[0],), v.e)
            # an empty scope in between
            mid = en.mkenv(v.e, [], outer)
            look(en.mkenv(v.e, [], mid), A['a'], L['a1'], 'a name across empty scopes', v.e)
    q = 'ENV.update_variable'
    if need(rep, m, q):
        ps = [a.arg for a in m.functions[q].args.args]
        for key, tgt in (('a', 0), ('b', 1), ('c', 2), ('z', 0), ('d', None)):
            for start in (0, 1):
                v = V()
                A, L, s, bd = chain(v)
                if start == 1 and tgt == 0:
                    t = {'a': 1, 'z': 2}[key]
                else:
                    t = tgt
                args = dict(zip(ps, [s[start], NONE, A[key], L['new']]))
                before = [{k.args[0]: x for k, x in v.e.contents(type('S', (), {'heap': v.e.heap0}), x)} for x in s]
                rets, raises = en.play(v.e, q, args)
                for st, r in rets:
                    rep.count('paths of updates')
                    for i, env in enumerate(s):
                        want = dict(before[i])
                        if i == t:
                            want[key] = L['new']
                        got = v.get(st, env)
                        rep.check(got is None or got == want, 'S2', 'update of %s from scope %d: scope %d' % (key, start, i),
                                  'updating a name bound in %s changes %s' % ('scope %s of the chain' % t if t is not None else 'no scope', 'scope %d otherwise' % i), w(m, q))
                        k = v.keys(st, env)
                        rep.check(k is None or sorted(k) == sorted(want), 'S3', 'names after an update', 'after an update the names of a scope are %s' % k, w(m, q))
                for st, x in raises:
                    rep.bad('S2', 'update of ' + key, 'updating a variable raises %s' % x.args[0], w(m, q))
    q = 'ENV.__setitem__'
    if need(rep, m, q):
        for key in 'abdz':
            v = V()
            A, L, s, bd = chain(v)
            ps = [a.arg for a in m.functions[q].args.args]
            rets, raises = en.play(v.e, q, dict(zip(ps, [s[1], A[key], L['new']])))
            for st, r in rets:
                rep.count('paths of settings')
                got, k = v.get(st, s[1]), v.keys(st, s[1])
                want = {'a': L['a1'], 'b': L['b1']}
                want[key] = L['new']
                rep.check(got is None or got == want, 'S2', 'set ' + key, 'setting a name in a scope leaves %s' % got, w(m, q))
                if k is not None:
                    rep.check(sorted(k) == sorted(want), 'S3', 'names: ' + key, 'after setting a name the names of the scope are %s' % k, w(m, q))
                    rest = [x for x in k if x != key]
                    rep.check(rest == [x for x in 'ab' if x != key] and (key in 'ab' or k[-1] == key), 'S3', 'order: ' + key, 'after setting a name the order of the scope is %s' % k, w(m, q))
                for i in (0, 2):
                    rep.check(v.get(st, s[i]) is None or len(v.get(st, s[i])) == (2, 0, 3)[i] and L['new'] not in v.get(st, s[i]).values(), 'S2', 'set: other scope', 'setting a name changes another scope', w(m, q))
            for st, x in raises:
                rep.bad('S2', 'set ' + key, 'setting a name raises %s' % x.args[0], w(m, q))
    q = 'ENV.__init__'
    if need(rep, m, q):
        v = V()
        A, L, s, bd = chain(v)
        env = T('new', 'ENV', (), 'made', 0)
        v.e.heap0[(v.e.store(env), 'base')] = NONE
        v.e.modobjs = set(v.e.modobjs) | {env, v.e.store(env)}
        loc = en.mklist(v.e, [T('tup', A[k], L[x]) for k, x in (('z', 'a0'), ('a', 'a1'), ('c', 'b1'), ('b', 'b2'))])
        ps = [a.arg for a in m.functions[q].args.args]
        rets, raises = en.play(v.e, q, dict(zip(ps, [env, s[0], loc])))
        for st, r in rets:
            got, k = v.get(st, env), v.keys(st, env)
            rep.check(k is None or k == list('zacb'), 'S3', 'order of a new scope', 'a new scope remembers its names as %s' % k, w(m, q))
            rep.check(got is None or got == {'z': L['a0'], 'a': L['a1'], 'c': L['b1'], 'b': L['b2']}, 'S2', 'values of a new scope', 'a new scope mixes up its values', w(m, q))
            rep.check(v.parent(st, env) in (None, s[0]), 'S1', 'parent of a new scope', 'a new scope is not inside the given one', w(m, q))
    q = 'ENV.unassigned'
    if need(rep, m, q):
        NF = V().e.globals(en.Y).get('NOT_FOUND')
        for pat in itertools.product((0, 1), repeat=3):
            for empty in (False, True):
                v = V()
                A, L, s, bd = chain(v)
                vals = [(v.bound() if b else C(0) if empty else L['a0']) for b in pat]
                env = en.mkenv(v.e, list(zip([A['c'], A['a'], A['b']], vals)), s[0])
                rets, raises = en.play(v.e, q, {m.functions[q].args.args[0].arg: env})
                want = next((k for k, b in zip('cab', pat) if b), None)
                for st, r in rets:
                    rep.count('paths of searches for a parameter')
                    k = v.e.kn(r)
                    rep.check((k.args[0] if isc(k) else None) == want and (want is not None or NF is None or r is NF or r is NONE), 'S4', 'pattern %s' % (pat,),
                              'the first parameter without a value is found as %s, not %s' % (str(k)[:30], want), w(m, q))
    q = 'ENV.eval_local'
    if need(rep, m, q):
        for bad in (None, 0, 1, 2):
            v = V()
            A, L, s, bd = chain(v)
            src = [en.leaf('e%d' % i) for i in range(3)]
            res = [en.leaf('r%d' % i) if i != bad else en.mk(v.e, 'VAR') for i in range(3)]
            v.m = dict(zip(src, res))
            env = en.mkenv(v.e, list(zip([A['c'], A['a'], A['b']], src)))
            ps = [a.arg for a in m.functions[q].args.args]
            rets, raises = en.play(v.e, q, dict(zip(ps, [env, s[0], C(1)])))
            for st, r in rets:
                got, k = v.get(st, env), v.keys(st, env)
                rep.check(got is None or got == dict(zip('cab', res)), 'S5', 'values', 'evaluating the values of a scope leaves %s' % str(got)[:100], w(m, q))
                rep.check(k is None or k == list('cab'), 'S3', 'order after evaluation', 'after the evaluation the order of the scope is %s' % k, w(m, q))
                args = [ev[2] for ev in st.log if ev[0] == 'ycall' and ev[1] == en.EVAL]
                rep.check(all(len(a) < 2 or a[1] is s[0] for a in args), 'S5', 'scope', 'the values of a scope are evaluated in another scope', w(m, q))
            for st, x in raises:
                rep.bad('S5', 'raises', 'evaluating the values of a scope raises %s' % x.args[0], w(m, q))


def definitions(rep, m):
    for cls in ('SET', 'LET'):
        if cls not in m.classes:
            rep.note('no ' + cls)
            continue
        cases = [('one name', 1, None)] + [('%d names, %d values' % (n, k), n, k) for n in (1, 2, 3) for k in (0, 1, 2, 3)] + [('2 names, no list', 2, 'x')]
        for what, n, k in cases:
            v = V()
            A, L, s, bd = chain(v)
            e = v.e
            ast_ = en.leaf('ast')
            form = en.leaf('form')
            vals = [en.leaf('v%d' % i) for i in range(k if isinstance(k, int) else 1)]
            v.m[ast_] = vals[0] if not isinstance(k, int) else en.mk(e, 'LIST', vals)
            single = what == 'one name'
            lval = A['b'] if single else en.mklist(e, [A[x] for x in 'bda'[:n]])
            node = en.mk(e, cls, lval=lval, ast=ast_, form=form)
            rets, raises = en.evaluate(e, node, s[0], maybe=False)
            for st, x in raises:
                rep.bad('S6', '%s %s: raises' % (cls, what), 'a definition (%s) raises %s' % (what, x.args[0]), w(m, en.EVAL))
            for st, r in rets:
                rep.count('paths of definitions')
                ycalls = [ev[2] for ev in st.log if ev[0] == 'ycall' and ev[1] == en.EVAL]
                if cls == 'SET':
                    env = r
                    if not (r.op == 'new' and r.args[0] == 'ENV'):
                        rep.check(isc(r) is False and r.op != 'new', 'S6', 'SET: value', 'a definition yields %s' % str(r)[:50], w(m, en.EVAL)) if False else rep.note('the result of SET is %s' % str(r)[:60])
                        continue
                else:
                    envs = [ev[2][1] for ev in st.log if ev[0] == 'ycall' and ev[2][0] is form and len(ev[2]) > 1]
                    ps = en.node_params()
                    env = envs[-1] if envs else st.env.get(ps[1])
                    if env is None or not (isinstance(env, T) and env.op == 'new' and env.args[0] == 'ENV'):
                        rep.note('the scope of the body of LET was not found')
                        continue
                got = v.get(st, env)
                if single:
                    want = {'b': v.m[ast_]}
                elif k == 'x':
                    want = {x: vals[0] for x in 'bda'[:n]}
                else:
                    want = {x: (vals[i] if i < k else NONE) for i, x in enumerate('bda'[:n])}
                rep.check(got is None or got == want, 'S6', '%s: %s' % (cls, what), 'a definition of %s binds %s' % (what, str({a: str(b)[:30] for a, b in (got or {}).items()})[:150]), w(m, en.EVAL))
                rep.check(v.parent(st, env) in (None, s[0]), 'S6', '%s: parent' % cls, 'the scope of a definition is not inside the current one', w(m, en.EVAL))
                rep.check(env is not s[0], 'S6', '%s: new scope' % cls, 'a definition changes the current scope', w(m, en.EVAL))
                for i in range(3):
                    g = v.get(st, s[i])
                    rep.check(g is None or g == [{'a': L['a0'], 'z': bd}, {'a': L['a1'], 'b': L['b1']}, {'b': L['b2'], 'c': L['c2'], 'z': L['c2']}][i],
                              'S6', '%s: scope %d' % (cls, i), 'a definition changes an outer binding of the same name', w(m, en.EVAL))


def variables(rep, m):
    if 'VAR' not in m.classes:
        return
    for key, want in (('a', 'a0'), ('b', 'b1'), ('c', 'c2')):
        v = V()
        A, L, s, bd = chain(v)
        node = en.mk(v.e, 'VAR', reg=en.mklist(v.e, []), atom=A[key])
        rets, raises = en.evaluate(v.e, node, s[0], maybe=False)
        for st, r in rets:
            rep.count('paths of names')
            rep.check(r is L[want] or want in names(r), 'S7', key, 'the name yields %s and not the innermost binding' % str(r)[:60], w(m, en.EVAL))
        for st, x in raises:
            rep.bad('S7', key, 'a bound name raises %s' % x.args[0], w(m, en.EVAL))
    # a name that is bound and the name of a built-in function
    table = None
    from .c07 import builtin_functions
    bi = [k for k, _, _ in builtin_functions() if isinstance(k, str) and k.isidentifier()]
    for key in (bi[0], bi[len(bi) // 2], bi[-1]) if bi else ():
        for depth in (0, 1):
            v = V()
            A, L, s, bd = chain(v)
            k = en.atom(key)
            env = en.mkenv(v.e, [(k, L['new'])], s[0])
            if depth:
                env = en.mkenv(v.e, [(A['c'], L['a1'])], env)
            node = en.mk(v.e, 'VAR', reg=en.mklist(v.e, []), atom=k)
            rets, raises = en.evaluate(v.e, node, env, maybe=False)
            for st, r in rets:
                rep.count('paths of names')
                rep.check(r is L['new'] or 'new' in names(r), 'S7', 'name of a built-in function', 'a name that is bound yields %s and not its binding' % str(r)[:60], w(m, en.EVAL))
    # emit: yields and updates the innermost binding
    if 'EMIT' in m.classes:
        for key, want, tgt in (('a', 'a0', 0), ('b', 'b1', 1), ('c', 'c2', 2)):
            v = V()
            A, L, s, bd = chain(v)
            fn = en.mk(v.e, 'VAR')
            var = en.mk(v.e, 'VAR', reg=en.mklist(v.e, []), atom=A[key])
            res = en.leaf('modified')
            def ev(e, st, f, args, kw, node):
                a = args[0]
                return [(st, res if a.op == 'new' and a.args[0] == 'APPLY' else a)]
            v.e.opaque[en.EVAL] = ev
            node = en.mk(v.e, 'EMIT', var=var, ast=fn)
            rets, raises = en.evaluate(v.e, node, s[0], maybe=False)
            for st, r in rets:
                rep.count('paths of emits')
                rep.check(want in names(r), 'S7', 'emit ' + key, '($emit) yields %s and not the innermost binding' % str(r)[:60], w(m, en.EVAL))
                for i in range(3):
                    g = v.get(st, s[i])
                    if g is None:
                        continue
                    for kk, x in g.items():
                        rep.check((x is res) == (i == tgt and kk == key), 'S2', 'emit %s: %s of scope %d' % (key, kk, i), '($emit) of a name bound in scope %d %s' % (tgt, 'leaves it as it was' if i == tgt and kk == key else 'changes another binding'), w(m, en.EVAL))


def declarations(rep, m):
    if 'LAMBDA' in m.classes and 'L_CLOSURE' in m.classes:
        for n in (1, 2, 3):
            for dflt in itertools.product((0, 1), repeat=n):
                v = V()
                A, L, s, bd = chain(v)
                ks = 'cab'[:n]
                ds = [en.leaf('d' + k) if d else NONE for k, d in zip(ks, dflt)]
                bound = en.mklist(v.e, [T('tup', en.mklist(v.e, []), A[k], d) for k, d in zip(ks, ds)])
                form = en.leaf('form')
                node = en.mk(v.e, 'LAMBDA', bound=bound, l_form=form)
                made = []
                def hook(e, st, cls, args, kw, nd):
                    return None
                rets, raises = en.evaluate(v.e, node, s[0], maybe=False)
                for st, r in rets:
                    if not (r.op == 'new' and r.args[0] == 'L_CLOSURE'):
                        rep.note('a function evaluates to %s' % str(r)[:60])
                        continue
                    rep.count('paths of declarations')
                    env = st.heap.get((r, 'env'))
                    k = v.keys(st, env) if env is not None else None
                    rep.check(k is None or k == list(ks), 'S8', 'function of %d' % n, 'the parameters %s of a function are introduced as %s' % (list(ks), k), w(m, en.EVAL))
                    g = v.get(st, env) if env is not None else None
                    rep.check(g is None or all(x.op == 'new' and x.args[0] == 'BOUND' for x in g.values()), 'S8', 'no value', 'a parameter of a function has a value before it is applied', w(m, en.EVAL))
                    d = st.heap.get((r, 'default'))
                    if d is not None and d.op == 'dict':
                        c = {kk.args[0] if isc(kk) else str(kk): x for kk, x in (v.e.contents(st, d) or ())}
                        rep.check(c == {kk: x for kk, x in zip(ks, ds) if x is not NONE}, 'S8', 'defaults', 'the defaults of a function are %s' % str(c)[:100], w(m, en.EVAL))
                    rep.check(env is None or v.parent(st, env) in (None, s[0]), 'S11', 'scope of a function', 'the scope of a function is not inside the current one', w(m, en.EVAL))
    if 'MACRO' in m.classes and 'M_CLOSURE' in m.classes:
        for n in (0, 1, 2, 3):
            v = V()
            A, L, s, bd = chain(v)
            ks = 'cab'[:n]
            node = en.mk(v.e, 'MACRO', name=A['z'], pars=en.mklist(v.e, [A[k] for k in ks]), text=en.leaf('text'))
            rets, raises = en.evaluate(v.e, node, s[0], maybe=False)
            for st, r in rets:
                if not (r.op == 'new' and r.args[0] == 'ENV'):
                    rep.note('a macro evaluates to %s' % str(r)[:60])
                    continue
                g = v.get(st, r)
                rep.count('paths of declarations')
                rep.check(g is None or list(g) == ['z'], 'S8', 'name of a macro', 'a macro is bound to %s' % (list(g or ()),), w(m, en.EVAL))
                clo = (g or {}).get('z')
                env = st.heap.get((clo, 'env')) if clo is not None else None
                if env is None:
                    continue
                k, g2 = v.keys(st, env), v.get(st, env)
                if k is not None:
                    rep.check(k == list(ks), 'S8', 'macro of %d' % n, 'the parameters %s of a macro are introduced as %s' % (list(ks), k), w(m, en.EVAL))
                rep.check(g2 is None or all(x.op == 'new' and x.args[0] == 'BOUND' for x in g2.values()), 'S8', 'macro: no value', 'a parameter of a macro has a value before it is applied', w(m, en.EVAL))


def calls():
    """(parameters, defaults, positional, named): every mix for up to three parameters"""
    for n in (1, 2, 3):
        ks = 'cab'[:n]
        for npos in range(n + 2):
            for nn in range(min(n, 2) + 1):
                for named in itertools.permutations(ks, nn):
                    if npos + nn > n + 1:
                        continue
                    for dflt in ((), ks[-1:], ks[:1], ks) if n > 1 else ((), ks):
                        if n == 3 and nn == 2 and len(dflt) == 1:
                            continue
                        yield ks, dflt, npos, named


def expected(ks, npos, named):
    res = {k: 'n' + k for k in named}
    i = 0
    for k in ks:
        if k not in res and i < npos:
            res[k] = 'p%d' % i
            i += 1
    return res


def applications(rep, m):
    if 'APPLY' not in m.classes or 'L_CLOSURE' not in m.classes:
        return
    for cls in ('L_CLOSURE', 'M_CLOSURE'):
        for ks, dflt, npos, named in calls():
            if cls == 'M_CLOSURE' and dflt:
                continue
            one_call(rep, m, cls, ks, dflt, npos, named)
    # variadic
    va = V().e.globals(en.Y).get('__va_args__')
    if va is not None:
        for fixed in (0, 1, 2):
            for npos in range(0, 5):
                variadic(rep, m, va, fixed, npos)
    # unknown name
    for npos in (0, 1):
        for at in (0, 1):
            v = V()
            A, L, s, bd = chain(v)
            e = v.e
            cenv = en.mkenv(e, [(A['a'], v.bound()), (A['b'], v.bound())])
            clo = en.mk(e, 'L_CLOSURE', l_form=en.leaf('form'), env=cenv, late=en.mkdict(e, []), default=en.mkdict(e, []), call=NONE)
            nm = [T('tup', A['a'], en.leaf('na'))]
            nm.insert(at, T('tup', A['d'], en.leaf('nd')))
            node = en.mk(e, 'APPLY', fn=clo, args=en.mklist(e, [en.leaf('p0')][:npos]), named=en.mklist(e, nm))
            # the name exists in a scope of the caller
            env = en.mkenv(e, [(A['d'], L['new'])], s[0])
            rets, raises = en.evaluate(e, node, env, maybe=False)
            rep.count('paths of applications', len(rets) + len(raises))
            rep.check(not rets and raises, 'S10', 'unknown name', 'an argument for a parameter that does not exist is accepted', w(m, en.EVAL))


def one_call(rep, m, cls, ks, dflt, npos, named):
    v = V()
    A, L, s, bd = chain(v)
    e = v.e
    # the value of a parameter may be one that counts as empty
    cenv = en.mkenv(e, [(A[k], v.bound()) for k in ks])
    form = en.leaf('form')
    clo = en.mk(e, cls, l_form=form, env=cenv, late=en.mkdict(e, []), default=en.mkdict(e, [(A[k], en.leaf('d' + k)) for k in dflt]), call=NONE, decl=NONE)
    pos = [en.leaf('p%d' % i) for i in range(npos)]
    nm = [T('tup', A[k], en.leaf('n' + k)) for k in named]
    node = en.mk(e, 'APPLY', fn=clo, args=en.mklist(e, pos), named=en.mklist(e, nm))
    want = expected(ks, npos, named)
    what = '%s(%s) applied to %d positional%s%s' % ('function' if cls == 'L_CLOSURE' else 'macro', ', '.join(ks), npos, ''.join(', %s: ..' % k for k in named), ', defaults of %s' % (', '.join(dflt)) if dflt else '')
    macro = cls == 'M_CLOSURE'
    ends, filled_at = [], []
    if macro:
        # stop where the text of the macro has been filled in
        def stop(e2, st, c, args, kw, nd):
            if c.args[1] == 'EVAL':
                ends.append((st.copy(), NONE))
                filled_at.append((st.copy(), list(args)))
                return []
            return None
        e.hooks = dict(e.hooks, new=stop)
    try:
        rets, raises = en.evaluate(e, node, s[0], maybe=False)
    except AnalysisError as x:
        rep.note('%s: %s' % (what, x))
        return
    for st, args in filled_at:
        filled(rep, m, what, st, args, ks, want, en.EVAL, e)
    for st, x in raises:
        rep.bad('S9', what, '%s raises %s' % (what, x.args[0]), w(m, en.EVAL))
    for st, r in rets + ends:
        rep.count('paths of applications')
        for i in range(3):
            o = v.get(st, s[i])
            rep.check(o is None or o == [{'a': L['a0'], 'z': bd}, {'a': L['a1'], 'b': L['b1']}, {'b': L['b2'], 'c': L['c2'], 'z': L['c2']}][i],
                      'S11', '%s: scope %d of the caller' % (what, i), '%s: a scope of the caller changes' % what, w(m, en.EVAL))
        g = v.get(st, cenv)
        if g is None:
            rep.note('%s: the scope of the function is not known' % what)
            continue
        for k in ks:
            x = g.get(k)
            if x is None:
                rep.bad('S9', what, '%s: the parameter %s is lost' % (what, k), w(m, en.EVAL))
                continue
            got = names(x)
            if k in want:
                rep.check(got == {want[k]}, 'S9', what, '%s: the parameter %s gets %s' % (what, k, sorted(got) or str(x)[:40]), w(m, en.EVAL))
            else:
                rep.check(not got and x.op == 'new' and x.args[0] == 'BOUND' or got == {'d' + k}, 'S9', what, '%s: the parameter %s without an argument gets %s' % (what, k, sorted(got) or str(x)[:40]), w(m, en.EVAL))
        rep.check(set(g) == set(ks), 'S9', what + ': names', '%s: the scope of the function has the names %s' % (what, sorted(g)), w(m, en.EVAL))
        ps = en.node_params()
        if not macro and r is form and len(want) + len([k for k in dflt if k not in want]) >= len(ks):
            env = st.env.get(ps[1])
            rep.check(env is cenv or v.parent(st, cenv) is s[0], 'S11', 'body', 'the body of a function is evaluated in another scope than that of its parameters', w(m, en.EVAL))


def rescanned(args):
    """(value, key) where a replacement searches a text that an argument has already been put into"""
    out = set()
    for t in args:
        for x in [t] + list(t.deps()):
            if x.op == 'call' and x.args[0] == '.replace' and len(x.args) == 4 and names(x.args[3]):
                for y in [x.args[1]] + list(x.args[1].deps()):
                    if y.op == 'call' and y.args[0] == '.replace' and len(y.args) == 4 and y.args[2] is not x.args[2]:
                        out |= {(n, keyof(x.args[2]) or 'another one') for n in names(y.args[3])}
    return out


def one_pass(e, st, args, keys):
    """{placeholder: names of the values} of a substitution by regular expression with a function, None if there is none"""
    for t in args:
        for x in [t] + list(t.deps()):
            if x.op != 'call':
                continue
            if x.args[0] == '.sub' and len(x.args) >= 4 and x.args[1].op == 'call' and x.args[1].args[0] == 're.compile':
                pat, fn, text = x.args[1].args[1], x.args[2], x.args[3]
            elif x.args[0] == 're.sub' and len(x.args) >= 4:
                pat, fn, text = x.args[1:4]
            else:
                continue
            if not isc(pat) or fn.op not in ('fn', 'bm', 'attr') or names(text) - {'form'}:
                continue
            try:
                rx = re.compile(pat.args[0])
            except (re.error, TypeError):
                continue
            got = {}
            for key in ('($a-b)', '($a_1)', '($Z9-x)', '($12)'):
                mch = rx.search('($ ' + key + ')')
                if mch is None or mch.group(0) != key:
                    got['other'] = key
            for key in keys:
                mch = rx.search(key)
                if mch is None or mch.group(0) != key:
                    got[key] = set()
                    continue
                obj = T('sym', '$match')

                def method(e, st, recv, name, a, kw, node, mch=mch):
                    if recv is not obj:
                        return None
                    if name == 'group':
                        ks = [y.args[0] for y in a if isc(y)] or [0]
                        return [(st, C(mch.group(ks[0])))] if len(ks) == 1 else None
                    if name == 'groups':
                        return [(st, T('tup', *[C(g) for g in mch.groups()]))]
                    return None
                old = e.hooks.get('method')
                e.hooks['method'] = method
                try:
                    rets, _ = e.analyse_call(st, fn, [obj])
                finally:
                    if old is None:
                        e.hooks.pop('method')
                    else:
                        e.hooks['method'] = old
                vals = [names(v) if names(v) or isc(v) else None for _, v in rets]
                got[key] = vals[0] if vals and all(v == vals[0] for v in vals) else None
            return got
    return None


def filled(rep, m, what, st, args, ks, want, q, e=None):
    late = rescanned(args)
    rep.check(not late, 'S12', what + ': values', '%s: the value %s is itself searched for the placeholder of %s' % ((what,) + (sorted(late)[0] if late else ('', ''))), w(m, q))
    once = one_pass(e, st, args, ['($%s)' % k for k in ks]) if ks and e is not None else None
    if once is not None:
        rep.check('other' not in once, 'S12', 'placeholders', 'the placeholder %s is not recognised in the text of a macro' % once.get('other'), w(m, q))
        for k in ks:
            v = once['($%s)' % k]
            if v is None:
                rep.note('%s: what ($%s) is replaced by was not understood' % (what, k))
            elif k in want:
                rep.check(v == {want[k]}, 'S12', what, '%s: the text of the macro gets %s for ($%s)' % (what, sorted(v), k), w(m, q))
        return
    pairs = {}
    for t in args:
        for x in [t] + list(t.deps()):
            if x.op == 'call' and x.args[0] == '.replace' and len(x.args) == 4:
                key = {y.args[1][0].args[0] for y in [x.args[2]] + list(x.args[2].deps()) if y.op == 'new' and y.args[0] == 'ATOM' and y.args[1] and isc(y.args[1][0])}
                val = names(x.args[3])
                if len(key) == 1 and len(val) == 1:
                    pairs.setdefault(key.pop(), set()).update(val)
    for k, v in pairs.items():
        rep.check(k in want and v == {want[k]}, 'S12', what, '%s: the text of the macro gets %s for ($%s)' % (what, sorted(v), k), w(m, q))
    if pairs:
        rep.check(set(pairs) == set(ks), 'S12', what + ': all', '%s: only %s are filled in the text of the macro' % (what, sorted(pairs)), w(m, q))
    else:
        rep.note('%s: how the text of the macro is filled was not understood' % what) if ks else None


def variadic(rep, m, va, fixed, npos):
    v = V()
    A, L, s, bd = chain(v)
    e = v.e
    ks = 'cab'[:fixed]
    cenv = en.mkenv(e, [(A[k], v.bound()) for k in ks] + [(va, v.bound())])
    form = en.leaf('form')
    clo = en.mk(e, 'L_CLOSURE', l_form=form, env=cenv, late=en.mkdict(e, []), default=en.mkdict(e, []), call=NONE)
    pos = [en.leaf('p%d' % i) for i in range(npos)]
    node = en.mk(e, 'APPLY', fn=clo, args=en.mklist(e, pos), named=en.mklist(e, []))
    rets, raises = en.evaluate(e, node, s[0], maybe=False)
    what = 'function of %d and ... applied to %d' % (fixed, npos)
    for st, x in raises:
        rep.bad('S9', what, '%s raises %s' % (what, x.args[0]), w(m, en.EVAL))
    for st, r in rets:
        rep.count('paths of applications')
        g = v.get(st, cenv)
        if g is None:
            continue
        for i, k in enumerate(ks):
            x = g.get(k)
            got = names(x) if x is not None else None
            rep.check(got == ({'p%d' % i} if i < npos else set()), 'S9', what, '%s: the parameter %s gets %s' % (what, k, got), w(m, en.EVAL))
        rest = pos[fixed:]
        vk = e.kn(va)
        x = g.get(vk.args[0] if isc(vk) else str(vk))
        if rest and x is not None:
            it = e.items(st, x)
            rep.check(it is None or list(it) == rest, 'S9', what + ': rest', '%s: the variadic parameter gets %s' % (what, [sorted(names(y)) for y in it or ()] or str(x)[:40]), w(m, en.EVAL))


def bodies(rep, m):
    """a function whose parameters all have values; a rest of a text after a definition"""
    if 'L_CLOSURE' in m.classes:
        for cls_, attr in (('L_CLOSURE', 'l_form'), ('SET_CLOSURE', 'form')):
            if cls_ not in m.classes:
                continue
            v = V()
            A, L, s, bd = chain(v)
            e = v.e
            cenv = en.mkenv(e, [(A['a'], L['new'])])
            form = en.leaf('form')
            node = en.mk(e, cls_, env=cenv, late=en.mkdict(e, []), default=en.mkdict(e, []), call=NONE, **{attr: form})
            rets, raises = en.evaluate(e, node, s[0], maybe=False)
            for st, r in rets:
                rep.count('paths of bodies')
                rep.check(v.parent(st, cenv) is s[0], 'S11', cls_ + ': parent', 'the body of a %s does not see the scopes of the caller' % cls_, w(m, en.EVAL))
                envs = [ev[2][1] for ev in st.log if ev[0] == 'ycall' and ev[2][0] is form and len(ev[2]) > 1]
                env = envs[-1] if envs else st.env.get(en.node_params()[1])
                rep.check(env is None or env is cenv, 'S11', cls_ + ': scope', 'the body of a %s is evaluated in another scope than its own' % cls_, w(m, en.EVAL))
                g = v.get(st, cenv)
                rep.check(g is None or g == {'a': L['new']}, 'S11', cls_ + ': values', 'the evaluation of the body of a %s changes its scope' % cls_, w(m, en.EVAL))
    if 'T' in m.classes and 'SET' in m.classes:
        v = V()
        A, L, s, bd = chain(v)
        e = v.e
        new = en.mkenv(e, [(A['a'], L['new'])], s[0])
        sset, p1, p2, p0 = en.mk(e, 'SET'), en.leaf('p1'), en.leaf('p2'), en.leaf('p0')
        v.m[sset] = new
        node = en.mk(e, 'T', [p0, sset, p1, p2], indent=NONE)
        rets, raises = en.evaluate(e, node, s[0], maybe=False)
        for st, r in rets:
            rep.count('paths of texts')
            for ev in st.log:
                if ev[0] == 'ycall' and ev[1] == en.EVAL and ev[2][0].op == 'new' and ev[2][0].args[0] == 'SET_CLOSURE':
                    clo = ev[2][0]
                    rep.check(st.heap.get((clo, 'env')) in (None, new), 'S6', 'rest of a text', 'the text after a definition is evaluated in another scope', w(m, en.EVAL))
                    rest = e.contents(st, st.heap[(clo, 'form')]) if (clo, 'form') in st.heap and e.isobj(st.heap[(clo, 'form')]) else None
                    rep.check(rest is None or list(rest) == [p1, p2], 'S6', 'rest of a text: parts', 'the text in the scope of a definition is %s' % [str(x)[:20] for x in rest or ()], w(m, en.EVAL))


def fillers(args):
    """placeholder -> names of the values it is replaced by"""
    pairs = {}
    for t in args:
        for x in t.deps():
            if x.op == 'call' and x.args[0] == '.replace' and len(x.args) == 4:
                pairs.setdefault(x.args[2], set()).update(names(x.args[3]))
    return pairs


def keyof(t):
    """the text of a placeholder like '($' + str(x) + ')'"""
    if isc(t):
        return str(t.args[0])
    if t.op == 'bin' and t.args[0] == 'Add':
        a, b = keyof(t.args[1]), keyof(t.args[2])
        return None if a is None or b is None else a + b
    if t.op == 'str' or t.op == 'call' and t.args[0] == 'str' and len(t.args) == 2:
        return keyof(t.args[-1])
    if t.op == 'new' and t.args[1] and isinstance(t.args[1][0], T):
        return keyof(t.args[1][0])
    return None


def formats(rep, m):
    if 'APPLY' not in m.classes or 'STR' not in m.classes:
        return
    for npos in (0, 1, 2, 3):
        for named in ((), 'a', 'b', 'ba'):
            v = V()
            A, L, s, bd = chain(v)
            e = v.e
            fmt = T('new', 'STR', (T('sym', '$format'),), 'scene', 'fmt')
            pos = [en.leaf('p%d' % i) for i in range(npos)]
            node = en.mk(e, 'APPLY', fn=fmt, args=en.mklist(e, pos), named=en.mklist(e, [T('tup', A[k], en.leaf('n' + k)) for k in named]))
            rets, raises = en.evaluate(e, node, s[0], maybe=False)
            what = 'format of %d and %s' % (npos, list(named))
            for st, x in raises:
                rep.bad('S13', what, 'a format string applied to %d positional and %d named arguments raises %s' % (npos, len(named), x.args[0]), w(m, en.EVAL))
            want = {'($%d)' % i: {'p%d' % i} for i in range(npos)}
            want.update({'($%s)' % k: {'n' + k} for k in named})
            for st, r in rets:
                rep.count('paths of formats')
                late = rescanned([r])
                rep.check(not late, 'S13', what + ': values', '%s: the value %s is itself searched for the placeholder %s' % ((what,) + (sorted(late)[0] if late else ('', ''))), w(m, en.EVAL))
                got = {}
                once = one_pass(e, st, [r], sorted(want)) if want else None
                if once is not None:
                    rep.check('other' not in once, 'S13', 'placeholders', 'the placeholder %s is not recognised in a format string' % once.pop('other', ''), w(m, en.EVAL))
                    if any(x is None for x in once.values()):
                        rep.note('%s: what a placeholder is replaced by was not understood' % what)
                        continue
                    got = once
                for k, x in fillers([r]).items() if once is None else ():
                    k = keyof(k)
                    if k is not None:
                        got.setdefault(k, set()).update(x)
                if not want:
                    rep.check(r is fmt or fmt in r.deps(), 'S13', what, 'a text applied to nothing yields %s' % str(r)[:60], w(m, en.EVAL))
                elif not got:
                    rep.note('%s: the way a format string is filled was not understood' % what)
                else:
                    rep.check(got == want, 'S13', what, 'a format string with %d positional arguments and the names %s is filled as %s' % (npos, list(named), {k: sorted(x) for k, x in sorted(got.items())}), w(m, en.EVAL))


def loops(rep, m):
    if 'APPLY' not in m.classes or 'LIST' not in m.classes:
        return
    for n in (0, 1, 2, 3):
        for nf in (0, 1, 2):
            v = V()
            A, L, s, bd = chain(v)
            e = v.e
            items = [en.leaf('i%d' % i) for i in range(n)]
            fns = [en.leaf('f%d' % i) for i in range(nf)]
            lst = en.mk(e, 'LIST', items)
            node = en.mk(e, 'APPLY', fn=lst, args=en.mklist(e, fns), named=en.mklist(e, []))
            rets, raises = en.evaluate(e, node, s[0], maybe=False)
            what = 'list of %d applied to %d functions' % (n, nf)
            for st, x in raises:
                rep.bad('S14', what, 'a %s raises %s' % (what, x.args[0]), w(m, en.EVAL))
            for st, r in rets:
                rep.count('paths of loops')
                it = e.contents(st, r) if e.isobj(r) else e.items(st, r)
                if it is None:
                    rep.note('%s yields %s' % (what, str(r)[:60]))
                    continue
                got = [applied(e, st, x) for x in it]
                if nf == 0 and r is lst:
                    continue
                want = [['i%d' % i] + ['f%d' % j for j in range(nf)] for i in range(n)]
                if None in got:
                    rep.note('%s: an item is %s' % (what, [str(x)[:50] for x in it]))
                    continue
                rep.check(got == want, 'S14', what, 'a %s yields %s' % (what, got), w(m, en.EVAL))
    # items that count as empty are kept
    for val in (C(0), C(''), C(0.0)):
        v = V()
        A, L, s, bd = chain(v)
        e = v.e
        fn = en.leaf('f')
        res = iter(())
        def ev(e2, st, f, args, kw, node):
            return [(st, val if args[0].op == 'new' and args[0].args[0] == 'APPLY' else args[0])]
        e.opaque[en.EVAL] = ev
        lst = en.mk(e, 'LIST', [en.leaf('i0'), en.leaf('i1')])
        node = en.mk(e, 'APPLY', fn=lst, args=en.mklist(e, [fn]), named=en.mklist(e, []))
        rets, raises = en.evaluate(e, node, s[0], maybe=False)
        for st, r in rets:
            it = e.contents(st, r) if e.isobj(r) else e.items(st, r)
            rep.check(it is None or len(it) == 2, 'S14', 'empty values', 'the value %r of an item of a list gets lost' % (val.args[0],), w(m, en.EVAL))


def applied(e, st, x):
    """[item, function, function..] of a value APPLY(f2, [APPLY(f1, [item])])"""
    n = names(x)
    if x.op == 'new' and x.args[0] == 'PLAIN':
        return sorted(n)
    if x.op == 'new' and x.args[0] == 'APPLY':
        f, a = st.heap.get((x, 'fn')), st.heap.get((x, 'args'))
        it = e.items(st, a) if a is not None else None
        if f is None or it is None or len(it) != 1 or len(names(f)) != 1:
            return None
        rest = applied(e, st, it[0])
        return None if rest is None else rest + sorted(names(f))
    return None
