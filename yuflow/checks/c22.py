"""C22 - operations wait until their operands are fully reduced."""
import ast
from ..src import Repo, AnalysisError, where
from ..terms import T, C, NONE, TRUE, FALSE, isc
from .. import evalnode as en

TECHNIQUE = 'shape analysis (abstract interpretation over expressions of known shape): every operation of the evaluator with one unreduced operand of each kind at each position; no path may perform the operation or lose the operand'
NOTE = ('Shapes: up to three operands, one of them unreduced (alone, in a list, in a list of a list, in a trimmed value); the reduced ones are symbolic. '
        '($lazy), ($repr), ($isatom), ($__PASSAGE__) and the function given to ($reduce) take their argument as it is by definition and are exempt.')
ASSUMPTIONS = ['a value is final if it is nothing, a text, a number or a value wrapped by ($lazy), or a list or a trimmed value of such']
G = 'pp/yugen.py'
OPEN = ['VAR', 'APPLY', 'LAMBDA', 'L_CLOSURE', 'M_CLOSURE', 'COND', 'COND_CLOSURE', 'INFIX', 'INFIX_CLOSURE', 'EVAL', 'EMIT', 'SET', 'LET', 'MACRO',
        'SET_CLOSURE', 'BOUND', 'LATE_BOUND', 'BUILTIN', 'EMBED', 'TEXT', 'ENV']
BASIC = ['VAR', 'APPLY', 'L_CLOSURE', 'COND_CLOSURE', 'INFIX_CLOSURE', 'EVAL', 'EMIT']


def run(rep):
    rep.rule('W1', 'a value counts as final exactly if it is nothing, a text, a number or lazy, or a list or a trimmed value of final ones only')
    rep.rule('W2', 'a built-in function is called only if all its arguments are final, and then with all of them in order')
    rep.rule('W3', 'a subscript is taken only if all the values are final, and yields the value of that position or nothing')
    rep.rule('W4', 'a format string is filled in only if all its arguments are final')
    rep.rule('W5', 'an embedded expression is parsed only if it is a text, and evaluated only if all its variables are final')
    rep.rule('W6', 'a macro text is filled in only if all its parameters are final, and evaluated only if it is a text')
    rep.rule('W7', 'a branch of a condition is chosen only if the condition is final, and then it is the right one')
    rep.rule('W8', 'a text is finished only if all its parts are final')
    rep.rule('W9', 'the rest of a text after a definition and the body of a function are finished only when they are final and the parameters have values')
    rep.rule('W10', 'an expression that waits keeps all its parts')
    m = Repo.get().mod('yugen')
    for f in (finals, calls, reduce_, subscripts, formats, infixes, macros, conditions, texts, closures):
        try:
            f(rep, m)
        except AnalysisError as x:
            rep.note('%s: %s' % (f.__name__, x))


def w(m, q=en.EVAL):
    return where(m.functions[q]) if q in m.functions else G


class S:
    """a scene whose parts evaluate to themselves"""
    def __init__(self, **kw):
        self.e = en.scene(opaque={en.EVAL: self.ev}, keep={'call', 'ext', 'ret', 'new'}, **kw)
        self.m = {}
        self.stopped = []
        e = self.e
        e.opaque['yuparse'] = self.stop
        for p in ('_plain', '_plain_back', '_plain_with_browse'):
            e.opaque[p] = self.same(p)
        self.env = en.mkenv(e, [(en.atom('q'), en.leaf('q'))])

    def same(self, p):
        def h(e, st, f, args, kw, node):
            e.emit(st, 'ycall', p, tuple(args), (), e.site(node))
            return [(st, T('call', p, *args))]
        return h

    def stop(self, e, st, f, args, kw, node):
        self.stopped.append('yuparse')
        return []

    def ev(self, e, st, f, args, kw, node):
        e.emit(st, 'ycall', en.EVAL, tuple(args), (), e.site(node))
        return [(st, self.m.get(args[0], args[0]))]

    def open(self, cls):
        e = self.e
        if cls in ('BOUND', 'LATE_BOUND'):
            return en.mk(e, cls)
        if cls == 'ENV':
            return en.mkenv(e, [(en.atom('r'), en.leaf('r'))])
        if cls == 'BUILTIN':
            return en.mk(e, cls, atom=en.atom('other'), fn=T('sym', '$other'))
        at = {k: T('sym', '$%s.%s' % (cls, k)) for k in ()}
        return en.mk(e, cls, **at)

    def forms(self, x, depth=True):
        """the open value, alone and inside of others"""
        e = self.e
        yield x, 'alone'
        if depth:
            yield en.mk(e, 'LIST', [en.leaf('l0'), x]), 'in a list'
            yield en.mk(e, 'LIST', [en.mk(e, 'LIST', [x, en.leaf('l1')]), en.leaf('l2')]), 'in a list of a list'
            if 'TRIM' in Repo.get().mod('yugen').classes:
                yield en.mk(e, 'TRIM', ast=x, indent=NONE), 'trimmed'
            if 'T' in Repo.get().mod('yugen').classes:
                yield en.mk(e, 'T', [en.leaf('t0'), x], indent=NONE), 'in a text'


def reach(e, st, t, seen=None, n=0):
    """everything a value is made of"""
    seen = set() if seen is None else seen
    if n > 30 or t in seen:
        return seen
    for x in t.deps():
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('new', 'list', 'dict'):
            hs = [x]
            if x.op == 'new' and e.store(x) is not None:
                hs.append(e.store(x))
            for k, v in list(st.heap.items()):
                if any(k[0] is h for h in hs) and isinstance(v, T) and k[1] not in ('parent',):
                    reach(e, st, v, seen, n + 1)
    return seen


def has(m, *cs):
    return all(c in m.classes for c in cs)


def opens(m, some=OPEN):
    return [c for c in some if c in m.classes]


def variants(m, some, depth=True):
    """(scene, open value, the operand that contains it, text)"""
    for cls in opens(m, some):
        n = 0
        while True:
            s = S()
            x = s.open(cls)
            fs = list(s.forms(x, depth))
            if n >= len(fs):
                break
            yield s, x, fs[n][0], '%s %s' % (cls, fs[n][1])
            n += 1


def acted(st, *what):
    """operations on a path"""
    res = []
    for ev in st.log:
        if ev[0] == 'dyncall':
            res.append('call')
        elif ev[0] == 'ycall' and ev[1] != en.EVAL:
            res.append(ev[1])
        elif ev[0] in ('ext', 'call') and ev[1] in ('ast.parse', 'compile', 'eval', 'parse', 'exec'):
            res.append(ev[1])
    return res


def ask(rep, s, node):
    try:
        return en.evaluate(s.e, node, s.env)
    except AnalysisError as x:
        rep.note('a scene was not analysed: %s' % x)
        if len([n for n in rep.notes if n.startswith('a scene')]) and rep.counts.get('scenes given up', 0) > 20:
            raise
        rep.count('scenes given up')
        return [], []


def waits(rep, m, s, rule, what, node, x, rets, raises, operations, raising=True):
    e = s.e
    rep.check(not (set(s.stopped) & set(operations)), rule, what + ': parsed', '%s: it is parsed although an operand is not reduced' % what, w(m))
    for st, r in rets:
        rep.count('paths with an unreduced operand')
        ops = [a for a in acted(st) if a in operations]
        rep.check(not ops, rule, what, '%s: %s although an operand is not reduced' % (what, {'call': 'the function is called'}.get(ops[0], ops[0] + '() is called') if ops else ''), w(m))
        kept = r is node or x in reach(e, st, r)
        rep.check(kept, 'W10', what, '%s: the result %s does not contain the operand that is not reduced' % (what, str(r)[:60]), w(m))
    for st, exc in raises:
        ops = [a for a in acted(st) if a in operations]
        rep.check(not ops, rule, what, '%s: %s although an operand is not reduced' % (what, ops[:1]), w(m))
        if raising:
            rep.bad('W10', what, '%s: %s is raised although the operand may be reduced later' % (what, exc.args[0]), w(m))


# ---------------------------------------------------------------------- final values
def finals(rep, m):
    q = '_is_term'
    if q not in m.functions:
        rep.note('no %s()' % q)
        return
    p = m.functions[q].args.args[0].arg

    def look(s, v, want, what):
        rets, raises = en.play(s.e, q, {p: v})
        got = set()
        for st, r in rets:
            rep.count('paths of tests for a final value')
            b = s.e.truth(r)
            if not isinstance(b, bool):
                d = s.e.decide(b[0], st)
                b = None if d is None else d == b[1]
            got.add(b)
        rep.check(not (got - {want, None}), 'W1', what, '%s counts as %s' % (what, 'final' if not want else 'not final'), w(m, q))
        for st, x in raises:
            rep.bad('W1', what, 'testing %s raises %s' % (what, x.args[0]), w(m, q))
        if not rets:
            rep.note('%s: no path' % what)
    s = S()
    values = [(NONE, 'nothing')] + [(C(v), repr(v)) for v in (0, 1, '', 'a', 0.0, 2.5)]
    for v, what in values:
        look(S(), v, True, what)
    e = s.e
    lists = [c for c in e.objects if 'list' in e.mro(c)]
    for cls in en.node_classes():
        mro = set(e.mro(cls))
        if 'NodeVisitor' in mro or cls in ('NOT_FOUND', 'BASE_OBJECT', 'BASE_STR', 'BASE_LIST', 'BASE_MARK', 'BASE_OBJECT_LOCATED', 'SOURCE', 'CAPTION', 'LAMBDA_CLOSURE', 'TRIM') or cls in lists:
            continue
        s = S()
        if {'str', 'int', 'float'} & mro:
            for v in ({'str': (C(''), C('x'))}.get(next(iter({'str', 'int', 'float'} & mro)), (C(0), C(1)))):
                look(s, T('new', cls, (v,), 'scene', cls), True, '%s %r' % (cls, v.args[0]))
        elif cls == 'LAZY':
            for inner in ('VAR', None):
                look(s, en.mk(s.e, cls, ast=s.open(inner) if inner else en.leaf('x')), True, 'a lazy value')
        else:
            look(s, s.open(cls), False, 'a value of class ' + cls)
    for c in sorted(lists):
        look(S(), en.mk(s.e, c, []), True, 'an empty ' + c) if False else None
        for n in (0, 1, 2, 3):
            for bad in [None] + list(range(n)):
                for inner in ('plain', 'list', 'trim'):
                    if n == 0 and inner != 'plain':
                        continue
                    s = S()
                    x = s.open('VAR')
                    it = []
                    for i in range(n):
                        v = x if i == bad else en.leaf('v%d' % i)
                        if inner == 'list':
                            v = en.mk(s.e, c, [en.leaf('u'), v]) if i % 2 else en.mk(s.e, c, [v, en.leaf('u')])
                        elif inner == 'trim' and 'TRIM' in m.classes:
                            v = en.mk(s.e, 'TRIM', ast=v, indent=NONE)
                        it.append(v)
                    look(s, en.mk(s.e, c, it), bad is None, '%s of %d %s values%s' % (c, n, inner, '' if bad is None else ', one not reduced (%d)' % bad))
                    if inner == 'plain':
                        s2 = S()
                        look(s2, en.mklist(s2.e, [s2.open('VAR') if i == bad else en.leaf('v%d' % i) for i in range(n)]), bad is None, 'arguments: %d%s' % (n, '' if bad is None else ', one not reduced (%d)' % bad))
    if 'TRIM' in m.classes:
        for x, want in (('VAR', False), (None, True)):
            s = S()
            look(s, en.mk(s.e, 'TRIM', ast=s.open(x) if x else en.leaf('x'), indent=NONE), want, 'a trimmed value that is %sreduced' % ('' if want else 'not '))


# ---------------------------------------------------------------------- applications
def places(n, op):
    for i in range(n):
        yield [op if j == i else en.leaf('a%d' % j) for j in range(n)]


def apply_node(s, fn, args, named=(), as_list=False):
    e = s.e
    a = en.mk(e, 'LIST', args) if as_list else en.mklist(e, args)
    return en.mk(e, 'APPLY', fn=fn, args=a, named=en.mklist(e, [T('tup', en.atom(k), v) for k, v in named]), decl=NONE)


def calls(rep, m):
    if not has(m, 'APPLY', 'BUILTIN'):
        return
    for n in (1, 2, 3):
        for i in range(n):
            for cls in (OPEN if n == 1 else BASIC):
                if cls not in m.classes:
                    continue
                for k in range(5 if n < 3 else 1):
                    s = S()
                    x = s.open(cls)
                    fs = list(s.forms(x))
                    if k >= len(fs):
                        continue
                    args = [fs[k][0] if j == i else en.leaf('a%d' % j) for j in range(n)]
                    node = apply_node(s, en.mk(s.e, 'BUILTIN', atom=en.atom('op'), fn=T('sym', '$op')), args, as_list=k % 2 == 0)
                    rets, raises = ask(rep, s, node)
                    callable_only = lambda st: st.facts.get(T('call', 'callable', T('sym', '$op'))) is not False
                    rets = [(st, r) for st, r in rets if not const(s, st)]
                    raises = [(st, r) for st, r in raises if not const(s, st)]
                    waits(rep, m, s, 'W2', 'built-in function with %d arguments, %s (%d)' % (n, cls + ' ' + fs[k][1], i), node, x, rets, raises, ('call',), raising=cls != 'BUILTIN')
    for n in (0, 1, 2, 3):
        s = S()
        args = [(en.leaf('a0'), C(5), en.mk(s.e, 'LIST', [en.leaf('l')]))[i] for i in range(n)]
        node = apply_node(s, en.mk(s.e, 'BUILTIN', atom=en.atom('op'), fn=T('sym', '$op')), args)
        rets, raises = ask(rep, s, node)
        for st, r in rets:
            if const(s, st):
                continue
            rep.count('paths of calls')
            dc = [ev for ev in st.log if ev[0] == 'dyncall' and ev[1] is T('sym', '$op')]
            rep.check(len(dc) <= 1, 'W2', 'called once', 'a built-in function is called %d times' % len(dc), w(m))
            for ev in dc:
                got = ev[2]
                if len(got) == 1 and got[0].op == 'star':
                    continue
                rep.check(list(got) == args, 'W2', 'arguments', 'a built-in function with %d arguments is called with %s' % (n, [str(a)[:30] for a in got]), w(m))
            if not dc:
                rep.check(r is not node, 'W2', 'reduced', 'a built-in function with %d final arguments is not called' % n, w(m))
                rep.note('a path with %d final arguments does not call the function' % n) if r is not node else None


def const(s, st):
    """the path on which the built-in is a constant"""
    for f, v in st.facts.items():
        if f.op in ('truth', 'call') and 'callable' in str(f)[:40] and v is False:
            return True
    return False


def reduce_(rep, m):
    if not has(m, 'APPLY', 'BUILTIN_SPECIAL', 'BUILTIN'):
        return
    for i in (0, 1):
        for cls in opens(m, BASIC):
            s = S()
            x = s.open(cls)
            rest = [x if j == i else en.leaf('a%d' % j) for j in range(2)]
            fn = en.mk(s.e, 'BUILTIN', atom=en.atom('add'), fn=T('sym', '$add'))
            node = apply_node(s, en.mk(s.e, 'BUILTIN_SPECIAL', atom=en.atom('reduce'), fn=T('sym', '$reduce')), [fn] + rest)
            rets, raises = ask(rep, s, node)
            keep = lambda l: [(st, r) for st, r in l if not const(s, st)]
            waits(rep, m, s, 'W2', '($reduce) with %s (%d)' % (cls, i), node, x, keep(rets), keep(raises), ('call',), raising=False)


def subscripts(rep, m):
    if not has(m, 'APPLY'):
        return
    kinds = [C(0), C(1), C(2)] + [T('new', c, (C(1),), 'scene', c) for c in ('INT', 'FLOAT') if c in m.classes] + [C(1.0)]
    for fn in kinds:
        idx = int((fn.args[1][0] if fn.op == 'new' else fn).args[0])
        for cls in opens(m, BASIC if fn is kinds[1] else BASIC[:3]):
            for n in (1, 2, 3):
                for i in range(n):
                    for k in range(3 if fn is kinds[1] and n == 1 else 1):
                        s = S()
                        x = s.open(cls)
                        fs = list(s.forms(x))
                        args = [fs[k][0] if j == i else en.leaf('a%d' % j) for j in range(n)]
                        node = apply_node(s, fn, args)
                        rets, raises = ask(rep, s, node)
                        what = 'subscript %s of %d values, %s (%d)' % (idx, n, cls + ' ' + fs[k][1], i)
                        for st, r in rets:
                            rep.count('paths with an unreduced operand')
                            rep.check(r is node, 'W3', what, '%s yields %s' % (what, str(r)[:50]), w(m))
                        for st, r in raises:
                            rep.bad('W3', what, '%s raises %s' % (what, r.args[0]), w(m))
        for n in (0, 1, 2, 3):
            for one in (False, True):
                s = S()
                it = [en.leaf('a%d' % j) for j in range(n)]
                args = [en.mk(s.e, 'LIST', it)] if one else it
                if not args:
                    continue
                node = apply_node(s, fn, args)
                rets, raises = ask(rep, s, node)
                want = it[idx] if idx < n else NONE
                what = 'subscript %s of %d values%s' % (idx, n, ' of a list' if one else '')
                for st, r in rets:
                    rep.count('paths of subscripts')
                    rep.check(r is want or r.op not in ('c', 'new', 'list'), 'W3', what, '%s yields %s' % (what, str(r)[:50]), w(m))
                for st, r in raises:
                    rep.bad('W3', what, '%s raises %s' % (what, r.args[0]), w(m))


def formats(rep, m):
    if not has(m, 'APPLY', 'STR'):
        return
    for cls in opens(m, BASIC):
        for npos, names in ((1, ''), (2, ''), (0, 'a'), (0, 'ab'), (2, 'a'), (1, 'ab')):
            for i in range(npos + len(names)):
                for k in range(3 if cls == 'VAR' else 1):
                    s = S()
                    x = s.open(cls)
                    fs = list(s.forms(x))
                    v = [fs[k][0] if j == i else en.leaf('a%d' % j) for j in range(npos + len(names))]
                    fmt = T('new', 'STR', (T('sym', '$format'),), 'scene', 'fmt')
                    node = apply_node(s, fmt, v[:npos], list(zip(names, v[npos:])))
                    rets, raises = ask(rep, s, node)
                    what = 'format string with %d and %s, %s (%d)' % (npos, list(names), cls + ' ' + fs[k][1], i)
                    waits(rep, m, s, 'W4', what, node, x, rets, raises, ('_plain', '_plain_back'))
                    for st, r in rets:
                        if r is node:
                            rep.check(st.heap.get((node, 'fn')) is fmt, 'W4', what + ': text', '%s: the text is changed already' % what, w(m))


# ---------------------------------------------------------------------- texts that are evaluated
def infixes(rep, m):
    ops = ('ast.parse', 'compile', 'eval', 'exec', 'parse')
    if 'INFIX' in m.classes:
        for s, x, v, what in variants(m, BASIC + ['TEXT']):
            node = en.mk(s.e, 'INFIX', ast=v, decl=NONE, input_file=NONE, pos=NONE)
            rets, raises = ask(rep, s, node)
            waits(rep, m, s, 'W5', 'embedded expression, ' + what, node, x, rets, raises, ops)
    if 'INFIX_CLOSURE' in m.classes:
        for cls in opens(m, BASIC + ['BOUND']):
            for n in (1, 2, 3):
                for i in range(n):
                    for k in range(4 if n == 1 else 1):
                        s = S()
                        x = s.open(cls)
                        fs = list(s.forms(x))
                        vals = [fs[k][0] if j == i else en.leaf('a%d' % j) for j in range(n)]
                        env = en.mkenv(s.e, list(zip([en.atom(c) for c in 'xyz'], vals)))
                        node = en.mk(s.e, 'INFIX_CLOSURE', tree=T('sym', '$tree'), env=env, decl=NONE, input_file=NONE, pos=NONE)
                        rets, raises = ask(rep, s, node)
                        waits(rep, m, s, 'W5', 'embedded expression of %d variables, %s (%d)' % (n, cls + ' ' + fs[k][1], i), node, x, rets, raises, ops)


def macros(rep, m):
    ops = ('yuparse', '_plain_back', '_plain')
    if 'EVAL' in m.classes:
        for s, x, v, what in variants(m, BASIC + ['TEXT']):
            node = en.mk(s.e, 'EVAL', ast=v, decl=NONE, call=NONE)
            rets, raises = ask(rep, s, node)
            waits(rep, m, s, 'W6', 'text to evaluate, ' + what, node, x, rets, raises, ops)
    if 'M_CLOSURE' in m.classes:
        for cls in opens(m, BASIC + ['BOUND']):
            for n in (1, 2, 3):
                for i in range(n):
                    for k in range(4 if n == 1 else 1):
                        s = S()
                        x = s.open(cls)
                        fs = list(s.forms(x))
                        vals = [fs[k][0] if j == i else en.leaf('a%d' % j) for j in range(n)]
                        env = en.mkenv(s.e, list(zip([en.atom(c) for c in 'xyz'], vals)))
                        text = en.leaf('text')
                        node = en.mk(s.e, 'M_CLOSURE', l_form=text, env=env, decl=NONE, call=NONE, late=en.mkdict(s.e, []), default=en.mkdict(s.e, []))
                        made = []
                        def stop(e, st, c, args, kw, nd):
                            if c.args[1] == 'EVAL':
                                made.append(st.copy())
                                return []
                        s.e.hooks = dict(s.e.hooks, new=stop)
                        rets, raises = ask(rep, s, node)
                        what = 'macro of %d parameters, %s (%d)' % (n, cls + ' ' + fs[k][1], i)
                        waits(rep, m, s, 'W6', what, node, x, rets, raises, ops)
                        rep.check(not made, 'W6', what + ': evaluated', '%s: the text is evaluated although a parameter is not reduced' % what, w(m))
                        for st, r in rets:
                            if r is node:
                                rep.check(st.heap.get((node, 'l_form')) is text, 'W6', what + ': text', '%s: the text is filled in already' % what, w(m))


# ---------------------------------------------------------------------- conditions
def conditions(rep, m):
    for kind in ('COND', 'COND_CLOSURE'):
        if kind not in m.classes:
            continue
        for s, x, v, what in variants(m, OPEN):
            l1, l0 = en.leaf('yes'), en.leaf('no')
            node = en.mk(s.e, kind, cond=v, leg_1=l1, leg_0=l0)
            rets, raises = ask(rep, s, node)
            what = '%s, %s' % (kind, what)
            for st, r in rets:
                rep.count('paths with an unreduced operand')
                rep.check(r is not l1 and r is not l0, 'W7', what, '%s: a branch is chosen' % what, w(m))
                if r is l1 or r is l0:
                    continue
                got = reach(s.e, st, r)
                rep.check(x in got and l1 in got and l0 in got, 'W10', what, '%s: a part of the condition is lost' % what, w(m))
                ls = (st.heap.get((r, 'leg_1')), st.heap.get((r, 'leg_0')))
                rep.check(None in ls or ls == (l1, l0), 'W7', what + ': order', '%s: the branches of the waiting condition are exchanged' % what, w(m))
            for st, r in raises:
                rep.bad('W10', what, '%s raises %s' % (what, r.args[0]), w(m))
            if kind == 'COND':
                for st, r in rets + raises:
                    for ev in st.log:
                        if ev[0] == 'ycall' and ev[1] == en.EVAL:
                            rep.check(ev[2][0] not in (l1, l0), 'W7', what + ': evaluated', '%s: a branch is evaluated' % what, w(m))
        for c, want in ((C(1), 1), (C(0), 0), (C(7), 1), (C(''), 0), (C('x'), 1), (NONE, 0), (C(0.0), 0), (C(-1), 1), ('LIST', 0), ('LIST1', 1)):
            s = S()
            cond = en.mk(s.e, 'LIST', []) if c == 'LIST' else en.mk(s.e, 'LIST', [C(0)]) if c == 'LIST1' else c
            l1, l0 = en.leaf('yes'), en.leaf('no')
            node = en.mk(s.e, kind, cond=cond, leg_1=l1, leg_0=l0)
            rets, raises = ask(rep, s, node)
            what = '%s %s' % (kind, cond if isinstance(cond, str) else str(cond)[:20])
            for st, r in rets:
                rep.count('paths of conditions')
                rep.check(r is (l1 if want else l0) or r not in (l1, l0, NONE, node), 'W7', what, '%s: the %s branch is chosen' % (what, 'wrong' if r in (l1, l0) else 'no'), w(m))
                for ev in st.log:
                    if ev[0] == 'ycall' and ev[1] == en.EVAL:
                        rep.check(ev[2][0] is not (l0 if want else l1), 'W7', what + ': evaluated', '%s: the branch that is not chosen is evaluated' % what, w(m))


# ---------------------------------------------------------------------- texts and closures
def texts(rep, m):
    if 'T' not in m.classes:
        return
    skip = ('SET', 'ENV', 'EMBED', 'BOUND', 'TEXT', 'LET', 'MACRO')
    for cls in opens(m):
        if cls in skip:
            continue
        for n in (1, 2, 3):
            for i in range(n):
                for k in range(4 if n == 1 or cls == 'VAR' else 1):
                    s = S()
                    x = s.open(cls)
                    fs = list(s.forms(x))
                    parts = [fs[k][0] if j == i else en.leaf('a%d' % j) for j in range(n)]
                    node = en.mk(s.e, 'T', parts, indent=NONE)
                    rets, raises = ask(rep, s, node)
                    what = 'text of %d parts, %s (%d)' % (n, cls + ' ' + fs[k][1], i)
                    for st, r in rets:
                        rep.count('paths with an unreduced operand')
                        got = reach(s.e, st, r)
                        done = r.op in ('c', 'bin') or r.op == 'call' and r.args[0] in ('_plain', '_plain_with_browse', '_plain_back')
                        rep.check(not done, 'W8', what, '%s: it counts as finished' % what, w(m))
                        if not done:
                            rep.check(x in got, 'W10', what, '%s: the part that is not reduced is lost' % what, w(m))
                            for p in parts:
                                rep.check(p in got or p.op == 'new' and p.args[0] == 'COMMENT', 'W10', what + ': parts', '%s: a part is lost' % what, w(m))


def closures(rep, m):
    if 'SET_CLOSURE' in m.classes:
        for s, x, v, what in variants(m, BASIC + ['SET_CLOSURE']):
            env = en.mkenv(s.e, [(en.atom('a'), en.leaf('a'))])
            node = en.mk(s.e, 'SET_CLOSURE', form=v, env=env)
            rets, raises = ask(rep, s, node)
            for st, r in rets:
                rep.count('paths with an unreduced operand')
                rep.check(r is node or env in reach(s.e, st, r), 'W9', 'text after a definition, ' + what, 'a text after a definition (%s) is taken out of its scope before it is reduced' % what, w(m))
                rep.check(x in reach(s.e, st, r), 'W10', 'text after a definition, ' + what, 'a text after a definition (%s): a part is lost' % what, w(m))
    if 'L_CLOSURE' in m.classes:
        for n in (1, 2, 3):
            for i in range(n):
                s = S()
                vals = [s.open('BOUND') if j == i else (en.leaf('a%d' % j), C(0), C(''))[j] for j in range(n)]
                env = en.mkenv(s.e, list(zip([en.atom(c) for c in 'zxy'], vals)))
                form = en.leaf('form')
                node = en.mk(s.e, 'L_CLOSURE', l_form=form, env=env, late=en.mkdict(s.e, []), default=en.mkdict(s.e, []), call=NONE)
                rets, raises = ask(rep, s, node)
                for st, r in rets:
                    rep.count('paths with an unreduced operand')
                    rep.check(r is node or env in reach(s.e, st, r), 'W9', 'function of %d, %d without a value' % (n, i), 'the body of a function is finished although a parameter has no value', w(m))
