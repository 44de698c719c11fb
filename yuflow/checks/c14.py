"""C14 - using a value never changes it; only ($emit) updates a variable."""
import ast
from ..src import Repo, AnalysisError, where
from ..flow import Engine
from ..terms import T, C, NONE, isc
from .. import evalnode as en

TECHNIQUE = 'sharing (alias) analysis: every path of one turn of the evaluator for each class of node; values that come out of an environment or of the state of the module are tracked to where they are returned, evaluated or stored, and must pass copy.deepcopy'
NOTE = ('Decided per class of node for arbitrary nodes and environments. The built-in functions written in Python and calls of functions of a script '
        'are taken as not keeping what they are given.')
ASSUMPTIONS = ['copy.deepcopy of the standard library copies everything reachable except what __deepcopy__ methods of the package decide']
ENVS = T('sym', '$env')
READ = {'lookup', 'get', '__getitem__', 'xlocal', 'values', 'items', 'pop', 'setdefault', 'popitem'}
WRITE = {'update_variable', '__setitem__', 'update', 'setdefault', 'pop', 'popitem', 'clear', '__delitem__'}
SHALLOW = {'copy.copy', 'list', 'tuple', 'reversed', 'sorted', 'iter', 'next', '.copy', '.pop', '.get', 'enumerate', 'LIST'}
IMMUTABLE = {'int', 'float', 'str', 'STR', 'INT', 'FLOAT', 'ATOM', 'REMARK', 'BOUND', 'NOT_FOUND', 'bool'}


def envlike(t):
    while t.op == 'attr' and t.args[1] == 'parent':
        t = t.args[0]
    return t is ENVS


def meth(e, st, recv, name, args, kw, node):
    if recv.op == 'cls' or (recv.op == 'ext' and recv.args[0] == 'dict') and args and envlike(args[0]):
        recv, args = args[0], args[1:]
    if envlike(recv):
        e.emit(st, 'env', name, tuple(args), e.site(node))
        if name == 'update_variable':
            return [(st, e.fresh(st, node, 'updated'))]
        if name in ('__contains__', 'unassigned', 'eval_local'):
            return None
        return [(st, T('envval', name, *args))]
    return None


def deepcopy(e, st, name, args, kw, node):
    a = args[0] if args else NONE
    memo = args[1] if len(args) > 1 else kw.get('memo')
    if isc(a):
        return [(st, a)]
    n = sum(ev[0] == 'deep' for ev in st.log)
    it = e.items(st, a) if a.op in ('list', 'tup') else None
    if it is not None and not any(x.op == 'star' for x in it):
        r = T('tup') if a.op == 'tup' else e.obj(st, node, 'list')
        its = [T('deep', x, e.fresh(st, node, 'copy'), n, i) if not isc(x) else x for i, x in enumerate(it)]
        if a.op == 'tup':
            r = T('tup', *its)
        else:
            st.heap[(r, 'items')] = T('tup', *its)
        for x, y in zip(it, its):
            e.emit(st, 'deep', x, memo if memo is not None else NONE, y, e.site(node))
        e.throw(st.copy(), 'Exception', 'copy.deepcopy')
        return [(st, r)]
    r = T('deep', a, e.fresh(st, node, 'copy'), n)
    e.emit(st, 'deep', a, memo if memo is not None else NONE, r, e.site(node))
    s = st.copy()
    e.throw(s, 'Exception', 'copy.deepcopy')
    return [(st, r)]


def carries(t, st=None, seen=None):
    """the terms of an environment that t is or includes, not behind a deep copy"""
    seen = seen if seen is not None else set()
    if t in seen:
        return []
    seen.add(t)
    if t.op == 'envval':
        return [t]
    if t.op in ('sub', 'elem', 'attr', 'slice', 'phi', 'list', 'tup', 'star', 'lv', 'maybe', 'each'):
        res = []
        sub = list(t.args)
        if st is not None and t.op in ('list', 'dict'):
            sub += [v for k, v in st.heap.items() if k[0] is t]
        if t.op == 'attr' and envlike(t.args[0]):
            return []
        if t.op == 'sub':
            sub = sub[:1]
        for a in sub:
            for b in (a if isinstance(a, tuple) else (a,)):
                if isinstance(b, T):
                    res += carries(b, st, seen)
        return res
    if t.op == 'new':
        res = []
        for a in t.args[1]:
            if isinstance(a, T):
                res += carries(a.args[1] if a.op == 'kw' else a, st, seen)
        if st is not None:
            for k, v in list(st.heap.items()):
                if k[0] is t:
                    res += carries(v, st, seen)
        return res
    if t.op == 'call' and (t.args[0] in SHALLOW):
        return [x for a in t.args[1:] if isinstance(a, T) for x in carries(a, st, seen)]
    return []


def value_part(t):
    """what is handed out: the outermost term below shallow copies"""
    return t


def harmless(st, x):
    """the value is one that nothing can change"""
    for a, b in st.facts.items():
        if b and a.op == 'isinst' and a.args[0] is x and a.args[1] in IMMUTABLE:
            return True
        if b and a.op == 'oneof' and a.args[0] is x and all(c in IMMUTABLE for c in a.args[1]):
            return True
        if b and a.op == 'is' and x in a.args and any(y.op == 'cls' and y.args[1] == 'NOT_FOUND' or y is NONE for y in a.args if isinstance(y, T)):
            return True
    return False


def harmless_by(e, st, x, names=IMMUTABLE):
    if harmless(st, x):
        return True
    for a, b in st.facts.items():
        if a.op == 'isinst' and a.args[0] is x and b:
            try:
                if any(e.subclass(str(a.args[1]), n) for n in names):
                    return True
            except Exception:
                pass
    return False


def taken_out(st, env_term, t):
    """t is an element of the variable's list that the same path removes from the list"""
    for ev in st.log:
        if ev[0] == 'delitem' and t.op == 'sub' and ev[1] is t.args[0] and ev[2] is t.args[1]:
            return True
        if ev[0] in ('mutate', 'mcall') and ev[0] == 'mutate' and ev[1] is env_term and ev[2] in ('pop', 'remove', 'clear', 'popleft'):
            return True
        if ev[0] == 'setitem' and ev[1] is env_term:
            return True
    return False


def state_root(e, t, mods):
    """module-level object that the value itself is read from (not copied), or None"""
    seen = 0
    x = t
    while True:
        seen += 1
        if x.op in ('sub', 'attr', 'slice', 'elem'):
            x = x.args[1] if x.op == 'elem' else x.args[0]
        elif x.op == 'call' and x.args[0] in SHALLOW and len(x.args) > 1:
            x = x.args[1]
        else:
            break
    if x is t:
        return None
    if x.op == 'dict' or x.op == 'list':
        return x if x in mods else None
    if x.op in ('fn', 'cls', 'mod'):
        return x
    if x.op == 'sym' and str(x.args[0]).startswith(('global:', 'default@')):
        return x
    return None


def run(rep):
    rep.rule('V1', 'every value of a variable that is returned, evaluated or stored is a deep copy of it, unless nothing can change it or the same path takes it out of the variable')
    rep.rule('V2', 'a variable of an environment is set only by the emit node, with what its modifier yields')
    rep.rule('V3', 'in a loop over a list no function object is evaluated twice, and each copy is made of one that was not evaluated before')
    rep.rule('V4', 'a deep copy shares no value with its original')
    rep.rule('V5', 'a list that comes from a script (a constant or an expression) is copied before it is handed out')
    rep.rule('V6', 'no node that the state of the module keeps is evaluated or returned without a copy')
    m = Repo.get().mod('yugen')
    total = 0
    for cls in sorted(en.node_classes()):
        e = en.engine(opaque={'ext:copy.deepcopy': deepcopy, 'ext:dict.__getitem__': dictget}, hooks={'method': meth}, keep={'env', 'mutate', 'delitem', 'setitem', 'store', 'deep'})
        mods = set(e.modobjs) | {v for v in e.globals(en.Y).values() if isinstance(v, T) and v.op in ('dict', 'list')}
        try:
            t = en.turn(e, cls, env=ENVS)
        except AnalysisError as x:
            rep.note('%s: %s' % (cls, x))
            continue
        n = len(t.rets) + len(t.nexts)
        rep.count('classes of nodes')
        rep.count('paths', n + len(t.raises))
        emit = cls == 'EMIT' or cls in m.classes and 'EMIT' in e.mro(cls)
        reads = 0
        for st, v, kind in [(s, v, 'returned') for s, v in t.rets] + [(s, v, 'evaluated next') for s, v, _ in t.nexts]:
            outs = [(v, kind)]
            updates = [i for i, ev in enumerate(st.log) if ev[0] == 'env' and ev[1] in WRITE]
            for i, ev in enumerate(st.log):
                if ev[0] == 'env' and ev[1] in READ:
                    reads += 1
                if ev[0] == 'ycall' and ev[1] == en.EVAL:
                    later = emit and any(j > i for j in updates)
                    if not later:
                        for a in ev[2][:1]:
                            outs.append((a, 'evaluated'))
                if ev[0] == 'store' and ev[3].op == 'envval':
                    outs.append((ev[3], 'kept in a node'))
            for o, how in outs:
                bad = None
                for x in carries(o, st):
                    direct = o
                    if harmless_by(e, st, x) or harmless_by(e, st, o):
                        continue
                    if taken_out(st, x, o):
                        continue
                    bad = x
                    break
                rep.check(bad is None, 'V1', '%s: %s' % (cls, how), 'the evaluation of a %s node: the value of a variable is %s without a copy (%s)' % (cls, how, str(o)[:80]),
                          where(m.functions[en.EVAL]))
                if bad is None and kind in ('returned', 'evaluated next') and how == kind:
                    r = state_root(e, o, mods)
                    rep.check(r is None or immutable_value(e, st, o) or cls in ('APPLY',) and False, 'V6', '%s: %s' % (cls, how),
                              'the evaluation of a %s node: an object that the module keeps (%s) is %s without a copy' % (cls, str(o)[:80], how), where(m.functions[en.EVAL]))
            for i in updates:
                ev = st.log[i]
                if not emit:
                    rep.bad('V2', cls, 'the evaluation of a %s node changes a variable (%s)' % (cls, ev[1]), ev[3])
            for ev in st.log:
                if ev[0] == 'setitem' and envlike(ev[1]):
                    rep.check(emit, 'V2', cls, 'the evaluation of a %s node changes a variable' % cls, ev[4])
                if ev[0] in ('mutate', 'delitem') and any(x.op == 'envval' for x in (ev[1],)):
                    rep.check(emit, 'V2', '%s: list' % cls, 'the evaluation of a %s node changes the list of a variable' % cls, ev[-1])
                if ev[0] == 'store' and ev[1].op == 'envval' and ev[2] not in ('loc',):
                    rep.bad('V2', '%s: %s' % (cls, ev[2]), 'the evaluation of a %s node sets %s of the value of a variable' % (cls, ev[2]), ev[-1])
            for ev in st.log:
                if ev[0] == 'deep' and ev[2] is not NONE and (ev[2].op in ('fn', 'cls', 'attr') or ev[2] in mods or ev[2].op == 'sym' and ev[2].args[0].startswith(('global:', 'default@'))):
                    rep.bad('V1', '%s: memo' % cls, 'the evaluation of a %s node copies with a memory of former copies: two copies are one object' % cls, ev[4])
            if emit:
                emitted(rep, e, st, v, t.node, updates, m)
        if reads:
            rep.ok('V2', cls)
            rep.count('reads of an environment on a path', reads)
        total += n
    loops(rep, m)
    deepcopies(rep, m)
    scripts(rep, m)


def immutable_value(e, st, o):
    return harmless_by(e, st, o) or o.op == 'c'


def emitted(rep, e, st, v, node, updates, m):
    """an update stores what the modifier yields, under the name of the variable"""
    for i in updates:
        ev = st.log[i]
        if ev[1] != 'update_variable' or len(ev[2]) < 2:
            continue
        val = ev[2][-1]
        ok = val.op == 'call' and val.args[0] == en.EVAL or val.op == 'deep' or any(x.op == 'call' and x.args[0] == en.EVAL for x in val.deps())
        rep.check(ok or val.op not in ('envval', 'sub'), 'V2', 'EMIT: new value', 'the emit node does not store the result of its modifier', ev[3])
        looked = [x[2] for x in st.log if x[0] == 'env' and x[1] == 'lookup']
        if looked and len(looked[0]) == len(ev[2]) - 1:
            rep.check(all(any(a is b for a in looked[0]) for b in ev[2][:-1]), 'V2', 'EMIT: name', 'the emit node updates another variable than the one it yields', ev[3])
    mod = st.facts.get(T('truth', T('attr', node, 'ast')))
    if mod is True and v is not node:
        rep.check(bool(updates) or any(x[0] == 'setitem' and envlike(x[1]) for x in st.log), 'V2', 'EMIT: update', 'the emit node with a modifier leaves the variable as it was', where(m.functions[en.EVAL]))
    if mod is False and updates and v is not node:
        rep.bad('V2', 'EMIT: no modifier', 'the emit node without a modifier sets the variable', where(m.functions[en.EVAL]))


def dictget(e, st, name, args, kw, node):
    return meth(e, st, T('ext', 'dict'), '__getitem__', args, kw, node)


def loops(rep, m):
    """for each: three elements, one or two functions"""
    if 'APPLY' not in m.classes:
        return
    for n in (1, 2):
        loop(rep, m, n)


def loop(rep, m, nfn):
    N = T('new', 'APPLY', (), 'node', 'loop')
    LST, ARGS = T('list', '$foreach', 'x'), T('list', '$functions', 'x')
    xs = [T('sym', '$x%d' % i) for i in range(3)]
    fs = [T('sym', '$f%d' % i) for i in range(nfn)]

    def ev(e, st, f, args, kw, node):
        a = args[0]
        if a is T('attr', N, 'fn'):
            return [(st, LST)]
        if a is T('attr', N, 'args'):
            return [(st, ARGS)]
        v = T('call', en.EVAL, a, e.fresh(st, node, 'val'))
        e.emit(st, 'ycall', en.EVAL, tuple(args), (), e.site(node))
        return [(st, v)]
    heap = {(LST, 'items'): T('tup', *xs), (ARGS, 'items'): T('tup', *fs)}
    e = en.engine(opaque={en.EVAL: ev, 'ext:copy.deepcopy': deepcopy}, keep={'deep'})
    e.modobjs = set(e.modobjs) | {LST, ARGS}
    facts = {T('truth', T('attr', N, 'named')): False}
    try:
        t = en.turn(e, 'APPLY', node=N, env=ENVS, heap=heap, facts=facts)
    except AnalysisError as x:
        rep.note('loop over a list: %s' % x)
        return
    done = 0
    for st, v in t.rets + [(s, n) for s, n, _ in t.nexts]:
        used, src = [], []
        for i, x in enumerate(st.log):
            if x[0] == 'ycall' and x[1] == en.EVAL:
                a = x[2][0]
                if a.op == 'new' and a.args[0] == 'APPLY' and a.args[1]:
                    fn = st.heap.get((a, 'fn'), a.args[1][0])
                    used.append((i, fn, x[4]))
            if x[0] == 'deep':
                src.append((i, x[1], x[4]))
        if not used:
            continue
        done += 1
        for k, (i, fn, s) in enumerate(used):
            rep.check(not any(fn is g for j, g, _ in used[:k]), 'V3', 'one object, one use', 'in a loop over a list one function object is evaluated for two elements: evaluating it for the first changes it', s)
        for i, a, s in src:
            if a in fs or a.op == 'deep':
                rep.check(not any(j < i and g is a for j, g, _ in used), 'V3', 'copies of unused', 'in a loop over a list a copy is made of a function that was already evaluated', s)
        rep.count('paths of a loop over a list')
    if not done:
        rep.note('the loop over a list was not found in the evaluation of APPLY')


def deepcopies(rep, m):
    """__deepcopy__ methods"""
    stored = {n.attr for fn in m.functions.values() for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
              and not (isinstance(n.value, ast.Name) and n.value.id == 'self')}
    for q, fn in sorted(m.functions.items()):
        if not (q.endswith('.__deepcopy__') or q.endswith('.__copy__') and False):
            continue
        cls = q.split('.')[0]
        e = Engine(keep={'setitem', 'mutate', 'store', 'deep', 'mcall'}, opaque={'ext:copy.deepcopy': deepcopy})
        e.curmod_stack = [en.Y]
        e.globals(en.Y)
        ps = [a.arg for a in fn.args.args]
        S = T('sym', ps[0])
        order = T('list', '$order', 'x')
        ks = [T('sym', '$k0'), T('sym', '$k1')]
        env = 'dict' in [b for b in e.mro(cls)]
        def meth2(e, st, recv, name, args, kw, node):
            if recv.op in ('cls', 'ext') and args and args[0] is S:
                recv, args = args[0], args[1:]
            if recv is S:
                if name in ('__getitem__', 'get', 'pop', 'setdefault'):
                    return [(st, T('envval', name, *args[:1]))]
                if name in ('items', 'xlocal'):
                    return [(st, T('tup', *[T('tup', k, T('envval', 'get', k)) for k in ks]))]
                if name in ('values',):
                    return [(st, T('tup', *[T('envval', 'get', k) for k in ks]))]
                if name in ('keys',):
                    return [(st, T('tup', *ks))]
            return None
        e.hooks = {'method': meth2}
        e.opaque['ext:dict.__getitem__'] = lambda e, st, name, args, kw, node: [(st, T('envval', 'get', *args[1:]))] if args and args[0] is S else None
        heap = {(S, 'order'): order, (order, 'items'): T('tup', *ks)}
        e.modobjs = set(e.modobjs) | {order, S}
        try:
            rets, raises = e.analyse('yugen', q, args={ps[0]: S}, heap=heap)
        except AnalysisError as x:
            rep.note('%s: %s' % (q, x))
            continue
        base = {e.base_kind(cls)} if hasattr(e, 'base_kind') else set()
        listy = any(b in ('list', 'dict') for b in e.mro(cls)) or any(set(inits(m, b)) & stored for b in e.mro(cls))
        for st, v in rets:
            rep.count('paths of copy methods')
            if v is S:
                rep.check(not listy, 'V4', q, '%s hands out the original: evaluating one use of a value changes the others' % q, where(fn))
                continue
            shared = shares(v, st, S)
            for ev in st.log:
                if ev[0] == 'setitem':
                    shared += shares(ev[3], st, S)
                elif ev[0] in ('mutate', 'mcall') and isinstance(ev[3], tuple):
                    for a in ev[3]:
                        shared += shares(a, st, S)
            if shared and not listy:
                shared = [x for x in shared if x.op == 'envval']
            rep.check(not shared, 'V4', q, 'a copy made by %s shares %s with the original' % (q, ', '.join(sorted({str(x)[:40] for x in shared}))), where(fn))


def shares(t, st, S, seen=None):
    """values of the original in the copy, not deep copied; keys and the order of keys do not count"""
    seen = seen if seen is not None else set()
    if t in seen:
        return []
    seen.add(t)
    if t.op == 'envval':
        return [t]
    if t.op == 'sub' and t.args[0] is S or t.op == 'elem' and t.args[1] is S:
        return [t]
    if t.op == 'attr' and t.args[0] is S:
        return [t] if t.args[1] not in ('order', 'parent', '__class__') else []
    if t is S:
        return []
    if t.op == 'tup' and len(t.args) == 2 and str(t.args[0]).startswith('$k'):
        return shares(t.args[1], st, S, seen)
    res = []
    if t.op in ('list', 'dict'):
        for k, v in list(st.heap.items()):
            if k[0] is t:
                res += shares(v, st, S, seen)
        return res
    if t.op == 'new' or t.op == 'tup' or t.op in ('star', 'phi', 'maybe', 'kw') or t.op == 'call' and t.args[0] in SHALLOW | {'dict', 'zip'}:
        for a in t.args:
            for b in (a if isinstance(a, tuple) else (a,)):
                if b is S and t.op in ('new', 'call'):
                    res.append(T('elem', '$', S))
                elif isinstance(b, T):
                    res += shares(b, st, S, seen)
        if t.op == 'new':
            for k, v in list(st.heap.items()):
                if k[0] is t:
                    res += shares(v, st, S, seen)
    return res


def inits(m, cls):
    f = m.functions.get(cls + '.__init__')
    if f is None:
        return []
    s = f.args.args[0].arg
    return [n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == s]


def scripts(rep, m):
    """lists made by Python: constants of a script and results of expressions"""
    B = T('new', 'BUILTIN', (), 'node', 'const')
    FN = T('attr', B, 'fn')
    cases = []
    if 'APPLY' in m.classes and 'BUILTIN' in m.classes:
        N = T('new', 'APPLY', (), 'node', 'const')
        def ev(e, st, f, args, kw, node):
            if args[0] is T('attr', N, 'fn'):
                return [(st, B)]
            return en.recorder(en.EVAL)(e, st, f, args, kw, node)
        e = en.engine(opaque={en.EVAL: ev, 'ext:copy.deepcopy': deepcopy}, keep={'deep'})
        facts = {T('truth', T('attr', N, 'named')): False, T('callable', FN): False}
        cases.append((e, 'APPLY', N, lambda v: v is FN, 'constant'))
    if 'INFIX_CLOSURE' in m.classes:
        N2 = T('new', 'INFIX_CLOSURE', (), 'node', 'expr')
        def pyeval(e, st, name, args, kw, node):
            e.throw(st.copy(), '?', 'eval')
            return [(st, T('pyval', e.fresh(st, node, 'eval')))]
        e2 = en.engine(opaque={'ext:copy.deepcopy': deepcopy, 'ext:eval': pyeval}, keep={'deep'})
        cases.append((e2, 'INFIX_CLOSURE', N2, lambda v: v.op == 'pyval', 'expression'))
    for e, cls, N, isval, what in cases:
        try:
            t = en.turn(e, cls, node=N, env=ENVS)
        except AnalysisError as x:
            rep.note('%s: %s' % (what, x))
            continue
        n = 0
        for st, v in t.rets:
            if v.op == 'deep' and isval(v.args[0]):
                n += 1
                rep.ok('V5', what)
            vs = [v] if not (v.op == 'call' and v.args[0] in SHALLOW) else [a for a in v.args[1:] if isinstance(a, T)]
            if v.op == 'new':
                vs = [a for a in v.args[1] if isinstance(a, T)]
            for x in vs:
                if isval(x):
                    n += 1
                    notlist = st.facts.get(T('isinst', x, 'list')) is False or any(b and a.op == 'isinst' and a.args[0] is x and a.args[1] in IMMUTABLE for a, b in st.facts.items())
                    rep.check(notlist and x is v, 'V5', what, 'a list that is the value of a Python %s is handed out itself: ($emit) on a variable with it changes the %s' % (what, what),
                              where(m.functions[en.EVAL]))
        if not n:
            rep.note('the value of a Python %s was not found' % what)
