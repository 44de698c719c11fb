"""C11 - every translation error says what failed and where."""
import ast
from ..src import Repo, AnalysisError, where
from ..terms import T, C, NONE, isc
from .. import grammar as gr
from .. import evalnode as en

TECHNIQUE = 'abstract interpretation of every way out of the parser and of the evaluator by an exception: the parts of the messages as terms (tag, text, location), followed through the handlers; sample messages of every origin thrown through the handlers'
NOTE = 'The exhaustion of the stack is reported without a location, as the program documents. Whether the location is the most helpful one is not judged.'
ASSUMPTIONS = ['str() of a foreign exception does not raise']
Y = 'pp/yugen.py'
TAGS = ('ps_', 'python', 'yueval')
DEEP = 'maximum recursion depth'
HELPERS = ('_import_source', '_import_python', '_import_eval')
BROKEN = {'creation of an exception': 'an exception of a foreign type is created from a message alone, which not every type allows (e.g. UnicodeDecodeError)',
          'arguments of an exception': 'the arguments of an exception are used although it may have none',
          'argument of an exception': 'the argument of an exception is used as a text although it may be anything'}


def run(rep):
    rep.rule('E1', 'a message of the parser begins with the name of the rule and ends with a location')
    rep.rule('E2', 'a message of the evaluator begins with its tag and ends with a location')
    rep.rule('E3', 'an error that already says where it comes from is passed on as it is, a foreign one gets the tag and the location; no error is swallowed')
    rep.rule('E4', 'an error of an import gets the tag, the text of the error and the location')
    rep.rule('E5', 'building a message does not fail')
    rep.rule('E6', 'the location consists of the file, the line, the text of the line and a pointer to the position; of a macro also of its declaration and its call')
    rep.rule('E7', 'what has been found at some place knows this place')
    rep.rule('E8', 'an error of a step of the translation is not turned into a success')
    m = Repo.get().mod('yugen')
    for f in (parser, evaluator, handlers, imports, location, places, swallowed):
        try:
            f(rep, m)
        except AnalysisError as x:
            rep.note('%s: %s' % (f.__name__, x))


# ---------------------------------------------------------------------- terms of locations
def marks(m):
    """the functions that build tags and locations, as terms"""
    ops = {}

    def loc(e, st, f, a, kw, n):
        return [(st, T('call', '$loc', *a[:2]))]

    def tag(e, st, f, a, kw, n):
        # the function that asks for its name
        if e.callstack:
            fv = e.funcs.get(e.callstack[-1])
            if fv is not None:
                return [(st, T('call', '$callee', C(fv.name)))]
        return None
    for q in m.functions:
        short = q.rpartition('.')[2]
        if short == 'loc' and '.' in q and not q.startswith('RESULT'):
            ops[q] = loc
        if q in ('_loc', '_loc_repr'):
            ops[q] = loc
        if q == 'callee':
            ops[q] = tag
    return ops


def flat(t):
    if t.op == 'bin' and t.args[0] == 'Add':
        return flat(t.args[1]) + flat(t.args[2])
    if t.op == 'bin' and t.args[0] == 'Mod' and isc(t.args[1]) and isinstance(t.args[1].args[0], str) and '%' in t.args[1].args[0]:
        pre, _, post = t.args[1].args[0].partition('%')
        return ([C(pre)] if pre else []) + [t] + ([C('...')] if len(post) > 1 and not post.rstrip().endswith(('%s', '%r')) else [])
    return [t]


def isloc(t):
    return t.op == 'call' and t.args[0] in ('$loc', '.loc')


def located(t):
    """True, False or None (unknown): does the message end with a location?"""
    parts = flat(t)
    while parts and isc(parts[-1]) and isinstance(parts[-1].args[0], str) and not parts[-1].args[0].strip():
        parts.pop()
    if not parts:
        return False
    last = parts[-1]
    if isloc(last):
        return True
    if isc(last):
        return False
    if any(isloc(x) for x in last.deps()):
        return True
    if any(x.op in ('lv', 'phi', 'ret', 'dyncall') for x in last.deps()):
        return None
    if last.op == 'call' and last.args[0] in ('str', 'repr') or last.op in ('exc', 'attr', 'sub', 'bin'):
        return False
    return None


def tagged(t, own):
    """(True/False/None, the tag)"""
    p = flat(t)[0]
    if p.op == 'call' and p.args[0] == '$callee':
        n = p.args[1].args[0]
        return n.startswith(own), n
    if isc(p) and isinstance(p.args[0], str):
        return p.args[0].startswith(TAGS), p.args[0][:20]
    if p.op in ('exc', 'bin') or p.op == 'call' and p.args[0] == 'str':
        return False, 'no tag'
    return None, ''


def unwrap(x):
    while x.op == 'exc' and isinstance(x.args[1], T) and x.args[1].op == 'exc':
        x = x.args[1]
    return x


def mentions(t, x):
    if t is x:
        return True
    if t.op == 'attr' and t.args[1] in ('__class__', '__traceback__'):
        return False
    return any(mentions(a, x) for a in t.args if isinstance(a, T)) or any(mentions(b, x) for a in t.args if isinstance(a, tuple) for b in a if isinstance(b, T))


def text_of(t):
    s = ''.join(str(p.args[0]) for p in flat(t) if isc(p))
    return ' '.join(s.split())[:50]


def broken(rep, x, where_):
    for d in [x] + list(x.deps()):
        if d.op == 'exc' and isinstance(d.args[1], str) and d.args[1] in BROKEN:
            rep.bad('E5', '%s: %s' % (where_[1], d.args[1]), BROKEN[d.args[1]], where_[0])
            return True
    return False


# ---------------------------------------------------------------------- the parser
def parser(rep, m):
    ops = marks(m)
    n = 0
    for q in sorted(gr.rules(m)):
        f = m.functions[q]
        try:
            r = gr.extract(q, extra=ops)
        except AnalysisError as x:
            rep.note('E1 %s: %s' % (q, x))
            continue
        seen = set()
        for st, x in r.raises:
            x = unwrap(x)
            if x.op != 'exc' or x in seen:
                continue
            seen.add(x)
            if isinstance(x.args[1], str):
                continue
            n += 1
            msg(rep, 'E1', x, q, where(f), ('ps_',))
    rep.count('messages of the parser', n)


def msg(rep, rule, x, q, wh, own):
    t = x.args[1]
    name = '%s: %s' % (q, text_of(t) if t is not NONE else x.args[0])
    if t is NONE:
        rep.bad(rule, name, 'the error %s has no message' % x.args[0], wh)
        return
    ok, tag = tagged(t, own)
    end = located(t)
    if ok is False:
        rep.bad(rule, name + ' (tag)', 'the message "%s" begins with %s, which is not a tag of its origin' % (text_of(t), tag or 'nothing'), wh)
    if end is False:
        rep.bad(rule, name + ' (location)', 'the message "%s" does not end with a location' % text_of(t), wh)
    if ok and end:
        rep.ok(rule, name)
    elif ok is None or end is None:
        rep.note('%s %s: the form of the message is not known' % (rule, name))


# ---------------------------------------------------------------------- the evaluator
def thrower(*excs, back=True):
    def h(e, st, f, a, kw, n):
        for x in excs:
            s = st.copy()
            e.emit(s, 'thrown', x)
            e.throw(s, None, None, x)
        if not back:
            return []
        return [(st, T('call', f.args[1] if f.op == 'fn' else 'called', *(tuple(a[:1]) + (e.fresh(st, n, 'called'),))))]
    return h


KNOWN = T('exc', 'SyntaxError', C('ps_form: known'))


def evaluator(rep, m):
    ops = marks(m)
    f = m.functions[en.EVAL]
    n = 0
    for c in en.node_classes():
        o = dict(ops)
        o[en.EVAL] = thrower(KNOWN)
        e = en.engine(opaque=o, budget=1500000)
        e.excmsg = True
        try:
            r = en.turn(e, c)
        except AnalysisError as x:
            rep.note('E2 %s: %s' % (c, x))
            continue
        seen, inner = set(), set()
        for st, x in r.raises:
            y = unwrap(x)
            deep = any(k.op == 'truth' and v and any(isc(d) and isinstance(d.args[0], str) and d.args[0].startswith('maximum recursion') for d in k.deps())
                       for k, v in st.facts.items())
            if (x, y, deep) in seen:
                continue
            seen.add((x, y, deep))
            if broken(rep, x, (where(f), '%s, %s' % (en.EVAL, c))):
                continue
            if y.op != 'exc' or isinstance(y.args[1], str) or y is KNOWN:
                continue
            n += 1
            t = y.args[1]
            if deep and t is not NONE and isc(flat(t)[0]) and str(flat(t)[0].args[0]).startswith(TAGS):
                rep.ok('E2', '%s, stack' % c)
                continue
            msg(rep, 'E2', y, '%s, %s' % (en.EVAL, c), where(f), ('yueval',))
            for d in t.deps() if t is not NONE else ():
                # an error of the evaluator that has been taken for a foreign one
                if d.op == 'exc' and d is not KNOWN and d not in inner and isinstance(d.args[1], T) and d.args[1].op != 'exc':
                    inner.add(d)
                    msg(rep, 'E2', d, '%s, %s' % (en.EVAL, c), where(f), ('yueval',))
    rep.count('messages of the evaluator', n)


# ---------------------------------------------------------------------- the handlers
FOREIGN = [('a text', C('division by zero')), ('a number', C(5)), ('no argument', NONE)]
OWN = [(t, C(t + ': known')) for t in ('ps_form', 'ps_import', 'python', 'yueval')]


def outcome(rep, q, wh, rets, raises, x, own, label):
    name = '%s, error of %s' % (q, label)
    for st, v in rets:
        if any(ev[0] == 'thrown' for ev in st.log):
            rep.bad('E3', name + ' (swallowed)', 'an error raised below %s ends in a result' % q, wh)
            return
    if not raises:
        rep.note('E3 %s: no error reached the handler' % name)
        return
    for st, y in raises:
        if broken(rep, y, (wh, q)):
            return
        if own:
            z = unwrap(y)
            if z is not x:
                if z.op == 'exc' and x in z.deps():
                    rep.bad('E3', name, 'an error that already carries the tag "%s" and a location is given another tag or location' % label, wh)
                elif z.op == 'exc' and isinstance(z.args[1], str):
                    rep.note('E3 %s: %s' % (name, z.args[1]))
                else:
                    rep.bad('E3', name, 'an error that carries the tag "%s" is replaced by another one' % label, wh)
                return
            if y.op == 'exc' and y.args[0] != x.args[0]:
                rep.bad('E3', name + ' (type)', 'an error of the type %s becomes one of the type %s' % (x.args[0], y.args[0]), wh)
                return
        else:
            z = unwrap(y)
            if z is x:
                rep.bad('E3', name, 'a foreign error (%s) is passed on without a tag and a location' % label, wh)
                return
            if z.op == 'exc' and isinstance(z.args[1], T) and z.args[1] is not NONE:
                t = z.args[1]
                if tagged(t, ('ps_', 'yueval'))[0] is False or located(t) is False:
                    rep.bad('E3', name, 'a foreign error (%s) is passed on without a tag and a location' % label, wh)
                    return
                if not mentions(t, x):
                    rep.bad('E3', name + ' (text)', 'the message of a foreign error (%s) is lost' % label, wh)
                    return
    if not own and not any(y.args[0] == x.args[0] for st, y in raises if y.op == 'exc'):
        rep.bad('E3', name + ' (type)', 'the type of a foreign error (%s) is lost' % label, wh)
        return
    rep.ok('E3', name)


def handlers(rep, m):
    ops = marks(m)
    f = m.functions[en.EVAL]
    for label, a in OWN + FOREIGN:
        x = T('exc', 'ZeroDivisionError', a)
        rets, raises = [], []
        for c in ('EMBED', 'LIST'):
            o = dict(ops)
            o[en.EVAL] = thrower(x, back=False)
            e = en.engine(opaque=o, keep={'thrown'}, budget=300000)
            e.excmsg = True
            r = en.turn(e, c)
            rets += r.rets + [(z[0], None) for z in r.nexts]
            raises += [(s, y) for s, y in r.raises if any(ev[0] == 'thrown' for ev in s.log)]
        outcome(rep, en.EVAL, where(f), rets, raises, x, (label, a) in OWN, label)
    f = m.functions.get('yuparse')
    if f is None:
        rep.note('E3: yuparse() was not found')
        return
    for label, a in [o for o in OWN if o[0] != 'yueval'] + FOREIGN:
        x = T('exc', 'ZeroDivisionError', a)
        o = dict(ops)
        for q in gr.rules(m):
            o[q] = thrower(x)
        o['ext:next'] = lambda e, st, f, a, kw, n, x=x: thrower(x, back=False)(e, st, T('sym', 'next'), a, kw, n)
        e = en.engine(opaque=o, keep={'thrown'}, budget=300000)
        e.excmsg = True
        rets, raises = e.analyse('yugen', 'yuparse')
        outcome(rep, 'yuparse', where(f), rets, [(s, y) for s, y in raises if any(ev[0] == 'thrown' for ev in s.log)], x, (label, a) in OWN, label)


# ---------------------------------------------------------------------- imports
def imports(rep, m):
    ops = marks(m)
    for q in HELPERS:
        f = m.functions.get(q)
        if f is None:
            rep.note('E4: %s() was not found' % q)
            continue
        x = T('exc', 'ZeroDivisionError', C('foreign'))
        o = dict(ops)
        for name in ('open', 'io.open', 'codecs.open', 'imp.load_source', 'eval', 'exec', 'importlib.import_module'):
            o['ext:' + name] = lambda e, st, f, a, kw, n, x=x: thrower(x, back=False)(e, st, T('sym', 'x'), a, kw, n)
        e = en.engine(opaque=o, keep={'thrown'}, budget=300000)
        e.excmsg = True
        rets, raises = e.analyse('yugen', q)
        raises = [(s, y) for s, y in raises if any(ev[0] == 'thrown' for ev in s.log)]
        for st, v in rets:
            if any(ev[0] == 'thrown' for ev in st.log):
                rep.bad('E4', q + ' (swallowed)', 'an error of the import ends in a success', where(f))
                break
        if not raises:
            rep.note('E4 %s: no error reached the handler' % q)
        done = False
        for st, y in raises:
            if broken(rep, y, (where(f), q)):
                done = True
                break
            z = unwrap(y)
            if z is x:
                rep.bad('E4', q, 'an error of the import is passed on without a tag and a location', where(f))
                done = True
                break
            t = z.args[1]
            if not isinstance(t, T) or t is NONE:
                continue
            if tagged(t, ('ps_', 'yueval'))[0] is False or located(t) is False or not mentions(t, x):
                rep.bad('E4', q, 'the message of an error of the import lacks the tag, the text of the error or the location', where(f))
                done = True
                break
        if raises and not done:
            rep.ok('E4', q)


# ---------------------------------------------------------------------- the location
def location(rep, m):
    f = m.functions.get('callee')
    if f is not None:
        e = en.engine()
        rets, _ = e.analyse('yugen', 'callee')
        for st, v in rets:
            k = steps(v)
            if k is None:
                rep.note('E6 callee: the form of the name of the caller is not known')
            else:
                rep.check(k == (1, 3), 'E6', 'callee', 'the tag is not the name of the function that asks for it', where(f))
    for q, f in sorted(m.functions.items()):
        if q.rpartition('.')[2] != 'loc' or '.' not in q or q.startswith('RESULT'):
            continue
        ops = {'_loc': lambda e, st, f, a, kw, n: [(st, T('call', '$at', *a[:2]))], '_loc_repr': lambda e, st, f, a, kw, n: [(st, T('call', '$repr', *a[:1]))]}
        e = en.engine(opaque=ops)
        me = T('sym', '$self')
        p = f.args.args[0].arg
        rets, raises = e.analyse('yugen', q, args={p: me})
        good = True
        for st, v in rets:
            if v.op == 'call' and v.args[0] == '$at':
                good = v.args[1:] == (T('attr', me, 'input_file'), T('attr', me, 'pos'))
                if not good and not all(isc(a) or me in a.deps() for a in v.args[1:]):
                    good = None
            elif v.op == 'call' and v.args[0] == '$repr':
                good = v.args[1] is me
                if st.facts.get(T('truth', T('attr', me, 'input_file'))) is True:
                    good = False
            elif v.op == 'call' and v.args[0] == '.loc':
                good = me in v.args[1].deps()
            elif isc(v):
                good = False
            else:
                good = None
            if not good:
                break
        if not rets:
            good = None
        if good and q.split('.')[0] in ('SOURCE', 'BASE_OBJECT_LOCATED') and not any(v.op == 'call' and v.args[0] == '$at' for st, v in rets):
            good = False
        if good is None:
            rep.note('E6 %s: the form of the location is not known' % q)
        else:
            rep.check(good, 'E6', q, 'loc() of %s is not the location of the thing itself' % q.split('.')[0], where(f))
    f = m.functions.get('_loc')
    if f is None:
        rep.note('E6: _loc() was not found')
        return
    ps = [a.arg for a in f.args.args]
    F, P = T('sym', '$file'), T('sym', '$pos')
    for digit in (False, True):
        e = en.engine(opaque={'_loc': lambda e, st, f, a, kw, n: [(st, T('call', '$at', *a[:2]))]})
        e.excmsg = True
        rets, raises = e.analyse('yugen', '_loc', args={ps[0]: F, ps[1]: P}, facts={T('truth', T('call', '.isdigit', F)): digit})
        for st, x in raises:
            if x.op == 'exc' and x.args[0] in ('IndexError', 'TypeError', 'UnboundLocalError'):
                rep.bad('E5', '_loc %s' % x.args[1], 'building a location fails: %s' % (x.args[1],), where(f))
        wh = where(f)
        for st, v in rets:
            line(rep, st, v, F, P, digit, wh)
        if digit and rets and not any('inclusion' in repr(d) for st, v in rets for d in v.deps() if d.op == 'call' and d.args[0] == '$at'):
            rep.bad('E6', '_loc(a macro) (call)', 'the location of a place inside a macro does not say where it is used', wh)


def steps(v):
    """name of the caller -> (frame, field)"""
    path = []
    while v.op in ('sub', 'attr'):
        path.append(v.args[1])
        v = v.args[0]
        while v.op == 'slice':
            k = path.pop()
            lo = 0 if v.args[1] is NONE else v.args[1].args[0] if isc(v.args[1]) else None
            if lo is None or not isc(k) or not isinstance(k.args[0], int):
                return None
            path.append(C(lo + k.args[0]))
            v = v.args[0]
    if 'getouterframes' not in repr(v) and 'inspect.stack' not in repr(v):
        return None
    k = [{'function': 3}.get(p) if isinstance(p, str) else p.args[0] if isc(p) else None for p in path][::-1]
    if len(k) == 2 and all(isinstance(x, int) for x in k):
        return tuple(k)
    return None


def lin(t):
    """linear form {atom: coefficient}, constant under None"""
    if isc(t) and isinstance(t.args[0], int):
        return {None: t.args[0]}
    if t.op == 'bin' and t.args[0] in ('Add', 'Sub'):
        a, b = lin(t.args[1]), lin(t.args[2])
        s = 1 if t.args[0] == 'Add' else -1
        for k, v in b.items():
            a[k] = a.get(k, 0) + s * v
        return {k: v for k, v in a.items() if v}
    return {t: 1}


def upto(x, P):
    """is x a beginning of the source that ends with the line of the position? -> (source, end) or None"""
    if x.op != 'slice' or not (x.args[1] is NONE or x.args[1] is C(0)):
        return None
    s, end = x.args[0], x.args[2]
    if end.op == 'call' and end.args[0] == '.find' and len(end.args) == 4 and end.args[1] is s and end.args[2] is C('\n') and end.args[3] is P:
        return s, end
    if end is T('call', 'len', s) or end is NONE:
        return s, T('call', 'len', s)
    if end is P:
        return s, end
    return None


def lines(x, P):
    if x.op == 'call' and x.args[0] in ('.splitlines', '.split') and (x.args[0] == '.splitlines' or len(x.args) == 3 and x.args[2] is C('\n')):
        return upto(x.args[1], P)
    return None


def line(rep, st, v, F, P, digit, wh):
    parts = flat(v)
    heads = [p for p in parts if p.op == 'bin' and p.args[0] == 'Mod' and p.args[2].op == 'tup' and len(p.args[2].args) == 2]
    name = '_loc(%s)' % ('a macro' if digit else 'a file')
    if len(heads) != 1:
        rep.note('E6 %s: the head of the location was not found' % name)
        return
    head = heads[0]
    decl, num = head.args[2].args
    k = lin(num)
    atoms = [a for a in k if a is not None]
    src = None
    if len(atoms) == 1:
        a = atoms[0]
        if a.op == 'call' and a.args[0] == 'len':
            src = lines(a.args[1], P)
            if src is not None:
                if a.args[1].args[0] == '.splitlines':
                    rep.bad('E6', name + ' (line)', 'the lines before the position are counted by splitlines(), which also separates at form feeds and other marks and ignores an empty last line', wh)
                else:
                    rep.check(k == {a: 1}, 'E6', name + ' (line)', 'the number of the line is off by %s' % k.get(None), wh)
            elif a.args[1].op == 'call' and a.args[1].args[0] in ('.split', '.splitlines') and a.args[1].args[1].op == 'slice' and P not in a.args[1].deps() \
                    and not any(f.op == 'eq' and P in f.deps() for f in st.facts):
                rep.bad('E6', name + ' (line)', 'the number of the line does not depend on the position', wh)
            else:
                rep.note('E6 %s: the form of the number of the line is not known' % name)
        elif a.op == 'call' and a.args[0] == '.count' and a.args[2] is C('\n') and len(a.args) == 5 and a.args[3] is C(0):
            rep.check(k == {a: 1, None: 1}, 'E6', name + ' (line)', 'the number of the line is off', wh)
        else:
            rep.note('E6 %s: the form of the number of the line is not known' % name)
    elif not atoms:
        rep.bad('E6', name + ' (line)', 'the number of the line is a constant', wh)
    else:
        rep.note('E6 %s: the form of the number of the line is not known' % name)
    # what the file is called
    if not digit:
        if decl is F:
            d = [f for f, b in st.facts.items() if f.op == 'truth' and b is False and f.args[0].op == 'sub' and F in f.deps()]
            rep.check(bool(d), 'E6', name + ' (file)', 'the imported file is called by another name than the one it has been read from', wh)
        elif decl.op == 'sub' and F in decl.deps():
            rep.ok('E6', name + ' (file)')
        elif isc(decl):
            rep.bad('E6', name + ' (file)', 'the location does not name the file', wh)
    # the line and the pointer
    i = parts.index(head)
    tail = parts[i + 1:]
    shown = [x for x in tail if x.op == 'call' and x.args[0] in ('.lstrip', '.strip') or x.op == 'sub']
    if shown and src:
        ln = shown[0]
        base = ln.args[1] if ln.op == 'call' else ln
        if base.op == 'sub' and lines(base.args[0], P) is not None:
            rep.check(base.args[1] is C(-1), 'E6', name + ' (text of the line)', 'the text that is shown is not the line of the position', wh)
            L = lines(base.args[0], P)
            for x in tail:
                if x.op == 'bin' and x.args[0] == 'Mult':
                    n = x.args[1] if isc(x.args[2]) else x.args[2]
                    kk = lin(n)
                    want = {P: 1, L[1]: -1, T('call', 'len', ln): 1}
                    if set(kk) - {None} <= set(want):
                        if ln.op == 'call' and ln.args[0] == '.strip':
                            continue
                        rep.check(kk == want, 'E6', name + ' (pointer)', 'the pointer does not point to the position', wh)
                    else:
                        rep.note('E6 %s: the form of the pointer is not known' % name)
    if digit:
        pre = parts[:i]
        calls = [x for x in pre if x.op != 'c']
        have = set()
        for x in calls:
            for d in x.deps():
                if d.op == 'attr' and d.args[1] == 'inclusion' or d.op == 'sub' and 'inclusion' in repr(d.args[0])[-12:]:
                    have.add('call')
                if d.op == 'attr' and d.args[1] in ('pos', 'input_file') and 'inclusion' not in repr(d.args[0]):
                    have.add('declaration')
        iscall = [b for f, b in st.facts.items() if f.op == 'truth' and 'inclusion' in repr(f) and f.args[0].op == 'sub']
        rep.check('declaration' in have, 'E6', name + ' (declaration)', 'the location of a place inside a macro does not say where the macro is declared', wh)
        if True in iscall:
            rep.check('call' in have, 'E6', name + ' (call)', 'the location of a place inside a macro does not say where it is used', wh)


# ---------------------------------------------------------------------- places
def ctor(m, e, cls):
    """positions of the file and of the position among the arguments of the class"""
    for c in e.mro(cls):
        for q in (c + '.__new__', c + '.__init__'):
            f = m.functions.get(q)
            if f is not None:
                ps = [a.arg for a in f.args.args][1:]
                return (ps.index('input_file') if 'input_file' in ps else None, ps.index('pos') if 'pos' in ps else None)
    return None, None


def places(rep, m):
    """whatever the parser creates with a place has the file and the position of one text"""
    e0 = en.engine()
    n = 0
    for q in sorted(gr.rules(m)):
        try:
            r = gr.extract(q, extra=marks(m))
        except AnalysisError:
            continue
        f = m.functions[q]
        seen = set()
        for st, rest, v in r.rets:
            for o in v.deps():
                if o.op != 'new' or o.args[:2] in seen or not {'BASE_OBJECT_LOCATED', 'SOURCE'} & set(e0.mro(o.args[0])):
                    continue
                seen.add(o.args[:2])
                cls, args = o.args[0], o.args[1]
                i, j = ctor(m, e0, cls)
                nm = '%s: %s' % (q, cls)
                if not isinstance(args, tuple) or any(a.op == 'kw' for a in args):
                    continue
                if i is not None and j is not None and len(args) > max(i, j):
                    fi, po = args[i], args[j]
                    ok = place(fi, po)
                    n += 1
                    if ok is None:
                        rep.note('E7 %s: the form of the place is not known' % nm)
                    else:
                        rep.check(ok, 'E7', nm, 'a %s is created with the file %s and the position %s' % (cls, short(fi), short(po)), where(f))
                elif i is not None and len(args) <= i and 'SOURCE' not in e0.mro(cls):
                    rep.bad('E7', nm, 'a %s is created without a place' % cls, where(f))
                elif args and cls in ('ATOM', 'REMARK'):
                    n += 1
                    t = args[0]
                    if root(t) is gr.SOU or root(t).op == 'lv':
                        rep.ok('E7', nm)
                    elif t.op == 'call' and t.args[0] in ('str', '.join', '.strip', '.group') and len(args) == 1:
                        rep.bad('E7', nm, 'a %s is made of a text that has lost its place' % cls, where(f))
    rep.count('places of nodes', n)


def short(t):
    return repr(t)[-40:]


def root(t):
    while t.op == 'slice':
        t = t.args[0]
    return t


def place(fi, po):
    if isc(fi) and isc(po):
        return fi is NONE or None
    if isc(po):
        return False
    if fi.op == 'attr' and fi.args[1] == 'input_file':
        k = [a for a in lin(po) if a is not None]
        if any(a.op == 'attr' and a.args[1] == 'pos' for a in k):
            a = [a for a in k if a.op == 'attr' and a.args[1] == 'pos'][0]
            x, y = root(fi.args[0]), root(a.args[0])
            if x is y or {x.op, y.op} <= {'sym', 'lv'}:
                return True
            return None
        return None
    if isc(fi):
        return False if any(a is not None and a.op == 'attr' and a.args[1] == 'pos' for a in lin(po)) else None
    return None


# ---------------------------------------------------------------------- swallowed errors
def ends(body):
    """does every path through the statements end with raise?"""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ('raise_', '_raise', 'reraise'):
            return True
        if isinstance(s, ast.If) and s.orelse and ends(s.body) and ends(s.orelse):
            return True
        if isinstance(s, ast.Try) and ends(s.body) and all(ends(h.body) for h in s.handlers):
            return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
    return False


def swallowed(rep, m):
    rules = set(gr.rules(m))
    n = 0
    for q, f in sorted(m.functions.items()):
        if q.startswith(('trace__', 'echo__')):
            continue
        own = [x for x in ast.walk(f) if isinstance(x, ast.Try)]
        for t in own:
            step = None
            for s in t.body:
                for c in ast.walk(s):
                    if isinstance(c, ast.Call):
                        if isinstance(c.func, ast.Name) and (c.func.id in rules or c.func.id in ('yueval', 'yuparse', 'eval', 'exec', '_import_source', '_import_python', '_import_eval')):
                            step = c
                        elif isinstance(c.func, ast.Attribute) and (c.func.attr == 'load_source' or c.func.attr == 'fn' and isinstance(c.func.value, ast.Attribute)):
                            step = c
            if step is None:
                continue
            for h in t.handlers:
                ty = h.type
                broad = ty is None or any(isinstance(x, ast.Name) and x.id in ('Exception', 'BaseException', 'SyntaxError', 'TypeError', 'EOFError', 'ValueError', 'NameError', 'ZeroDivisionError', 'OSError', 'IOError')
                                          for x in ast.walk(ty))
                if not broad:
                    continue
                n += 1
                # a handler that ends in a result or goes on; a call of a function that raises is followed
                if ends(h.body) or calls_raiser(h.body, m):
                    rep.ok('E8', '%s, handler of %s' % (q, ast.unparse(ty) if ty else 'everything'))
                else:
                    rep.bad('E8', '%s, handler of %s' % (q, ast.unparse(ty) if ty else 'everything'), 'an error of %s() does not leave %s()' % (ast.unparse(step.func), q), where(h))
    rep.count('handlers around steps of the translation', n)


def calls_raiser(body, m):
    for c in [x for s in body for x in ast.walk(s)]:
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in m.functions and ends(m.functions[c.func.id].body):
            return True
    return False
