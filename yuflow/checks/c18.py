"""C18 - browse information travels with the text and its reader understands it."""
import ast, os
from ..src import Repo, AnalysisError, where, REPO
from ..terms import T, C, NONE, TRUE, FALSE, isc
from .. import evalnode as en

TECHNIQUE = 'dataflow of the browse data (abstract interpretation with symbolic references and offsets) through every function that rebuilds the text, shape analysis of joining and rendering, and a comparison of the written keys with the keys that the editor plug-in reads'
NOTE = ('That the offsets which white-space trimming computes are numerically right is outside (arithmetic over line lengths); '
        'the two ways of rendering are compared apart from white space, which they trim differently by design.')
ASSUMPTIONS = ['the plug-in opens the file it shows and that name with ".json" added']
G = 'pp/yugen.py'
RES = 'RESULT'


def run(rep):
    rep.rule('D1', 'a function that rebuilds a rendered text passes its references on unchanged and its offsets unchanged or merged')
    rep.rule('D2', 'joining two rendered texts yields the references and offsets of both, those of the second moved by what precedes, and leaves the parts as they were')
    rep.rule('D3', 'the json file holds the file list in index order, the references and the offsets under the keys that the plug-in reads, next to the output file')
    rep.rule('D4', 'a source file gets the index under which it is listed, and its first reference does not change the others')
    rep.rule('D5', 'rendering a value yields the same text with browsing on and off, apart from white space')
    rep.rule('D6', 'the text that is saved carries the browse data of the text that was rendered')
    m = Repo.get().mod('yugen')
    if RES not in m.classes:
        rep.note('there is no class ' + RES)
        return
    for f in (carry, join, keys, index, siblings, pipeline):
        try:
            f(rep, m)
        except AnalysisError as x:
            rep.note('%s: %s' % (f.__name__, x))


def w(m, q):
    return where(m.functions[q]) if q in m.functions else G


def sym(n):
    return T('sym', '$' + n)


def result(e, n, browse=None, offset=None):
    t = T('new', RES, (sym('text.' + n),), 'scene', n)
    e.modobjs = set(e.modobjs) | {t}
    return t, {(t, 'browse'): browse if browse is not None else sym('browse.' + n), (t, 'offset'): offset if offset is not None else sym('offset.' + n)}


def init_params():
    m = Repo.get().mod('yugen')
    for c in ('__new__', '__init__'):
        f = m.functions.get(RES + '.' + c)
        if f is not None:
            return [a.arg for a in f.args.args[1:]]
    return ['val', 'browse', 'offset']


def part(e, st, r, k):
    """attribute of a RESULT made by a call of its class"""
    h = st.heap.get((r, k))
    if h is not None:
        return h
    for i, a in enumerate(r.args[1]):
        if a.op == 'kw':
            if a.args[0] == k:
                return a.args[1]
        elif i < len(init_params()) and init_params()[i] == k:
            return a
    return NONE


def is_result(r):
    return r.op == 'new' and r.args[0] == RES


# ---------------------------------------------------------------------- carrying
def carriers(m):
    """functions and methods with one parameter for a text that distinguish or build rendered texts"""
    res = []
    for q, f in m.functions.items():
        if q.startswith(RES + '.') or '.<' in q:
            continue
        names = {n.id for n in ast.walk(f) if isinstance(n, ast.Name)}
        if RES not in names:
            continue
        builds = [n for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == RES]
        ps = [a.arg for a in f.args.args]
        own = [p for p in ps if p not in ('self', 'cls')]
        if builds and len(own) == 1 and any(isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == own[0] and n.attr in ('browse', 'offset', 'splitlines', 'replace')
                                            for n in ast.walk(f)):
            res.append((q, f, own[0]))
    return res


def carry(rep, m):
    cs = carriers(m)
    todo = {q: p for q, f, p in cs}
    for q in ('reduce_emptiness', 'replace_steady', 'TRIM.trim_with_browse'):
        if q in m.functions and q not in todo:
            todo[q] = m.functions[q].args.args[-1].arg
    if not todo:
        rep.note('no function that rebuilds a rendered text was found')
    for q, p in sorted(todo.items()):
        e = en.engine(opaque={'_merge_offset': merge}, keep={'call'})
        e.budget = 400000
        t, h = result(e, 'x')
        args = {p: t}
        f = m.functions[q]
        if '.' in q and f.args.args[0].arg == 'self':
            args['self'] = T('new', q.split('.')[0], (), 'scene', 'self')
        carried(rep, m, e, q, t, h, e.analyse('yugen', q, args=args, heap=h))


def merge(e, st, f, args, kw, node):
    return [(st, T('call', '_merge_offset', *args))]


def carried(rep, m, e, q, t, h, res):
    b, o = h[(t, 'browse')], h[(t, 'offset')]
    rets, raises = res
    if not rets:
        rep.note('%s: no path' % q)
    for st, r in rets:
        rep.count('paths of functions that rebuild a text')
        if r is t:
            rep.check(st.heap.get((t, 'browse')) is b, 'D1', q + ': references', '%s() changes the references of the text' % q, w(m, q))
            rep.check(st.heap.get((t, 'offset')) is o, 'D1', q + ': offsets', '%s() changes the offsets of the text' % q, w(m, q))
            continue
        if not is_result(r):
            rep.check(not (isc(r) or r.op in ('bin', 'call') and t in r.deps() and not known_call(r)), 'D1', q + ': text', '%s() turns a rendered text into a plain one: %s' % (q, str(r)[:60]), w(m, q))
            continue
        br, of = part(e, st, r, 'browse'), part(e, st, r, 'offset')
        rep.check(br is b or b in br.deps() and not isc(br), 'D1', q + ': references', '%s() passes %s on as the references of the text' % (q, short(br)), w(m, q))
        none = st.facts.get(T('truth', o)) is False or st.facts.get(T('truth', T('call', 'len', o))) is False
        used = any(ev[0] == 'call' and any(isinstance(a, T) and o in a.deps() for a in ev[2]) for ev in st.log)
        inside = of.deps() | {x for k, v in st.heap.items() if k[0] is of and isinstance(v, T) for x in v.deps()}
        rep.check(none or o in inside or used, 'D1', q + ': offsets', '%s() drops the offsets of the text: it passes %s on' % (q, short(of)), w(m, q))


def known_call(r):
    return r.op == 'call' and not r.args[0].startswith('.') and r.args[0] not in ('str', 'io.StringIO')


def short(x):
    s = str(x)
    return s if len(s) < 60 else s[:57] + '...'


# ---------------------------------------------------------------------- joining
def linear(t):
    """a sum as {term: times}"""
    if isc(t) and isinstance(t.args[0], int):
        return {1: t.args[0]} if t.args[0] else {}
    if t.op == 'bin' and t.args[0] in ('Add', 'Sub'):
        a, b = linear(t.args[1]), linear(t.args[2])
        for k, n in b.items():
            a[k] = a.get(k, 0) + (n if t.args[0] == 'Add' else -n)
        return {k: n for k, n in a.items() if n}
    if t.op == 'call' and t.args[0] == 'len' and len(t.args) == 2:
        return {('len', flat(t.args[1])): 1}
    return {t: 1}


def flat(t):
    while t.op in ('str',) or t.op == 'call' and t.args[0] == 'str' and len(t.args) == 2 or t.op == 'new' and t.args[1] and t.args[0] in (RES, 'SOURCE'):
        t = t.args[1][0] if t.op == 'new' else t.args[-1]
    return t


def join(rep, m):
    q = RES + '.add_text'
    if q not in m.functions:
        rep.note('%s was not found' % q)
        return
    ps = [a.arg for a in m.functions[q].args.args]
    for na, nb, oa, ob in [(0, 0, 0, 0), (1, 1, 1, 1), (2, 2, 2, 2), (2, 1, 0, 1), (1, 2, 1, 0), (0, 2, 2, 1), (2, 0, 1, 2), (1, 1, 0, 0), (0, 0, 2, 2), (0, 1, 0, 2)]:
        for same in (False, True):
            s = en.scene()
            def refs(n, k, w_):
                return [T('tup', *[sym('%s%d%s' % (n, i, c)) for c in 'psq'[:w_]]) for i in range(k)]
            A, O = refs('a', na, 3), refs('ao', oa, 2)
            B, P = (A, O) if same else (refs('b', nb, 3), refs('bo', ob, 2))
            la, lo = en.mklist(s, A), en.mklist(s, O)
            lb, lp = (la, lo) if same else (en.mklist(s, B), en.mklist(s, P))
            a, h = result(s, 'a', la, lo)
            b = a
            if not same:
                b, h2 = result(s, 'b', lb, lp)
                h.update(h2)
            s.heap0.update(h)
            rets, raises = en.play(s, q, dict(zip(ps, [a, b])))
            what = 'joining texts with %d and %d references, %d and %d offsets' % (na, nb, oa, ob) if not same else 'joining a text with %d references and %d offsets to itself' % (na, oa)
            for st, x in raises:
                rep.bad('D2', what, '%s raises %s' % (what, x.args[0]), w(m, q))
            for st, r in rets:
                rep.count('paths of joins')
                if not same:
                    for l, its, n in ((la, A, 'references of the first'), (lo, O, 'offsets of the first'), (lb, B, 'references of the second'), (lp, P, 'offsets of the second')):
                        got = s.items(st, l)
                        rep.check(got is None or list(got) == its, 'D2', 'parts: ' + n, '%s changes the %s text' % (what, n), w(m, q))
                else:
                    for l, its, n in ((la, A, 'references'), (lo, O, 'offsets')):
                        got = s.items(st, l)
                        rep.check(got is None or list(got) == its, 'D2', 'parts: own ' + n, '%s changes its %s' % (what, n), w(m, q))
                if r is a or r is b and not same:
                    empty = next((v for f, v in st.facts.items() if f.op == 'truth' and (f.args[0] in (b, sym('text.b'), sym('text.a')))), None)
                    rep.check(empty is False or not (B or P) and r is a, 'D2', what, '%s yields one of them only' % what, w(m, q)) if r is a else None
                    continue
                if not is_result(r):
                    rep.note('%s yields %s' % (what, short(r)))
                    continue
                n = {('len', sym('text.a')): 1}
                base = linear(O[-1].args[1]) if O else {}
                want_o = [(linear(x.args[0]), linear(x.args[1])) for x in O] + [(add(linear(x.args[0]), n), add(linear(x.args[1]), base)) for x in P]
                want_b = [(linear(x.args[0]), x.args[1], x.args[2]) for x in A] + [(add(add(linear(x.args[0]), n), base), x.args[1], x.args[2]) for x in B]
                gb, go = s.items(st, part(s, st, r, 'browse')), s.items(st, part(s, st, r, 'offset'))
                if isc(part(s, st, r, 'browse')):
                    gb = ()
                if isc(part(s, st, r, 'offset')):
                    go = ()
                if gb is not None and not any(x.op == 'star' for x in gb):
                    rep.check(triples(gb) == want_b, 'D2', what + ': references', '%s: the references are %s' % (what, short(T('tup', *gb))), w(m, q))
                else:
                    rep.note('%s: the references of the result are not known' % what)
                if go is not None and not any(x.op == 'star' for x in go):
                    rep.check([tuple(linear(y) for y in x.args) if x.op == 'tup' else x for x in go] == want_o, 'D2', what + ': offsets', '%s: the offsets are %s' % (what, short(T('tup', *go))), w(m, q))
                txt = pieces(part(s, st, r, init_params()[0]))
                rep.check(txt == [sym('text.a'), sym('text.a' if same else 'text.b')] or txt is None, 'D2', what + ': text', '%s: the text is %s' % (what, [str(x) for x in txt or ()]), w(m, q))


def triples(it):
    return [(linear(x.args[0]),) + tuple(x.args[1:]) if x.op == 'tup' else x for x in it]


def add(a, b):
    r = dict(a)
    for k, n in b.items():
        r[k] = r.get(k, 0) + n
    return {k: n for k, n in r.items() if n}


def pieces(t, s=None, st=None):
    """parts of a text in order"""
    t = flat(t)
    if t.op == 'call' and t.args[0] == '.join' and len(t.args) == 3 and t.args[1] is C('') and s is not None:
        it = s.items(st, t.args[2])
        if it is None or any(x.op == 'star' for x in it):
            return None
        ps = [pieces(x, s, st) for x in it]
        return None if None in ps else [y for x in ps for y in x]
    if isc(t):
        return [t] if t.args[0] != '' else []
    if t.op == 'bin' and t.args[0] == 'Add':
        a, b = pieces(t.args[1], s, st), pieces(t.args[2], s, st)
        return None if a is None or b is None else a + b
    return [t]


# ---------------------------------------------------------------------- keys
def plugin():
    for root, ds, fs in os.walk(os.path.join(REPO, 'sublime_text')):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(root, f)
                with open(p, encoding='utf8') as h:
                    src = h.read()
                if 'json' in src:
                    try:
                        yield p, ast.parse(src)
                    except SyntaxError:
                        pass


def read_keys(tree):
    """keys of what json.load() yields: X[ f ][ 'key' ] where X[ f ] = json.load( .. )"""
    stores = {s.targets[0].value.id for s in ast.walk(tree) if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'load'
              and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Name)}
    own, keys_ = set(), {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and isinstance(n.value, ast.Subscript) \
                and isinstance(n.value.value, ast.Name) and n.value.value.id in stores:
            if isinstance(n.ctx, ast.Store):
                own.add(n.slice.value)
            else:
                keys_.setdefault(n.slice.value, n.lineno)
    return {k: v for k, v in keys_.items() if k not in own}


def keys(rep, m):
    yup = Repo.get().mod('yup')
    wr = None
    for q, f in yup.functions.items():
        calls = [n for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('dumps', 'dump') and n.args]
        if calls:
            wr = (q, f, calls)
    if wr is None:
        rep.note('the place where the json file is written was not found')
        return
    q, f, calls = wr
    pairs = set()
    for call in calls:
        d = call.args[0]
        if isinstance(d, ast.Name):
            d = next((s.value for s in ast.walk(f) if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == d.id), d)
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'dict':
            items = [(k.arg, k.value) for k in d.keywords]
        elif isinstance(d, ast.Dict):
            items = [(k.value if isinstance(k, ast.Constant) else None, v) for k, v in zip(d.keys, d.values)]
        else:
            rep.note('what is written to the json file is not a literal')
            continue
        written = {k: v for k, v in items}
        for p, tree in plugin():
            for k, line in read_keys(tree).items():
                rep.count('keys that the plug-in reads')
                rep.check(k in written or None in written, 'D3', 'key ' + k, 'the plug-in reads %r, which is not written (%s)' % (k, sorted(map(str, written))), where(call))
        for k, want in (('browse', 'browse'), ('offset', 'offset')):
            v = written.get(k)
            if v is None:
                continue
            attrs = {n.attr for n in ast.walk(v) if isinstance(n, ast.Attribute)}
            rep.check(want in attrs or not attrs & {'browse', 'offset', 'files'}, 'D3', 'value of ' + k, 'the %s of the text are written under %r' % (', '.join(sorted(attrs)), k), where(v))
        v = written.get('files')
        if v is not None:
            files_order(rep, yup, v)
    # the name of the file
    events(rep, m, yup)


def files_order(rep, yup, v):
    """the list is in the order of the indexes: evaluated for a table with three files in any order"""
    import itertools
    for perm in itertools.permutations(range(3)):
        s = en.scene()
        s.curmod_stack = ['yupp.pp.yup']
        d = en.mkdict(s, [(C('f%d' % i), C(n)) for i, n in enumerate(perm)])
        wanted = ['f%d' % perm.index(i) for i in range(3)]
        cls = s.globals('yupp.pp.yup').get(RES) or s.globals(en.Y).get(RES)
        if cls is None:
            return
        try:
            got = listed(s, v, cls, d)
        except AnalysisError:
            got = None
        if got is None:
            rep.note('how the file list is ordered was not understood')
            return
        rep.check(got == wanted, 'D3', 'order of the files', 'the file list is written as %s, the indexes are those of %s' % (got, wanted), where(v))


def listed(s, v, cls, d):
    """sorted( FILES, key = FILES.get ) and its like for a FILES of known contents"""
    table = {k[1][1].args[0]: x.args[0] for k, x in s.heap0.items() if k[0] is d and isinstance(k[1], tuple)}

    def isfiles(n):
        return isinstance(n, ast.Attribute) and n.attr == 'files'

    def ev(n, env):
        if isfiles(n):
            return table
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            return {'sorted': sorted, 'list': list, 'dict': dict, 'len': len, 'range': range, 'reversed': reversed, 'str': str, 'tuple': tuple, 'min': min, 'max': max}[n.id]
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Attribute) and n.attr in ('get', 'items', 'keys', 'values', '__getitem__'):
            return getattr(ev(n.value, env), n.attr)
        if isinstance(n, ast.Call):
            return ev(n.func, env)(*[ev(a, env) for a in n.args], **{k.arg: ev(k.value, env) for k in n.keywords})
        if isinstance(n, ast.Subscript) and not isinstance(n.slice, ast.Slice):
            return ev(n.value, env)[ev(n.slice, env)]
        if isinstance(n, ast.Tuple):
            return tuple(ev(x, env) for x in n.elts)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -ev(n.operand, env)
        if isinstance(n, ast.Lambda):
            ps = [a.arg for a in n.args.args]
            return lambda *a: ev(n.body, dict(env, **dict(zip(ps, a))))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)) and len(n.generators) == 1 and not n.generators[0].ifs:
            g = n.generators[0]
            res = []
            for x in ev(g.iter, env):
                if isinstance(g.target, ast.Name):
                    res.append(ev(n.elt, dict(env, **{g.target.id: x})))
                else:
                    res.append(ev(n.elt, dict(env, **dict(zip([t.id for t in g.target.elts], x)))))
            return res
        raise KeyError(type(n).__name__)
    try:
        r = ev(v, {})
        return list(r)
    except (KeyError, TypeError, AttributeError, ValueError):
        return None


def events(rep, m, yup):
    """on every path that writes the browse data: after the text, under its name with '.json' added"""
    from ..flow import Engine
    names = set()
    for p, tree in plugin():
        for n in ast.walk(tree):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add) and isinstance(n.right, ast.Constant) and isinstance(n.right.value, str) and 'json' in n.right.value:
                names.add(n.right.value)
    for q in ('_pp_stream',):
        f = yup.functions.get(q)
        if f is None:
            rep.note('%s was not found' % q)
            continue
        e = Engine(keep={'ext', 'call', 'open', 'write', 'fcall'}, opaque={'shell_savetofile': saved, 'shell_backup': ignore, '_pp': pp})
        e.curmod_stack = ['yupp.pp.yup']
        e.globals('yupp.pp.yup')
        rets, raises = e.analyse('yup', q)
        for st, r in rets:
            sv = [ev for ev in st.log if ev[0] == 'call' and ev[1] == 'shell_savetofile']
            js = [ev for ev in st.log if ev[0] in ('ext', 'open') and (ev[1] in ('open', 'io.open', 'codecs.open') or ev[0] == 'open') and 'json' in str(ev)]
            if not js:
                continue
            rep.count('paths that write the browse data')
            for ev in js:
                a = ev[2][0] if ev[0] == 'ext' else ev[1]
                ok = None
                for x in sv:
                    fn = x[2][0]
                    for n in names or {'.json'}:
                        if a is T('bin', 'Add', fn, C(n)):
                            ok = True
                if ok is None and sv and a.op == 'bin' and a.args[0] == 'Add' and isc(a.args[2]):
                    ok = False
                rep.check(ok is not False, 'D3', 'name', 'the browse data of %s is written to %s' % (short(sv[-1][2][0]) if sv else '', short(a)), where(f))


def saved(e, st, f, args, kw, node):
    e.emit(st, 'call', 'shell_savetofile', tuple(args), e.site(node))
    return [(st, NONE)]


def ignore(e, st, f, args, kw, node):
    return [(st, NONE)]


def pp(e, st, f, args, kw, node):
    return [(st, T('tup', TRUE, T('new', RES, (sym('text'),), 'scene', 'pp')))]


# ---------------------------------------------------------------------- the table of files
def index(rep, m):
    q = RES + '.loc'
    if q not in m.functions:
        rep.note('%s was not found' % q)
        return
    ps = [a.arg for a in m.functions[q].args.args]
    for known in (0, 1, 2, 3):
        for have in [None] + list(range(known)):
            s = en.scene()
            g = s.globals(en.Y)
            cls, sh = g.get(RES), g.get('yushell')
            table = en.mkdict(s, [(C('f%d' % i), C(i)) for i in range(known)])
            fn = C('f%d' % have) if have is not None else C('new.yu')
            src = en.mkdict(s, [(fn, T('tup', NONE, sym('source')))])
            if cls is None or sh is None:
                rep.note('the table of files was not found')
                return
            s.heap0[(cls, 'files')] = table
            s.heap0[(sh, 'source')] = src
            args = dict(zip(ps, [cls, fn, sym('pos')]))
            rets, raises = en.play(s, q, args)
            want = have if have is not None else known
            for st, r in rets:
                if any(v is True and f.op == 'call' and f.args[0] in ('.isdigit', '.isnumeric', '.isdecimal') for f, v in st.facts.items()):
                    continue
                rep.count('paths of references')
                it = s.items(st, r)
                if it is None or len(it) != 1 or it[0].op != 'tup':
                    rep.note('a reference is %s' % short(r))
                    continue
                ref = it[0].args
                rep.check(len(ref) == 3, 'D4', 'shape', 'a reference has %d parts' % len(ref), w(m, q))
                if len(ref) != 3:
                    continue
                rep.check(not isc(ref[1]) or ref[1] is C(want), 'D4', 'index', 'the %s source file gets the index %s, not %d' % ('known' if have is not None else 'new', ref[1], want), w(m, q))
                rep.check(not isc(ref[0]) or ref[0] is C(0), 'D4', 'position in the text', 'a reference starts at %s in its text' % ref[0], w(m, q))
                rep.check(ref[2] is sym('pos') or not isc(ref[2]), 'D4', 'position in the source', 'the position in the source is %s' % ref[2], w(m, q))
                c = s.contents(st, st.heap.get((cls, 'files'), table))
                if c is not None:
                    got = {k.args[0]: v for k, v in c if isc(k)}
                    wanted = {'f%d' % i: C(i) for i in range(known)}
                    if have is None:
                        wanted['new.yu'] = C(known)
                    rep.check(all(not isc(v) or wanted.get(k) is v for k, v in got.items()) and len(got) == len(wanted), 'D4', 'table', 'after a reference the table of files is %s' % {k: str(v) for k, v in got.items()}, w(m, q))


# ---------------------------------------------------------------------- rendering
def siblings(rep, m):
    if '_plain' not in m.functions or '_plain_with_browse' not in m.functions:
        rep.note('the two ways of rendering were not found')
        return

    def kinds(s):
        e = s
        yield 'nothing', NONE
        for v in ('', 'abc', 0, 12, -1, 1.5):
            yield repr(v), C(v)
        for c in en.node_classes():
            mro = set(e.mro(c))
            if 'str' in mro and c not in ('SOURCE', 'BASE_STR'):
                yield c, T('new', c, (sym('t.' + c),), 'scene', c)
            elif c in ('INT', 'FLOAT'):
                yield c, T('new', c, (sym('n.' + c),), 'scene', c)
        L = lambda *x: en.mk(e, 'LIST', x)
        a, b, c, d = (en.leaf(x) for x in 'abcd')
        yield 'an empty list', L()
        yield 'a list of one', L(a)
        yield 'a list of three', L(a, b, c)
        yield 'a list of a text, a number and nothing', L(a, C(5), NONE, b)
        yield 'nested lists', L(a, L(b, L(c)), L(), d)
        yield 'a text', en.mk(e, 'T', [a, L(b), c], indent=NONE)
        if 'LAZY' in m.classes:
            yield 'a lazy value', en.mk(e, 'LAZY', ast=a)
            yield 'a lazy list', en.mk(e, 'LAZY', ast=L(a, b))
            yield 'a list with a lazy value', L(a, en.mk(e, 'LAZY', ast=b))
        if 'TRIM' in m.classes:
            yield 'a trimmed value', en.mk(e, 'TRIM', ast=L(a, b), indent=C('  '))
            yield 'a list with a trimmed value', L(a, en.mk(e, 'TRIM', ast=b, indent=C('')), c)
    res = {}
    for q in ('_plain', '_plain_with_browse'):
        n = 0
        while True:
            s = scene()
            ks = list(kinds(s))
            if n >= len(ks):
                break
            what, v = ks[n]
            n += 1
            ps = [a.arg for a in m.functions[q].args.args]
            rets, raises = en.play(s, q, {ps[0]: v})
            got = set()
            for st, r in rets:
                rep.count('paths of rendering')
                p = pieces(r, s, st)
                got.add(tuple(x for x in p) if p is not None else None)
            for st, x in raises:
                rep.bad('D5', '%s: %s raises' % (what, q), 'rendering %s by %s() raises %s' % (what, q, x.args[0]), w(m, q))
            res.setdefault(what, {})[q] = got
    for what, d in res.items():
        a, b = d.get('_plain'), d.get('_plain_with_browse')
        if not a or not b or None in a or None in b:
            rep.note('rendering of %s was not understood' % what)
            continue
        a, b = norm(a), norm(b)
        rep.check(a == b, 'D5', what, 'rendering %s yields %s without and %s with browsing' % (what, show(a), show(b)), w(m, '_plain_with_browse'))


def norm(xs):
    return {tuple(unw(x) for x in p) for p in xs}


def unw(x):
    while x.op == 'new' and x.args[0] in (RES, 'SOURCE') and x.args[1] or x.op in ('str',) or x.op == 'call' and x.args[0] == 'str' and len(x.args) == 2:
        x = x.args[1][0] if x.op == 'new' else x.args[-1]
    if isc(x) and not isinstance(x.args[0], str):
        return C(str(x.args[0]))
    return x


def show(xs):
    return ' or '.join('+'.join(short(x) for x in p) or 'nothing' for p in sorted(xs, key=str))[:200]


def scene():
    def trimmed(e, st, f, args, kw, node):
        return [(st, T('call', 'trimmed', args[0]))]

    def located(e, st, f, args, kw, node):
        t = T('new', 'SOURCE', (T('call', 'trimmed', args[0]),), 'trimmed', str(args[0]))
        if 'SOURCE' not in Repo.get().mod('yugen').classes:
            return trimmed(e, st, f, args, kw, node)
        st.heap[(t, 'input_file')], st.heap[(t, 'pos')] = C('f.yu'), sym('pos')
        return [(st, t)]

    def trimtext(e, st, f, args, kw, node):
        return [(st, T('call', 'trimtext', args[0], T('tup', *(pieces(args[1], e, st) or [args[1]]))))]

    def joined(e, st, f, args, kw, node):
        t = T('new', RES, (T('bin', 'Add', text(args[0]), text(args[1])),), 'joined', str(args[0]) + str(args[1]))
        return [(st, t)]

    def text(x):
        return x.args[1][0] if is_result(x) and x.args[1] else x

    def loc(e, st, f, args, kw, node):
        return [(st, sym('loc'))]
    s = en.scene(opaque={'PLAIN.get_trimmed': trimmed, 'PLAIN.get_trimmed_with_browse': located, 'TRIM.trim': trimtext, 'TRIM.trim_with_browse': trimtext,
                         RES + '.add_text': joined, RES + '.loc': loc})
    for k in ('_plain', '_plain_with_browse'):
        s.opaque.pop(k, None)
    s.recursive = dict(s.recursive, _plain=6, _plain_with_browse=6)
    return s


# ---------------------------------------------------------------------- the way to the output
def pipeline(rep, m):
    for mod, q in (('yup', '_pp'),):
        f = Repo.get().mod(mod).functions.get(q)
        if f is None:
            rep.note('%s was not found' % q)
            continue
        from ..flow import Engine
        t = T('new', RES, (sym('text.x'),), 'scene', 'x')

        def evaluated(e, st, fn, args, kw, node):
            return [(st, t)]
        ops = {'yueval': evaluated, 'yuparse': lambda e, st, fn, a, k, n: [(st, sym('ast'))], 'make_ast_readable': lambda e, st, fn, a, k, n: [(st, sym('readable'))]}

        def step(name):
            def h(e, st, fn, args, kw, node):
                if args and t in args[0].deps():
                    return [(st, T('new', RES, (T('call', name, args[0]),), 'step', name))]
                return None
            return h
        for c, _, _ in carriers(m):
            ops.setdefault(c, step(c))
        e = Engine(keep={'call'}, opaque=ops)
        h = {(t, 'browse'): sym('browse.x'), (t, 'offset'): sym('offset.x')}
        e.modobjs = set(e.modobjs) | {t}
        rets, raises = e.analyse(mod, q, heap=h)
        for st, r in rets:
            if r.op != 'tup' or len(r.args) != 2 or r.args[0] is FALSE or failed(e, st, r.args[0]):
                continue
            rep.count('paths from the evaluation to the output')
            v = r.args[1]
            rep.check(is_result(v) or t not in v.deps() or v.op not in ('call', 'bin', 'slice', 'str'), 'D6', q, 'the text that is saved, %s, does not carry the browse data of the rendered text' % short(v), where(f))


def failed(e, st, v):
    d = e.truth(v)
    if not isinstance(d, bool):
        x = e.decide(d[0], st)
        d = None if x is None else x == d[1]
    return d is False
