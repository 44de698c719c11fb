"""C20 - protected spaces and tabs survive, and their markers never leak."""
import ast, re, unicodedata
try:
    from re import _parser as sre, _constants as sc
except ImportError:
    import sre_parse as sre, sre_constants as sc
from ..src import Repo, AnalysisError, where
from ..flow import Engine
from ..wrap import engine, FS, derives
from ..terms import isc, T, C, NONE
from ..guards import call_sites
from .c07 import builtin_functions

TECHNIQUE = 'constant propagation of the markers through the built-in table and the replacement; order of the text passes as a data-flow property of every path; inspection of what the reduction regards as white space'
NOTE = ('The markers are what the built-in table yields for SPACE and TAB. The passes are followed on every path of every function that delivers text. '
        'The markers inside file names (__OUTPUT_FILE__) and in numbers computed from a text (ord, crc32) are outside.')
ASSUMPTIONS = ['str.strip, str.split and \\s treat exactly the characters of str.isspace as white space']
Y = 'yupp.pp.yugen'


def value_of(e, node, mod, args=()):
    """the values a table entry (lambda, name of a function or constant) yields for the given arguments"""
    if isinstance(node, ast.Name) and node.id in mod.functions:
        node = mod.functions[node.id]
    if isinstance(node, (ast.Lambda, ast.FunctionDef)):
        f = e.fn(node, mod.name, (), getattr(node, 'name', '<lambda>'))
        e.curmod_stack = [mod.name]
        ps = [a.arg for a in node.args.args]
        va = node.args.vararg
        if len(args) > len(ps) and va is None:
            return None
        env = dict(zip(ps, args))
        if va is not None:
            env[va.arg] = T('tup', *args[len(ps):])
        rets, raises = e.analyse_fn(f, env)
        return [v for st, v in rets]
    if isinstance(node, ast.Name):
        v = e.globals(mod.name).get(node.id, T('ext', node.id))
        if v is not None and isc(v):
            return [v]
        if v is not None and v.op == 'ext' and args:
            try:
                return [C({'repr': repr, 'ascii': ascii, 'str': str}[v.args[0]](args[0].args[0]))]
            except KeyError:
                return None
    if isinstance(node, ast.Constant):
        return [C(node.value)]
    return None


def text_of(v):
    """constant text of a value, str subclass objects included"""
    if isc(v) and isinstance(v.args[0], str):
        return v.args[0]
    if v.op == 'new' and v.args[1] and isinstance(v.args[1][0], T):
        return text_of(v.args[1][0])
    return None


class Unknown(Exception):
    pass


def apply(t, x, val):
    """constant propagation of the text val for x through the term t"""
    if t is x:
        return val
    if isc(t):
        return t.args[0]
    if t.op == 'call' and t.args[0].startswith('.') and len(t.args) > 1:
        a = [apply(y, x, val) for y in t.args[1:]]
        if isinstance(a[0], str) and hasattr(str, t.args[0][1:]):
            try:
                return getattr(a[0], t.args[0][1:])(*a[1:])
            except Exception:
                raise Unknown(t)
    if t.op == 'call' and t.args[0] == 'str' and len(t.args) == 2:
        return apply(t.args[1], x, val)
    if t.op == 'new' and t.args[1] and isinstance(t.args[1][0], T):
        return apply(t.args[1][0], x, val)
    if t.op == 'bin' and t.args[0] == 'Add':
        a, b = apply(t.args[1], x, val), apply(t.args[2], x, val)
        if isinstance(a, str) and isinstance(b, str):
            return a + b
    raise Unknown(t)


def run(rep):
    rep.rule('P1', 'the markers are two distinct single characters that are not white space, line ends or characters that texts are written with')
    rep.rule('P2', 'the replacement turns every marker of a space into a space and every marker of a tab into a tab and changes nothing else')
    rep.rule('P3', 'on every path that delivers a successful text it has passed the replacement, and the reduction of white space is never applied after it')
    rep.rule('P4', 'nothing that the reduction strips, splits or collapses includes a marker')
    rep.rule('P5', 'no built-in function renders a marker as an escape sequence or prints it')
    repo = Repo.get()
    table = {k: (v, m) for k, v, m in builtin_functions()}
    e = Engine(keep={'print', 'write', 'ext', 'mcall'})
    e.curmod_stack = [Y]
    marks = {}
    for name, real in (('SPACE', ' '), ('TAB', '\t')):
        if name not in table:
            rep.bad('P1', name, 'the built-in %s does not exist' % name, 'pp/yugen.py')
            continue
        n, m = table[name]
        vs = value_of(e, n, m)
        ts = [text_of(v) for v in vs] if vs else [None]
        if None in ts or len(set(ts)) != 1:
            rep.note('the value of %s is not a constant: %s' % (name, vs))
            continue
        marks[name] = ts[0]
        t, w = ts[0], where(n)
        if not rep.check(t != '' and t != real and not any(c.isspace() for c in t), 'P1', name + ' is protected', 'the value of ($%s) is %r, which the reduction treats as white space' % (name, t), w):
            continue
        rep.check(len(t.splitlines()) == 1 and t.strip() == t, 'P1', name + ' is no line end', 'the value of ($%s) is %r, at which lines are split' % (name, t), w)
        cats = [unicodedata.category(c) for c in t]
        rep.check(any(c in ('Cn', 'Co', 'Cc', 'Cs') for c in cats), 'P1', name + ' is no text', 'the value of ($%s) is %r: ordinary text made of these characters is delivered as a white space' % (name, t), w)
        try:
            t.encode('utf8')
        except UnicodeError:
            rep.note('%s cannot be encoded' % name)
    if len(marks) < 2:
        return
    s, t = marks['SPACE'], marks['TAB']
    if s in (' ',) or t in ('\t',):
        return
    rep.check(s != t and s not in t and t not in s, 'P1', 'distinct markers', 'space and tab have one marker: %r, %r' % (s, t), where(table['SPACE'][0]))
    replacement(rep, s, t)
    order(rep)
    reduction(rep, s, t)
    escapes(rep, e, table, s, t)


def replacement(rep, s, t):
    m = Repo.get().mod('yugen')
    if 'replace_steady' not in m.functions:
        rep.note('the replacement of markers was not found')
        return
    f = m.functions['replace_steady']
    p = f.args.args[0].arg
    X = T('sym', p)
    e = Engine(keep=set())
    rets, raises = e.analyse('yugen', 'replace_steady')
    samples = ['', 'ab', s, t, s + s, t + t, 'a' + s + 'b' + t + 'c' + s + t + s + 'd', s * 5 + t * 5, ' a\t b\n' + s + '\n' + t, 'x%sy%s' % (t, s), '\n\n' + t, s + t + '\n\n  ', '\xfe\xff\\ufdd0&#x20;']
    for st, v in rets:
        br = any(a.op == 'isinst' and b and a.args[1] == 'RESULT' for a, b in st.facts.items())
        w = 'with browse information' if br else 'plain text'
        rep.count('paths of the replacement')
        for x in samples:
            try:
                got = apply(v, X, x)
            except Unknown as u:
                r2, _ = e.analyse('yugen', 'replace_steady', args={p: C(x)})
                vals = {text_of(v2) for _, v2 in r2}
                if br or len(vals) != 1 or None in vals:
                    rep.note('replacement, %s: %s is not decided' % (w, u))
                    break
                got = vals.pop()
            want = x.replace(s, ' ').replace(t, '\t')
            rep.check(got == want, 'P2', '%s, %r' % (w, x), 'the replacement (%s) turns %r into %r and not %r' % (w, x, got, want), where(f))
    for st, x in raises:
        rep.bad('P2', 'replacement', 'the replacement raises %s' % x.args[0], where(f))


ENTRIES = ('_pp_file', 'proc_stream', '_pp_text', '_pp_test')


def order(rep):
    """the passes over the text on every path that delivers it"""
    m = Repo.get().mod('yup')
    if 'replace_steady' not in Repo.get().mod('yugen').functions:
        return
    keep = FS | {'print', 'xcall', 'ret', 'mcall'}
    ops = {'shell_backup': lambda e, st, f, args, kw, node: [(st, NONE)]}
    name = '_pp'
    if name in m.functions:
        e = engine(keep, opaque=dict(ops))
        rets, raises = e.analyse('yup', name)
        n = 0
        for st, v in rets:
            if v.op == 'tup' and len(v.args) == 2:
                rep.count('paths of _pp')
                ok, text = v.args
                if not derives(text, 'yueval'):
                    continue
                if isc(ok) and not ok.args[0]:
                    continue
                r = e.truth(ok)
                good = r if isinstance(r, bool) else st.facts.get(r[0])
                if good is not None and not isinstance(r, bool):
                    good = good == r[1]
                if good is False:
                    continue
                n += 1
                passes(rep, text, 'the result of _pp', where(m.functions[name]))
        if n:
            return
        rep.note('_pp was not decided from its own result')
    for name in ENTRIES:
        if name not in m.functions:
            continue
        e = engine(keep, opaque=dict(ops))
        rets, raises = e.analyse('yup', name)
        for st, v in rets:
            for ev in st.log:
                if ev[0] == 'write':
                    for x in ev[1:]:
                        if isinstance(x, T) and derives(x, 'yueval') and not derives(x, 'make_ast_readable'):
                            passes(rep, x, 'what %s writes' % name, where(m.functions[name]))


def passes(rep, text, what, w):
    reps = [d for d in text.deps() if d.op == 'call' and d.args[0] == 'replace_steady']
    rep.check(bool(reps), 'P3', what + ' has passed the replacement', '%s still contains the markers: %s' % (what, text), w)
    late = [d for d in text.deps() if d.op == 'call' and d.args[0] == 'reduce_emptiness' and any(y.op == 'call' and y.args[0] == 'replace_steady' for x in d.args[1:] for y in x.deps())]
    rep.check(not late, 'P3', what + ', order', 'the reduction of white space is applied after the markers are replaced: %s' % text, w)


def closure(m, name):
    res, todo = [], [name]
    while todo:
        q = todo.pop()
        f = m.functions.get(q)
        if f is None or f in res:
            continue
        res.append(f)
        todo += [n.func.id for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)]
    return res


def regex_hits(rx, fl, mark):
    """a class or literal of the pattern takes the marker for white space: it matches the marker but no ordinary letter"""
    res = []

    def walk(p):
        for op, av in p:
            if op in (sc.IN, sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.CATEGORY):
                one = sre.SubPattern(sre.State() if hasattr(sre, 'State') else sre.Pattern(), [(op, av)])
                if hit(op, av, mark) and not (hit(op, av, 'x') or hit(op, av, '\u0416')):
                    res.append(op)
            elif isinstance(av, (list, tuple)):
                for y in av:
                    sub(y)

    def sub(y):
        if isinstance(y, sre.SubPattern):
            walk(y)
        elif isinstance(y, (list, tuple)):
            for z in y:
                sub(z)

    def hit(op, av, c):
        o = ord(c)
        if op is sc.LITERAL:
            return av == o
        if op is sc.NOT_LITERAL:
            return av != o
        if op is sc.ANY:
            return c != '\n'
        if op is sc.RANGE:
            return av[0] <= o <= av[1]
        if op is sc.CATEGORY:
            n = str(av)
            b = c.isspace() if 'SPACE' in n else c.isdigit() if 'DIGIT' in n else (c.isalnum() or c == '_') if 'WORD' in n else False
            return not b if '_NOT_' in n else b
        if op is sc.IN:
            neg = any(a is sc.NEGATE for a, _ in av)
            r = any(hit(a, v, c) for a, v in av if a is not sc.NEGATE)
            return r != neg
        return False
    try:
        walk(sre.parse(rx, fl))
    except (re.error, TypeError):
        return None
    return res


STRIP = {'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'replace', 'partition', 'rpartition', 'removesuffix', 'removeprefix', 'translate'}


def reduction(rep, s, t):
    m = Repo.get().mod('yugen')
    if 'reduce_emptiness' not in m.functions:
        rep.note('the reduction of white space was not found')
        return
    e = Engine(keep=set())
    e.curmod_stack = [m.name]
    g = e.globals(m.name)

    def const(n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name) and n.id in g and isc(g[n.id]):
            return g[n.id].args[0]
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            a, b = const(n.left), const(n.right)
            if isinstance(a, str) and isinstance(b, str):
                return a + b
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            return tuple(const(x) for x in n.elts)
        return None

    for f in closure(m, 'reduce_emptiness'):
        rep.count('functions of the reduction')
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in STRIP:
                vals = [const(a) for a in n.args[:1]]
                for v in vals:
                    if isinstance(v, str):
                        rep.check(s not in v and t not in v, 'P4', '%s in %s' % (n.func.attr, f._qual), 'the reduction treats a marker as white space: %s' % ast.unparse(n)[:80], where(n))
                if not n.args:
                    rep.ok('P4', '%s() in %s' % (n.func.attr, f._qual))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('sub', 'match', 'search', 'split', 'fullmatch', 'compile', 'findall', 'finditer') and n.args:
                v = const(n.args[0])
                pats = [v] if isinstance(v, str) and isinstance(n.func.value, ast.Name) and n.func.value.id == 're' else []
                r = n.func.value
                if isinstance(r, ast.Name) and r.id in g and g[r.id].op == 'call' and g[r.id].args[0] == 're.compile':
                    p = e.pattern(g[r.id])
                    pats += [p.pattern] if p is not None else []
                for p in pats:
                    for mk in (s, t):
                        h = regex_hits(p, 0, mk[0])
                        if h is not None:
                            rep.check(not h, 'P4', 'pattern %r in %s' % (p, f._qual), 'the pattern %r of the reduction takes a marker for white space' % p, where(n))
            if isinstance(n, ast.Compare):
                for c in n.comparators:
                    v = const(c)
                    if v is None and isinstance(c, ast.Name) and c.id in g and g[c.id].op in ('set', 'tup', 'list'):
                        v = str(g[c.id])
                    if isinstance(v, (str, frozenset, tuple)) and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
                        hit = [x for x in (s, t) if x in v or ord(x[0]) in v if not isinstance(v, str)] if not isinstance(v, str) else [x for x in (s, t) if x in v]
                        rep.check(not hit, 'P4', 'comparison in %s' % f._qual, 'the reduction treats a marker as white space: %s' % ast.unparse(n)[:80], where(n))
    rep.need('P4', 1)


def escapes(rep, e, table, s, t):
    arg = 'a' + s + 'b' + t + 'c'
    esc = {x for y in (s, t) for x in (repr(y)[1:-1], ascii(y)[1:-1], y.encode('unicode_escape').decode(), 'x%x' % ord(y[0]), 'u%04x' % ord(y[0]))}
    esc -= {s, t}
    for name, (n, m) in sorted(table.items()):
        try:
            e.steps = 0
            vs = value_of(e, n, m, (C(arg),))
        except AnalysisError:
            vs = None
        if vs is None:
            continue
        rep.count('built-in functions applied to the markers')
        for v in vs:
            x = text_of(v)
            if x is None:
                continue
            bad = [y for y in esc if y.lower() in x.lower()]
            rep.check(not bad, 'P5', name, '($%s ($SPACE)) delivers the marker in an escaped form: %r' % (name, x), where(n))
    # printing
    m = Repo.get().mod('yugen')
    if 'print' in table:
        n, mm = table['print']
        f = e.fn(n, mm.name, (), '<lambda>') if isinstance(n, ast.Lambda) else None
        if f is not None:
            e.curmod_stack = [mm.name]
            va = n.args.vararg
            env = {va.arg: T('tup', C(arg))} if va else {n.args.args[0].arg: C(arg)}
            rets, raises = e.analyse_fn(f, env)
            for st, v in rets:
                for ev in st.log:
                    for x in ev[1:]:
                        for y in (x if isinstance(x, tuple) else (x,)):
                            c = text_of(y) if isinstance(y, T) else None
                            if c is not None and ev[0] in ('print', 'write', 'ext', 'mcall'):
                                rep.check(s not in c and t not in c, 'P5', 'print', 'the built-in print writes the markers to the console: %r' % c, where(n))
    rep.need('P5', 2)
