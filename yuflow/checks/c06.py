"""C06 - a feature that is switched off does nothing (constant propagation of each switch)."""
import ast
from ..src import Repo, where, AnalysisError, enclosing
from ..flow import Engine
from ..wrap import engine, FS, kind_of, args_handler
from ..terms import isc, T, C, NONE, TRUE, FALSE
from ..guards import unreachable, call_sites, attr_leaf, guards, assigned
from .c01 import short, loc
from . import c19

TECHNIQUE = 'constant propagation of each switch through the code that reads it; interprocedural guard (dominance) analysis'
NOTE = ('For each switch the code is analysed with the switch known to be off: the value returned, the events and the reachability of the feature are decided on every path. '
        'Features are found by their effect (console prints, .json writes, comment rules, warning text), so a new place with the same effect is covered too.')
ASSUMPTIONS = ['a RESULT object is created only by the constructor RESULT(...)']
G = 'yupp.pp.yugen'


def gen(opaque=(), **kw):
    op = {n: (lambda e, st, f, args, kw, node, n=n: [(st, T('call', n, *args))]) for n in opaque}
    e = Engine(opaque=op, **kw)
    e.curmod_stack = [G]
    return e, e.globals(G)


def contains(v, names):
    return [t for t in v.deps() if t.op == 'call' and t.args[0] in names]


STRIPPING = {'.strip', '.lstrip', '.rstrip', 'dedent', 'textwrap.dedent', '.splitlines', '.join', '.replace', '.expandtabs'}


def run(rep):
    rep.rule('W1', 'with reduction of empty lines off, that stage returns the very text it was given')
    rep.rule('W2', 'with indent trimming off, rendering a substituted text or a plain text strips nothing')
    rep.rule('W3', 'with browse information off no browse text is created and no .json file is written')
    rep.rule('W4', 'with read-only off no path makes the output read-only')
    rep.rule('W5', 'with unbound-application warnings off none is logged')
    rep.rule('W6', 'with quiet on, neither the greeting nor file lines nor the start-up tests are printed')
    rep.rule('W7', 'comment marks are skipped only in the mode they belong to, and the automatic mode chooses by the output extension')
    w1(rep)
    w2(rep)
    w3(rep)
    w4(rep)
    w5(rep)
    w6(rep)
    w7(rep)


def w1(rep):
    for off in (FALSE, C(0), NONE):
        e, g = gen()
        rets, raises = e.analyse('yugen', 'reduce_emptiness', heap={(g['config'], 'pp_reduce_emptiness'): off})
        arg = T('sym', params('reduce_emptiness')[0])
        rep.count('paths of reduce_emptiness', len(rets) + len(raises))
        for st, v in rets:
            rep.check(v is arg, 'W1', 'reduce_emptiness, switch %s' % off, 'with the reduction off the text is changed: %s is returned' % v, 'pp/yugen.py:%d' % line('reduce_emptiness'))
        for st, x in raises:
            rep.bad('W1', 'reduce_emptiness raises', 'with the reduction off %s can be raised' % x, 'pp/yugen.py:%d' % line('reduce_emptiness'))


def params(q, mod='yugen'):
    return [a.arg for a in Repo.get().func(mod, q).args.args]


def line(q, mod='yugen'):
    return Repo.get().func(mod, q).lineno


def w2(rep):
    for fn in ('_plain', '_plain_with_browse', 'make_ast_readable'):
        if fn not in Repo.get().mod('yugen').functions:
            rep.note('%s not found' % fn)
            continue
        for cls in ('TRIM', 'PLAIN'):
            e, g = gen(('_plain', '_plain_with_browse', 'make_ast_readable'))
            node = T('sym', params(fn)[0])
            rets, raises = e.analyse('yugen', fn, heap={(g['config'], 'pp_trim_app_indent'): FALSE}, facts={T('isinst', node, cls): True})
            rep.count('paths of %s' % fn, len(rets) + len(raises))
            for st, v in rets:
                k = contains(v, STRIPPING)
                sl = [t for t in v.deps() if t.op in ('slice', 'slice3') and any(d is node for d in t.deps())]
                lv = [t for t in v.deps() if t.op == 'lv']        # text made piece by piece in a loop
                rep.check(not k and not sl and not lv, 'W2', '%s of a %s' % (fn, cls), 'with trimming off %s renders a %s as %s' % (fn, cls, v), 'pp/yugen.py:%d' % line(fn))


def isresult_guard(e_or_name, g):
    """test `isinstance(x, RESULT)` (positive)"""
    test, pol = g
    return pol and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'isinstance' and len(c.args) == 2
                       and any(isinstance(n, ast.Name) and n.id == 'RESULT' for n in ast.walk(c.args[1])) for c in ast.walk(test))


def w3(rep):
    repo = Repo.get()
    leaf = attr_leaf('config', 'pp_browse', False)
    mod = repo.mod('yugen')
    inst = 0
    done = set()

    def safe(node, seen=frozenset()):
        """not evaluated with browse off, or only where a RESULT already exists"""
        if unreachable(node, leaf):
            return True
        if any(isresult_guard(None, g) for g in guards(node)):
            return True
        f = enclosing(node, (ast.FunctionDef,))
        if f is None:
            return False
        if f in seen:
            return True
        cls = getattr(f, '_parent', None)
        if isinstance(cls, ast.ClassDef) and cls.name == 'RESULT':
            return True
        refs = [n for n, c in call_sites(f.name) if enclosing(n, (ast.FunctionDef,)) is not f]
        if not refs:
            return True             # never used
        return all(safe(n, seen | {f}) for n in refs)

    for m in (mod, repo.mod('yup')):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('RESULT', '_plain_with_browse'):
                f = enclosing(n, (ast.FunctionDef,))
                q = f._qual if f is not None else '<module>'
                if n.func.id == '_plain_with_browse' and q == '_plain_with_browse':
                    continue
                inst += 1
                rep.check(safe(n), 'W3', '%s in %s' % (n.func.id, q), 'a browse text is created in %s although browse information may be off' % q, where(n))
    rep.count('creations of browse text', inst)
    # the writing side
    for name in ('_pp_file', 'proc_stream'):
        if name not in repo.mod('yup').functions:
            continue
        e, rets, raises = c19.analyse(name, False, True)
        for st, v in list(rets) + list(raises):
            for ev in st.log:
                if ev[0] == 'open' and ev[5] and kind_of(ev[1]) == 'json':
                    good = any((f.op == 'isinst' and f.args[1] == 'RESULT' or f.op == 'truth' and f.args[0].op == 'attr' and f.args[0].args[1] == 'pp_browse') and val for f, val in st.facts.items())
                    rep.check(good, 'W3', '.json written in %s' % name, 'a .json file is written for a text without browse information, on path: ' + short(st.log), loc(ev))
    rep.need('W3', 2)


def w4(rep):
    for name in ('_pp_file', 'proc_stream'):
        if name not in Repo.get().mod('yup').functions:
            continue
        for requested in (False, True):
            e, rets, raises = c19.analyse(name, requested, False)
            rep.count('paths of %s, read-only off' % name, len(rets) + len(raises))
            for st, v in list(rets) + list(raises):
                bad = []
                for i, ev in enumerate(st.log):
                    if ev[0] == 'chmod' and kind_of(ev[1]) in ('main', 'json') and c19.writable(ev[2]) is False:
                        bad.append(ev)
                rep.check(not bad, 'W4', 'mode of the output in %s' % name, 'with read-only off the output is made read-only on path: ' + short(st.log), loc(bad[0]) if bad else '')


def w5(rep):
    repo = Repo.get()
    leaf = attr_leaf('config', 'warn_unbound_application', False)
    n = 0
    for m in (repo.mod('yugen'), repo.mod('yup')):
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'log' \
                    and x.func.attr in ('warn', 'warning', 'info', 'error', 'log') and 'unbound' in texts(x, m).lower():
                n += 1
                f = enclosing(x, (ast.FunctionDef,))
                rep.check(unreachable(x, leaf), 'W5', 'warning in %s' % (f._qual if f else '<module>'), 'the warning of an unbound application is logged although it may be switched off', where(x))
    rep.count('warnings of unbound applications', n)
    if not n:
        rep.note('no warning of an unbound application found')


def texts(call, m):
    """string constants a call's arguments are made of (module-level string constants included)"""
    out = []
    for n in ast.walk(call):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            out.append(n.value)
        elif isinstance(n, ast.Name):
            for s in m.tree.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in s.targets) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                    out.append(s.value.value)
    return ' '.join(out)


def w6(rep):
    yup = Repo.get().mod('yup')
    keep = {'print', 'test'}

    def test(e, st, f, args, kw, node):
        e.emit(st, 'test')
        return [(st, e.fresh(st, node, 'ok'))]

    def configure(e, st, f, args, kw, node):
        sh = e.globals('yupp.pp.yup').get('shell')
        if sh is not None:
            st.heap[(sh, 'quiet')] = TRUE
        return [(st, NONE)]
    jobs = []
    if '_pp_configure' in yup.functions:
        for n in (1, 2):
            e = engine(keep, opaque={'_pp_configure': configure, '_pp_test': test, 'shell_parse_cli_arguments': args_handler([T('sym', 'file%d' % i) for i in range(n)], C(''))}, evfilter=lambda st, ev: ev)
            e.unroll, e.unroll_only = 2, True
            jobs.append(('cli with %d file(s)' % n, e, e.analyse('yup', 'cli')))
    if '_pp_file' in yup.functions:
        e = engine(keep, evfilter=lambda st, ev: ev)
        e.curmod_stack = ['yupp.pp.yup']
        sh = e.globals('yupp.pp.yup').get('shell')
        jobs.append(('_pp_file', e, e.analyse('yup', '_pp_file', heap={(sh, 'quiet'): TRUE} if sh is not None else {})))
    for name, e, (rets, raises) in jobs:
        rep.count('paths of %s, quiet' % name, len(rets) + len(raises))
        for st, v in list(rets) + list(raises):
            for ev in st.log:
                if ev[0] == 'test':
                    rep.bad('W6', 'start-up test in ' + name, 'the start-up test is printed although quiet is on', 'pp/yup.py')
                    continue
                rep.check(quiet_print(ev[1]), 'W6', 'print in ' + name, 'with quiet on %s prints %s' % (name, ', '.join(str(a)[:80] for a in ev[1])), loc(ev))
    rep.need('W6')


def quiet_print(args):
    """a blank line, or the text that was produced"""
    for a in args:
        if isc(a):
            if isinstance(a.args[0], str) and a.args[0].strip():
                return False
            continue
        if any(d.op == 'sym' and (d.args[0] == 'fn' or str(d.args[0]).startswith('file')) for d in a.deps()) and not any(d.op == 'call' and d.args[0] in ('yueval', 'replace_steady', 'make_ast_readable') for d in a.deps()):
            return False
        if any(isc(d) and isinstance(d.args[0], str) and d.args[0].strip() and len(d.args[0]) > 8 for d in a.deps()):
            return False
    return True


def w7(rep):
    repo = Repo.get()
    e, g = gen(('_update_builtin_from_config',))
    names = {'none': 'PP_SKIP_COMMENTS_NONE', 'c': 'PP_SKIP_C_COMMENTS', 'py': 'PP_SKIP_PYTHON_COMMENTS', 'auto': 'PP_SKIP_COMMENTS_AUTO'}
    val = {k: g.get(n) for k, n in names.items()}
    for k in list(val):
        if val[k] is None or not isc(val[k]):
            if k == 'none':
                val[k] = C(0)
            else:
                rep.note('constant %s not found' % names[k])
                return
    ys, cf = g['yushell'], g['config']
    # -- what the mode becomes for a text
    for k in ('none', 'c', 'py', 'auto'):
        rets, raises = e.analyse('yugen', 'yushell', heap={(cf, 'pp_skip_comments'): val[k]})
        rep.count('paths of yushell', len(rets))
        for st, _ in rets:
            got = st.heap.get((ys, 'pp_skip_comments'))
            if got is None:
                rep.note('yushell does not set the comment mode')
                continue
            if k != 'auto':
                if isc(got):
                    rep.check(got is val[k], 'W7', 'mode %s in yushell' % k, 'the configured comment mode %s becomes %s' % (names[k], got), 'pp/yugen.py:%d' % line('yushell'))
                continue
            py = [v for f, v in st.facts.items() if f.op == 'eq' and any(isc(a) and isinstance(a.args[0], str) and a.args[0].lower() in ('.py', 'py') for a in f.args)]
            if not isc(got):
                rep.note('automatic comment mode not decided: %s' % got)
            elif py:
                rep.check(got is val['py' if py[0] else 'c'], 'W7', 'automatic mode, Python output %s' % py[0], 'the automatic mode becomes %s for %s output' % (got, 'a Python' if py[0] else 'another'), 'pp/yugen.py:%d' % line('yushell'))
            else:
                rep.check(got in (val['c'], val['py']), 'W7', 'automatic mode', 'the automatic mode becomes %s' % got, 'pp/yugen.py:%d' % line('yushell'))
    # -- which rule runs in which mode
    m = repo.mod('yugen')

    def is_mode(x):
        if isinstance(x, ast.Attribute):
            return x.attr == 'pp_skip_comments'
        if isinstance(x, ast.Name):
            f = enclosing(x, (ast.FunctionDef, ast.Lambda))
            while f is not None:
                vs = assigned(f, x.id)
                if vs:
                    return all(isinstance(y, ast.Attribute) and y.attr == 'pp_skip_comments' for y in vs)
                if vs is None:
                    return False
                f = enclosing(f, (ast.FunctionDef, ast.Lambda))
        return False

    def leaf_for(mode):
        def leaf(x):
            if isinstance(x, ast.Compare) and len(x.ops) == 1:
                sides = [x.left, x.comparators[0]]
                hit = [s for s in sides if is_mode(s)]
                other = [s for s in sides if s not in hit]
                if hit and other:
                    o = other[0]
                    if isinstance(x.ops[0], (ast.In, ast.NotIn)) and isinstance(o, (ast.Tuple, ast.List, ast.Set)):
                        vals = [cval(y) for y in o.elts]
                        if None in vals:
                            return None
                        r = mode in vals
                        return r if isinstance(x.ops[0], ast.In) else not r
                    c = cval(o)
                    if c is None:
                        return None
                    if isinstance(x.ops[0], (ast.Eq, ast.Is)):
                        return c == mode
                    if isinstance(x.ops[0], (ast.NotEq, ast.IsNot)):
                        return c != mode
            if is_mode(x):
                return bool(mode)
            return None
        return leaf

    def cval(o):
        if isinstance(o, ast.Constant) and isinstance(o.value, int):
            return o.value
        if isinstance(o, ast.Name) and o.id in g and isc(g[o.id]):
            return g[o.id].args[0]
        return None

    def in_text_rule(n, seen=frozenset()):
        f = enclosing(n, (ast.FunctionDef,))
        while f is not None and enclosing(f, (ast.FunctionDef,)) is not None:
            f = enclosing(f, (ast.FunctionDef,))
        if f is None or f in seen:
            return f is not None
        if f.name == 'ps_text':
            return True
        refs = [r for r, c in call_sites(f.name) if enclosing(r, (ast.FunctionDef,)) is not f]
        return bool(refs) and all(in_text_rule(r, seen | {f}) for r in refs)

    for rule_, own in (('ps_remark_c', 'c'), ('ps_remark_python', 'py')):
        refs = [(r, c) for r, c in call_sites(rule_) if in_text_rule(r)]
        if not refs:
            rep.note('%s is not used by the text rule' % rule_)
        for r, c in refs:
            if not c:
                rep.note('%s is used as a value at %s: not decided' % (rule_, where(r)))
                continue
            for k in ('none', 'c', 'py'):
                mode = val[k].args[0]
                off = unreachable(r, leaf_for(mode), top=('ps_text',))
                if k != own:
                    rep.check(off, 'W7', '%s in mode %s' % (rule_, k), '%s is tried in the comment mode %s' % (rule_, names[k]), where(r))
                else:
                    rep.check(not off, 'W7', '%s in its own mode' % rule_, '%s is not tried in its own mode %s' % (rule_, names[k]), where(r))
