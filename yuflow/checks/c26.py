"""C26 - documented built-in functions compute what the reference says."""
import ast, importlib, math, operator, re, string, zlib
from ..src import Repo, AnalysisError, where
from ..terms import T, C, NONE, isc
from ..flow import St
from .. import evalnode as en
from .. import termval
from . import c15

TECHNIQUE = 'symbolic summaries of the built-in functions (abstract interpretation with symbolic arguments) compared with summaries of the documented expressions; a difference is reported only with constants for which the two summaries have different values'
NOTE = ('Equal summaries hold for all arguments; where the summaries differ in form and no refuting constants are known, the evidence says so. Functions taken from the modules operator, math and string are identified, '
        'what they compute is left to Python. Not covered: print, lazy, skip, reduce, isatom, __TITLE__, and quoted strings as arguments except of unq and strlen.')
ASSUMPTIONS = ['the functions of the modules operator, math, string and zlib compute what the Python reference says']
G = 'pp/yugen.py'

SHIFTED = ''.join(chr((i + 1) % 256) for i in range(256))
L5, L0, TXT = [3, 1, 2, 1, 5], [], 'some text'
#   name: [(documented form for so many arguments, constants that tell forms apart)]
FORMS = {
    '__FILE__': [("lambda: '\"' + yushell.input_file + '\"'", [()])],
    '__OUTPUT_FILE__': [("lambda: '\"' + yushell.output_file + '\"'", [()])],
    '__MODULE_NAME__': [("lambda: ATOM(yushell.module)", [()])],
    'car': [("lambda l: l[:1]", [(L5,), ([7],), (L0,)])],
    'cdr': [("lambda l: l[1:]", [(L5,), ([7],), (L0,)])],
    'chr': [("chr", [(65,), (233,)])],
    'cmp': [("lambda x, y: (x > y) - (x < y)", [(1, 2), (2, 1), (2, 2), (-1, -2), ('a', 'b'), (1.5, 1)])],
    'crc32': [("lambda val: (zlib.crc32(bytes(val, 'utf8')) & 0xffffffff)", [('ab',), ('',), ('\u00e9',), ('yupp',)])],
    'dec': [("lambda val: val - 1", [(1,), (0,), (-3,), (2.5,)])],
    'inc': [("lambda val: val + 1", [(1,), (0,), (-3,), (2.5,)])],
    'getslice': [("lambda l, a: l[a:]", [(L5, 1), (L5, 0), (TXT, 5), (L5, -2), (L5, '')]),
                 ("lambda l, a, b: l[a:b]", [(L5, 1, 3), (L5, 0, -1), (TXT, 2, 6), (L5, '', 2), (L5, 2, '')]),
                 ("lambda l, a, b, c: l[a:b:c]", [(L5, 1, 4, 2), (L5, '', '', -1), (TXT, 0, 8, 3), (L5, 4, '', -1)])],
    'hex': [("hex", [(255,), (0,), (-1,)])],
    'oct': [("oct", [(8,), (0,)])],
    'index': [("lambda l, val: l.index(val) if val in l else -1", [(L5, 1), (L5, 5), (L5, 9), (L0, 1), (L5, 3)])],
    'rindex': [("lambda l, val: (len(l) - 1) - l[::-1].index(val) if val in l else -1", [(L5, 1), (L5, 5), (L5, 9), (L0, 1), (L5, 3)])],
    'isdigit': [("lambda val: str(val).isdigit()", [('12',), ('',), ('1a',), (12,), (-1,)])],
    'islist': [("lambda l: isinstance(l, list)", [(L5,), (L0,), ('a',), (1,)])],
    'len': [("len", [(L5,), (L0,), (TXT,)])],
    'list': [("lambda *l: LIST(l)", [(), (1,), (1, 2, 3), (2, 0, '')])],
    'int_': [("int", [('12',), (2.7,)]), ("int", [('12', 8), ('ff', 16)])],
    'ord': [("lambda val: ord(str(val))", [('a',), ('\u00e9',), (7,)])],
    'range': [("lambda *l: LIST(list(range(*l)))", [(3,), (0,), (2, 5), (1, 9, 3), (5, 1, -2)])],
    'reversed': [("lambda val: val[::-1]", [(L5,), (L0,), (TXT,)])],
    're-split': [("lambda regex, val: LIST([x for x in re.split(regex, val) if x is not None])", [(',', 'a,b,,c'), ('(a)|b', 'xbyaz'), (',', '')])],
    'round': [("round", [(2.567,), (2.567, 2)])],
    'SPACE': [("lambda: STEADY_SPACE", [()])],
    'TAB': [("lambda: STEADY_TAB", [()])],
    'str': [("str", [(1,), ('a',), (2.5,)])],
    'strlen': [("lambda val: len(str(val))", [('abc',), ('',), (120,), (' a ',)])],
    'sum': [("sum", [(L5,), (L0,), (L5, 10)])],
    'unique': [("lambda l: LIST(dict.fromkeys(l))", [(L5,), (L0,), ([1, 2, 1, 2, 3],), (['b', 'a', 'b'],)])],
    'q': [("lambda s: '\"' + s + '\"'", [('abc',), ('',), ('a b',)])],
    'qs': [("lambda s: \"'\" + s + \"'\"", [('abc',), ('',), ('a b',)])],
    'unq': [("lambda s: s[1:-1]", [('"abc"',), ("'a b'",), ('""',)])],
    #   functions of Python 2 strings
    'lower': [("lambda s: s.lower()", [('aBc',)])],
    'upper': [("lambda s: s.upper()", [('aBc',)])],
    'swapcase': [("lambda s: s.swapcase()", [('aBc',)])],
    'capitalize': [("lambda s: s.capitalize()", [('aBc d',)])],
    'capwords': [("string.capwords", [('ab cd',)])],
    'strip': [("lambda s: s.strip()", [(' a ',), ('\ta\n',)])],
    'lstrip': [("lambda s: s.lstrip()", [(' a ',)])],
    'rstrip': [("lambda s: s.rstrip()", [(' a ',)])],
    'split': [("lambda s: s.split()", [(' a b  c',)]), ("lambda s, sep: s.split(sep)", [('a,b,,c', ',')]), ("lambda s, sep, n: s.split(sep, n)", [('a,b,c,d', ',', 2)])],
    'join': [("lambda words: ' '.join(words)", [(['a', 'b'],), ([],)]), ("lambda words, sep: sep.join(words)", [(['a', 'b', 'c'], ', ')])],
    'count': [("lambda s, x: s.count(x)", [('abcab', 'ab'), ('abc', 'z')]), ("lambda s, x, a: s.count(x, a)", [('abcab', 'ab', 1)]), ("lambda s, x, a, b: s.count(x, a, b)", [('aaaaaa', 'a', 1, 4)])],
    'find': [("lambda s, x: s.find(x)", [('abcab', 'ab'), ('abc', 'z'), ('xabab', 'ab')]), ("lambda s, x, a: s.find(x, a)", [('abcab', 'ab', 1)]), ("lambda s, x, a, b: s.find(x, a, b)", [('aaabaab', 'b', 4, 6)])],
    'rfind': [("lambda s, x: s.rfind(x)", [('abcab', 'ab'), ('abc', 'z'), ('xabab', 'ab')]), ("lambda s, x, a: s.rfind(x, a)", [('abcab', 'ab', 1)]), ("lambda s, x, a, b: s.rfind(x, a, b)", [('aaabaab', 'b', 0, 6)])],
    'atof': [("lambda s: float(s)", [('1.5',)])],
    'atoi': [("lambda s: int(s)", [('12',)]), ("lambda s, b: int(s, b)", [('ff', 16)])],
    'atol': [("lambda s: int(s)", [('12',)]), ("lambda s, b: int(s, b)", [('ff', 16)])],
    'ljust': [("lambda s, w: s.ljust(w)", [('ab', 5)])],
    'rjust': [("lambda s, w: s.rjust(w)", [('ab', 5)])],
    'center': [("lambda s, w: s.center(w)", [('ab', 6), ('ab', 5)])],
    'zfill': [("lambda s, w: s.zfill(w)", [('-12', 5), ('7', 3)])],
    'expandtabs': [("lambda s, n: s.expandtabs(n)", [('a\tb', 4)])],
    'replace': [("lambda s, a, b: s.replace(a, b)", [('aXbXc', 'X', '-'), ('aaaa', 'a', 'b')]), ("lambda s, a, b, n: s.replace(a, b, n)", [('aaaa', 'a', 'b', 2)])],
    'maketrans': [("lambda x, y: ''.join(map(chr, range(256))).translate(str.maketrans(str(x), str(y)))", [('ab', 'xy'), ('', '')])],
    'translate': [("lambda s, table: s.translate(table)", [('abc', SHIFTED)]), ("lambda s, table, gone: ''.join(x for x in s if x not in gone).translate(table)", [('abcab', SHIFTED, 'b'), ('abc', SHIFTED, '')])],
    'repr': [("repr", [(12,), ('ab',)])],
    'repeat': [("lambda seq, i: seq * i", [('ab', 2), ([1, 2], 2), ('ab', 0)])],
}
NUMS = [(7, 2), (2, 7), (-7, 2), (6, 3), (5, 5), (0, 1)]
SIMPLE = {'div': 'truediv', 'and': 'and_', 'or': 'or_', 'not': 'not_'}
SEQS = {'concat': [('ab', 'cd'), ([1], [2])], 'contains': [([1, 2], 2), ('ab', 'z')], 'getitem': [([5, 6], 1), ('abc', 0)], 'is_': [(1, None), (None, None)], 'is_not': [(1, None), (None, None)]}
UNARY = ('invert', 'neg', 'pos', 'not', 'truth', 'index', 'abs')
BITS = [(6, 3), (1, 4), (-1, 5)]
SHARED = {'pow': ('math', 'operator')}
SKIP = {'ceil', 'floor', 'log', 'modf', 'fsum', 'factorial', 'lgamma', 'gamma'}    # named by the reference in terms of another version


def run(rep):
    rep.rule('M1', 'a function or constant documented as taken from a Python module is the one of that name')
    rep.rule('M2', 'a documented function computes the documented expression for all arguments')
    m, tabs = c15.tables(rep, Repo.get())
    text = Repo.get().text('doc/builtin.md')
    names, section = {}, None
    for line in text.splitlines():
        h = re.search(r'\*\*(.*)\*\*', line)
        if h:
            mod = re.search(r'`(\w+)` module', line)
            section = mod.group(1) if mod else None
        for u in c15.ROW.findall(line.split('|')[0]) if '|' in line else ():
            names.setdefault(u.strip().split()[0], []).append(section)
    k = Built(m, tabs)
    for name in sorted(names):
        v = k.entry(name)
        if v is None:
            continue
        rep.count('documented names')
        try:
            if name in FORMS:
                for src, wits in FORMS[name]:
                    compare(rep, m, k, name, src, wits, v)
            else:
                for s in dict.fromkeys(names[name]):
                    if s and name not in SKIP:
                        module_name(rep, m, k, name, s, v, names[name])
        except AnalysisError as x:
            rep.note('%s: %s' % (name, x))


class Built:
    """the table of built-in functions and an engine to call them"""
    def __init__(self, m, tabs):
        self.m, self.tabs = m, tabs
        f = next(iter(m.functions.values()))
        self.mod = f._modname
        pure = {}
        for n in ('zlib.crc32', 'ast.literal_eval', 'codecs.unicode_escape_decode', 'codecs.unicode_escape_encode', 'codecs.encode', 'codecs.decode', 'str.maketrans', 'binascii.crc32', 'dict.fromkeys'):
            pure['ext:' + n] = lambda e, st, f, a, kw, nd, n=n: [(st, T('call', n, *a))] if not kw else None
        self.e = en.engine(opaque=pure)
        self.e.budget = 40000
        self.e.unroll = 8
        inner = self.e.hooks.get('method')

        def method(e, st, recv, meth, args, kw, node):
            if meth in ('decode', 'encode') and not kw:
                return [(st, T('call', '.' + meth, recv, *args))]
            return inner(e, st, recv, meth, args, kw, node) if inner else None
        self.e.hooks['method'] = method
        plain_emit = self.e.emit

        def emit(st, kind, *data):
            if kind in ('mutate', 'setitem', 'store') and data and isinstance(data[0], T) and data[0].op == 'new':
                self.changed = True       # what an instance holds after that is not followed
            return plain_emit(st, kind, *data)
        self.e.emit = emit
        self.changed = False

    def entry(self, name):
        return next((t.d[name] for t in self.tabs if name in t.d), None)

    def callee(self, v, what):
        """the term of a table entry; None: unknown"""
        if isinstance(v, (ast.Lambda, ast.FunctionDef)):
            return self.e.fn(v, self.mod, (), getattr(v, 'name', '<lambda>'))
        if isinstance(v, tuple):
            return T('ext', '%s.%s' % (v[1], v[2]))
        if isinstance(v, (ast.Name, ast.Attribute)):
            self.e.curmod_stack = [self.mod]
            r = self.e.ev(v, St(env=dict(self.e.globals(self.mod))))
            return r[0][1] if len(r) == 1 else None
        if isinstance(v, ast.Constant):
            return C(v.value)
        return None

    def call(self, f, args, heap=None):
        self.e.steps = 0
        self.e.one_turn = ()
        self.changed = False
        rets, raises = self.e.analyse_call(St(env={}, heap=dict(heap or {})), f, args)
        if self.changed:
            raise AnalysisError('an instance is filled step by step')
        return rets

    def python_object(self, t):
        """the object of a module of Python that a term names"""
        if t is not None and t.op == 'ext' and '.' in t.args[0]:
            mod, _, a = t.args[0].rpartition('.')
            try:
                return getattr(importlib.import_module(mod), a)
            except (ImportError, AttributeError):
                return None
        return None


def at(v, m):
    return where(v) if isinstance(v, ast.AST) and hasattr(v, '_mod') else m.path


def module_name(rep, m, k, name, section, v, all_sections):
    """a name documented under `from Python module`"""
    if section not in ('operator', 'math', 'string'):
        return
    t = k.callee(v, name)
    obj = k.python_object(t)
    want = [getattr(importlib.import_module(s), SIMPLE.get(name, name), None) for s in dict.fromkeys(all_sections) if s in ('operator', 'math', 'string')]
    want = [x for x in want if x is not None]
    if not want:
        return
    if obj is not None:
        if any(obj is x for x in want):
            rep.ok('M1', name)
            return
        if not callable(obj):
            rep.check(any(obj == x for x in want), 'M1', name, '($%s) is %s' % (name, t.args[0]), at(v, m))
            return
    wits = SEQS.get(name) or ([(x,) for x, y in BITS] if name in UNARY else BITS if name in ('and', 'or', 'xor', 'lshift', 'rshift') else NUMS)
    if section == 'math':
        wits = [(0.5,), (0.25,), (0.5, 0.25), (1.0, 2.0)]
    src = '%s.%s' % (section, SIMPLE.get(name, name))
    compare(rep, m, k, name, src, wits, v, rule='M1')


# ---------------------------------------------------------------------- comparison
def norm(t, heap, seen=()):
    """a term without the places where it was made"""
    if isinstance(t, tuple):
        return tuple(norm(x, heap, seen) for x in t)
    if not isinstance(t, T):
        return re.sub(r'#?[\w/.]*\.py:\d+:\d+', '', t) if isinstance(t, str) else t
    if isc(t):
        return ('c', type(t.args[0]).__name__, t.args[0])
    if t.op == 'fresh' or t in seen:
        raise termval.Unknown()
    if t.op == 'list':
        if (t, 'items') not in heap:
            raise termval.Unknown()
        return ('list', norm(heap[(t, 'items')], heap, seen + (t,)))
    if t.op in ('dict', 'set') or t.op == 'comp':
        raise termval.Unknown()
    if t.op == 'new':
        return ('new', t.args[0], norm(t.args[1], heap, seen))
    if t.op == 'str' and len(t.args) == 1:
        return ('call', 'str', norm(t.args[0], heap, seen))
    return (t.op,) + tuple(norm(x, heap, seen) for x in t.args)


def summary(rets):
    return {(frozenset((norm(f, st.heap), v) for f, v in st.facts.items()), norm(r, st.heap)) for st, r in rets}


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, bool):
        return int(v)
    return v


def same_value(a, b):
    a, b = plain(a), plain(b)
    return type(a) is type(b) and a == b


GLOBALS = {'operator': operator, 'math': math, 'string': string, 'zlib': zlib, 're': re, 'LIST': list, 'ATOM': str, 'STEADY_SPACE': '\ufdd0', 'STEADY_TAB': '\ufdd1'}


class _Shell:
    input_file, output_file, module = 'in.yu-c', 'out.c', 'IN'


STATE = {'yushell.input_file': 'in.yu-c', 'yushell.output_file': 'out.c', 'yushell.module': 'IN'}


def compare(rep, m, k, name, src, wits, v, rule='M2'):
    oracle = ast.parse(src, mode='eval').body
    f, o = k.callee(v, name), k.callee(oracle, name)
    if f is None or o is None or f.op not in ('fn', 'ext') or not wits:
        rep.note('($%s): its definition is not followed' % name)
        return
    n = len(wits[0])
    key = '%s %d' % (name, n)
    if f is o:
        rep.ok(rule, key)
        return
    pars = len(oracle.args.args) if isinstance(oracle, ast.Lambda) and not oracle.args.vararg else n
    syms = [T('sym', '$%d' % i) for i in range(pars)]
    paths = None
    if all(len(w) == n for w in wits):
        try:
            paths = k.call(f, syms)
            if paths and summary(paths) == summary(k.call(o, syms)):
                rep.ok(rule, key)
                rep.count('functions shown equal for all arguments')
                return
        except (AnalysisError, termval.Unknown):
            pass
    spec = eval(src, dict(GLOBALS, yushell=_Shell))
    unknown = same = 0
    for w in wits:
        try:
            want = spec(*[None if x == '' and name == 'getslice' else x for x in w])
        except Exception:
            continue
        got = known(k, f, paths, syms, w)
        if got is None:
            unknown += 1
        elif isinstance(got[0], Exception) or not same_value(got[0], want):
            rep.bad(rule, key, '($%s) of %s is %s, documented is %s' % (name, ', '.join(map(repr, w)) or 'nothing', got[0] if isinstance(got[0], Exception) else repr(plain(got[0])), repr(plain(want))), at(v, m))
            return
        else:
            same += 1
    if unknown or not same:
        rep.note('($%s) with %d argument(s): not shown equal to the documented form' % (name, n))
    else:
        rep.ok(rule, key)
        rep.count('functions without a difference for the refuting constants only')


def known(k, f, paths, syms, w):
    """(value,) of the function for constants, or None"""
    if paths and len(w) == len(syms):
        r = pick(paths, dict(zip(syms, w)))
        if r is not None:
            return r
    heap, args = {}, []
    for i, x in enumerate(w):
        if isinstance(x, list):
            t = T('list', '$arg', i, str(x))
            heap[(t, 'items')] = T('tup', *[C(y) for y in x])
            args.append(t)
        else:
            args.append(C(x))
    try:
        return pick(k.call(f, args, heap), {})
    except AnalysisError:
        return None


def pick(paths, env):
    env = dict(env, **STATE)
    live = []
    for st, r in paths:
        h = termval.holds(st.facts, env, st.heap)
        if h is None:
            return None
        if h:
            live.append((st, r))
    if len(live) != 1:
        return None
    st, r = live[0]
    try:
        return (termval.value(r, env, st.heap),)
    except termval.Unknown:
        return None
    except (TypeError, AttributeError, KeyError):
        return None
    except Exception as x:
        return (x,)
