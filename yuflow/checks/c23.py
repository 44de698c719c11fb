"""C23 - literals are recognised by exactly their documented syntax, and numbers keep their value."""
import ast, re
from ..src import Repo, AnalysisError, where
from ..terms import T, C, NONE, TRUE, isc
from .. import evalnode as en
from .. import lang
from ..lang import Prog, Choice, Lang, compare

TECHNIQUE = 'the recognisers are extracted from the paths of the grammar rules (abstract interpretation) as ordered choices of regular expressions, compiled to automata and compared with automata of the documented syntax; the texts handed to the number constructors are computed as regular languages'
NOTE = 'Texts are over ASCII and one letter and one sign beyond it; digits of other scripts are outside.'
ASSUMPTIONS = ['int() and float() read the texts that the Python reference says they read']
G = 'pp/yugen.py'
S = T('sym', '$sou')

INT = r'[+-]?[ \t]*(?:0[xX][0-9a-fA-F]+|0[bB][01]+|0[oO][0-7]+|0[0-7]*|[1-9][0-9]*)[lL]?'
FLOAT = r'[+-]?[ ]*[0-9]+\.[0-9]+(?:[eE][+-]?[0-9]+)?'
C_STR = r'"(?:\\(?:.|\n)|[^\\"])*"'
C_CHR = r"'(?:\\(?:.|\n)|[^\\'])*'"
HEAD = r"""[uU]?[rR]?(?:('''|\"\"\")|('(?:\\.|[^\n'\\])*(?:'|\\\n)|"(?:\\.|[^\n"\\])*(?:"|\\\n)))"""
TAIL = {(False, "'"): r"(?:\\.|[^'\\])*'", (False, '"'): r'(?:\\.|[^"\\])*"',
        (True, "'"): r"(?:\\.|[^'\\]|'(?!''))*'''", (True, '"'): r'(?:\\.|[^"\\]|"(?!""))*"""'}
CODING = r'coding[:=][ \t]*yupp(\.[-_a-zA-Z0-9]+)?(?:[^a-zA-Z0-9_\u00e9]|$)'
LETTER = frozenset(list(range(65, 91)) + list(range(97, 123)) + [95])
FIGURE = frozenset(list(range(48, 58)) + [45])

#   texts that int() reads in a base, and those among them that a literal of another base looks like
READ = {0: (r'[+-]?(?:0[xX][0-9a-fA-F]+|0[bB][01]+|0[oO][0-7]+|0+|[1-9][0-9]*)', None),
        10: (r'[+-]?[0-9]+', r'[+-]?0[0-7]*[1-7][0-7]*'), 8: (r'[+-]?(?:0[oO])?[0-7]+', r'[+-]?[1-7][0-7]+'),
        16: (r'[+-]?(?:0[xX])?[0-9a-fA-F]+', r'[+-]?(?:[1-9][0-9]+|0[0-7]*[1-7][0-7]+|0[bB][01]+)'), 2: (r'[+-]?(?:0[bB])?[01]+', r'[+-]?1[01]+')}
READ_FLOAT = r'[+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][+-]?[0-9]+)?'


def run(rep):
    rep.rule('L1', 'a number is recognised for exactly the texts of its documented syntax')
    rep.rule('L2', 'what is handed to int() or float() is a text that it reads, in the base of the literal, with all digits')
    rep.rule('L3', 'a C string or character literal is recognised for exactly the texts of its documented syntax')
    rep.rule('L4', 'the head and the tail of a Python string are recognised for exactly the texts of their documented syntax')
    rep.rule('L7', 'a Python string ends at the quote that began it, on its own or on a following line')
    rep.rule('L5', 'a name starts with a letter and goes on with letters, digits, underscores and hyphens')
    rep.rule('L6', 'the magic comment is recognised for exactly its documented syntax, and exactly the yupp part of it is taken out')
    m = Repo.get().mod('yugen')
    for f in (numbers, quotes, python_strings, string_ends, names, magic):
        try:
            f(rep, m)
        except AnalysisError as x:
            rep.note('%s: %s' % (f.__name__, x))


def w(m, q):
    return where(m.functions[q]) if q in m.functions else G


def engine(**kw):
    e = en.engine(keep={'call', 'ext', 'method'}, **kw)
    e.budget = 300000
    return e


# ---------------------------------------------------------------------- regular expressions of the program
FLAGS = {'VERBOSE': re.X, 'X': re.X, 'IGNORECASE': re.I, 'I': re.I, 'DOTALL': re.S, 'S': re.S, 'MULTILINE': re.M, 'M': re.M, 'ASCII': re.A, 'A': re.A, 'UNICODE': re.U, 'U': re.U}


def flags(t):
    if isc(t) and isinstance(t.args[0], int):
        return t.args[0]
    if t.op == 'kw':
        return flags(t.args[-1])
    if t.op in ('ext', 'attr') and str(t.args[-1]).split('.')[-1] in FLAGS:
        return int(FLAGS[str(t.args[-1]).split('.')[-1]])
    if t.op == 'bin' and t.args[0] in ('BitOr', 'Add'):
        return flags(t.args[1]) | flags(t.args[2])
    raise AnalysisError('the flags %s' % t)


def regex(t, search=False):
    """the program of a compiled regular expression"""
    if t.op == 'call' and t.args[0] == 're.compile' and isc(t.args[1]) and isinstance(t.args[1].args[0], str):
        return Prog(t.args[1].args[0], flags(t.args[2]) if len(t.args) > 2 else 0, search)
    if isc(t) and isinstance(t.args[0], str):
        return Prog(t.args[0], 0, search)
    if t.op == 'attr':
        found = []
        for n in ast.walk(Repo.get().mod('yugen').tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func) in ('re.compile', 'compile') \
                    and any(isinstance(x, ast.Attribute) and x.attr == t.args[1] for x in n.targets):
                found.append(n.value)
        if len(found) == 1 and isinstance(found[0].args[0], ast.Constant):
            fl = 0
            for a in list(found[0].args[1:]) + [k.value for k in found[0].keywords]:
                for x in ast.walk(a):
                    if isinstance(x, ast.Attribute):
                        fl |= int(FLAGS.get(x.attr, 0))
            return Prog(found[0].args[0].value, fl, search)
    raise AnalysisError('the regular expression %s' % str(t)[:60])


def match_of(t):
    """(regex, text, start) of a match from the start of a text"""
    if t.op == 'call' and t.args[0] == '.match' and len(t.args) in (3, 4):
        return t.args[1], t.args[2], t.args[3] if len(t.args) == 4 else None
    if t.op == 'call' and t.args[0] == 're.match' and len(t.args) == 3:
        return t.args[1], t.args[2], None
    return None


def matches(st, val=True):
    """matches that succeeded (failed) on a path"""
    res = []
    for f, v in st.facts.items():
        m = None
        if f.op == 'truth':
            m, v2 = f.args[0], v
        elif f.op == 'is' and f.args[1] is NONE:
            m, v2 = f.args[0], not v
        if m is not None and match_of(m) and v2 is val:
            res.append(m)
    return res


def ends(t, m):
    return t.op == 'call' and t.args[0] == '.end' and t.args[1] is m and (len(t.args) == 2 or t.args[2] is C(0)) \
        or t.op == 'sub' and t.args[0].op == 'call' and t.args[0].args[0] == '.span' and t.args[0].args[1] is m and t.args[1] is C(1) \
        or t.op == 'call' and t.args[0] == 'len' and whole_of(t.args[1], m)


def whole_of(t, m):
    while t.op == 'str' or t.op == 'call' and t.args[0] == 'str' and len(t.args) == 2 or t.op == 'new' and len(t.args[1]) == 1:
        t = t.args[1][0] if t.op == 'new' else t.args[-1]
    return t.op == 'call' and t.args[0] == '.group' and t.args[1] is m and (len(t.args) == 2 or t.args[2] is C(0)) \
        or t.op == 'sub' and t.args[0] is m and t.args[1] is C(0) \
        or t.op == 'slice' and t.args[0] is match_of(m)[1] and t.args[1] in (NONE, C(0)) and ends(t.args[2], m)


def recognised(rets, sou):
    """[(match, node, state, number of failed matches)] of the paths that recognise something by a match at the start of sou"""
    res, unknown = [], []
    for st, r in rets:
        if r.op != 'tup' or len(r.args) != 2 or r.args[1] is NONE:
            if r.op == 'tup' and matches(st):
                unknown.append((st, r))
            continue
        rest, node = r.args
        ms = [m for m in matches(st) if match_of(m)[1] is sou and match_of(m)[2] in (None, C(0))]
        hit = [m for m in ms if rest.op == 'slice' and rest.args[0] is sou and rest.args[2] is NONE and ends(rest.args[1], m)]
        if len(hit) == 1 and node.op == 'new':
            res.append((hit[0], node, st, len(matches(st, False))))
        else:
            unknown.append((st, r))
    return res, unknown


def ordered(recs):
    out = {}
    for m, node, st, n in recs:
        k = out.setdefault(m, (n, set()))
        k[1].add(node.args[0])
    return [(m, kinds) for m, (n, kinds) in sorted(out.items(), key=lambda x: x[1][0])]


def same(rep, rule, what, mine, spec, at):
    diff, n = compare(mine, spec)
    rep.count('states of automata', n)
    rep.check(diff is None, rule, what, '' if diff is None else 'of the text %r the program recognises %s, the documented syntax %s' % (diff[0], diff[1], diff[2]), at)


# ---------------------------------------------------------------------- numbers
def numbers(rep, m):
    q = 'ps_number'
    if q not in m.functions:
        rep.note('%s was not found' % q)
        return
    e = engine()
    rets, raises = e.analyse('yugen', q, args={m.functions[q].args.args[0].arg: S})
    recs, unknown = recognised(rets, S)
    for st, r in unknown:
        rep.note('%s: a path with the result %s' % (q, str(r)[:80]))
    alts = ordered(recs)
    if not unknown and alts and all(len(k) == 1 for _, k in alts):
        same(rep, 'L1', 'number', Choice(*[(regex(match_of(x)[0]), next(iter(k))) for x, k in alts]), Choice((Prog(FLOAT), 'FLOAT'), (Prog(INT), 'INT')), w(m, q))
    for mt, node, st, n in recs:
        rep.count('paths that make a number')
        try:
            value(rep, m, q, mt, node, st, e)
        except AnalysisError as x:
            rep.note('%s: %s' % (q, x))


class Loss(Exception):
    pass


def value(rep, m, q, mt, node, st, e):
    prog = regex(match_of(mt)[0])
    sets = set(prog.sets) | {frozenset(c) for c in 'xXoOlL+-_. \t0123456789abcdefABCDEF'} | {frozenset('01'), frozenset('01234567'), lang.DIGIT, frozenset('0123456789abcdefABCDEF'), lang.SPACE}
    syms = lang.minterms(sorted(sets, key=sorted))
    kind = node.args[0]
    args = [a for a in node.args[1]]
    base = None
    for a in args[1:]:
        base = a.args[-1] if a.op == 'kw' else a
    x = Texts(mt, lang.whole(prog, syms), st, e)
    what = 'the value of %s' % kind
    try:
        L = x.of(args[0])
    except Loss as l:
        rep.bad('L2', what, 'a number does not keep its value: %s' % l, w(m, q))
        return
    x.leftover()
    if kind == 'FLOAT':
        ok, wrong = READ_FLOAT, None
    elif kind == 'INT':
        b = 10 if base is None else base.args[0] if isc(base) else None
        if b not in READ:
            raise AnalysisError('the base %s' % base)
        ok, wrong = READ[b]
    else:
        return
    trimmed = lang.whole(Prog(r'\s*(?:%s)\s*' % ok), syms)
    bad = (L - trimmed).witness()
    rep.check(bad is None, 'L2', what + ' is read', '%s() is given %r, which it does not read%s' % ('float' if kind == 'FLOAT' else 'int', bad, '' if kind == 'FLOAT' else ' in base %s' % b), w(m, q))
    if wrong and bad is None:
        odd = (L & lang.whole(Prog(wrong), syms)).witness()
        rep.check(odd is None, 'L2', what + ' in its base', 'the literal %r is read in base %s' % (odd, b), w(m, q))


class Texts:
    """the language of a text that is made out of a match"""
    def __init__(self, mt, base, st, e):
        self.mt, self.base, self.st, self.e = mt, base, st, e
        self.used = set()
        self.memo = {}

    def of(self, t):
        if t not in self.memo:
            self.memo[t] = self.restrict(t, self.raw(t))
        return self.memo[t]

    def raw(self, t):
        if whole_of(t, self.mt):
            return self.base
        if t.op == 'str' or t.op == 'call' and t.args[0] in ('str', 'int', 'float') and len(t.args) == 2:
            return self.of(t.args[-1])
        if t.op == 'new' and t.args[1]:
            return self.of(t.args[1][0])
        if t.op == 'slice' and t.args[1] in (NONE, C(0)) and t.args[2] is C(-1):
            L = self.of(t.args[0])
            self.lossless(L, -1)
            return L.chop()
        if t.op == 'slice' and t.args[1] is C(1) and t.args[2] is NONE:
            L = self.of(t.args[0])
            self.lossless(L, 0)
            return L.behead()
        if t.op == 'call':
            f, a = t.args[0], t.args[1:]
            if f == '.replace' and len(a) == 3 and all(isc(x) for x in a[1:]):
                o, n = a[1].args[0], a[2].args[0]
                L = self.of(a[0])
                if len(o) == 1 and n == '':
                    self.lossless(L, o)
                    return L.erase({o})
                if len(o) == 1 and len(n) == 1:
                    return L.rename(lambda c: n if c == o else c)
            if f == '.join' and a[0] is C('') and a[1].op == 'call' and a[1].args[0] == '.split' and len(a[1].args) == 2:
                return self.of(a[1].args[1]).erase(lang.SPACE)
            if f in ('.lower', '.upper') and len(a) == 1:
                return self.of(a[0]).rename(str.lower if f == '.lower' else str.upper)
            if f in ('.rstrip', '.strip') and len(a) <= 2:
                L = self.of(a[0])
                cs = lang.SPACE if len(a) == 1 else frozenset(a[1].args[0]) if isc(a[1]) else None
                if cs is not None and (f == '.rstrip' or not any(L.go(0, c) != 0 and self.live(L, L.go(0, c)) for c in L.syms if c in cs)):
                    if cs & set('0123456789abcdefABCDEF'):
                        self.lossless(L, cs)
                    return L.rstrip(cs)
            if f in ('.sub', 're.sub') and len(a) == 3 and isc(a[1]):
                return self.sub(regex(a[0]), a[1].args[0], self.of(a[2]))
        raise AnalysisError('the text %s' % str(t)[:60])

    @staticmethod
    def live(L, s):
        seen, todo = {s}, [s]
        while todo:
            x = todo.pop()
            if L.fin[x]:
                return True
            for y in L.trans[x]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return False

    def lossless(self, L, which):
        """which character goes: the last, the first, or one of a set"""
        if which == -1:
            bad = (L - ends_in(L.syms, set('lL \t'))).witness()
        elif which == 0:
            bad = (L - starts_in(L.syms, set('+ \t'))).witness()
        else:
            cs = set(which) & set('0123456789abcdefABCDEFxXoO-.')
            bad = (L & contains(L.syms, cs)).witness() if cs else None
            if isinstance(which, frozenset):        # at the end only
                bad = (L & ends_in(L.syms, cs)).witness()
        if bad is not None:
            self.leftover()
            raise Loss('%r becomes shorter' % bad)

    def sub(self, prog, repl, L):
        if not prog.code or prog.code[0][0] != 'at':
            raise AnalysisError('a substitution anywhere in a text')
        pairs, ahead = [], None
        for wd, groups, la in lang.finite(prog):
            la = la if la is not None else lang.SIGMA
            if ahead is not None and la != ahead:
                raise AnalysisError('a substitution with several contexts')
            ahead = la
            # the groups hold what stands between their start and their end; known when they start the text
            def ref(mo):
                k = mo.group(1) or mo.group(2)
                if k == '0':
                    return wd
                if k != '1' or '1' not in groups or not re.match(r'\^?\(', prog.pattern.strip()):
                    raise AnalysisError('a reference to a group')
                return groups['1']
            q = re.sub(r'\\g<(\d+)>|\\(\d)', ref, repl)
            if q != wd and not (wd.endswith('0') and q in (wd + 'o', wd + 'O') and ahead <= frozenset('01234567')) and not (not set(wd) & set('0123456789') and q == ''.join(wd.split())):
                self.leftover()
                raise Loss('%r at the start of a number becomes %r' % (wd, q))
            pairs.append((wd, q))
        return L.replace_prefix(pairs, ahead)

    def restrict(self, t, L):
        for f, v in self.st.facts.items():
            R = self.fact(f, t, L)
            if R is not None:
                self.used.add(f)
                L = L & R if v else L - R
        return L

    def fact(self, f, t, L):
        if f.op in ('in', 'eq') and len(f.args) == 2:
            a, b = f.args
            if f.op == 'eq' and isc(a):
                a, b = b, a
            if a.op in ('sub', 'slice') and a.args[0] is t:
                cs = self.letters(b, f.op)
                if cs is None:
                    return None
                i = a.args[1]
                if a.op == 'sub' and i is C(-1) or a.op == 'slice' and i is C(-1) and a.args[2] is NONE:
                    return ends_in(L.syms, cs)
                if a.op == 'sub' and i is C(0) or a.op == 'slice' and i in (NONE, C(0)) and a.args[2] is C(1):
                    return starts_in(L.syms, cs)
            if f.op == 'in' and b is t and isc(a) and len(a.args[0]) == 1:
                return contains(L.syms, {a.args[0]})
        if f.op in ('lt', 'le', 'gt', 'ge', 'eq') and len(f.args) == 2:
            a, b = f.args
            op = f.op
            if isc(a) and not isc(b):
                a, b, op = b, a, {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq'}[op]
            if a.op == 'call' and a.args[0] == 'len' and a.args[1] is t and isc(b) and isinstance(b.args[0], int) and 0 <= b.args[0] < 20:
                n = b.args[0]
                test = {'lt': lambda s: s < n, 'le': lambda s: s <= n, 'gt': lambda s: s > n, 'ge': lambda s: s >= n, 'eq': lambda s: s == n}[op]
                return Lang(L.syms, 0, lambda s, c: min(s + 1, n + 1), test)
        g = f.args[0] if f.op == 'truth' else f
        if g.op == 'call' and g.args[0] in ('.endswith', '.startswith') and len(g.args) == 3 and g.args[1] is t:
            cs = self.letters(g.args[2], 'with')
            if cs is not None:
                return (ends_in if g.args[0] == '.endswith' else starts_in)(L.syms, cs)
        return None

    def letters(self, t, op):
        if isc(t):
            v = t.args[0]
            if op == 'in' and isinstance(v, (str, tuple, frozenset, set, list)) or op == 'with' and isinstance(v, tuple):
                v = list(v)
            elif isinstance(v, str):
                v = [v]
            else:
                return None
        elif t.op == 'tup' and all(isc(x) for x in t.args):
            v = [x.args[0] for x in t.args]
        elif t.op == 'list':
            it = self.st.heap.get((t, 'items'))
            if it is None or not all(isc(x) for x in it.args):
                return None
            v = [x.args[0] for x in it.args]
        else:
            return None
        return set(v) if all(isinstance(x, str) and len(x) == 1 for x in v) else None

    def leftover(self):
        """a condition on the text that was not used makes the language too large to judge"""
        for f in self.st.facts:
            if f in self.used or f.op == 'truth' and f.args[0] is self.mt or f.op == 'is' and self.mt in f.args:
                continue
            if self.mt in f.deps():
                raise AnalysisError('the condition %s' % str(f)[:60])


def ends_in(syms, cs):
    return Lang(syms, False, lambda s, c: c in cs, lambda s: s)


def starts_in(syms, cs):
    return Lang(syms, 0, lambda s, c: s if s else (1 if c in cs else 2), lambda s: s == 1)


def contains(syms, cs):
    return Lang(syms, False, lambda s, c: s or c in cs, lambda s: s)


# ---------------------------------------------------------------------- quotes
def by_language(st):
    for f, v in st.facts.items():
        if f.op == 'truth' and f.args[0].op == 'attr' and f.args[0].args[1] == 'output_python':
            return v
    return None


def quotes(rep, m):
    q = 'ps_quote'
    if q not in m.functions:
        rep.note('%s was not found' % q)
        return
    e = engine(opaque={'ps_string_python': lambda e, st, f, a, k, n: [(st, T('tup', a[0], NONE)), (st.copy(), T('tup', T('sym', '$rest'), T('sym', '$string')))], 'ps_plain': lambda e, st, f, a, k, n: []})
    rets, raises = e.analyse('yugen', q, args={m.functions[q].args.args[0].arg: S})
    c = [(st, r) for st, r in rets if by_language(st) is False]
    recs, unknown = recognised([(st, r) for st, r in c if matches(st)], S)
    for st, r in unknown:
        rep.note('%s: a path with the result %s' % (q, str(r)[:80]))
    alts = ordered(recs)
    if not alts:
        rep.note('the C literals were not found')
        return
    for mt, node, st, n in recs:
        rep.count('paths that make a literal')
        rep.check(not node.args[1] or whole_of(node.args[1][0], mt) or not node.args[1][0].deps() & {mt}, 'L3', 'text of a literal', 'a literal becomes %s' % str(node.args[1][0])[:60], w(m, q))
    if not unknown:
        same(rep, 'L3', 'C literals', Choice(*[(regex(match_of(x)[0]), 'literal') for x, k in alts]), Choice((Prog(C_STR), 'literal'), (Prog(C_CHR), 'literal')), w(m, q))
    # Python: the C rules are not tried
    for st, r in rets:
        if by_language(st) is True:
            rep.check(not matches(st), 'L3', 'Python source', 'a C literal is looked for in a Python text', w(m, q))


# ---------------------------------------------------------------------- Python strings
def quotes_in(t):
    """quotes that a condition compares with, not those of a regular expression"""
    res, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, T):
            if isc(x) and x.args[0] in ('"', "'"):
                res.add(x.args[0])
            todo += x.args
    return res


def python_strings(rep, m):
    q = 'ps_string_python'
    if q not in m.functions:
        rep.note('%s was not found' % q)
        return
    e = engine()
    rets, raises = e.analyse('yugen', q, args={m.functions[q].args.args[0].arg: S})
    paths = [(st, r) for st, r in rets if r.op == 'tup' and len(r.args) == 2 and r.args[1] is not NONE]
    found = {}
    for st, r in paths:
        k = {match_of(x)[0] for x in matches(st)}
        for x in k:
            found.setdefault(x, set()).add(frozenset(k))
    heads = [x for x, ks in found.items() if len({y for k in ks for y in k}) > 2]       # goes with several tails
    if len(heads) != 1:
        rep.note('the head of a Python string was not found')
        return
    head = heads[0]
    hp = regex(head)
    group = None
    done = set()
    for st, r in paths:
        rep.count('paths that make a Python string')
        ms = matches(st)
        hm = next((x for x in ms if match_of(x)[0] is head), None)
        if hm is None:
            continue            # a later turn of the loop: the facts of the head are forgotten there
        tails = [x for x in ms if match_of(x)[0] is not head]
        three = quote = None
        for f, v in st.facts.items():
            if f.op == 'is' and f.args[1] is NONE and f.args[0].op == 'call' and f.args[0].args[0] == '.group' and f.args[0].args[1] is hm or \
                    f.op == 'truth' and f.args[0].op == 'call' and f.args[0].args[0] == '.group' and f.args[0].args[1] is hm:
                g = (f.args[0].args[2] if len(f.args[0].args) > 2 else C(0))
                if g.op == 'attr':
                    vals = [n.value.value for n in ast.walk(m.tree) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and any(isinstance(x, ast.Attribute) and x.attr == g.args[1] for x in n.targets)]
                    g = C(vals[0]) if len(vals) == 1 else g
                if isc(g):
                    group = g.args[0]
                    three = (not v) if f.op == 'is' else v
            qs = quotes_in(f) if f.op in ('in', 'eq', 'truth') and hm in f.deps() else ()
            if len(qs) == 1:
                x = next(iter(qs))
                quote = x if v else {'"': "'", "'": '"'}[x]
        if three is None:
            rep.note('%s: which kind of a string it is is not known' % q)
            continue
        rep.check(bool(tails) or not three, 'L4', 'end of a string', 'a triple quoted string ends with its head', w(m, q))
        for x in tails:
            if quote is None:
                rep.note('%s: the quote of the string is not known' % q)
                continue
            t = match_of(x)[0]
            if (t, three, quote) in done:
                continue
            done.add((t, three, quote))
            same(rep, 'L4', 'tail of a %s%s string' % (quote, ' triple quoted' if three else ''), Choice((regex(t), 'tail')), Choice((Prog(TAIL[(three, quote)]), 'tail')), w(m, q))
    if group is not None:
        k = lambda g: 'triple' if group in g else 'single'
        k1 = lambda g: 'triple' if 1 in g else 'single'
        same(rep, 'L4', 'head of a string', Choice((hp, k)), Choice((Prog(HEAD), k1)), w(m, q))


def string_texts():
    """(what, text of a string, text after it): each prefix, quote and way of going on, with and without the other quote inside"""
    for p in ('', 'u', 'r', 'UR'):
        for q, o in (("'", '"'), ('"', "'")):
            for k, inner in (('', ''), (' with the other quote inside', o), (' with an escaped quote inside', '\\' + q), (' with both quotes inside', 'a' + o + '\\' + q + o + o)):
                t = q * 3
                what = 'a %s string%s%s' % (q, ' with a prefix' if p else '', k)
                yield what, p + q + inner + q, ' + ' + o + inner + q
                yield what + ', continued', p + q + 'a' + inner + ' \\\n b' + q, ' + ' + q + o
                yield what + ', continued on a line with the other quote', p + q + inner + 'a \\\n ' + o + 'b' + q, '\n' + q + o
                yield what + ', continued twice', p + q + 'a' + inner + ' \\\n b' + inner + '\\\nc' + q, ' + ' + q + o
                yield what + ', triple, on three lines', p + t + 'a\nbcd\n' + inner + t, ' + ' + t + o
                yield what + ', triple', p + t + inner + q + 'a' + t, ' + ' + o + t
                yield what + ', triple, on two lines', p + t + inner + 'a\n' + inner + o + 'b' + t, ' + ' + t + o


def attributes(m, terms):
    """the constants and regular expressions assigned to attributes that the terms read: {(object, attribute): value}"""
    heap = {}
    todo = list(terms)
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo += t
        if not isinstance(t, T):
            continue
        todo += t.args
        if t.op != 'attr' or (t.args[0], t.args[1]) in heap:
            continue
        vals = [n.value for n in ast.walk(m.tree) if isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr == t.args[1] for x in n.targets)]
        if len(vals) != 1:
            continue
        v = vals[0]
        if isinstance(v, ast.Constant):
            heap[(t.args[0], t.args[1])] = C(v.value)
        elif isinstance(v, ast.Call) and ast.unparse(v.func) in ('re.compile', 'compile') and isinstance(v.args[0], ast.Constant):
            fl = 0
            for a in list(v.args[1:]) + [k.value for k in v.keywords]:
                for x in ast.walk(a):
                    if isinstance(x, ast.Attribute):
                        fl |= int(FLAGS.get(x.attr, 0))
            heap[(t.args[0], t.args[1])] = T('call', 're.compile', C(v.args[0].value), C(fl))
    return heap


def string_ends(rep, m):
    q = 'ps_string_python'
    if q not in m.functions:
        return
    e = engine()
    par = m.functions[q].args.args[0].arg
    rets, raises = e.analyse('yugen', q, args={par: S})
    e.unroll = 6
    heap = attributes(m, [x for st, r in rets for x in [r] + list(st.facts)])
    for what, text, rest in string_texts():
        rets, raises = e.analyse('yugen', q, args={par: C(text + rest)}, heap=dict(heap))
        got = {r for st, r in rets}
        if len(got) == 1 and not raises:
            r = got.pop()
            if r.op == 'tup' and len(r.args) == 2 and isc(r.args[0]):
                a = r.args[0].args[0]
                rep.check(a == rest and r.args[1] is not NONE, 'L7', what, '%s ends elsewhere: %r is left of %r' % (what, a, text + rest), w(m, q))
                continue
        elif raises and not rets and not any(en.possible(x) for st, x in raises):
            rep.bad('L7', what, '%s (%r) is an error' % (what, text), w(m, q))
            continue
        rep.note('%s: where %s ends is not known' % (q, what))


# ---------------------------------------------------------------------- names
def names(rep, m):
    q = 'ps_atom'
    if q not in m.functions:
        rep.note('%s was not found' % q)
        return
    e = engine()
    seen = []
    orig = e.decide

    def decide(atom, st):
        if atom.op == 'in' and isc(atom.args[1]) and isinstance(atom.args[1].args[0], (frozenset, set, tuple, str)):
            seen.append(atom)
        return orig(atom, st)
    e.decide = decide
    rets, raises = e.analyse('yugen', q, args={m.functions[q].args.args[0].arg: S})
    recs, unknown = recognised([(st, r) for st, r in rets if matches(st)], S)
    if recs and not unknown:
        alts = ordered(recs)
        same(rep, 'L5', 'name', Choice(*[(regex(match_of(x)[0]), 'name') for x, k in alts]), Choice((Prog(r'[A-Za-z_][-A-Za-z_0-9]*'), 'name')), w(m, q))
        return
    n = 0
    for a in set(seen):
        if S not in a.args[0].deps():
            continue
        c = a.args[0]
        if c.op == 'call' and c.args[0] == 'ord':
            c = c.args[1]
        if c.op not in ('sub', 'slice') or c.args[0] is not S:
            continue
        got = {x if isinstance(x, int) else ord(x) for x in a.args[1].args[0] if isinstance(x, int) or isinstance(x, str) and len(x) == 1}
        first = c.args[1] in (C(0), NONE)
        want = LETTER if first else LETTER | FIGURE
        n += 1
        rep.check(got == want, 'L5', 'first character of a name' if first else 'other characters of a name',
                  'a name may %s with %s' % ('start' if first else 'go on', ''.join(sorted(map(chr, got ^ want)))[:20] + (' too' if got - want else ' no more')), w(m, q))
    if not n:
        rep.note('how a name is recognised was not understood')


# ---------------------------------------------------------------------- magic comment
def magic(rep, m):
    q = 'ps_header_python'
    if q not in m.functions:
        rep.note('%s was not found' % q)
        return

    def remark(e, st, f, args, kw, node):
        x = T('new', 'REMARK', (T('sym', '$remark'),), 'remark', str(args[0])[:80])
        return [(st, T('tup', args[0], NONE)), (st.copy(), T('tup', T('sym', '$rest', args[0]), x))]
    e = engine(opaque={'ps_remark_python': remark, 'ps_space': lambda e, st, f, a, k, n: [(st, T('tup', T('sym', '$spaced', a[0]), T('sym', '$space')))],
                       'ps_eol': lambda e, st, f, a, k, n: [(st, T('tup', T('sym', '$next', a[0]), T('sym', '$eol'))), (st.copy(), T('tup', a[0], NONE))]})
    rets, raises = e.analyse('yugen', q, args={m.functions[q].args.args[0].arg: S})
    done = set()
    for st, r in rets:
        ss = [f.args[0] for f, v in st.facts.items() if v is True and f.op == 'truth' and f.args[0].op == 'call' and f.args[0].args[0] == '.search']
        if not ss or r.op != 'tup' or r.args[1] is NONE:
            continue
        s = ss[-1]
        if s.args[1] not in done:
            done.add(s.args[1])
            k = lambda g: 'with an encoding' if 1 in g else 'without an encoding'
            same(rep, 'L6', 'magic comment', Choice((regex(s.args[1], True), k)), Choice((Prog(CODING, re.I, True), k)), w(m, q))
        has = next((not v for f, v in st.facts.items() if f.op == 'is' and f.args[1] is NONE and f.args[0].op == 'call' and f.args[0].args[0] == '.group' and f.args[0].args[1] is s), None)
        it = en.items(st, r.args[1]) if hasattr(en, 'items') else e.items(st, r.args[1]) if hasattr(e, 'items') else None
        h = st.heap.get((r.args[1], 'items'))
        it = list(h.args) if h is not None else it
        if it is None or has is None:
            continue
        rep.count('paths that recognise a magic comment')
        parts = [x.args[1][0] for x in it if x.op == 'new' and x.args[0] == 'REMARK' and x.args[1] and x.args[1][0].op == 'slice']
        if not has:
            rep.check(not parts, 'L6', 'comment without an encoding', 'the magic comment without an encoding is kept in part', w(m, q))
            continue
        if len(parts) != 2:
            rep.note('what is left of the magic comment: %s' % [str(x)[:40] for x in it])
            continue
        a, b = parts[0].args[2], parts[1].args[1]
        rep.check(s in a.deps() and s in b.deps(), 'L6', 'place of the part', 'what is taken out of the magic comment is looked for apart from where it was recognised: from %s' % str(a)[:60], w(m, q))
        if s in a.deps() and s in b.deps():
            la, lb = position(a, s), position(b, s)
            if la is None or lb is None:
                rep.note('the part of the magic comment that is taken out is not known')
                continue
            rep.check(la == -4 and lb == 1, 'L6', 'extent of the part', 'the part that is taken out of the magic comment starts %d and ends %d characters from the dot' % (la, lb), w(m, q))


def position(t, s):
    """distance from the start of the first group"""
    if t.op == 'bin' and t.args[0] in ('Add', 'Sub') and (isc(t.args[2]) or isc(t.args[1]) and t.args[0] == 'Add'):
        x, c = (t.args[1], t.args[2]) if isc(t.args[2]) else (t.args[2], t.args[1])
        p = position(x, s)
        return None if p is None or not isinstance(c.args[0], int) else p + c.args[0] * (1 if t.args[0] == 'Add' else -1)
    if t.op == 'call' and t.args[0] == '.start' and t.args[1] is s and len(t.args) == 3 and t.args[2] is C(1):
        return 0
    if t.op == 'sub' and t.args[1] is C(0) and t.args[0].op == 'call' and t.args[0].args[0] == '.span' and t.args[0].args[1] is s and len(t.args[0].args) == 3 and t.args[0].args[2] is C(1):
        return 0
    return None
