"""C12 - every construct of the language is recognised everywhere and evaluated."""
import ast, re
from ..src import Repo, AnalysisError, where
from ..terms import T, C, NONE, TRUE, isc
from .. import grammar as gr
from .. import evalnode as en

TECHNIQUE = 'abstract interpretation of the rules that choose between alternatives, each path compared with the documented beginnings of the constructs; dispatch of the evaluator and of the renderers by the classes of the nodes'
NOTE = 'The beginnings of the constructs and the kinds of nodes are tables of this check, taken from the documented grammar.'
ASSUMPTIONS = []
Y = 'pp/yugen.py'

LETTER = re.compile(r'[A-Za-z_]')
STRING = re.compile(r'''[uU]?[rR]?["']''')
NUM = re.compile(r'[+-]?[ \t]*\d')
ACCEPT = {
    'ps_set': lambda s: s.startswith('($set'),
    'ps_let': lambda s: s.startswith('($let'),
    'ps_import': lambda s: s.startswith('($import'),
    'ps_macro': lambda s: s.startswith('($macro'),
    'ps_emit': lambda s: s.startswith('($emit'),
    'ps_comment': lambda s: s.startswith('($!'),
    'ps_application': lambda s: s.startswith('($') and not s.startswith('($quote'),
    'ps_remark_c': lambda s: s.startswith(('//', '/*')),
    'ps_remark_python': lambda s: s.startswith('#'),
    'ps_code': lambda s: s.startswith(('[', ']', ',,', '($code')),
    'ps_infix': lambda s: s.startswith(('{', '(${}')),
    'ps_list': lambda s: s.startswith('('),
    'ps_atom': lambda s: bool(LETTER.match(s)),
    'ps_variable': lambda s: bool(LETTER.match(s)) or s.startswith('&'),
    'ps_lambda': lambda s: s.startswith('\\'),
    'ps_number': lambda s: bool(NUM.match(s)),
    'ps_string_python': lambda s: bool(STRING.match(s)),
    'ps_quote': lambda s: bool(STRING.match(s)) or s.startswith(('(`', '($quote')),
    'ps_space': lambda s: s[:1] in (' ', '\t'),
    'ps_eol': lambda s: s[:1] in ('\n', '\r'),
    'ps_gap': lambda s: s[:1] in (' ', '\t', '\n', '\r'),
}
ACCEPT['ps_value'] = lambda s: ACCEPT['ps_quote'](s) or ACCEPT['ps_number'](s)
ACCEPT['ps_l_form'] = lambda s: any(ACCEPT[r](s) for r in ('ps_code', 'ps_infix', 'ps_let', 'ps_application', 'ps_list'))
ACCEPT['ps_former'] = ACCEPT['ps_form'] = ACCEPT['ps_function'] = lambda s: any(ACCEPT[r](s) for r in ('ps_value', 'ps_variable', 'ps_lambda', 'ps_l_form'))
PARTS = {
    'ps_value': {'ps_quote', 'ps_number', 'ps_string_python'},
    'ps_quote': {'ps_string_python', 'self'},
    'ps_l_form': {'ps_code', 'ps_infix', 'ps_let', 'ps_application', 'ps_list', 'ps_emit'},
    'ps_application': {'ps_code', 'ps_emit', 'ps_infix'},
    'ps_variable': {'ps_atom', 'self'},
}
EXPECT = {
    'ps_text': [('($set a 1)', 'ps_set'), ('($let a 1 b)', 'ps_let'), ('($import a)', 'ps_import'), ('($macro a () b)', 'ps_macro'), ('($! a)', 'ps_comment'),
                ('($f 1)', 'ps_application'), ('($$f 1)', 'ps_application'), ('($code a)', 'ps_application'), ('($emit a)', 'ps_application'), ('(${} 1)', 'ps_application'),
                ('($quote a)', 'ps_quote'), ('(`a)', 'ps_quote'), ('"a"', 'ps_quote'), ("'a'", 'ps_quote'), ('a', 'plain'), ('(a)', 'plain'), ('[a]', 'plain'),
                ('{1}', 'plain'), ('1', 'plain'), ('\\a.b', 'plain'), (')', 'plain'), ('&a', 'plain'), (',,a', 'plain')],
    'ps_former': [('"a"', 'ps_value'), ('(`a)', 'ps_value'), ('($quote a)', 'ps_value'), ('1', 'ps_value'), ('-1', 'ps_value'), ('u"a"', 'ps_value'), ('r"a"', 'ps_value'),
                  ('a', 'ps_variable'), ('&a', 'ps_variable'), ('\\a.b', 'ps_lambda'), ('($f)', 'ps_l_form'), ('(a b)', 'ps_l_form'), ('[a]', 'ps_l_form'),
                  (']a[', 'ps_l_form'), (',,a', 'ps_l_form'), ('{1}', 'ps_l_form'), ('($let a 1 b)', 'ps_l_form'), ('($code a)', 'ps_l_form'), ('(${} 1)', 'ps_l_form'),
                  (')', None), ('.', None)],
    'ps_l_form': [('[a]', 'ps_code'), (']a[', 'ps_code'), (',,a', 'ps_code'), ('($code a)', {'ps_code', 'ps_application'}), ('{1}', 'ps_infix'),
                  ('(${} 1)', {'ps_infix', 'ps_application'}), ('($let a 1 b)', 'ps_let'), ('($f)', 'ps_application'), ('($$f)', 'ps_application'),
                  ('($emit a)', {'ps_application', 'ps_emit'}), ('(a b)', 'ps_list'), ('()', 'ps_list'), ('a', None), ('1', None)],
    'ps_value': [('"a"', 'ps_quote'), ('(`a)', 'ps_quote'), ('1', 'ps_number'), ('-1', 'ps_number'), ('a', None), ('(a)', None)],
    'ps_application': [('($code a)', 'ps_code'), ('($emit a)', 'ps_emit'), ('(${} 1)', 'ps_infix'), ('($quote a)', None), ('($f)', 'self'), ('($$f)', 'self'), ('a', None), ('(a)', None)],
}
SOMETIMES = {'ps_text': [('//a', 'ps_remark_c'), ('/*a*/', 'ps_remark_c'), ('#a', 'ps_remark_python')]}


def run(rep):
    rep.rule('A1', 'a text that begins with the mark of a construct is given to the rule of that construct')
    rep.rule('A2', 'comments of the language are recognised in the mode that asks for it')
    rep.rule('A3', 'no case of a distinction by classes is hidden behind a more general one')
    rep.rule('A4', 'every kind of node that can be reduced is reduced')
    rep.rule('A5', 'what counts as a final value is decided by all parts of a value')
    rep.rule('A6', 'every kind of final value is rendered, whole, by every renderer')
    m = Repo.get().mod('yugen')
    for f in (alternatives, hidden, reduced, terms, rendered):
        try:
            f(rep, m)
        except AnalysisError as x:
            rep.note('%s: %s' % (f.__name__, x))


# ---------------------------------------------------------------------- alternatives
class Sample:
    """evaluates facts for a text that begins in a known way"""

    def __init__(self, base, s):
        self.base, self.s = base, s

    def text(self, t):
        """known beginning of a text, or None"""
        if t is self.base:
            return self.s
        if t.op == 'slice' and t.args[2] is NONE:
            s = self.text(t.args[0])
            if s is None:
                return None
            if t.args[1] is NONE:
                return s
            if isc(t.args[1]) and isinstance(t.args[1].args[0], int) and 0 <= t.args[1].args[0] <= len(s):
                return s[t.args[1].args[0]:]
            a = t.args[1]
            if a.op == 'call' and a.args[0] == '$len' and isc(a.args[1]) and a.args[1].args[0] in ACCEPT and len(a.args) == 3 and a.args[2] is t.args[0]:
                return s if not ACCEPT[a.args[1].args[0]](s) else None
        return None

    def node(self, t):
        """is the construct of this node recognised? None: unknown"""
        if t.op == 'call' and t.args[0] == '$node' and isc(t.args[1]) and t.args[1].args[0] in ACCEPT:
            s = self.text(t.args[2])
            return None if s is None else ACCEPT[t.args[1].args[0]](s)
        return None

    def value(self, t):
        """(known, value)"""
        if isc(t):
            return True, t.args[0]
        s = self.text(t)
        if s is not None:
            return True, s
        if t.op == 'slice':
            s = self.text(t.args[0])
            a, b = t.args[1:]
            if s is not None and all(x is NONE or isc(x) and isinstance(x.args[0], int) and 0 <= x.args[0] <= len(s) for x in (a, b)):
                return True, s[(a.args[0] if isc(a) else None):(b.args[0] if isc(b) else None)]
            if s is not None and isc(b) and isinstance(b.args[0], int) and b.args[0] > len(s) and (a is NONE or a is C(0)):
                return True, s + '\0'            # longer than all that is known: nothing that is compared
            return False, None
        if t.op == 'sub':
            s = self.text(t.args[0])
            if s is not None and isc(t.args[1]) and isinstance(t.args[1].args[0], int) and 0 <= t.args[1].args[0] < len(s):
                return True, s[t.args[1].args[0]]
            return False, None
        n = self.node(t)
        if n is not None:
            return True, (t if n else None)
        if t.op == 'call' and t.args[0] in ('ord', '.startswith', 'len') and len(t.args) > 1:
            xs = [self.value(x) for x in t.args[1:]]
            if all(k for k, _ in xs):
                try:
                    if t.args[0] == 'ord':
                        return True, ord(xs[0][1])
                    if t.args[0] == '.startswith':
                        return True, xs[0][1].startswith(xs[1][1])
                except (TypeError, AttributeError):
                    pass
        return False, None

    def fact(self, k):
        """True, False or None"""
        if k.op == 'truth':
            ok, v = self.value(k.args[0])
            return None if not ok else True if isinstance(v, T) else bool(v)
        if k.op in ('eq', 'is', 'in', 'lt') and len(k.args) == 2:
            (a, x), (b, y) = self.value(k.args[0]), self.value(k.args[1])
            if not (a and b):
                return None
            try:
                return {'eq': lambda: x == y, 'is': lambda: x is y, 'in': lambda: x in y, 'lt': lambda: x < y}[k.op]()
            except TypeError:
                return None
        return None

    def about(self, k):
        return self.base in k.deps()

    def possible(self, facts):
        """-> (possible, certain); a path of which nothing is known may be two paths put together"""
        sure = any(self.about(k) for k in facts)
        for k, v in facts.items():
            if not self.about(k):
                continue
            r = self.fact(k)
            if r is None:
                sure = False
            elif r != v:
                return False, False
        return True, sure

    def consumer(self, r, rest, log=()):
        """who consumes the beginning of the text"""
        t, steps = rest, []
        while t is not self.base:
            if t.op == 'slice' and t.args[2] is NONE:
                s = gr.step(t.args[0], t.args[1])
                if s is not None:
                    steps.append(s)
                t = t.args[0]
            elif t.op == 'lv':
                o = gr.origin(r, t)
                if o is None:
                    return '?'
                return next((self.who(s) for s in o if self.who(s)), None)
            else:
                return '?'
        for s in reversed(steps):
            x = self.who(s)
            if x:
                return x
        return None

    def who(self, s):
        if s.kind == 'rule':
            t = self.text(s.at)
            if t is not None and s.name in ACCEPT and not ACCEPT[s.name](t):
                return None
            if s.name in gr.GAPS:
                return None
            return s.name
        if s.kind == 'gen':
            return 'plain'
        if s.kind == 'loop':
            return None
        return 'self'


def good(got, want):
    want = want if isinstance(want, set) else {want}
    return got in want or any(got in PARTS.get(x, ()) for x in want if x)


def outcomes(r, base, s):
    """[(consumer, certain)] of the paths that a text takes"""
    x = Sample(base, s)
    res = []
    if r.name == 'ps_text':
        for site, h, backs in r.loops:
            if not any(v is base for v in h.env.values()):
                continue
            var = [k for k, v in h.env.items() if v is base][0]
            for b in backs:
                p, sure = x.possible(b.facts)
                if p and gr.feasible(b.facts):
                    y = b.env.get(var)
                    c = x.consumer(r, y) if isinstance(y, T) else '?'
                    if any(ev[0] == 'next' for ev in b.log[len(h.log):]):
                        c = 'plain'
                    res.append((c, sure))
        return res
    for st, rest, node in r.rets:
        p, sure = x.possible(st.facts)
        if p and gr.feasible(st.facts):
            n = x.node(node)
            c = x.consumer(r, rest)
            if (n is False or node is NONE) and c != 'self':
                c = None
            res.append((c, sure))
    return res


def alternatives(rep, m):
    rs = gr.rules(m)
    for q in EXPECT:
        if q not in rs:
            rep.note('there is no rule %s' % q)
            continue
        try:
            r = gr.extract(q)
        except AnalysisError as x:
            rep.note('%s: %s' % (q, x))
            continue
        bases = [gr.SOU]
        if q == 'ps_text':
            bases = []
            for site, h, backs in r.loops:
                for v in h.env.values():
                    if isinstance(v, T) and (v is gr.SOU or v.op == 'lv' and gr.origin(r, v) is not None) and v not in bases:
                        bases.append(v)
        for base in bases:
            for s, want in EXPECT[q]:
                outs = outcomes(r, base, s)
                rep.count('texts')
                sure = [c for c, certain in outs if certain and c != '?']
                bad = [c for c in sure if not good(c, want)]
                if bad:
                    rep.bad('A1', '%s %s' % (q, s[:8]), '%s gives a text that begins with %r to %s instead of %s' % (q, s, name(bad[0]), names(want)), where(r.func))
                elif not outs or any(c == '?' for c, _ in outs) and not sure:
                    if not outs:
                        rep.bad('A1', '%s %s' % (q, s[:8]), '%s refuses a text that begins with %r' % (q, s), where(r.func))
                    else:
                        rep.note('%s: what happens to %r is not understood' % (q, s))
                elif not any(good(c, want) for c, _ in outs):
                    rep.bad('A1', '%s %s' % (q, s[:8]), '%s never gives a text that begins with %r to %s' % (q, s, names(want)), where(r.func))
                else:
                    rep.ok('A1', '%s %s' % (q, s))
            for s, want in SOMETIMES.get(q, ()):
                outs = outcomes(r, base, s)
                rep.check(any(good(c, want) or c == '?' for c, _ in outs), 'A2', '%s %s' % (q, s), '%s never gives a text that begins with %r to %s' % (q, s, names(want)), where(r.func))


def name(c):
    return {None: 'nobody', 'self': 'itself', 'plain': 'the plain text'}.get(c, c)


def names(want):
    return ' or '.join(sorted(name(x) for x in (want if isinstance(want, set) else {want})))


# ---------------------------------------------------------------------- hidden cases
def classes_tested(test):
    """(variable, {classes}) of a test that is nothing but a test of classes, else None"""
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or):
        ps = [classes_tested(v) for v in test.values]
        if all(ps) and len({p[0] for p in ps}) == 1:
            return ps[0][0], set().union(*[p[1] for p in ps])
        return None
    if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2 and not test.keywords:
        c = test.args[1]
        cs = c.elts if isinstance(c, ast.Tuple) else [c]
        if all(isinstance(x, (ast.Name, ast.Attribute)) for x in cs):
            return ast.dump(test.args[0]), {ast.unparse(x) for x in cs}
    return None


def leaves(body):
    """does a block never go on behind itself?"""
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return leaves(s.body) and leaves(s.orelse)
    if isinstance(s, ast.Try):
        return leaves(s.body) and all(leaves(h.body) for h in s.handlers)
    return False


def hidden(rep, m):
    e = en.engine()

    def above(c):
        try:
            return set(e.mro(c)) | {c}
        except Exception:
            return {c}

    def chain(s):
        while True:
            yield s
            if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
                s = s.orelse[0]
            else:
                return

    def changed(stmts, root):
        names = {n.id for s in stmts for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        return root is None or root in names

    def block(body, f, q):
        seen = {}                       # variable -> [(classes, line)]
        for s in body:
            if isinstance(s, ast.If):
                here = {k: list(v) for k, v in seen.items()}
                for i in chain(s):
                    p = classes_tested(i.test)
                    if p:
                        var, cs = p
                        old = here.get(var, [])
                        dead = [c for c in cs if any(above(c) & o for o, _ in old)]
                        rep.count('tests of classes')
                        if old and len(dead) == len(cs):
                            line = [l for o, l in old if above(dead[0]) & o][0]
                            rep.bad('A3', '%s %s' % (q, sorted(cs)[0]), '%s never reaches its case for %s: an earlier case (line %d) takes it' % (q, ', '.join(sorted(cs)), line), "%s:%d" % (Y, i.lineno))
                        else:
                            rep.ok('A3', '%s %s' % (q, sorted(cs)[0]))
                        here.setdefault(var, []).append((cs, i.lineno))
                        if leaves(i.body) and (i is s or not s.orelse):
                            pass
                # what is known behind the statement
                for i in chain(s):
                    p = classes_tested(i.test)
                    if p and leaves(i.body):
                        seen.setdefault(p[0], []).append((p[1], i.lineno))
                    else:
                        break
            # a variable that is assigned is another one
            stores = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            attrs = {n.attr for n in ast.walk(s) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
            if not (isinstance(s, ast.If) and all(leaves(i.body) for i in chain(s)) and not leaves(s.orelse)):
                for var in list(seen):
                    if any("id='%s'" % x in var for x in stores) or any("attr='%s'" % x in var for x in attrs):
                        del seen[var]
            for part in ('body', 'orelse', 'finalbody'):
                b = getattr(s, part, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    if not (part == 'orelse' and isinstance(s, ast.If) and len(b) == 1 and isinstance(b[0], ast.If)):
                        block(b, f, q)
                    else:
                        # the branches of the chain
                        for i in list(chain(s))[1:]:
                            block(i.body, f, q)
                        last = list(chain(s))[-1]
                        if last.orelse:
                            block(last.orelse, f, q)
            for h in getattr(s, 'handlers', ()):
                block(h.body, f, q)
    for q, f in m.functions.items():
        block(f.body, f, q)


# ---------------------------------------------------------------------- reduction
REDUCED = ('TEXT', 'T', 'APPLY', 'VAR', 'LAMBDA', 'L_CLOSURE', 'SET', 'LET', 'SET_CLOSURE', 'MACRO', 'M_CLOSURE', 'EVAL', 'COND', 'COND_CLOSURE', 'INFIX', 'INFIX_CLOSURE',
           'EMIT', 'LIST', 'EMBED', 'TRIM')


def reduced(rep, m):
    for cls in REDUCED:
        if cls not in m.classes:
            rep.note('there is no class %s' % cls)
            continue
        e = en.engine(keep={'mcall', 'store', 'setitem', 'mutate', 'dyncall'})
        e.budget = 60000
        try:
            t = en.turn(e, cls, env=T('sym', 'env'))
        except AnalysisError as x:
            rep.note('%s: %s' % (cls, x))
            continue
        rep.count('kinds of nodes')
        done = bool(t.nexts) or any(v is not t.node or len(st.log) for st, v in t.rets) or any(not str(x).startswith('exc(AttributeError') and st.log for st, x in t.raises)
        f = m.functions[en.EVAL]
        rep.check(done, 'A4', cls, 'the evaluator hands back every %s as it is' % cls, where(f))


# ---------------------------------------------------------------------- final values
STRS = ('SOURCE', 'ATOM', 'REMARK', 'STR', 'PLAIN', 'RESULT')
NUMS = ('INT', 'FLOAT')
WRAPS = ('TRIM', 'LAZY')
OPEN = ('APPLY', 'VAR', 'LAMBDA', 'L_CLOSURE', 'M_CLOSURE', 'COND_CLOSURE', 'INFIX_CLOSURE', 'SET_CLOSURE', 'EMIT', 'BUILTIN', 'BUILTIN_SPECIAL', 'LET', 'COND', 'EVAL')


def rec(name, n=[0]):
    def h(e, st, f, args, kw, node):
        v = T('call', name, args[0]) if args else T('call', name)
        e.emit(st, 'rec', name, args[0] if args else NONE)
        return [(st, v)]
    return h


def analyse(m, q, arg, e=None, heap=None):
    """a recursive function of one node, with its own calls replaced"""
    f = m.functions[q]
    ops = {x: rec(x) for x in ('_is_term', '_plain', '_plain_with_browse', 'make_ast_readable', '_ast_pretty') if x in m.functions and x != q}
    e = en.engine(keep={'rec', 'mcall'}, opaque=ops)
    for x in list(e.opaque):
        if x == q:
            del e.opaque[x]
    e.unroll, e.unroll_only = 4, True
    own = e.opaque
    base = rec(q)
    first = [True]

    def once(e_, st, fn, a, kw, n):
        return base(e_, st, fn, a, kw, n)
    e.opaque[q] = once
    return e.analyse('yugen', q, args={f.args.args[0].arg: arg}, heap=heap or {})


def instance(cls, **attrs):
    t = T('new', cls, (T('sym', '$text'),) if cls in STRS + NUMS else (), 'kind', cls)
    return t, {(t, k): v for k, v in attrs.items()}


def terms(rep, m):
    q = '_is_term'
    if q not in m.functions:
        raise AnalysisError('there is no %s()' % q)
    f = m.functions[q]
    kid, kid2 = T('sym', '$kid'), T('sym', '$kid2')

    def answers(arg, heap=None):
        rets, raises = analyse(m, q, arg, heap=heap)
        return rets, raises

    def yes(v):
        return v is TRUE or isc(v) and bool(v.args[0])

    def no(v):
        return isc(v) and not v.args[0]
    for cls in STRS + NUMS + ('int', 'float', 'None', 'LAZY'):
        if cls in ('int', 'float', 'None'):
            a, heap = {'int': C(3), 'float': C(2.5), 'None': NONE}[cls], {}
        elif cls not in m.classes:
            continue
        else:
            a, heap = instance(cls, ast=kid)
        rets, raises = answers(a, heap)
        bad = [v for st, v in rets if no(v)]
        rep.check(not bad, 'A5', 'final %s' % cls, '%s() says that a value of the kind %s is not final' % (q, cls), where(f))
    for cls in OPEN:
        if cls in m.classes:
            a, heap = instance(cls, ast=kid)
            rets, raises = answers(a, heap)
            bad = [v for st, v in rets if yes(v)]
            rep.check(not bad, 'A5', 'not final %s' % cls, '%s() says that a node of the kind %s is final' % (q, cls), where(f))
    # values with parts
    lst = T('list', 'kind', 0)
    for what, a, heap, kids in [('a list', lst, {(lst, 'items'): T('tup', kid, kid2)}, [kid, kid2]), ('TRIM', *instance('TRIM', ast=kid), [kid])]:
        if what == 'TRIM' and 'TRIM' not in m.classes:
            continue
        rets, raises = answers(a, heap)
        for st, v in rets:
            said = {k: gr.truth(st.facts, T('call', q, k)) for k in kids}
            if any(x is False for x in said.values()):
                rep.check(not yes(v), 'A5', '%s with a part' % what, '%s() says that %s is final although a part of it is not' % (q, what), where(f))
            elif no(v):
                rep.bad('A5', '%s with parts' % what, '%s() says that %s is not final although its parts are' % (q, what), where(f))
            elif yes(v) and any(x is None for x in said.values()):
                rep.bad('A5', '%s with a part' % what, '%s() does not look at all parts of %s' % (q, what), where(f))
            else:
                rep.ok('A5', '%s with parts' % what)


# ---------------------------------------------------------------------- rendering
def reach(st, v, stop):
    """all terms a value is made of, through the lists it refers to"""
    seen, todo = set(), [v]
    while todo:
        for t in todo.pop().deps():
            if t not in seen:
                seen.add(t)
                if t.op == 'list' and t is not stop:
                    i = st.heap.get((t, 'items'))
                    if isinstance(i, T):
                        todo.append(i)
    return seen


def rendered(rep, m):
    kid, kid2 = T('sym', '$kid'), T('sym', '$kid2')
    lst = T('list', 'kind', 0)
    for q in ('_plain', '_plain_with_browse', 'make_ast_readable'):
        if q not in m.functions:
            continue
        f = m.functions[q]
        cases = [(c, *instance(c), []) for c in STRS + NUMS if c in m.classes]
        cases += [(c, *instance(c, ast=kid), [kid]) for c in WRAPS + (('SET_CLOSURE',) if q == 'make_ast_readable' else ()) if c in m.classes]
        if q == 'make_ast_readable':
            cases = [(c, a, {**h, (a, 'form'): kid} if c == 'SET_CLOSURE' else h, k) for c, a, h, k in cases]
        cases += [('a list', lst, {(lst, 'items'): T('tup', kid, kid2)}, [kid, kid2])]
        for what, a, heap, kids in cases:
            try:
                rets, raises = analyse(m, q, a, heap=heap)
            except AnalysisError as x:
                rep.note('%s of %s: %s' % (q, what, x))
                continue
            for st, x in raises:
                if str(x).startswith('exc(AttributeError') or str(x).startswith('exc(TypeError'):
                    rep.bad('A6', '%s %s' % (q, what), '%s() fails for a value of the kind %s: %s' % (q, what, str(x)[:60]), where(f))
            for st, v in rets:
                if v is NONE:
                    rep.bad('A6', '%s %s' % (q, what), '%s() has no text for a value of the kind %s' % (q, what), where(f))
                    continue
                got = reach(st, v, lst)
                called = {ev[2] for ev in st.log if ev[0] == 'rec'} | {t.args[1] for t in got if t.op == 'call' and t.args[0] == q and len(t.args) > 1}
                opaque = any(t.op in ('fresh', 'phi', 'lv') for t in got)
                if kids:
                    whole = what == 'a list' and any(t.op == 'call' and t.args[0] != 'repr' and lst in t.args[1:] for t in got)
                    miss = [k for k in kids if k not in called and not whole and not opaque and not (what == 'a list' and any(t.op == 'call' and t.args[0] == 'map' and k in t.deps() for t in got))]
                    rep.check(not miss, 'A6', '%s %s' % (q, what), '%s() does not render %s of %s' % (q, 'the second part' if len(miss) < len(kids) else 'the contents', what), where(f))
                elif isc(v) and not isinstance(v.args[0], T):
                    rep.bad('A6', '%s %s' % (q, what), '%s() renders every %s as %r' % (q, what, v.args[0]), where(f))
                elif what in STRS + NUMS and not opaque and any(t.op == 'call' and t.args[0] == 'repr' and a in t.args[1:] for t in v.deps()):
                    rep.bad('A6', '%s %s' % (q, what), '%s() renders a %s as its representation' % (q, what), where(f))
                else:
                    rep.ok('A6', '%s %s' % (q, what))
