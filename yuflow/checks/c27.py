"""C27 - reduction and trimming change only white space of the output's own lines."""
import itertools, re
from ..src import Repo, AnalysisError, where
from ..terms import T, C, NONE, TRUE, FALSE, isc
from .. import evalnode as en
from .c18 import linear

TECHNIQUE = 'abstract interpretation of the functions that rebuild the text, over texts of a few symbolic lines that are abstracted to empty or not empty; the rebuilt text and its offsets are compared with those that the rule defines'
NOTE = ('Texts of up to four lines, whatever the lines contain; more lines only repeat the states of the loop. Functions that divide the text in a way that is not known (not splitlines, split, or a regular expression) are noted. '
        'What dedent of the standard library does is taken from its documentation.')
ASSUMPTIONS = ['a text that reaches the reduction has line feeds as line ends (sources are read with universal line ends)']
G = 'pp/yugen.py'
RED = 'reduce_emptiness'
WIDE = 'a\x0cb\u2028c\x1dd\x85e'


def run(rep):
    rep.rule('E1', 'with reduction on, of successive empty lines exactly the first stays, every other line stays in place, and at most its trailing white space is removed')
    rep.rule('E2', 'only line ends divide a text into the lines that are reduced or indented')
    rep.rule('E3', 'the offsets of a reduced text give, for each place where lines were removed, the position after the lines that stay and the length of all that were removed before')
    rep.rule('E4', 'a substituted text of several lines gets the indent of its application before each line but the first, and nothing else is put into it')
    m = Repo.get().mod('yugen')
    for f in (reduction, trimming):
        try:
            f(rep, m)
        except AnalysisError as x:
            rep.note('%s: %s' % (f.__name__, x))


def w(m, q):
    return where(m.functions[q]) if q in m.functions else G


class Lines:
    """a text of symbolic lines, each empty (white space only) or not"""
    def __init__(self, kinds, text, aliases=()):
        self.kinds, self.text = kinds, text
        self.n = len(kinds)
        self.bare = [T('sym', '$line', i) for i in range(self.n)]
        self.full = [T('sym', '$line and end', i) for i in range(self.n)]
        self.right = [T('sym', '$line without trailing space', i) for i in range(self.n)]
        self.mid = [T('sym', '$line stripped', i) for i in range(self.n)]
        self.rest = [T('sym', '$rest of line', i) for i in range(self.n)]
        self.lead = [T('sym', '$indent of line', i) for i in range(self.n)]
        self.texts = {text} | set(aliases)
        self.wide = []
        self.extra = set()
        self.facts = {}
        for i, k in enumerate(kinds):
            self.facts[T('truth', self.full[i])] = True
            if k:
                self.facts[T('truth', self.right[i])] = self.facts[T('truth', self.mid[i])] = self.facts[T('truth', self.rest[i])] = self.facts[T('truth', self.bare[i])] = True
                for a in (self.right[i], self.mid[i]):
                    self.facts[T('eq', a, C(''))] = False
                for a in (self.rest[i], self.full[i]):
                    self.facts[T('eq', a, C('\n'))] = False
                self.facts[T('eq', self.bare[i], C(''))] = False

    def whole(self, t):
        while t not in self.texts:
            if t.op == 'str' or t.op == 'new' and t.args[1]:
                t = t.args[1][0] if t.op == 'new' else t.args[0]
            elif t.op == 'call' and t.args[0] in ('str', 'textwrap.dedent', 'dedent') and len(t.args) == 2:
                t = t.args[1]
            else:
                return False
        return True

    def item(self, t):
        for k in ('bare', 'full', 'right', 'mid', 'rest', 'lead'):
            for i, x in enumerate(getattr(self, k)):
                if x is t:
                    return k, i
        return None

    def parts(self, ends):
        return self.full if ends else self.bare

    def divided(self, e, st, pieces, node, end=()):
        return e.x_list(st, [T('tup', *(tuple(pieces) + tuple(end)))], {}, node)

    def by_regex(self, e, st, pat, flags, how, node):
        try:
            r = re.compile(pat, flags)
        except (re.error, TypeError):
            return None
        f = {'findall': r.findall, 'split': r.split, 'finditer': None}[how]
        if f is None:
            return None
        got = f('a\n\nb c\n')
        if f(WIDE + '\n')[0] not in (WIDE, WIDE + '\n'):
            self.wide.append(e.site(node))
        if got == ['a\n', '\n', 'b c\n']:
            return self.divided(e, st, self.full, node)
        if got == ['a', '', 'b c', '']:
            return self.divided(e, st, self.bare, node, (C(''),))
        if got == ['a', '', 'b c']:
            return self.divided(e, st, self.bare, node)
        return None

    def method(self, e, st, recv, name, args, kw, node):
        """result of a method call on the text or a line, None: unknown"""
        if recv.op == 'call' and recv.args[0] == 're.compile' and name in ('findall', 'split') and len(args) == 1 and self.whole(args[0]):
            if all(isc(x) for x in recv.args[1:]):
                a = [x.args[0] for x in recv.args[1:]]
                return self.by_regex(e, st, a[0], a[1] if len(a) > 1 else 0, name, node)
            return None
        if self.whole(recv):
            if name == 'splitlines':
                k = args[0] if args else kw.get('keepends', FALSE)
                if not isc(k):
                    return None
                self.wide.append(e.site(node))
                return self.divided(e, st, self.parts(k.args[0]), node)
            if name == 'split' and args and args[0] is C('\n') and not kw and len(args) == 1:
                return self.divided(e, st, self.bare, node, (C(''),))
            if name == 'endswith' and args and args[0] is C('\n'):
                return [(st, TRUE)]
            return None
        at = self.item(recv)
        if at is None:
            return None
        k, i = at
        full = self.kinds[i]
        if kw:
            return None
        if name in ('strip', 'rstrip', 'lstrip') and (not args or isc(args[0]) and args[0].args[0] is None) and k in ('bare', 'full', 'right', 'mid'):
            if not full:
                return [(st, C(''))]
            if name == 'strip':
                return [(st, self.mid[i])]
            if name == 'rstrip':
                return [(st, self.right[i] if k != 'mid' else self.mid[i])]
            return None
        if name == 'rstrip' and k == 'full' and args and isc(args[0]) and isinstance(args[0].args[0], str) and set(args[0].args[0]) <= set('\r\n') and '\n' in args[0].args[0]:
            return [(st, self.bare[i])]
        if name == 'isspace' and not args and k in ('full',):
            return [(st, C(not full))]
        if name == 'endswith' and k == 'full' and args and args[0] is C('\n'):
            return [(st, TRUE)]
        return None

    def space(self, e, st, f, args, kw, node):
        at = self.item(args[0]) if args else None
        if at is None or at[0] not in ('bare', 'full'):
            return None
        i = at[1]
        if self.kinds[i]:
            return [(st, T('tup', self.rest[i], self.lead[i]))]
        return [(st, T('tup', C('\n') if at[0] == 'full' else C(''), self.lead[i]))]


def engine_for(ls):
    e = en.engine(opaque={'_merge_offset': merge, 'ps_space': ls.space})
    inner = e.method

    def method(st, recv, name, args, kw, node, f):
        r = ls.method(e, st, recv, name, args, kw, node)
        return r if r is not None else inner(st, recv, name, args, kw, node, f)
    e.method = method
    e.budget = 200000
    e.unroll = 8
    return e


def merge(e, st, f, args, kw, node):
    return [(st, T('call', '_merge_offset', *args))]


# ---------------------------------------------------------------------- reading the result
def flatten(ls, st, t):
    """the text as [part]; None: unknown"""
    if t in ls.extra:
        return [t]
    if t.op == 'slice' and ls.item(t.args[0]) and t.args[2] is NONE:
        return [t.args[0]]
    if isc(t) and isinstance(t.args[0], str):
        return [t.args[0]] if t.args[0] else []
    if ls.item(t):
        return [t]
    if t.op == 'bin' and t.args[0] == 'Add':
        a, b = flatten(ls, st, t.args[1]), flatten(ls, st, t.args[2])
        return None if a is None or b is None else a + b
    if t.op == 'call' and t.args[0] == '.join' and len(t.args) == 3:
        seq = t.args[2]
        items = st.heap.get((seq, 'items')) if seq.op in ('list',) else seq if seq.op == 'tup' else None
        if items is None or any(x.op == 'star' for x in items.args):
            return None
        out = []
        for i, x in enumerate(items.args):
            if i:
                y = flatten(ls, st, t.args[1])
                if y is None:
                    return None
                out += y
            y = flatten(ls, st, x)
            if y is None:
                return None
            out += y
        return out
    if t.op == 'str' or t.op == 'call' and t.args[0] == 'str' and len(t.args) == 2:
        return flatten(ls, st, t.args[-1])
    if t.op == 'new' and t.args[0] in ('RESULT', 'PLAIN', 'STR') and t.args[1]:
        return flatten(ls, st, t.args[1][0])
    return None


def difference(a, b):
    d = linear(a)
    for k, n in linear(b).items():
        d[k] = d.get(k, 0) - n
    return {k: n for k, n in d.items() if n}


def lengths_only(ls, d):
    return all(k == 1 or isinstance(k, tuple) and k[0] == 'len' and k[1] in ls.full for k in d)


def decided(ls, f):
    """truth of a comparison of lengths, a line with its end is at least one character long; None: unknown"""
    if f.op not in ('eq', 'lt'):
        return None
    d = difference(*f.args)
    if not lengths_only(ls, d):
        return None
    sign = {n > 0 for n in d.values()}
    if f.op == 'eq':
        return True if not d else False if len(sign) == 1 else None
    return False if not d or sign == {True} else True if sign == {False} else None


def feasible(ls, st):
    """-> (the path can be taken, the conditions that the abstraction does not decide)"""
    every = {x for k in ('bare', 'full', 'right', 'mid', 'rest', 'lead') for x in getattr(ls, k)}
    odd = []
    for f, v in st.facts.items():
        if f in ls.facts or not f.deps() & every:
            continue
        d = decided(ls, f)
        if d is None:
            odd.append(f)
        elif d is not v:
            return False, []
    return True, odd


def tokens(ls, parts):
    """the text as output lines of [(line, form)], what follows the last line end, and characters that are not of the text"""
    lines, cur, strange = [], [], ''
    for x in parts:
        if isinstance(x, str):
            for c in x:
                if c == '\n':
                    lines.append(cur)
                    cur = []
                else:
                    strange += c
        else:
            k, i = ls.item(x)
            cur.append((i, {'bare': 'whole', 'full': 'whole', 'right': 'right'}.get(k, k)))
            if k == 'full':
                lines.append(cur)
                cur = []
    return lines, cur, strange


def kept(kinds):
    return [i for i, k in enumerate(kinds) if k or not i or kinds[i - 1]]


def text_of(m, browse):
    if browse:
        t = T('new', 'RESULT', (T('sym', '$text'),), 'scene', 'text')
        return t, {(t, 'browse'): T('sym', '$browse'), (t, 'offset'): T('sym', '$offset')}
    return T('sym', '$text'), {}


def picture(kinds):
    return ''.join('x' if k else '-' for k in kinds)


def reduction(rep, m):
    if RED not in m.functions:
        rep.note('there is no ' + RED)
        return
    for browse in (False, True):
        if browse and 'RESULT' not in m.classes:
            continue
        for n in range(1, 5):
            for kinds in itertools.product((0, 1), repeat=n):
                t, h = text_of(m, browse)
                ls = Lines(kinds, t)
                e = engine_for(ls)
                if browse:
                    e.modobjs = set(e.modobjs) | {t}
                g = e.globals(m.functions[RED]._modname)
                h[(g['config'], 'pp_reduce_emptiness')] = TRUE
                try:
                    rets, raises = e.analyse('yugen', RED, args={m.functions[RED].args.args[0].arg: t}, heap=h,
                                             facts=dict(ls.facts, **{}) | {T('isinst', t, 'RESULT'): browse, T('truth', t): True})
                except AnalysisError as x:
                    rep.note('%s, lines %s: %s' % (RED, picture(kinds), x))
                    continue
                key = '%s, lines %s' % ('with browse information' if browse else 'plain', picture(kinds))
                for st, r in rets:
                    ok, odd = feasible(ls, st)
                    if ok:
                        rep.count('paths of the reduction')
                        one_reduced(rep, m, ls, st, r, odd, key, browse)
                if ls.wide:
                    rep.bad('E2', RED, 'the text is also divided at characters that are no line ends (form feed, U+2028), at ' + str(ls.wide[0]), w(m, RED))
                    return
                rep.ok('E2', key)


def one_reduced(rep, m, ls, st, r, odd, key, browse):
    parts = [x for x in ls.full] if ls.whole(r) and (r is ls.text or r.op != 'call') else flatten(ls, st, r)
    if r.op == 'new' and r.args[0] == 'RESULT' and r is not ls.text and not ls.whole(r.args[1][0]):
        parts = flatten(ls, st, r)
    if parts is None or odd:
        rep.note('%s: the result is not followed%s' % (key, ' (a condition on a line: %s)' % str(odd[0])[:60] if odd else ''))
        return
    lines, tail, strange = tokens(ls, parts)
    want = kept(ls.kinds)
    bad = None
    if strange:
        bad = 'the text gets %r' % strange
    elif tail:
        bad = 'the last line loses its end'
    elif len(lines) != len(want):
        bad = '%d lines stay, not %d' % (len(lines), len(want))
    else:
        for x, i in zip(lines, want):
            if ls.kinds[i] and x not in ([(i, 'whole')], [(i, 'right')]) or not ls.kinds[i] and x not in ([], [(i, 'whole')], [(i, 'right')]):
                bad = 'in place of line %d there is %s' % (i + 1, ', '.join('line %d (%s)' % (j + 1, f) for j, f in x) or 'an empty line')
                break
    rep.check(bad is None, 'E1', key, 'of the lines %s (x: not empty, -: empty) %s' % (picture(ls.kinds), bad), w(m, RED))
    if bad is None and browse:
        offsets(rep, m, ls, st, r, key)


def offsets(rep, m, ls, st, r, key):
    of = st.heap.get((r, 'offset'))
    if of is None and r.op == 'new' and len(r.args[1]) > 2:
        of = r.args[1][2]
    if of is None:
        return
    if of.op == 'call' and of.args[0] == '_merge_offset':
        of = of.args[-1]
    if r is ls.text or ls.whole(r):
        got = [] if of is T('sym', '$offset') else None
    else:
        it = st.heap.get((of, 'items')) if of.op == 'list' else of if of.op == 'tup' else None
        if of is T('sym', '$offset') and len(kept(ls.kinds)) == len(ls.kinds):
            it = T('tup')
        got = [x.args for x in it.args] if it is not None and all(x.op == 'tup' and len(x.args) == 2 for x in it.args) else None
    if got is None:
        rep.note('%s: the offsets are not followed' % key)
        return
    want, pos, total = [], C(0), C(0)
    stay = set(kept(ls.kinds))
    for i in range(ls.n):
        ln = T('call', 'len', ls.full[i])
        if i in stay:
            pos = T('bin', 'Add', pos, ln)
        else:
            total = T('bin', 'Add', total, ln)
            if want and not difference(want[-1][0], pos):
                want.pop()
            want.append((pos, total))
    last = []
    for p, d in got:
        if not all(lengths_only(ls, linear(x)) for x in (p, d)):
            rep.note('%s: the offsets are not followed' % key)
            return
        if last and not difference(last[-1][0], p):
            last.pop()
        last.append((p, d))
    same = len(last) == len(want) and all(not difference(a, c) and not difference(b, d) for (a, b), (c, d) in zip(last, want))
    rep.check(same, 'E3', key, 'of the lines %s (x: not empty, -: empty) the offsets are not those of the lines that were removed' % picture(ls.kinds), w(m, RED))


# ---------------------------------------------------------------------- indents
def trimming(rep, m):
    for q, browse in (('TRIM.trim', False), ('TRIM.trim_with_browse', True), ('PLAIN.add_indent', False)):
        if q not in m.functions:
            rep.note('there is no ' + q)
            continue
        for kinds in itertools.product((0, 1), repeat=3):
            indented(rep, m, q, browse, kinds)


def indented(rep, m, q, browse, kinds):
    t, h = text_of(m, browse)
    if q.startswith('PLAIN'):
        t = T('new', 'PLAIN', (T('sym', '$text'),), 'scene', 'text')
        h = {(t, 'indent'): T('sym', '$own indent'), (t, 'trim'): FALSE}
    ls = Lines(kinds, t)
    ind = T('sym', '$indent')
    ls.extra = {ind}
    e = engine_for(ls)
    f = m.functions[q]
    ps = [a.arg for a in f.args.args]
    facts = dict(ls.facts)
    facts.update({T('truth', t): True, T('is', T('sym', '$own indent'), NONE): False, T('truth', ind): True, T('isinst', ind, 'str'): True})
    if q.startswith('PLAIN'):
        args = {ps[0]: t, ps[1]: ind}
        e.modobjs = set(e.modobjs) | {t}
    else:
        me = T('new', 'TRIM', (), 'scene', 'self')
        h[(me, 'indent')] = ind
        args = {ps[0]: me, ps[1]: t}
        e.modobjs = set(e.modobjs) | {t, me}
    g = e.globals(f._modname)
    h[(g['config'], 'pp_trim_app_indent')] = TRUE
    key = '%s, lines %s' % (q, picture(kinds))
    try:
        rets, raises = e.analyse('yugen', q, args=args, heap=h, facts=facts)
    except AnalysisError as x:
        rep.note('%s: %s' % (key, x))
        return
    if ls.wide:
        rep.bad('E2', q, 'the text is also divided at characters that are no line ends (form feed, U+2028), at ' + str(ls.wide[0]), w(m, q))
    else:
        rep.ok('E2', key)
    good, wrong, dark = 0, [], 0
    for st, r in rets:
        ok, odd = feasible(ls, st)
        if not ok:
            continue
        parts = flatten(ls, st, r) if not (r.op == 'new' and r is t) else None
        if parts is None:
            dark += 1
            continue
        bad = wrongly(ls, ind, parts)
        if bad:
            wrong.append(bad)
        else:
            good += 1
    rep.count('paths of the indenting functions', good + len(wrong) + dark)
    if wrong and not good and not dark:
        rep.bad('E4', key, 'of the lines %s (x: not empty, -: empty) %s' % (picture(kinds), wrong[0]), w(m, q))
    elif good and not wrong:
        rep.ok('E4', key)
    else:
        rep.note('%s: the result is not followed' % key)


def wrongly(ls, ind, parts):
    """what is wrong with an indented text"""
    n, lead = 0, []
    for x in parts:
        if x is ind or isinstance(x, str):
            lead.append(x)
            continue
        k, i = ls.item(x)
        if k != 'full' and not (k in ('right', 'bare') and False):
            return 'line %d is changed (%s)' % (i + 1, k)
        if i != n:
            return 'line %d comes in place of line %d' % (i + 1, n + 1)
        want = [] if i == 0 else [ind]
        if lead != want and not (not ls.kinds[i] and lead == []):
            return 'before line %d there is %s' % (i + 1, 'no indent' if not lead else 'an indent' if lead == [ind] else 'something else than one indent')
        n, lead = n + 1, []
    if n != ls.n:
        return '%d lines are missing' % (ls.n - n)
    return None if lead in ([], [ind]) else 'something is added at the end'
