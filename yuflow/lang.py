"""Regular expressions as automata: what a matcher recognises at the start of every text, and languages of texts.

A program is compared as a machine with ordered threads (the order of the alternatives and the greed of the
repetitions matter), so that two programs are equal only if they find the same end on every text."""
import re
from re import _parser as rp, _constants as rc
from .src import AnalysisError

EOF = 'EOF'
SIGMA = frozenset(map(chr, range(128))) | {'\u00e9', '\u20ac'}
WORD = frozenset(c for c in SIGMA if c.isalnum() or c == '_')
DIGIT = frozenset('0123456789')
SPACE = frozenset(c for c in SIGMA if c.isspace())
CATS = {rc.CATEGORY_DIGIT: DIGIT, rc.CATEGORY_NOT_DIGIT: SIGMA - DIGIT, rc.CATEGORY_SPACE: SPACE, rc.CATEGORY_NOT_SPACE: SIGMA - SPACE,
        rc.CATEGORY_WORD: WORD, rc.CATEGORY_NOT_WORD: SIGMA - WORD}
MAXSIZE = 4000


class Prog:
    def __init__(self, pattern, flags=0, search=False):
        self.pattern, self.flags, self.search = pattern, flags, search
        try:
            p = rp.parse(pattern, flags)
        except (re.error, TypeError) as x:
            raise AnalysisError('%r is not a regular expression: %s' % (pattern, x))
        self.fl = p.state.flags
        self.code = []
        self.groups = p.state.groups - 1
        if search:
            # .*? before it
            a = self.emit('split')
            b = self.emit('char', SIGMA)
            c = self.emit('jmp', a)
            self.code[a] = ('split', len(self.code), b)
        self.seq(p)
        self.emit('match')
        self.sets = {x[1] for x in self.code if x[0] == 'char'}
        for x in self.code:
            if x[0] == 'look':
                self.sets |= x[1].sets

    def emit(self, *a):
        if len(self.code) > MAXSIZE:
            raise AnalysisError('the regular expression is too large')
        self.code.append(a)
        return len(self.code) - 1

    def case(self, s):
        if self.fl & re.IGNORECASE:
            return frozenset(c for c in SIGMA if c.lower() in s or c.upper() in s or c in s)
        return frozenset(s)

    def charset(self, av):
        neg, s = False, set()
        for op, a in av:
            if op is rc.NEGATE:
                neg = True
            elif op is rc.LITERAL:
                s.add(chr(a))
            elif op is rc.RANGE:
                s |= {chr(c) for c in range(a[0], a[1] + 1) if c < 0x3000}
            elif op is rc.CATEGORY:
                s |= self.cat(a)
            else:
                raise AnalysisError('%s in a set' % op)
        s = self.case(s)
        return (SIGMA - s) if neg else frozenset(s & SIGMA)

    def cat(self, a):
        s = CATS[a]
        if self.fl & re.ASCII and a in (rc.CATEGORY_WORD, rc.CATEGORY_NOT_WORD):
            s = s - {'\u00e9'} if a is rc.CATEGORY_WORD else s | {'\u00e9'}
        return s

    def seq(self, p):
        for op, av in p:
            if op is rc.LITERAL:
                self.emit('char', self.case({chr(av)}) & SIGMA)
            elif op is rc.NOT_LITERAL:
                self.emit('char', SIGMA - self.case({chr(av)}))
            elif op is rc.ANY:
                self.emit('char', SIGMA if self.fl & re.DOTALL else SIGMA - {'\n'})
            elif op is rc.IN:
                self.emit('char', self.charset(av))
            elif op is rc.BRANCH:
                ends = []
                for i, b in enumerate(av[1]):
                    last = i == len(av[1]) - 1
                    s = None if last else self.emit('split')
                    self.seq(b)
                    if not last:
                        ends.append(self.emit('jmp'))
                        self.code[s] = ('split', s + 1, len(self.code))
                for j in ends:
                    self.code[j] = ('jmp', len(self.code))
            elif op is rc.SUBPATTERN:
                g, add, dele, b = av
                if add or dele:
                    raise AnalysisError('flags inside a regular expression')
                self.seq(b)
                if g is not None:
                    self.emit('group', g)
            elif op in (rc.MAX_REPEAT, rc.MIN_REPEAT):
                lo, hi, b = av
                if hi is not rc.MAXREPEAT and hi > 64 or lo > 64:
                    raise AnalysisError('a large repetition')
                for _ in range(lo):
                    self.seq(b)
                greedy = op is rc.MAX_REPEAT
                if hi is rc.MAXREPEAT:
                    s = self.emit('split')
                    self.seq(b)
                    self.emit('jmp', s)
                    n = len(self.code)
                    self.code[s] = ('split', s + 1, n) if greedy else ('split', n, s + 1)
                else:
                    ss = []
                    for _ in range(hi - lo):
                        ss.append(self.emit('split'))
                        self.seq(b)
                    n = len(self.code)
                    for s in ss:
                        self.code[s] = ('split', s + 1, n) if greedy else ('split', n, s + 1)
            elif op in (rc.ASSERT, rc.ASSERT_NOT):
                if av[0] != 1:
                    raise AnalysisError('a look behind')
                sub = Prog.__new__(Prog)
                sub.fl, sub.code, sub.search = self.fl, [], False
                sub.seq(av[1])
                sub.emit('match')
                sub.sets = {x[1] for x in sub.code if x[0] == 'char'}
                if any(x[0] in ('look', 'at') for x in sub.code):
                    raise AnalysisError('a nested assertion')
                self.emit('look', sub, op is rc.ASSERT_NOT)
            elif op is rc.AT:
                self.emit('at', av)
            else:
                raise AnalysisError('%s in a regular expression' % op)

    # ------------------------------------------------------------ threads
    def lookset(self, sub, pcs):
        """closure of a set of positions of a look ahead; None if it has succeeded"""
        seen, todo = set(), list(pcs)
        while todo:
            pc = todo.pop()
            if pc in seen:
                continue
            seen.add(pc)
            i = sub.code[pc]
            if i[0] == 'match':
                return None
            if i[0] == 'jmp':
                todo.append(i[1])
            elif i[0] == 'split':
                todo += [i[1], i[2]]
            elif i[0] == 'group':
                todo.append(pc + 1)
        return frozenset(p for p in seen if sub.code[p][0] == 'char')

    def obliged(self, obl, sub, neg):
        s = self.lookset(sub, [0])
        if s is None:
            return None if neg else obl
        if not s:
            return obl if neg else None
        return obl | {(sub, neg, s)}

    END = None
    ENDNL = None

    def closure(self, pc, obl, flags, prev, out, seen):
        """False when a match without obligations cuts the rest"""
        stack = [(pc, obl, flags)]
        while stack:
            pc, obl, flags = stack.pop()
            if (pc, obl) in seen:
                continue
            seen.add((pc, obl))
            i = self.code[pc]
            k = i[0]
            if k == 'char':
                out.append((pc, obl, flags))
            elif k == 'jmp':
                stack.append((i[1], obl, flags))
            elif k == 'split':
                stack.append((i[2], obl, flags))
                stack.append((i[1], obl, flags))
            elif k == 'group':
                stack.append((pc + 1, obl, flags | {i[1]}))
            elif k == 'look':
                o = self.obliged(obl, i[1], i[2])
                if o is not None:
                    stack.append((pc + 1, o, flags))
            elif k == 'at':
                o = self.at(i[1], obl, prev)
                if o is not None:
                    stack.append((pc + 1, o, flags))
            else:
                out.append(('M', obl, flags, 0))
                if not obl:
                    return False
        return True

    def at(self, kind, obl, prev):
        multi = self.fl & re.MULTILINE
        if kind in (rc.AT_BEGINNING, rc.AT_BEGINNING_STRING):
            return obl if prev is None or multi and kind is rc.AT_BEGINNING and prev == '\n' else None
        if kind is rc.AT_END_STRING:
            return self.obliged(obl, chars([frozenset({EOF})]), False)
        if kind is rc.AT_END:
            return self.obliged(obl, chars([frozenset({EOF})], [frozenset({'\n'})] + ([] if multi else [frozenset({EOF})])), False)
        if kind in (rc.AT_BOUNDARY, rc.AT_NON_BOUNDARY):
            want = WORD if (prev in WORD if prev else False) == (kind is rc.AT_NON_BOUNDARY) else SIGMA - WORD | {EOF}
            return self.obliged(obl, chars([want]), False)
        raise AnalysisError('%s in a regular expression' % kind)

    def start(self):
        out = []
        self.closure(0, frozenset(), frozenset(), None, out, set())
        return self.settle(out, None)

    def settle(self, threads, rec):
        """record the first settled match and cut what has a lower rank"""
        res = []
        for t in threads:
            if t[0] == 'M' and not t[1]:
                return tuple(res), (t[3], t[2])
            res.append(t)
        return tuple(res), rec

    def step(self, threads, rec, c):
        if rec is not None:
            rec = (rec[0] + 1, rec[1])
        out, seen = [], set()
        for t in threads:
            obl = set()
            ok = True
            for sub, neg, s in t[1]:
                nxt = [p + 1 for p in s if c in sub.code[p][1]]
                n = self.lookset(sub, nxt) if nxt else frozenset()
                if n is None:
                    if neg:
                        ok = False
                elif not n:
                    if not neg:
                        ok = False
                else:
                    obl.add((sub, neg, n))
            if not ok:
                continue
            obl = frozenset(obl)
            if t[0] == 'M':
                out.append(('M', obl, t[2], t[3] + 1))
                if not obl:
                    break
            elif c in self.code[t[0]][1]:
                if not self.closure(t[0] + 1, obl, t[2], c, out, seen):
                    break
        if c == EOF:
            out = [t if t[0] != 'M' else ('M', frozenset(o for o in t[1] if not o[1]), t[2], t[3]) for t in out if t[0] == 'M' and not any(not o[1] for o in t[1])]
            out = [(t[0], frozenset(), t[2], t[3]) for t in out]
        return self.settle(out, rec)


_chars = {}


def chars(*seqs):
    """a look ahead for one of some sequences of sets"""
    k = tuple(tuple(s) for s in seqs)
    if k not in _chars:
        p = Prog.__new__(Prog)
        p.fl, p.code, p.search = 0, [], False
        ends = []
        for i, s in enumerate(seqs):
            last = i == len(seqs) - 1
            if not last:
                a = p.emit('split')
            for x in s:
                p.emit('char', x)
            if not last:
                ends.append(p.emit('jmp'))
                p.code[a] = ('split', a + 1, len(p.code))
        for j in ends:
            p.code[j] = ('jmp', len(p.code))
        p.emit('match')
        p.sets = {x[1] for x in p.code if x[0] == 'char'}
        _chars[k] = p
    return _chars[k]


def minterms(sets):
    cls = {}
    for c in sorted(SIGMA):
        cls.setdefault(tuple(c in s for s in sets), []).append(c)
    pref = lambda l: next((c for c in l if c.isalnum()), next((c for c in l if c.isprintable()), l[0]))
    return [pref(l) for l in cls.values()]


class Choice:
    """an ordered choice of programs, each with the kind of what it recognises; kinds may depend on the groups that took part"""
    def __init__(self, *alts):
        self.alts = [(p, k if callable(k) else (lambda g, k=k: k)) for p, k in alts]

    def sets(self):
        return set().union(*[p.sets for p, _ in self.alts]) if self.alts else set()

    def start(self):
        return tuple(p.start() for p, _ in self.alts)

    def step(self, st, c):
        return tuple(p.step(th, rec, c) for (p, _), (th, rec) in zip(self.alts, st))

    def result(self, st):
        """(kind, age) after the end"""
        for (p, k), (th, rec) in zip(self.alts, st):
            if rec is not None:
                return k(rec[1]), rec[0]
        return None, None


def norm(states):
    """ages relative to each other, clipped"""
    ages = sorted({r[0] for st in states for _, r in st if r is not None} | {t[3] for st in states for th, _ in st for t in th if t[0] == 'M'})
    m, base, last = {}, 0, None
    for a in ages:
        base = min(a, 3) if last is None else base + min(a - last, 3)
        m[a] = base
        last = a
    return tuple(tuple((tuple((t[0], t[1], t[2], m[t[3]]) if t[0] == 'M' else t for t in th), None if r is None else (m[r[0]], r[1])) for th, r in st) for st in states)


def compare(a, b, limit=60000):
    """a text on which two recognisers find different ends or kinds, or None; with the number of states looked at"""
    syms = minterms(sorted(a.sets() | b.sets(), key=sorted))
    s0 = norm((a.start(), b.start()))
    seen = {s0: None}
    todo = [s0]
    n = 0
    while todo:
        nxt = []
        for s in todo:
            n += 1
            if n > limit:
                raise AnalysisError('too many states')
            ra, rb = a.result(a.step(s[0], EOF)), b.result(b.step(s[1], EOF))
            if ra != rb:
                w, x = [], s
                while seen[x] is not None:
                    x, c = seen[x]
                    w.append(c)
                w = ''.join(reversed(w))
                return (w, show(w, ra), show(w, rb)), n
            for c in syms:
                x = norm((a.step(s[0], c), b.step(s[1], c)))
                if x not in seen:
                    seen[x] = (s, c)
                    nxt.append(x)
        todo = nxt
    return None, n


def show(w, r):
    if r[0] is None:
        return 'nothing'
    return '%s %r' % (r[0], w[:len(w) - (r[1] - 1)] if r[1] <= len(w) + 1 else '')


# ---------------------------------------------------------------------- languages of whole texts
class Lang:
    """a deterministic automaton over representatives"""
    def __init__(self, syms, start, step, final):
        """explore a machine with hashable states"""
        self.syms = tuple(syms)
        ids, todo, self.trans, self.fin = {start: 0}, [start], [], []
        while todo:
            s = todo.pop(0)
            row = []
            for c in self.syms:
                x = step(s, c)
                if x not in ids:
                    if len(ids) > 20000:
                        raise AnalysisError('too many states')
                    ids[x] = len(ids)
                    todo.append(x)
                row.append(ids[x])
            self.trans.append(row)
            self.fin.append(bool(final(s)))

    def go(self, s, c):
        return self.trans[s][self.syms.index(c)]

    def both(self, o, f):
        return Lang(self.syms, (0, 0), lambda s, c: (self.go(s[0], c), o.go(s[1], c)), lambda s: f(self.fin[s[0]], o.fin[s[1]]))

    def __and__(self, o):
        return self.both(o, lambda a, b: a and b)

    def __or__(self, o):
        return self.both(o, lambda a, b: a or b)

    def __sub__(self, o):
        return self.both(o, lambda a, b: a and not b)

    def witness(self):
        """a shortest member"""
        seen, todo = {0: ''}, [0]
        while todo:
            s = todo.pop(0)
            if self.fin[s]:
                return seen[s]
            for i, c in enumerate(self.syms):
                x = self.trans[s][i]
                if x not in seen:
                    seen[x] = seen[s] + c
                    todo.append(x)
        return None

    def closed(self, eps, step, start=(0,), final=None):
        """determinise: states are sets; eps(s) -> more states"""
        def close(ss):
            seen, todo = set(ss), list(ss)
            while todo:
                for x in eps(todo.pop()):
                    if x not in seen:
                        seen.add(x)
                        todo.append(x)
            return frozenset(seen)
        return Lang(self.syms, close(start), lambda S, c: close({x for s in S for x in step(s, c)}), lambda S: any(final(s) for s in S))

    def erase(self, chars_):
        """without these characters"""
        return self.closed(lambda s: [self.go(s, c) for c in self.syms if c in chars_], lambda s, c: [] if c in chars_ else [self.go(s, c)], final=lambda s: self.fin[s])

    def chop(self):
        """without the last character"""
        return Lang(self.syms, 0, self.go, lambda s: any(self.fin[self.go(s, c)] for c in self.syms))

    def behead(self):
        return self.closed(lambda s: [], lambda s, c: [self.go(s, c)], start=[self.go(0, c) for c in self.syms], final=lambda s: self.fin[s])

    def rename(self, f):
        """a letter for a letter"""
        return self.closed(lambda s: [], lambda s, c: [self.go(s, d) for d in self.syms if f(d) == c], final=lambda s: self.fin[s])

    def rstrip(self, chars_):
        x = self
        # members without a tail of these characters, the tail not ending in them
        fin = set()
        for s in range(len(self.trans)):
            seen, todo = {s}, [s]
            while todo:
                y = todo.pop()
                if self.fin[y]:
                    fin.add(s)
                    break
                for c in self.syms:
                    if c in chars_ and self.go(y, c) not in seen:
                        seen.add(self.go(y, c))
                        todo.append(self.go(y, c))
        return Lang(self.syms, (0, False), lambda s, c: (self.go(s[0], c), c in chars_), lambda s: s[0] in fin and not s[1])

    def after(self, w):
        s = 0
        for c in w:
            if c not in self.syms:
                return None
            s = self.go(s, c)
        return s

    def replace_prefix(self, pairs, ahead):
        """every member with the prefix p and a character of ahead next: q instead of p"""
        starts = []
        for p, q in pairs:
            s = self.after(p)
            if s is not None:
                starts.append((q, s, p))
        keep = self
        for p, q in pairs:
            n = len(p)
            pre = Lang(self.syms, 0, lambda s, c, p=p, n=n: (s + 1 if s < n and c == p[s] else n + 1 if s == n and c in ahead else n + 1 if s == n + 1 else -1), lambda s, n=n: s == n + 1)
            keep = keep - pre
        res = keep
        for q, s0, p in starts:
            n = len(q)
            # q, then what follows p in the language, the first of it in ahead
            def step(s, c, q=q, n=n, s0=s0):
                if isinstance(s, tuple):
                    return ('in', self.go(s[1], c))
                if s == n:
                    return ('in', self.go(s0, c)) if c in ahead else -1
                return s + 1 if 0 <= s < n and q[s] == c else -1
            res = res | Lang(self.syms, 0, step, lambda s: isinstance(s, tuple) and self.fin[s[1]])
        return res


def whole(prog, syms):
    """the texts that a program recognises as a whole"""
    def step(s, c):
        th, rec = prog.step(s[0], s[1], c)
        if rec is not None and rec[0] > 0:
            rec = (9, rec[1])
        return norm1((th, rec))

    def final(s):
        _, rec = prog.step(s[0], s[1], EOF)
        return rec is not None and rec[0] == 1
    return Lang(syms, norm1(prog.start()), step, final)


def norm1(s):
    th, rec = s
    if any(t[0] == 'M' for t in th):
        return (tuple(('M', t[1], t[2], min(t[3], 5)) if t[0] == 'M' else t for t in th), rec)
    return s


def finite(prog):
    """the members of a finite language of a program, with the text of each group; [(text, {group: text})]"""
    res = []

    def run(pc, w, groups, n):
        if n > 200 or len(res) > 60:
            raise AnalysisError('not a small language')
        i = prog.code[pc]
        if i[0] == 'char':
            if len(i[1]) > 12:
                raise AnalysisError('not a small language')
            for c in sorted(i[1]):
                run(pc + 1, w + c, groups, n + 1)
        elif i[0] == 'jmp':
            run(i[1], w, groups, n + 1)
        elif i[0] == 'split':
            run(i[1], w, groups, n + 1)
            run(i[2], w, groups, n + 1)
        elif i[0] == 'group':
            run(pc + 1, w, dict(groups, **{str(i[1]): w}), n + 1)
        elif i[0] == 'at' and i[1] in (rc.AT_BEGINNING, rc.AT_BEGINNING_STRING):
            run(pc + 1, w, groups, n + 1)
        elif i[0] == 'look' and prog.code[pc + 1][0] == 'match' and not i[2] and len(i[1].code) == 2 and i[1].code[0][0] == 'char':
            res.append((w, groups, i[1].code[0][1]))
        elif i[0] == 'match':
            res.append((w, groups, None))
        else:
            raise AnalysisError('not a small language')
    run(0, '', {}, 0)
    return res
