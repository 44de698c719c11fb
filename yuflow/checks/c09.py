"""C09 - the parser neither drops, duplicates nor invents input text."""
import ast, itertools
from ..src import Repo, AnalysisError, where
from ..terms import T, C, NONE, TRUE, isc
from .. import grammar as gr
from .. import evalnode as en

TECHNIQUE = 'abstract interpretation of every grammar rule with the other rules replaced by what a rule promises; the rest, the result and the facts of every path are compared'
NOTE = 'What a rule promises to its callers is what these rules check of it (assume-guarantee over the rules of the grammar).'
ASSUMPTIONS = ['regular expressions match what the re module says they match']
FILE = 'pp/yugen.py'
DROPS = ('ps_comment',)                  # rules whose text is dropped on purpose


def run(rep):
    rep.rule('G1', 'the rest that a rule hands on is an end of the text it was given')
    rep.rule('G2', 'a rule that does not recognise its construct leaves the text where it was')
    rep.rule('G3', 'the marks that a rule skips are exactly those it has seen')
    rep.rule('G4', 'a piece of text in the result is exactly the text between its start and the rest')
    rep.rule('G5', 'every construct that was recognised and consumed becomes a part of the result')
    rep.rule('G6', 'successive texts are whole: pieces follow one another without a gap or an overlap')
    rep.rule('G7', 'a part of a text keeps the file and its own position')
    rep.rule('G8', 'a text in brackets ends at the bracket that belongs to it')
    rep.rule('G9', 'the header of a Python source is the beginning of its tree')
    m = Repo.get().mod('yugen')
    rs = gr.rules(m)
    if len(rs) < 10:
        raise AnalysisError('the grammar rules were not found')
    for q in rs:
        try:
            r = gr.extract(q)
        except AnalysisError as x:
            rep.note('%s: %s' % (q, x))
            continue
        rep.count('grammar rules')
        rep.count('paths', len(r.rets) + len(r.yields))
        rep.count('turns of loops', sum(len(b) for s, h, b in r.loops))
        for st, rest, node in r.rets:
            if gr.feasible(st.facts):
                result(rep, r, st, rest, node)
        for st, v in r.yields:
            if v.op == 'tup' and len(v.args) >= 2 and gr.feasible(st.facts):
                result(rep, r, st, v.args[0], v.args[1], True)
        turns(rep, r)
        refused(rep, r)
    for f in (texts, plains, slices, header):
        try:
            f(rep, m)
        except AnalysisError as x:
            rep.note('%s: %s' % (f.__name__, x))


def known_text(t):
    """is this a term whose relation to the text is fully known?"""
    return isc(t) or t is gr.SOU


def w(r):
    return where(r.func)


def result(rep, r, st, rest, node, gen=False):
    q, facts = r.name, st.facts
    base, steps = gr.chain(rest)
    if steps is None:
        if base_of(rest) is gr.SOU and definite_cut(rest):
            rep.bad('G1', q, '%s hands on a part of the text that is not its end: %s' % (q, str(rest)[:100]), w(r))
        return
    if isc(base):
        if gen or gr.is_none(facts, node) is not None:
            rep.bad('G1', q, '%s hands on %r instead of the end of its text' % (q, base.args[0]), w(r))
        return
    full = gr.path_to(r, rest)
    if full is None:
        rep.note('%s: the rest %s is not understood' % (q, str(base)[:60]))
        return
    if any(s.kind == '?' or s.kind == 'k' and s.val < 0 for s in full):
        bad = [s for s in full if s.kind == 'k' and s.val < 0]
        if bad:
            rep.bad('G1', q, '%s hands on the last %d characters, not the rest' % (q, -bad[0].val), w(r))
        return
    rep.ok('G1', '%s %s' % (q, str(rest)[:60]))
    none = gr.is_none(facts, node)
    live = gr.live_steps(full, facts)
    if not gen and none is not False:
        # the case that the construct was not recognised
        f2 = dict(facts)
        if none is None:
            f2[T('is', node, NONE)] = True
        left = [s for s in gr.live_steps(full, f2) if s.kind != 'loop']
        unsure = none is None and not (node.op == 'call' and node.args[0] == '$node')
        if left and not unsure:
            rep.bad('G2', '%s after %s' % (q, left[0]), '%s reports that nothing was recognised, but has consumed %s' % (q, words(left)), w(r))
        elif not left:
            rep.ok('G2', q)
        if none is True:
            return
    if q == 'ps_header_python':
        kept(rep, r, st, live, node)
        return
    pieces(rep, r, st, base, steps, live, node)
    marks(rep, r, st, base, steps, node)
    closing(rep, r, st, rest, full)
    kept(rep, r, st, live, node)
    brackets(rep, r, st, steps, live)


def base_of(t):
    while t.op == 'slice':
        t = t.args[0]
    return t


def definite_cut(t):
    while t.op == 'slice':
        if t.args[2] is not NONE and isc(t.args[2]):
            return True
        t = t.args[0]
    return False


def words(steps):
    return ', '.join({'k': '%s character(s)' % s.val, 'rule': s.name, 'gen': 'a text', 'v': 'characters', 'loop': 'repetitions'}.get(s.kind, s.kind) for s in steps)


# ---------------------------------------------------------------------- marks
def facts_at(facts, q):
    """-> (known {offset: length of a positive comparison}, unclear) of the text q"""
    known, unclear = [], False

    def off(t):
        if t is q:
            return 0
        if t.op == 'slice' and t.args[0] is q and isc(t.args[1]) and t.args[2] is NONE and isinstance(t.args[1].args[0], int):
            return t.args[1].args[0]
        return None

    def piece(t):
        """(offset, length or None) of a slice with constant ends"""
        if t.op == 'slice' and t.args[0] is q and isc(t.args[2]) and isinstance(t.args[2].args[0], int) and (t.args[1] is NONE or isc(t.args[1])):
            return t.args[1].args[0] or 0 if isc(t.args[1]) else 0
        if t.op == 'sub' and off(t.args[0]) is not None and isc(t.args[1]) and isinstance(t.args[1].args[0], int):
            return off(t.args[0]) + t.args[1].args[0]
        if t.op == 'call' and t.args[0] == 'ord' and len(t.args) == 2:
            return piece(t.args[1])
        return None

    for k, v in facts.items():
        if q not in k.deps():
            continue
        if k.op == 'truth' and k.args[0].op == 'call' and k.args[0].args[0] == '.startswith':
            o = off(k.args[0].args[1])
            s = k.args[0].args[2]
            if o is not None and isc(s) and isinstance(s.args[0], str):
                if v:
                    known.append((o, len(s.args[0])))
                continue
            if o is not None and v:
                unclear = True
            continue
        if k.op in ('eq', 'in') and len(k.args) == 2:
            a, b = k.args
            if k.op == 'eq' and piece(a) is None and piece(b) is not None:
                a, b = b, a
            o = piece(a)
            if o is not None:
                if v and isc(b):
                    n = 1
                    if k.op == 'eq' and isinstance(b.args[0], str):
                        n = len(b.args[0])
                    elif k.op == 'in' and not isinstance(b.args[0], str) and a.op != 'call':
                        try:
                            n = min(len(x) for x in b.args[0])
                        except (TypeError, ValueError):
                            n = 1
                    known.append((o, n))
                elif v:
                    unclear = True
                continue
        if k.op == 'truth':
            continue
        if v and any(x.op in ('slice', 'sub') and x.args[0] is q and not (x.op == 'slice' and x.args[2] is NONE) for x in k.deps()):
            unclear = True
    return known, unclear


def runs(base, steps):
    """runs of constant steps: (text, n, last)"""
    res, t, n, q = [], base, 0, base
    for i, s in enumerate(steps):
        if s.kind == 'k':
            n += s.val
        else:
            if n:
                res.append((q, n, False))
            n = 0
            t = s.at
            q = T('slice', s.at, s.val, NONE)
    if n:
        res.append((q, n, True))
    return res


def marks(rep, r, st, base, steps, node):
    got = gr.inside(st, node)
    for q, n, last in runs(base, steps):
        known, unclear = facts_at(st.facts, q)
        m = 0
        for o, k in sorted(known):
            if o <= m:
                m = max(m, o + k)
        # text kept in the result counts as seen
        keep = [x.args[2].args[0] for x in got if x.op == 'slice' and x.args[0] is q and x.args[1] in (NONE, C(0)) and isc(x.args[2])
                and isinstance(x.args[2].args[0], int)]
        m2 = max([m] + keep)
        if n > m2 and not unclear:
            rep.bad('G3', '%s skips %d' % (r.name, n), '%s skips %d character(s) of which it has seen only %d: text is lost' % (r.name, n, m2), w(r))
        elif any(o < n < o + k for o, k in known) and not unclear:
            # a mark was recognised, but only a part of it is skipped; a shorter mark that was recognised at the same place is fine
            o, k = [(o, k) for o, k in known if o < n < o + k][0]
            if not any(o2 + k2 == n for o2, k2 in known):
                rep.bad('G3', '%s skips %d' % (r.name, n), '%s recognises a mark of %d character(s) but skips only %d: a part of the mark stays in the text'
                        % (r.name, k, n - o), w(r))
            else:
                rep.ok('G3', '%s %d' % (r.name, n))
        else:
            rep.ok('G3', '%s %d' % (r.name, n))


PAIR = {'(': ')', '[': ']', '{': '}'}


def closing(rep, r, st, rest, full):
    """the closing bracket that ends the construct does not stay in the text"""
    first = seen_mark(st.facts, gr.SOU, True)
    if not first or first[0] not in PAIR or not full or full[0].kind != 'k':
        return
    if seen_mark(st.facts, rest) == PAIR[first[0]] and not (full[-1].kind == 'k' and len(full) > 1):
        rep.bad('G3', '%s leaves %s' % (r.name, PAIR[first[0]]), '%s has seen the %r that ends its construct, but leaves it to the text that follows' % (r.name, PAIR[first[0]]), w(r))
    else:
        rep.ok('G3', '%s end' % r.name)


# ---------------------------------------------------------------------- pieces
def match_end(t):
    """the match object m when t is m.end() or m.end(0)"""
    if t.op == 'call' and t.args[0] == '.end' and (len(t.args) == 2 or len(t.args) == 3 and t.args[2] is C(0)):
        return t.args[1]
    return None


def pieces(rep, r, st, base, steps, live, node):
    got = gr.inside(st, node)
    texty = node.op == 'new' or node.op == 'slice' or node.op == 'tup'
    for i, s in enumerate(steps):
        if s.kind != 'v' or s not in live:
            continue
        q = s.at
        mo = match_end(s.val)
        whole = [x for x in got if x.op == 'slice' and x.args[0] is q and x.args[1] in (NONE, C(0))]
        if any(x.args[2] is s.val for x in whole):
            rep.ok('G4', '%s %s' % (r.name, str(s.val)[:40]))
        elif mo is not None and any(x.op == 'call' and x.args[0] in ('.group', 'str') and mo in x.deps() for x in got):
            rep.ok('G4', '%s %s' % (r.name, str(s.val)[:40]))
        elif any(x.op == 'call' and x.args[0] == '.group' and x.args[2:] in ((), (C(0),)) and apart(T('call', '.end', x.args[1]), s.val) for x in got):
            rep.bad('G4', r.name, '%s keeps what was matched, but the rest begins at %s' % (r.name, str(s.val)[:60]), w(r))
        elif r.name in DROPS or r.name in gr.GAPS:
            continue
        elif whole and all(x.args[2] is not NONE for x in whole):
            if cls_name(node) in LITERAL and node.op == 'new' and any(apart(x.args[2], s.val) for x in whole if x in node.args[1]) or \
                    not closer(st.facts, q, whole, s.val):
                rep.bad('G4', r.name, '%s keeps the text up to %s, but the rest begins at %s' % (r.name, str(whole[0].args[2])[:50], str(s.val)[:50]), w(r))
        elif not any(q in x.deps() for x in got if x is not q and x.op != 'new'):
            rep.bad('G4', r.name, '%s consumes characters that its result does not contain' % r.name, w(r))
    # pieces that end elsewhere than the rest begins
    if node.op == 'new' and isinstance(node.args[1], tuple) and node.args[1] and isinstance(node.args[1][0], T):
        x = node.args[1][0]
        if x.op == 'slice' and x.args[1] is not NONE and isc(x.args[1]) and x.args[1].args[0] and base_of(x) is base and x.args[0] is base:
            known, unclear = facts_at(st.facts, base)
            if cls_name(node) in ('ATOM', 'REMARK', 'PLAIN') and not unclear:
                rep.bad('G4', r.name, '%s leaves out the first %s character(s) of its text' % (r.name, x.args[1].args[0]), w(r))
        if x.op == 'slice' and x.args[0] is base and x.args[1].op == 'lv' and cls_name(node) in LITERAL and base is gr.SOU:
            rep.bad('G4', r.name, '%s leaves out the text before %s' % (r.name, str(x.args[1])[:40]), w(r))
        if x.op == 'slice' and x.args[1] in (NONE, C(0)) and isc(x.args[2]) and isinstance(x.args[2].args[0], int):
            for q, n, last in runs(base, steps):
                if q is x.args[0] and last and x.args[2].args[0] > n:
                    rep.bad('G4', r.name, '%s keeps %d character(s) but leaves all after %d to the rest: text is duplicated' % (r.name, x.args[2].args[0], n), w(r))
        if x.op == 'slice' and x.args[0] is base and x.args[2] is NONE and cls_name(node) in ('ATOM', 'REMARK', 'PLAIN', 'STR'):
            rep.bad('G4', r.name, '%s keeps the whole rest of the text' % r.name, w(r))


LITERAL = ('ATOM', 'REMARK', 'PLAIN', 'STR')


def linear(t):
    """({term: factor}, constant) of a number"""
    if isc(t) and isinstance(t.args[0], int):
        return {}, t.args[0]
    if t.op == 'bin' and t.args[0] in ('Add', 'Sub'):
        (a, m), (b, n) = linear(t.args[1]), linear(t.args[2])
        k = 1 if t.args[0] == 'Add' else -1
        res = dict(a)
        for x, f in b.items():
            res[x] = res.get(x, 0) + k * f
        return {x: f for x, f in res.items() if f}, m + k * n
    if t.op == 'call' and t.args[0] == '.end' and t.args[2:] == (C(0),):
        t = T('call', '.end', t.args[1])
    return {t: 1}, 0


def apart(a, b):
    """are two positions certainly not the same?"""
    d, n = linear(T('bin', 'Sub', a, b))
    if not d:
        return n != 0
    # the ends of two different matches
    return not n and len(d) == 2 and all(match_end(x) is not None for x in d)


def cls_name(node):
    c = node.args[0]
    return str(c).rpartition('.')[2] if isinstance(c, T) else str(c)


def closer(facts, q, whole, end):
    """a closing mark that was seen between the piece and the rest"""
    for x in whole:
        e = x.args[2]
        if end.op == 'bin' and end.args[0] == 'Add' and e in end.args[1:]:
            return any(v and any(y.op == 'slice' and y.args[0] is q and y.args[1] is e for y in k.deps()) for k, v in facts.items())
        if e.op == 'bin' or not isc(e) and not isc(end) and e.op != 'lv':
            return True                  # arithmetic that is not understood
    return False


# ---------------------------------------------------------------------- nodes
def used_outside(st):
    res = set()
    for ev in st.log:
        if ev[0] in ('outside', 'yield', 'mutate'):
            if ev[0] == 'mutate' and ev[1].op not in ('lv', 'phi'):
                continue
            for a in ev[1:]:
                for t in (a if isinstance(a, tuple) else (a,)):
                    if isinstance(t, T):
                        res |= gr.inside(st, t)
    return res


def compared(facts, n, got):
    for k, v in facts.items():
        if v is True and k.op in ('eq', 'is') and n in k.args or v is True and k.op == 'eq' and any(n in a.deps() for a in k.args):
            return True
        # a piece that was examined by a regular expression
        if v is True and k.op == 'truth' and k.args[0].op == 'call' and k.args[0].args[0] in ('.search', '.match', '.fullmatch') and n in k.deps():
            return True
    return False


EMPTY = ('ps_quote', 'ps_number', 'ps_value', 'ps_list', 'ps_l_form', 'ps_former', 'ps_form', 'ps_function')


def empty(facts, node, name):
    """a path for values that are false, and nobody asked whether there is a value"""
    return name in EMPTY and gr.truth(facts, node) is False and gr.is_none(facts, node) is None


def refused(rep, r):
    for st, x in r.raises:
        if not gr.feasible(st.facts):
            continue
        for k, v in st.facts.items():
            if k.op == 'truth' and v is False and k.args[0].op == 'call' and k.args[0].args[0] == '$node' and isc(k.args[0].args[1]) and empty(st.facts, k.args[0], k.args[0].args[1].args[0]):
                n = k.args[0].args[1].args[0]
                after = T('call', '$len', *k.args[0].args[1:])
                if any(after in x.deps() for x in st.facts):
                    continue            # refused for what follows
                rep.bad('G5', '%s refuses empty %s' % (r.name, n), '%s refuses what %s recognised when it is empty (0, an empty quotation or an empty list)' % (r.name, n), w(r))


def kept(rep, r, st, live, node):
    if r.name in DROPS:
        return
    got = gr.inside(st, node)
    out = None
    for n, s in enumerate(live):
        if s.kind not in ('rule', 'gen') or s.name in gr.GAPS + DROPS:
            continue
        inner = [x for x in live[n + 1:] if x.kind == 'loop']
        if inner:
            # consumed before a loop: at its beginning it is still there
            heads = [h for site, h, backs in r.loops if site == inner[0].val.args[0]]
            if any(s.node in gr.inside(h, *[x for k, x in h.env.items()]) for h in heads):
                rep.ok('G5', '%s keeps %s' % (r.name, s.name))
                continue
        if s.node in got:
            rep.ok('G5', '%s keeps %s' % (r.name, s.name))
            continue
        if gr.is_none(st.facts, s.node) is None and s.kind == 'rule' and any(k.op in ('truth', 'is', 'eq') and s.node in k.deps() for k in st.facts):
            if empty(st.facts, s.node, s.name):
                rep.bad('G5', '%s drops empty %s' % (r.name, s.name), '%s drops what %s recognised when it is empty (0, an empty quotation or an empty list)' % (r.name, s.name), w(r))
            continue
        if out is None:
            out = used_outside(st)
        if s.node in out or compared(st.facts, s.node, got):
            rep.ok('G5', '%s uses %s' % (r.name, s.name))
            continue
        rep.bad('G5', '%s drops %s' % (r.name, s.name), '%s consumes what %s recognised, but its result does not contain it'
                % (r.name, 'the text' if s.kind == 'gen' else s.name), w(r))


def turns(rep, r):
    """one turn of a loop: what is consumed is kept"""
    used = set()
    for st, rest, node in r.rets:
        used |= gr.inside(st, node, rest)
    for st, v in r.yields:
        used |= gr.inside(st, v)
    for site, h, backs in r.loops:
        for b in backs:
            for k, v in b.heap.items():
                if h.heap.get(k) is not v:
                    used |= gr.inside(b, v)
    vars_used = {t.args[1] for t in used if t.op == 'lv'}
    result = set()
    for st, rest, node in r.rets:
        result |= gr.inside(st, node)
    for site, h, backs in r.loops:
        texts = [v for v, x in h.env.items() if x.op == 'lv' and x.args[0] == site]
        lists = {v for v in texts for b in backs for ev in b.log if ev[0] == 'mutate' and ev[1] is h.env[v]}
        for b in backs:
            if not gr.feasible(b.facts):
                continue
            here = None
            for v in texts:
                x, y = h.env[v], b.env.get(v)
                if not isinstance(y, T) or y is x or not (v in lists or x in result or y.op == 'list' and y in result and not elsewhere(h, b, v, y)):
                    continue
                if here is None:
                    here = gr.inside(b, *[z for z in b.env.values() if isinstance(z, T)]) | {t for k, z in b.heap.items() if h.heap.get(k) is not z for t in gr.inside(b, z)} | used_outside(b)
                    for ev in b.log:
                        if ev[0] == 'mutate' and (ev[1] in here or ev[1] in result):
                            here |= gr.inside(b, *[t for t in ev[3] if isinstance(t, T)])
                if x in here or gr.truth(b.facts, x) is False or gr.is_none(b.facts, x) is True or gr.chain(y)[0].op == 'lv' and y.op == 'slice':
                    continue
                if v in lists and y.op == 'list' or y.op == 'list' and any(t.op == 'lv' and t.args[0] == site for t in gr.inside(b, y)) or any(t.op == 'call' and t.args[0] == '$node' and t.args[1] is not C('next') and gr.is_none(b.facts, t) is not True
                                                        and t.args[1].args[0] not in gr.GAPS + DROPS for t in gr.inside(b, y)):
                    rep.bad('G5', '%s forgets %s' % (r.name, v), '%s goes on with another %r: what earlier turns of the loop recognised is not part of the result' % (r.name, v), w(r))
            for v in texts:
                if v not in b.env or b.env[v] is h.env[v]:
                    continue
                base, steps = gr.chain(b.env[v])
                if base is not h.env[v] or not steps:
                    continue
                live = gr.live_steps(steps, b.facts)
                if not any(s.kind in ('rule', 'gen') for s in live):
                    continue
                marks(rep, r, b, base, steps, T('tup', *[x for x in b.env.values() if isinstance(x, T)]))
                here = set()
                for k, x in b.heap.items():
                    if h.heap.get(k) is not x:
                        here |= gr.inside(b, x)
                for name, x in b.env.items():
                    if isinstance(x, T) and x is not h.env.get(name) and name != v:
                        if name in vars_used or isinstance(h.env.get(name), T) and h.env[name].op in ('lv', 'phi') and h.env[name] in x.deps():
                            here |= gr.inside(b, x)
                if any(t.op == 'fresh' and 'mutated' in str(t) for t in here):
                    continue
                out = None
                for s in live:
                    if s.kind != 'rule' and s.kind != 'gen' or s.name in gr.GAPS + DROPS or r.name in DROPS:
                        continue
                    if s.node in here:
                        rep.ok('G5', '%s keeps %s' % (r.name, s.name))
                        continue
                    if gr.is_none(b.facts, s.node) is None and any(k.op in ('truth', 'is', 'eq') and s.node in k.deps() for k in b.facts):
                        if empty(b.facts, s.node, s.name):
                            rep.bad('G5', '%s drops empty %s' % (r.name, s.name), '%s drops what %s recognised when it is empty (0, an empty quotation or an empty list)' % (r.name, s.name), w(r))
                        continue
                    if s.kind == 'gen' or r.name == 'ps_header_python' and r.name not in gr.rules():
                        continue
                    if out is None:
                        out = used_outside(b)
                    if s.node in out or compared(b.facts, s.node, here):
                        continue
                    rep.bad('G5', '%s drops %s' % (r.name, s.name), '%s consumes what %s recognised and goes on without keeping it' % (r.name, s.name), w(r))


def elsewhere(h, b, name, y):
    """is a value of this turn also kept in something else than the variable?"""
    others = [z for k, z in b.env.items() if isinstance(z, T) and k != name] + [z for k, z in b.heap.items() if isinstance(z, T) and h.heap.get(k) is not z and k[0] is not y]
    return y in gr.inside(b, *others) or any(ev[0] == 'mutate' and ev[1] is not y and y in gr.inside(b, *[t for t in ev[3] if isinstance(t, T)]) for ev in b.log)


# ---------------------------------------------------------------------- brackets
OPEN = {')': '(', ']': '['}


def brackets(rep, r, st, steps, live):
    facts = st.facts
    gens = [s for s in steps if s.kind == 'gen']
    if not gens:
        return
    g = gens[-1]
    fr, src = g.val.args[2], g.val.args[3]
    if not (src.op == 'call' and src.args[0] == '$gen'):
        return
    plain = src.args[1].args[0] == 'ps_plain'
    rest = T('slice', g.at, g.val, NONE)
    close = seen_mark(facts, rest)
    if close is None or close not in OPEN:
        return
    first = seen_mark(facts, gr.SOU, True)
    if first is None or (first[0] != OPEN[close] and first != ',,') or first == ',,' and close != ')':
        return
    which = 0 if close == ']' else 1
    if plain:
        d = T('call', '$depth', C(which), fr)
    else:
        d = T('attr', g.node, 'depth_pth_sq' if which == 0 else 'depth_pth')
    said = [(k, v) for k, v in facts.items() if d in k.deps()]
    good = any(k.op == 'eq' and C(0) in k.args and v for k, v in said) or any(k.op == 'truth' and not v for k, v in said) or \
        any(k.op not in ('eq', 'truth') for k, v in said)
    if good:
        rep.ok('G8', '%s %s' % (r.name, close))
    else:
        rep.bad('G8', '%s at %s' % (r.name, close), '%s ends its text at the first %r, also when it closes a bracket that was opened inside the text' % (r.name, close), w(r))


def seen_mark(facts, q, whole=False):
    best = None
    for k, v in facts.items():
        if not v:
            continue
        s = None
        if k.op == 'truth' and k.args[0].op == 'call' and k.args[0].args[0] == '.startswith' and k.args[0].args[1] is q and isc(k.args[0].args[2]):
            s = k.args[0].args[2].args[0]
        elif k.op == 'eq':
            for a, b in (k.args, k.args[::-1]):
                if a.op == 'slice' and a.args[0] is q and a.args[1] in (NONE, C(0)) and isc(b):
                    s = b.args[0]
                elif a.op == 'sub' and a.args[0] is q and a.args[1] is C(0) and isc(b):
                    s = b.args[0]
        if isinstance(s, str) and s and (best is None or len(s) > len(best)):
            best = s
    return best if whole or best is None or len(best) == 1 else None


# ---------------------------------------------------------------------- several turns of the text
def texts(rep, m):
    """G6: the pieces of the texts that ps_text yields, for every way of three turns"""
    if 'ps_text' not in m.functions:
        return
    def nothing(name):
        def h(e, st, fn, a, kw, n):
            s2 = st.copy()
            res = [(st, T('tup', a[0], NONE))]
            if name == 'ps_comment':
                v = gr.node_of(name, a[0])
                s2.facts[T('is', v, NONE)] = False
                res.append((s2, T('tup', T('slice', a[0], gr.len_of(name, a[0]), NONE), v)))
            return res
        return h
    extra = {n: nothing(n) for n in gr.rules(m) if n not in ('ps_plain', 'ps_text')}
    count = {}

    def nxt(e, st, fn, a, kw, n):
        if not a or not (a[0].op == 'call' and a[0].args[0] == '$gen'):
            return [(st, T('call', '$unknown'))]
        g = a[0]
        k = sum(1 for ev in st.log if ev[0] == 'next' and ev[1] is g)
        e.emit(st, 'next', g, C(k))
        fr = T('call', '$turn', g, C(k))
        e_ = T('call', '$end', g, C(k))
        return [(st, T('tup', e_, T('call', '$node', C('plain'), fr), T('call', '$depth', C(0), fr), T('call', '$depth', C(1), fr)))]
    extra['ext:next'] = nxt
    r = gr.extract('ps_text', unroll=4, extra=extra)
    n = 0
    for st, v in r.yields:
        if v.op != 'tup' or len(v.args) != 2 or v.args[1].op != 'new' or not gr.feasible(st.facts):
            continue
        args = v.args[1].args[1]
        rest = v.args[0]
        rest = rest.args[0] if rest.op == 'slice' and rest.args[1] is NONE and rest.args[2] is NONE else rest
        lst = args[0] if args else None
        items = r.e.items(st, lst) if isinstance(lst, T) else None
        if items is None or any(x.op in ('star', 'lv', 'phi') for x in items):
            continue
        at, ok, why, known = gr.SOU, True, '', True
        depth = (C(0), C(0))
        for x in items:
            if x.op != 'call' or x.args[0] != '$node':
                known = False
                break
            if x.args[1] is C('plain'):
                g, k = x.args[2].args[1], x.args[2].args[2]
                start, end = g.args[2], T('call', '$end', g, k)
            elif len(x.args) == 3:
                start, end = x.args[2], T('slice', x.args[2], gr.len_of(x.args[1].args[0], x.args[2]), NONE)
            else:
                known = False
                break
            if start is not at:
                ok, why = False, 'a piece is kept twice' if before(start, at) else 'the pieces do not follow one another'
                break
            at = end
        if not known:
            continue
        last = [ev for ev in st.log if ev[0] == 'next']
        n += 1
        if ok and at is not rest:
            ok, why = False, 'the pieces end elsewhere than the rest begins'
        rep.check(ok, 'G6', 'ps_text', 'after some turns of ps_text the pieces of the text are not exactly the text that was consumed: %s' % why, w(r))
        if last and len(args) >= 3:
            fr = T('call', '$turn', last[-1][1], last[-1][2])
            want = (T('call', '$depth', C(0), fr), T('call', '$depth', C(1), fr))
            rep.check(tuple(args[1:3]) == want, 'G8', 'ps_text depth', 'the numbers of open brackets that ps_text hands on are not those of the last plain text', w(r))
            g = last[-1][1]
            prev = None
            if len(g.args) >= 5:
                outer = [x for x in (g.args[3], g.args[4])]
                ok = all(isc(x) and x.args[0] == 0 or x.op == 'call' and x.args[0] == '$depth' and x.args[1] is C(i) for i, x in enumerate(outer))
                rep.check(ok, 'G8', 'ps_text passes depth', 'ps_text does not pass on the numbers of open brackets to the plain text', w(r))
                if len(last) > 1 and last[-2][1] is not g:
                    fr = T('call', '$turn', last[-2][1], last[-2][2])
                    ok = tuple(outer) == (T('call', '$depth', C(0), fr), T('call', '$depth', C(1), fr))
                    rep.check(ok, 'G8', 'ps_text passes depth', 'ps_text forgets the numbers of open brackets between two plain texts', w(r))
    rep.count('yielded texts', n)
    if not n:
        rep.note('ps_text: no yielded text was understood')


def before(a, b):
    return a in b.deps()


def plains(rep, m):
    """G8: the brackets are counted by the plain text"""
    if 'ps_plain' not in m.functions:
        return
    ps = [a.arg for a in gr.rules(m)['ps_plain'].args.args]
    if len(ps) < 3:
        return
    step = lambda n, c, o, x: n + 1 if c == o else max(n - 1, 0) if c == x else n
    chars = '[]()a'
    n = 0
    for text in itertools.product(chars, repeat=2):
        text = ''.join(text)
        facts = {}
        for i, c in enumerate(text):
            ch = T('sub', gr.SOU, C(i))
            for b in chars[:4]:
                facts[T('eq', ch, C(b))] = facts[T('eq', T('call', 'ord', ch), C(ord(b)))] = b == c
        for n0, n1 in ((0, 0), (1, 1), (0, 2), (2, 0)):
            r = gr.extract('ps_plain', unroll=2, given={ps[1]: C(n0), ps[2]: C(n1)}, facts=facts)
            env = (text, {})
            for turn in (1, 2):
                left = [v for st, v in r.yields if v.op == 'tup' and len(v.args) >= 4 and v.args[0] is T('slice', gr.SOU, C(turn), NONE)
                        and gr.feasible(st.facts) and not any(y is not None and bool(y) != z for y, z in ((value(k, env), z) for k, z in st.facts.items()))]
                for i, k, o, x in ((2, n0, '[', ']'), (3, n1, '(', ')')):
                    got = {value(v.args[i], env) for v in left}
                    if not got or None in got:
                        continue
                    n += 1
                    want = k
                    for c in text[:turn]:
                        want = step(want, c, o, x)
                    rep.check(got == {want}, 'G8', 'ps_plain counts %r' % (o if o in text or x in text else 'other'), 'ps_plain has %s instead of %s open %r after %r, when %s and %s are open'
                              % (sorted(got - {want} or got)[0], want, o, text[:turn], n0, n1), w(r))
    rep.count('counts of open brackets', n)
    if not n:
        rep.note('ps_plain: the counts of open brackets were not understood')


def value(t, env):
    """the value of a term, given the first character of the text and the numbers of open brackets"""
    if t in env[1]:
        return env[1][t]
    if t.op == 'sub' and t.args[0] is gr.SOU and isc(t.args[1]) and isinstance(t.args[1].args[0], int):
        return env[0][t.args[1].args[0]:][:1] or None
    if t.op == 'slice' and t.args[0] is gr.SOU:
        lo, hi = (0 if x is NONE else value(x, env) for x in t.args[1:3])
        return None if lo is None or t.args[2] is NONE or hi is None or hi > len(env[0]) else env[0][lo:hi]
    if t.op == 'call' and t.args[0] == 'len' and gr.SOU in t.args:
        return len(env[0]) + 9              # there is more text
    if isc(t):
        return t.args[0] if isinstance(t.args[0], (int, bool, str, tuple, frozenset)) else None
    if t is gr.SOU:
        return None
    if t.op == 'truth':
        if t.args[0] is gr.SOU:
            return True
        v = value(t.args[0], env)
        return None if v is None else bool(v)
    args = t.args[1:] if t.op in ('bin', 'call') else t.args
    if t.op in ('is', 'eq') and NONE in args:
        return False
    if t.op == 'bin' and t.args[0] in ('Add', 'Sub') or t.op in ('eq', 'lt', 'le', 'gt', 'ge', 'ne', 'in') or t.op == 'call' and t.args[0] in ('max', 'min', 'int', 'bool', 'abs', 'ord', 'chr'):
        xs = [value(x, env) if isinstance(x, T) else None for x in args]
        if not xs or any(x is None for x in xs):
            return None
        try:
            if t.op == 'bin':
                return xs[0] + xs[1] if t.args[0] == 'Add' else xs[0] - xs[1]
            if t.op == 'call':
                return {'max': max, 'min': min, 'int': int, 'bool': bool, 'abs': abs, 'ord': ord, 'chr': chr}[t.args[0]](*xs)
            if t.op in ('eq', 'ne'):
                return (xs[0] == xs[1]) == (t.op == 'eq')
            if t.op == 'in':
                return xs[0] in xs[1]
            return {'lt': xs[0] < xs[1], 'le': xs[0] <= xs[1], 'gt': xs[0] > xs[1], 'ge': xs[0] >= xs[1]}[t.op]
        except (TypeError, ValueError):
            return None
    return None


def first_char(t):
    if t.op == 'call' and t.args[0] == 'ord' and len(t.args) == 2:
        t = t.args[1]
    if t.op == 'sub' and t.args[0] is gr.SOU and t.args[1] is C(0):
        return True
    return t.op == 'slice' and t.args[0] is gr.SOU and t.args[1] in (NONE, C(0)) and t.args[2] is C(1)


# ---------------------------------------------------------------------- positions
def slices(rep, m):
    f = m.functions.get('SOURCE.__getitem__')
    if f is not None:
        e = en.engine(keep=set())
        me, a = T('sym', '$self'), T('sym', '$a')
        ps = [x.arg for x in f.args.args]
        rets, _ = e.analyse('yugen', 'SOURCE.__getitem__', args={ps[0]: me, ps[1]: a})
        pos, start = T('attr', me, 'pos'), T('attr', a, 'start')
        for st, v in rets:
            if v.op != 'new' or not isinstance(v.args[1], tuple):
                rep.note('a part of a text is %s' % str(v)[:60])
                continue
            kw = dict(x for x in v.args[2:] if isinstance(x, tuple) and len(x) == 2) if False else {}
            fs = {k[1]: val for k, val in st.heap.items() if k[0] is v}
            p = fs.get('pos', v.args[1][2] if len(v.args[1]) > 2 else None)
            fi = fs.get('input_file', v.args[1][1] if len(v.args[1]) > 1 else None)
            if p is None or fi is None:
                continue
            sl = [val for k, val in st.facts.items() if k.op == 'isinst' and k.args[0] is a]
            tr = gr.truth(st.facts, start)
            if tr is None and gr.is_none(st.facts, start) is not None:
                tr = not gr.is_none(st.facts, start)
            if not sl:
                continue
            if not sl[0]:
                want = {add(pos, a)}
            elif tr is True:
                want = {add(pos, start)}
            elif tr is False:
                want = {pos, add(pos, C(0)), add(pos, start)} - {add(pos, start)} if True else set()
            else:
                continue
            want = {x for y in want for x in flip(y)}
            if p in want:
                rep.ok('G7', 'SOURCE.__getitem__ %s' % str(p)[:40])
            elif p.deps() <= set().union(*[x.deps() for x in flip(add(pos, start)) + flip(add(pos, a))]) | {T('bin', 'Sub', pos, start), C(0), C(1)}:
                rep.bad('G7', 'SOURCE.__getitem__', 'a part of a text has the position %s' % str(p)[:60], where(f))
            rep.check(fi is T('attr', me, 'input_file') or not (isc(fi)), 'G7', 'SOURCE.__getitem__ file', 'a part of a text forgets its file', where(f))
    f = m.functions.get('SOURCE.__new__')
    if f is not None:
        e = en.engine(keep=set())
        ps = [x.arg for x in f.args.args]
        val = T('sym', '$val')
        rets, _ = e.analyse('yugen', 'SOURCE.__new__', args={ps[1]: val})
        for st, v in rets:
            sl = [x for k, x in st.facts.items() if k.op == 'isinst' and k.args[0] is val]
            fs = {k[1]: x for k, x in st.heap.items() if k[0] is v}
            if not sl or 'pos' not in fs or 'input_file' not in fs:
                continue
            for name in ('input_file', 'pos'):
                want = T('attr', val, name) if sl[0] else T('sym', name)
                x = fs[name]
                if x is want or not (isc(x) or x.op in ('sym', 'attr')):
                    rep.ok('G7', 'SOURCE.__new__ %s' % name)
                else:
                    rep.bad('G7', 'SOURCE.__new__ %s' % name, 'a text made of %s has the %s %s' % ('another one' if sl[0] else 'a string', name, str(x)[:40]), where(f))


def add(a, b):
    return T('bin', 'Add', a, b)


def flip(t):
    return [t, T('bin', t.args[0], t.args[2], t.args[1])] if t.op == 'bin' and t.args[0] == 'Add' else [t]


# ---------------------------------------------------------------------- the header
def header(rep, m):
    h = T('sym', '$header')
    keep = {'mutate', 'mcall', 'setitem', 'delitem', 'outside'}

    def hd(e, st, fn, a, kw, n):
        return [(st, T('tup', T('slice', a[0], T('call', '$hl'), NONE), h))] if a else None

    def nx(e, st, fn, a, kw, n):
        return [(st, T('tup', T('call', '$rest', e.fresh(st, n, 'r')), T('call', '$ast', a[0])))] if a and a[0].op == 'call' and a[0].args[0] == '$gen' else None
    ops = {'ps_header_python': hd, 'ps_text': lambda e, st, fn, a, kw, n: [(st, T('call', '$gen', *a[:1]))], 'ext:next': nx}
    f = m.functions.get('yuparse')
    if f is not None and 'ps_header_python' in m.functions:
        e = en.engine(keep=keep, opaque=ops)
        rets, _ = e.analyse('yugen', 'yuparse', args={})
        for st, v in rets:
            if gr.truth(st.facts, h) is not True and gr.is_none(st.facts, h) is not False:
                continue
            if any(k.op == 'truth' and x is False and k.args[0].op == 'call' and k.args[0].args[0] == 'len' and h in k.deps() for k, x in st.facts.items()):
                continue
            said = [ev for ev in st.log if any(h in t.deps() for a in ev[1:] for t in (a if isinstance(a, tuple) else (a,)) if isinstance(t, T))]
            rep.check(bool(said) or h in gr.inside(st, v), 'G9', 'yuparse', 'the header of a Python source is recognised, but is not part of the tree', where(f))
            for ev in said:
                if ev[0] == 'mcall' and ev[1] == 'extend_text' and len(ev[3]) == 2 and isc(ev[3][0]):
                    rep.check(ev[3][0].args[0] == 0, 'G9', 'yuparse place', 'the header is put after %s other part(s) of the text' % ev[3][0].args[0], where(f))
    f = m.functions.get('TEXT.extend_text')
    ps = [a.arg for a in f.args.args] if f is not None else []
    if len(ps) == 3:
        lst = T('sym', ps[2])
        e = en.engine(keep=keep)
        rets, _ = e.analyse('yugen', 'TEXT.extend_text', args={})
        for st, v in rets:
            if gr.truth(st.facts, lst) is False:
                continue
            kept = any(lst in t.deps() for ev in st.log for a in ev[1:] for t in (a if isinstance(a, tuple) else (a,)) if isinstance(t, T)) or \
                any(lst in x.deps() for x in st.heap.values() if isinstance(x, T))
            rep.check(kept, 'G9', 'TEXT.extend_text', 'a text that is extended does not receive the parts', where(f))
