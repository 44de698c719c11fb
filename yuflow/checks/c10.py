"""C10 - parsing always makes progress."""
from ..src import Repo, AnalysisError, where
from ..terms import T, C, NONE, isc
from .. import grammar as gr
from .. import termval

TECHNIQUE = 'abstract interpretation of every grammar rule with the other rules replaced by what a rule promises; consumption along paths, the graph of calls without consumption and every turn of every loop are examined'
NOTE = 'What a rule promises to its callers (it consumes something if and only if it recognised its construct) is checked here and in C09.'
ASSUMPTIONS = ['regular expressions match what the re module says they match', 'a text is finite']


def run(rep):
    rep.rule('P1', 'a rule that has recognised its construct has consumed something')
    rep.rule('P2', 'no rule comes back to itself on the same text')
    rep.rule('P3', 'every turn of a loop consumes something, asks for more or counts')
    rep.rule('P4', 'no loop goes on at the end of the text')
    m = Repo.get().mod('yugen')
    rs = gr.rules(m)
    if len(rs) < 10:
        raise AnalysisError('the grammar rules were not found')
    edges = {}
    for q in rs:
        try:
            r = gr.extract(q)
        except AnalysisError as x:
            rep.note('%s: %s' % (q, x))
            continue
        rep.count('grammar rules')
        rep.count('paths', len(r.rets) + len(r.yields))
        for st, rest, node in r.rets:
            if gr.feasible(st.facts):
                recognised(rep, r, st, rest, node)
        calls(rep, r, edges)
        loops(rep, r)
        try:
            at_end(rep, q)
        except AnalysisError as x:
            rep.note('%s at the end of the text: %s' % (q, x))
    recursion(rep, rs, edges)


def w(r):
    return where(r.func)


def recognised(rep, r, st, rest, node):
    if gr.is_none(st.facts, node) is not False:
        return
    full = gr.path_to(r, rest)
    if full is None:
        rep.note('%s: the rest %s is not understood' % (r.name, str(rest)[:60]))
        return
    if all(zero_able(s, st.facts) for s in full):
        # a rule that passes on what another one has recognised
        if any(s.kind == 'rule' and s.node is node for s in full):
            return
        rep.bad('P1', r.name, '%s recognises its construct where it may have consumed nothing%s' % (r.name, ' but white space' if full else ''), w(r))
    else:
        rep.ok('P1', r.name)


def zero_able(s, facts):
    """can this step certainly be empty under the facts?"""
    z = gr.zero(s, facts)
    if z is not None:
        return z
    return s.kind == 'loop' or s.kind == 'rule'


def calls(rep, r, edges):
    for st, name, arg, site in r.calls:
        if not gr.feasible(st.facts):
            continue
        full = gr.path_to(r, arg)
        if full is None:
            rep.note('%s: the text %s given to %s is not understood' % (r.name, str(arg)[:60], name))
            continue
        rep.count('calls of rules')
        if all(zero_able(s, st.facts) for s in full):
            edges.setdefault(r.name, {}).setdefault(name, site)


def recursion(rep, rs, edges):
    """every rule that is called without consumption is nearer to the end of an order"""
    state, found = {}, []

    def visit(q, path):
        state[q] = 1
        for n in sorted(edges.get(q, ())):
            if state.get(n) == 1:
                found.append(path[path.index(n):] + [n] if n in path else [q, n])
            elif n not in state:
                visit(n, path + [n])
        state[q] = 2
    for q in rs:
        if q not in state:
            visit(q, [q])
    for c in found:
        rep.bad('P2', ' > '.join(c), '%s calls itself before anything is consumed: %s' % (c[0], ' > '.join(c)), where(rs[c[0]]))
    for q in edges:
        for n in edges[q]:
            rep.ok('P2', '%s > %s' % (q, n))


NUMBERS = ('.find', '.rfind', '.index', '.rindex', '.end', '.start', '.span', 'len', 'max', 'min', '.count', 'int', 'abs', 'sum')
TAKES = ('pop', 'popleft', 'remove', 'clear', 'popitem', 'discard')


def number(t):
    return isc(t) and isinstance(t.args[0], int) and not isinstance(t.args[0], bool) or t.op == 'bin' and t.args[0] in ('Add', 'Sub', 'Mult', 'FloorDiv') or \
        t.op == 'call' and t.args[0] in NUMBERS


def unknown(t):
    """a value that the analysis says nothing about"""
    return t.op in ('fresh', 'phi') or t.op == 'call' and t.args[0] not in ('$node', '$gen', '$depth') and not str(t.args[0]).startswith('.')


def progress(r, h, b):
    """-> why a turn of a loop cannot be repeated for ever, or None"""
    for ev in b.log[len(h.log):]:
        if ev[0] == 'next':
            return 'asks a generator'
        if ev[0] == 'mutate' and ev[2] in TAKES:
            return 'takes an item away'
    facts = again(h, b)
    for v, x in h.env.items():
        y = b.env.get(v)
        if not isinstance(x, T) or not isinstance(y, T) or y is x:
            continue
        base, steps = gr.chain(y)
        t, between = y, []
        while t is not x and t.op == 'slice' and t.args[2] is NONE:
            between.append(gr.step(t.args[0], t.args[1]))
            t = t.args[0]
        if t is x:
            if any(s is not None and not zero_able(s, facts) for s in between):
                return 'consumes'
            continue
        if steps is None or base.op == 'fresh':
            # some part of a text
            if x in y.deps() or y.op == 'slice':
                return 'another part of the text'
        if number(y) and not v.startswith('$'):
            d = linear_const(y, x)
            if d == 0:
                continue
            if d is None and x.op == 'lv' and comes_back(r, h, b, v, x, y):
                continue
            return 'counts'
        if y.op == 'fresh' and x.op != 'fresh':
            return 'unknown'
    return None


def comes_back(r, h, b, v, x, y):
    """is there a text for which the turn takes a position to one where it has been, e.g. to -1 where nothing is found?"""
    sought = {a.args[0] for t in y.deps() if t.op == 'call' and t.args[0] in ('.find', '.rfind') for a in t.args[2:3] if isc(a) and isinstance(a.args[0], str)}
    if not sought:
        return False
    prefix = ''
    for f, val in b.facts.items():
        for t in f.deps() if val else ():
            c = None
            if t.op == 'call' and t.args[0] == '.startswith' and len(t.args) == 3 and t.args[1] is gr.SOU:
                c = t.args[2]
            elif t.op == 'eq' and t.args[0].op == 'slice' and t.args[0].args[0] is gr.SOU and t.args[0].args[1] in (NONE, C(0)):
                c = t.args[1]
            if c is not None and isc(c) and isinstance(c.args[0], str) and c.args[0].startswith(prefix):
                prefix = c.args[0]
    starts = {h2.env[v].args[0] for site, h2, backs in r.loops if isinstance(h2.env.get(v), T) and isc(h2.env[v]) and isinstance(h2.env[v].args[0], int)}
    for s in sorted(sought):
        for rest in ('qqqq', s + 'qqqq', 'q' + s + 'qqq', 'qq' + s + s + 'qqq'):
            for i in sorted(starts):
                env, seen = {gr.SOU: prefix + rest, x: i}, set()
                while env[x] not in seen:
                    seen.add(env[x])
                    try:
                        if termval.holds(b.facts, env) is not True:
                            break
                        env[x] = termval.value(y, env)
                    except Exception:
                        break
                    if not isinstance(env[x], int) or len(seen) > 30:
                        break
                else:
                    return True
    return False


def again(h, b):
    """the facts of a turn that is followed by the same one"""
    new = {x: b.env[v] for v, x in h.env.items() if isinstance(x, T) and x.op == 'lv' and isinstance(b.env.get(v), T) and b.env[v] is not x}
    facts = dict(b.facts)
    for k, v in b.facts.items():
        if any(x in k.deps() for x in new):
            facts.setdefault(replaced(k, new), v)
    return facts


def replaced(t, new):
    if t in new:
        return new[t]
    if not any(x in t.deps() for x in new):
        return t
    return T(t.op, *[replaced(a, new) if isinstance(a, T) else a for a in t.args])


def linear_const(y, x):
    if y.op == 'bin' and y.args[0] in ('Add', 'Sub') and y.args[1] is x and isc(y.args[2]):
        return y.args[2].args[0] if y.args[0] == 'Add' else -y.args[2].args[0]
    return None


def widened(site, h):
    return any(isinstance(x, T) and x.op == 'lv' and x.args[0] == site for x in h.env.values())


def loops(rep, r):
    wide = {site for site, h, backs in r.loops if widened(site, h)}
    for site, h, backs in r.loops:
        n = r.whiles.get(site)
        if n is None or site in wide and not widened(site, h):
            continue
        for b in backs:
            if not gr.feasible(b.facts):
                continue
            why = progress(r, h, b)
            if why:
                rep.ok('P3', '%s %s %s' % (r.name, site, why))
            else:
                rep.bad('P3', '%s loop' % r.name, '%s can turn round in a loop without consuming anything' % r.name, 'pp/yugen.py:%d' % n.lineno)


# ---------------------------------------------------------------------- the end of the text
def at_end(rep, q):
    def passed(t):
        return t is not gr.SOU

    def rule(name):
        def h(e, st, fn, a, kw, n):
            if not a:
                return None
            if passed(a[0]):
                return [(st, T('tup', a[0], NONE))]
            return [(st, T('tup', T('slice', a[0], gr.len_of(name, a[0]), NONE), gr.node_of(name, a[0])))]
        return h

    rs = gr.rules()
    extra = {n: rule(n) for n, f in rs.items() if not gr.is_gen(f)}

    def code(e, st, fn, a, kw, n):
        if len(a) == 2 and a[0] is gr.SOU and a[1] is C(0):
            return [(st, T('call', 'ord', T('sub', gr.SOU, C(0))))]
        return [(st, NONE)]
    extra['_ord'] = code
    extra['ext:next'] = lambda e, st, fn, a, kw, n: []
    r = gr.extract(q, extra=extra)
    for site, h, backs in r.loops:
        n = r.whiles.get(site)
        if n is None:
            continue
        if not any(x.op == 'lv' and x.args[0] == site for x in h.env.values() if isinstance(x, T)) and backs:
            # nothing that the loop changes: judged by P3
            if any(b.env != h.env for b in backs):
                continue
        rep.count('loops at the end')
        for b in backs:
            if not gr.feasible(b.facts) or not end_possible(r, b.facts):
                continue
            if counts_down(h, b):
                continue
            rep.bad('P4', '%s loop' % q, '%s has a loop that goes on when the text has come to its end' % q, 'pp/yugen.py:%d' % n.lineno)
            break
        else:
            rep.ok('P4', '%s %s' % (q, site))


def counts_down(h, b):
    return any(isinstance(y, T) and y.op == 'bin' and y.args[0] == 'Sub' and y.args[1] is h.env.get(v) and isc(y.args[2]) for v, y in b.env.items())


def text(r, t):
    """a text of which nothing is left"""
    if t.op == 'slice' and t.args[1] is not NONE and t.args[1] is not C(0) and (base(t) is gr.SOU or base(t).op == 'lv'):
        return not (base(t) is gr.SOU and isc(t.args[1]) and isc(t.args[2]))
    return t.op == 'lv' and gr.origin(r, t) is not None


def base(t):
    while t.op == 'slice':
        t = t.args[0]
    return t


def empty(r, t):
    if text(r, t):
        return True
    return t.op == 'slice' and text(r, t.args[0])


def end_possible(r, facts):
    for k, v in facts.items():
        if k.op == 'truth':
            t = k.args[0]
            if v and empty(r, t):
                return False
            if v and t.op == 'call' and t.args[0] == '.startswith' and empty(r, t.args[1]):
                return False
        if k.op == 'lt' and v and any(x.op == 'call' and x.args[0] == 'len' and (x.args[1] is gr.SOU or text(r, x.args[1])) for x in k.args[1].deps()):
            return False
        if k.op == 'lt' and not v and any(x.op == 'call' and x.args[0] == 'len' and (x.args[1] is gr.SOU or text(r, x.args[1])) for x in k.args[0].deps()):
            return False
        if k.op == 'eq':
            for a, b in (k.args, k.args[::-1]):
                if v and empty(r, a) and isc(b) and b.args[0]:
                    return False
                if not v and a.op == 'call' and a.args[0] == 'len' and (a.args[1] is gr.SOU or empty(r, a.args[1]) and isc(b) and not b.args[0]):
                    return False
        if k.op == 'lt' and v and isc(k.args[0]) and k.args[1].op == 'call' and k.args[1].args[0] == 'len' and empty(r, k.args[1].args[1]):
            return False
        # a character that does not exist
        for d in k.deps():
            if d.op == 'sub' and (d.args[0] is gr.SOU and not isc(d.args[1]) or text(r, d.args[0])):
                return False
    return True
