"""C24 - the shipped libraries are complete: what they use exists, what they open is closed, what is documented is there."""
import builtins, os, re
from .. import yuparse
from ..report import Report
from ..src import Repo, REPO, AnalysisError
from . import c15

TECHNIQUE = 'independent parse of the shipped libraries and of their reference; scope resolution of every applied name over the import graph; balance and definition analysis of the C text'
NOTE = 'Names are resolved without regard to the order of definitions; the body of a macro is read with its parameters replaced by an atom.'
ASSUMPTIONS = ['names built at run time ("each-" followed by a parameter) are not resolved']
HOLE = 'YUPARSE_HOLE'
GRAMMAR = {'quote', 'code', 'emit', 'set', 'let', 'import', 'macro'}


def run(rep):
    rep.rule('L1', 'every library, and every macro of it, is a well formed text: what is opened is closed')
    rep.rule('L2', 'every source a library imports is shipped with it')
    rep.rule('L3', 'every name a library applies is a parameter, a definition of the library or of an imported one, or a built-in')
    rep.rule('L4', 'what the reference of the libraries documents is defined by the library it is documented for')
    rep.rule('L5', 'an application of a macro or a function of the libraries does not give it more arguments than it has parameters, nor arguments of names it does not have')
    rep.rule('L6', 'what a library defines before it chooses an implementation, the other implementation defines with the same parameters')
    rep.rule('L7', 'a C macro a library applies is defined by the header it is written for, with that number of parameters')
    rep.rule('L8', 'a C macro whose name begins with the name of the header is defined on every branch of the header, and removed at its end')
    rep.rule('L9', 'conditional directives and brackets of the C text of a library are balanced')
    d = os.path.join(REPO, 'lib')
    names = sorted(f for f in os.listdir(d) if f.endswith('.yu')) if os.path.isdir(d) else []
    if not names:
        raise AnalysisError('no library was found in lib')
    quiet = Report('C24')
    m, tabs = c15.tables(quiet, Repo.get())
    known = set(GRAMMAR)
    for t in tabs:
        known |= set(t.d)
    partial = any(t.open for t in tabs)
    libs = {}
    for f in names:
        x = Library(f, open(os.path.join(d, f), encoding='utf8').read())
        libs[f[:-3]] = x
        rep.count('libraries')
        rep.count('macros', len(x.macros))
        for w, msg, pos in x.bad:
            rep.bad('L1', '%s %s' % (f, w), '%s: %s' % (w, msg), 'lib/%s:%d' % (f, yuparse.line(x.s, pos)))
        for k in [f] + sorted(x.macros):
            if not any(w == k for w, _, _ in x.bad):
                rep.ok('L1', '%s %s' % (f, k))
    for n, x in libs.items():
        x.close(libs, d, rep)
    if partial:
        rep.note('a statement that fills the table of built-ins was not understood: an unknown name may be a built-in')
    for n, x in libs.items():
        if not x.whole:
            rep.note('%s: names are not resolved, a part of the text was not read' % x.file)
            continue
        resolve(rep, x, libs, known, partial)
        rep.count('names resolved', len(x.uses))
        implementations(rep, x, libs, d)
        ctext(rep, x, d)
        own_prefix(rep, x)
        balance(rep, x)
    reference(rep, libs, known, d)
    rep.need('L1')


class Def:
    """what a name is bound to: number of parameters or None (unknown), names of parameters"""

    def __init__(self, kind, most=None, names=None):
        self.kind, self.most, self.names = kind, most, names


class Use:
    def __init__(self, name, pos, scope, inside, node=None, argument=False):
        self.name, self.pos, self.scope, self.inside, self.node, self.argument = name, pos, scope, inside, node, argument


class Library:
    def __init__(self, file, s):
        self.file, self.s = file, s.replace('\r\n', '\n').replace('\r', '\n')
        self.python = '-py' in file
        self.bad, self.macros, self.defs, self.imports, self.uses = [], {}, {}, [], []
        self.probed = set()      # names the library asks ($isatom ) about
        self.inner = {}          # name -> macros that set it
        self.late = set()
        self.loose = False       # the text makes names from parameters
        self.switch = None       # position of the first conditional skip
        self.whole = True
        self.texts = []          # (macro or None, C text, position)
        try:
            nodes = yuparse.parse(self.s, self.python)
        except yuparse.Bad as e:
            self.bad.append((file, e.msg, e.pos))
            self.whole = False
            return
        self.block(nodes, (), None, lambda p: p)

    # every name bound anywhere in the library
    def define(self, name, d, inside, pos):
        if HOLE in name:
            self.loose = True
            return
        self.defs.setdefault(name, []).append((d, inside, pos))
        if inside:
            self.inner.setdefault(name, set()).add(inside)

    def block(self, nodes, scope, inside, at):
        text = ''
        for n in nodes:
            if n[0] == 'plain':
                self.texts.append((inside, n[1], at(n[2])))
            self.node(n, scope, inside, at)

    def value(self, f):
        if f[0] == 'lambda' and isinstance(f[1], list):
            ps = [p for _, p, _ in f[1]]
            late = [x for l, _, _ in f[1] for x in l]
            open_ = '...' in ps or f[2][0] in ('lambda', 'apply')
            return Def('function', None if open_ else len(ps), set(ps) | set(late))
        return Def('value')

    def node(self, n, scope, inside, at):
        k = n[0]
        go = lambda x, sc=scope: self.node(x, sc, inside, at)
        if k == 'set':
            for a in n[1]:
                self.define(a, self.value(n[2]) if len(n[1]) == 1 else Def('value'), inside, at(n[3]))
            go(n[2])
        elif k == 'let':
            sc = scope + tuple((a, Def('value')) for a in n[1])
            go(n[2], sc)         # one name of the list may be used for the next
            go(n[3], sc)
        elif k == 'import':
            self.imports.append((n[1], n[2], at(n[3])))
        elif k == 'macro':
            _, name, pars, text, pos, tpos = n
            self.macros[name] = (pars, at(pos))
            self.define(name, Def('macro', len(pars), set(pars)), inside, at(pos))
            self.body(name, pars, text, at, tpos)
        elif k == 'apply':
            _, fn, args, named, pos, _ = n
            if fn[0] == 'var' and not fn[1]:
                u = Use(fn[2], at(pos), scope, inside, n)
                if not fn[3]:
                    self.uses.append(u)
                if fn[2] == 'isatom':
                    for a in args:
                        if a[0] == 'var':
                            self.probed.add(a[2])
                    return
                if fn[2] == 'skip' and self.switch is None and inside is None:
                    pass
            else:
                go(fn)
            for a in args:
                go(a)
            for _, a in named:
                go(a)
        elif k == 'cond':
            if inside is None and self.switch is None and n[2][0] == 'var' and n[2][2] == 'skip':
                self.switch = at(n[2][4])
            for x in n[1:]:
                if x is not None:
                    go(x)
        elif k == 'emit':
            go(n[1])
            go(n[2])
        elif k == 'var':
            if not n[1] and not n[3]:
                self.uses.append(Use(n[2], at(n[4]), scope, inside, None, True))
        elif k == 'lambda':
            if isinstance(n[1], list):
                sc = scope
                for late, p, dflt in n[1]:
                    if dflt is not None:
                        self.node(dflt, sc, inside, at)
                    sc = sc + tuple((l, Def('value')) for l in late) + ((p, Def('value')),)
                sc = sc + (('__va_args__', Def('value')),)
                go(n[2], sc)
            else:
                self.loose = True
                go(n[2])
        elif k == 'text':
            self.block(n[1], scope, inside, at)
        elif k == 'infix':
            for x in n[1]:
                if x[0] == 'plain':
                    for w in re.finditer(r'(?<![\w.])[A-Za-z_]\w*', re.sub(r'"[^"]*"|\'[^\']*\'', lambda q: ' ' * len(q.group()), x[1])):
                        self.uses.append(Use(w.group(), at(x[2]), scope, inside, 'infix', True))
                else:
                    go(x)
        elif k == 'list':
            for x in n[1]:
                if x[0] != 'var':        # a name in a list may stand for itself
                    go(x)
        elif k == 'embed':
            go(n[1])

    def body(self, name, pars, text, at, tpos):
        """the body of a macro, its parameters replaced"""
        s, shift = '', []
        i = 0
        pat = re.compile('|'.join(re.escape('($%s)' % p) for p in sorted(pars, key=len, reverse=True))) if pars else None
        while pat:
            g = pat.search(text, i)
            if not g:
                break
            s += text[i:g.start()]
            shift.append((len(s), g.start()))
            s += HOLE
            shift.append((len(s), g.end()))
            i = g.end()
        s += text[i:]

        def pos(p):
            d = 0
            for a, b in shift:
                if a <= p:
                    d = b - a
            return at(tpos + p + d)
        try:
            nodes = yuparse.parse(s, self.python)
        except yuparse.Bad as e:
            self.bad.append((name, e.msg, pos(e.pos)))
            self.whole = False
            return
        self.block(nodes, (), name, pos)

    def line(self, pos):
        return 'lib/%s:%d' % (self.file, yuparse.line(self.s, pos))

    def close(self, libs, d, rep):
        """imports that resolve"""
        self.direct, self.direct_before = [], []
        for kind, name, pos in self.imports:
            if kind == 'infix':
                continue
            if kind == 'library':
                ok = name in libs
                if ok:
                    self.direct.append(name)
                    if self.switch is None or pos < self.switch:
                        self.direct_before.append(name)
            else:
                f = name.strip('"\'')
                ok = os.path.isfile(os.path.join(d, f))
                if ok and f.endswith('.yu') and f[:-3] in libs:
                    self.direct.append(f[:-3])
                if ok and f.endswith('.py'):
                    self.loose = True
            rep.check(ok, 'L2', '%s imports %s' % (self.file, name), 'the imported library %s is not shipped' % name, self.line(pos))


def closure(libs, x, before=False):
    """libraries seen from x; before: those that are there whatever the library chooses"""
    seen, todo = [], [x]
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.append(y)
        todo += [libs[n] for n in (y.direct_before if before else y.direct)]
    return seen


def lookup(name, scope, group):
    for n, d in reversed(scope):
        if n == name:
            return [d]
    return [d for y in group for d, _, _ in y.defs.get(name, ())]


def resolve(rep, x, libs, known, partial):
    group = closure(libs, x)
    if not all(y.whole for y in group):
        rep.note('%s: names are not resolved, an imported library was not read' % x.file)
        return
    probed = set().union(*(y.probed for y in group))
    python = set(dir(builtins)) | {'and', 'or', 'not', 'if', 'else', 'in', 'is', 'for', 'lambda', 'True', 'False', 'None'}
    mod = Repo.get().mod('yugen')
    for s in mod.tree.body:
        python |= set(c15.bound_names(s))
    own = {p for _, ps in ((k, v[0]) for k, v in x.macros.items()) for p in ps}
    for u in x.uses:
        if HOLE in u.name or u.name in probed:
            continue
        ds = lookup(u.name, u.scope, group)
        where = x.line(u.pos)
        w = '%s: ($%s)%s' % (x.file, u.name, ' in %s' % u.inside if u.inside else '')
        if not ds:
            if u.name in known or (u.node == 'infix' and u.name in python):
                rep.ok('L3', w)
            elif not partial and not (x.loose and u.name.startswith(('each-', 'cols-'))):
                if u.node == 'infix' and any(y.loose for y in group):
                    rep.note('%s: the name is not resolved' % w)
                    continue
                extra = ''
                if u.inside and u.name in own:
                    extra = ' (a parameter of a macro is replaced only where it is written ($%s))' % u.name
                rep.bad('L3', w, 'the name %s is neither a parameter, nor a definition of the library or of an imported one, nor a built-in%s' % (u.name, extra), where)
            continue
        # a name of the library's own that only macros set is not there until one of them was applied
        if u.name.startswith('__') and not any(n == u.name for n, _ in u.scope) and u.inside:
            sets = [(i, p) for y in group for d, i, p in y.defs.get(u.name, ())]
            if sets and all(i for i, _ in sets) and u.inside not in {i for i, _ in sets}:
                rep.bad('L3', w, 'the name %s is used without being set: only %s set(s) it, for a use of its own' % (u.name, ', '.join(sorted({i for i, _ in sets}))), where)
                continue
            mine = [p for i, p in sets if i == u.inside]
            if mine and len(mine) == len(sets) and min(mine) > u.pos:
                rep.bad('L3', w, 'the name %s is used before it is set' % u.name, where)
                continue
        rep.ok('L3', w)
        if isinstance(u.node, tuple):
            misfit(rep, u.node, ds, w, where)


def misfit(rep, n, ds, w, where):
    _, fn, args, named, pos, _ = n
    if any(a[0] == 'embed' for a in args):
        return
    if any(d.kind == 'value' for d in ds):
        return
    most = [d.most for d in ds]
    if None not in most:
        rep.check(len(args) <= max(most), 'L5', w + ' x%d' % len(args), '%d arguments are given to %s, which has %d parameter(s)' % (len(args), fn[2], max(most)), where)
    for a, _ in named:
        rep.check(any(a in d.names for d in ds), 'L5', '%s \\%s' % (w, a), '%s has no parameter of the name %s' % (fn[2], a), where)


def implementations(rep, x, libs, d):
    """a library that goes on only on a condition: what follows replaces what is before"""
    if x.switch is None:
        return
    before = {n for n in x.direct_before}
    after = [n for n in x.direct if n not in before]
    # the implementation itself, not what it uses
    for b in before:
        for name, ds in sorted(libs[b].defs.items()):
            if any(i for _, i, _ in ds) or name.startswith('__'):
                continue
            there = [e for a in after for e in libs[a].defs.get(name, ())]
            if not there and any(u.name == name for u in libs[b].uses):
                continue                 # may be a helper of this implementation
            if not rep.check(bool(there), 'L6', '%s: %s of %s' % (x.file, name, b), '%s of %s has no counterpart in %s' % (name, b, ', '.join(after)), libs[b].line(ds[0][2])):
                continue
            mine, other = {e[0].most for e in ds}, {e[0].most for e in there}
            if None in mine or None in other:
                continue
            rep.check(mine == other, 'L6', '%s: parameters of %s' % (x.file, name), '%s has %s parameter(s) in %s and %s in %s' % (name, mine, b, other, ', '.join(after)), libs[b].line(ds[0][2]))


DEFINE = re.compile(r'^[ \t]*#[ \t]*define[ \t]+(\w+)(\(([^)]*)\))?', re.M)


def ctext(rep, x, d):
    """C macros of a header of the libraries"""
    heads = [f for f in sorted(os.listdir(d)) if f.endswith('.h') and re.search(r'#\s*include\s*[<"]%s[>"]' % re.escape(f), x.s)]
    if not heads:
        return
    defs = {}
    for f in heads:
        for g in DEFINE.finditer(open(os.path.join(d, f), encoding='utf8').read()):
            ps = [p.strip() for p in g.group(3).split(',')] if g.group(2) and g.group(3).strip() else [] if g.group(2) else None
            defs.setdefault(g.group(1), []).append(ps)
    words = {w for f in heads for w in re.findall(r'\w+', open(os.path.join(d, f), encoding='utf8').read())}
    prefixes = {re.match(r'[A-Z]+_', k).group() for k in defs if re.match(r'[A-Z]+_', k)}
    plain = re.sub(r'\(\$!', '', x.s)
    for name, (pars, pos) in sorted(x.macros.items()):
        pass
    src = blank_comments(x)
    for g in re.finditer(r'\b([A-Z][A-Z0-9]*_\w+)\b(\s*\()?', src):
        n = g.group(1)
        if not any(n.startswith(p) for p in prefixes):
            continue
        if n not in defs:
            rep.check(n in words, 'L7', '%s: %s' % (x.file, n), '%s is not defined by %s' % (n, ', '.join(heads)), x.line(g.start()))
            continue
        if not g.group(2):
            rep.ok('L7', '%s: %s' % (x.file, n))
            continue
        args = c_args(src, g.end())
        if args is None:
            continue
        ok = False
        for ps in defs[n]:
            if ps is None or '...' in ps and len(args) >= len(ps) - 1 or len(ps) == len(args) or len(ps) <= 1 and args == ['']:
                ok = True
        rep.check(ok, 'L7', '%s: %s with %d' % (x.file, n, len(args)), '%s is given %d argument(s), %s defines it with %s' % (n, len(args), ', '.join(heads), defs[n]), x.line(g.start()))


def blank_comments(x):
    s = x.s
    i = s.find('($!')
    while i >= 0:
        try:
            j = yuparse.Reader(s).skip(i + 3, '', i)
        except yuparse.Bad:
            break
        s = s[:i] + re.sub(r'[^\n]', ' ', s[i:j + 1]) + s[j + 1:]
        i = s.find('($!', j)
    return s


def c_args(s, p):
    d, args, cur = 0, [], ''
    while p < len(s):
        c = s[p]
        if c == ')' and d == 0:
            return args + [cur.strip()]
        if c == ',' and d == 0:
            args.append(cur.strip())
            cur = ''
        else:
            d += c == '('
            d -= c == ')'
            cur += c
        p += 1


def own_prefix(rep, x):
    """($name)_SUFFIX: C macros named after a name the library sets"""
    src = blank_comments(x)
    groups = {}
    for g in re.finditer(r'\(\$([\w-]+)\)_([A-Z]\w*)', src):
        groups.setdefault(g.group(1), []).append((g.group(2), g.start()))
    for base, occ in groups.items():
        if base not in x.inner:
            continue
        lead = re.escape('($%s)_' % base)
        mdefs = {}
        for name, (pars, pos) in x.macros.items():
            a = pos
            b = min([p for _, p in x.macros.values() if p > pos] + [len(src)])
            t = src[a:b]
            tree = always(t, lead)
            if tree:
                mdefs[name] = tree
        if not mdefs:
            continue
        sure = set().union(*(s for s, _ in mdefs.values()))
        maybe = set().union(*(s for _, s in mdefs.values()))
        gone = set(re.findall(r'#[ \t]*undef[ \t]+%s(\w+)' % lead, src))
        tests = set(re.findall(r'#[ \t]*if\w*[ \t]+%s(\w+)' % lead, src))
        for suf in sorted({s for s, _ in occ} | maybe):
            pos = next((p for s, p in occ if s == suf), 0)
            if suf in tests:
                continue
            w = '%s: ($%s)_%s' % (x.file, base, suf)
            rep.check(suf in sure, 'L8', w + ' defined', 'the C macro is %s' % ('not defined on every branch' if suf in maybe else 'not defined'), x.line(pos))
            if gone and suf in maybe:
                rep.check(suf in gone, 'L8', w + ' removed', 'the C macro is defined and not removed as the others are', x.line(pos))


def always(t, lead):
    """names defined on every branch, on some branch of the directives of a text"""
    stack = []       # (sure so far at outer level, sure sets of finished legs, has else)
    cur, some, first = set(), set(), True
    guard = None
    for line in t.split('\n'):
        g = re.match(r'[ \t]*#[ \t]*(\w+)[ \t]*(.*)', line)
        if not g:
            continue
        k, rest = g.groups()
        if k in ('if', 'ifdef', 'ifndef'):
            stack.append([cur, [], False, k == 'ifndef' and not stack, rest.strip()])
            cur = set()
        elif k in ('else', 'elif') and stack:
            stack[-1][1].append(cur)
            stack[-1][2] = k == 'else'
            cur = set()
        elif k == 'endif' and stack:
            out, legs, full, gd, _ = stack.pop()
            legs.append(cur)
            cur = out | (set.intersection(*legs) if full else set())
        elif k == 'define':
            d = re.match(lead + r'(\w+)', rest)
            if d:
                # the guard of a header is around the whole of it
                if stack and stack[-1][3] and stack[-1][4].startswith(re.match(lead, rest).group() + d.group(1)):
                    stack[-1][3] = False
                    out = stack[-1]
                    stack[-1] = [out[0], out[1], out[2], False, '']
                    stack[-1].append('guard')
                    continue
                cur.add(d.group(1))
                some.add(d.group(1))
    # directives left open are closed by another macro: what is inside counts as sure
    while stack:
        cur |= stack.pop()[0]
    return (cur, some) if some else None


def balance(rep, x):
    if x.python:
        return
    src = blank_comments(x)
    src = re.sub(r'/\*.*?\*/', ' ', src, flags=re.S)
    src = re.sub(r'"(?:\\.|[^"\\\n])*"', '""', src)
    n = 0
    opened = 0
    for k in re.findall(r'^[ \t]*#[ \t]*(\w+)', src, re.M):
        opened += k in ('if', 'ifdef', 'ifndef')
        opened -= k == 'endif'
        n += 1
    if n:
        rep.check(opened == 0, 'L9', '%s: directives' % x.file, '%d conditional directive(s) %s' % (abs(opened), 'not closed' if opened > 0 else 'closed without being opened'), 'lib/' + x.file)
    for a, b in ('()', '{}', '[]'):
        d = src.count(a) - src.count(b)
        rep.check(d == 0, 'L9', '%s: %s%s' % (x.file, a, b), '%d more "%s" than "%s"' % (abs(d), a if d > 0 else b, b if d > 0 else a), 'lib/' + x.file)


# ---------------------------------------------------------------------- reference
def reference(rep, libs, known, d):
    p = os.path.join(d, 'README.md')
    if not os.path.isfile(p):
        rep.note('the reference of the libraries was not found')
        return
    text = open(p, encoding='utf8').read()
    for part in re.split(r'(?m)^### ', text)[1:]:
        g = re.match(r'[^\n]*\(\[[^\]]*\]\(\./([\w-]+)\.yu\)\)', part)
        if not g:
            continue
        name = g.group(1)
        if not rep.check(name in libs, 'L4', 'library %s' % name, 'the documented library %s.yu is not shipped' % name, 'lib/README.md'):
            continue
        x = libs[name]
        group = closure(libs, x)
        if not all(y.whole for y in group):
            rep.note('%s: the reference is not compared, a part of the library was not read' % x.file)
            continue
        here = {n for y in group for n in y.defs}
        for h in re.findall(r'(?m)^#### (.+)$', part):
            for n in re.split(r'\s*,\s*', h.strip()):
                rep.check(n in x.defs, 'L4', '%s of %s' % (n, x.file), '%s is documented and not defined by the library' % n, 'lib/README.md')
        for code in re.findall(r'(?s)```\w*\n(.*?)```', part):
            try:
                nodes = yuparse.parse(code, '-py' in name)
            except yuparse.Bad:
                rep.count('examples that are not read')
                continue
            use = Library('README.md', '')
            use.block(nodes, (), None, lambda p: p)
            used = [libs[n] for k, n, _ in use.imports if k == 'library' and n in libs]
            for k, n, _ in use.imports:
                if k == 'library':
                    rep.check(n in libs, 'L4', 'library %s' % n, 'the documented library %s is not shipped' % n, 'lib/README.md')
            g2 = [z for y in (used or [x]) for z in closure(libs, y, bool(used))]
            if not all(y.whole for y in g2):
                continue
            rep.count('examples of the reference')
            for u in use.uses:
                if u.argument or u.name in known or u.name in use.defs:
                    continue
                ds = lookup(u.name, u.scope, g2 if used else group)
                w = '%s in an example for %s' % (u.name, x.file)
                if rep.check(bool(ds), 'L4', w, 'the documented ($%s) is not defined by %s' % (u.name, ', '.join(y.file for y in (used or [x]))), 'lib/README.md') and isinstance(u.node, tuple):
                    misfit(rep, u.node, ds, w, 'lib/README.md')
