"""C08 - imports: loaded once, found in the documented order, failures are errors."""
from ..src import Repo, AnalysisError
from ..flow import Engine
from ..terms import isc, T, C, NONE

TECHNIQUE = 'path-sensitive effect analysis of the import form from the state a run starts with, repeated from every state it leaves; constant-propagated search list'
NOTE = ('All paths of ($import ...) over symbolic names, an input directory, two configured directories and every combination of existing files; a second import of the same name is '
        'analysed from every state the first one can leave, and from the state in which the first one is being parsed (circular import). Files are told apart by their names, not by their identity.')
ASSUMPTIONS = ['os.path.isfile tells what open would find (no file appears or vanishes in between)', 'two directories and one name stand for any number of them (the search loop is the same for each)']
G = 'yupp.pp.yugen'
KEEP = {'open', 'read', 'ext', 'isfile', 'yuparse', 'setitem', 'mutate'}
LOADERS = ('imp.load_source', 'importlib', 'runpy', 'exec', 'execfile', 'eval', 'compile', 'imp.')


def norm(e, t):
    t = e.kn(t)
    if t.op == 'call' and t.args[0] in ('os.path.join', 'str', 'os.path.normpath'):
        if t.args[0] != 'os.path.join':
            return norm(e, t.args[1])
        parts = []
        for a in t.args[1:]:
            a = norm(e, a)
            parts += a.args[1:] if a.op == 'call' and a.args[0] == 'os.path.join' else (a,)
        return T('call', 'os.path.join', *parts)
    if t.op == 'bin' and t.args[0] == 'Add':
        a, b = norm(e, t.args[1]), norm(e, t.args[2])
        if isc(a) and isc(b):
            return C(a.args[0] + b.args[0])
        return T('bin', 'Add', a, b)
    return t


def known(t):
    """the term is made of names, constants and known operations only"""
    return all(x.op in ('sym', 'c', 'const', 'call', 'bin', 'ext', 'attr', 'new') or isc(x) for x in t.deps())


class World:
    def __init__(self, rep):
        self.rep = rep
        self.mid = []

    def engine(self, kind, leg):
        def rule(name):
            def h(e, st, f, args, kw, node):
                return [(st, T('tup', e.fresh(st, node, 'rest'), leg if name == kind else NONE))]
            return h

        def parse(e, st, f, args, kw, node):
            key = args[0] if args else NONE
            src = st.heap.get((self.ys, 'source'))
            entry = e.getitem(st, src, key, None) if src is not None else NONE
            e.emit(st, 'yuparse', key, entry)
            self.mid.append(st.copy())
            return [(st, e.fresh(st, node, 'ast'))]

        def isfile(e, st, name, args, kw, node):
            out = []
            a = T('isfile', norm(e, args[0]))
            x = T('exists', a.args[0])
            mere = name != 'os.path.isfile'
            for b in (True, False):
                if st.facts.get(x if mere else a, b) != b or not mere and b and st.facts.get(x) is False:
                    continue
                s = st.copy()
                s.facts[x if mere else a] = b
                if mere and not b:
                    s.facts[a] = False          # a file would exist
                if not mere and b:
                    s.facts[x] = True
                e.emit(s, 'isfile', args[0], b)
                out.append((s, C(b)))
            return out

        quiet = lambda e, st, f, args, kw, node: [(st, NONE)]
        op = {'ps_gap': lambda e, st, f, args, kw, node: [(st, T('tup', e.fresh(st, node, 'rest'), NONE))],
              'ps_atom': rule('atom'), 'ps_quote': rule('quote'), 'ps_infix': rule('infix'), 'yuparse': parse,
              'ext:os.path.isfile': isfile, 'ext:os.path.exists': isfile, 'ext:os.path.lexists': isfile, '_update_builtin_from_config': quiet, 'enclose_import': quiet,
              '_unq': lambda e, st, f, args, kw, node: [(st, T('sym', 'quoted'))]}
        e = Engine(keep=KEEP, opaque=op)
        e.distinct = ('os.path.exists', 'os.path.lexists')
        e.curmod_stack = [G]
        e.globals(G)
        return e

    def start(self, e, facts):
        """states in which a run starts, by what they search"""
        g = e.globals(G)
        self.ys = g['yushell']
        d = T('list', 'dirs', 0)
        inp = T('sym', 'input')
        r, _ = e.analyse('yugen', 'yushell', args={'text': T('sym', 'text'), '_input': inp, '_output': T('sym', 'output')},
                         heap={(g['config'], 'directory'): d, (d, 'items'): T('tup', T('sym', 'd1'), T('sym', 'd2'))},
                         facts=dict(facts))
        res = {}
        for st, _v in r:
            l = st.heap.get((self.ys, 'directory'))
            it = e.items(st, l) if l is not None else None
            given = st.facts.get(T('truth', inp))
            if given is not False:
                given = True
            res.setdefault((given, it), st)
        return res


def same_state(st, ys):
    return tuple(sorted((str(k), str(v)) for k, v in st.heap.items() if k[0] is ys or k[0].op in ('dict', 'list')))


def pick(states, ys, n=6):
    seen, out = set(), []
    for s in states:
        k = same_state(s, ys)
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out[:n]


def run(rep):
    rep.rule('I1', 'the file opened for an import is the first existing one of: the name as given, the input directory, the configured directories in order, the library directory')
    rep.rule('I2', 'what is handed to the parser is the text read from that file, registered under the handed name before parsing starts')
    rep.rule('I3', 'importing a library by name again, or while it is being imported, opens nothing and hands the empty text to the parser')
    rep.rule('I4', 'a quoted source file is read again each time it is named')
    rep.rule('I5', 'a Python script is loaded once, and its names become available')
    rep.rule('I6', 'an import of a file that was not imported before does not return without having read it, and its error tells what was imported')
    repo = Repo.get()
    for need in ('ps_import', 'yushell', 'yuparse'):
        if need not in repo.mod('yugen').functions:
            rep.note('%s not found: imports not decided' % need)
            return
    w = World(rep)
    for kind, name in (('atom', T('bin', 'Add', T('sym', 'atom'), C('.yu'))), ('quote', T('sym', 'quoted')), ('infix', None)):
        leg = T('sym', 'atom' if kind == 'atom' else kind)
        facts = {T('is', leg, NONE): False, T('truth', leg): True}
        e = w.engine(kind, leg)
        starts = w.start(e, facts)
        for (given, dirs), st0 in starts.items():
            if not given and kind != 'atom':
                continue
            one(rep, w, e, kind, name, leg, given, st0, facts)
    rep.need('I1', 1)


def expected(e, st, given, name):
    inp = T('sym', 'input')
    dirs = ([T('call', 'os.path.dirname', inp)] if given else []) + [T('sym', 'd1'), T('sym', 'd2')]
    return [norm(e, name)] + [norm(e, T('call', 'os.path.join', d, name)) for d in dirs]


def libdir(p, name):
    """p is <something with __file__>/lib/name"""
    if p.op != 'call' or p.args[0] != 'os.path.join' or len(p.args) < 3:
        return False
    return p.args[-1] is name and isc(p.args[-2]) and str(p.args[-2].args[0]).strip('./') == 'lib'


def one(rep, w, e, kind, name, leg, given, st0, facts):
    what = '%s import%s' % (kind, '' if given else ' from standard input')
    w.mid = []
    rets, raises = e.analyse('yugen', 'ps_import', heap=st0.heap, facts={**st0.facts, **facts})
    rep.count('paths of the first ' + what, len(rets) + len(raises))
    mids = [s for s in w.mid]
    done, loaded = [], []
    for st, v in rets:
        if v.op == 'tup' and len(v.args) == 2 and v.args[1] is NONE:
            continue            # not the import form
        parsed = [ev for ev in st.log if ev[0] == 'yuparse']
        reads = [ev for ev in st.log if ev[0] == 'open']
        load = [ev for ev in st.log if ev[0] == 'ext' and ev[1].startswith(LOADERS)]
        if kind == 'infix':
            if load:
                rep.check(bool(parsed) and given_text(parsed[-1], load), 'I2', what, 'the value of the expression is not what is parsed', 'pp/yugen.py')
            continue
        n = norm(e, name)
        if parsed and not reads and not load:
            # the name may already be known (e.g. equal to that of the input file)
            src = [a for a, b in st.facts.items() if a.op == 'in' and b and norm(e, a.args[0]) is n]
            rep.check(bool(src) and kind == 'atom', 'I6', what, 'an import returns without having read a file: ' + path(st), where(st))
            continue
        if not parsed and not load:
            src = [a for a, b in st.facts.items() if a.op == 'in' and b]
            rep.check(bool(src), 'I6', what, 'an import returns without having read a file: ' + path(st), where(st))
            continue
        p = reads[-1][1] if reads else load[-1][2][1] if len(load[-1][2]) > 1 else None
        if p is None:
            rep.note('loading of a script with an unknown form: ' + load[-1][1])
            continue
        p = norm(e, p)
        exp = expected(e, st, given, name)
        tested = {norm(e, ev[1]): ev[2] for ev in st.log if ev[0] == 'isfile'}
        if p in exp:
            i = exp.index(p)
        elif libdir(p, n):
            i = len(exp)
        elif known(p):
            rep.bad('I1', what, 'an import opens %s, which is not one of the places to look in: %s' % (p, path(st)), where(st))
            continue
        else:
            rep.note('%s opens a file whose name is not decided: %s' % (what, p))
            continue
        if tested.get(p) is False and i < len(exp):
            continue            # no such file and yet opened: only possible if it appeared meanwhile
        before = [q for q in exp[:i] if tested.get(q) is not False]
        if not tested:
            rep.note('%s does not ask whether files exist' % what)
            continue
        rep.check(i == len(exp) or not (tested.get(p) and st.facts.get(T('exists', p)) and st.facts.get(T('isfile', p)) is not True), 'I1', what + ': a file',
                  'an import takes %s when something of that name exists, also a directory, although a later place may have the file' % p, where(st))
        rep.check(not before, 'I1', what, 'an import takes %s although it is not known that %s does not exist' % (p, before and before[0]), where(st))
        if reads and not load:
            ok = bool(parsed)
            if ok:
                ent = parsed[-1][2]
                text = ent.args[1] if ent.op == 'tup' and len(ent.args) > 1 else ent
                ok = derived_from_read(text, reads[-1])
                if not ok and not known_entry(ent):
                    rep.note('the text registered for %s is not decided: %s' % (what, ent))
                    ok = True
            rep.check(ok, 'I2', what, 'the parser is not handed the text that was read: ' + path(st), where(st))
            done.append(st)
        if load:
            upd = [ev for ev in st.log if ev[0] in ('mutate', 'setitem') and ev[1].op == 'dict' or ev[0] == 'ext' and 'update' in str(ev[1])]
            upd = upd or [1 for k in st.heap if k[1] == 'base' and 'vars' in str(st.heap[k])]
            rep.check(bool(upd), 'I5', what, 'a loaded script leaves no names behind: ' + path(st), where(st))
            loaded.append(st)
    for st, x in raises:
        ks = x.args[0]
        if any(ev[0] in ('yuparse',) for ev in st.log) or ks == 'SyntaxError':
            continue
        msg = x.args[1]
        if isinstance(msg, T):
            rep.check(leg in msg.deps() or (name is not None and norm(e, name) in msg.deps()) or any(d.op == 'exc' for d in msg.deps()) and not isc(msg), 'I6', 'error of ' + what,
                      'the error of a failed import does not tell what was imported: %s' % msg, 'pp/yugen.py')
    # ------------------------------------------------------- again
    if kind == 'atom':
        for when, sts in (('again', done), ('while it is being imported', [s for s in mids if any(ev[0] == 'open' for ev in s.log)])):
            for s in pick(sts, w.ys):
                again(rep, w, e, what, when, s, leg, facts)
    if kind == 'quote':
        for s in pick(done, w.ys):
            r2, _ = e.analyse('yugen', 'ps_import', heap=s.heap, facts=keepfacts(s, facts))
            for st, v in r2:
                if v.op == 'tup' and v.args[-1] is NONE:
                    continue
                if st.facts.get(T('truth', T('sym', 'quoted'))) is False or any(ev[0] == 'ext' and ev[1].startswith(LOADERS) for ev in st.log):
                    continue
                if not any(ev[0] == 'yuparse' for ev in st.log):
                    continue    # the script branch
                rep.check(any(ev[0] == 'open' for ev in st.log), 'I4', 'second quoted import', 'a quoted source file named again is not included again: ' + path(st), where(st))
        for s in pick(loaded, w.ys):
            r2, x2 = e.analyse('yugen', 'ps_import', heap=s.heap, facts=keepfacts(s, facts))
            for st, v in r2 + x2:
                if any(ev[0] in ('yuparse', 'open') for ev in st.log):
                    continue    # the branch for source files
                l = [ev for ev in st.log if ev[0] == 'ext' and ev[1].startswith(LOADERS)]
                rep.check(not l, 'I5', 'second script import', 'a Python script imported again is loaded again: ' + path(st), where(st))


def keepfacts(s, facts):
    return {**{a: b for a, b in s.facts.items() if a.op not in ("is", "truth") or a.args[0].op == "sym"}, **facts}


def again(rep, w, e, what, when, s, leg, facts):
    r2, x2 = e.analyse('yugen', 'ps_import', heap=s.heap, facts=keepfacts(s, facts))
    rep.count('paths of a second import', len(r2) + len(x2))
    for st, v in r2 + x2:
        if v.op == 'tup' and v.args[-1] is NONE:
            continue
        opens = [ev for ev in st.log if ev[0] == 'open']
        con = '%s, %s' % (what, when)
        if opens:
            rep.bad('I3', con, 'a library imported %s is read again: %s' % (when, path(st)), where(st))
            continue
        p = [ev for ev in st.log if ev[0] == 'yuparse']
        for ev in p:
            ent = ev[2]
            text = ent.args[1] if ent.op == 'tup' and len(ent.args) > 1 else ent
            if isc(text):
                rep.check(text.args[0] == '', 'I3', con, 'a library imported %s contributes %r' % (when, text.args[0]), where(st))
            elif any(d.op == 'read' for d in text.deps()):
                rep.bad('I3', con, 'a library imported %s contributes its text again' % when, where(st))
            else:
                rep.note('%s: text handed to the parser is not decided: %s' % (con, text))
        if not p:
            rep.ok('I3', con)


def derived_from_read(text, op):
    return any(d.op == 'read' or d.op == 'fh' for d in text.deps())


def known_entry(t):
    return t.op in ('tup', 'sub') and all(isc(d) or d.op in ('sym', 'tup', 'call', 'bin') for d in t.deps()) or isc(t)


def given_text(ev, load):
    ent = ev[2]
    text = ent.args[1] if ent.op == 'tup' and len(ent.args) > 1 else ent
    return not isc(text)


def path(st):
    out = []
    for ev in st.log:
        if ev[0] == 'isfile':
            out.append('%s %s' % (ev[1], 'exists' if ev[2] else 'does not exist'))
        elif ev[0] == 'open':
            out.append('open %s at %s' % (ev[1], ev[4]))
        elif ev[0] == 'yuparse':
            out.append('parse %s' % ev[1])
        elif ev[0] == 'ext':
            out.append('%s' % ev[1])
    return '; '.join(x[:90] for x in out[-6:]) or 'straight'


def where(st):
    for ev in reversed(st.log):
        for x in ev:
            if isinstance(x, str) and x.startswith('pp/') and ':' in x:
                return ':'.join(x.split(':')[:2])
    return 'pp/yugen.py'
