"""C19 - the output is UTF-8, written as a whole at the requested or derived name, and protected when asked."""
import ast, stat as _stat
from ..src import Repo, where, AnalysisError
from ..wrap import engine, FS, kind_of, derives, translated, only_errors
from ..terms import isc, T, C, NONE, TRUE, FALSE
from .c01 import short, loc
from .c02 import written, last

TECHNIQUE = 'path-sensitive effect analysis of the writing paths, enumerating the requested name and the read-only switch'
NOTE = ('Every success path of _pp_file and proc_stream for each combination of requested name (given, not given) and read-only (on, off), with constant propagation of open modes, encodings and chmod modes. '
        'That the operating system honours the mode bits is trusted.')
ASSUMPTIONS = ['open() with mode w truncates', 'os.chmod sets the given bits']
KEEP = FS | {'xcall', 'ret', 'log'}
UTF8 = {'utf8', 'utf-8', 'utf_8', 'u8', 'utf'}


def writable(m):
    """does the mode term leave a write bit: True / False / None (unknown)"""
    v = value(m)
    if v is not None:
        return bool(v & 0o222)
    if m.op == 'bin' and m.args[0] == 'BitAnd':
        for x in m.args[1:]:
            w = value(x)
            if w is not None and not w & 0o222:
                return False
    return None


def value(m):
    if isc(m) and isinstance(m.args[0], int):
        return m.args[0]
    if m.op == 'ext' and m.args[0].startswith('stat.') and isinstance(getattr(_stat, m.args[0][5:], None), int):
        return getattr(_stat, m.args[0][5:])
    if m.op == 'bin' and m.args[0] in ('BitOr', 'BitAnd', 'BitXor'):
        a, b = value(m.args[1]), value(m.args[2])
        if a is not None and b is not None:
            return {'BitOr': a | b, 'BitAnd': a & b, 'BitXor': a ^ b}[m.args[0]]
    if m.op in ('unary', 'un') and m.args[0] == 'Invert':
        a = value(m.args[1])
        return None if a is None else ~a
    return None


def utf8(enc):
    return isc(enc) and isinstance(enc.args[0], str) and enc.args[0].lower().replace('_', '-') in {x.replace('_', '-') for x in UTF8}


def encoded(t):
    """t = text.encode('utf8')"""
    return t.op == 'call' and t.args[0] == '.encode' and (len(t.args) < 3 or utf8(t.args[2]))


def setting(e, name):
    g = e.globals('yupp.pp.yup')
    return g.get(name)


REQ = T('sym', 'REQUESTED')
DERIVED = '_output_fn'


def prepare(requested, read_only, browse=None):
    def ev_stage(name):
        def h(e, st, f, args, kw, node):
            s = st.copy()
            e.emit(s, 'xcall', name, e.site(node))
            e.havoc_mods(s, f, node)
            e.throw(s, 'Exception', name)
            e.havoc_mods(st, f, node)
            if name == 'yueval':
                fb = setting(e, 'feedback')
                if fb is not None:
                    st.heap[(fb, 'output_file')] = REQ if requested else C('')
                    if requested:
                        st.facts[T('truth', REQ)] = True
            v = T('call', name, *(tuple(args) + (e.fresh(st, node, name),)))
            e.emit(st, 'ret', name, v)
            return [(st, v)]
        return h

    def cfg(e, st, f, args, kw, node):
        d = e.obj(st, node, 'dict')
        st.heap[(d, 'base')] = NONE
        st.heap[(d, ('k', C('read_only')))] = C(read_only)
        for k in ('dependency', 'directory', 'pp_define'):
            l = e.obj(st, node, 'list')
            st.heap[(l, 'items')] = T('tup')
            st.heap[(d, ('k', C(k)))] = l
        return [(st, d)]

    opaque = {'yuparse': ev_stage('yuparse'), 'yueval': ev_stage('yueval'), 'shell_parse_yuconfig': cfg}
    if DERIVED in Repo.get().mod('yup').functions:
        opaque[DERIVED] = lambda e, st, f, args, kw, node: [(st, T('call', DERIVED, *args))]
    return opaque


def analyse(name, requested, read_only):
    e = engine(KEEP, opaque=prepare(requested, read_only))
    e.curmod_stack = ['yupp.pp.yup']
    sh = setting(e, 'shell')
    heap = {}
    if sh is not None:
        heap[(sh, 'read_only')] = C(read_only)
    r, x = e.analyse('yup', name, heap=heap)
    if e.squashed:
        raise AnalysisError('too many states at %s' % name)
    return e, r, x


def run(rep):
    rep.rule('U1', 'every output file is opened in a truncating text mode with the encoding UTF-8 (or receives bytes encoded in UTF-8)')
    rep.rule('U2', 'what is written as output comes from the evaluation of the text, in one piece')
    rep.rule('U3', 'the output is written at the requested name if the text requested one, else at the derived name')
    rep.rule('U4', 'with read-only on, the written output has been made read-only on every success path, after its last write, and stays so')
    rep.rule('U5', 'with read-only off no path changes the mode of the output')
    yup = Repo.get().mod('yup')
    entries = [n for n in ('_pp_file', 'proc_stream') if n in yup.functions]
    if 'proc_stream' not in entries:
        raise AnalysisError('proc_stream not found')
    for name in entries:
        for requested in (False, True):
            for ro in (True, False):
                e, rets, raises = analyse(name, requested, ro)
                label = '%s, %s name, read-only %s' % (name, 'requested' if requested else 'derived', 'on' if ro else 'off')
                rep.count('paths of ' + name, len(rets) + len(raises))
                for st, v in rets:
                    one(rep, name, label, e, st, v, requested, ro)
    for r in ('U1', 'U2', 'U3', 'U4', 'U5'):
        rep.need(r)


def one(rep, name, label, e, st, v, requested, ro):
    log = st.log
    for i, ev in enumerate(log):
        if ev[0] == 'open' and ev[5]:
            k = kind_of(ev[1])
            if k == 'bak':
                continue
            mode = ev[2]
            con = '%s file opened in %s' % (k, label)
            if 'b' in mode:
                w = [x[2] for x in log[i:] if x[0] == 'write' and x[1] is ev[1]]
                rep.check(all(encoded(t) for t in w), 'U1', con, 'the %s file gets bytes that are not encoded in UTF-8' % k, loc(ev))
            else:
                rep.check(utf8(ev[3]), 'U1', con, 'the %s file is opened with encoding %s' % (k, ev[3]), loc(ev))
            rep.check('w' in mode or 'x' in mode, 'U1', con + ' (mode)', 'the %s file is not replaced as a whole: mode %r' % (k, mode), loc(ev))
            if k == 'main':
                for w in log[i:]:
                    if w[0] == 'write' and w[1] is ev[1]:
                        rep.check(derives(w[2], 'yueval'), 'U2', 'text written in ' + label, 'what is written does not come from the evaluation: %s' % w[2], loc(w))
                        rep.check(not any(t.op in ('slice', 'slice3') and t.deps() and derives(t, 'yueval') for t in [w[2]]), 'U2', 'whole text in ' + label,
                                  'only a part of the text is written: %s' % w[2], loc(w))
    ok = v.args[0] if v.op == 'tup' and v.args else v
    if isc(ok) and not ok.args[0]:
        return
    w = written(st)
    if w is None:
        return                     # reuse, or C02's business
    p = w[0]
    drv = T('call', DERIVED, T('sym', 'fn'))
    if requested:
        rep.check(p is REQ, 'U3', label, 'the output goes to %s where the text requested another name' % p, last(st))
    elif DERIVED in Repo.get().mod('yup').functions:
        rep.check(p is drv, 'U3', label, 'the output goes to %s where no name was requested' % p, last(st))
    else:
        rep.check(not any(x is REQ for x in p.deps()), 'U3', label, 'unexpected name', last(st))
    names = {p} | {ev[1] for ev in log if ev[0] == 'rename' and ev[2] is p}
    lastw = max(i for i, ev in enumerate(log) if ev[0] == 'write' and ev[1] in names)
    chm = [(i, ev) for i, ev in enumerate(log) if ev[0] == 'chmod' and ev[1] in names and i > lastw]
    if ro:
        if not chm:
            rep.bad('U4', label, 'the output is not made read-only after it was written, on path: ' + short(log), last(st))
        else:
            wr = writable(chm[-1][1][2])
            if wr is None:
                rep.note('mode of the output not decided: %s' % chm[-1][1][2])
            else:
                rep.check(not wr, 'U4', label, 'the output is left writable (mode %s)' % chm[-1][1][2], loc(chm[-1][1]))
    else:
        opened = [i for i, ev in enumerate(log) if ev[0] == 'open' and ev[5] and ev[1] in names]
        ch = [ev for i, ev in enumerate(log) if ev[0] == 'chmod' and ev[1] in names and i > opened[0]]
        rep.check(not any(writable(ev[2]) is False for ev in ch), 'U5', label, 'the output is made read-only although read-only is off, on path: ' + short(log), loc(ch[0]) if ch else '')
