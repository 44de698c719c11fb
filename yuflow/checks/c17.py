"""C17 - output names follow the documented rule and never equal the input name."""
import posixpath
from ..src import Repo, AnalysisError, where
from ..flow import Engine
from ..terms import isc, T, C, NONE

TECHNIQUE = 'constant propagation of file names with placeholder parts through the name derivation and both of its callers (decision table of the naming rule)'
NOTE = ('Every form of name (extension mark in each letter case, inner extensions, dots in directories, hidden files, several dots) with placeholders for directory, stem and extension, '
        'with and without an output directory, for the command line and the library entry point. The path functions are those of POSIX.')
ASSUMPTIONS = ['os.path.splitext, basename and join behave as on POSIX', 'names contain no line breaks']
# placeholders: any non-empty text without dots, slashes and upper-case letters / any extension
S, X, D = '\ue000', '\ue001', '\ue002'


def rule(fn, out):
    """the documented rule"""
    base = posixpath.basename(fn)
    d = out if out else fn[:len(fn) - len(base)]
    if out:
        d = posixpath.join(out, '')
    root, ext = posixpath.splitext(base)
    low = ext.lower()
    if ext == '':
        res = root + '.yugen'
    elif low == '.yu':
        res = root if posixpath.splitext(root)[1] else root + '.yugen'
    elif low.startswith('.yu-') and len(ext) > 4:
        res = root + '.' + ext[4:]
    else:
        res = root + '.yugen' + ext
    return d + res


NAMES = [S, S + '.yu', S + '.yu-' + X, S + '.' + X, S + '.' + X + '.yu', S + '.' + X + '.yu-' + X, S + '.YU', S + '.Yu', S + '.yU-' + X, S + '.YU-' + X, S + '.' + X + '.YU',
         S + '.yugen', S + '.yug', S + '.yuc', S + '.yu_c', S + '.xyu', S + '.xyu-c', S + '.yu-', S + '.yu-c-d', S + '.yu-' + X + '-' + X, S + '.yu.yu', S + '.yu-c.yu', S + '.c.d.yu', S + '.yu.c',
         S + '.yu-c.h', S + '.yugen.yu', S + '.yu-yu', S + '.yu-yugen', S + '.yu-YU', S + '.C', S + '.Yu-C', 'yu', '.yu', '.yu-c', '.' + S, '.' + S + '.yu', '.' + S + '.yu-' + X, '.' + S + '.' + X, S + '.',
         S + '..yu', 'a.yu-b.yu-c', S + '.y', S + '.u', S + 'yu', S + 'yu-c', S + '-yu', S + '.yu-c' + '.yu-d' + '.yu', S + ' ' + S + '.yu', S + '.bak', S + '.py', S + '.ast', S + '.json']
DIRS = ['', D + '/', '../', './', '/' + D + '/', D + '.d/', D + '.yu/', D + '.yu-c/', D + '/' + D + '.x/']
OUTS = ['', D, D + '.o', '/' + D, D + '/' + D, '.', D + '/']
G = 'yupp.pp.yup'


def table():
    for d in DIRS:
        for n in NAMES:
            if d in ('', D + '.d/', D + '/') or n in NAMES[:12]:
                yield d + n, ''
    for o in OUTS[1:]:
        for d in ('', D + '.d/'):
            for n in NAMES:
                if o == D or n in NAMES[:12]:
                    yield d + n, o


def show(s):
    return s.replace(S, '<name>').replace(X, '<ext>').replace(D, '<dir>')


def setup():
    rec, cur = [], ['']

    def stream(e, st, f, args, kw, node):
        rec.append((st, args[2] if len(args) > 2 else kw.get('fn_o')))
        return []

    def cfg(e, st, f, args, kw, node):
        d = e.obj(st, node, 'dict')
        st.heap[(d, 'base')] = NONE
        st.heap[(d, ('k', C('output_dir')))] = C(cur[0])
        st.heap[(d, ('k', C('force')))] = C(True)
        st.heap[(d, ('k', C('quiet')))] = C(True)
        for k in ('dependency', 'directory', 'pp_define'):
            l = e.obj(st, node, 'list')
            st.heap[(l, 'items')] = T('tup')
            st.heap[(d, ('k', C(k)))] = l
        return [(st, d)]

    e = Engine(keep=set(), opaque={'_pp_stream': stream, 'shell_parse_yuconfig': cfg})
    e.curmod_stack = [G]
    sh = e.globals(G).get('shell')

    def start(entry, p, fn, out):
        del rec[:]
        cur[0] = out
        e.steps = 0
        r, x = e.analyse('yup', entry, args={p: C(fn)}, heap={(sh, 'output_dir'): C(out), (sh, 'quiet'): C(True)} if sh is not None else {})
        return list(r) if entry == '_output_fn' else list(rec)
    return start


def run(rep):
    rep.rule('O1', 'the name derived from each form of input name is the one the rule defines')
    rep.rule('O2', 'the derived name never equals the name of the input')
    m = Repo.get().mod('yup')
    entries = [n for n in ('_pp_file', 'proc_stream') if n in m.functions]
    if '_pp_stream' not in m.functions:
        entries = []
    if not entries:
        if '_output_fn' not in m.functions:
            rep.note('neither the name derivation nor its callers were found')
            return
        entries = ['_output_fn']
    unknown = {}
    for entry in entries:
        start = setup()
        for fn, out in table():
            params = [a.arg for a in m.functions[entry].args.args]
            p = params[1] if entry == 'proc_stream' and len(params) > 1 else params[0]
            try:
                rec = start(entry, p, fn, out)
            except AnalysisError as x:
                unknown[entry] = str(x)
                continue
            rep.count('names propagated through ' + entry)
            if not rec:
                unknown[entry] = 'the translation is not reached'
            for st, v in rec:
                w = 'input name %s%s' % (show(fn), ', output directory %s' % show(out) if out else '')
                if v is None or not isc(v) or not isinstance(v.args[0], str):
                    unknown[entry] = '%s gives %s' % (w, v)
                    continue
                got, want = v.args[0], rule(fn, out)
                same = posixpath.normpath(got) == posixpath.normpath(want)
                rep.check(same, 'O1', w + ' in ' + entry, 'for %s the output name is %s and not %s' % (w, show(got), show(want)), where(m.functions.get('_output_fn', m.functions[entry])))
                rep.check(posixpath.basename(got) != posixpath.basename(fn), 'O2', w + ' in ' + entry, 'for %s the output name is the name of the input' % w, where(m.functions.get('_output_fn', m.functions[entry])))
    for k, v in unknown.items():
        rep.note('%s: not decided (%s)' % (k, v))
    rep.count('callers analysed', len(entries) - len(unknown))
