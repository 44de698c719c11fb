"""Engine set-up for the wrapper level (pp/yup.py and the package around it): the translator itself (pp/yugen.py) is
taken as unknown code that may return anything, change its own module state and raise anything."""
import ast
from .flow import Engine
from .terms import T, C, NONE, TRUE, FALSE, isc
from .src import Repo, AnalysisError

FS = {'open', 'rename', 'remove', 'chmod', 'write', 'close', 'copy'}
STAGES = ('yuparse', 'yueval')                       # the translator proper: may raise anything
PASSES = ('reduce_emptiness', 'replace_steady', 'make_ast_readable')


def size(node):
    return sum(isinstance(n, ast.stmt) for n in ast.walk(node))


def boundary(e, fv):
    if not fv.modname.endswith('.yugen'):
        return False
    n = fv.node
    if isinstance(n, ast.Lambda):
        return False
    return size(n) > 14 or any(isinstance(x, (ast.For, ast.While, ast.Try)) for x in ast.walk(n))


def only_errors(st, ev):
    if ev[0] == 'log' and (ev[1] == 'trace' or ev[2] not in ('error', 'critical', 'exception')):
        return None
    if ev[0] == 'ret' and ev[1] not in STAGES:
        return None
    return ev


def stage(name):
    def h(e, st, f, args, kw, node):
        s = st.copy()
        e.emit(s, 'xcall', name, e.site(node))
        e.havoc_mods(s, f, node)
        e.throw(s, 'Exception', name)
        e.havoc_mods(st, f, node)
        v = T('call', name, *(tuple(args) + (e.fresh(st, node, name),)))
        e.emit(st, 'ret', name, v)
        return [(st, v)]
    return h


def rendered(name):
    """a pass over the result: keeps the dependency on what it was given"""
    def h(e, st, f, args, kw, node):
        e.throw(st.copy(), 'Exception', name)
        return [(st, T('call', name, *args))]
    return h


def engine(keep=FS | {'log'}, **kw):
    opaque = {n: stage(n) for n in STAGES}
    opaque.update({n: rendered(n) for n in PASSES})
    opaque.update(kw.pop('opaque', {}))
    kw.setdefault('once', ('log',))
    return Engine(keep=keep, opaque=opaque, boundary=boundary, evfilter=kw.pop('evfilter', only_errors), **kw)


def derives(v, name):
    """v is made of the result of the function `name`"""
    return any(t.op == 'call' and t.args[0] == name for t in v.deps())


def suffix(p):
    """constant suffix of a path term ('' if unknown)"""
    if isc(p) and isinstance(p.args[0], str):
        return p.args[0]
    if p.op == 'bin' and p.args[0] == 'Add':
        return suffix(p.args[2])
    return ''


AUX = ('.json', '.ast')


def is_bak(p):
    return p.op == 'bin' and p.args[0] == 'Add' and isc(p.args[2]) and p.args[2].args[0] == '.bak'


def kind_of(p):
    s = suffix(p)
    if is_bak(p) or s.endswith('.bak'):
        return 'bak'
    if s.endswith('.json'):
        return 'json'
    if s.endswith('.ast'):
        return 'ast'
    return 'main'


def translated(st):
    """facts of the state say that the evaluated text is plain text"""
    for f, v in st.facts.items():
        if v and f.op == 'isinst' and f.args[1] in ('str', 'RESULT') and derives(f.args[0], 'yueval'):
            return True
    return False


# ---------------------------------------------------------------------- entry points
def args_handler(files, text=None):
    """the parsed command line: symbolic, with a known list of files"""
    def h(e, st, f, args, kw, node):
        a = T('sym', 'args')
        o = e.obj(st, node, 'list')
        st.heap[(o, 'items')] = T('tup', *files)
        st.heap[(a, 'files')] = o
        if text is not None:
            st.heap[(a, 'text')] = text
        e.throw(st, 'SystemExit', 'argparse')
        return [(st, a)]
    return h


_cache = {}


def entry(name, keep=FS | {'log'}, tag='', **kw):
    """-> (engine, returns, raises) of proc_stream / proc_file / cli:<n files>"""
    key = (name, frozenset(keep), tag)
    if key in _cache:
        return _cache[key]
    opaque = kw.pop('opaque', {})
    fnattr = kw.pop('fnattr', False)
    if name.startswith('cli:'):
        n = int(name[4:])
        files = [T('sym', 'file%d' % i) for i in range(n)]
        opaque['shell_parse_cli_arguments'] = args_handler(files, C(''))
        opaque.setdefault('_pp_test', lambda e, st, f, args, kw, node: [(st, e.fresh(st, node, 'ok'))])
        e = engine(keep, opaque=opaque, **kw)
        e.fnattr = fnattr
        e.nulname = fnattr
        r, x = e.analyse('yup', 'cli')
    else:
        e = engine(keep, opaque=opaque, **kw)
        e.fnattr = fnattr
        e.nulname = fnattr
        r, x = e.analyse('yup', name)
    if e.squashed:
        raise AnalysisError('too many states at %s' % name)
    _cache[key] = (e, r, x)
    return _cache[key]
