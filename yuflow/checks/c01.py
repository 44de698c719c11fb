"""C01 - an existing output file is never lost, a failed run never touches it (path rules over file-system events)."""
import ast
from ..src import Repo, where
from ..wrap import entry, kind_of, is_bak, translated, suffix, derives, FS
from ..terms import isc, TRUE, T, C
from ..flow import EXT_ALIAS

TECHNIQUE = 'path-sensitive effect analysis (typestate of the output file) over the source of the wrapper'
NOTE = ('Enumerates every path class of proc_stream, proc_file and cli through pp/yup.py with every file operation able to fail; '
        'rules over the sequence of file-system effects. Trusts the engine\'s model of os/open and that the translator itself touches no files (R6 looks for it).')
ASSUMPTIONS = ['files are changed only through open/os/shutil calls (listed as primitives of the analysis)',
               'the file system is not changed by another process between the test and the write',
               'the translator (yuparse, yueval, passes over the result) may raise anything and return anything']

ENTRIES = ('proc_stream', 'proc_file', 'cli:1')
KEEP = FS | {'xcall', 'ret'}
PRIMS = {'rename', 'remove', 'unlink', 'replace', 'rmdir', 'truncate', 'move', 'copy', 'copyfile', 'copy2', 'rmtree', 'removedirs', 'renames'}


def short(log):
    out = []
    for ev in log:
        if ev[0] == 'log':
            out.append('log.%s' % ev[2])
        elif ev[0] in ('xcall', 'ret', 'caught'):
            out.append('%s %s' % ({'xcall': 'raised in', 'ret': 'returned from', 'caught': 'caught'}[ev[0]], ev[1]))
        else:
            out.append('%s %s%s' % (ev[0], kind_of(ev[1]), ' (%s)' % ev[2] if ev[0] == 'open' else ''))
    return ' > '.join(out)


def clobbers(log):
    """(index, kind, path, event) of events that destroy the content of a path; pre = known non-existence"""
    for i, ev in enumerate(log):
        if ev[0] == 'open' and ev[5] and 'x' not in ev[2] and 'a' not in ev[2]:
            yield i, 'open for writing', ev[1], ev, ev[6]
        elif ev[0] in ('rename', 'copy'):
            yield i, ev[0] + ' onto', ev[2], ev, ev[4]
            if ev[0] == 'rename':
                yield i, 'rename away', ev[1], ev, None
        elif ev[0] == 'remove':
            yield i, 'remove', ev[1], ev, ev[3]


def loc(ev):
    for x in ev:
        if isinstance(x, str) and x.count(':') == 2:
            return x.rsplit(':', 1)[0]
    return ''


def temp(p, log, i):
    """written beside and renamed into place later"""
    return any(e[0] == 'rename' and e[1] is p for e in log[i + 1:])


def apart(p, facts):
    """the .ast name p is certainly not the name of the output file (False: it can be)"""
    stem = p
    while stem.op == 'bin' and stem.args[0] == 'Add' and isc(stem.args[2]):
        stem = stem.args[1]
    if stem is p:
        return True
    cut = [a for a in stem.args if isinstance(a, T) and a.op == 'call' and isinstance(a.args[0], str) and a.args[0].endswith('splitext')]
    if not cut:
        return True
    for f, v in facts.items():
        if v is False and f.op == 'eq' and (p in f.args or ext_ast(f)):
            return True
        if v is False and f.op == 'truth' and any(d.op == 'call' and d.args[0].endswith('endswith') for d in f.deps()):
            return True
    return False


def ext_ast(f):
    """the comparison of the extension of the output name with '.ast'"""
    return any(isc(a) and isinstance(a.args[0], str) and a.args[0].lower() == '.ast' for a in f.args)


def run(rep):
    rep.rule('R1', 'on every path, the main output file is opened for writing (or renamed onto) only if it is known not to exist there, or has been renamed/copied to its .bak before')
    rep.rule('R2', 'the output file is moved away only to its own name + .bak, and never deleted')
    rep.rule('R3', 'an old .bak is deleted or overwritten only where the output file that replaces it is known to exist')
    rep.rule('R4', 'main output, .bak and .json are touched only on paths on which the text was parsed, evaluated and found to be plain text')
    rep.rule('R5', 'an unreduced result is written only to a name ending in .ast')
    rep.rule('R8', 'the name an unreduced result is written to differs from the name of the output file: something is appended to that name, or the path has established that the two differ')
    rep.rule('R6', 'no function outside the analysed entry paths opens a file for writing, renames or deletes one')
    rep.rule('R7', 'on a path where the output exists and is rewritten, the kept copy is not destroyed again')
    sites = set()
    for name in ENTRIES:
        e, rets, raises = entry(name, KEEP, 'c01')
        sites |= {q for q in e.inlined}
        rep.count('paths of %s' % name, len(rets) + len(raises))
        for st, v in list(rets) + list(raises):
            log = st.log
            prefix = []
            ok_text = translated(st)
            for i, how, p, ev, pre in clobbers(log):
                k = kind_of(p)
                con = '%s %s in %s' % (how, k, fn_of(e, ev))
                before = log[:i]
                saved = any(b[0] in ('rename', 'copy') and b[1] is p and is_bak(b[2]) and b[2].args[1] is p for b in before)
                failed = any(b[0] == 'xcall' for b in before) or not any(b[0] == 'ret' and b[1] == 'yueval' for b in before) or not ok_text
                if k == 'main' and temp(p, log, i) and how.startswith('open') and suffix(p):
                    rep.ok('R1', con)
                    continue
                if k == 'main':
                    if how == 'rename away':
                        if kind_of(ev[2]) == 'bak':
                            rep.check(is_bak(ev[2]) and ev[2].args[1] is p, 'R2', con, 'the output file is moved to a name that is not its own name + .bak on path: ' + short(log), loc(ev))
                        elif suffix(p) and kind_of(ev[2]) == 'main' and any(b[0] == 'open' and b[5] and b[1] is p for b in before):
                            rep.ok('R2', con)
                        else:
                            rep.bad('R2', con, 'the output file is renamed to something that is not its .bak on path: ' + short(log), loc(ev))
                        continue
                    if how == 'remove':
                        if any(b[0] == 'open' and b[5] and b[1] is p for b in before) or (any(b[0] == 'copy' and b[1] is p and is_bak(b[2]) for b in before)):
                            rep.ok('R2', con)
                        else:
                            rep.check(pre is False, 'R2', con, 'the output file is deleted on path: ' + short(log), loc(ev))
                        continue
                    rewritten = any(b[0] == 'open' and b[5] and b[1] is p for b in before)
                    rep.check(pre is False or saved or rewritten, 'R1', con,
                              'an existing output file can be overwritten without having been kept as .bak, on path: ' + short(log[:i + 1]), loc(ev))
                    rep.check(not failed, 'R4', con, 'the output file is written although the text did not parse, evaluate or reduce to plain text, on path: ' + short(log[:i + 1]), loc(ev))
                elif k == 'bak':
                    base = p.args[1] if is_bak(p) else None
                    if how == 'rename away':
                        rep.bad('R3', con, 'the kept .bak file is renamed away on path: ' + short(log[:i + 1]), loc(ev))
                        continue
                    if how.startswith('open'):
                        src = ev
                        rep.note('a .bak file is written through open() in %s' % fn_of(e, ev))
                        continue
                    exists = T('truth', T('call', 'os.path.isfile', base)) if base is not None else None
                    if how == 'remove':
                        later = any(x[0] in ('rename', 'copy') and x[2] is p for x in log[i + 1:])
                        stopped = not any(x[0] in ('open', 'write', 'rename') for x in log[i + 1:])
                        was = base is not None and (later and [x for x in log[i + 1:] if x[0] in ('rename', 'copy') and x[2] is p][0][5] is True or
                                                    stopped and st.facts.get(exists) is not False)
                        rep.check(was, 'R3', con, 'the kept .bak file is deleted where no existing output replaces it, on path: ' + short(log), loc(ev))
                        rep.check(not any(b[0] in ('rename', 'copy') and b[2] is p for b in before), 'R7', con,
                                  'the copy kept as .bak is deleted again on path: ' + short(log), loc(ev))
                    else:
                        rep.check(base is not None and ev[1] is base, 'R3', con, 'something else than the former output replaces the .bak file on path: ' + short(log), loc(ev))
                        rep.check(not any(b[0] == 'open' and b[5] and b[1] is base for b in before), 'R7', con,
                                  'the new output, not the former one, is kept as .bak on path: ' + short(log), loc(ev))
                    rep.check(not failed, 'R4', con, 'the .bak file is touched although the text did not parse, evaluate or reduce to plain text, on path: ' + short(log), loc(ev))
                elif k == 'json':
                    rep.check(not failed, 'R4', con, 'a .json file is written for a failed translation on path: ' + short(log), loc(ev))
                elif k == 'ast':
                    rep.ok('R5', con)
                    rep.check(apart(p, st.facts), 'R8', con,
                              'the unreduced result is written over the output file itself if that file is called *.ast, on path: ' + short(log[:i + 1]), loc(ev))
    rep.need('R1', 2)
    rep.need('R4', 2)
    if not any(r == 'R3' for r, _, _ in rep.obl) and not any(r == 'R2' for r, _, _ in rep.obl):
        rep.bad('R1', 'no backup at all', 'no path keeps an existing output file', '')
    others(rep, sites)


def others(rep, sites):
    """R6: file-changing primitives anywhere else in the package"""
    repo = Repo.get()
    n = 0
    for mn, m in repo.mods.items():
        if mn == 'plugin':
            continue
        imported = {}
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Call):
                continue
            f = x.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
            base = f.value.id if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) else ''
            hit = False
            if name == 'open' and base in ('', 'io', 'codecs'):
                mode = x.args[1] if len(x.args) > 1 else next((k.value for k in x.keywords if k.arg == 'mode'), None)
                n += 1
                hit = mode is not None and (not isinstance(mode, ast.Constant) or not isinstance(mode.value, str) or any(c in mode.value for c in 'wax+'))
            elif name in PRIMS and base in ('os', 'shutil'):
                n += 1
                hit = True
            elif name in ('write_text', 'write_bytes'):
                hit = True
            q = getattr(_fn(x), '_qual', '<module>')
            if hit and q not in sites and not referenced(repo, q):
                rep.note('%s is not used any more' % q)
                continue
            if hit and q not in sites:
                if q in ('_create_logger',) or q.endswith('_create_logger'):
                    rep.note('log/trace file opened in %s' % q)
                    continue
                rep.bad('R6', '%s in %s' % (name, q), 'a file is changed outside the analysed output path: %s' % ast.unparse(x)[:80], where(x))
            elif hit or name == 'open':
                rep.ok('R6', '%s in %s' % (name, q))
    rep.count('file primitives', n)


def referenced(repo, q):
    if q == '<module>':
        return True
    name = q.rpartition('.')[2]
    for m in repo.mods.values():
        for x in ast.walk(m.tree):
            if (isinstance(x, ast.Name) and x.id == name or isinstance(x, ast.Attribute) and x.attr == name
                    or isinstance(x, ast.alias) and x.name == name) and getattr(_fn(x), '_qual', None) != q:
                return True
    return False


def _fn(n):
    while n is not None and not isinstance(n, ast.FunctionDef):
        n = getattr(n, '_parent', None)
    return n


def fn_of(e, ev):
    """function that contains the event's call site"""
    s = loc(ev)
    path, _, line = s.rpartition(':')
    repo = Repo.get()
    for m in repo.mods.values():
        if m.path == path:
            best = None
            for q, n in m.functions.items():
                if n.lineno <= int(line) <= n.end_lineno and (best is None or n.lineno >= best[1]):
                    best = (q, n.lineno)
            return best[0] if best else '<module>'
    return '?'
