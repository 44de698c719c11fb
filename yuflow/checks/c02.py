"""C02 - success means the output was written; the exit status counts the failed files."""
import ast
from ..src import Repo, where, AnalysisError
from ..flow import Engine
from ..wrap import entry, engine, kind_of, translated, derives, FS, args_handler, only_errors
from ..terms import isc, T, C, NONE, TRUE, FALSE
from .c01 import short, loc

TECHNIQUE = 'path-sensitive effect analysis of reports against writes; exit-status data flow over unrolled file lists; entry-point data flow'
NOTE = ('Every path class of the translation entry points; the exit status is decided exactly for 0 to 3 files (different names, or one name given several times) with up to two repetitions each, by constant propagation. '
        'A device error that is reported only after close() is outside.')
ASSUMPTIONS = ['a write that returns and a close that returns have stored the text (no later device error)',
               'the console script wrapper passes the returned value to sys.exit (setuptools)']
KEEP = FS | {'xcall', 'ret', 'print', 'log'}
OKMARK = 'OK'


def flat(t):
    """string constants printed"""
    return [x.args[0] for x in t.deps() if isc(x) and isinstance(x.args[0], str)]


def evfilter(st, ev):
    if ev[0] == 'print':
        if any(OKMARK in s for a in ev[1] for s in flat(a)):
            return ('print', 'OK', ev[2])
        return None
    return only_errors(st, ev)


def written(st):
    """(path, text) of the main output completely written on this path, or None"""
    res = None
    for i, ev in enumerate(st.log):
        if ev[0] == 'open' and ev[5] and kind_of(ev[1]) == 'main':
            w = [x for x in st.log[i + 1:] if x[0] == 'write' and x[1] is ev[1]]
            c = [x for x in st.log[i + 1:] if x[0] == 'close' and x[1] is ev[1]]
            if w and c and st.log.index(c[0], i + 1) > st.log.index(w[-1], i + 1):
                p = ev[1]
                for x in st.log[i + 1:]:
                    if x[0] == 'rename' and x[1] is p:
                        p = x[2]
                res = (p, w[-1][2], len(w))
    return res


def cached(st):
    """the output was only read: no stage ran on this path"""
    return not any(ev[0] in ('xcall', 'ret') for ev in st.log) and [ev for ev in st.log if ev[0] == 'open' and not ev[5]]


def falsy(v):
    return isc(v) and not v.args[0]


def maybe_true(st, v):
    if isc(v):
        return bool(v.args[0])
    return st.facts.get(T('truth', v)) is not False


def run(rep):
    rep.rule('S1', 'a path that reports success has written the evaluated plain text completely to the output (or has only read the still valid output)')
    rep.rule('S2', 'the output name in the report is the name that was written')
    rep.rule('S3', 'the text in the report is the text that was written')
    rep.rule('S4', 'a path on which everything was written without error does not report failure')
    rep.rule('S5', 'the OK line is printed only on paths that have written the output')
    rep.rule('S6', 'for 0 to 3 files the exit status is 4 x the number of files that failed, and every file is processed')
    rep.rule('S7', 'every way of starting the program passes the result of cli() on as the exit status')
    for name, idx in (('proc_stream', 2), ('proc_file', 1)):
        e, rets, raises = entry(name, KEEP, 'c02', evfilter=evfilter)
        rep.count('paths of %s' % name, len(rets) + len(raises))
        for st, v in rets:
            if v.op != 'tup' or len(v.args) <= idx:
                rep.note('%s returns %s' % (name, v.op))
                continue
            report(rep, name, st, v.args[0], v.args[idx], v.args[1] if idx == 2 else None, e)
    rep.need('S1', 8)
    e, rets, raises = entry('cli:1', KEEP, 'c02', evfilter=evfilter)
    rep.count('paths of cli:1', len(rets) + len(raises))
    for st, v in rets:
        oks = [ev for ev in st.log if ev[0] == 'print']
        w = written(st)
        if oks:
            rep.check(w is not None and translated(st), 'S5', 'OK line of cli', 'OK is printed on a path that has not written the output: ' + show(st.log), oks[0][2].rsplit(':', 1)[0])
        if isc(v):
            report(rep, 'cli', st, C(v.args[0] == 0), None, None, e)
        else:
            rep.note('exit status of cli is not a constant on a path')
    rep.need('S5', 1)
    counter(rep)
    starts(rep)


def last(st):
    for ev in reversed(st.log):
        w = loc(ev)
        if w:
            return w
    return 'pp/yup.py'


def show(log):
    return short([ev for ev in log if ev[0] != 'print'])


def report(rep, name, st, ok, fn, data, e):
    w = written(st)
    if isc(ok) and not ok.args[0]:
        clean = w is not None and translated(st) and not any(ev[0] == 'xcall' for ev in st.log) and not failed_after(st)
        rep.check(not clean, 'S4', 'failure report of %s' % name, 'failure is reported on a path that wrote the output without error: ' + show(st.log), last(st))
        return
    if not maybe_true(st, ok):
        return
    c = cached(st)
    if c and w is None:
        rep.ok('S1', 'reuse in %s' % name)
        if fn is not None:
            rep.check(any(ev[1] is fn for ev in c), 'S2', 'reuse in %s' % name, 'the reported name is not that of the output file that was read')
        if data is not None:
            rep.check(data.op in ('read', 'fresh') or not isc(data), 'S3', 'reuse in %s' % name, 'the reported text is not the content of the output file')
            rep.check(not (data.op == 'read') or any(ev[1] is data.args[0].args[0] for ev in c) and (fn is None or data.args[0].args[0] is fn), 'S3', 'reuse in %s' % name,
                      'the reported text is read from another file than the output')
        return
    good = rep.check(w is not None and translated(st) and not any(ev[0] == 'xcall' for ev in st.log), 'S1', 'success report of %s' % name,
                     'success is reported on a path that has not written the evaluated text to the output: ' + show(st.log), last(st))
    if not good:
        return
    if fn is not None:
        rep.check(fn is w[0], 'S2', 'success report of %s' % name, 'the reported output name is not the name that was written, on path: ' + show(st.log), last(st))
    rep.check(derives(w[1], 'yueval'), 'S3', 'written text of %s' % name, 'what is written does not come from the evaluation')
    if data is not None:
        rep.check(data is w[1] or data.op == 'phi' or w[1] in data.deps() or data in w[1].deps(), 'S3', 'success report of %s' % name, 'the reported text is not the text that was written, on path: ' + show(st.log), last(st))


def failed_after(st):
    """an error was met (caught) after the main output was written: counted as failure"""
    w = [i for i, ev in enumerate(st.log) if ev[0] == 'write']
    return any(ev[0] == 'log' for ev in st.log)


def counter(rep):
    """cli over 0..3 files whose results are chosen freely: the returned value must be 4 x failures"""
    repo = Repo.get()
    if '_pp_file' not in repo.mod('yup').functions:
        rep.note('_pp_file not found: exit status decided for one file only')
        return

    def one(e, st, f, args, kw, node):
        out = []
        for ok in (True, False):
            for again in ((True, False) if ok else (False,)):
                s = st.copy()
                fb = e.globals('yupp.pp.yup').get('feedback')
                s.heap[(fb, 'repeat')] = C(again)
                if ok and not again:
                    e.emit(s, 'file', args[0], 'ok')
                if not ok:
                    e.emit(s, 'file', args[0], 'failed')
                out.append((s, C(ok)))
        return out

    for n in (0, 1, 2, 3, -2, -3):
        if n < 0:       # the same name given several times
            n = -n
            files = [C('file')] * n
        else:
            files = [T('sym', 'file%d' % i) for i in range(n)]
        e = engine({'file', 'exit'}, opaque={'_pp_file': one, 'shell_parse_cli_arguments': args_handler(files, C('')),
                                           '_pp_test': lambda e, st, f, args, kw, node: [(st, e.fresh(st, node, 'ok'))],
                                           'shell_input': lambda e, st, f, args, kw, node: [(st, e.globals('yupp.pp.yup').get('REPL_EXIT', e.fresh(st, node, 'line')))]})
        e.unroll, e.unroll_only = 3, True       # up to two repetitions of a file
        rets, raises = e.analyse('yup', 'cli')
        rep.count('paths of cli:%d%s (exit status)' % (n, ' same name' if n and isc(files[0]) else ''), len(rets))
        for st, v in rets + [(s, x.args[1]) for s, x in raises if x.args[0] == 'SystemExit' and isinstance(x.args[1], T)]:
            evs = [ev for ev in st.log if ev[0] == 'file']
            bad = [ev for ev in evs if ev[2] == 'failed']
            con = '%d file(s)%s, %d failing' % (n, ' of one name' if n > 1 and isc(files[0]) else '', len(bad))
            if n:
                rep.check([ev[1] for ev in evs] == files, 'S6', 'files processed for ' + con, 'with %d files on the command line, only %s are processed to the end' % (n, [str(ev[1]) for ev in evs]))
            if v is NONE and not bad and not n:
                rep.ok('S6', con)
                continue
            if isc(v):
                rep.check(v.args[0] == 4 * len(bad) or (v.args[0] in (None, False) and not bad), 'S6', con, 'the exit status is %r where %d of %d files failed' % (v.args[0], len(bad), n), 'pp/yup.py')
            else:
                rep.note('exit status for %s is not decided: %s' % (con, v))
    rep.need('S6', 4)


def starts(rep):
    repo = Repo.get()
    mark = T('sym', 'STATUS')

    def cli(e, st, f, args, kw, node):
        e.emit(st, 'cli', tuple(args))
        return [(st, mark)]

    def judge(what, pairs, where_):
        n = 0
        for st, v, how in pairs:
            if not any(ev[0] == 'cli' for ev in st.log):
                continue
            n += 1
            rep.check(v is mark, 'S7', what, '%s: the status returned by cli() is not passed on (%s %s)' % (what, how, v), where_)
        return n

    done = 0
    for modname in ('yupp.__main__', 'yupp.pp.__main__', 'yupp.pp.yup'):
        if modname not in repo.mods:
            raise AnalysisError('module %s not found' % modname)
        e = Engine(keep={'cli', 'exit'}, opaque={'cli': cli})
        sts, xs, n = e.analyse_main(modname)
        pairs = [(st, NONE, 'the program ends with') for st in sts]
        pairs += [(st, x.args[1] if isinstance(x.args[1], T) else NONE, 'sys.exit gets') for st, x in xs if x.args[0] == 'SystemExit']
        k = judge('running ' + repo.mods[modname].path, pairs, repo.mods[modname].path)
        if not k:
            rep.bad('S7', 'running ' + repo.mods[modname].path, 'starting %s does not reach cli()' % repo.mods[modname].path, repo.mods[modname].path)
        done += k
    # console script
    import os
    from ..src import REPO
    p = os.path.join(REPO, 'package/setup.py')
    targets = []
    if os.path.isfile(p):
        for x in ast.walk(ast.parse(open(p, encoding='utf8').read())):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and '=' in x.value and ':' in x.value and 'yupp' in x.value.split('=')[1]:
                a, _, b = x.value.partition('=')
                m, _, f = b.strip().partition(':')
                if m in repo.mods or m.startswith('yupp'):
                    targets.append((m.strip(), f.strip()))
    for m, f in targets or [('yupp.__main__', 'main')]:
        if m not in repo.mods or f not in repo.mods[m].functions:
            rep.bad('S7', 'console script', 'the console script %s:%s does not exist' % (m, f), 'package/setup.py')
            continue
        e = Engine(keep={'cli', 'exit'}, opaque={'cli': cli})
        e.curmod_stack = [m]
        g = e.globals(m)
        rets, xs = e.analyse_fn(g[f])
        pairs = [(st, v, 'it returns') for st, v in rets] + [(st, x.args[1] if isinstance(x.args[1], T) else NONE, 'sys.exit gets') for st, x in xs if x.args[0] == 'SystemExit']
        if not judge('console script %s:%s' % (m, f), pairs, repo.mods[m].path):
            rep.bad('S7', 'console script %s:%s' % (m, f), 'the console script does not reach cli()', repo.mods[m].path)
