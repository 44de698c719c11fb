"""C03 - a failing text fails alone, and never silently (exception escape and log obligations over all paths)."""
import ast
from ..src import Repo, where, AnalysisError
from ..flow import Engine
from ..wrap import entry, engine, args_handler, STAGES
from ..terms import isc, T, C, NONE, TRUE, FALSE

TECHNIQUE = 'interprocedural exception-escape analysis with log obligations on every failing path'
NOTE = ('Every path class of the translation entry points, with the translator able to raise anything (SystemExit included), every read, open and write able to fail '
        'and foreign exceptions carrying no or non-text arguments. Interrupts from the keyboard and failures of print() are outside.')
ASSUMPTIONS = ['print() and the logging package do not raise', 'KeyboardInterrupt is not a failure of the text']
KEEP = {'log', 'xcall', 'ret', 'caught'}
BOUNDARY = (('proc_stream', 'the Python package'), ('proc_file', 'the Python package'), ('_pp_file', 'the command line'),
            ('_pp_test', 'the start-up test and the interactive loop'), ('_pp_text', 'the text given on the command line'))


def stage(name):
    def h(e, st, f, args, kw, node):
        for k in ('Exception', 'SystemExit'):
            s = st.copy()
            e.emit(s, 'xcall', name, e.site(node))
            e.havoc_mods(s, f, node)
            e.throw(s, k, name)
        e.havoc_mods(st, f, node)
        v = T('call', name, *(tuple(args) + (e.fresh(st, node, name),)))
        e.emit(st, 'ret', name, v)
        return [(st, v)]
    return h


def describe(st):
    out = []
    for ev in st.log:
        out.append({'xcall': 'raised in ', 'ret': 'returned from ', 'caught': 'caught ', 'log': 'log.'}[ev[0]] + str(ev[2] if ev[0] == 'log' else ev[1]))
    return ' > '.join(out) or 'the straight path'


def run(rep):
    rep.rule('E1', 'no error raised by the parser, the evaluator, a pass over the result, a read, an open or a write leaves the translation of a text')
    rep.rule('E2', 'every path that returns failure has put a message of level ERROR or higher into the log')
    rep.rule('E3', 'the files after a failed one are still processed, and the interactive loop ends only when asked to')
    rep.rule('E4', 'the logger passes messages of level ERROR by default, and no filter or handler level of the program stops them')
    repo = Repo.get()
    y = repo.mod('yup')
    analysed = 0
    for name, what in BOUNDARY:
        if name not in y.functions:
            if name.startswith('_'):
                rep.note('%s not found: covered by the analysis of cli' % name)
                continue
            raise AnalysisError('%s not found in pp/yup.py' % name)
        e, rets, raises = entry(name, KEEP, 'c03', fnattr=True, opaque={n: stage(n) for n in STAGES})
        judge(rep, name, what, e, rets, raises)
        analysed += 1
    for n in (0, 1, 2):
        e, rets, raises = entry('cli:%d' % n, KEEP, 'c03', fnattr=True, opaque={x: stage(x) for x in STAGES})
        raises = [(s, x) for s, x in raises if not (x.args[0] == 'SystemExit' and x.args[1] == 'argparse')]
        judge(rep, 'cli with %d file(s)' % n, 'the command line', e, [], raises)
        for st, v in rets:
            if n and isc(v) and isinstance(v.args[0], int) and v.args[0]:
                rep.check(any(ev[0] == 'log' for ev in st.log), 'E2', 'cli with %d file(s)' % n, 'a failure status is returned without an error message, after: ' + describe(st), 'pp/yup.py')
    rep.need('E1', 3)
    rep.need('E2', 3)
    loops(rep)
    levels(rep)


def judge(rep, name, what, e, rets, raises):
    rep.count('paths of ' + name, len(rets) + len(raises))
    esc = {}
    for st, x in raises:
        kind = x.args[0]
        if kind == 'KeyboardInterrupt':
            continue
        esc.setdefault((kind, str(x.args[1])[:60]), st)
    if not esc:
        rep.ok('E1', '%s: no exception leaves it' % name)
    for (kind, src), st in esc.items():
        rep.bad('E1', '%s, %s from %s' % (name, kind, src), '%s raised by %s leaves %s (%s) after: %s' % (kind, src, name, what, describe(st)), 'pp/yup.py:%s' % line(name))
    for st, v in rets:
        ok = v.args[0] if v.op == 'tup' and v.args else v
        if isc(ok) and ok.args[0] is True:
            continue
        failed = isc(ok) and not ok.args[0]
        if not failed:
            # the result may be a failure: the facts of the path decide
            if st.facts.get(T('truth', ok)) is not False:
                continue
        rep.check(any(ev[0] == 'log' for ev in st.log), 'E2', 'failure of %s' % name,
                  'failure is returned without a message of level ERROR or higher in the log, after: ' + describe(st), 'pp/yup.py:%s' % line(name))


def line(name):
    f = Repo.get().mod('yup').functions.get(name.split(' ')[0])
    return f.lineno if f else 0


def loops(rep):
    repo = Repo.get()
    yup = repo.mod('yup')
    if '_pp_file' in yup.functions:
        def one(e, st, f, args, kw, node):
            out = []
            for ok in (True, False):
                s = st.copy()
                fb = e.globals('yupp.pp.yup').get('feedback')
                s.heap[(fb, 'repeat')] = FALSE
                e.emit(s, 'file', args[0] if args else NONE, ok)
                out.append((s, C(ok)))
            return out
        for n in (1, 2, 3):
            files = [T('sym', 'file%d' % i) for i in range(n)]
            e = engine({'file'}, opaque={'_pp_file': one, 'shell_parse_cli_arguments': args_handler(files, C('')),
                                         '_pp_test': lambda e, st, f, args, kw, node: [(st, e.fresh(st, node, 'ok'))]})
            e.unroll, e.unroll_only = 2, True
            rets, raises = e.analyse('yup', 'cli')
            for st, v in list(rets) + [(s, x) for s, x in raises if not (x.args[0] == 'SystemExit' and x.args[1] == 'argparse')]:
                seen = [ev[1] for ev in st.log if ev[0] == 'file']
                res = ['ok' if ev[2] else 'failed' for ev in st.log if ev[0] == 'file']
                rep.check(seen == files, 'E3', '%d files, %s' % (n, ','.join(res)), 'of %d files only %d are processed when the results are: %s' % (n, len(seen), ', '.join(res)), 'pp/yup.py:%s' % line('cli'))
    if 'shell_input' in yup.functions and '_pp_test' in yup.functions:
        def ask(e, st, f, args, kw, node):
            g = e.globals('yupp.pp.yup')
            out = []
            for k in ('REPL_EXIT', 'REPL_TEST'):
                if k in g:
                    s = st.copy()
                    e.emit(s, 'input', k)
                    out.append((s, g[k]))
            s = st.copy()
            e.emit(s, 'input', 'text')
            out.append((s, C('some text')))
            return out

        def test(e, st, f, args, kw, node):
            out = []
            for ok in (True, False):
                s = st.copy()
                e.emit(s, 'test', ok)
                out.append((s, C(ok)))
            return out
        e = engine({'input', 'test'}, opaque={'shell_input': ask, '_pp_test': test, 'shell_parse_cli_arguments': args_handler([], C(''))})
        e.unroll, e.unroll_only = 3, True
        rets, raises = e.analyse('yup', 'cli')
        for st, v in rets:
            ins = [ev for ev in st.log if ev[0] == 'input']
            if ins:
                rep.check(ins[-1][1] == 'REPL_EXIT', 'E3', 'interactive loop', 'the interactive loop ends after the input %s, without having been asked to' % ins[-1][1], 'pp/yup.py:%s' % line('cli'))


def levels(rep):
    """E4: default level and handlers of the program's loggers"""
    repo = Repo.get()
    e = Engine()
    e.curmod_stack = ['yupp.pp.yup']
    g = dict(e.globals('yupp.pp.yugen'))
    g.update(e.globals('yupp.pp.yup'))
    lv, sc = g.get('LOG_LEVEL'), g.get('LOG_LEVEL__SCALE_')
    if lv is not None and sc is not None and isc(lv) and isc(sc):
        rep.check(lv.args[0] * sc.args[0] <= 40, 'E4', 'default level', 'the default log level is %s: errors are not logged' % (lv.args[0] * sc.args[0]), 'pp/yugen.py')
    else:
        rep.note('the default log level is not a constant')
    names = {'CRITICAL': 50, 'FATAL': 50}
    for m in repo.mods.values():
        if m.name == 'plugin':
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                a = x.args[0] if x.args else None
                lvl = a.value if isinstance(a, ast.Constant) else names.get(getattr(a, 'attr', getattr(a, 'id', '')))
                base = ast.unparse(x.func.value)
                if x.func.attr == 'disable' and base == 'logging' and (a is None or isinstance(lvl, int) and lvl >= 40):
                    rep.bad('E4', 'logging.disable', 'logging is switched off for errors', where(x))
                if x.func.attr == 'setLevel' and isinstance(lvl, int) and lvl > 40 and 'trace' not in base:
                    rep.bad('E4', 'setLevel of %s' % base, 'a level above ERROR is set for %s' % base, where(x))
                elif x.func.attr == 'setLevel':
                    rep.ok('E4', 'setLevel of %s' % base)
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and x.value.value is True:
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and t.attr == 'disabled' and isinstance(t.value, ast.Name) and t.value.id == 'log':
                        rep.bad('E4', 'log.disabled', 'the log is switched off', where(x))
