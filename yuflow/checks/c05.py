"""C05 - every documented option reaches its own setting, with its own default."""
import ast, re
from ..src import Repo, where, AnalysisError, enclosing
from ..flow import Engine
from ..wrap import engine, entry
from ..terms import isc, T, C, NONE, TRUE, FALSE
from .c01 import loc

TECHNIQUE = 'symbolic propagation of each configuration key through the code that applies it (heap after the call), and abstract interpretation of the argument-parser set-up and of the configuration-script reader'
NOTE = ('The settings are found in the heap after _pp_configure has been run on an empty configuration and on configurations with one key each; '
        'the argument parser is reconstructed from the calls that build it. The behaviour of argparse itself and of exec is taken as documented.')
ASSUMPTIONS = ['argparse and exec behave as documented']
Y = 'yupp.pp.yup'
# key: (holder, attribute, documented default)
TABLE = {
    'pp_skip_comments': ('config', 'pp_skip_comments', 0), 'pp_trim_app_indent': ('config', 'pp_trim_app_indent', True),
    'pp_reduce_emptiness': ('config', 'pp_reduce_emptiness', True), 'pp_browse': ('config', 'pp_browse', False),
    'pp_define': ('config', 'pp_define', []), 'warn_unbound_application': ('config', 'warn_unbound_application', True),
    'directory': ('config', 'directory', []), 'quiet': ('shell', 'quiet', False), 'type_output': ('shell', 'type_output', False),
    'output_dir': ('shell', 'output_dir', ''), 'traceback': ('shell', 'traceback', 1), 'read_only': ('shell', 'read_only', True),
    'trace_stage': ('trace', 'stage', 0), 'log_level': ('log', 'level', 1),
}
# option: (setting, kind, value)
OPTIONS = {
    '-q': ('quiet', 'const', True), '--quiet': ('quiet', 'const', True), '-d': ('directory', 'append', None),
    '-o': ('output_dir', 'store', None), '--output': ('output_dir', 'store', None), '--no-read-only': ('read_only', 'const', False),
    '--pp-skip-comments': ('pp_skip_comments', 'store', int), '--pp-no-trim-app-indent': ('pp_trim_app_indent', 'const', False),
    '--pp-trim-app-indent': ('pp_trim_app_indent', 'const', True), '--pp-no-reduce-emptiness': ('pp_reduce_emptiness', 'const', False),
    '--pp-reduce-emptiness': ('pp_reduce_emptiness', 'const', True), '--pp-no-browse': ('pp_browse', 'const', False),
    '--pp-browse': ('pp_browse', 'const', True), '-D': ('pp_define', 'append', None), '--pp-define': ('pp_define', 'append', None),
    '-Wno-unbound': ('warn_unbound_application', 'const', False), '--warn-no-unbound-application': ('warn_unbound_application', 'const', False),
    '-Wunbound': ('warn_unbound_application', 'const', True), '--warn-unbound-application': ('warn_unbound_application', 'const', True),
    '-l': ('log_level', 'store', int), '--log': ('log_level', 'store', int), '-t': ('trace_stage', 'store', int), '--trace': ('trace_stage', 'store', int),
    '-b': ('traceback', 'store', int), '--traceback': ('traceback', 'store', int), '--type-file': ('type_output', 'const', True),
    '-i': ('text', 'store', None), '--input': ('text', 'store', None), '--input-source': ('text_source', 'store', None),
}
RANGES = {'pp_skip_comments': set(range(4)), 'log_level': set(range(1, 6)), 'trace_stage': set(range(4)), 'traceback': set(range(3))}
CLI_ONLY = {'quiet', 'output_dir', 'type_output', 'read_only', 'text', 'text_source', 'files'}


def run(rep):
    rep.rule('O1', 'applying a configuration sets each setting to the value of its own key and every other setting to its documented default')
    rep.rule('O2', 'each command-line option stores into the setting it is named for; a --X / --no-X pair stores opposite values into the same one; numeric options accept exactly the documented values')
    rep.rule('O3', 'a setting not given on the command line has its documented default, whatever an earlier run of the process has set')
    rep.rule('O4', 'configuration files: common file first, then the file of the source, into one fresh context; every documented key of an allowed type gets through')
    rep.rule('O5', 'every run applies its own configuration before it starts to work')
    o1(rep)
    o23(rep)
    o4(rep)
    arrives(rep)
    o5(rep)
    o6(rep)


def o6(rep):
    rep.rule('O6', 'every setting is read by the code it governs')
    rep.rule('O7', 'every value that a configuration file sets, also a false or empty one, arrives, and the file of the source wins')
    repo = Repo.get()
    for key, (o, a, dflt) in TABLE.items():
        if o == 'log':
            continue
        uses = 0
        for mn in ('yup', 'yugen'):
            for n in ast.walk(repo.mod(mn).tree):
                if isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Load):
                    f = enclosing(n, (ast.FunctionDef,))
                    if f is None or f.name != '_pp_configure':
                        uses += 1
                elif isinstance(n, ast.Constant) and n.value == a and isinstance(getattr(n, '_parent', None), ast.Call):
                    uses += 1
        rep.check(uses > 0, 'O6', '%s.%s' % (o, a), 'the setting %s.%s is never read' % (o, a), 'pp')


def holders(e):
    g = e.globals(Y)
    return {n: g.get(n) for n in ('config', 'shell', 'trace', 'log')}


def o1(rep):
    repo = Repo.get()
    if '_pp_configure' not in repo.mod('yup').functions:
        rep.note('_pp_configure not found: O1 not decided')
        return
    f = repo.func('yup', '_pp_configure')
    p = f.args.args[0].arg
    at = 'pp/yup.py:%d' % f.lineno
    # every run starts from an unknown former state
    for given in [None] + sorted(TABLE):
        e = Engine(keep={'setlevel'})
        e.curmod_stack = [Y]
        h = holders(e)
        d = T('dict', 'cfg', 0)
        heap = {(d, 'base'): NONE}
        marker = T('sym', 'given')
        if given:
            heap[(d, ('k', C(given)))] = marker
        for key, (o, a, dflt) in TABLE.items():
            if h[o] is not None and o != 'log':
                heap[(h[o], a)] = T('sym', 'former:%s' % key)
        rets, raises = e.analyse('yup', '_pp_configure', args={p: d}, heap=heap)
        for st, x in raises:
            rep.bad('O1', 'raises with %s' % given, 'applying the configuration raises %s' % x, at)
        for st, _ in rets:
            rep.count('paths of _pp_configure')
            for key, (o, a, dflt) in TABLE.items():
                if h[o] is None:
                    rep.note('%s not found' % o)
                    continue
                scale = 1
                if o == 'log':
                    lv = [ev[2] for ev in st.log if ev[0] == 'setlevel']
                    got = lv[-1] if lv else None
                    scale = 10
                else:
                    got = st.heap.get((h[o], a))
                item = '%s when %s is given' % (key, given or 'nothing')
                if got is None:
                    rep.bad('O1', item, 'setting %s.%s is not set, its former value stays' % (o, a), at)
                    continue
                if key == given:
                    ok = got is marker
                    if o == 'log':
                        if got is not marker and marker in got.deps() and not (got.op == 'bin' and got.args[0] == 'Mult'):
                            rep.note('log level from its key not decided: %s' % got)
                            continue
                        ok = got.op == 'bin' and marker in got.args and any(isc(t) and t.args[0] == scale for t in got.args[1:])
                    rep.check(ok, 'O1', item, 'key %s: setting %s.%s becomes %s' % (key, o, a, got), at)
                else:
                    rep.check(is_default(e, st, got, dflt, scale), 'O1', item, 'without key %s setting %s.%s becomes %s (documented default: %r)' % (key, o, a, got, dflt), at)


def is_default(e, st, got, dflt, scale=1):
    if isinstance(dflt, list):
        it = e.items(st, got) if got.op in ('list', 'tup') else None
        return it is not None and len(it) == 0
    return isc(got) and type(got.args[0]) is type(dflt) and got.args[0] == dflt * scale if scale != 1 else isc(got) and type(got.args[0]) is type(dflt) and got.args[0] == dflt


def hook(e, st, recv, name, args, kw, node):
    if name in ('add_argument', 'set_defaults', 'parse_args', 'parse_known_args'):
        e.emit(st, 'argp', name, tuple(args), tuple(sorted(kw.items())), e.site(node))
        return [(st, T('sym', 'args') if name.startswith('parse') else e.fresh(st, node, name))]
    if name in ('add_mutually_exclusive_group', 'add_argument_group'):
        return [(st, recv)]
    return None


def o23(rep):
    repo = Repo.get()
    if 'shell_parse_cli_arguments' not in repo.mod('yup').functions:
        rep.note('shell_parse_cli_arguments not found: O2, O3 not decided')
        return
    at = 'pp/yup.py:%d' % repo.func('yup', 'shell_parse_cli_arguments').lineno
    e = Engine(keep={'argp'}, hooks={'method': hook})
    e.curmod_stack = [Y]
    h = holders(e)
    heap = {}
    for key, (o, a, dflt) in TABLE.items():
        if o in ('config', 'shell', 'trace') and h[o] is not None:
            heap[(h[o], a)] = T('sym', 'former:%s' % key)
    rets, raises = e.analyse('yup', 'shell_parse_cli_arguments', heap=heap)
    if not rets:
        rep.note('shell_parse_cli_arguments does not return')
    for st, v in rets:
        opts, deflt, setd, first, known = {}, {}, {}, {}, True
        for ev in st.log:
            if ev[1] == 'set_defaults':
                setd.update(dict(ev[3]))
                for k, d in ev[3]:
                    deflt[k] = d
            elif ev[1] == 'add_argument':
                kw = dict(ev[3])
                if not all(isc(a) for a in ev[2]) or '**' in kw:
                    known = False
                    continue
                names = [a.args[0] for a in ev[2]]
                act = kw.get('action', C('store'))
                if not isc(act):
                    known = False
                    continue
                act = act.args[0]
                if act in ('version', 'help'):
                    continue
                if 'dest' in kw and isc(kw['dest']):
                    dest = kw['dest'].args[0]
                else:
                    long = [n for n in names if n.startswith('--')] or names
                    dest = long[0].lstrip('-').replace('-', '_')
                kind, val = {'store_true': ('const', TRUE), 'store_false': ('const', FALSE), 'store_const': ('const', kw.get('const', NONE))}.get(act, (act, None))
                if act == 'store' and 'const' in kw and kw.get('nargs') is C(0):
                    kind, val = 'const', kw['const']
                for n in names:
                    opts[n] = (dest, kind, val, kw, ev[4])
                # the first action with the destination gives the default, set_defaults afterwards replaces it
                if dest not in first:
                    first[dest] = kw['default'] if 'default' in kw else setd.get(dest, {'store_true': FALSE, 'store_false': TRUE}.get(act, NONE))
                    deflt[dest] = first[dest]
        parsed = [ev for ev in st.log if ev[1].startswith('parse')]
        if not known:
            rep.note('some options are built from unknown values: absence of an option is not reported')
        rep.count('option strings', len(opts))
        for n, (setting, kind, val) in OPTIONS.items():
            if n not in opts:
                if known:
                    rep.bad('O2', n, 'option %s is gone' % n, at)
                continue
            dest, k, v_, kw, site = opts[n]
            rep.check(dest == setting, 'O2', '%s target' % n, 'option %s sets %s instead of %s' % (n, dest, setting), 'pp/yup.py:' + site.split(':')[-2])
            if kind == 'const':
                rep.check(k == 'const' and v_ is C(val), 'O2', '%s value' % n, 'option %s sets %s to %s instead of %s' % (n, dest, v_, val), 'pp/yup.py:' + site.split(':')[-2])
            elif kind == 'append':
                rep.check(k in ('append', 'extend'), 'O2', '%s value' % n, 'option %s keeps only its last occurrence' % n, 'pp/yup.py:' + site.split(':')[-2])
            else:
                rep.check(k == 'store', 'O2', '%s value' % n, 'option %s does not store its value (%s)' % (n, k), 'pp/yup.py:' + site.split(':')[-2])
                if val is int:
                    t = kw.get('type')
                    rep.check(t is not None and t.op in ('ext', 'builtin', 'cls') and t.args[0] == 'int' or t is not None and str(t).endswith('int'), 'O2', '%s type' % n, 'the value of option %s is not converted to a number' % n, 'pp/yup.py:' + site.split(':')[-2])
                    ch = kw.get('choices')
                    if ch is not None:
                        try:
                            vals = e.pyval(st, ch)
                        except Exception:
                            vals = None
                            it = e.items(st, ch)
                            if it is not None and all(isc(x) for x in it):
                                vals = [x.args[0] for x in it]
                        if vals is None:
                            rep.note('accepted values of %s not decided: %s' % (n, ch))
                        else:
                            rep.check(set(vals) == RANGES[setting], 'O2', '%s accepted values' % n, 'option %s accepts %s, documented are %s' % (n, sorted(vals), sorted(RANGES[setting])), 'pp/yup.py:' + site.split(':')[-2])
        for n, (dest, k, v_, kw, site) in opts.items():
            if n not in OPTIONS:
                rep.note('option %s is not in the table' % n)
        # defaults
        for setting in sorted({s for s, k, v_ in OPTIONS.values()}):
            if setting not in deflt:
                if known:
                    rep.bad('O3', setting, 'no option sets %s' % setting, at)
                continue
            want = TABLE[setting][2] if setting in TABLE else ''
            rep.check(is_default(e, st, deflt[setting], want), 'O3', 'default of %s' % setting, 'without its option %s starts from %s instead of %r' % (setting, deflt[setting], want), at)
    rep.need('O2', len(OPTIONS))
    rep.need('O3', 10)


def o4(rep):
    repo = Repo.get()
    if 'shell_parse_yuconfig' not in repo.mod('yup').functions:
        rep.note('shell_parse_yuconfig not found: O4 not decided')
        return
    fdef = repo.func('yup', 'shell_parse_yuconfig')
    at = 'pp/yup.py:%d' % fdef.lineno

    def script(e, st, f, args, kw, node):
        """the script may set any name of its context"""
        ctx = args[1] if len(args) > 1 else None
        n = sum(ev[0] == 'script' for ev in st.log)
        e.emit(st, 'script', args[0], ctx, e.site(node))
        if ctx is not None and ctx.op == 'dict':
            for k in WATCH:
                st.heap[(ctx, ('k', C(k)))] = T('sym', 'set%d:%s' % (n, k))
        return [(st, NONE)]
    LISTS = ('directory', 'dependency', 'pp_define')
    typed = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'isinstance' and any(isinstance(y, ast.Name) and y.id == 'yuconfig_types' for y in ast.walk(x.args[1]))
                for c in ast.walk(fdef) if isinstance(c, ast.DictComp) for x in ast.walk(c))
    WATCH = ['directory', 'dependency', 'pp_define', 'pp_browse', 'pp_skip_comments', 'force']
    e = Engine(keep={'script'}, opaque={'_exec_yuconfig_script': script})
    e.curmod_stack = [Y]
    arg = T('sym', fdef.args.args[0].arg)
    types = {}
    for k in ('directory', 'dependency', 'pp_define'):
        for n in (0, 1, 2):
            types[T('isinst', T('sym', 'set%d:%s' % (n, k)), 'list')] = True
            for c in ('int', 'bool'):
                types[T('isinst', T('sym', 'set%d:%s' % (n, k)), c)] = False
    for k in ('pp_browse', 'force', 'pp_skip_comments'):
        for n in (0, 1, 2):
            for c in ('int', 'bool'):
                types[T('isinst', T('sym', 'set%d:%s' % (n, k)), c)] = c == 'int' or k != 'pp_skip_comments'
            types[T('isinst', T('sym', 'set%d:%s' % (n, k)), 'list')] = False
    rets, raises = e.analyse('yup', 'shell_parse_yuconfig', facts=types)
    n = 0
    lost = {}
    for st, v in rets:
        n += 1
        sc = [ev for ev in st.log if ev[0] == 'script']
        def dep(t):
            return arg in t.deps()
        own = [i for i, ev in enumerate(sc) if dep(ev[1])]
        com = [i for i, ev in enumerate(sc) if not dep(ev[1])]
        rep.check(bool(own), 'O4', 'own file', 'the configuration file of the source is not read', at)
        rep.check(bool(com), 'O4', 'common file', 'the common configuration file is not read', at)
        if own and com:
            rep.check(max(com) < min(own), 'O4', 'order', 'the common configuration overrides the one of the source file', at)
            rep.check(len({ev[2] for ev in sc}) == 1, 'O4', 'one context', 'the configuration files are read into different contexts', at)
        if own:
            last = 'set%d:' % (len(sc) - 1)
            if v.op != 'dict':
                rep.note('the configuration returned is not decided: %s' % v)
                continue
            for k in WATCH:
                got = st.heap.get((v, ('k', C(k))))
                base = st.heap.get((v, 'base'))
                lost.setdefault(k, []).append(got is None)
                if got is None:
                    if any(x[0] is v and isinstance(x[1], tuple) and not isc(x[1][1]) for x in st.heap) or base is not NONE and base is not None and not (k in LISTS and typed):
                        lost[k][-1] = False            # unknown content
                    continue
                rep.check(got is T('sym', last + k), 'O4', 'key ' + k, 'the key %s of a configuration file becomes %s' % (k, got), at)
            # keys taken over by a filter over the whole context
        ctxs = {ev[2] for ev in sc}
        for c in ctxs:
            rep.check(c.op != 'attr' and c.op != 'glob', 'O4', 'fresh context', 'the scripts run in a context that outlives the run: %s' % c, at)
    for k, l in lost.items():
        rep.check(not (all(l) if k not in LISTS else any(l)), 'O4', 'key ' + k, 'the key %s of a configuration file is lost' % k, at)
    rep.count('paths of shell_parse_yuconfig', n)
    # the filter over the context: by type int / bool, nothing else
    g = e.globals('yupp.pp.yuconfig') if 'yuconfig' in repo.mods else {}
    t = e.globals(Y).get('yuconfig_types')
    if t is not None:
        names = {str(x.args[0]) for x in (t.args if t.op == 'tup' else (t,)) if x.args}
        rep.check({'int', 'bool'} <= names, 'O4', 'types', 'numeric and boolean keys are filtered out: %s' % t, 'pp/yuconfig.py')
    comps = [c for c in ast.walk(fdef) if isinstance(c, (ast.DictComp,))]
    for c in comps:
        gen = c.generators[0]
        if isinstance(gen.target, ast.Tuple) and len(gen.target.elts) == 2 and all(isinstance(x, ast.Name) for x in gen.target.elts):
            kn, vn = [x.id for x in gen.target.elts]
            ok = isinstance(c.key, ast.Name) and c.key.id == kn and isinstance(c.value, ast.Name) and c.value.id == vn
            rep.check(ok, 'O4', 'filter keeps key and value', 'the filter of the context changes keys or values', where(c))
            for i in gen.ifs:
                bad = [x for x in ast.walk(i) if isinstance(x, ast.Name) and x.id == kn]
                if bad and not any(isinstance(x, ast.Constant) and x.value in ('__', '_') for x in ast.walk(i)):
                    rep.note('the filter of the context looks at the key: not decided')
                isi = [x for x in ast.walk(i) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'isinstance']
                for x in isi:
                    rep.check(any(isinstance(y, ast.Name) and y.id in ('yuconfig_types', 'int') for y in ast.walk(x.args[1])), 'O4', 'filter type', 'the filter of the context loses numeric or boolean keys', where(x))


def arrives(rep):
    """the values that configuration files set, true and false ones, arrive as they are"""
    repo = Repo.get()
    if 'shell_parse_yuconfig' not in repo.mod('yup').functions:
        return
    at = 'pp/yup.py:%d' % repo.func('yup', 'shell_parse_yuconfig').lineno
    LISTS = ('directory', 'dependency', 'pp_define')
    plain = {k: d for k, (_h, _a, d) in TABLE.items() if type(d) in (bool, int)}
    plain['force'] = False
    for who in ((0,), (1,), (0, 1)):
        for val in (False, True):
            def value(k, n):
                """the script number n sets the opposite of the other one"""
                v = val if n == who[-1] else not val
                return C(v if type(plain[k]) is bool else int(v))

            def script(e, st, f, args, kw, node):
                n = sum(ev[0] == 'script' for ev in st.log)
                e.emit(st, 'script', args[0], e.site(node))
                ctx = args[1] if len(args) > 1 else None
                if ctx is None or ctx.op != 'dict' or st.heap.get((ctx, 'base')) is not NONE:
                    raise AnalysisError('the context of the configuration scripts is not known')
                if n in who:
                    for k in plain:
                        st.heap[(ctx, ('k', C(k)))] = value(k, n)
                    for k in LISTS:
                        l = T('list', 'set%d' % n, k)
                        st.heap[(l, 'items')] = T('tup', T('sym', 'v%d' % n)) if (val if n == who[-1] else not val) else T('tup')
                        st.heap[(ctx, ('k', C(k)))] = l
                return [(st, NONE)]

            def defaults(e, st, f, args, kw, node):
                d = e.obj(st, node, 'dict')
                st.heap[(d, 'base')] = NONE
                for k, v in plain.items():
                    st.heap[(d, ('k', C(k.upper())))] = C(v)
                return [(st, d)]
            e = Engine(keep={'script'}, opaque={'_exec_yuconfig_script': script, 'yuconfig_defaults': defaults})
            e.curmod_stack = [Y]
            try:
                rets, raises = e.analyse('yup', 'shell_parse_yuconfig')
            except AnalysisError as x:
                rep.note('O7: %s' % x)
                return
            for st, v in rets:
                rep.count('configurations read')
                if v.op != 'dict' or st.heap.get((v, 'base')) is not NONE or sum(ev[0] == 'script' for ev in st.log) != 2:
                    rep.note('O7: the configuration returned is not known')
                    continue
                for k in list(plain) + list(LISTS):
                    got = st.heap.get((v, ('k', C(k))))
                    want = T('list', 'set%d' % who[-1], k) if k in LISTS else value(k, who[-1])
                    if k in LISTS and got is not None and got is not want and e.items(st, got) is not None:
                        ok = e.items(st, got) == e.items(st, want)
                    elif got is not None and got is not want and not isc(got) and not (got.op == 'list'):
                        rep.note('O7: the value of %s is not known: %s' % (k, got))
                        continue
                    else:
                        ok = got is want or isc(got or NONE) and isc(want) and got is not None and got.args[0] == want.args[0]
                    shown = want.args[0] if isc(want) else 'a list' if val else 'an empty list'
                    rep.check(ok, 'O7', '%s = %s' % (k, shown), 'a configuration file that sets %s to %s is not heard: it becomes %s' % (k, shown, got if got is not None else 'the default'), at)


def o5(rep):
    """_pp_configure is called before the text is processed, on every path of an entry point"""
    repo = Repo.get()
    for name, files in (('proc_stream', 1), ('cli', 0), ('cli', 1)):
        if name not in repo.mod('yup').functions:
            continue

        def conf(e, st, f, args, kw, node):
            e.emit(st, 'configure', args[0] if args else NONE)
            return [(st, NONE)]

        def work(e, st, f, args, kw, node):
            e.emit(st, 'work', e.site(node))
            v = e.fresh(st, node, 'worked')
            return [(st, T('tup', T('attr', v, 'ok'), T('attr', v, 'text'), T('attr', v, 'fn')))]

        def filework(e, st, f, args, kw, node):
            e.emit(st, 'work', e.site(node))
            return [(st, e.fresh(st, node, 'ok'))]

        def ycfg(e, st, f, args, kw, node):
            d = T('sym', 'cfg:yuconfig')
            e.emit(st, 'parsed', d)
            return [(st, d)]

        def acfg(e, st, f, args, kw, node):
            d = T('sym', 'args')
            e.emit(st, 'parsed', d)
            o = e.obj(st, node, 'list')
            st.heap[(o, 'items')] = T('tup', *[T('sym', 'file0')][:files])
            st.heap[(d, 'files')] = o
            return [(st, d)]
        op = {'_pp_configure': conf, '_pp_stream': work, '_pp_file': filework, '_pp_text': filework, '_pp_test': filework, 'shell_parse_yuconfig': ycfg, 'shell_parse_cli_arguments': acfg}
        e = engine({'configure', 'work', 'parsed'}, opaque=op, evfilter=lambda st, ev: ev)
        rets, raises = e.analyse('yup', name)
        for st, v in list(rets) + list(raises):
            rep.count('paths of ' + name)
            done = False
            parsed = None
            for ev in st.log:
                if ev[0] == 'parsed':
                    parsed = ev[1]
                if ev[0] == 'configure':
                    done = True
                    if parsed is not None:
                        rep.check(parsed in ev[1].deps() or ev[1] is parsed, 'O5', '%s applies what it has read' % name, '%s configures from %s, not from what was read' % (name, ev[1]), 'pp/yup.py')
                if ev[0] == 'work':
                    rep.check(done, 'O5', '%s configures first' % name, '%s starts to work with the settings of an earlier run' % name, 'pp/yup.py:' + ev[1].split(':')[1])
