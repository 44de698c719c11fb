"""C16 - the codec returns generated text only if it was produced and parses."""
import ast
from ..src import Repo, AnalysisError, where
from ..flow import Engine
from ..terms import isc, T, C, NONE

TECHNIQUE = 'path-sensitive data flow with exceptional edges from the registered search function through the decoders; decision table of codec names by constant propagation'
NOTE = ('All paths of the decoding functions, with the preprocessor failing in every way it can (any Exception, a failure result) and the syntax check raising what ast.parse documents; '
        'codec names are decided for a table of representatives of each form. What the preprocessed text means is outside.')
ASSUMPTIONS = ['ast.parse raises SyntaxError (and its subclasses) or ValueError for text that is not valid Python', 'encodings.search_function returns None for an unknown encoding']
KEEP = {'proc', 'parse', 'mcall', 'search', 'ds'}
OK, CODE, FNO, SHRINK = (T('sym', n) for n in ('ok', 'code', 'fn_o', 'shrink'))


def proc(e, st, f, args, kw, node):
    s = st.copy()
    for k in ('Exception', 'OSError', 'SyntaxError', 'UnicodeError', 'AttributeError', 'RecursionError', 'TypeError'):
        e.throw(s.copy(), k, 'proc_stream')
    e.emit(st, 'proc', tuple(args))
    bad = st.copy()
    bad.facts[T('truth', OK)] = False
    st.facts[T('truth', OK)] = True
    return [(st, T('tup', OK, CODE, FNO, SHRINK)), (bad, T('tup', OK, CODE, FNO, SHRINK))]


def parse(e, st, name, args, kw, node):
    if name == 'compile' and len(args) < 3:
        return None
    for k in ('SyntaxError', 'IndentationError', 'ValueError'):
        e.throw(st.copy(), k, name)
    e.emit(st, 'parse', tuple(args), e.site(node))
    return [(st, e.fresh(st, node, 'tree'))]


def search(e, st, name, args, kw, node):
    out = []
    for v in (T('sym', 'CODEC'), NONE):
        s = st.copy()
        s.facts[T('is', T('sym', 'CODEC'), NONE)] = v is NONE
        s.facts[T('truth', T('sym', 'CODEC'))] = v is not NONE
        e.emit(s, 'search', args[0] if args else NONE, v is not NONE)
        out.append((s, v))
    return out


def registered(repo):
    m = repo.mod('yupp')
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and ast.unparse(n.func).endswith('register') and 'codecs' in ast.unparse(n.func) and len(n.args) == 1 and isinstance(n.args[0], ast.Name):
            p = n
            while p is not None and not isinstance(p, ast.FunctionDef):
                p = getattr(p, '_parent', None)
            if p is None:
                return n.args[0].id
    return None


def run(rep):
    rep.rule('D1', 'decoding returns the generated text only on paths on which preprocessing succeeded and exactly this text passed the syntax check; any other result is empty')
    rep.rule('D2', 'no failure of the preprocessor or of the syntax check leaves the decoding function as an exception')
    rep.rule('D3', 'the bytes are decoded by the named encoding, all of them are passed on and the number of consumed bytes is that of the decoder')
    rep.rule('D4', 'the incremental decoder decodes only complete, final input; before that it returns nothing and consumes nothing')
    rep.rule('D5', 'the names accepted are yupp and yupp.<known encoding>, and the codec is built on that encoding')
    repo = Repo.get()
    m = repo.mod('yupp')
    name = registered(repo)
    rep.check(name is not None, 'D5', 'registration', 'no search function is registered with codecs', m.path)
    if name is None or name not in m.functions:
        rep.note('the registered search function was not found')
        return
    infos = names(rep, name)
    stream(rep, m)
    if infos is not None:
        decoders(rep, *infos)
    rep.need('D1', 3)


# ------------------------------------------------------------------ names
TABLE = [('yupp', 'utf_8'), ('yupp.cp1252', 'cp1252'), ('yupp.utf-8', 'utf-8'), ('yupp.utf_8', 'utf_8'), ('yupp.koi8-r', 'koi8-r'), ('ascii', None), ('utf-8', None), ('', None), ('yup', None), ('yuppx', None),
         ('yuppx.utf-8', None), ('xyupp', None), ('yupp_utf8', None), ('yupp-utf8', None), ('yupputf8', None), ('yu.pp', None), ('yuppie.yupp', None), ('utf8.yupp', None), ('.yupp', None), ('yuppp.yupp', None)]


def names(rep, fn):
    res = None
    for coding, want in TABLE:
        e = Engine(keep=KEEP, opaque={'ext:encodings.search_function': search, 'ext:codecs.lookup': None})
        rets, raises = e.analyse('yupp', fn, args={'coding': C(coding), params(fn)[0]: C(coding)})
        rep.count('paths of the search function', len(rets))
        for st, v in rets:
            w = 'codec name %r' % coding
            asked = [ev for ev in st.log if ev[0] == 'search']
            info = v if v.op == 'call' and v.args[0].endswith('CodecInfo') else None
            if v is not NONE and info is None and not isc(v):
                rep.note('%s: result %s is not decided' % (w, v.op))
                continue
            if want is None:
                rep.check(info is None, 'D5', w, '%s is accepted as a yupp codec' % w, '__init__.py')
                continue
            unknown = any(not ev[2] for ev in asked)
            if unknown:
                rep.check(info is None, 'D5', w, 'a codec is made for %s although this encoding is not known' % w, '__init__.py')
                continue
            if not rep.check(info is not None, 'D5', w, '%s is not accepted' % w, '__init__.py'):
                continue
            kws = {a.args[0]: a.args[1] for a in info.args[1:] if a.op == 'kw'}
            pos = ['encode', 'decode', 'streamreader', 'streamwriter', 'incrementalencoder', 'incrementaldecoder', 'name']
            for k, a in zip(pos, [a for a in info.args[1:] if a.op != 'kw']):
                kws[k] = a
            if asked:
                rep.check(isc(asked[-1][1]) and asked[-1][1].args[0] == want, 'D5', w, 'for %s the encoding %s is used' % (w, asked[-1][1]), '__init__.py')
                base = T('sym', 'CODEC')
            else:
                base = T('ext', 'encodings.utf_8') if want in ('utf_8',) else None
                enc = kws.get('encode')
                b = enc.deps() if enc is not None else ()
                if base is None or want != 'utf_8':
                    rep.check(any(isinstance(x, T) and x.op == 'ext' and x.args[0].replace('encodings.', '').startswith(want.replace('-', '_')) for x in b), 'D5', w,
                              'for %s the encoding %s is used' % (w, enc), '__init__.py')
            for k in ('encode', 'decode', 'incrementaldecoder'):
                rep.check(k in kws, 'D5', w, 'the codec of %s has no %s' % (w, k), '__init__.py')
            if asked:
                for k in ('encode', 'incrementalencoder', 'streamwriter'):
                    if k in kws:
                        rep.check(base in kws[k].deps(), 'D5', '%s, %s' % (w, k), 'the %s of %s is not that of the named encoding: %s' % (k, w, kws[k]), '__init__.py')
            else:
                for k in ('encode', 'incrementalencoder', 'streamwriter'):
                    if k in kws:
                        ext = [x.args[0] for x in kws[k].deps() if x.op == 'ext']
                        rep.check(not ext or any('utf_8' in x or 'utf8' in x for x in ext), 'D5', '%s, %s' % (w, k), 'the %s of %s is not that of UTF-8: %s' % (k, w, kws[k]), '__init__.py')
            if want == 'cp1252':
                res = (e, st, kws)
        for st, x in raises:
            rep.bad('D5', 'codec name %r' % coding, 'looking up the codec name %r raises %s' % (coding, x.args[0]), '__init__.py')
    return res


def params(fn):
    n = Repo.get().mod('yupp').functions[fn]
    return [a.arg for a in n.args.args] or ['coding']


# ------------------------------------------------------------------ text
def stream(rep, m):
    """the function that runs the preprocessor and checks its result"""
    name = 'decode_stream'
    if name not in m.functions:
        c = [q for q, n in m.functions.items() if any(isinstance(x, ast.Call) and ast.unparse(x.func).endswith('proc_stream') for x in ast.walk(n))]
        if not c:
            rep.note('the function that runs the preprocessor was not found')
            return
        name = c[0]
    ops = {'proc_stream': proc}
    for p in ('ast.parse', 'compile'):
        ops['ext:' + p] = parse
    e = Engine(keep=KEEP, opaque=ops)
    e.modattr = True
    rets, raises = e.analyse('yupp', name)
    rep.count('paths of ' + name, len(rets) + len(raises))
    for st, v in rets:
        if isc(v):
            rep.check(v.args[0] == '', 'D1', 'empty result of ' + name, 'a failed decoding returns %r instead of an empty module' % (v.args[0],), '__init__.py')
            continue
        good = st.facts.get(T('truth', OK)) is True
        checked = [ev for ev in st.log if ev[0] == 'parse']
        if v is CODE or CODE in v.deps():
            rep.check(good, 'D1', 'result of ' + name, 'generated text is returned on a path on which preprocessing did not succeed', '__init__.py')
            rep.check(any(ev[1][0] is v for ev in checked), 'D1', 'checked result of ' + name,
                      'generated text is returned that did not pass the syntax check' + (' (%s was checked)' % checked[-1][1][0] if checked else ''), '__init__.py')
        elif not good and not checked:
            rep.bad('D1', 'failed result of ' + name, 'on a path on which preprocessing failed decoding returns %s instead of an empty module' % v, '__init__.py')
        elif v.op in ('fresh', 'phi', 'lv', 'call', 'ret'):
            rep.note('%s returns %s, not decided' % (name, v))
        else:
            rep.bad('D1', 'result of ' + name, 'decoding returns %s' % v, '__init__.py')
    n = 0
    for st, x in raises:
        if x.args[0] in ('SystemExit', 'KeyboardInterrupt', 'GeneratorExit'):
            continue
        n += 1
        miss = [str(a.args[0]) for a in st.facts if a.op == 'missing']
        rep.bad('D2', 'errors of ' + name, '%s leaves the decoding function%s' % (x.args[0], ' (the name %s does not exist)' % miss[0] if miss else ' (raised by %s)' % (x.args[1],)), '__init__.py')
    if not n:
        rep.ok('D2', 'errors of ' + name)


# ------------------------------------------------------------------ decoders
def ds(e, st, f, args, kw, node):
    e.emit(st, 'ds', tuple(args))
    return [(st, T('sym', 'TEXT'))]


def decoders(rep, e0, st0, kws):
    base = T('sym', 'CODEC')
    e = e0
    e.opaque['decode_stream'] = ds
    dec = kws.get('decode')
    inp, err = T('sym', 'input'), T('sym', 'errors')
    if dec is not None and dec.op in ('fn', 'bm'):
        rets, raises = e.analyse_call(st0, dec, [inp, err])
        rep.count('paths of decode', len(rets))
        for st, v in rets:
            judge(rep, 'decode', st, v, base, inp, err)
    else:
        rep.note('decode is %s' % (dec,))
    inc = kws.get('incrementaldecoder')
    cls = None
    if inc is not None and inc.op in ('localcls', 'cls'):
        for mod in Repo.get().mods.values():
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.ClassDef) and n.name == inc.args[1] and (inc.op == 'cls' or e.site(n) == inc.args[0]):
                    cls = n
    if cls is None:
        rep.note('the incremental decoder is %s' % (inc,))
        return
    bases = [ast.unparse(b) for b in cls.bases]
    buf = any(b.endswith('BufferedIncrementalDecoder') for b in bases)
    meth = [n for n in cls.body if isinstance(n, ast.FunctionDef) and n.name == ('_buffer_decode' if buf else 'decode')]
    rep.check(bool(meth) and (buf or any('IncrementalDecoder' in b for b in bases)), 'D4', 'incremental decoder', 'the incremental decoder does not define how complete input is decoded', where(cls))
    if not meth:
        return
    m = meth[0]
    ps = [a.arg for a in m.args.args]
    final = ps[-1]
    for given, last in ((True, True), (True, False), (False, True), (False, False)):
        env = {a: T('sym', a) for a in ps}
        env[final] = C(last)
        if inc.op == 'localcls' and len(inc.args) > 3:
            for a in inc.args[3].args:
                env.setdefault(a.args[0], a.args[1])
        if not buf:
            env[ps[1]] = T('sym', 'input')
        facts = dict(st0.facts)
        src = env[ps[1]] if len(ps) > 1 else inp
        facts[T('truth', src)] = given
        q = getattr(m, '_qual', None)
        rets, raises = e.analyse('yupp', q, args=env, facts=facts)
        rep.count('paths of the incremental decoder', len(rets))
        w = 'incremental decoder, %sfinal %sinput' % ('' if last else 'not ', '' if given else 'empty ')
        for st, v in rets:
            used = [ev for ev in st.log if ev[0] == 'ds']
            if given and last:
                if v.op == 'tup' and len(v.args) == 2:
                    judge(rep, w, st, v, base, src, env[ps[2]] if len(ps) > 3 else err, 'D4')
                else:
                    rep.note('%s returns %s' % (w, v))
                continue
            rep.check(not used or not given, 'D4', w, 'input that is not complete is decoded', where(m))
            if not used:
                t = v.args[0] if v.op == 'tup' and v.args else v
                rep.check(isc(t) and t.args[0] == '', 'D4', w, 'the incremental decoder returns %s before the input is complete' % v, where(m))
                if v.op == 'tup' and len(v.args) == 2 and given:
                    rep.check(isc(v.args[1]) and v.args[1].args[0] == 0, 'D4', w, 'the incremental decoder drops input before it is complete (%s consumed)' % v.args[1], where(m))


def judge(rep, w, st, v, base, inp, err, rule='D3'):
    if v.op != 'tup' or len(v.args) != 2:
        rep.note('%s returns %s' % (w, v))
        return
    used = [ev for ev in st.log if ev[0] == 'ds']
    calls = [ev for ev in st.log if ev[0] == 'mcall' and ev[1] in ('decode',)]
    rep.check(bool(used), rule, w, 'the decoded text is not preprocessed', '__init__.py')
    if not calls:
        rep.bad(rule, w, 'the input is not decoded by the named encoding', '__init__.py')
        return
    c = calls[-1]
    rep.check(c[2] is base, rule, w, 'the input is decoded by %s and not by the named encoding' % c[2], '__init__.py')
    rep.check(bool(c[3]) and c[3][0] is inp, rule, w, 'what is decoded is %s and not the whole input' % (c[3][0] if c[3] else None), '__init__.py')
    rep.check(len(c[3]) > 1 and c[3][1] is err or c[3][1:] == () and err is None, rule, w, 'the error mode is not passed on', '__init__.py')
    if used:
        rep.check(v.args[0] is T('sym', 'TEXT'), rule, w, 'the result is %s and not what decoding returned' % v.args[0], '__init__.py')
        src = used[-1][1][-1]
        dep = [d for d in src.deps() if d.op == 'sub' and d.args[0].op == 'fresh' and d.args[0].args[-1] == 'decode' and isc(d.args[1]) and d.args[1].args[0] == 0]
        rep.check(bool(dep), rule, w, 'the text given to the preprocessor is not the decoded input: %s' % src, '__init__.py')
        cut = [d for d in src.deps() if d.op in ('slice', 'slice3') and any(x in d.args[0].deps() for x in dep)]
        rep.check(not cut, rule, w, 'only a part of the decoded input is preprocessed: %s' % src, '__init__.py')
    n = v.args[1]
    rep.check(n.op == 'sub' and isc(n.args[1]) and n.args[1].args[0] == 1 and n.args[0].op == 'fresh' and n.args[0].args[-1] == 'decode' or n.op == 'call' and n.args[0] == 'len' and n.args[1] is inp,
              rule, w, 'the number of consumed bytes returned is %s' % n, '__init__.py')
