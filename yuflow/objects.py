"""An engine in which objects of some classes of the package have known contents: their __init__ and their special
methods are followed, and the list or dictionary they are based on is kept item by item."""
import ast
from .flow import Engine
from .terms import T, C, NONE, TRUE, FALSE, isc


class OEngine(Engine):
    objects = frozenset()
    recursive = {}        # function name -> how many activations of it are followed

    # ------------------------------------------------------------------ the base container
    def base(self, name):
        m = self.mro(name)
        return 'list' if 'list' in m else 'dict' if 'dict' in m else None

    def isobj(self, t):
        return isinstance(t, T) and t.op == 'new' and t.args[0] in self.objects

    def store(self, t):
        b = self.base(t.args[0])
        return T(b, '$content', t) if b else None

    def fill(self, st, t, items):
        """set the contents (before an analysis): list of values or of pairs"""
        s = self.store(t)
        if s.op == 'list':
            st[(s, 'items')] = T('tup', *items)
        else:
            st[(s, 'base')] = NONE
            for k, v in items:
                st[(s, ('k', self.kn(k)))] = v
        self.modobjs = set(self.modobjs) | {s, t}

    def contents(self, st, t):
        s = self.store(t) if self.isobj(t) else t
        if s.op == 'list':
            return self.items(st, s)
        if st.heap.get((s, 'base')) is not NONE:
            return None
        return tuple((k[1][1], v) for k, v in st.heap.items() if k[0] is s and isinstance(k[1], tuple) and k[1][0] == 'k')

    # ------------------------------------------------------------------ overridden steps
    def new(self, st, cls, args, kw, node):
        name = cls.args[1]
        if name not in self.objects:
            return super().new(st, cls, args, kw, node)
        hook = self.hooks.get('new')
        if hook:
            r = hook(self, st, cls, args, kw, node)
            if r is not None:
                return r
        n = self.fresh(st, node, 'new').args
        t = T('new', name, (), n[0], n[1])
        self.emit(st, 'new', name, tuple(args), self.site(node))
        s = self.store(t)
        for k in [k for k in st.heap if k[0] is t or s is not None and k[0] is s]:
            del st.heap[k]
        m = self.find_method(name, '__init__')
        if m is None or not isinstance(m[0], ast.FunctionDef):
            self.plain_init(st, t, args, node)
            return [(st, t)]
        f = self.fn(m[0], m[0]._modname, (), '__init__', m[1])
        if s is not None and s.op == 'dict':
            st.heap[(s, 'base')] = NONE
        elif s is not None:
            st.heap[(s, 'items')] = T('tup')
        st.env['$new%d' % len(st.stack)] = t
        out = []
        for x, _ in self.call(st, f, [t] + list(args), kw, node):
            x.env.pop('$new%d' % len(x.stack), None)
            out.append((x, t))
        return out

    def plain_init(self, st, t, args, node):
        s = self.store(t)
        if s is None:
            return
        if s.op == 'dict':
            st.heap[(s, 'base')] = NONE
            if args:
                self.method(st, s, 'update', args, {}, node, NONE)
        else:
            it = self.items(st, args[0]) if args else ()
            st.heap[(s, 'items')] = T('tup', *(it if it is not None else (T('star', args[0]),)))

    def call(self, st, f, args, kw, node):
        if f.op == 'fn' and self.is_opaque(f) is None:
            fv = self.funcs[f]
            n = self.recursive.get(fv.name)
            if n and self.callstack.count(f) in range(1, n) and not self.is_generator(fv.node):
                cs = self.callstack
                self.callstack = [x for x in cs if x is not f] + [T('sym', '$again')] * cs.count(f)
                self._again = getattr(self, '_again', 0)
                if sum(1 for x in cs if x is T('sym', '$again')) < n:
                    d, self.depth = self.depth, min(self.depth, self.MAX_DEPTH - 3)
                    try:
                        return self.inline(st, f, args, kw, node)
                    finally:
                        self.callstack, self.depth = cs, d
                self.callstack = cs
        return super().call(st, f, args, kw, node)

    def items(self, st, v):
        if v.op == 'call' and v.args[0] in ('.items', '.keys', '.values') and len(v.args) == 2 and (v.args[1].op == 'dict' or self.isobj(v.args[1])):
            c = self.contents(st, v.args[1])
            if c is not None:
                return tuple(T('tup', k, x) if v.args[0] == '.items' else k if v.args[0] == '.keys' else x for k, x in c)
        if self.isobj(v):
            s = self.store(v)
            if s is None:
                return None
            if s.op == 'list':
                return super().items(st, s)
            c = self.contents(st, v)
            return tuple(k for k, x in c) if c is not None else None
        if v.op == 'dict':
            c = self.contents(st, v)
            return tuple(k for k, x in c) if c is not None else None
        return super().items(st, v)

    def special(self, b, name):
        m = self.find_method(b.args[0], name)
        return self.fn(m[0], m[0]._modname, (), name, m[1]) if m is not None and isinstance(m[0], ast.FunctionDef) else None

    def e_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            return super().e_Subscript(e, st)
        out = []
        for s, vs in self.seq([e.value, e.slice], st):
            out += self.item(s, vs[0], vs[1], e)
        return out

    def slice(self, vs, st, node=None):
        b = vs[0]
        if self.isobj(b) and self.store(b) is not None and self.store(b).op == 'list' and self.special(b, '__getitem__') is None:
            return super().slice([self.store(b)] + list(vs[1:]), st, node)
        return super().slice(vs, st, node)

    def item(self, s, b, k, e):
        if self.isobj(b):
            f = self.special(b, '__getitem__')
            if f is not None and not (self.callstack and self.callstack[-1] is f):
                return self.call(s, f, [b, k], {}, e)
            return self.raw_get(s, b, k, e)
        return [(s, self.getitem(s, b, k, e))]

    def raw_get(self, s, b, k, e):
        t = self.store(b)
        if t.op == 'list':
            return [(s, self.getitem(s, t, k, e))]
        c = self.contents(s, b)
        k = self.kn(k)
        h = s.heap.get((t, ('k', k)))
        if h is not None:
            return [(s, h)]
        if c is not None and isc(k) and all(isc(x) for x, _ in c):
            self.throw(s, 'KeyError', 'key %s' % (k,))
            return []
        return [(s, T('sub', b, k))]

    def raw_set(self, s, b, k, v):
        t = self.store(b)
        if t.op == 'dict':
            s.heap[(t, ('k', self.kn(k)))] = v
        else:
            it = self.items(s, t)
            if it is not None and isc(k) and isinstance(k.args[0], int) and -len(it) <= k.args[0] < len(it):
                l = list(it)
                l[k.args[0]] = v
                s.heap[(t, 'items')] = T('tup', *l)
            else:
                s.heap[(t, 'items')] = T('tup', T('star', T('sym', 'set')))

    def raw_in(self, s, b, k):
        c = self.contents(s, b)
        k = self.kn(k)
        if c is not None:
            ks = [x for x, _ in c] if self.store(b).op == 'dict' else [self.kn(x) for x in c]
            if k in ks:
                return TRUE
            if isc(k) and all(isc(x) for x in ks):
                return FALSE
        return T('cond', T('in', k, b), True)

    def e_Compare(self, e, st):
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
            out = []
            for s, vs in self.seq([e.left, e.comparators[0]], st):
                if self.isobj(vs[1]) and self.store(vs[1]) is not None:
                    f = self.special(vs[1], '__contains__')
                    rs = self.call(s, f, [vs[1], vs[0]], {}, e) if f is not None else [(s, self.raw_in(s, vs[1], vs[0]))]
                    for x, v in rs:
                        out.append((x, v if isinstance(e.ops[0], ast.In) else self.as_cond(self.neg(self.truth(v), False))))
                else:
                    out.append((s, self.as_cond(self.norm(type(e.ops[0]).__name__, vs[0], vs[1]))))
            return out
        return super().e_Compare(e, st)

    def norm(self, op, a, b):
        if op in ('Eq', 'NotEq'):
            a, b = self.kn(a), self.kn(b)
        elif op in ('Is', 'IsNot') and a is not b and a.op == 'new' and b.op == 'new' and a.args[0] in self.objects and b.args[0] in self.objects:
            return op == 'IsNot'
        elif op in ('Is', 'IsNot'):
            for x, y in ((a, b), (b, a)):
                if x.op == 'cls' and y.op in ('new', 'list', 'dict', 'tup', 'c', 'deep'):
                    return op == 'IsNot'
        return super().norm(op, a, b)

    def decide(self, atom, st):
        if atom.op == 'truth' and self.isobj(atom.args[0]) and self.store(atom.args[0]) is not None:
            c = self.contents(st, atom.args[0])
            if c is not None and not any(isinstance(x, T) and x.op == 'star' for x in c):
                return bool(c)
        if atom.op == 'in' and atom.args[0].op == 'cls':
            c = atom.args[1]
            its = self.items(st, c) if c.op != 'dict' else ([x for x, _ in self.contents(st, c)] if self.contents(st, c) is not None else None)
            if its is not None and all(isc(self.kn(x)) for x in its):
                return False
        return super().decide(atom, st)

    def method(self, st, recv, name, args, kw, node, f):
        if self.isobj(recv) and self.store(recv) is not None:
            r = self.raw(st, recv, name, args, node)
            if r is not None:
                return r
            return super().method(st, self.store(recv), name, args, kw, node, f)
        if recv.op == 'dict' and recv.args[0] == '$content':
            r = self.raw(st, recv.args[1], name, args, node)
            if r is not None:
                return r
        if recv.op == 'list' and name in ('remove', 'pop') and len(args) <= 1:
            it = self.items(st, recv)
            if it is not None and not any(x.op == 'star' for x in it):
                l = list(it)
                i = None
                if name == 'pop':
                    i = args[0].args[0] if args and isc(args[0]) else -1 if not args else None
                elif all(isc(self.kn(x)) or self.kn(x) is self.kn(args[0]) for x in l) and (isc(self.kn(args[0])) or args[0] in l):
                    ks = [self.kn(x) for x in l]
                    i = ks.index(self.kn(args[0])) if self.kn(args[0]) in ks else len(l)
                if isinstance(i, int):
                    self.emit(st, 'mutate', recv, name, tuple(args), self.site(node))
                    if not -len(l) <= i < len(l):
                        self.throw(st, 'IndexError' if name == 'pop' else 'ValueError', name)
                        return []
                    v = l.pop(i)
                    st.heap[(recv, 'items')] = T('tup', *l)
                    return [(st, v if name == 'pop' else NONE)]
        if recv.op == 'list' and name in ('index', 'count', 'copy') :
            it = self.items(st, recv)
            if it is not None and not any(x.op == 'star' for x in it):
                if name == 'copy':
                    o = self.obj(st, node, 'list')
                    st.heap[(o, 'items')] = T('tup', *it)
                    return [(st, o)]
                ks = [self.kn(x) for x in it]
                if args and self.kn(args[0]) in ks and name == 'index' and len(args) == 1:
                    return [(st, C(ks.index(self.kn(args[0]))))]
        return super().method(st, recv, name, args, kw, node, f)

    def raw(self, st, o, name, args, node):
        """a method of the base class of an object"""
        t = self.store(o)
        if name == '__init__':
            self.plain_init(st, o, args, node)
            return [(st, NONE)]
        if name == '__getitem__' and args:
            return self.raw_get(st, o, args[0], node)
        if name == '__setitem__' and len(args) == 2:
            self.raw_set(st, o, args[0], args[1])
            return [(st, NONE)]
        if name == '__contains__' and args:
            return [(st, self.raw_in(st, o, args[0]))]
        if name == '__len__':
            c = self.contents(st, o)
            return [(st, C(len(c)))] if c is not None else None
        if t.op == 'dict':
            c = self.contents(st, o)
            k = self.kn(args[0]) if args else None
            if name == 'get' and args:
                h = st.heap.get((t, ('k', k)))
                if h is not None:
                    return [(st, h)]
                if self.raw_in(st, o, args[0]) is FALSE:
                    return [(st, args[1] if len(args) > 1 else NONE)]
                return None
            if name in ('__delitem__', 'pop') and args:
                h = st.heap.pop((t, ('k', k)), None)
                if h is None and self.raw_in(st, o, args[0]) is FALSE:
                    if name == 'pop' and len(args) > 1:
                        return [(st, args[1])]
                    self.throw(st, 'KeyError', 'key')
                    return []
                return [(st, NONE if name != 'pop' else h if h is not None else self.fresh(st, node, 'popped'))]
            if name in ('items', 'keys', 'values', '__iter__') and c is not None:
                return [(st, T('tup', *[T('tup', k, v) if name == 'items' else v if name == 'values' else k for k, v in c]))]
        return None

    def ext(self, st, name, args, kw, node):
        if name.startswith(('dict.', 'list.')) and args and self.isobj(args[0]) and self.opaque.get('ext:' + name) is None:
            r = self.raw(st, args[0], name[5:], args[1:], node)
            if r is not None:
                return r
            return super().method(st, self.store(args[0]), name[5:], args[1:], kw, node, NONE)
        return super().ext(st, name, args, kw, node)

    def bind(self, t, v, st, node):
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            out = self.seq([t.value, t.slice], st.copy())
            if out and self.isobj(out[0][1][0]):
                s, (b, k) = out[0]
                self.emit(s, 'setitem', b, k, v, self.site(node))
                f = self.special(b, '__setitem__')
                if f is not None and not (self.callstack and self.callstack[-1] is f):
                    rs = self.call(s, f, [b, k, v], {}, node)
                else:
                    self.raw_set(s, b, k, v)
                    rs = [(s, NONE)]
                if rs:
                    x = rs[0][0]
                    st.heap, st.log, st.facts, st.env, st.gens, st.stack = x.heap, x.log, x.facts, x.env, x.gens, x.stack
                return
        return super().bind(t, v, st, node)

    def s_Delete(self, s, st):
        x = st.copy()
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript):
            t = s.targets[0]
            if isinstance(t.slice, ast.Slice):
                parts = [t.value] + [p if p is not None else ast.Constant(None) for p in (t.slice.lower, t.slice.upper)]
                y, vs = self.seq(parts, x)[0]
                o = self.store(vs[0]) if self.isobj(vs[0]) else vs[0]
                it = self.items(y, o) if o is not None and o.op == 'list' else None
                if it is not None and all(isc(v) for v in vs[1:]) and not any(i.op == 'star' for i in it):
                    l = list(it)
                    del l[vs[1].args[0]:vs[2].args[0]]
                    y.heap[(o, 'items')] = T('tup', *l)
                    self.emit(y, 'delitem', vs[0], NONE, self.site(s))
                    return {'n': [y], 'r': [], 'b': [], 'c': []}
            else:
                outs = []
                for y, vs in self.seq([t.value, t.slice], x):
                    if self.isobj(vs[0]):
                        f = self.special(vs[0], '__delitem__')
                        self.emit(y, 'delitem', vs[0], vs[1], self.site(s))
                        rs = self.call(y, f, [vs[0], vs[1]], {}, s) if f is not None else self.raw(y, vs[0], '__delitem__', [vs[1]], s) or [(y, NONE)]
                        outs += [r[0] for r in rs]
                    elif vs[0].op == 'list' and isc(vs[1]) and self.items(y, vs[0]) is not None and not any(i.op == 'star' for i in self.items(y, vs[0])):
                        l = list(self.items(y, vs[0]))
                        self.emit(y, 'delitem', vs[0], vs[1], self.site(s))
                        if -len(l) <= vs[1].args[0] < len(l):
                            del l[vs[1].args[0]]
                            y.heap[(vs[0], 'items')] = T('tup', *l)
                            outs.append(y)
                        else:
                            self.throw(y, 'IndexError', 'del')
                    else:
                        return super().s_Delete(s, st)
                return {'n': outs, 'r': [], 'b': [], 'c': []}
        return super().s_Delete(s, st)

    def gc(self, res):
        keep = self.modobjs
        extra = set()
        for x, v in res:
            for k in x.heap:
                if isinstance(k[0], T) and k[0].op in ('list', 'dict') and k[0].args[0] == '$content':
                    extra.add(k[0])
                    extra.add(k[0].args[1])
        self.modobjs = set(keep) | extra
        try:
            super().gc(res)
        finally:
            self.modobjs = keep
