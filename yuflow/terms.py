"""Hash-consed value terms: the abstract values of the dataflow (value numbering)."""

class T:
    __slots__ = ('op', 'args', '_deps', 'id', '_s')
    _tab = {}
    _n = 0

    def __new__(cls, op, *args):
        key = (op,) + tuple((a.__class__, a) for a in args)
        t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t._deps, t._s = op, args, None, None
            T._n += 1
            t.id = T._n
            cls._tab[key] = t
        return t

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def deps(self):
        """All sub-terms including itself."""
        if self._deps is None:
            d = {self}
            for a in self.args:
                if isinstance(a, T):
                    d |= a.deps()
                elif isinstance(a, tuple):
                    for b in a:
                        if isinstance(b, T):
                            d |= b.deps()
            self._deps = frozenset(d)
        return self._deps

    def __repr__(self):
        if self._s is None:
            self._s = show(self)
        return self._s


def C(v):
    return T('c', v)

NONE, TRUE, FALSE = C(None), C(True), C(False)


def isc(t):
    return t.op == 'c'


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 6:
        return '..'
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1) if isinstance(x, T) else ('(' + ', '.join(s(y) for y in x) + ')' if isinstance(x, tuple) else str(x))
    if o == 'c':
        r = repr(a[0])
        return r if len(r) < 40 else r[:37] + '...'
    if o in ('sym', 'mod', 'ext'):
        return a[0]
    if o in ('fn', 'cls'):
        return a[1] if len(a) > 1 else str(a[0])
    if o == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'sub':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'slice':
        return '%s[%s:%s]' % (s(a[0]), '' if a[1] is NONE else s(a[1]), '' if a[2] is NONE else s(a[2]))
    if o == 'call':
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if o == 'bin':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if o == 'tup':
        return '(%s)' % ', '.join(s(x) for x in a)
    if o in ('fresh', 'lv', 'elem'):
        return '%s#%s' % (a[-1] if o == 'fresh' else ('%s:%s' % (o, s(a[1]))), a[0])
    if o == 'phi':
        return '{%s:%s}#%d' % (a[0], s(a[1][0]) if len(a) > 1 and a[1] else '', t.id)
    if o == 'maybe':
        return '?%s#%d' % (s(a[0]) if isinstance(a[0], T) else a[0], t.id)
    if o == 'cond':
        return ('' if a[1] else 'not ') + s(a[0])
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))
