"""The value of a closed term: constants for its symbols, the meaning of its operators from the Python reference.

Used to refute: two terms that were not shown equal differ if they differ for some constants, and a turn of a loop can be
repeated for ever if some constants satisfy its condition and come back."""
import ast, codecs, math, operator, string, zlib, re, functools, binascii
from .terms import T, isc


class Unknown(Exception):
    pass


BIN = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv,
       'Mod': operator.mod, 'Pow': operator.pow, 'LShift': operator.lshift, 'RShift': operator.rshift, 'BitOr': operator.or_,
       'BitAnd': operator.and_, 'BitXor': operator.xor}
CALLS = {'len': len, 'ord': ord, 'chr': chr, 'str': str, 'int': int, 'float': float, 'bool': bool, 'abs': abs, 'min': min, 'max': max,
         'sum': sum, 'hex': hex, 'oct': oct, 'round': round, 'repr': repr, 'range': lambda *a: list(range(*a)), 'list': list, 'tuple': tuple,
         'sorted': sorted, 'reversed': lambda x: list(reversed(x)), 'bytes': bytes, 'set': set, 'slice': slice, 'enumerate': lambda *a: list(enumerate(*a)),
         'zlib.crc32': zlib.crc32, 'binascii.crc32': binascii.crc32, 'str.maketrans': str.maketrans, 'map': lambda f, *l: list(map(f, *l)),
         'ast.literal_eval': ast.literal_eval, 'codecs.unicode_escape_encode': codecs.unicode_escape_encode,
         'codecs.unicode_escape_decode': codecs.unicode_escape_decode, 'codecs.encode': codecs.encode, 'codecs.decode': codecs.decode,
         'bin': bin, 'pow': pow, 'divmod': divmod, 'all': all, 'any': any}
METHODS = {'find', 'rfind', 'index', 'rindex', 'count', 'startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'lower', 'upper',
           'swapcase', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'join', 'ljust', 'rjust', 'center', 'zfill', 'expandtabs', 'translate',
           'capitalize', 'replace', 'splitlines', 'encode', 'decode', 'title', 'partition', 'rpartition', 'isdecimal', 'isnumeric', 'format',
           'copy', 'keys', 'values', 'items', '__getitem__', '__len__', '__contains__'}
WRAPPERS = {'LIST', 'STR', 'PLAIN', 'ATOM', 'INT', 'FLOAT', 'SOURCE', 'REMARK'}
LIMIT = 20000


def call(name):
    name = name.split('#')[0]
    if name in CALLS:
        return CALLS[name]
    mod, _, attr = name.rpartition('.')
    if mod in ('operator', 'math', 'string') and hasattr({'operator': operator, 'math': math, 'string': string}[mod], attr):
        return getattr({'operator': operator, 'math': math, 'string': string}[mod], attr)
    return None


def small(v):
    if isinstance(v, (str, bytes, list, tuple)) and len(v) > LIMIT or isinstance(v, int) and abs(v) > 1 << 4000:
        raise Unknown()
    return v


def value(t, env, heap=None):
    """-> a Python value; raises Unknown, or the exception that the expression raises"""
    ev = lambda x: value(x, env, heap)
    if isinstance(t, tuple):
        return tuple(ev(x) for x in t)
    if not isinstance(t, T):
        return t
    if t in env:
        return env[t]
    if str(t) in env:
        return env[str(t)]
    if isc(t):
        return t.args[0]
    op, a = t.op, t.args
    if op == 'tup':
        if any(x.op == 'star' for x in a):
            raise Unknown()
        return tuple(ev(x) for x in a)
    if op in ('list', 'set') and heap is not None and (t, 'items') in heap:
        it = heap[(t, 'items')]
        out = []
        for x in it.args:
            if x.op == 'star':
                out += list(ev(x.args[0]))
            else:
                out.append(ev(x))
        return out if op == 'list' else set(out)
    if op == 'bin':
        if a[0] not in BIN:
            raise Unknown()
        x, y = ev(a[1]), ev(a[2])
        if a[0] in ('Mult', 'Pow', 'LShift') and isinstance(x, (int, str, list, tuple)) and isinstance(y, int) and abs(y) > 2000:
            raise Unknown()
        if a[0] == 'Mod' and (isinstance(x, bytes) or isinstance(x, str) and re.search(r'%[^%sdr]', x)):
            raise Unknown()
        return small(BIN[a[0]](x, y))
    if op == 'un' or op == 'unary':
        f = {'USub': operator.neg, 'UAdd': operator.pos, 'Invert': operator.invert, 'Not': operator.not_}.get(a[0])
        if f is None:
            raise Unknown()
        return f(ev(a[1]))
    if op == 'lt':
        return ev(a[0]) < ev(a[1])
    if op == 'eq':
        return ev(a[0]) == ev(a[1])
    if op == 'is':
        x, y = ev(a[0]), ev(a[1])
        if y is None or isinstance(y, bool):
            return x is y
        raise Unknown()
    if op == 'in':
        x, y = ev(a[0]), ev(a[1])
        return x in y
    if op == 'not':
        return not ev(a[0])
    if op == 'truth':
        return bool(ev(a[0]))
    if op == 'slice':
        if len(a) == 1:
            return slice(ev(a[0]))
        x = ev(a[0])
        if len(a) == 3 and isinstance(x, (str, list, tuple, bytes)):
            return x[ev(a[1]):ev(a[2])]
        raise Unknown()
    if op == 'slice3':
        return ev(a[0])[ev(a[1]):ev(a[2]):ev(a[3])]
    if op == 'sub':
        return ev(a[0])[ev(a[1])]
    if op == 'str':
        return str(ev(a[0]))
    if op == 'isinst':
        x = ev(a[0])
        k = {'str': str, 'list': list, 'int': int, 'float': float, 'bool': bool, 'dict': dict, 'tuple': tuple, 'LIST': list, 'native_str': str}.get(a[1])
        if k is None or a[1] == 'LIST':
            raise Unknown()
        return isinstance(x, k)
    if op == 'oneof' and len(a) == 2 and isinstance(a[1], (tuple, frozenset)):
        return any(value(T('isinst', a[0], n), env, heap) for n in a[1])
    if op == 'new' and a[0] in WRAPPERS:
        if a[0] == 'LIST':
            if not a[1]:
                raise Unknown()       # made to be filled
            return list(ev(a[1][0]))
        if a[0] in ('INT', 'FLOAT'):
            return (int if a[0] == 'INT' else float)(*[ev(x) for x in a[1]])
        x = ev(a[1][0])
        if not isinstance(x, str):
            raise Unknown()
        return x
    if op == 'ext':
        f = call(a[0])
        if f is None:
            raise Unknown()
        return f
    if op == 'fresh':
        raise Unknown()
    if op == 'call':
        name = a[0] if isinstance(a[0], str) else None
        if name is None or any(x.op == 'star' for x in a[1:] if isinstance(x, T)):
            raise Unknown()
        kws = {x.args[0]: ev(x.args[1]) for x in a[1:] if isinstance(x, T) and x.op == 'kw'}
        a = (a[0],) + tuple(x for x in a[1:] if not (isinstance(x, T) and x.op == 'kw'))
        if name.startswith('.'):
            if name[1:] not in METHODS:
                raise Unknown()
            x = ev(a[1])
            if not isinstance(x, (str, bytes, list, tuple, dict)):
                raise Unknown()
            r = getattr(x, name[1:])(*[ev(y) for y in a[2:]], **kws)
            return small(r)
        f = call(name)
        if f is None:
            raise Unknown()
        return small(f(*[ev(y) for y in a[1:]], **kws))
    raise Unknown()


def holds(facts, env, heap=None):
    """-> True, False, or None if that is not known"""
    known = True
    for f, v in facts.items():
        try:
            if bool(value(f, env, heap)) is not v:
                return False
        except Exception:
            known = None
    return known
