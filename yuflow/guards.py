"""Which conditions dominate a place in the source, and is the place reachable under an assumption on some expressions
(three-valued evaluation; interprocedural through the call sites of the enclosing function)."""
import ast
from .src import Repo, enclosing, where


def terminates(block):
    if not block:
        return False
    s = block[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return terminates(s.body) and terminates(s.orelse)
    if isinstance(s, (ast.With,)):
        return terminates(s.body)
    if isinstance(s, ast.Try):
        return terminates(s.body) and all(terminates(h.body) for h in s.handlers)
    return False


def guards(node):
    """[(test, polarity)] that hold whenever the node is evaluated (inside its function)"""
    res = []
    n = node
    while True:
        p = getattr(n, '_parent', None)
        if p is None or isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.Module)):
            return res
        if isinstance(p, ast.If) or isinstance(p, ast.While):
            if n in p.body:
                res.append((p.test, True))
            elif n in p.orelse and isinstance(p, ast.If):
                res.append((p.test, False))
        elif isinstance(p, ast.IfExp):
            if n is p.body:
                res.append((p.test, True))
            elif n is p.orelse:
                res.append((p.test, False))
        elif isinstance(p, ast.BoolOp):
            i = p.values.index(n)
            for v in p.values[:i]:
                res.append((v, isinstance(p.op, ast.And)))
        elif isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            if n not in p.generators:
                for g in p.generators:
                    for c in g.ifs:
                        res.append((c, True))
        # earlier statements of the same block that leave it
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(p, f, None)
            if isinstance(b, list) and n in b:
                for s in b[:b.index(n)]:
                    if isinstance(s, ast.If):
                        if terminates(s.body) and not terminates(s.orelse):
                            res.append((s.test, False))
                            res += [(x, True) for x in []]
                        elif terminates(s.orelse):
                            res.append((s.test, True))
                    elif isinstance(s, ast.Assert):
                        res.append((s.test, True))
        n = p


def assigned(fn, name):
    """values assigned to a local name of a function ([] if it is a parameter or more complicated)"""
    res = []
    if fn is None:
        return None
    a = fn.args
    if any(x.arg == name for x in a.args + a.kwonlyargs + a.posonlyargs):
        return None
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        res.append(n.value)
                    elif any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(t)):
                        return None
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.target.id == name:
                return None
            elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                return None
            elif isinstance(n, ast.Global) and name in n.names:
                return None
    return res


def evaluate(e, leaf, depth=0):
    """True / False / None.  leaf(expr) gives the assumed value of an expression or None"""
    v = leaf(e)
    if v is not None:
        return v
    if isinstance(e, ast.Constant):
        return bool(e.value)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        v = evaluate(e.operand, leaf, depth)
        return None if v is None else not v
    if isinstance(e, ast.BoolOp):
        vs = [evaluate(x, leaf, depth) for x in e.values]
        if isinstance(e.op, ast.And):
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if isinstance(e, ast.IfExp):
        t = evaluate(e.test, leaf, depth)
        a, b = evaluate(e.body, leaf, depth), evaluate(e.orelse, leaf, depth)
        return a if t is True else b if t is False else a if a == b else None
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = e.left, e.comparators[0]
        for x, y in ((a, b), (b, a)):
            if isinstance(y, ast.Constant) and isinstance(y.value, bool) and isinstance(e.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                v = evaluate(x, leaf, depth)
                if v is None:
                    return None
                eq = v == y.value
                return eq if isinstance(e.ops[0], (ast.Is, ast.Eq)) else not eq
    if depth > 5:
        return None
    if isinstance(e, ast.Name):
        vs = assigned(enclosing(e, (ast.FunctionDef,)), e.id)
        if vs:
            rs = {evaluate(x, leaf, depth + 1) for x in vs}
            if len(rs) == 1:
                return rs.pop()
        return None
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(e.args) == 1:
            return evaluate(e.args[0], leaf, depth)
        if isinstance(e.func, ast.Name):
            f = e._mod.functions.get(e.func.id) if hasattr(e, '_mod') else None
            if f is not None:
                rets = [x for x in ast.walk(f) if isinstance(x, ast.Return) and enclosing(x, (ast.FunctionDef,)) is f]
                rs = set()
                for r in rets:
                    if r.value is None:
                        rs.add(False)
                    elif unreachable_here(r, leaf, depth + 1):
                        continue
                    else:
                        rs.add(evaluate(r.value, leaf, depth + 1))
                if rets and len(rs) == 1 and terminates(f.body):
                    return rs.pop()
    return None


def unreachable_here(node, leaf, depth=0):
    return any(evaluate(t, leaf, depth) is (not pol) for t, pol in guards(node))


def call_sites(name, mods=None):
    """references to a function: [(node, is_call)]"""
    res = []
    repo = Repo.get()
    for mn, m in repo.mods.items():
        if mn == 'plugin':
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Load):
                p = getattr(n, '_parent', None)
                res.append((n, isinstance(p, ast.Call) and p.func is n))
    return res


def unreachable(node, leaf, seen=None, top=()):
    """The node is not evaluated when the assumption holds: guarded here or at every use of its function."""
    if unreachable_here(node, leaf):
        return True
    f = enclosing(node, (ast.FunctionDef,))
    if f is None or f.name in top:
        return False
    seen = seen or frozenset()
    if f in seen:
        return True            # recursive use adds nothing
    refs = [n for n, c in call_sites(f.name)]
    refs = [n for n in refs if not (enclosing(n, (ast.FunctionDef,)) is f)]
    if not refs:
        return False
    return all(unreachable(n, leaf, seen | {f}, top) for n in refs)


def attr_leaf(obj, attr, value):
    """assumption: obj.attr is `value`"""
    def leaf(e):
        if isinstance(e, ast.Attribute) and e.attr == attr and (obj is None or isinstance(e.value, ast.Name) and e.value.id == obj):
            return value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and e.args[1].value == attr:
            return value
        return None
    return leaf
