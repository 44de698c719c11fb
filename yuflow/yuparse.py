"""A reader of yupp texts, written from the documented grammar (doc strings of the rules, doc/README.md).

parse(text) -> list of nodes, or raises Bad(pos, message).  Nodes are tuples whose first element is the kind:
('plain', text, pos) ('set', names, form, pos) ('let', names, form, body, pos) ('import', kind, name, pos)
('macro', name, params, text, pos, text_pos) ('comment', text, pos) ('apply', fn, args, named, pos, eval) ('emit', var, form, pos)
('var', regions, name, late, pos) ('lambda', [(late, name, default)] | var, body, pos) ('cond', cond, leg1, leg0)
('text', nodes, pos) ('infix', nodes, pos) ('list', items, pos) ('embed', form) ('str', text, pos) ('num', text, pos)"""
import re

STR = re.compile(r'"(?:\\.|[^\\"])*"', re.S)
CHR = re.compile(r"'(?:\\.|[^\\'])*'", re.S)
NUM = re.compile(r'[+-]? *\d+\.\d+(?:[eE][+-]?\d+)?|[+-]?[ \t]*(?:0[xX][\da-fA-F]+|0[bB][01]+|0[oO][0-7]+|0[0-7]*|[1-9]\d*)[lL]?')
ATOM = re.compile(r'[A-Za-z_][A-Za-z0-9_-]*')
PYSTR = re.compile(r"""[uU]?[rR]?(?:'''(?:\\.|(?!''').)*'''|\"\"\"(?:\\.|(?!\"\"\").)*\"\"\"|'(?:\\.|[^\n'\\])*'|"(?:\\.|[^\n"\\])*")""", re.S)


class Bad(Exception):
    def __init__(self, pos, msg):
        self.pos, self.msg = pos, msg
        Exception.__init__(self, msg)


class Reader:
    def __init__(self, s, python=False):
        self.s, self.python = s, python

    def gap(self, p):
        while p < len(self.s) and self.s[p] in ' \t\r\n':
            p += 1
        return p

    def at(self, p, mark):
        return self.s.startswith(mark, p)

    def need(self, p, mark, what, start):
        if not self.at(p, mark):
            if p >= len(self.s):
                raise Bad(start, '%s is not closed' % what)
            raise Bad(p, '%r expected in %s' % (mark, what))
        return p + len(mark)

    def atom(self, p):
        m = ATOM.match(self.s, p)
        return (m.end(), m.group()) if m else (p, None)

    def skip(self, p, what, start):
        """a plain text in round brackets, up to the bracket that closes it"""
        d, q = 0, p
        first = True
        while True:
            if q >= len(self.s):
                raise Bad(start, '%s is not closed' % what)
            c = self.s[q]
            if c == ')' and d == 0:
                return q
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
            q += 1

    # ------------------------------------------------------------------ text
    def text(self, p, end, what, start):
        """nodes of a text up to where end(position, depth of [, depth of (, nodes) gives a result"""
        nodes, plain, pp = [], '', p
        sq = pt = 0

        def flush():
            nonlocal plain
            if plain:
                nodes.append(('plain', plain, pp))
                plain = ''
        while True:
            q, n = self.construct(p)
            if n is not None:
                flush()
                nodes.append(n)
                p = q
                continue
            r = end(p, sq, pt, bool(nodes or plain)) if end else None
            if r is not None:
                flush()
                return r, nodes
            if p >= len(self.s):
                if end is None:
                    flush()
                    return p, nodes
                raise Bad(start, '%s is not closed' % what)
            c = self.s[p]
            if c == '[':
                sq += 1
            elif c == ']':
                sq = max(sq - 1, 0)
            elif c == '(':
                pt += 1
            elif c == ')':
                pt = max(pt - 1, 0)
            if not plain:
                pp = p
            plain += c
            p += 1

    def construct(self, p):
        s = self.s
        if s[p:p + 1] not in ('(', '"', "'", 'u', 'U', 'r', 'R') or not s[p:p + 1]:
            return p, None
        if self.at(p, '($set'):
            q = self.gap(p + 5)
            q, (names, form) = self.binding(q, p)
            q = self.tag(self.gap(q), '\\set')
            return self.need(q, ')', '($set', p), ('set', names, form, p)
        if self.at(p, '($let'):
            return self.let(p)
        if self.at(p, '($import'):
            q = self.gap(p + 8)
            r, name = self.atom(q)
            if name is not None:
                kind = 'library'
            else:
                r, n = self.quote(q)
                if n is not None:
                    kind, name = 'file', n[1]
                else:
                    r, n = self.infix(q)
                    if n is None:
                        raise Bad(q, 'name of imported file expected')
                    kind, name = 'infix', n
            r = self.tag(self.gap(r), '\\import')
            return self.need(r, ')', '($import', p), ('import', kind, name, p)
        if self.at(p, '($macro'):
            q = self.gap(p + 7)
            q, name = self.atom(q)
            if name is None:
                raise Bad(q, 'name of a macro expected')
            q = self.gap(self.need(self.gap(q), '(', '($macro %s' % name, p))
            pars = []
            while not self.at(q, ')'):
                r, a = self.atom(q)
                if a is None:
                    raise Bad(p if q >= len(s) else q, 'parameters of macro %s are not closed' % name)
                pars.append(a)
                q = self.gap(r)
            q += 1
            r = self.skip(q, '($macro %s' % name, p)
            return r + 1, ('macro', name, pars, s[q:r], p, q)
        if self.at(p, '($!'):
            r = self.skip(p + 3, '($!', p)
            return r + 1, ('comment', s[p + 3:r], p)
        q, n = self.application(p)
        if n is not None:
            return q, n
        return self.quote(p)

    def tag(self, p, mark):
        return self.gap(p + len(mark)) if self.at(p, mark) else p

    def binding(self, p, start):
        if self.at(p, '('):
            names = []
            q = self.gap(p + 1)
            while not self.at(q, ')'):
                r, a = self.atom(q)
                if a is None:
                    raise Bad(start if q >= len(self.s) else q, 'name expected in the list of names')
                names.append(a)
                q = self.gap(r)
            q += 1
        else:
            q, a = self.atom(p)
            if a is None:
                raise Bad(p, 'name expected')
            names = [a]
        q, f = self.form(self.gap(q))
        if f is None:
            raise Bad(start if q >= len(self.s) else q, 'form expected')
        return q, (names, f)

    def let(self, p):
        if not self.at(p, '($let'):
            return p, None
        q, (names, f) = self.binding(self.gap(p + 5), p)
        q, body = self.form(self.gap(q))
        if body is None:
            raise Bad(p if q >= len(self.s) else q, 'form expected in ($let')
        q = self.tag(self.gap(q), '\\let')
        return self.need(q, ')', '($let', p), ('let', names, f, body, p)

    def application(self, p):
        s = self.s
        if not self.at(p, '($') or self.at(p, '($quote'):
            return p, None
        if self.at(p, '($code'):
            return self.code(p)
        if self.at(p, '($emit'):
            q, v = self.variable(self.gap(p + 6))
            if v is None:
                raise Bad(q, 'variable expected in ($emit')
            q, f = self.form(self.gap(q))
            q = self.tag(self.gap(q), '\\emit')
            return self.need(q, ')', '($emit', p), ('emit', v, f, p)
        if self.at(p, '(${}'):
            return self.infix(p)
        q = p + 2
        ev = self.at(q, '$')
        q = self.gap(q + 1 if ev else q)
        q, fn = self.form(q)
        if fn is None:
            raise Bad(p if q >= len(s) else q, 'function expected')
        own = fn[2] if fn[0] == 'var' else None
        args, named = [], []
        while True:
            q = self.gap(q)
            name = None
            if self.at(q, '\\'):
                r, name = self.atom(q + 1)
                if name is not None:
                    r = self.gap(r)
                    if self.at(r, '.') or self.at(r, ':'):
                        name = None
                    else:
                        q = r
            if name is not None:
                if name == own:
                    break
                q, f = self.form(self.gap(q))
                if f is None:
                    raise Bad(p if q >= len(s) else q, 'form expected as the argument %s' % name)
                named.append((name, f))
                continue
            emb = self.at(q, '*')
            q, f = self.form(self.gap(q + 1) if emb else q)
            if f is None:
                if emb:
                    raise Bad(q, 'unexpected "*"')
                break
            args.append(('embed', f) if emb else f)
        q = self.need(self.gap(q), ')', '($%s' % (own or ''), p)
        return q, ('apply', fn, args, named, p, ev)

    # ------------------------------------------------------------------ forms
    def form(self, p):
        q, f = self.former(p)
        if f is None:
            return p, None
        r = self.gap(q)
        if self.at(r, '?'):
            r, c = self.former(self.gap(r + 1))
            if c is None:
                raise Bad(r, 'condition expected')
            q = self.gap(r)
            g = None
            if self.at(q, '|'):
                q, g = self.form(self.gap(q + 1))
                if g is None:
                    raise Bad(q, 'form expected after "|"')
            return q, ('cond', c, f, g)
        return q, f

    def former(self, p):
        q, n = self.quote(p)
        if n is not None:
            return q, n
        m = NUM.match(self.s, p)
        if m:
            return m.end(), ('num', m.group(), p)
        q, n = self.variable(p)
        if n is not None:
            return q, n
        q, n = self.lam(p)
        if n is not None:
            return q, n
        return self.lform(p)

    def lform(self, p):
        for rule in (self.code, self.infix, self.let, self.application, self.list):
            q, n = rule(p)
            if n is not None:
                return q, n
        return p, None

    def variable(self, p):
        if self.at(p, '&'):
            q, a = self.atom(p + 1)
            if a is None:
                raise Bad(p, 'late-bound name expected')
            return q, ('var', [], a, True, p)
        q, a = self.atom(p)
        if a is None:
            return p, None
        reg = []
        while self.at(q, '::'):
            reg.append(a)
            q, a = self.atom(q + 2)
            if a is None:
                raise Bad(q, 'name expected after "::"')
        return q, ('var', reg, a, False, p)

    def lam(self, p):
        if not self.at(p, '\\'):
            return p, None
        if self.at(p, '\\('):
            q, v = self.variable(self.gap(p + 2))
            if v is None:
                raise Bad(q, 'variable expected')
            q = self.gap(self.need(self.gap(q), ').', 'list of parameters', p))
            bound = v
        else:
            q, bound, late = p, [], []
            while self.at(q, '\\'):
                if self.at(q, '\\...'):
                    bound.append(([], '...', None))
                    q = self.gap(q + 4)
                    continue
                r, a = self.atom(q + 1)
                if a is None:
                    raise Bad(q, 'name of a parameter expected')
                f = None
                if self.at(r, ':'):
                    r, f = self.form(r + 1)
                    if f is None:
                        raise Bad(r, 'default expected')
                if not self.at(r, '.'):
                    raise Bad(r, '"." expected')
                if self.at(r, '..') and not self.at(r, '...'):
                    late.append(a)
                    q = self.gap(r + 2)
                    continue
                bound.append((late, a, f))
                late = []
                q = self.gap(r + 1)
        q, body = self.lform(q)
        if body is None:
            raise Bad(q, 'body of a function expected')
        return q, ('lambda', bound, body, p)

    def list(self, p):
        if not self.at(p, '('):
            return p, None
        q, items = self.gap(p + 1), []
        while not self.at(q, ')'):
            emb = self.at(q, '*')
            q, f = self.form(self.gap(q + 1) if emb else q)
            if f is None:
                raise Bad(p if q >= len(self.s) else q, 'list is not closed' if q >= len(self.s) else 'form expected in a list')
            items.append(('embed', f) if emb else f)
            q = self.gap(q)
        return q + 1, ('list', items, p)

    def infix(self, p):
        if self.at(p, '{'):
            q, n = self.text(p + 1, lambda q, sq, pt, any: q + 1 if self.at(q, '}') else None, '{', p)
            return q, ('infix', n, p)
        if self.at(p, '(${}'):
            q, n = self.text(p + 4, lambda q, sq, pt, any: q + 1 if self.at(q, ')') and pt == 0 else None, '(${}', p)
            return q, ('infix', n, p)
        return p, None

    def code(self, p):
        s = self.s

        def spaces(q):
            while q < len(s) and s[q] in ' \t':
                q += 1
            return q

        def opened(q):
            return 1 if self.at(q, '[') else 2 if self.at(q, '\\[') else 0
        if self.at(p, ']'):
            q = spaces(p + 1)
            if s[q:q + 1] in ('\n', '\r') and s[q:q + 1]:
                def end(r, sq, pt, any):
                    if s[r:r + 1] in ('\n', '\r') and s[r:r + 1]:
                        r = spaces(r + 1)
                        return r + opened(r) if opened(r) else None
                    if not any:
                        r = spaces(r)
                        return r + opened(r) if opened(r) else None
                q, n = self.text(q + 1, end, 'text after "]"', p)
                return q, ('text', n, p)

            def end(r, sq, pt, any):
                k = opened(r)
                if k:
                    q = self.gap(r + k)
                    if self.at(q, '\\'):
                        q, a = self.atom(q + 1)
                        if a is None:
                            return None
                        q = self.gap(q)
                    if self.at(q, ')'):
                        return r + k
            q, n = self.text(p + 1, end, 'text after "]"', p)
            return q, ('text', n, p)
        if self.at(p, '['):
            q, n = self.text(p + 1, lambda q, sq, pt, any: q + 1 if self.at(q, ']') and sq == 0 else None, '[', p)
            return q, ('text', n, p)
        if self.at(p, '($code'):
            q, n = self.text(p + 6, lambda q, sq, pt, any: q + 1 if self.at(q, ')') and pt == 0 else None, '($code', p)
            return q, ('text', n, p)
        if self.at(p, ',,'):
            def end(r, sq, pt, any):
                if self.at(r, ';;'):
                    return r + 2
                if self.at(r, ',,'):
                    return r
                q = r
                if self.at(q, '\\'):
                    q, a = self.atom(q + 1)
                    if a is None:
                        return None
                    q = self.gap(q)
                if self.at(q, ')') and pt == 0:
                    return r
            q, n = self.text(p + 2, end, 'text after ",,"', p)
            return q, ('text', n, p)
        return p, None

    def quote(self, p):
        s = self.s
        if self.python:
            m = PYSTR.match(s, p)
            if m:
                return m.end(), ('str', m.group(), p)
        else:
            m = STR.match(s, p) or CHR.match(s, p)
            if m:
                return m.end(), ('str', m.group(), p)
        k = 2 if self.at(p, '(`') else 7 if self.at(p, '($quote') else 0
        if k:
            q = self.skip(p + k, '(`' if k == 2 else '($quote', p)
            return q + 1, ('str', s[p + k:q], p)
        return p, None


def parse(s, python=False):
    return Reader(s.replace('\r\n', '\n').replace('\r', '\n'), python).text(0, None, 'text', 0)[1]


def line(s, p):
    return s.count('\n', 0, p) + 1
