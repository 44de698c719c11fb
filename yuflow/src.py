"""Source loading: the modules of the package, parsed; class hierarchy; name resolution helpers."""
import ast, os, hashlib

REPO = os.environ.get('YUFLOW_REPO', '/repo')

MODULES = {                     # module name -> file (relative to the repository)
    'yupp': '__init__.py',
    'yupp.__main__': '__main__.py',
    'yupp.pp': 'pp/__init__.py',
    'yupp.pp.__main__': 'pp/__main__.py',
    'yupp.pp.yup': 'pp/yup.py',
    'yupp.pp.yugen': 'pp/yugen.py',
    'yupp.pp.yuconfig': 'pp/yuconfig.py',
    'yupp.pp.yulic': 'pp/yulic.py',
    'yupp.pylib': 'pylib/__init__.py',
    'yupp.pylib.yutraceback': 'pylib/yutraceback.py',
    'yupp.pylib.yutraceback3': 'pylib/yutraceback3.py',
}
OPTIONAL = {'plugin': 'sublime_text/Data/Packages/yupp/yupp.py'}


class AnalysisError(Exception):
    """An anchor vanished or the source has a form the analysis cannot read: an error exit, not a verdict."""


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        full = os.path.join(REPO, path)
        if not os.path.isfile(full):
            raise AnalysisError('file %s is missing' % path)
        with open(full, encoding='utf8', newline='') as f:
            self.text = f.read()
        try:
            self.tree = ast.parse(self.text, path)
        except SyntaxError as e:
            raise AnalysisError('%s does not parse: %s' % (path, e))
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
            n._mod = self
        self.tree._parent = None
        self.package = name if path.endswith('__init__.py') else name.rpartition('.')[0]
        self.functions = {}      # qualname -> def node
        self.classes = {}        # name -> ClassDef
        self._collect(self.tree.body, '')

    def _collect(self, body, prefix):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + n.name
                n._qual = q
                n._modname = self.name
                self.functions[q] = n          # the last definition wins, as at run time
                self._collect(n.body, q + '.')
            elif isinstance(n, ast.ClassDef):
                n._qual = prefix + n.name
                if not prefix:
                    self.classes[n.name] = n
                self._collect(n.body, prefix + n.name + '.')
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    self._collect(getattr(n, f, []) or [], prefix)
                for h in getattr(n, 'handlers', []) or []:
                    self._collect(h.body, prefix)


class Repo:
    _cache = None

    def __init__(self):
        table = dict(MODULES)
        for pkg, d in (('yupp', ''), ('yupp.pp', 'pp'), ('yupp.pylib', 'pylib')):   # modules added later
            for f in sorted(os.listdir(os.path.join(REPO, d))):
                if f.endswith('.py') and not f.startswith(('test_', '__')) and f != 'yutraceback2.py':
                    table.setdefault(pkg + '.' + f[:-3], os.path.join(d, f))
        self.mods = {k: Module(k, v) for k, v in table.items()}
        for k, v in OPTIONAL.items():
            if os.path.isfile(os.path.join(REPO, v)):
                self.mods[k] = Module(k, v)
        self.consulted = set()

    @classmethod
    def get(cls):
        if cls._cache is None:
            cls._cache = cls()
        return cls._cache

    def mod(self, short):
        for k in ('yupp.pp.' + short, 'yupp.' + short, short):
            if k in self.mods:
                return self.mods[k]
        raise AnalysisError('module %s not found' % short)

    def func(self, short, qual):
        m = self.mod(short)
        if qual not in m.functions:
            raise AnalysisError('function %s of %s not found (anchor vanished)' % (qual, m.path))
        return m.functions[qual]

    def text(self, rel):
        full = os.path.join(REPO, rel)
        if not os.path.isfile(full):
            raise AnalysisError('file %s is missing' % rel)
        with open(full, encoding='utf8') as f:
            return f.read()

    def digest(self):
        h = hashlib.sha256()
        for k in sorted(self.mods):
            h.update(k.encode()); h.update(self.mods[k].text.encode('utf8'))
        return h.hexdigest()[:16]


def where(node):
    m = getattr(node, '_mod', None)
    return '%s:%d' % (m.path if m else '?', getattr(node, 'lineno', 0))


def enclosing(node, kinds=(ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
    n = getattr(node, '_parent', None)
    while n is not None and not isinstance(n, kinds):
        n = getattr(n, '_parent', None)
    return n


def qual_of(node):
    f = node if isinstance(node, (ast.FunctionDef,)) else enclosing(node, (ast.FunctionDef,))
    return f._qual if f is not None and hasattr(f, '_qual') else '<module>'


def unparse(n, limit=100):
    try:
        s = ast.unparse(n)
    except Exception:
        s = '<%s>' % type(n).__name__
    return s if len(s) <= limit else s[:limit - 3] + '...'
