"""Source model: modules of the analysed package, parsed afresh on every run."""
import ast
import warnings
import os


class Module:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.frame = None          # evaluated lazily by the engine
        self.is_pkg = os.path.basename(path) == '__init__.py'


class Func:
    """A function of the analysed program (or of a reference definition)."""
    __slots__ = ('node', 'module', 'frame', 'cls', 'name', 'defaults', 'kwdefaults', 'is_static', 'is_prop')

    def __init__(self, node, module, frame=None, cls=None):
        self.node = node
        self.module = module
        self.frame = frame
        self.cls = cls
        self.name = getattr(node, 'name', '<lambda>')
        self.defaults = None
        self.kwdefaults = None
        deco = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in getattr(node, 'decorator_list', [])]
        self.is_static = 'staticmethod' in deco
        self.is_prop = 'property' in deco

    @property
    def where(self):
        return '%s:%d' % (self.module.path, getattr(self.node, 'lineno', 0))

    def qual(self):
        if self.cls is not None:
            return '%s.%s.%s' % (self.module.name, self.cls.name, self.name)
        return '%s.%s' % (self.module.name, self.name)


class Cls:
    def __init__(self, node, module, bases):
        self.node = node
        self.module = module
        self.name = node.name
        self.bases = bases
        self.attrs = {}

    def lookup(self, name):
        if name in self.attrs:
            return self.attrs[name]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None


class Repo:
    """Resolves dotted module names below the given roots: {package: directory}."""

    def __init__(self, roots):
        self.roots = roots
        self.modules = {}
        self.errors = []

    def find(self, name):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split('.')[1:])
        for cand in (base + '.py', os.path.join(base, '__init__.py')):
            if os.path.isfile(cand):
                return cand
        return None

    def is_ns(self, name):
        top = name.split('.')[0]
        if top not in self.roots:
            return False
        return os.path.isdir(os.path.join(self.roots[top], *name.split('.')[1:]))

    def get(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.find(name)
        mod = None
        if path:
            with open(path, encoding='utf8') as f:
                src = f.read()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tree = ast.parse(src, path)
                mod = Module(name, path, tree, src)
            except SyntaxError as e:
                self.errors.append((path, str(e)))
        self.modules[name] = mod
        return mod

    def all_modules(self, package):
        root = self.roots[package]
        out = []
        for d, dirs, files in os.walk(root):
            dirs.sort()
            dirs[:] = [x for x in dirs if x != '__pycache__']
            for f in sorted(files):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
                    name = package + '.' + rel
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    m = self.get(name)
                    if m:
                        out.append(m)
        return out
