"""Whole-program model of the Python sources: modules, functions, classes, name resolution."""
import ast, os, hashlib


class FuncInfo(object):
    def __init__(self, key, node, mod, cls=None, closure=None):
        self.key, self.node, self.mod, self.cls, self.closure = key, node, mod, cls, closure
        self.name = getattr(node, "name", "<lambda>")
        self.decorators = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]

    @property
    def is_property(self):
        return "property" in self.decorators

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators


class ClassInfo(object):
    def __init__(self, key, node, mod):
        self.key, self.node, self.mod = key, node, mod
        self.methods, self.attrs = {}, {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                self.methods[st.name] = FuncInfo(key + "." + st.name, st, mod, cls=self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value


class Module(object):
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        self.funcs, self.classes = {}, {}
        for st in self.tree.body:
            self._collect(st)

    def _collect(self, st):
        if isinstance(st, ast.FunctionDef):
            self.funcs[st.name] = FuncInfo(self.name + "." + st.name, st, self)
        elif isinstance(st, ast.ClassDef):
            self.classes[st.name] = ClassInfo(self.name + "." + st.name, st, self)
        elif isinstance(st, (ast.If, ast.Try)):
            for s in ast.iter_child_nodes(st):
                if isinstance(s, ast.stmt):
                    self._collect(s)


_modules = {}


class Program(object):
    """Parses every Python 3 module below <root>/python (lazily usable as a name-resolution context)."""

    def __init__(self, root, subdirs=("python",), extra=(), overrides=None):
        self.root = root
        self.overrides = overrides or {}
        self.modules, self.unparsed = {}, []
        self.digest = hashlib.sha1()
        for sd in subdirs:
            base = os.path.join(root, sd)
            for dp, dn, fn in sorted(os.walk(base)):
                dn.sort()
                for f in sorted(fn):
                    if not f.endswith(".py"):
                        continue
                    path = os.path.join(dp, f)
                    rel = os.path.relpath(path, base)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith("__init__"):
                        name = name[:-9]
                    self.load(name, path)
        for name, path in extra:
            self.load(name, os.path.join(root, path))

    def load(self, name, path):
        if name in self.overrides:
            src = self.overrides[name].encode()
        else:
            with open(path, "rb") as f:
                src = f.read()
        self.digest.update(src)
        k = (name, path, src)
        try:
            if k not in _modules:
                if len(_modules) > 400:
                    _modules.clear()
                _modules[k] = Module(name, path, src)
            self.modules[name] = _modules[k]
        except SyntaxError as e:
            self.unparsed.append((path, str(e)))

    def func(self, key):
        """'virgo.mpi.util.group_index' or 'pkg.mod.Class.method' -> FuncInfo (None when absent)."""
        parts = key.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is not None:
                rest = parts[i:]
                if len(rest) == 1:
                    return m.funcs.get(rest[0])
                if len(rest) == 2 and rest[0] in m.classes:
                    return m.classes[rest[0]].methods.get(rest[1])
                return None
        return None

    def cls(self, key):
        mod, _, name = key.rpartition(".")
        m = self.modules.get(mod)
        return m.classes.get(name) if m else None
