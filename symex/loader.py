"""Load the stochopy package from /repo's current source, with chosen modules replaced."""
import builtins
import os
import sys
import types

REPO = os.environ.get("STOCHOPY_REPO", "/repo")
PKG = "stochopy"

_code = {}


def _find(name):
    """(path, is_package) of a module of the package, or None."""
    base = os.path.join(REPO, *name.split("."))
    if os.path.isfile(os.path.join(base, "__init__.py")):
        return os.path.join(base, "__init__.py"), True
    if os.path.isfile(base + ".py"):
        return base + ".py", False
    return None


def source_files():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, PKG)):
        out += [os.path.join(d, f) for f in fs if f.endswith(".py")]
    return sorted(out)


def code(path):
    c = _code.get(path)
    if c is None:
        with open(path, "rb") as f:
            c = _code[path] = compile(f.read(), path, "exec", dont_inherit=True)
    return c


class Loader:
    """A private copy of the package: its own module objects, its own view of the replaced modules."""

    def __init__(self, replaced, builtin_overrides=None):
        self.replaced = replaced  # name -> module-like object
        self.modules = {}
        b = dict(vars(builtins))
        b.update(builtin_overrides or {})
        b["__import__"] = self._import
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            parts = pkg.split(".")
            if level > 1:
                parts = parts[: -(level - 1)]
            if not parts or not parts[0]:
                raise ImportError("attempted relative import beyond top-level package")
            full = ".".join(parts) + ("." + name if name else "")
        else:
            full = name
        top = full.split(".")[0]
        if top == PKG:
            m = self.load(full)
            if not fromlist:
                return self.load(top) if not level else m
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and _find(full + "." + f):
                    self.load(full + "." + f)
            return m
        if top in self.replaced:
            m = self.replaced[top]
            if m is None:
                raise ImportError(f"No module named '{full}'")
            if fromlist:
                for p in full.split(".")[1:]:
                    m = getattr(m, p)
            return m
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.load(parent)
            m = self.modules.get(name)
            if m is not None:
                return m
        found = _find(name)
        if found is None:
            raise ModuleNotFoundError(f"No module named '{name}'")
        path, ispkg = found
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__builtins__ = self.builtins
        self.modules[name] = m
        try:
            exec(code(path), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if parent:
            setattr(self.modules[parent], leaf, m)
        return m
