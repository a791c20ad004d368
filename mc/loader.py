"""Fresh imports of modbus_tk (and of a few stdlib modules) with injected environment modules.

Every call of Loader.load() executes the package's *current source* again in new module objects, so no state
(hooks, locks, transaction counter, queues) survives from one execution to the next.  Modules named in `fakes` are
handed out instead of the real ones; `refresh` stdlib modules are executed again so that they see the fakes too.
Nothing is put in sys.modules.
"""
import builtins
import os
import sys
import types
import importlib.util

REPO = os.environ.get("MODBUS_TK_REPO", "/repo")
PKG = "modbus_tk"
REFRESH = ("queue", "socketserver", "selectors")

_code = {}


def _compile(path):
    if path not in _code:
        with open(path, "rb") as f:
            src = f.read()
        _code[path] = compile(src, path, "exec", dont_inherit=True)
    return _code[path]


def package_codes():
    """every code object (functions included) of the package compiled so far: {code: module name}"""
    out = []

    def walk(c):
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)
    for path, c in list(_code.items()):
        if path.startswith(os.path.join(REPO, PKG) + os.sep):
            walk(c)
    return out


def precompile():
    base = os.path.join(REPO, PKG)
    for fn in sorted(os.listdir(base)):
        if fn.endswith(".py"):
            try:
                _compile(os.path.join(base, fn))
            except SyntaxError:
                pass


class Loader(object):
    """one fresh instance of the package"""

    def __init__(self, fakes=None):
        self.fakes = dict(fakes or {})
        self.mods = {}
        self.std = {}
        self.bi = types.ModuleType("builtins")
        self.bi.__dict__.update(builtins.__dict__)
        self.bi.__dict__["__import__"] = self._import
        self.bi.__dict__["open"] = builtins.open

    def set_builtin(self, name, value):
        self.bi.__dict__[name] = value

    def load(self, name):
        """load a module of the package, by full dotted name"""
        if name in self.mods:
            return self.mods[name]
        parent, _, leaf = name.rpartition(".")
        if parent:
            pm = self.load(parent)
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base):
            path, is_pkg = os.path.join(base, "__init__.py"), True
        else:
            path, is_pkg = base + ".py", False
        if not os.path.exists(path):
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = self._exec(name, path, is_pkg, self.mods)
        if parent:
            setattr(pm, leaf, m)
        return m

    def _exec(self, name, path, is_pkg, registry):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rpartition(".")[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.bi.__dict__
        registry[name] = m
        try:
            exec(_compile(path), m.__dict__)
        except BaseException:
            registry.pop(name, None)
            raise
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or PKG
            parts = pkg.split(".")
            parts = parts[:len(parts) - (level - 1)]
            name = ".".join(parts + ([name] if name else []))
        top = name.split(".")[0]
        if top == PKG:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f == "*":
                        continue
                    if not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except ModuleNotFoundError as e:
                            if e.name != name + "." + f:
                                raise
                return m
            return self.load(PKG)
        if name in self.fakes:
            return self.fakes[name]
        if self.fakes and name in REFRESH:
            if name not in self.std:
                spec = importlib.util.find_spec(name)
                m = self._exec(name, spec.origin, False, self.std)
                if name == "socketserver":
                    m.BaseServer.handle_error = lambda self, request, address: None      # prints tracebacks
            return self.std[name]
        return builtins.__import__(name, globals, locals, fromlist, 0)


class Lib(object):
    """attribute access to the modules of one fresh instance: lib.modbus, lib.modbus_tcp, lib.defines ..."""

    def __init__(self, fakes=None):
        self._loader = Loader(fakes)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        m = self._loader.load(PKG + "." + name)
        setattr(self, name, m)
        return m

    @property
    def pkg(self):
        return self._loader.load(PKG)


def plain():
    """a fresh instance running on the real environment"""
    return Lib()
