"""Load the *current* source of the code under test, instrumented for symbolic execution.

Nothing about the code under test is stored here: each run re-reads ``$VERIF_REPO`` (default
/repo), parses it, and executes it with a builtins table in which the handful of built-ins that
would force a symbolic value into a C-level concrete one are replaced by proxies-aware versions.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import core
from .core import SymBase, SymBool, SymInt, SymReal, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "vistautils"

_real = builtins


def sx_len(x):
    if type(x).__name__ == "Rope":
        return x.length()
    f = type(x).__dict__.get("__len__")
    if f is None:
        for k in type(x).__mro__[1:]:
            f = k.__dict__.get("__len__")
            if f is not None:
                break
    if f is not None and hasattr(f, "__code__"):
        return f(x)
    return _real.len(x)


class SxRange:
    """range() whose bounds are symbolic; iteration compares lazily."""

    def __init__(self, a, b, step):
        self.start, self.stop, self.step = a, b, step
        if not isinstance(step, int) or step == 0:
            raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        i = self.start
        n = 0
        if self.step > 0:
            while i < self.stop:
                yield i
                i = i + self.step
                n += 1
                if n > 200:
                    raise core.OutOfBudget("symbolic range() too long")
        else:
            while i > self.stop:
                yield i
                i = i + self.step
                n += 1
                if n > 200:
                    raise core.OutOfBudget("symbolic range() too long")

    def __len__(self):
        return _real.sum(1 for _ in self)

    def __getitem__(self, i):
        return _real.list(self)[i]

    def __contains__(self, x):
        if self.step == 1:
            return _real.bool(core.And(self.start <= x, x < self.stop))
        return _real.any(x == y for y in self)

    def __reversed__(self):
        return _real.iter(_real.list(self)[::-1])


def sx_range(*args):
    if not any(isinstance(a, SymBase) for a in args):
        return _real.range(*args)
    if len(args) == 1:
        return SxRange(0, args[0], 1)
    if len(args) == 2:
        return SxRange(args[0], args[1], 1)
    return SxRange(*args)


def sx_round(x, nd=None):
    if isinstance(x, SymBase):
        if type(x) is SymInt:
            return x
        raise Unsupported("round() of a symbolic float")
    return _real.round(x) if nd is None else _real.round(x, nd)


HASH_UF = None


def enable_hash_uf():
    """Model ``hash`` of symbolic values as an uninterpreted function (hash-law harnesses)."""
    import z3

    global HASH_UF
    HASH_UF = z3.Function("hash", z3.IntSort(), z3.IntSort())


def sx_hash(x):
    import z3

    if HASH_UF is None:
        return _real.hash(x)
    if type(x) is SymInt:
        return SymInt(HASH_UF(x.z))
    if type(x) is int:
        return SymInt(HASH_UF(z3.IntVal(x)))
    f = type(x).__hash__
    if hasattr(f, "__code__"):
        return f(x)
    if type(x) is tuple:
        acc = core.SymInt(HASH_UF(z3.IntVal(len(x) + 7919)))
        for e in x:
            h = sx_hash(e)
            acc = SymInt(HASH_UF(core.zint(acc) * 1000003 + core.zint(h)))
        return acc
    if type(x) is frozenset:
        acc = 0
        for e in x:
            h = sx_hash(e)
            acc = acc + SymInt(HASH_UF(core.zint(h)))
        return acc
    return _real.hash(x)


def _plain_name(n):
    return _real.str.__str__(n) if _real.isinstance(n, str) and type(n) is not str else n


class _Vars(dict):
    """The attributes of an object, looked up by names however they are represented."""

    def __init__(self, d):
        super().__init__(d)
        self._of = d

    def __getitem__(self, n):
        return super().__getitem__(_plain_name(n))

    def __setitem__(self, n, v):
        super().__setitem__(_plain_name(n), v)
        self._of[_plain_name(n)] = v

    def __contains__(self, n):
        return super().__contains__(_plain_name(n))

    def get(self, n, default=None):
        return super().get(_plain_name(n), default)

    def pop(self, n, *default):
        self._of.pop(_plain_name(n), None)
        return super().pop(_plain_name(n), *default)


def sx_vars(*o):
    if not o:
        raise core.Unsupported("vars() of a function")
    d = _real.vars(*o)
    return _Vars(d) if STRING_MODE and type(d) is dict else d


def sx_getattr(o, n, *d):
    return _real.getattr(o, _plain_name(n), *d)


def sx_hasattr(o, n):
    return _real.hasattr(o, _plain_name(n))


def sx_setattr(o, n, v):
    return _real.setattr(o, _plain_name(n), v)


# names in this table replace built-ins inside the instrumented modules
OVERRIDES = {
    "len": sx_len,
    "range": sx_range,
    "hash": sx_hash,
    "round": sx_round,
    "getattr": sx_getattr,
    "vars": sx_vars,
    "hasattr": sx_hasattr,
    "setattr": sx_setattr,
}



def sx_open(p, *a, **k):
    if "pathlib" not in FAKES:
        return _real.open(p, *a, **k)
    from . import symio

    return symio.fake_open(p, *a, **k)


def sx_print(*a, **k):
    if "pathlib" not in FAKES:
        return _real.print(*a, **k)
    from . import symio

    return symio.fake_print(*a, **k)


def sx_eval(src, g=None, loc=None):
    from . import strs

    if not strs.is_strlike(src):
        return _real.eval(src, g, loc)
    if g is None:
        raise Unsupported("eval in the calling frame")
    return _real.eval(strs.concrete(src), {_plain_name(k): v for k, v in g.items()}, loc)


OVERRIDES["eval"] = sx_eval
OVERRIDES["open"] = sx_open
OVERRIDES["print"] = sx_print

# fake modules seen by instrumented code: {module name: module object}
FAKES = {}
# extra AST transformation for string-symbolic mode
STRING_MODE = False


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in FAKES:
        return FAKES[name]
    if level == 0 and "." in name and name.partition(".")[0] in FAKES:
        top, _, sub = name.partition(".")
        if not fromlist:  # "import os.path" binds the package
            _real.__import__(name, globals, locals, fromlist, level)
            return FAKES[top]
        if "." not in sub and sub in vars(FAKES[top]):
            return vars(FAKES[top])[sub]
    m = _real.__import__(name, globals, locals, fromlist, level)
    if STRING_MODE and level == 0:
        from . import fakes

        if name in fakes.TEXTUAL and ("." not in name or fromlist):
            return fakes.Concretizing(m)
    return m


def make_builtins():
    d = dict(vars(_real))
    d.update(OVERRIDES)
    d["__import__"] = sx_import
    return d


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, instrument):
        self.instrument = instrument
        self.files = {}

    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        for fn, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(fn):
                spec = importlib.machinery.ModuleSpec(
                    fullname, self, origin=fn, is_package=pkg
                )
                if pkg:
                    spec.submodule_search_locations = [os.path.dirname(fn)]
                spec.has_location = True
                return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn, encoding="utf-8") as f:
            src = f.read()
        self.files[module.__name__] = fn
        if not self.instrument:
            exec(compile(src, fn, "exec"), module.__dict__)
            return
        tree = ast.parse(src, fn)
        from . import transform

        tree = transform.transform(tree, STRING_MODE)
        module.__dict__["__builtins__"] = make_builtins()
        for k, v in transform.helpers().items():
            module.__dict__[k] = v
        exec(compile(tree, fn, "exec"), module.__dict__)
        _post_load(module)


def instrumented(name):
    """A private, instrumented copy of a pure Python library module."""
    import types

    from . import transform

    spec = importlib.util.find_spec(name)
    with _real.open(spec.origin, encoding="utf-8") as f:
        tree = transform.transform(ast.parse(f.read(), spec.origin), STRING_MODE, False)
    m = types.ModuleType(name)
    m.__file__ = spec.origin
    m.__dict__["__builtins__"] = make_builtins()
    for k, v in transform.helpers().items():
        m.__dict__[k] = v
    exec(compile(tree, spec.origin, "exec"), m.__dict__)
    return m


def _post_load(module):
    """``bool(x)`` of a class with a Python ``__len__`` must see the symbolic length."""
    for v in list(module.__dict__.values()):
        if isinstance(v, type) and v.__module__ == module.__name__:
            f = v.__dict__.get("__len__")
            if f is not None and hasattr(f, "__code__") and not _has_bool(v):
                try:
                    v.__bool__ = _len_bool
                except (TypeError, AttributeError):
                    pass


def _has_bool(v):
    return any("__bool__" in k.__dict__ for k in v.__mro__)


def _len_bool(self):
    n = type(self).__len__(self)
    return _real.bool(n != 0)


_installed = None


def install(instrument=True):
    global _installed
    if _installed is not None:
        return _installed
    for m in list(sys.modules):
        if m == PKG or m.startswith(PKG + "."):
            raise RuntimeError("code under test imported before the loader was installed")
    f = _Finder(instrument)
    sys.meta_path.insert(0, f)
    _installed = f
    sys.dont_write_bytecode = True
    return f
