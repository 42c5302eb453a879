"""Stand-ins for library modules at the boundary of the code under test (symbolic runs only).

Each is an executable model of the library's documented behaviour; concrete replays use the real
library, so a divergence shows up as an encoding mismatch, never as a reported violation.
"""
import types

from .core import Unsupported


class _Proxy(types.ModuleType):
    """A module that overrides some names of a real one."""

    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_sx_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_sx_real"], n)


def _plain_args(x):
    from . import strs

    if type(x) is strs.SymStr or type(x) is strs.HStr:
        return strs.concrete(x)
    if type(x) is strs.Encoded:
        return x.bytes_()
    if type(x) in (list, tuple, set, frozenset):
        return type(x)(_plain_args(e) for e in x)
    if type(x) is dict:
        return {_plain_args(k): _plain_args(v) for k, v in x.items()}
    return x


def _wrap_result(x):
    from . import strs

    if type(x) is str:
        return strs.HStr(x)
    if type(x) in (list, tuple):
        return type(x)(_wrap_result(e) for e in x)
    return x


class Concretizing(types.ModuleType):
    """A library module without a model: its functions see every possible value of a symbolic
    text, one path per value."""

    def __init__(self, real):
        super().__init__(real.__name__)
        self.__dict__["_sx_real"] = real

    def __getattr__(self, n):
        v = getattr(self.__dict__["_sx_real"], n)
        if isinstance(v, type) or not callable(v):
            return v

        def call(*a, **k):
            return _wrap_result(v(*_plain_args(a), **_plain_args(k)))

        return call


# modules of pure functions over texts and bytes
TEXTUAL = ("unicodedata", "html", "textwrap", "shlex", "fnmatch", "base64", "binascii", "hashlib",
           "zlib", "difflib", "posixpath", "ntpath", "codecs", "urllib.parse", "json", "locale")


def fake_io():
    from . import symio

    return symio.io_module()


def fake_re():
    from . import symre

    return symre.module()


def _fs(name):
    def make():
        from . import symfs

        return getattr(symfs, name + "_module")()

    return make


def fake_collections():
    import collections

    class deque(collections.deque):
        def __init__(self, it=(), maxlen=None):
            super().__init__(it, None if maxlen is None else maxlen.__index__())

    return _Proxy(collections, {"deque": deque})


class YamlText(str):
    """The text of a YAML document, kept as the data it stands for."""

    opaque_text = True

    def __new__(cls, data):
        r = str.__new__(cls, "<yaml>")
        r.data = data
        return r

    def __str__(self):
        return self

    def __bool__(self):
        return True

    def __hash__(self):
        return 11

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, YamlText):
            if not isinstance(o, str):
                return NotImplemented
            if not len(o):
                return False
            raise Unsupported("comparing the text of a YAML document")
        return _same_plain(self.data, o.data)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r


def _opaque(name):
    def method(self, *a, **k):
        raise Unsupported("str.%s of the text of a YAML document" % name)

    return method


for _n in dir(str):
    if _n in ("__len__", "__getitem__", "__contains__", "__iter__", "__add__", "__mul__",
              "__mod__", "__format__", "__lt__", "__le__", "__gt__", "__ge__") or not (
                  _n.startswith("_") or _n == "encode"):
        setattr(YamlText, _n, _opaque(_n))


def _same_plain(x, y):
    """Same text: the same data in the same order."""
    from collections.abc import Mapping

    if isinstance(x, Mapping) or isinstance(y, Mapping):
        return isinstance(x, Mapping) and isinstance(y, Mapping) and len(x) == len(y) and all(
            _same_plain(a, b) and _same_plain(v, w)
            for (a, v), (b, w) in zip(x.items(), y.items()))
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        return isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and (
            len(x) == len(y) and all(_same_plain(a, b) for a, b in zip(x, y)))
    if isinstance(x, str) != isinstance(y, str) or (x is None) != (y is None):
        return False
    return bool(x == y)


def _copy_plain(x):
    from collections.abc import Mapping

    if isinstance(x, Mapping):
        return {k: _copy_plain(v) for k, v in x.items()}
    if type(x) in (list, tuple):
        return [_copy_plain(v) for v in x]
    return x


def fake_yaml():
    """safe_load(dump(x)) is a fresh copy of x; the text itself is opaque."""
    import yaml

    def safe_load(text):
        from .symio import Stream, Yaml

        if isinstance(text, Stream):
            text = text.read()
        if type(text) is Yaml:
            text = text.s
        if isinstance(text, YamlText):
            return _copy_plain(text.data)
        from .strs import plain

        return yaml.safe_load(plain(text) if isinstance(text, str) else text)

    def dump(data, stream=None, **kw):
        t = YamlText(_copy_plain(data))
        if stream is None:
            return t
        stream.write(t)
        return None

    return _Proxy(yaml, {"safe_load": safe_load, "dump": dump, "safe_dump": dump})


def _sio(name):
    def make():
        from . import symio

        return getattr(symio, name + "_module")()

    return make


def fake_argparse():
    """The library's own source, instrumented like the code under test."""
    from . import loader, strs

    m = loader.instrumented("argparse")

    def plain(x):
        if isinstance(x, str) and type(x) is strs.HStr:
            return strs.plain(x)
        if type(x) in (list, tuple):
            return type(x)(plain(v) for v in x)
        return x

    def wrapped(x):
        if type(x) is str:
            return strs.HStr(x)
        if type(x) in (list, tuple):
            return type(x)(wrapped(v) for v in x)
        return x

    real = m.ArgumentParser

    class ArgumentParser(real):
        def __init__(self, *a, **k):
            real.__init__(self, *plain(a), **{n: plain(v) for n, v in k.items()})

        def add_argument(self, *a, **k):
            return real.add_argument(self, *plain(a), **{n: plain(v) for n, v in k.items()})

        def parse_args(self, args=None, namespace=None):
            import sys

            args = sys.argv[1:] if args is None else args
            ns = real.parse_args(self, plain(list(args)), namespace)
            for n, v in list(vars(ns).items()):
                setattr(ns, n, wrapped(v))
            return ns

    return _Proxy(m, {"ArgumentParser": ArgumentParser})


def fake_importlib():
    import importlib

    from . import strs

    return _Proxy(importlib, {"import_module": lambda name, package=None: importlib.import_module(
        strs.concrete(name), package)})


def fake_fnmatch():
    import fnmatch

    from . import symfs

    def matches(names, pat):
        return [n for n in names if symfs.name_match(n, pat)]

    return _Proxy(fnmatch, {"fnmatch": symfs.name_match, "fnmatchcase": symfs.name_match,
                            "filter": matches})


def fake_glob():
    import glob

    from . import strs, symfs

    def find(pattern, *, root_dir=None, recursive=False, **kw):
        pattern = strs.concrete(pattern)
        bits = [b for b in pattern.split("/") if b and b != "."]
        fixed = []
        while bits and not any(c in bits[0] for c in "*?["):
            fixed.append(bits.pop(0))
        base = symfs.FakePath(*(["/"] if pattern.startswith("/") else []), *fixed)
        if not bits:
            return [base._text()] if base.exists() else []
        if "**" in bits:
            raise strs.Unsupported("recursive glob")
        hidden = [b.startswith(".") for b in bits]
        k = len(base.parts_)
        return [
            q._text() for q in symfs._glob(base, bits)
            if all(h or not bool(n[:1] == ".") for h, n in zip(hidden, q.parts_[k:]))
        ]

    return _Proxy(glob, {"glob": find, "iglob": lambda *a, **k: iter(find(*a, **k))})


def fake_tempfile():
    import tempfile

    from . import symfs

    return _Proxy(tempfile, {
        n: symfs._none("tempfile." + n)
        for n in ("mkdtemp", "mkstemp", "NamedTemporaryFile", "TemporaryDirectory",
                  "TemporaryFile", "SpooledTemporaryFile", "gettempdir", "mktemp")
    })


TABLE = {
    "fnmatch": fake_fnmatch,
    "glob": fake_glob,
    "tempfile": fake_tempfile,
    "importlib": fake_importlib,
    "zipfile": _sio("zipfile"),
    "tarfile": _sio("tarfile"),
    "gzip": _sio("gzip"),
    "random": _sio("random"),
    "argparse": fake_argparse,
    "yaml": fake_yaml,
    "collections": fake_collections,
    "io": fake_io,
    "re": fake_re,
    "pathlib": _fs("pathlib"),
    "shutil": _fs("shutil"),
    "os": _fs("os"),
}


def install(names, loader):
    if "pathlib" in names:
        names = tuple(names) + ("fnmatch", "glob", "tempfile")
    for n in names:
        loader.FAKES[n] = TABLE[n]()
