"""An in-memory file system with symbolic names, and the part of pathlib / shutil / os / zipfile
that the code under test uses, modelled on top of it.  Reset at the start of each path."""
import os
import pathlib
import re
import shutil
import stat
import types

from . import core, strs
from .core import Unsupported


class Node:
    def __init__(self, parts, kind, data=None):
        self.parts, self.kind, self.data = parts, kind, data


class FS:
    def __init__(self):
        self.nodes = [Node((), "d")]
        self.links = False

    def link(self, parts, target):
        """A symbolic link with an absolute target (components)."""
        if self.find(parts) is not None:
            raise FileExistsError(17, "File exists")
        self.need_dir(parts[:-1])
        self.links = True
        self.nodes.append(Node(tuple(parts), "l", tuple(target)))

    def follow(self, parts, last=True, depth=0):
        """Where a path leads: parent references and links resolved as the kernel does, names
        that do not exist taken as they are."""
        if depth > 20:
            raise OSError(40, "Too many levels of symbolic links")
        out = ()
        for i, p in enumerate(parts):
            if len(p) == 2 and _same(p, ".."):
                out = out[:-1]
                continue
            out = out + (p,)
            if self.links and (last or i + 1 < len(parts)):
                n = self.find(out)
                if n is not None and n.kind == "l":
                    out = self.follow(n.data, True, depth + 1)
        return out

    def find(self, parts):
        for n in self.nodes:
            if len(n.parts) == len(parts) and all(
                _same(a, b) for a, b in zip(n.parts, parts)
            ):
                return n
        return None

    def under(self, parts):
        k = len(parts)
        return [
            n
            for n in self.nodes
            if len(n.parts) > k and all(_same(a, b) for a, b in zip(n.parts[:k], parts))
        ]

    def need_dir(self, parts):
        d = self.find(parts)
        if d is None:
            raise FileNotFoundError(2, "No such file or directory")
        if d.kind != "d":
            raise NotADirectoryError(20, "Not a directory")
        return d

    def mkdir(self, parts, parents, exist_ok):
        n = self.find(parts)
        if n is not None:
            if exist_ok and n.kind == "d":
                return
            raise FileExistsError(17, "File exists")
        if self.find(parts[:-1]) is None:
            if not parents:
                raise FileNotFoundError(2, "No such file or directory")
            self.mkdir(parts[:-1], True, True)
        self.need_dir(parts[:-1])
        self.nodes.append(Node(parts, "d"))

    def create(self, parts):
        n = self.find(parts)
        if n is None:
            self.need_dir(parts[:-1])
            n = Node(parts, "f")
            self.nodes.append(n)
        elif n.kind == "d":
            raise IsADirectoryError(21, "Is a directory")
        return n

    def remove(self, parts, kind=None):
        n = self.find(parts)
        if n is None:
            raise FileNotFoundError(2, "No such file or directory")
        if kind and n.kind != kind:
            raise PermissionError(1, "Operation not permitted")
        self.nodes = [m for m in self.nodes if m is not n]

    def rmtree(self, parts):
        self.need_dir(parts)
        # links below go, what they lead to stays
        gone = self.under(parts) + [self.find(parts)]
        self.nodes = [n for n in self.nodes if not any(n is g for g in gone)]


def _same(a, b):
    if type(a) is str and type(b) is str:
        return a == b
    return bool(strs.eq_expr(strs.chars_of(a), strs.chars_of(b)))


_FS = FS()
CWD = ("cwd",)  # the working directory
ENV = None  # environment variables (None: the real ones)


def reset():
    global _FS, CWD
    from . import symio

    CWD = ("cwd",)

    _FS = FS()
    symio.reset()


def as_path(x):
    return x if isinstance(x, FakePath) else FakePath(x)


def fs():
    return _FS


def _segments(x):
    """(absolute, parts) of a path-like value."""
    if isinstance(x, FakePath):
        return x.absolute_, x.parts_
    if isinstance(x, pathlib.PurePath):
        x = str(x)
    if not strs.is_strlike(x):
        raise TypeError("argument should be a str or an os.PathLike object, not %r" % type(x).__name__)
    if type(x) is strs.SymStr or type(x) is strs.HStr or isinstance(x, str):
        bits = strs.s_split(x, "/")
    else:
        raise Unsupported("path made of %s" % type(x).__name__)
    absolute = len(bits) > 1 and len(bits[0]) == 0
    out = []
    for b in bits:
        if len(b) == 0:
            continue
        if len(b) == 1 and _same(b, "."):
            continue
        out.append(b)
    return absolute, tuple(out)


def home():
    return strs.HStr(HOME)


HOME = "/sx/home"


def name_match(name, pattern):
    """fnmatch of one path component against one pattern component, case kept."""
    pattern = strs.concrete(pattern)
    if pattern == "*":
        return True
    import fnmatch

    from . import symre

    if not any(c in pattern for c in "*?["):
        return _same(name, pattern)
    return symre.module().fullmatch(fnmatch.translate(pattern), name) is not None


def _glob(base, ps):
    """The paths below ``base`` that match the pattern components (each once)."""
    if not ps:
        return [base]
    if ps[0] == "**":
        rest = ps[1:]
        tops = [base]
        for d in tops:
            if d.is_dir():
                tops.extend(q for q in d.iterdir() if q.is_dir() and not q.is_symlink())
        if not rest:
            return tops
        out = []
        for d in tops:
            for q in _glob(d, rest):
                if not any(bool(q == o) for o in out):
                    out.append(q)
        return out
    if not base.is_dir():
        return []
    out = []
    if not any(c in ps[0] for c in "*?["):
        q = base / ps[0]
        if q.exists():
            out = [q] if len(ps) == 1 else _glob(q, ps[1:])
        return out
    for q in base.iterdir():
        if name_match(q.name, ps[0]):
            out.extend([q] if len(ps) == 1 else _glob(q, ps[1:]))
    return out


class FakePath:
    def __init__(self, *segs):
        self.absolute_, self.parts_ = False, ()
        for s in segs:
            a, p = _segments(s)
            if a:
                self.absolute_, self.parts_ = True, p
            else:
                self.parts_ = self.parts_ + p

    @classmethod
    def _mk(cls, absolute, parts):
        r = cls()
        r.absolute_, r.parts_ = absolute, tuple(parts)
        return r

    def _abs(self, last=True):
        return _FS.follow(self.parts_ if self.absolute_ else CWD + self.parts_, last)

    def __truediv__(self, o):
        return FakePath(self, o)

    def __rtruediv__(self, o):
        return FakePath(o, self)

    def joinpath(self, *o):
        return FakePath(self, *o)

    @property
    def parts(self):
        return (("/",) if self.absolute_ else ()) + self.parts_

    @property
    def name(self):
        return self.parts_[-1] if self.parts_ else strs.HStr("")

    @property
    def suffix(self):
        n = self.name
        i = n.rfind(".") if hasattr(n, "rfind") else -1
        return n[i:] if 0 < i < len(n) - 1 else strs.HStr("")

    @property
    def stem(self):
        n = self.name
        i = n.rfind(".")
        return n[:i] if 0 < i < len(n) - 1 else n

    @property
    def parent(self):
        return FakePath._mk(self.absolute_, self.parts_[:-1])

    def _text(self):
        if not self.parts_:
            return strs.HStr("/" if self.absolute_ else ".")
        return strs.join(strs.HStr("/"), (("",) if self.absolute_ else ()) + self.parts_)

    __str__ = _text
    as_posix = _text

    def __fspath__(self):
        raise Unsupported("modelled path handed to C code")

    def __repr__(self):
        return "FakePath(%s)" % strs.raw(self._text())

    def __eq__(self, o):
        if not isinstance(o, FakePath):
            return NotImplemented
        if self.absolute_ != o.absolute_ or len(self.parts_) != len(o.parts_):
            return False
        return core.And(*[
            strs.eq_expr(strs.chars_of(a), strs.chars_of(b))
            for a, b in zip(self.parts_, o.parts_)
        ])

    def __hash__(self):
        return 0

    def __lt__(self, o):
        return self._text() < o._text()

    def absolute(self):
        return self if self.absolute_ else FakePath._mk(True, CWD + self.parts_)

    def resolve(self, strict=False):
        r = FakePath._mk(True, self._abs())
        if strict and not r.exists():
            raise FileNotFoundError(2, "No such file or directory")
        return r

    def expanduser(self):
        if self.absolute_ or not self.parts_ or not bool(self.parts_[0][:1] == "~"):
            return self
        if len(self.parts_[0]) > 1:
            raise Unsupported("home directory of another user")
        return FakePath(home(), *self.parts_[1:])

    @classmethod
    def home(cls):
        return FakePath(home())

    def relative_to(self, *other):
        o = FakePath(*other)
        n = len(o.parts_)
        if o.absolute_ != self.absolute_ or len(self.parts_) < n or not all(
            _same(a, b) for a, b in zip(self.parts_, o.parts_)
        ):
            raise ValueError("path is not in the subpath of the other path")
        return FakePath._mk(False, self.parts_[n:])

    def is_relative_to(self, *other):
        try:
            self.relative_to(*other)
            return True
        except ValueError:
            return False

    def match(self, pattern):
        a, ps = _segments(pattern)
        if a or not ps or len(ps) > len(self.parts_):
            if a and not self.absolute_ or not ps:
                return False
            if a or len(ps) > len(self.parts_):
                return False
        return all(name_match(n, p) for n, p in zip(self.parts_[-len(ps):], ps))

    @property
    def suffixes(self):
        n = self.name
        if bool(n.endswith(".")):
            return []
        bits = strs.s_split(n.lstrip("."), ".")
        return [strs.concat(strs.HStr("."), b) for b in bits[1:]]

    @property
    def anchor(self):
        return strs.HStr("/" if self.absolute_ else "")

    root = anchor

    def with_stem(self, stem):
        return self.with_name(strs.concat(stem, self.suffix))

    def samefile(self, other):
        a, b = self._abs(), as_path(other)._abs()
        if _FS.find(a) is None or _FS.find(b) is None:
            raise FileNotFoundError(2, "No such file or directory")
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))

    def readlink(self):
        n = _FS.find(self._abs(False))
        if n is None or n.kind != "l":
            raise OSError(22, "Invalid argument")
        return FakePath._mk(True, n.data)

    def is_mount(self):
        return False

    is_fifo = is_socket = is_block_device = is_char_device = is_mount

    def chmod(self, mode, **kw):
        if _FS.find(self._abs()) is None:
            raise FileNotFoundError(2, "No such file or directory")

    def is_absolute(self):
        return self.absolute_

    def exists(self):
        return _FS.find(self._abs()) is not None

    def is_file(self):
        n = _FS.find(self._abs())
        return n is not None and n.kind == "f"

    def is_dir(self):
        n = _FS.find(self._abs())
        return n is not None and n.kind == "d"

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        _FS.mkdir(self._abs(), parents, exist_ok)

    def touch(self, mode=0o666, exist_ok=True):
        n = _FS.find(self._abs())
        if n is not None:
            if not exist_ok:
                raise FileExistsError(17, "File exists")
            return
        _FS.create(self._abs()).data = b""

    def unlink(self, missing_ok=False):
        n = _FS.find(self._abs(False))
        if n is None and missing_ok:
            return
        if n is not None and n.kind == "d":
            raise IsADirectoryError(21, "Is a directory")
        _FS.remove(self._abs(False))

    def iterdir(self):
        me = self._abs()
        _FS.need_dir(me)
        for n in _FS.under(me):
            if len(n.parts) == len(me) + 1:
                yield FakePath._mk(self.absolute_, self.parts_ + n.parts[-1:])

    def rglob(self, pattern, **kw):
        return self.glob(FakePath("**", pattern))

    def glob(self, pattern, **kw):
        absolute, ps = _segments(pattern)
        if absolute:
            raise NotImplementedError("Non-relative patterns are unsupported")
        if not ps:
            raise ValueError("Unacceptable pattern")
        return iter(_glob(self, [p if type(p) is str else strs.concrete(p) for p in ps]))

    def walk(self, top_down=True, on_error=None, follow_symlinks=False):
        if _FS.links or not top_down:
            raise Unsupported("walking links")
        dirs, files = [], []
        for q in self.iterdir():
            (dirs if q.is_dir() else files).append(q)
        yield self, [q.name for q in dirs], [q.name for q in files]
        for q in dirs:
            yield from q.walk()

    def rmdir(self):
        me = self._abs(False)
        _FS.need_dir(me)
        if _FS.under(me):
            raise OSError(39, "Directory not empty")
        _FS.remove(me, "d")

    @property
    def parents(self):
        return tuple(
            FakePath._mk(self.absolute_, self.parts_[:i])
            for i in range(len(self.parts_) - 1, -1, -1)
        )

    def with_name(self, name):
        if not self.parts_:
            raise ValueError("path has an empty name")
        return FakePath._mk(self.absolute_, self.parts_[:-1] + (name,))

    def with_suffix(self, suffix):
        return self.with_name(self.stem + suffix)

    def is_symlink(self):
        n = _FS.find(self._abs(False))
        return n is not None and n.kind == "l"

    def symlink_to(self, target, target_is_directory=False):
        t = as_path(target)
        if not t.absolute_:
            t = self.parent / t
        _FS.link(self._abs(False), t.absolute().parts_)

    def rename(self, target):
        src, dst = self._abs(False), as_path(target)._abs(False)
        n = _FS.find(src)
        if n is None:
            raise FileNotFoundError(2, "No such file or directory")
        if n.kind == "d":
            raise Unsupported("renaming a directory")
        _FS.need_dir(dst[:-1])
        old = _FS.find(dst)
        if old is not None and old.kind == "d":
            raise IsADirectoryError(21, "Is a directory")
        _FS.nodes = [m for m in _FS.nodes if m is not n and m is not old]
        n.parts = dst
        _FS.nodes.append(n)
        return as_path(target)

    replace = rename

    def stat(self):
        n = _FS.find(self._abs())
        if n is None:
            raise FileNotFoundError(2, "No such file or directory")
        return Stat(n)

    def lstat(self):
        if self.is_symlink():
            return types.SimpleNamespace(st_mode=stat.S_IFLNK | 0o777, st_mtime=10 ** 9)
        return self.stat()

    def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        from . import symio

        return symio.open_path(self._abs(), mode, encoding, newline, errors)

    def write_text(self, s, encoding=None, errors=None, newline=None):
        if not strs.is_strlike(s):
            raise TypeError("data must be str, not %s" % type(s).__name__)
        with self.open("w", encoding=encoding, errors=errors, newline=newline) as f:
            return f.write(s)

    def read_text(self, encoding=None, errors=None, newline=None):
        with self.open("r", encoding=encoding, errors=errors, newline=newline) as f:
            return f.read()

    def write_bytes(self, b):
        with self.open("wb") as f:
            return f.write(b)

    def read_bytes(self):
        with self.open("rb") as f:
            return f.read()

    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(pathlib.Path, n):
            raise AttributeError(n)
        raise Unsupported("Path.%s" % n)

    @classmethod
    def cwd(cls):
        return FakePath._mk(True, CWD)


class _Mod(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


def _dirname(p):
    return FakePath._mk(p.absolute_, p.parts_[:-1])._text() if (
        p.absolute_ or len(p.parts_) > 1) else strs.HStr("")


def pathlib_module():
    return _Mod(pathlib, {"Path": FakePath, "PurePath": FakePath, "PosixPath": FakePath})


def shutil_module():
    def rmtree(p, ignore_errors=False, onerror=None):
        try:
            if FakePath(p).is_symlink():
                raise OSError("Cannot call rmtree on a symbolic link")
            _FS.rmtree(FakePath(p)._abs())
        except OSError:
            if not ignore_errors:
                raise

    def copyfileobj(src, dst, length=0):
        while True:
            buf = src.read(length or 65536)
            if len(buf) == 0:
                return
            dst.write(buf)

    def copyfile(a, b, **kw):
        a, b = as_path(a), as_path(b)
        if a.exists() and b.exists() and a.samefile(b):
            raise shutil.SameFileError("are the same file")
        data = _data(a)
        with b.open("wb"):
            pass
        _FS.find(b._abs()).data = data
        return b

    def copy(a, b, **kw):
        a, b = as_path(a), as_path(b)
        return copyfile(a, b / a.name if b.is_dir() else b)

    def move(a, b, **kw):
        a, b = as_path(a), as_path(b)
        if b.is_dir():
            b = b / a.name
            if b.exists():
                raise shutil.Error("Destination path already exists")
        return a.rename(b)

    return _Mod(shutil, {
        "rmtree": rmtree, "copyfileobj": copyfileobj, "copyfile": copyfile, "copy": copy,
        "copy2": copy, "move": move, "copytree": _none("shutil.copytree"),
        "unpack_archive": _none("shutil.unpack_archive"),
        "make_archive": _none("shutil.make_archive"), "which": _none("shutil.which"),
    })


def _none(what):
    def f(*a, **k):
        raise Unsupported("%s is not modelled" % what)

    return f


def _data(p):
    n = _FS.find(p._abs())
    if n is None:
        raise FileNotFoundError(2, "No such file or directory")
    if n.kind == "d":
        raise IsADirectoryError(21, "Is a directory")
    return n.data


class Stat:
    """What os.stat tells of a file; its size is only worked out when asked for."""

    def __init__(self, node):
        self.node = node
        self.st_mode = stat.S_IFREG | 0o644 if node.kind == "f" else stat.S_IFDIR | 0o755
        self.st_mtime = getattr(node, "mtime", 10 ** 9)

    @property
    def st_size(self):
        from . import symio

        return symio.blen(symio.node_bytes(self.node.data)) if self.node.kind == "f" else 4096


class DirEntry:
    def __init__(self, p):
        self._p, self.path, self.name = p, p._text(), p.name

    def is_file(self, follow_symlinks=True):
        return self._p.is_file() and (follow_symlinks or not self._p.is_symlink())

    def is_dir(self, follow_symlinks=True):
        return self._p.is_dir() and (follow_symlinks or not self._p.is_symlink())

    def is_symlink(self):
        return self._p.is_symlink()

    def stat(self, **kw):
        return self._p.stat()


class _Scan(list):
    def __iter__(self):
        return self

    def __next__(self):
        if not self:
            raise StopIteration
        return self.pop(0)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    close = __exit__


def _walk(top, topdown=True, onerror=None, followlinks=False):
    if not as_path(top).is_dir():
        return
    for p, d, f in as_path(top).walk(topdown):
        yield p._text(), d, f


def _normal(path):
    """Parent references removed without looking at the file system."""
    out = []
    for q in path.parts_:
        if len(q) == 2 and _same(q, "..") and (path.absolute_ or out):
            if out and not (len(out[-1]) == 2 and _same(out[-1], "..")):
                out.pop()
                continue
            if path.absolute_:
                continue
        out.append(q)
    return FakePath._mk(path.absolute_, out)


def _splitext(x):
    if isinstance(x, FakePath):
        x = x._text()
    if not strs.is_strlike(x):
        raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(x).__name__)
    x = strs.HStr(x) if type(x) is str else x
    start = x.rfind("/") + 1
    while start < len(x) and bool(x[start] == "."):
        start += 1
    dot = x.rfind(".")
    return (x[:dot], x[dot:]) if dot >= start and dot > 0 else (x, strs.HStr(""))


def _utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    n = _FS.find(as_path(path)._abs())
    if n is None:
        raise FileNotFoundError(2, "No such file or directory")
    n.mtime = 10 ** 9 if times is None and ns is None else times[1] if times else ns[1] // 10 ** 9


def _expandvars(text):
    from . import symre

    env = os.environ if ENV is None else ENV

    def value(m):
        name = m.group(1)
        if len(name) and bool(name[0] == "{"):
            name = name[1:-1]
        for k, v in env.items():
            if len(k) == len(name) and bool(name == k):
                return v
        return m.group(0)

    return symre.Pattern(r"\$(\w+|\{[^}]*\})", re.ASCII).sub(value, text)


def os_module():
    def p(x):
        return x if isinstance(x, FakePath) else FakePath(x)

    def _text_of(x):
        return x._text() if isinstance(x, FakePath) else x

    path = _Mod(os.path, {
        "exists": lambda x: p(x).exists(),
        "isfile": lambda x: p(x).is_file(),
        "isdir": lambda x: p(x).is_dir(),
        "join": lambda a, *b: str.__str__(a) if not b else FakePath(a, *b)._text(),
        "basename": lambda x: p(x).name,
        "dirname": lambda x: _dirname(p(x)),
        "isabs": lambda x: p(x).is_absolute(),
        "abspath": lambda x: _normal(p(x).absolute())._text(),
        "realpath": lambda x: p(x).resolve()._text(),
        "expanduser": lambda x: p(x).expanduser()._text() if len(_text_of(x)) else x,
        "relpath": _none("os.path.relpath"),
        "expandvars": lambda x: _expandvars(_text_of(x)),
        "samefile": lambda a, b: p(a).samefile(b),
        "commonpath": _none("os.path.commonpath"),
        "commonprefix": _none("os.path.commonprefix"),
        "getmtime": lambda x: p(x).stat().st_mtime,
        "getsize": lambda x: p(x).stat().st_size,
        "islink": lambda x: p(x).is_symlink(),
        "lexists": lambda x: p(x).is_symlink() or p(x).exists(),
        "normpath": lambda x: _normal(p(x))._text(),
        "split": lambda x: (_dirname(p(x)), p(x).name),
        "splitext": lambda x: _splitext(x),
    })
    class _OS(_Mod):
        @property
        def environ(self):
            return os.environ if ENV is None else ENV

    return _OS(os, {
        "path": path,
        "remove": lambda x: p(x).unlink(),
        "unlink": lambda x: p(x).unlink(),
        "mkdir": lambda x, mode=0: p(x).mkdir(),
        "makedirs": lambda x, mode=0, exist_ok=False: p(x).mkdir(parents=True, exist_ok=exist_ok),
        "fspath": lambda x: p(x)._text(),
        "listdir": lambda x: [q.name for q in p(x).iterdir()],
        "fsync": lambda *a: None,
        "rmdir": lambda x: p(x).rmdir(),
        "utime": _utime,
        "rename": lambda a, b: p(a).rename(p(b)) and None,
        "replace": lambda a, b: p(a).rename(p(b)) and None,
        "symlink": lambda a, b: p(b).symlink_to(p(a)),
        "walk": _walk,
        "scandir": lambda x=".": _Scan(DirEntry(q) for q in p(x).iterdir()),
        "stat": lambda x, **kw: p(x).stat(),
        "lstat": lambda x, **kw: p(x).lstat(),
        "open": _none("os.open"),
        "access": lambda x, mode=0, **kw: p(x).exists(),
        "chmod": lambda x, mode, **kw: p(x).chmod(mode),
        "removedirs": _none("os.removedirs"),
        "renames": _none("os.renames"),
        "link": _none("os.link"),
        "readlink": lambda x: p(x).readlink()._text(),
        "getcwd": lambda: FakePath._mk(True, CWD)._text(),
    })
