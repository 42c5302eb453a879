"""Streams, archives, randomness and output, modelled over the in-memory file system (symbolic
runs only).  File contents are ``bytes`` or ``Encoded`` (the bytes of a symbolic text); archives are
kept as their entries.  What is written through a stream becomes visible when it is closed, flushed
or dropped, as with real buffered files."""
import gzip
import io
import os
import random
import tarfile
import types
import warnings
import zipfile

import z3

from . import core, strs
from .core import Unsupported

OUT = []  # text printed by the code under test on this path


def reset():
    del OUT[:]
    Random._shared = None
    Random.calls = {}


class Proxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_sx_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        v = getattr(self.__dict__["_sx_real"], n)
        if callable(v) and not isinstance(v, type) and not n.startswith("_"):
            raise Unsupported("%s.%s is not modelled" % (self.__name__, n))
        return v


class Yaml(strs.Encoded):
    """Bytes of a YAML document kept as its data."""


def is_byteslike(x):
    return type(x) is strs.Encoded or type(x) is Yaml or isinstance(x, (bytes, bytearray))


def encode(s, encoding="utf-8", errors=None):
    """The bytes of a string-like value."""
    if type(s).__name__ == "YamlText":
        return Yaml(s)
    return strs.encoded(s, encoding, errors or "strict")


def decode(b, encoding="utf-8", errors=None):
    if type(b) is Yaml:
        return b.s
    if type(b) is strs.Encoded:
        return b.decode(encoding or "utf-8", errors or "strict")
    return strs.HStr(bytes(b).decode(strs.plain(encoding or "utf-8"),
                                     strs.plain(errors or "strict")))


def bcat(parts):
    parts = [p for p in parts if not (isinstance(p, bytes) and type(p) is bytes and p == b"")]
    if not parts:
        return b""
    if len(parts) == 1:
        return parts[0]
    if all(type(p) is bytes for p in parts):
        return b"".join(parts)
    if any(type(p) is Yaml for p in parts):
        raise Unsupported("joining YAML documents")
    out, codecs = [], []
    for p in parts:
        if type(p) is bytes:
            try:
                p = strs.HStr(p.decode("utf-8"))
            except UnicodeDecodeError:
                return b"".join(p if type(p) is bytes else p.bytes_() for p in parts)
        else:
            codecs.append(p)
            p = p.s
        out.append(p)
    enc = codecs[0].encoding if codecs else "utf-8"
    if any(q.encoding != enc for q in codecs):
        if not all(q.is_ascii() for q in codecs):
            raise Unsupported("joining bytes of different codecs")
        enc = "utf-8"
    return strs.Encoded(strs.join(strs.HStr(""), out), enc)


def universal(s):
    """Universal-newline translation of text read from a file."""
    if type(s) is strs.HStr and "\r" not in strs.plain(s):
        return s
    cs = strs.chars_of(s)
    out, i, changed = [], 0, False
    while i < len(cs):
        if bool(strs.in_set(cs[i], (13,))):
            changed = True
            out.append(10)
            if i + 1 < len(cs) and bool(strs.in_set(cs[i + 1], (10,))):
                i += 1
        else:
            out.append(cs[i])
        i += 1
    return strs.mk(out) if changed else s


def blen(b):
    if type(b) is bytes:
        return len(b)
    return b.__len__()


def empty_bytes(b):
    if type(b) is bytes:
        return b == b""
    return len(strs.chars_of(b.s)) == 0


class _Unknown:
    """A count nobody can know; using it is not supported."""

    def _refuse(self, *_):
        raise Unsupported("the number of characters of a text kept as data")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _refuse
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _refuse
    __index__ = __int__ = __bool__ = __hash__ = __str__ = _refuse


def count(x):
    """What writing x returns: the number of its characters or bytes."""
    t = type(x)
    if getattr(t, "opaque_text", False):
        return _Unknown()
    if t is strs.SymStr or t is strs.HStr or issubclass(t, (str, bytes, bytearray)):
        return len(x)
    if t is not strs.Encoded:
        return 0
    if x.encoding != "utf-8" or type(x.s) is strs.HStr:
        return len(x)
    if type(x.s) is not strs.SymStr:
        return 0
    n, terms = 0, []
    for c in x.s.chars:
        if type(c) is int:
            n += len(chr(c).encode("utf-8"))
        else:
            terms.append(z3.If(c < 0x80, 1, z3.If(c < 0x800, 2, z3.If(c < 0x10000, 3, 4))))
    return core.SymInt(z3.Sum(terms) + n)


_END = 1 << 62  # a position behind everything


def _n(n):
    return -1 if n is None else n.__index__()


class Stream:
    """A text or binary stream; ``commit(content)`` receives what was written."""

    mode = "r"

    def __init__(self, content, text, readable, writable, commit=None, append=False,
                 newline_translate=False, encoding="utf-8", errors=None, newline="\n"):
        self._text, self._r, self._w = text, readable, writable
        self._commit, self._closed = commit, False
        self._nl = None if newline_translate else newline
        if self._nl not in (None, "", "\n", "\r", "\r\n"):
            raise ValueError("illegal newline value")
        self.encoding, self.errors = encoding, errors
        self._parts = [content] if content is not None and append else []
        self._dirty = False
        self._pos = 0
        self._data = None
        if readable and content is not None:
            if text:
                d = decode(content, encoding, errors) if is_byteslike(content) else content
                if self._nl is None and type(d).__name__ != "YamlText":
                    d = universal(d)
                self._data = d
            else:
                self._data = content

    # -- state
    @property
    def closed(self):
        return self._closed

    def _check(self, ok, what):
        if self._closed:
            raise ValueError("I/O operation on closed file.")
        if not ok:
            raise io.UnsupportedOperation(what)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        raise Unsupported("file descriptor of a modelled file")

    # -- reading
    def _slice(self, a, b):
        d = self._data
        if self._text:
            if type(d).__name__ == "YamlText":
                if a == 0 and b is None:
                    return d
                raise Unsupported("reading part of a YAML document")
            return d[a:b] if not (a == 0 and b is None) else d
        if a == 0 and b is None:
            return d
        d = self._bytewise()
        if type(d) is bytes:
            return d[a:b]
        return strs.Encoded(_ascii(d)[a:b])

    def _bytewise(self):
        """The data in a form in which offsets count bytes."""
        d = self._data
        if type(d) is strs.Encoded and not d.is_ascii():
            d = self._data = d.bytes_()
        return d

    def _size(self):
        d = self._data
        if self._text:
            if type(d).__name__ == "YamlText":
                return 1
            return len(d)
        d = self._bytewise()
        return 1 if type(d) is Yaml else len(d) if type(d) is bytes else len(_ascii(d))

    def read(self, n=-1):
        self._check(self._r, "not readable")
        n = _n(n)
        if n < 0 and self._pos == 0:
            self._pos = _END
            return self._slice(0, None)
        if n < 0:
            r = self._slice(self._pos, None) if self._pos < self._size() else self._nil()
            self._pos = max(self._pos, self._size())
            return r
        if n == 0 or self._pos == _END:
            return self._nil()
        r = self._slice(self._pos, self._pos + n) if self._pos < self._size() else self._nil()
        self._pos = min(self._size(), self._pos + n)
        return r

    read1 = read

    def _nil(self):
        return strs.HStr("") if self._text else b""

    def readline(self, limit=-1):
        self._check(self._r, "not readable")
        if self._pos == _END or self._pos >= self._size():
            return self._nil()
        if not self._text and type(self._bytewise()) is bytes:
            j = self._data.find(b"\n", self._pos) + 1 or len(self._data)
            if limit is not None and limit >= 0:
                j = min(j, self._pos + limit)
            r, self._pos = self._data[self._pos:j], j
            return r
        d = self._data if self._text else _ascii(self._data)
        if type(d).__name__ == "YamlText":
            raise Unsupported("lines of a YAML document")
        nl = strs.plain(self._nl or "\n") if self._text else "\n"
        if type(d) is strs.HStr and nl == "\n" and not (self._text and self._nl == ""):
            t = strs.plain(d)
            j = t.find("\n", self._pos) + 1 or len(t)
            if limit is not None and limit >= 0:
                j = min(j, self._pos + limit)
            r, self._pos = strs.HStr(t[self._pos:j]), j
            return r if self._text else strs.Encoded(r)
        cs = strs.chars_of(d)
        j = self._pos
        while j < len(cs):
            j += 1
            if self._text and self._nl == "":
                if bool(strs.in_set(cs[j - 1], (10,))):
                    break
                if bool(strs.in_set(cs[j - 1], (13,))):
                    if j < len(cs) and bool(strs.in_set(cs[j], (10,))):
                        j += 1
                    break
            elif j - self._pos >= len(nl) and all(
                bool(strs.in_set(c, (ord(k),))) for c, k in zip(cs[j - len(nl):j], nl)
            ):
                break
        if limit is not None and limit >= 0:
            j = min(j, self._pos + limit)
        r = strs.mk(cs[self._pos:j])
        self._pos = j
        return r if self._text else strs.Encoded(r)

    def __iter__(self):
        self._check(self._r, "not readable")
        return self

    def __next__(self):
        if self._closed:
            raise ValueError("I/O operation on closed file.")
        if self._pos == _END or self._pos >= self._size():
            raise StopIteration
        return self.readline()

    def readlines(self, hint=-1):
        return list(self)

    def seek(self, pos, whence=0):
        if self._w or not self._r:
            raise Unsupported("seek")
        if whence == 0 and pos == 0:
            self._pos = 0
        elif whence == 2 and pos == 0:
            self._pos = self._size()
        elif self._text:
            raise Unsupported("seek in a text")
        else:
            pos = pos.__index__() + (0 if whence == 0 else self._at() if whence == 1
                                     else self._size())
            if pos < 0:
                raise ValueError("negative seek position")
            self._pos = pos
        return self._pos

    def _at(self):
        return self._size() if self._pos == _END else self._pos

    def tell(self):
        if self._pos == 0 and not self._w:
            return 0
        if self._w or self._text:
            raise Unsupported("tell")
        return self._at()

    def readinto(self, b):
        raise Unsupported("readinto")

    def truncate(self, size=None):
        raise Unsupported("truncate")

    # -- writing
    def write(self, s):
        self._check(self._w, "not writable")
        if self._text:
            if not strs.is_strlike(s):
                raise TypeError("write() argument must be str, not %s" % type(s).__name__)
            b = self._encoded(s)
        else:
            if not is_byteslike(s):
                raise TypeError("a bytes-like object is required, not %r" % type(s).__name__)
            b = s
        self._parts.append(b)
        self._dirty = True
        return count(s)

    def _encoded(self, s):
        if self._nl in ("\r", "\r\n"):
            s = strs.s_replace(s, "\n", self._nl)
        enc = self.encoding
        if strs.codec(enc) == "utf-8-sig" and self._parts:
            enc = "utf-8"
        return encode(s, enc, self.errors)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def content(self):
        return bcat(self._parts)

    def flush(self):
        if self._w and self._commit and self._dirty:
            self._commit(self.content())
            self._dirty = False

    def close(self):
        if not self._closed:
            self.flush()
            self._closed = True

    def __enter__(self):
        if self._closed:
            raise ValueError("I/O operation on closed file.")
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            Stream.close(self)
        except BaseException:
            pass


def _ascii(b):
    """The text whose characters are the bytes of b."""
    if type(b) is bytes:
        return strs.HStr(b.decode("latin-1"))
    if type(b) is Yaml:
        raise Unsupported("part of a YAML document")
    for c in strs.chars_of(b.s):
        if not bool(strs.in_set(c, ((0, 127),))):
            raise Unsupported("offsets in non-ASCII bytes")
    return b.s


class StringIO(Stream):
    """io.StringIO: no newline translation; lines end at \\n."""

    def __init__(self, initial="", newline="\n"):
        if initial is not None and not strs.is_strlike(initial):
            raise TypeError("initial_value must be str or None, not %s" % type(initial).__name__)
        initial = strs.HStr("") if initial is None else initial
        if newline in ("\r", "\r\n"):
            initial = strs.s_replace(initial, "\n", newline)
        Stream.__init__(self, initial, True, True, True, newline=newline)
        self._special = None

    def write(self, s):
        self._check(True, "")
        if not strs.is_strlike(s):
            raise TypeError("string argument expected, got %r" % type(s).__name__)
        if self._nl is None:
            s = universal(s)
        elif self._nl in ("\r", "\r\n"):
            s = strs.s_replace(s, "\n", self._nl)
        d = self._data
        if strs.is_strlike(d) and type(d) is not strs.Rope and _blank(d):
            self._data = s
        elif type(s).__name__ == "YamlText" or type(d).__name__ == "YamlText":
            raise Unsupported("mixing a YAML document with text")
        elif self._pos == self._size_w():
            self._data = strs.concat(d, s)
        else:
            n = len(strs.chars_of(s))
            self._data = strs.join("", [d[: self._pos], s, d[self._pos + n:]])
        self._pos = self._size_w() if self._pos is None or True else self._pos
        return count(s)

    def _size_w(self):
        d = self._data
        if type(d) is strs.Rope:
            return -7
        if type(d).__name__ == "YamlText":
            return 1
        if type(d) is strs.OpaqueStr:
            return -7
        return len(strs.chars_of(d))

    def getvalue(self):
        self._check(True, "")
        return self._data

    def flush(self):
        pass

    def seek(self, pos, whence=0):
        if whence == 0 and pos == 0:
            self._pos = 0
        elif whence == 2 and pos == 0:
            self._pos = self._size_w()
        else:
            raise Unsupported("seek")
        return 0


def _blank(d):
    return type(d).__name__ != "YamlText" and type(d) is not strs.OpaqueStr and \
        len(strs.chars_of(d)) == 0


class BytesIO(Stream):
    def __init__(self, initial=b""):
        Stream.__init__(self, initial, False, True, True)

    def write(self, b):
        self._check(True, "")
        if not is_byteslike(b):
            raise TypeError("a bytes-like object is required, not %r" % type(b).__name__)
        if self._pos != self._size():
            raise Unsupported("overwriting a byte buffer")
        self._data = bcat([self._data, b])
        self._pos = self._size()
        return count(b)

    def _size(self):
        d = self._data
        return len(d)

    def read(self, n=-1):
        self._check(True, "")
        if _n(n) < 0 and self._pos == 0:
            self._pos = self._size()
            return self._data
        if self._pos >= self._size():
            return b""
        return Stream.read(self, n)

    def getvalue(self):
        self._check(True, "")
        return self._data

    def getbuffer(self):
        raise Unsupported("getbuffer")

    def flush(self):
        pass


class TextIOWrapper(Stream):
    def __init__(self, buffer, encoding=None, errors=None, newline=None, line_buffering=False,
                 write_through=False):
        self.buffer = buffer
        r = buffer.readable()
        Stream.__init__(self, None, True, r, not r or buffer.writable(), None, False,
                        False, encoding or "utf-8", errors, newline)
        self._loaded = not r

    def _load(self):
        if not self._loaded:
            d = decode(self.buffer.read(), self.encoding, self.errors)
            if self._nl is None and type(d).__name__ != "YamlText":
                d = universal(d)
            self._data, self._loaded = d, True

    def _size(self):
        self._load()
        return Stream._size(self)

    def read(self, n=-1):
        self._check(self._r, "not readable")
        self._load()
        return Stream.read(self, n)

    def readline(self, limit=-1):
        self._check(self._r, "not readable")
        self._load()
        return Stream.readline(self, limit)

    def write(self, s):
        self._check(self._w, "not writable")
        if not strs.is_strlike(s):
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        self.buffer.write(self._encoded(s))
        self._parts.append(b"")
        return count(s)

    def detach(self):
        raise Unsupported("detach")

    def flush(self):
        if not self._closed and self._w:
            self.buffer.flush()

    def close(self):
        if not self._closed:
            self._closed = True
            self.buffer.close()

    def __del__(self):
        try:
            self.close()
        except BaseException:
            pass


def io_module():
    return Proxy(io, {"StringIO": StringIO, "BytesIO": BytesIO, "TextIOWrapper": TextIOWrapper,
                      "open": fake_open})


# ------------------------------------------------------------------ opening files
def node_bytes(d):
    """What reading the file of a node as bytes gives."""
    if isinstance(d, Gz):
        return d.raw()
    if isinstance(d, (Zip, Tar)):
        raise Unsupported("raw bytes of an archive")
    return b"" if d is None else d


def open_path(parts, mode="r", encoding=None, newline=None, errors=None):
    from . import symfs

    fs = symfs.fs()
    mode = strs.plain(mode)
    text = "b" not in mode
    base = mode.replace("b", "").replace("t", "")
    enc = encoding or "utf-8"
    if base == "r":
        n = fs.find(parts)
        if n is None:
            raise FileNotFoundError(2, "No such file or directory")
        if n.kind == "d":
            raise IsADirectoryError(21, "Is a directory")
        return Stream(node_bytes(n.data), text, True, False, None, False, False, enc, errors,
                      newline if text else "\n")
    if base not in ("w", "a", "x"):
        raise Unsupported("file mode %s" % mode)
    if base == "x" and fs.find(parts) is not None:
        raise FileExistsError(17, "File exists")
    n = fs.create(parts)
    old = node_bytes(n.data) if base == "a" else b""
    n.data = old

    def commit(content):
        n.data = content

    return Stream(old, text, False, True, commit, base == "a" and not empty_bytes(old), False,
                  enc, errors, newline if text else "\n")


def fake_open(p, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True,
              opener=None):
    from . import symfs

    return symfs.as_path(p).open(mode, buffering, encoding, errors, newline)


def fake_print(*args, sep=" ", end="\n", file=None, flush=False):
    import sys

    if file is not None and file is not sys.stdout:
        if isinstance(file, Stream):
            file.write(strs.join(sep, [strs._conv(a, -1) for a in args]))
            file.write(strs.HStr(end))
        return
    OUT.append(strs.concat(strs.join(strs.HStr(sep), [strs._conv(a, -1) for a in args]),
                           strs.HStr(end)))


# ------------------------------------------------------------------ zip
class Zip:
    def __init__(self, entries, complete=True):
        self.entries, self.complete = entries, complete


class Info:
    def __init__(self, name, data):
        self.filename, self.data_ = name, data

    @property
    def file_size(self):
        return blen(self.data_)

    def is_dir(self):
        return self.filename.endswith("/")


def _names_eq(a, b):
    return bool(strs.eq_expr(strs.chars_of(a), strs.chars_of(b)))


class ZipFile:
    def __init__(self, file, mode="r", compression=0, allowZip64=True, compresslevel=None, *,
                 strict_timestamps=True, metadata_encoding=None):
        from . import symfs

        self.fp = None
        self._entries = []
        mode = strs.plain(mode)
        if mode not in ("r", "w", "x", "a"):
            raise ValueError("ZipFile requires mode 'r', 'w', 'x', or 'a'")
        fs = symfs.fs()
        parts = symfs.as_path(file)._abs()
        self.filename = file
        self.mode = mode
        n = fs.find(parts)
        self._dirty = mode != "r"
        if mode == "r":
            if n is None:
                raise FileNotFoundError(2, "No such file or directory")
            if n.kind == "d":
                raise IsADirectoryError(21, "Is a directory")
            if not isinstance(n.data, Zip) or not n.data.complete:
                raise zipfile.BadZipFile("File is not a zip file")
            self._entries = list(n.data.entries)
        else:
            if mode == "x" and n is not None:
                raise FileExistsError(17, "File exists")
            n = fs.create(parts)
            if mode == "a" and n.data is not None and not _zero(n.data):
                if isinstance(n.data, Zip):
                    self._entries = list(n.data.entries)
                    self._dirty = not n.data.complete
                else:
                    raise Unsupported("appending a zip archive to another file")
            else:
                n.data = Zip([], False)
        self._node = n
        self.fp = n
        self._writing = False

    # -- reading
    def _get(self, name):
        if isinstance(name, Info):
            return name
        if not strs.is_strlike(name):
            raise KeyError("There is no item named %r in the archive" % (name,))
        for i in reversed(self._entries):
            if _names_eq(i.filename, name):
                return i
        raise KeyError("There is no item named in the archive")

    getinfo = _get

    def namelist(self):
        return [i.filename for i in self._entries]

    def infolist(self):
        return list(self._entries)

    filelist = property(infolist)

    def open(self, name, mode="r", pwd=None, *, force_zip64=False):
        mode = strs.plain(mode)
        if mode not in ("r", "w"):
            raise ValueError('open() requires mode "r" or "w"')
        if self.fp is None:
            raise ValueError("Attempt to use ZIP archive that was already closed")
        if mode == "w":
            if self.mode == "r":
                raise ValueError("write() requires mode 'w', 'x', or 'a'")
            if self._writing:
                raise ValueError("Can't write to the ZIP file while there is another write "
                                 "handle open on it.")
            nm = name.filename if isinstance(name, Info) else name
            if not strs.is_strlike(nm):
                raise TypeError("name must be str")
            self._warn(nm)
            self._writing = True
            me = self

            class _W(Stream):
                def close(s):
                    if not s._closed:
                        s._closed = True
                        me._entries.append(Info(nm, s.content()))
                        me._dirty = True
                        me._writing = False

                def flush(s):
                    pass

                def __del__(s):
                    pass

            return _W(None, False, False, True)
        if self._writing:
            raise ValueError("Can't read from the ZIP file while there is an open writing handle "
                             "on it. Close the writing handle before trying to read.")
        return Stream(self._get(name).data_, False, True, False)

    def read(self, name, pwd=None):
        with self.open(name, "r", pwd) as f:
            return f.read()

    # -- writing
    def _warn(self, name):
        for i in self._entries:
            if _names_eq(i.filename, name):
                warnings.warn("Duplicate name", stacklevel=3)

    def writestr(self, zinfo_or_arcname, data, compress_type=None, compresslevel=None):
        name = zinfo_or_arcname
        if isinstance(name, Info):
            name = name.filename
        if not strs.is_strlike(name):
            raise TypeError("expected str as entry name")
        if strs.is_strlike(data):
            data = encode(data)
        elif not is_byteslike(data):
            raise TypeError("object of type %r has no len()" % type(data).__name__)
        if self.fp is None:
            raise ValueError("Attempt to write to ZIP archive that was already closed")
        with self.open(name, "w") as dest:
            dest.write(data)

    def write(self, filename, arcname=None, compress_type=None, compresslevel=None):
        from . import symfs

        p = symfs.as_path(filename)
        n = symfs.fs().find(p._abs())
        if n is None:
            raise FileNotFoundError(2, "No such file or directory")
        if self.fp is None:
            raise ValueError("Attempt to write to ZIP archive that was already closed")
        if getattr(n, "mtime", 10 ** 9) < 315532800:
            raise ValueError("ZIP does not support timestamps before 1980")
        nm = symfs.as_path(filename if arcname is None else arcname)
        nm = strs.join(strs.HStr("/"), nm.parts_)
        if n.kind == "d":
            self.writestr(nm + strs.HStr("/"), b"")
        else:
            self.writestr(nm, node_bytes(n.data))

    def close(self):
        if self.fp is None:
            return
        if self._writing:
            raise ValueError("Can't close the ZIP file while there is an open writing handle on "
                             "it. Close the writing handle before closing the zip.")
        if self.mode != "r" and (self._dirty or not isinstance(self._node.data, Zip)
                                 or not self._node.data.complete):
            self._node.data = Zip(list(self._entries))
        self.fp = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            if not self._writing:
                self.close()
        except BaseException:
            pass

    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(zipfile.ZipFile, n):
            raise AttributeError(n)
        raise Unsupported("ZipFile.%s" % n)


def _zero(d):
    if isinstance(d, Zip):
        return not d.complete
    return isinstance(d, bytes) and type(d) is bytes and d == b""


def zipfile_module():
    def is_zipfile(p):
        from . import symfs

        n = symfs.fs().find(symfs.as_path(p)._abs())
        return n is not None and isinstance(n.data, Zip) and n.data.complete

    return Proxy(zipfile, {"ZipFile": ZipFile, "is_zipfile": is_zipfile})


# ------------------------------------------------------------------ tar, gzip
class Gz:
    def __init__(self, *parts):
        """The contents of the members (almost always one)."""
        self.parts = parts
        self.content = bcat(parts)

    def raw(self):
        """The bytes of the file, forking over the content."""
        return b"".join(gzip.compress(p if type(p) is bytes else p.bytes_(), mtime=0)
                        for p in self.parts)


class Tar:
    def __init__(self, members, compressed):
        self.members, self.compressed = members, compressed


class TarMember:
    def __init__(self, name, kind, data=b"", mtime=10 ** 9):
        """kind: f(ile), d(irectory), s(ymbolic link), h(ard link), p(ipe), o(ld-style file),
        c(ontiguous file); data: the content of a file or the target of a link."""
        self.type = {"f": tarfile.REGTYPE, "o": tarfile.AREGTYPE, "c": tarfile.CONTTYPE,
                     "d": tarfile.DIRTYPE, "s": tarfile.SYMTYPE, "h": tarfile.LNKTYPE,
                     "p": tarfile.FIFOTYPE}[kind]
        kind = "f" if kind in "oc" else kind
        self.name, self.kind, self.data_ = name, kind, data
        self.path = name
        self.linkname = data if kind in "sh" else ""
        self.mtime = mtime

    def isfile(self):
        return self.kind == "f"

    isreg = isfile

    def isdir(self):
        return self.kind == "d"

    def issym(self):
        return self.kind == "s"

    def islnk(self):
        return self.kind == "h"

    def isfifo(self):
        return self.kind == "p"

    def isdev(self):
        return self.kind == "p"

    def ischr(self):
        return False

    isblk = ischr

    @property
    def size(self):
        return blen(self.data_) if self.kind == "f" else 0


class TarFile:
    def __init__(self, tar, name=None):
        self._tar, self.closed = tar, False
        self.name = name

    def _check(self):
        if self.closed:
            raise OSError("TarFile is closed")

    def __iter__(self):
        self._check()
        return iter(list(self._tar.members))

    def getmembers(self):
        self._check()
        return list(self._tar.members)

    def getnames(self):
        return [m.name for m in self.getmembers()]

    def getmember(self, name):
        self._check()
        for m in reversed(self._tar.members):
            if _names_eq(m.name, name):
                return m
        raise KeyError("filename not found")

    def extractfile(self, member):
        self._check()
        m = member if isinstance(member, TarMember) else self.getmember(member)
        if m.kind == "s":
            d = m.name.rpartition("/")[0]
            return self.extractfile(self.getmember(d + "/" + m.linkname if d else m.linkname))
        if m.kind == "h":
            return self.extractfile(self.getmember(m.linkname))
        if m.kind != "f":
            return None
        return Stream(m.data_, False, True, False)

    def extractall(self, path=".", members=None, *, numeric_owner=False, filter=None):
        from . import symfs

        self._check()
        for m in self._tar.members:
            p = symfs.FakePath(path, m.name)
            if m.kind == "d":
                p.mkdir(parents=True, exist_ok=True)
            else:
                src = m
                while src.kind == "h":
                    src = self.getmember(src.linkname)
                if src.kind != "f":
                    raise Unsupported("unpacking symbolic links and devices")
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_bytes(src.data_)
                symfs.fs().find(p._abs()).mtime = m.mtime

    def close(self):
        self.closed = True

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(tarfile.TarFile, n):
            raise AttributeError(n)
        raise Unsupported("TarFile.%s" % n)


def _tar_open(name=None, mode="r", fileobj=None, bufsize=0, **kw):
    from . import symfs

    mode = strs.plain(mode)
    if mode not in ("r", "r:*", "r:gz", "r|*", "r|gz", "r:"):
        raise Unsupported("tar mode %s" % mode)
    n = symfs.fs().find(symfs.as_path(name)._abs())
    if n is None:
        raise FileNotFoundError(2, "No such file or directory")
    if n.kind == "d":
        raise IsADirectoryError(21, "Is a directory")
    if not isinstance(n.data, Tar):
        raise tarfile.ReadError("file could not be opened successfully")
    if ("gz" in mode and not n.data.compressed) or (mode == "r:" and n.data.compressed):
        raise tarfile.ReadError("not a gzip file")
    return TarFile(n.data, name)


def tarfile_module():
    class _T(TarFile):
        open = staticmethod(_tar_open)

    return Proxy(tarfile, {"open": _tar_open, "TarFile": _T, "TarInfo": TarMember})


def _gz_open(filename, mode="rb", compresslevel=9, encoding=None, errors=None, newline=None):
    from . import symfs

    mode = strs.plain(mode)
    text = "t" in mode
    if not text and encoding is not None:
        raise ValueError("Argument 'encoding' not supported in binary mode")
    p = symfs.as_path(filename)._abs()
    base = mode.replace("b", "").replace("t", "")
    if base == "r":
        n = symfs.fs().find(p)
        if n is None:
            raise FileNotFoundError(2, "No such file or directory")
        if n.kind == "d":
            raise IsADirectoryError(21, "Is a directory")
        if not isinstance(n.data, Gz):
            raise gzip.BadGzipFile("Not a gzipped file")
        return Stream(n.data.content, text, True, False, None, False, False,
                      encoding or "utf-8", errors, newline if text else "\n")
    if base != "w":
        raise Unsupported("gzip mode %s" % mode)
    n = symfs.fs().create(p)
    n.data = b""
    return Stream(b"", text, False, True, lambda c: setattr(n, "data", Gz(c)), False, False,
                  encoding or "utf-8", errors, newline if text else "\n")


def _gz_file(filename=None, mode=None, compresslevel=9, fileobj=None, mtime=None):
    if fileobj is not None:
        raise Unsupported("compressed file within an open file")
    return _gz_open(filename, (mode or "rb").replace("b", "") + "b")


def gzip_module():
    return Proxy(gzip, {"open": _gz_open, "GzipFile": _gz_file})


# ------------------------------------------------------------------ randomness
class Random:
    """Shuffling as an arbitrary permutation that depends on the seed and the calls made so far.

    Used on both sides: concrete replays install it with the permutation of the counterexample.
    ``pick(name, n)`` yields a number below n.
    """

    pick = None  # set by the harness
    calls = {}
    _shared = None

    def __init__(self, x=None):
        self.seed(x)

    def seed(self, a=None, version=2):
        if type(self).__name__ != "Random":
            raise Unsupported("subclass of Random")
        self._n = 0
        if a is None:
            k = Random.calls.get("fresh", 0)
            Random.calls["fresh"] = k + 1
            self._seed = ("fresh", k)
        else:
            # seeds are the same stream when they are equal
            for s in Random.calls.setdefault("seeds", []):
                if bool(s == a):
                    a = s
                    break
            else:
                Random.calls["seeds"].append(a)
            self._seed = ("seed", [i for i, s in enumerate(Random.calls["seeds"]) if s is a][0])

    def _draw(self, n):
        key = (self._seed, self._n, n)
        self._n += 1
        memo = Random.calls.setdefault("memo", {})
        if key not in memo:
            memo[key] = Random.pick("random%s%d.%d.%d" % (key[0][0][0], key[0][1], key[1], n), n)
        return memo[key]

    def shuffle(self, x):
        for i in reversed(range(1, len(x))):
            j = self._draw(i + 1)
            x[i], x[j] = x[j], x[i]

    def randrange(self, a, b=None):
        return self._draw(a) if b is None else a + self._draw(b - a)

    _randbelow = _draw

    def randint(self, a, b):
        return a + self._draw(b - a + 1)

    def choice(self, seq):
        return seq[self._draw(len(seq))]

    def sample(self, population, k):
        if not 0 <= k <= len(population):
            raise ValueError("Sample larger than population or is negative")
        x = list(population)
        self.shuffle(x)
        return x[:k]


def shared():
    if Random._shared is None:
        Random._shared = Random()
    return Random._shared


SHARED = ("seed", "shuffle", "randrange", "randint", "choice", "sample")


def random_module():
    d = {"Random": Random}
    for n in SHARED:
        d[n] = (lambda m: lambda *a, **k: getattr(shared(), m)(*a, **k))(n)
    return Proxy(random, d)
