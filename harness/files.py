"""What the file-based harnesses share: building and reading files, archives and directories in the
modelled file system (symbolic runs) or in a scratch directory (concrete runs)."""
import os

FAKES = ("re", "io", "pathlib", "shutil", "os", "yaml", "zipfile", "tarfile", "gzip", "random")


class Files:
    def __init__(self, h):
        self.h = h
        self.root = h.root()
        if not h.symbolic:
            # where "~" leads
            os.environ["HOME"] = str(self.path("home"))

    def path(self, *parts):
        """A path below the scratch directory."""
        if self.h.symbolic:
            from sx.symfs import FakePath

            return FakePath(self.root, *parts)
        from pathlib import Path

        return Path(self.root, *parts)

    def raw(self, text):
        """A path object for exactly this text."""
        if self.h.symbolic:
            from sx.symfs import FakePath

            return FakePath(text)
        from pathlib import Path

        return Path(text)

    def bytes_(self, b):
        """Bytes that compare with those of symbolic text."""
        if self.h.symbolic and type(b) is bytes:
            try:
                return self.h.s(b.decode("utf-8")).encode("utf-8")
            except UnicodeDecodeError:
                return b
        return b

    def write(self, path, data):
        path.parent.mkdir(parents=True, exist_ok=True)
        if self.h.symbolic:
            from sx import symio

            path.write_bytes(data if symio.is_byteslike(data) else symio.encode(data))
        else:
            path.write_bytes(data if isinstance(data, bytes) else data.encode("utf-8"))

    def link(self, path, target):
        """A symbolic link."""
        path.symlink_to(target)

    def read(self, path):
        """The bytes of a file."""
        return path.read_bytes()

    def make_zip(self, path, entries):
        path.parent.mkdir(parents=True, exist_ok=True)
        with self._zip()(path if self.h.symbolic else str(path), "w") as z:
            for n, d in entries:
                z.writestr(n, d)

    def _zip(self):
        if self.h.symbolic:
            from sx.symio import ZipFile
        else:
            from zipfile import ZipFile
        return ZipFile

    def read_zip(self, path):
        """[(name, bytes)] of a complete zip file; None if there is none."""
        if not path.exists():
            return None
        from zipfile import BadZipFile

        try:
            with self._zip()(path if self.h.symbolic else str(path), "r") as z:
                return [(i.filename, self.bytes_(z.read(i))) for i in z.infolist()]
        except BadZipFile:
            return None

    def make_tar(self, path, members, compressed=True):
        """members: (name, kind, bytes or target[, time]); kinds as in symio.TarMember."""
        path.parent.mkdir(parents=True, exist_ok=True)
        if self.h.symbolic:
            from sx import symfs, symio

            symfs.fs().create(path._abs()).data = symio.Tar(
                [symio.TarMember(*m) for m in members], compressed)
            return
        import io
        import tarfile

        with tarfile.open(str(path), "w:gz" if compressed else "w") as t:
            for name, kind, data, *mtime in members:
                i = tarfile.TarInfo(name)
                i.mtime = mtime[0] if mtime else 10 ** 9
                if kind in "oc":
                    i.type = {"o": tarfile.AREGTYPE, "c": tarfile.CONTTYPE}[kind]
                if kind not in "foc":
                    i.type = {"d": tarfile.DIRTYPE, "s": tarfile.SYMTYPE, "h": tarfile.LNKTYPE,
                              "p": tarfile.FIFOTYPE}[kind]
                    if kind in "sh":
                        i.linkname = data
                    t.addfile(i)
                else:
                    i.size = len(data)
                    t.addfile(i, io.BytesIO(data))

    def make_gz(self, path, *parts):
        if self.h.symbolic:
            from sx import symfs, symio

            symfs.fs().create(path._abs()).data = symio.Gz(*parts)
            return
        import gzip

        for data in parts:
            with gzip.open(str(path), "ab") as f:
                f.write(data)

    def tree(self, path=None):
        """Relative names (joined by /) of all files and directories below."""
        path = self.path() if path is None else path
        base = len(path.parts)
        return [p.parts[base:] for p in path.rglob("*")]


class another_process:
    """Sets iterate in an order that depends on the process: within, it is the opposite one."""

    def __init__(self, h):
        self.h = h

    def __enter__(self):
        import sys

        from sx import strs

        strs.SETS.reverse = True
        self.mods = []
        if not self.h.symbolic:
            for n, m in list(sys.modules.items()):
                if n == "vistautils" or n.startswith("vistautils."):
                    self.mods.append(m)
                    m.set, m.frozenset = strs.OtherSet, strs.OtherFrozenSet

    def __exit__(self, *a):
        from sx import strs

        strs.SETS.reverse = False
        for m in self.mods:
            del m.set, m.frozenset


class randomness:
    """Shuffling as an arbitrary permutation (see symio.Random), on both sides; ``free``: only so
    many numbers are drawn arbitrarily, the others are known."""

    def __init__(self, h, free=None):
        self.h, self.free, self.drawn = h, free, 0

    def pick(self, name, n):
        self.drawn += 1
        if self.free is not None and self.drawn > self.free:
            return (3 * self.drawn) % n
        return self.h.choose(name, n)

    def __enter__(self):
        from sx import symio

        symio.Random._shared = None
        symio.Random.calls = {}
        symio.Random.pick = staticmethod(self.pick)
        self.undo = []
        if not self.h.symbolic:
            import random

            for n in symio.SHARED:
                self.undo.append((n, getattr(random, n)))
                setattr(random, n, (lambda m: lambda *a, **k: getattr(symio.shared(), m)(*a, **k))(n))
            self.undo.append(("Random", random.Random))
            random.Random = symio.Random

    def __exit__(self, *a):
        import random

        for n, v in self.undo:
            setattr(random, n, v)


class output:
    """What the code under test prints."""

    def __init__(self, h):
        self.h = h

    def __enter__(self):
        if self.h.symbolic:
            from sx import symio

            del symio.OUT[:]
        else:
            import contextlib
            import io

            self.buf = io.StringIO()
            self.cm = contextlib.redirect_stdout(self.buf)
            self.cm.__enter__()
        return self

    def __exit__(self, *a):
        if self.h.symbolic:
            from sx import strs, symio

            self.text = strs.join(strs.HStr(""), list(symio.OUT))
        else:
            self.cm.__exit__(None, None, None)
            self.text = self.buf.getvalue()


def eq(a, b):
    """Equality of two byte or text values, missing values included."""
    if a is None or b is None:
        return a is None and b is None
    return a == b
