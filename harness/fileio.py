"""Character and byte sources and sinks; the conversion scripts."""
from sx.core import And, Not, Or
from sx.run import Harness, Prop

from harness.files import FAKES, Files, eq, output
from harness.stores import MODEL, NAMES, binary, known, stale


def H_(name, fn, shapes, **k):
    return Harness(name, fn, shapes, strings=True, fakes=FAKES + ("argparse",), **k)


ALPHA = "a\n\u00e9\0"
# line separators that are not line ends, blanks, characters of every UTF-8 length
WIDE = "a\n \x0c\u2028\ufeff\U0001f600"


# ------------------------------------------------------------------ C35
def lines_of(h, t):
    """Spec side: the lines of a text without their endings."""
    out, cur = [], h.s("")
    for c in t:
        if bool(c == "\n"):
            out.append(cur)
            cur = h.s("")
        else:
            cur = cur + c
    if len(cur):
        out.append(cur)
    return out


def check_chars(h, src, t, label):
    """A character source provides exactly t, however it is asked and as often as it is asked."""
    h.check(eq(src.read_all(), t), label + ": read_all")
    h.check(bool(src.is_empty()) == (len(t) == 0), label + ": is_empty")
    got = src.readlines()
    want = lines_of(h, t)
    h.check(type(got) is list and len(got) == len(want), label + ": number of lines")
    for a, b in zip(got, want):
        h.check(eq(a, b), label + ": line")
    with src.open() as f:
        acc = h.s("")
        for _ in range(len(t) + 1):
            c = f.read(1)
            h.check(len(c) <= 1, label + ": read(1)")
            acc = acc + c
        h.check(eq(acc, t), label + ": incremental read")
        h.check(len(f.read()) == 0, label + ": end")
    with src.open() as f:
        raw = list(f)
        h.check(len(raw) == len(want), label + ": lines of the stream")
        h.check(eq(h.s("").join(raw), t), label + ": lines with endings")
    # abandoning a read has no effect on the next one
    with src.open() as f:
        f.read(1)
    h.check(eq(src.read_all(), t), label + ": read_all again")


KINDS = ["string", "nowhere", "path", "pathstr", "bytes", "gz", "tgz", "zip", "openzip"]


def c35_char_sources(h, shape):
    """The same text through every kind of character source."""
    from vistautils.io_utils import ByteSource, CharSource

    f = Files(h)
    kind = KINDS[shape["kind"]]
    enc = ["utf-8", "latin-1"][shape.get("enc", 0)]
    k = {"encoding": enc} if shape.get("enc") else {}
    alphabet = WIDE if shape.get("wide") else ALPHA
    if shape.get("enc"):
        # Latin-1 text whose bytes are UTF-8 text, too
        alphabet = "a\n\u00c3\u00a9"
    elif kind == "string":
        # nothing is translated
        alphabet += "\r"
    t = h.str("t", shape["n"], alphabet, 0)
    b = t.encode(enc)
    # what a file is does not depend on its name
    p = f.path("in", h.choice("name", ["x", "x.gz", "x.zip", "x.tgz", "x.txt", ".x"])
               if shape.get("named") else "x")
    if kind == "string":
        src = CharSource.from_string(t)
    elif kind == "nowhere":
        h.assume(len(t) == 0)
        src = CharSource.from_nowhere()
    elif kind in ("path", "pathstr"):
        f.write(p, t)
        src = CharSource.from_file(p if kind == "path" else h.s(str(p)))
    elif kind == "bytes":
        f.write(p, b)
        src = CharSource.from_byte_source(ByteSource.from_file(p), **k)
    elif kind == "gz":
        p.parent.mkdir(parents=True)
        # as one member, or as two which were compressed separately
        cut = h.choose("cut", shape["n"] + 1) if shape.get("members") else 0
        h.assume(cut <= len(t))
        f.make_gz(p, *([t[:cut].encode(enc), t[cut:].encode(enc)] if shape.get("members") else [b]))
        src = CharSource.from_gzipped_file(p, **k)
    elif kind == "tgz":
        link = shape.get("link", 0) and h.choose("link", 3)
        f.make_tar(p, [("d", "d", b""), ("d/o", "f", h.s("o").encode("utf-8")),
                       ("d/y" if link else "d/x", "f", b),
                       ("x", "f", h.s("top").encode("utf-8"))] +
                   ([("d/x", "h", "d/y")] if link == 1 else [("d/x", "s", "y")] if link else []))
        src = CharSource.from_file_in_tgz(p, h.s("d/x"), **k)
    else:
        f.make_zip(p, [("o", h.s("o").encode("utf-8")), ("d/x", b),
                       ("x", h.s("top").encode("utf-8"))])
        if kind == "zip":
            src = CharSource.from_file_in_zip(p, h.s("d/x"))
        else:
            from zipfile import ZipFile

            with f._zip()(p if h.symbolic else str(p), "r") as z:
                src = CharSource.from_file_in_zip(z, h.s("d/x"))
                check_chars(h, src, t, kind)
                h.check(eq(z.read("o"), h.s("o").encode("utf-8")), "archive still open")
            return
    check_chars(h, src, t, kind)
    h.cover(kind)
    h.observe("n", len(t))


SIZES = [(1024, "\u00e9"), (4096, "b\n"), (8192, "\u00e9"), (8192, "b"), (65536, "\u00e9"), (65536, "b")]


def long_text(h, sizes):
    """A long text around a size at which buffers end: a symbolic character, many known ones, and
    symbolic characters again; of either length or offset around the boundary."""
    size, fill = h.choice("size", sizes)
    head = h.str("head", 1, ALPHA, 1)
    tail = h.str("tail", 2, "b\n", 0)
    return head + h.s(fill * ((size - 2) // len(fill.encode("utf-8")))) + tail


def c35_long_chars(h, shape):
    """Long texts: nothing depends on what fits a buffer."""
    from vistautils.io_utils import ByteSource, CharSink, CharSource, file_lines_to_set

    f = Files(h)
    kind = KINDS[shape["kind"]]
    t = long_text(h, SIZES)
    b = t.encode("utf-8")
    p = f.path("in", "x")
    n = t.count("\n") + (0 if bool(t[-1] == "\n") else 1)
    if kind == "string":
        src = CharSource.from_string(t)
    elif kind == "path":
        f.write(p, t)
        src = CharSource.from_file(p)
        got = file_lines_to_set(p)
        h.check(all(len(x) for x in got), "no blank line")
    elif kind == "bytes":
        f.write(p, b)
        src = CharSource.from_byte_source(ByteSource.from_file(p))
        h.check(eq(ByteSource.from_file(p).read(), b), "bytes")
    elif kind == "gz":
        p.parent.mkdir(parents=True)
        f.make_gz(p, b)
        src = CharSource.from_gzipped_file(p)
    elif kind == "tgz":
        f.make_tar(p, [("o", "f", h.s("o").encode("utf-8")), ("d/x", "f", b)])
        src = CharSource.from_file_in_tgz(p, h.s("d/x"))
    else:
        f.make_zip(p, [("o", h.s("o").encode("utf-8")), ("d/x", b)])
        src = CharSource.from_file_in_zip(p, h.s("d/x"))
        h.check(eq(ByteSource.from_file_in_zip(p, "d/x").read(), b), "bytes")
    h.check(eq(src.read_all(), t), "read_all")
    h.check(not src.is_empty(), "is_empty")
    got = src.readlines()
    h.check(len(got) == n, "number of lines", "%d for %d" % (len(got), n))
    end = h.s("" if n == t.count("\n") + 1 else "\n")
    h.check(eq(h.s("\n").join(got) + end, t), "lines")
    cut = 8191
    with src.open() as s:
        x = s.read(cut)
        y = s.read()
        h.check(eq(x + y, t) and len(x) == min(cut, len(t)), "incremental read")
    h.cover(kind)


def c35_long_sinks(h, shape):
    """Long texts and bytes written at once or in parts are there as they are."""
    from vistautils.io_utils import ByteSink, ByteSource, CharSink

    f = Files(h)
    kind = shape["kind"]
    t = long_text(h, SIZES)
    as_bytes = kind >= 3
    p = f.path("new", "x")
    sink = (
        lambda: CharSink.to_file(p), CharSink.to_string,
        lambda: CharSink.to_nowhere(), lambda: ByteSink.to_file(p), ByteSink.to_buffer,
        lambda: ByteSink.file_in_zip(p, h.s("x")))[kind]()
    if kind == 5:
        p.parent.mkdir(parents=True)
    data = t.encode("utf-8") if as_bytes else t
    if h.choose("parts", 2):
        cut = h.choice("cut", (1, 8192))
        with sink.open() as s:
            s.write(data[:cut])
            s.write(data[cut:])
    else:
        sink.write(data)
    if kind == 1:
        h.check(eq(sink.last_string_written, t), "last string")
    elif kind == 4:
        h.check(eq(sink.last_bytes_written, data), "last bytes")
    elif kind == 5:
        h.check(eq(ByteSource.from_file_in_zip(p, "x").read(), data), "entry")
    elif kind != 2:
        h.check(eq(f.read(p), t.encode("utf-8")), "file content")


def c35_missing(h, shape):
    """Sources of missing files and entries refuse, and never yield text."""
    from vistautils.io_utils import ByteSource, CharSource

    f = Files(h)
    name = h.str("name", 2, "aA-", 1)
    other = h.str("other", 2, "aA-", 1)
    t = h.str("t", 1, ALPHA, 0)
    b = t.encode("utf-8")
    there = len(name) == len(other) and bool(name == other)
    kind = h.choose("kind", 5)
    p = f.path("x")
    if kind == 0:
        f.write(f.path("in", name), b)
        src = CharSource.from_file(f.path("in", other))
    elif kind == 1:
        f.make_zip(p, [(name, b)])
        src = CharSource.from_file_in_zip(p, other)
    elif kind == 2:
        f.make_tar(p, [(name, "f", b)])
        src = CharSource.from_file_in_tgz(p, other)
    elif kind == 3:
        f.make_zip(p, [(name, b)])
        src = ByteSource.from_file_in_zip(p, other)
    else:
        f.write(f.path("in", name), b)
        src = ByteSource.from_file(f.path("in", other))
    read = src.read if kind >= 3 else src.read_all
    r, e = h.attempt(read)
    if there:
        h.check(e is None, "present: read", repr(e))
        h.check(eq(r, b if kind >= 3 else t), "present: content")
        h.cover("present")
    else:
        h.check(isinstance(e, (OSError, KeyError)), "absent: refused", repr(e))
        if kind < 3:
            _, e = h.attempt(src.is_empty)
            h.check(e is not None, "absent: is_empty refused")
            _, e = h.attempt(src.readlines)
            h.check(e is not None, "absent: readlines refused")
        h.cover("absent")


def c35_undecodable(h, shape):
    """Bytes which are no text of the encoding are refused, never silently changed."""
    from vistautils.io_utils import ByteSource, CharSource, file_lines_to_set

    f = Files(h)
    kind = KINDS[shape["kind"]]
    t = h.str("t", shape["n"], "a\n\xff", 1)
    b = t.encode("latin-1")
    p = f.path("in", "x")
    p.parent.mkdir(parents=True)
    if kind in ("path", "bytes"):
        f.write(p, b)
        src = CharSource.from_file(p) if kind == "path" else CharSource.from_byte_source(
            ByteSource.from_file(p))
    elif kind == "gz":
        f.make_gz(p, b)
        src = CharSource.from_gzipped_file(p)
    elif kind == "tgz":
        f.make_tar(p, [("x", "f", b)])
        src = CharSource.from_file_in_tgz(p, h.s("x"))
    else:
        f.make_zip(p, [("x", b)])
        src = CharSource.from_file_in_zip(p, h.s("x"))
    readers = [src.read_all, src.readlines, lambda: src.open().read()]
    if kind == "path":
        readers.append(lambda: file_lines_to_set(p))
    r, e = h.attempt(readers[h.choose("reader", len(readers))])
    if "\xff" in t:
        h.check(isinstance(e, UnicodeDecodeError), "refused", repr(e) if e else "read %r" % (r,))
        h.cover("undecodable")
    else:
        h.check(e is None, "read", repr(e))


def c35_byte_sources(h, shape):
    """Byte sources provide exactly the bytes of the file or entry."""
    from vistautils.io_utils import ByteSource

    f = Files(h)
    t = h.str("t", shape["n"], ALPHA + "\r", 0)
    b = binary(t)
    p = f.path("in", "x")

    def check(src, label):
        h.check(eq(src.read(), b), label + ": read")
        n = h.choose("n", 4)
        whole = b if h.symbolic else bytes(b)
        h.check(eq(src.read(n), whole[:n]), label + ": read at most")
        with src.open() as s:
            x, y = s.read(n), s.read()
            h.check(eq(x, whole[:n]) and eq(y, whole[n:]), label + ": incremental read")
        h.check(eq(src.read(size=-1), b), label + ": read again")

    kind = shape["kind"]
    if kind == 0:
        f.write(p, b)
        src = ByteSource.from_file(p)
        h.check(bool(src.is_empty()) == (len(t) == 0), "is_empty")
        check(src, "file")
    else:
        f.make_zip(p, [("o", h.s("o").encode("utf-8")), ("d/x", b)])
        if kind == 1:
            check(ByteSource.from_file_in_zip(p, h.s("d/x")), "zip")
        else:
            with f._zip()(p if h.symbolic else str(p), "r") as z:
                check(ByteSource.from_file_in_zip(z, h.s("d/x")), "open zip")


def ops(h, n, sizes, as_bytes):
    """A history of writes: [("write", [data]) or ("open", [data, ...])]."""
    out = []
    for i in range(n):
        if h.choose("op%d" % i, 2):
            k = h.choose("op%d.n" % i, 3)
            out.append(("open", [h.str("d%d.%d" % (i, j), sizes, ALPHA, 0) for j in range(k)]))
        else:
            out.append(("write", [h.str("d%d" % i, sizes, ALPHA, 0)]))
    if as_bytes:
        return [(o, [binary(x) for x in d], h.s("").join(d)) for o, d in out]
    return [(o, d, h.s("").join(d)) for o, d in out]


def run_op(sink, op, data):
    if op == "write":
        sink.write(data[0])
    else:
        with sink.open() as s:
            for x in data:
                s.write(x)


def c35_sinks(h, shape):
    """Each write replaces what was there; what is written through one stream is joined."""
    from vistautils.io_utils import ByteSink, CharSink

    f = Files(h)
    kind = shape["kind"]
    as_bytes = kind >= 4
    p = f.path("new", "deep", "x")
    if h.choose("exists", 2) and kind not in (2, 3, 5):
        f.write(p, h.s("old content"))
    sink = (
        lambda: CharSink.to_file(p), lambda: CharSink.to_file(h.s(str(p))),
        CharSink.to_string, CharSink.to_nowhere,
        lambda: ByteSink.to_file(p), ByteSink.to_buffer)[kind]()
    if kind in (2, 5):
        h.check((sink.last_string_written if kind == 2 else sink.last_bytes_written) is None,
                "nothing written yet")
    for op, data, want in ops(h, shape["ops"], shape["n"], as_bytes):
        _, e = h.attempt(run_op, sink, op, data)
        h.check(e is None, "write accepted", repr(e))
        if as_bytes:
            want = binary(want)
        if kind == 2:
            h.check(eq(sink.last_string_written, want), "last string")
        elif kind == 5:
            h.check(eq(sink.last_bytes_written, want), "last bytes")
        elif kind != 3:
            got = f.read(p)
            h.check(eq(got, want if as_bytes else want.encode("utf-8")), "file content")
    if kind == 3:
        h.check(len(f.tree()) == 0, "nothing written")


def c35_zip_sink(h, shape):
    """A sink for an entry of a zip file: the entry reads back, the other entries stay."""
    from vistautils.io_utils import ByteSink, ByteSource

    f = Files(h)
    p = f.path("x.zip")
    store = []
    if h.choose("exists", 2):
        v = binary(h.str("v", 1, ALPHA, 0))
        f.make_zip(p, [("a", v)])
        store.append((h.s("a"), v))
    for i in range(shape["writes"]):
        k = h.str("k%d" % i, 1, "abA", 1)
        sink = ByteSink.file_in_zip(p, k)
        if h.choose("s%d" % i, 2):
            d = [h.str("d%d.%d" % (i, j), 1, ALPHA, 0) for j in range(2)]
            with sink.open() as s:
                for x in d:
                    s.write(binary(x))
            v = binary(h.s("").join(d))
        else:
            v = binary(h.str("w%d" % i, shape["n"], ALPHA, 0))
            sink.write(v)
        # what is written again replaces what was there
        store = [(q, w) for q, w in store if not bool(q == k)] + [(k, v)]
        for q, w in store:
            h.check(eq(ByteSource.from_file_in_zip(p, q).read(), w), "entry")
        got = f.read_zip(p)
        h.check(got is not None and len(got) >= len(store), "entries")


def c35_empty_dir(h, shape):
    """is_empty_directory: exactly the directories without content."""
    from vistautils.io_utils import is_empty_directory

    f = Files(h)
    d = f.path("d")
    state = h.choose("state", 5)
    if state == 1:
        f.write(d, h.s("x"))
    elif state >= 2:
        d.mkdir()
    if state == 3:
        f.write(f.path("d", h.str("n", 1, "aA.-", 1) + "x"), h.s(""))
    if state == 4:
        f.path("d", h.str("n", 1, "aA.-", 1) + "x").mkdir()
    h.check(bool(is_empty_directory(d)) == (state == 2), "is_empty_directory", str(state))


def c35_lines_set(h, shape):
    """The set of the lines of a file: its non-blank lines, in order of first appearance."""
    from vistautils.io_utils import file_lines_to_set

    f = Files(h)
    t = h.str("t", shape["n"], "aA \n\u2028\ufeff", 0)
    p = f.path("x")
    f.write(p, t)
    want = []
    for x in lines_of(h, t):
        # whether lines of white space are blank is left open
        h.assume(Or(len(x) == 0, *[c != "\u2028" for c in x]))
    for x in lines_of(h, t):
        if len(x) and not any(len(x) == len(y) and bool(x == y) for y in want):
            want.append(x)
    got = list(file_lines_to_set(p))
    h.check(len(got) == len(want), "number of lines")
    for a, b in zip(got, want):
        h.check(eq(a, b), "line")


def _c35_char(tier):
    q = tier == "quick"
    out = []
    for k in range(len(KINDS)):
        out.append({"kind": k, "n": 0 if k == 1 else 3 if q else 5})
        if k != 1:
            out.append({"kind": k, "n": 3 if q else 4, "wide": 1})
    out += [{"kind": k, "n": 3 if q else 4, "enc": 1} for k in (4, 5, 6)]
    out.append({"kind": 6, "n": 2 if q else 3, "link": 1})
    out += [{"kind": k, "n": 1, "named": 1} for k in range(2, len(KINDS))]
    out.append({"kind": 5, "n": 2 if q else 3, "members": 1})
    return out


# ------------------------------------------------------------------ scripts
class command_line:
    """Run a script's main function in a scratch working directory."""

    def __init__(self, h, f, args):
        self.h, self.f, self.args = h, f, args

    def __enter__(self):
        import os
        import sys

        self.argv, sys.argv = sys.argv, [self.h.s("prog")] + list(self.args)
        self.stderr, sys.stderr = sys.stderr, None
        if self.h.symbolic:
            self.cwd = self.f.raw("/cwd")
            if not self.cwd.exists():
                self.cwd.mkdir()
        else:
            self.old = os.getcwd()
            self.cwd = self.f.path("cwd")
            self.cwd.mkdir(exist_ok=True)
            os.chdir(str(self.cwd))
        return self

    def __exit__(self, *a):
        import os
        import sys

        sys.argv, sys.stderr = self.argv, self.stderr
        if not self.h.symbolic:
            os.chdir(self.old)


EXTENSIONS = [".tar", ".tgz", ".tar.gz", "", ".gz", ".tar.tgz", ".tgz.tar", ".tar.tar.gz"]
STEMS = ["a.tar.b", "x.tgz.y", "A.TAR", "a.tar.gz.", "tar", " .tar "]
CUTOFFS = {"0": 0, "0.5e-9": 0, "1e-9": 1, "1.5e-9": 1, "2e-9": 2}


def c36_tar(h, shape):
    """The zip file holds exactly the regular files of the archive, in order, under their names."""
    from vistautils.scripts.tar_gz_to_zip import main

    f = Files(h)
    ext = EXTENSIONS[h.choose("ext", len(EXTENSIONS))] if shape.get("exts") else ".tgz"
    gz = h.choose("gz", 2) if shape.get("exts") else 1
    stem = STEMS[h.choose("stem", len(STEMS))] if shape.get("stems") else "a.b"
    tar = f.path("in", stem + ext)
    members, files = [], []
    for i in range(shape["n"]):
        name = h.str("name%d" % i, shape.get("klen", 1), shape.get("kab", "ab"), 1)
        h.assume(Not(Or(*[name == d for d in (".", "..") if len(name) == len(d)])))
        if i < len(shape["kinds"]) and shape["kinds"][i] == "r":
            # a newer version of a file of the archive
            name = files[-1][0]
        else:
            for q, *_ in members:
                h.assume(Not(q == name) if len(q) == len(name) else True)
        if i < len(shape["kinds"]) and shape["kinds"][i] == "d":
            members.append((name, "d", b""))
            d = name
            if shape.get("inside"):
                name = name + "/" + h.str("in%d" % i, 1, "aA", 1)
            else:
                continue
        if files and i < len(shape["kinds"]) and shape["kinds"][i] == "h":
            # another name for a file of the archive
            members.append((name, "h", files[0][0]))
            continue
        data = binary(h.str("data%d" % i, shape.get("vlen", 1), "x\r\u00e9", 0))
        time = [10 ** 9, 0][h.choose("time%d" % i, 2) if shape.get("times") else 0]
        kind = shape["kinds"][i] if i < len(shape["kinds"]) and shape["kinds"][i] in "oc" else "f"
        members.append((name, kind, data, time))
        files.append((name, data))
    for k, v in known(h, shape.get("fixed", 0)):
        members.append((k, "f", binary(v), 10 ** 9))
        files.append((k, binary(v)))
    f.make_tar(tar, members, bool(gz))
    kept = ext
    for known_ext in (".tar", ".tgz", ".tar.gz"):
        if ext.endswith(known_ext):
            kept = ext[:-len(known_ext)]
    out = f.path("in", stem + kept + ".zip")
    if shape.get("old") and h.choose("old", 2):
        f.make_zip(out, [("old", h.s("z").encode("utf-8"))])
    args = [h.s(str(tar))]
    stream = not h.choose("dont_stream", 2)
    if not stream:
        args.append(h.s("--dont-stream"))
    if shape.get("omit"):
        omit = h.choose("omit", 2)
        cut = sorted(CUTOFFS)[h.choose("cut", len(CUTOFFS))]
        if omit:
            args.append(h.s("--omit-large-files"))
        args += [h.s("--large-file-cutoff"), h.s(cut)]
        if omit:
            files = [(n, d) for n, d in files if len(d) <= CUTOFFS[cut]]
            h.cover("omitting")
    elif shape.get("omit_default") and h.choose("omit", 2):
        args.append(h.s("--omit-large-files"))
    k = h.choose("order", 2) if shape.get("omit") else 0
    if k:
        args = args[1:] + args[:1]
    with output(h), command_line(h, f, args) as line:
        _, e = h.attempt(main)
        h.check(e is None, "converted", repr(e))
        left = [p for p in line.cwd.rglob("*") if p.is_file()]
        h.check(not left, "no unpacked files left")
    got = f.read_zip(out)
    h.check(got is not None, "zip file made")
    if "r" in shape["kinds"]:
        # the last ones are those found by name
        h.check(len(newest(got)) == len(newest(files)), "number of names")
        for n, d in newest(files):
            h.check(any(eq(n, m) and eq(d, e) for m, e in newest(got)), "newest version")
        h.cover("repeated")
    else:
        h.check(len(got) == len(files), "number of entries", "%d for %d" % (len(got), len(files)))
        for (a, x), (b, y) in zip(got, files):
            h.check(eq(a, b), "entry name")
            h.check(eq(x, y), "entry content")
    h.check(len(list(tar.parent.iterdir())) == 2, "one new file, the archive stays")
    h.cover("stream" if stream else "unpack")


def newest(entries):
    """The last entry of each name."""
    out = []
    for i, (n, d) in enumerate(entries):
        if not any(eq(n, m) for m, _ in entries[i + 1:]):
            out.append((n, d))
    return out


def c37_offsets(h, shape):
    """What is printed for offsets inside the text is exactly the text between them."""
    from vistautils.scripts.text_at_offsets import main

    f = Files(h)
    t = h.str("t", shape["n"], shape.get("ab", "a\n\r\ufeff\U0001f600"), 0)
    p = f.path("x")
    a, b = h.int("a", -shape["n"] - 2, shape["n"] + 2), h.int("b", -shape["n"] - 2, shape["n"] + 2)
    a, b = at(h, a), at(h, b)
    if shape.get("long"):
        # the symbolic characters behind many known ones
        n, fill = h.choice("long", SIZES[:1] + SIZES[-2:])
        more = h.s(fill * (n // len(fill.encode("utf-8"))))
        b += len(more)
        a += len(more) if h.choose("far", 2) else 0
        t = more + t
    f.write(p, t)
    out = output(h)
    with out, command_line(h, f, [h.s(str(p)), h.s(str(a)), h.s(str(b))]):
        _, e = h.attempt(main)
    h.check(e is None, "runs", repr(e))
    if 0 <= a < b <= len(t):
        h.check(eq(out.text, t[a:b] + "\n"), "the text between the offsets")
        h.cover("inside")
    else:
        for word, bad in (("nclusive start", not 0 <= a < len(t)), ("xclusive end", not a < b <= len(t))):
            h.check((word in out.text) == bad, "the offset out of bounds reported, and no other")
        h.cover("outside")


def at(h, n):
    """The value of a symbolic number on this path."""
    if h.symbolic:
        from sx import core

        return core.concretize(n.z)
    return n


def c38_directory(h, shape):
    """One entry per file of the directory, with its bytes; clashing keys are refused."""
    from vistautils.key_value import KeyValueSource
    from vistautils.parameters import Parameters
    from vistautils.scripts.directory_to_key_value_store import main

    f = Files(h)
    d = f.path("in")
    d.mkdir()
    files = [(k + ".x", binary(v)) for k, v in known(h, shape.get("fixed", 0))]
    for name, data in files:
        f.write(f.path("in", name), data)
    for i in range(shape["n"]):
        name = h.str("name%d" % i, shape["nlen"], shape.get("ab", "ab.~"), 1)
        h.assume(And(name[-1] != ".", Not(And(len(name) == 1, name[0] == "."))))
        for q, _ in files:
            h.assume(Not(q == name) if len(q) == len(name) else True)
        data = binary(h.str("data%d" % i, shape.get("vlen", 1), "x\r\n\u00e9", 0))
        if i == 0 and h.choose("linked", 2):
            # a symbolic link to a file is one of the files
            f.write(f.path("elsewhere"), data)
            f.link(f.path("in", name), f.path("elsewhere"))
        else:
            f.write(f.path("in", name), data)
        files.append((name, data))
    fun = h.choose("fun", 3)
    params = [(h.s("input_directory"), h.s(str(d)))]
    if fun:
        params.append((h.s("key_function"), h.s(["identity", "strip_one_extension"][fun - 1])))
    zipped = h.choose("zip", 2)
    params.append((h.s("output"), {h.s("type"): h.s("zip" if zipped else "directory"),
                                   h.s("path"): h.s(str(f.path("out")))}))
    want, clash = [], False
    for name, data in files:
        key = name
        if fun == 2:
            i = name.rfind(".")
            if bool(i > 0):
                key = name[:at(h, i) if type(i) is not int else i]
        if not zipped:
            # no such file names
            h.assume(Or(*[c != "." for c in key]))
        if any(len(k) == len(key) and bool(k == key) for k, _ in want):
            clash = True
        want.append((key, data))
    if not zipped:
        f.path("out").mkdir()
    elif h.choose("stale", 2):
        stale(h, f, f.path("out"))
    _, e = h.attempt(main, Parameters.from_mapping(dict(params)))
    if clash:
        if not zipped:
            return  # directory outputs may overwrite
        h.check(e is not None, "clashing keys refused")
        h.cover("clash")
        return
    h.check(e is None, "copied", repr(e))
    if zipped:
        src = KeyValueSource.zip_bytes_source(f.path("out"))
        with src:
            keys = list(src.keys())
            h.check(len(keys) == len(want), "number of keys")
            for k, v in want:
                h.check(any(eq(k, q) for q in keys), "key")
                h.check(eq(src[k], v), "value")
    else:
        got = [q for q in f.path("out").iterdir() if bool(q.name != "_index")]
        h.check(len(got) == len(want), "number of files")
        for k, v in want:
            h.check(eq(f.read(f.path("out", k)), v), "file")
    h.check(len(list(d.iterdir())) == len(files), "input stays")
    h.cover("copied")


def _c36(tier):
    q = tier == "quick"
    return [
        {"n": 0, "kinds": "", "exts": 1, "old": 1},
        {"n": 1, "kinds": "", "exts": 1, "old": 1, "klen": 2},
        {"n": 2, "kinds": "df", "inside": 1, "omit_default": 1}, {"n": 2, "kinds": "oc"},
        {"n": 2, "kinds": "df", "times": 1}, {"n": 2, "kinds": "ff", "vlen": 2},
        {"n": 2, "kinds": "fr", "omit_default": 1}, {"n": 3, "kinds": "frf", "klen": 2},
        {"n": 1, "kinds": "", "exts": 1, "stems": 1},
        {"n": 2, "kinds": "fh", "omit_default": 1}, {"n": 3, "kinds": "fhf"},
        {"n": 1, "kinds": "", "klen": 3, "kab": "a.- "}, {"n": 2, "kinds": "", "klen": 2, "kab": "a.\u00e9"},
        {"n": 3, "kinds": "ffd", "klen": 2}, {"n": 3, "kinds": "dfd", "inside": 1, "klen": 2},
        {"n": 1, "kinds": "", "omit": 1, "vlen": 3}, {"n": 1, "kinds": "", "fixed": 12},
        {"n": 2, "kinds": "", "omit": 1, "vlen": 2 if q else 3},
    ]


PROPS = {
    "C35": Prop(
        "C35",
        [
            H_("char_sources", c35_char_sources, _c35_char),
            H_("long_chars", c35_long_chars, [{"kind": k} for k in (0, 2, 4, 5, 6, 7)]),
            H_("long_sinks", c35_long_sinks, [{"kind": k} for k in range(6)]),
            H_("missing", c35_missing, [{}]),
            H_("undecodable", c35_undecodable,
               [{"kind": k, "n": 2} for k in (2, 4, 5, 6, 7)]),
            H_("byte_sources", c35_byte_sources,
               lambda tier: [{"kind": k, "n": 3 if tier == "quick" else 5} for k in range(3)]),
            H_("sinks", c35_sinks, lambda tier: [
                {"kind": k, "ops": 2 if tier == "quick" else 3, "n": 1 if tier == "quick" else 2}
                for k in range(6)]),
            H_("zip_sink", c35_zip_sink, lambda tier: [{"writes": 1, "n": 2}, {"writes": 2, "n": 1}]),
            H_("empty_dir", c35_empty_dir, [{}]),
            H_("lines_set", c35_lines_set,
               lambda tier: [{"n": 4 if tier == "quick" else 6}]),
        ],
        bounds="texts of up to 3 (thorough 5) characters of every UTF-8 length, with newlines, NUL characters, "
        "other line separators and blanks, in UTF-8 and Latin-1; files named as other kinds of file are; every kind of source and sink; "
        "up to 2 (thorough 3) writes, each whole or in up to 2 parts; texts of 1024, 4096, 8192 and 65536 bytes "
        "(two more or less) with symbolic characters at their ends and known ones of one or two bytes between, read and "
        "written whole and in two parts",
        outside="carriage returns (translated when text files are read), other encodings, other larger "
        "texts, streams left open",
        assumptions=[MODEL],
        covers=["present", "absent", "undecodable"] + [k for k in KINDS if k != "openzip"],
    ),
    "C36": Prop(
        "C36", [H_("tar", c36_tar, _c36)],
        bounds="archives of up to 3 members (and 12 known ones) (files, directories, files in directories), repeated names, names of "
        "up to 3 characters (beginning with dots, too), contents of up to 3 characters; all options; cutoffs of 0 to 2 bytes; "
        "existing outputs; every file name extension, after stems holding such extensions, too",
        outside="symbolic links and special members, absolute names and names with .., members of one file under different spellings of its name, omitting some of several members of one name",
        assumptions=[MODEL],
        covers=["stream", "unpack", "omitting", "repeated"],
    ),
    "C37": Prop(
        "C37", [H_("offsets", c37_offsets, lambda tier: [
            {"n": 3 if tier == "quick" else 5},
            {"n": 3 if tier == "quick" else 4, "ab": "e\u0301\t\u2028\x00\xa0"},
            {"n": 2, "ab": "a\n\u00e9", "long": 1, "_split": 3}])],
        bounds="texts of up to 3 (thorough 5) characters including carriage returns, tabs, "
        "separators, combining characters and characters outside the basic plane, all offsets from 2 before to 2 behind the text; texts of 2 "
        "characters behind 1024 or 65536 bytes of known ones",
        outside="other longer texts",
        assumptions=[MODEL],
        covers=["inside", "outside"],
    ),
    "C38": Prop(
        "C38", [H_("directory", c38_directory, lambda tier: [
            {"n": 0, "nlen": 1}, {"n": 1, "nlen": 4, "vlen": 2}, {"n": 2, "nlen": 3},
            {"n": 2, "nlen": 2, "ab": "aA.\u00e9 "}, {"n": 1, "nlen": 3, "ab": "A.x\u0130-"},
            {"n": 1, "nlen": 2, "fixed": 12}] + (
                [] if tier == "quick" else [{"n": 3, "nlen": 3, "_opt": 1, "_split": 4}]))],
        bounds="flat directories of up to 2 (thorough 3) files (and 12 known ones), one perhaps a link to a file, with names of up to 4 characters, "
        "contents of up to 2 characters, carriage returns included; zip and directory outputs, new or left by an earlier run; each key function",
        outside="subdirectories (documentation and code differ), names ending in a dot",
        assumptions=[MODEL],
        covers=["copied", "clash"],
    ),
}
