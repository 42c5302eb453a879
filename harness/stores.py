"""Key-value stores over zip files, directories, tar files and path maps."""
from sx.core import And, Iff, Implies, Ite, Not, Or, Sum
from sx.run import Harness, Prop

from harness.ranges import fixed_int
from harness.files import FAKES, Files, another_process, eq, output, randomness
from harness.small import among

KEYCH = "ab/"
# names users choose
NAMES = "aAB0_-\u00e9%:~\\"


def binary(t):
    """Bytes that are no UTF-8 text."""
    return t.encode("latin-1")


def known(h, n, name=""):
    """n known keys with values, for large stores: not in order, some the beginnings of others, one
    long key and one long value."""
    return [(h.s("%s%d" % (name, (i * 7 + 3) % n if n % 7 else (i * 5 + 3) % n)
                 + ("-long" * 36 if i == 2 else "")),
             h.s("v%d\u00e9" % i * (30000 if i == 1 else 1) if i % 3 else "")) for i in range(n)]


# ------------------------------------------------------------------ C20
class Bytes:
    """Values of the two kinds of zip store."""

    def __init__(self, h, chars):
        from vistautils.key_value import KeyValueSink, KeyValueSource

        self.h, self.chars = h, chars
        self.sink = KeyValueSink.zip_character_sink if chars else KeyValueSink.zip_bytes_sink
        self.source = (KeyValueSource.zip_character_source if chars
                       else KeyValueSource.zip_bytes_source)

    def value(self, name, n=1):
        t = self.h.str(name, n, "x\r\n\u00e9" + ("\ufeff" if self.chars else "y"), 0)
        return t if self.chars else binary(t)

    def none(self):
        return self.h.s("") if self.chars else b""


def lookup(h, store, k):
    """Spec side: the value of k in an association list."""
    for q, v in store:
        if len(q) == len(k) and bool(q == k):
            return v
    return None


def check_store(h, f, src, store, probe, absent, label):
    """An entered source over ``store``: lookups, key set and items agree."""
    ks = src.keys()
    h.check(ks is not None, label + ": keys known")
    got = list(ks)
    h.check(len(got) == len(store), label + ": number of keys", "%d for %d" % (
        len(got), len(store)))
    for q, v in store:
        h.check(any(eq(q, g) for g in got), label + ": key listed")
        h.check(eq(src[q], v), label + ": item")
        h.check(eq(src.get(q), v), label + ": get")
        h.check(eq(src.get(q, absent), v), label + ": get with default")
    items = list(src.items())
    h.check(len(items) == len(store), label + ": number of items")
    for q, v in items:
        w = lookup(h, store, q)
        h.check(w is not None, label + ": item of no key")
        h.check(eq(v, w), label + ": items value")
    v = lookup(h, store, probe)
    if v is None:
        h.check(src.get(probe) is None, label + ": get absent")
        h.check(eq(src.get(probe, absent), absent), label + ": default")
        r, e = h.attempt(lambda: src[probe])
        h.check(isinstance(e, KeyError), label + ": absent key refused", repr(e))
        h.cover("absent")
    else:
        h.check(eq(src.get(probe, absent), v), label + ": probe")
        h.cover("present")


class Boom(Exception):
    pass


class Halt(BaseException):
    """What ends a program from outside, such as an interrupt."""


def c20_history(h, shape):
    """Sessions of a zip sink (overwriting, appending, failing), read back after each."""
    f = Files(h)
    kv = Bytes(h, shape["chars"])
    path = f.path("store.zip")
    fnf = {}
    if shape.get("fn"):
        fn = (lambda k: k[::-1]) if shape["fn"] == "back" else lambda k: h.s("d/") + k
        fnf = {"filename_function": fn}
    store = None
    sinks = []
    for i in range(shape["sessions"]):
        if i and shape.get("reenter") and h.choose("s%d.again" % i, 2):
            over, sink = sinks[-1]
        else:
            over = h.choose("s%d.append" % i, 2) == 0 if i or shape.get("fresh_append") else True
            sink = kv.sink(path, overwrite=over, **fnf)
        sinks.append((over, sink))
        if over or store is None:
            store = []
        n = shape["puts"] if i == 0 else shape.get("puts2", shape["puts"])
        fails = h.choose("s%d.fail" % i, 2) if shape.get("fail") else 0
        try:
            with sink as out:
                for k, v in known(h, shape.get("fixed", 0)) if i == 0 else ():
                    v = v if kv.chars else binary(v)
                    out.put(k, v)
                    store.append((k, v))
                for j in range(n):
                    k = h.str("k%d.%d" % (i, j), shape.get("klen", 1), shape.get("kab", "ab"), 1)
                    h.assume(Not(Or(*[Or(*[among(h, c, "\n") for c in k])])))
                    v = kv.value("v%d.%d" % (i, j), shape.get("vlen", 1))
                    if h.choose("put%d.%d" % (i, j), 2) if shape.get("setitem") else 0:
                        _, e = h.attempt(out.__setitem__, k, v)
                    else:
                        _, e = h.attempt(out.put, k, v)
                    if lookup(h, store, k) is not None:
                        h.check(isinstance(e, (RuntimeError, ValueError)), "duplicate refused",
                                repr(e))
                        h.cover("duplicate")
                    else:
                        h.check(e is None, "put accepted", repr(e))
                        store.append((k, v))
                if fails:
                    raise Halt() if shape["fail"] == "halt" else Boom()
        except (Boom, Halt):
            h.check(bool(fails), "only failures asked for")
            h.cover("failed session")
        else:
            h.check(not fails, "failure passed on")
        if i == 0 or not shape.get("same_source") or h.choose("s%d.newly" % i, 2):
            source = kv.source(path, **fnf)
        with source as src:
            probe = h.s("a")
            if shape.get("probe", 1):
                probe = h.str("p%d" % i, shape.get("klen", 1), shape.get("kab", "ab"), 1)
            check_store(h, f, src, store, probe, kv.value("dflt%d" % i), "after session %d" % i)
        names = [n for n, _ in f.read_zip(path)]
        for q, _ in store:
            want = fn(q) if shape.get("fn") else q
            h.check(sum(1 for n in names if bool(n == want)) == 1, "one entry per key")
    h.observe("n", len(store))


def c20_refusals(h, shape):
    """Use outside the context manager, nulls, wrong kinds: refused without harm."""
    f = Files(h)
    kv = Bytes(h, shape["chars"])
    path = f.path("s.zip")
    sink = kv.sink(path)
    k, v = h.str("k", 1, "aA", 1), kv.value("v")
    _, e = h.attempt(sink.put, k, v)
    h.check(e is not None, "put before entering refused")
    bad = [None, 3, [h.s("x")]]
    with sink as out:
        _, e = h.attempt(out.put, None, v)
        h.check(e is not None, "null key refused")
        for b in bad:
            _, e = h.attempt(out.put, k, b)
            h.check(e is not None, "bad value refused", repr(b))
        if h.choose("then", 2):
            out.put(k, v)
            store = [(k, v)]
        else:
            store = []
    _, e = h.attempt(sink.put, h.s("z"), v)
    h.check(e is not None, "put after leaving refused")
    src = kv.source(path)
    for fn in (lambda: src[k], lambda: src.get(k), src.keys):
        _, e = h.attempt(fn)
        h.check(e is not None, "source use before entering refused")
    with src:
        check_store(h, f, src, store, k, kv.value("d"), "after refusals")
    for fn in (lambda: src[k], lambda: src.get(k), src.keys):
        _, e = h.attempt(fn)
        h.check(e is not None, "source use after leaving refused")
    with src:
        check_store(h, f, src, store, k, kv.value("d2"), "re-entered")


def c20_custom_keys(h, shape):
    """Custom key functions replace the key file."""
    f = Files(h)
    kv = Bytes(h, shape["chars"])
    path = f.path("s.zip")
    log = []

    def keys_out(z, keys):
        log.append(sorted(keys))
        z.writestr("ids", h.s("|").join(sorted(keys)).encode("utf-8"))

    def keys_in(z):
        try:
            t = z.read("ids").decode("utf-8")
        except KeyError:
            return None
        return {x for x in t.split("|") if x} if h.symbolic else set(filter(None, t.split("|")))

    store = []
    for i in range(2):
        with kv.sink(path, overwrite=i == 0, keys_in_function=keys_in,
                     keys_out_function=keys_out) as out:
            k, v = h.str("k%d" % i, 1, "aA", 1), kv.value("v%d" % i)
            _, e = h.attempt(out.put, k, v)
            if lookup(h, store, k) is not None:
                h.check(e is not None, "duplicate refused")
            else:
                h.check(e is None, "accepted", repr(e))
                store.append((k, v))
    h.check(len(log) == 2, "key function called once per session")
    if h.choose("keyed", 2):
        with kv.source(path, keys_function=keys_in) as src:
            check_store(h, f, src, store, h.s("c"), kv.none(), "custom keys")
    else:
        with kv.source(path) as src:
            h.check(src.keys() is None, "no key file: keys unknown")
            for q, v in store:
                h.check(eq(src[q], v), "readable without keys")
            _, e = h.attempt(lambda: list(src.items()))
            h.check(e is not None, "no items without keys")


def H_(name, fn, shapes, **k):
    return Harness(name, fn, shapes, strings=True, fakes=FAKES, **k)


MODEL = "zip, tar and gzip files, the file system and random permutations are modelled at their " \
        "library boundary; the code's own source is executed symbolically"


def _c20_history(tier):
    out = []
    for chars in (0, 1):
        out += [
            {"chars": chars, "sessions": 1, "puts": n} for n in (0, 1, 2, 3)
        ]
        out += [
            {"chars": chars, "sessions": 2, "puts": 1, "fn": 1, "setitem": 1, "vlen": 2},
            {"chars": chars, "sessions": 1, "puts": 2, "fn": "back", "klen": 2},
            {"chars": chars, "sessions": 2, "puts": 2, "puts2": 1, "fail": 1, "reenter": 1},
            {"chars": chars, "sessions": 1, "puts": 2, "klen": 2, "kab": "ab/"},
            {"chars": chars, "sessions": 1, "puts": 1, "fresh_append": 1},
            {"chars": chars, "sessions": 2, "puts": 1, "fail": "halt", "reenter": chars, "probe": 0,
             "same_source": 1},
            {"chars": chars, "sessions": 1, "puts": 1, "klen": 3, "kab": NAMES + ". ,/"},
            {"chars": chars, "sessions": 2, "puts": 1, "klen": 2, "kab": NAMES + ". ,/", "_opt": 1},
            {"chars": chars, "sessions": 1, "puts": 2, "klen": 2, "kab": "e\u0301\u212b"},
            {"chars": chars, "sessions": 1, "puts": 1, "vlen": 4},
            {"chars": chars, "sessions": 1, "puts": 2, "klen": 2, "kab": "a\r\x0c\u2028"},
            {"chars": chars, "sessions": 1, "puts": 1, "fixed": 24, "klen": 2, "kab": "012a",
             "probe": chars},
            {"chars": chars, "sessions": 2, "puts": 1, "fixed": 12, "klen": 1, "kab": "1a",
             "probe": 0},
        ]
        out.append({"chars": chars, "sessions": 3, "puts": 1, "reenter": 1, "probe": 0, "_split": 4})
        if tier != "quick":
            out.append({"chars": chars, "sessions": 3, "puts": 1, "fail": 1, "reenter": 1,
                        "_split": 4})
            out.append({"chars": chars, "sessions": 2, "puts": 3, "fail": 1, "_split": 5, "_opt": 1})
            out.append({"chars": chars, "sessions": 4, "puts": 1, "reenter": 1, "_split": 6,
                        "_opt": 1})
    return out


PROPS = {
    "C20": Prop(
        "C20",
        [
            H_("history", c20_history, _c20_history),
            H_("refusals", c20_refusals, [{"chars": 0}, {"chars": 1}]),
            H_("custom", c20_custom_keys, [{"chars": 0}, {"chars": 1}]),
        ],
        bounds="histories of up to 3 (thorough 4) sessions of up to 3 puts, overwriting or "
        "appending, with new or re-entered sinks and sources, normal or failing, keys of up to 2 characters "
        "including slashes and line separators other than the newline, values of up to 2 characters including newlines, non-ASCII and the byte order mark, with "
        "and without a file name function and custom key functions; histories that begin with 24 known "
        "entries",
        outside="keys '__keys', the single empty key and keys with newlines (reserved by the key "
        "file), crashes in the middle of a session, longer keys and values",
        assumptions=[MODEL],
        covers=["duplicate", "failed session", "absent", "present"],
    ),
}


# ------------------------------------------------------------------ C21
def put_store(h, f, n, kab, vlen=1, name="k", klen=1, fixed=0, known_name="", vab="xX\r\n\u00e9\0 "):
    """n distinct keys with values, after some known ones: [(key, text)]."""
    store = known(h, fixed, known_name)
    for i in range(n):
        k = h.str("%s%d" % (name, i), klen, kab, 1)
        for q, _ in store:
            h.assume(Not(k == q) if len(k) == len(q) else True)
        store.append((k, h.str("%sv%d" % (name, i), vlen, vab, 0)))
    return store


def c21_mapping(h, shape):
    """Sources over files named by a mapping or by a document map file."""
    from immutablecollections import immutabledict

    from vistautils.io_utils import CharSource
    from vistautils.key_value import KeyValueSource

    f = Files(h)
    how = h.choose("how", 4)
    store = put_store(h, f, shape["n"], "aA", 2, fixed=shape.get("fixed", 0),
                      vab="xX\n\r\u00e9" if how == 3 else "xX\u00e9\ufeff\n")
    paths = []
    for i, (k, v) in enumerate(store):
        p = f.path("in", "f%d" % i)
        f.write(p, binary(v) if how == 3 else v)
        paths.append((k, p))
    if how == 0:
        src, chars = KeyValueSource.from_path_mapping(immutabledict(paths)), True
    else:
        m = f.path("map")
        f.write(m, h.s("").join([k + "\t" + h.s(str(p)) + "\n" for k, p in paths]))
        if how == 1:
            src, chars = KeyValueSource.from_doc_id_to_file_map(m), True
        elif how == 2:
            src, chars = KeyValueSource.from_doc_id_to_file_map(CharSource.from_file(m)), True
        else:
            src, chars = KeyValueSource.binary_from_doc_id_to_file_map(m), False
    want = store if chars else [(k, binary(v)) for k, v in store]
    absent = h.str("d", 1, "xX") if chars else h.str("d", 1, "xX").encode("utf-8")
    with src:
        check_store(h, f, src, want, h.str("p", 1, "abAB", 1), absent, "mapping")
        keep = [h.choose("keep%d" % i, 2) if i < 2 or i >= shape.get("fixed", 0) else i % 2
                for i in range(len(want))]

        def flt(k):
            for i, (q, _) in enumerate(want):
                if bool(q == k):
                    return bool(keep[i])
            h.fail("filter called for a key of the source")

        got = list(src.items(flt))
        h.check(len(got) == sum(keep), "filtered items")
        for k, v in got:
            h.check(flt(k) and eq(lookup(h, want, k), v), "filtered item")


def c21_reentered(h, shape):
    """A source object entered again describes what its file holds then."""
    from vistautils.key_value import KeyValueSource

    f = Files(h)
    kv = Bytes(h, shape["chars"])
    path = f.path("store.zip")
    src = kv.source(path)
    made = shape.get("made")
    if made:
        src = KeyValueSource.interpret_values(src, lambda k, v: v)
    store = []
    for i in range(2):
        over = not i or bool(h.choose("over", 2))
        if over:
            store = []
        with kv.sink(path, overwrite=over) as out:
            for j in range(shape["puts"]):
                k = h.str("k%d.%d" % (i, j), 1, "aA", 1)
                for q, _ in store:
                    h.assume(Not(q == k))
                v = kv.value("v%d.%d" % (i, j))
                out.put(k, v)
                store.append((k, v))
        with src as entered:
            check_store(h, f, entered, store, h.str("p%d" % i, 1, "aAb", 1),
                        kv.value("absent"), "entered %d" % i)


def c21_errors(h, shape):
    """Errors of interpretation functions, and of files that are missing, reach the caller."""
    from immutablecollections import immutabledict

    from vistautils.key_value import KeyValueLinearSource, KeyValueSource

    f = Files(h)
    if shape["how"] == "missing":
        k = h.str("k", 1, "aA", 1)
        p = h.str("p", 1, "aAb", 1)
        if shape["bytes"]:
            m = f.path("map")
            f.write(m, k + "\t" + h.s(str(f.path("gone"))) + "\n")
            src = KeyValueSource.binary_from_doc_id_to_file_map(m)
        else:
            src = KeyValueSource.from_path_mapping(immutabledict([(k, f.path("gone"))]))
        absent = h.str("d", 1, "xy", 1)
        with src:
            for read, default in ((lambda: src[p], 0), (lambda: src.get(p), 1),
                                  (lambda: src.get(p, absent), 2)):
                r, e = h.attempt(read)
                if bool(p == k):
                    h.check(isinstance(e, OSError), "missing file refused", repr(e))
                    h.cover("missing file")
                elif not default:
                    h.check(isinstance(e, KeyError), "absent: key error")
                else:
                    h.check(e is None and (r is None if default == 1 else eq(r, absent)),
                            "absent: default")
            h.check(len(list(src.keys())) == 1, "keys")
        return

    class Src(Plain, KeyValueSource):
        pass

    class Lin(Plain, KeyValueLinearSource):
        def items(self, key_filter=lambda x: True):
            return ((k, v) for k, v in self.store if key_filter(k))

    linear = shape["how"] == "linear"
    error = [KeyError, AttributeError, StopIteration, TypeError, Boom][h.choose("error", 5)]
    bad = h.int("bad")

    def interpret(k, v):
        if bool(k == bad):
            raise error("interpretation")
        return v

    store = [(h.int("k0"), h.int("v0")), (h.int("k1"), h.int("v1"))]
    h.assume(store[0][0] != store[1][0])
    inner = (Lin if linear else Src)(store)
    made = (KeyValueLinearSource if linear else KeyValueSource).interpret_values(inner, interpret)
    fails = any(bool(k == bad) for k, _ in store)
    with made as src:
        got, e = h.attempt(lambda: list(src.items()))
        # a StopIteration inside a generator is a RuntimeError
        h.check((e is not None) == fails, "items", repr(e))
        if e is not None:
            h.check(isinstance(e, (error, RuntimeError)), "items: the error", repr(e))
            h.cover("failing interpretation")
        if not linear:
            k, v = store[0]
            for read in (lambda: src[k], lambda: src.get(k), lambda: src.get(k, None)):
                r, e = h.attempt(read)
                if bool(k == bad):
                    h.check(isinstance(e, error), "the error", repr(e))
                else:
                    h.check(e is None, "no error", repr(e))
                    h.check(r == v, "value")


class Plain:
    """Mixin: a source over an association list, recording its use."""

    def __init__(self, store, swallow=False, keys=True):
        self.store, self.log, self.swallow, self.known = store, [], swallow, keys

    def __getitem__(self, k):
        for q, v in self.store:
            if bool(q == k):
                return v
        raise KeyError("absent")

    def get(self, k, _default=None):
        for q, v in self.store:
            if bool(q == k):
                return v
        return _default

    def keys(self):
        return [q for q, _ in self.store] if self.known else None

    def __enter__(self):
        self.log.append("enter")
        return self

    def __exit__(self, *a):
        self.log.append("exit" if a[0] is None else "fail")
        return self.swallow


def c21_interpret(h, shape):
    """Interpreted sources: the same keys, each value the function of key and value."""
    from vistautils.key_value import KeyValueLinearSource, KeyValueSource

    linear = shape["linear"]

    class Src(Plain, KeyValueSource):
        pass

    class Lin(Plain, KeyValueLinearSource):
        def items(self, key_filter=lambda x: True):
            return ((k, v) for k, v in self.store if key_filter(k))

    store = [(fixed_int(h, 3 * ((i * 5 + 2) % 11)), fixed_int(h, i))
             for i in range(shape.get("fixed", 0))]
    for i in range(shape["n"]):
        k = h.int("k%d" % i)
        for q, _ in store:
            h.assume(k != q)
        store.append((k, h.int("v%d" % i)))
    swallow = bool(h.choose("swallow", 2))
    inner = (Lin if linear else Src)(store, swallow)
    # what the function gives may itself be nothing
    nothing = h.choose("nothing", 2)
    made = (KeyValueLinearSource if linear else KeyValueSource).interpret_values(
        inner, lambda k, v: None if nothing else ("made", k, v))
    h.check(isinstance(made, KeyValueLinearSource if linear else KeyValueSource), "kind")

    def is_made(x, k, v, label):
        if nothing:
            h.check(x is None, label + ": interpreted as nothing")
            return
        h.check(type(x) is tuple and x[0] == "made", label + ": interpreted")
        h.check(And(x[1] == k, x[2] == v), label + ": of key and value")

    fail = h.choose("fail", 3)
    try:
        with made as src:
            lo = h.int("lo")
            got = list(src.items(lambda k: bool(k > lo)))
            want = [(k, v) for k, v in store if bool(k > lo)]
            h.check(len(got) == len(want), "items: number")
            for (k, x), (q, v) in zip(got, want):
                h.check(k == q, "items: key")
                is_made(x, q, v, "items")
            h.check(len(list(src.items())) == len(store), "all items")
            if not linear:
                h.check(list(src.keys()) == inner.keys(), "keys")
                p = h.int("p")
                x, d, e = src.get(p), src.get(p, h), h.attempt(lambda: src[p])
                if store and bool(p == store[0][0]):
                    # a default that is the value, uninterpreted
                    is_made(src.get(p, store[0][1]), *store[0], "get with a value as default")
                for q, v in store:
                    if bool(q == p):
                        is_made(x, q, v, "get")
                        is_made(d, q, v, "get with default")
                        is_made(e[0], q, v, "item")
                        break
                else:
                    h.check(x is None and d is h, "absent: default")
                    h.check(isinstance(e[1], KeyError), "absent: key error")
                inner.known = False
                h.check(src.keys() is None, "unknown keys stay unknown")
            if fail:
                raise Boom() if fail == 1 else Halt()
    except (Boom, Halt):
        h.check(fail and not swallow, "exception passed on")
    else:
        h.check(not fail or swallow, "exception swallowed by the wrapped source")
    h.check(inner.log == ["enter", "fail" if fail else "exit"], "wrapped source entered, left")


def c21_tgz(h, shape):
    """Linear sources over tar files: exactly the wanted regular files, in order."""
    from vistautils.key_value import KeyValueLinearSource

    f = Files(h)
    members = []
    for i in range(shape["n"]):
        kinds = shape.get("kinds", "fd")
        kind = kinds[h.choose("kind%d" % i, len(kinds))]
        name = h.s("d/" if kind == "d" else "") + h.str("n%d" % i, 2, shape.get("ab", "ab/"), 1)
        for q, _, _ in members:
            h.assume(Not(name == q) if len(name) == len(q) else True)
        h.assume(Not(Or(name[0] == "/", name[-1] == "/", name[-1] == ".")))
        members.append((name, kind, h.str("v%d" % i, 1, "x\r\u00e9" + (
            "\ufeff" if shape["chars"] else "\n"), 0).encode(
            "utf-8" if shape["chars"] else "latin-1")
                        if kind in "foc" else b"" if kind in "dp" else
                        members[0][0] if members else h.s("zz")))
    path = f.path("in.tgz")
    f.make_tar(path, members)

    def index(name):
        for i, m in enumerate(members):
            if len(m[0]) == len(name) and bool(m[0] == name):
                return i
        h.fail("functions are called with names of members")

    named = [h.choose("named%d" % i, 2) for i in range(len(members))]
    keyed = [h.choose("keyed%d" % i, 2) for i in range(len(members))]
    names = [h.s("k%d" % i) for i in range(len(members))]
    if members and h.choose("empty", 2):
        names[-1] = h.s("")
    # the key function may give two members the same key
    same = len(members) > 1 and h.choose("same", 2)
    if same:
        names[1] = names[0]
    keep = [h.choose("keep%d" % i, 2) for i in range(len(members))]

    def key_function(name):
        i = index(name)
        return names[i] if keyed[i] else None

    def key_filter(k):
        for i, q in enumerate(names):
            if eq(k, q):
                return bool(keep[i])
        h.fail("the key filter is called with keys")

    make = (KeyValueLinearSource.byte_linear_source_from_tar_gz if not shape["chars"]
            else KeyValueLinearSource.str_linear_source_from_tar_gz)
    src = make(path, key_function=key_function, name_filter=lambda n: bool(named[index(n)]))
    with src as inp:
        got = list(inp.items(key_filter))
        again = list(inp.items())
    want = [i for i, m in enumerate(members) if m[1] in "foc" and named[i] and keyed[i]]
    if same:
        keep[1] = keep[0]
    for res, idx in ((got, [i for i in want if keep[i]]), (again, want)):
        h.check(len(res) == len(idx), "number of items", "%d for %d" % (len(res), len(idx)))
        for (k, v), i in zip(res, idx):
            h.check(eq(k, names[i]), "key")
            h.check(eq(v.encode("utf-8") if shape["chars"] else v, members[i][2]), "value")
    with make(path) as inp:
        got = list(inp.items())
    want = [m for m in members if m[1] in "foc"]
    h.check(len(got) == len(want), "all regular files")
    for (k, v), m in zip(got, want):
        h.check(eq(k, m[0]), "named by path")
        h.check(eq(v.encode("utf-8") if shape["chars"] else v, m[2]), "content")
    if not shape["chars"]:
        _, e = h.attempt(make(path).items)
        h.check(e is not None, "use before entering refused")


def c21_undecodable(h, shape):
    """Bytes that are no text are reported when read as characters, and kept as bytes."""
    from vistautils.key_value import KeyValueLinearSource

    f = Files(h)
    bad = h.choice("bad", [b"\xff", b"a\xc3", b"\x80b", b"\xed\xa0\x80"])
    how = h.choose("how", 4)
    name = h.str("name", 1, "aA-", 1)
    if how < 2:
        path = f.path("in.tgz")
        f.make_tar(path, [(name, "f", bad)])
        src = (KeyValueLinearSource.str_linear_source_from_tar_gz if how else
               KeyValueLinearSource.byte_linear_source_from_tar_gz)(path)
    else:
        path = f.path("in.zip")
        f.make_zip(path, [(name, bad)])
        from vistautils.key_value import KeyValueSource
        src = (KeyValueSource.zip_character_source if how == 3 else
               KeyValueSource.zip_bytes_source)(path, keys_function=lambda _: {name: 1}.keys())
    with src as inp:
        got, e = h.attempt(lambda: list(inp.items()))
    if how % 2:
        h.check(isinstance(e, UnicodeError), "undecodable content reported", repr(e or got))
    else:
        h.check(e is None, "bytes read", repr(e))
        h.check(len(got) == 1 and eq(got[0][0], name) and eq(got[0][1], bad), "bytes kept")


# ------------------------------------------------------------------ scripts
def make_input(h, f, store, how):
    """Parameters for an input store holding this association list (values are texts)."""
    if how == 0:
        p = f.path("in.zip")
        ks = h.s("\n").join([k for k, _ in store]) if store else h.s("")
        f.make_zip(p, [(k, binary(v)) for k, v in store]
                   + [(h.s("__keys"), ks.encode("utf-8"))])
        return {"type": h.s("zip"), "path": h.s(str(p))}
    m = f.path("map")
    lines = []
    for i, (k, v) in enumerate(store):
        p = f.path("in", "f%d" % i)
        f.write(p, binary(v))
        lines.append(k + "\t" + h.s(str(p)) + "\n")
    f.write(m, h.s("").join(lines))
    if how == 1:
        return {"type": h.s("file-map"), "path": h.s(str(m))}
    return {"path": h.s(str(m))}


def read_store(h, f, path):
    """The association list of a zip store; None if there is none."""
    from vistautils.key_value import KeyValueSource

    if not path.exists():
        return None
    with KeyValueSource.zip_bytes_source(path) as s:
        return list(s.items())


def stale(h, f, path):
    """What an earlier run may have left: a store with a key of its own."""
    f.make_zip(path, [(h.s("a"), h.s("old").encode("utf-8")), (h.s("old"), b"o"),
                      (h.s("__keys"), h.s("a\nold").encode("utf-8"))])


def params_of(h, m):
    from vistautils.parameters import Parameters

    return Parameters.from_mapping({h.s(k): v for k, v in m.items()})


def c22_even(h, shape):
    """Even splits: a partition into slices of nearly equal size, the same for the same input."""
    from vistautils.scripts.split_key_value_store import main

    f = Files(h)
    store = put_store(h, f, shape["n"], shape["kab"], klen=shape.get("klen", 1),
                      fixed=shape.get("fixed", 0))
    slices = h.int("slices", -1, shape["slices"])
    seed = h.int("seed", 1) if h.choose("seeded", 2) else None

    def run(tag, st):
        out = f.path("out" + tag)
        m = {"input": {h.s(a): b for a, b in make_input(
            h, f, st, h.choose("how", 3) if shape.get("hows") else 0).items()},
            "output_dir": h.s(str(out)), "num_slices": slices}
        if seed is not None:
            m["random_seed"] = seed
        if shape.get("stale") and h.choose("stale", 2):
            stale(h, f, out / "0.zip")
        _, e = h.attempt(main, params_of(h, m))
        if bool(slices < 1):
            h.check(e is not None, "non-positive number of slices refused")
            return None
        h.check(e is None, "split accepted", repr(e))
        want = [out / ("%d.zip" % i) for i in range(int(slices))]
        h.check(eq(f.read(out / "_slices.txt"),
                   h.s("\n".join(str(p) for p in want)).encode("utf-8")), "list of slices")
        return [read_store(h, f, p) for p in want]

    with randomness(h, shape.get("free")):
        got = run("", store)
        with another_process(h):
            again = run("2", list(reversed(store))) if got and shape.get("again", 1) else None
    if got is None:
        h.cover("refused")
        return
    h.check(all(g is not None for g in got), "one store per slice")
    sizes = [len(g) for g in got]
    h.check(sum(sizes) == len(store), "no key lost or repeated", repr(sizes))
    h.check(max(sizes) - min(sizes) <= 1, "slices of equal size", repr(sizes))
    for g in got:
        for k, v in g:
            w = lookup(h, store, k)
            h.check(w is not None and eq(binary(w), v), "key with its value")
    for k, _ in store:
        h.check(sum(1 for g in got for q, _ in g if eq(k, q)) == 1, "key in exactly one slice")
    if again is not None:
        for g, a in zip(got, again):
            h.check(len(g) == len(a) and all(lookup(h, g, k) is not None for k, _ in a),
                    "the same slices for the same store and seed")
    h.observe("sizes", repr(sizes))


def c23_explicit(h, shape):
    """Explicit splits: each output has exactly its listed keys; gaps are refused if asked for."""
    from vistautils.scripts.split_key_value_store import main

    f = Files(h)
    store = put_store(h, f, shape["n"], shape["kab"], klen=shape.get("klen", 1),
                      fixed=shape.get("fixed", 0))
    m = {"input": {h.s(a): b for a, b in make_input(
        h, f, store, h.choose("how", 3) if shape.get("hows") else 0).items()}}
    lists, es = [], {}
    for i, n in enumerate(shape["splits"]):
        lines = [h.str("l%d.%d" % (i, j), shape.get("klen", 1), shape["kab"], 0 if shape.get("blank") else 1)
                 for j in range(n)]
        fix = [k for k, _ in store[:shape.get("fixed", 0)]][i::len(shape["splits"])]
        lines = fix[1:] + lines + fix[:1]
        lists.append(lines)
        kf = f.path("keys%d" % i)
        end = h.s("\n") if h.choose("nl%d" % i, 2) else h.s("")
        f.write(kf, h.s("\n").join(lines) + end)
        es[h.s("s%d" % i)] = {h.s("keys_file"): h.s(str(kf)),
                              h.s("output_file"): h.s(str(f.path("o", "out%d.zip" % i)))}
    exhaustive = True
    if " " in shape["kab"]:
        # whether lines of blanks are blank lines is left open
        for x in [k for k, _ in store] + [x for ls in lists for x in ls]:
            h.assume(Or(*[c != " " for c in x]) if len(x) else True)
    flag = h.choose("flag", 7) if shape.get("flags", 1) else 0
    if flag in (1, 2):
        es[h.s("must_be_exhaustive")] = exhaustive = flag == 1
    if flag in (3, 4):
        m["must_be_exhaustive"] = exhaustive = flag == 3
    if flag > 4:
        # the one for these splits wins
        es[h.s("must_be_exhaustive")] = exhaustive = flag == 5
        m["must_be_exhaustive"] = flag == 6
    m["explicit_split"] = es
    if shape.get("stale") and h.choose("stale", 2):
        stale(h, f, f.path("o", "out0.zip"))
    if h.choose("both", 2) if shape.get("both") else 0:
        m["num_slices"] = 2
        _, e = h.attempt(main, params_of(h, m))
        h.check(e is not None, "two ways of splitting refused")
        return
    _, e = h.attempt(main, params_of(h, m))
    wanted = []
    for lines in lists:
        w = []
        for k in lines:
            if len(k) and not any(eq(k, q) for q in w):
                w.append(k)
        wanted.append(w)
    missing = any(lookup(h, store, k) is None for w in wanted for k in w)
    covered = all(any(eq(k, q) for w in wanted for q in w) for k, _ in store)
    if missing:
        h.check(e is not None, "unknown key refused")
        h.cover("unknown key")
        return
    if exhaustive and not covered:
        h.check(e is not None, "missing keys refused")
        h.cover("not exhaustive")
    else:
        h.check(e is None, "split accepted", repr(e))
        h.cover("split")
    for i, w in enumerate(wanted):
        got = read_store(h, f, f.path("o", "out%d.zip" % i))
        h.check(got is not None and len(got) == len(w), "output has the listed keys")
        for k in w:
            v = lookup(h, got, k)
            h.check(v is not None and eq(binary(lookup(h, store, k)), v),
                    "listed key with its value")


def c24_join(h, shape):
    """Joining stores: exactly the union; a key in two inputs is refused."""
    from vistautils.scripts.join_key_value_stores import main

    f = Files(h)
    stores, paths = [], []
    for i, n in enumerate(shape["ns"]):
        st = put_store(h, f, n, shape["kab"], name="s%d." % i, klen=shape.get("klen", 1),
                       fixed=shape.get("fixed", 0), known_name=str(i))
        p = f.path("in%d.zip" % i)
        ks = h.s("\n").join([k for k, _ in st]) if st else h.s("")
        f.make_zip(p, [(k, binary(v)) for k, v in st]
                   + [(h.s("__keys"), ks.encode("utf-8"))])
        stores.append(st)
        paths.append(p)
    if shape.get("again"):  # the same store once more
        i = h.choose("again", len(stores))
        stores.append(stores[i])
        paths.append(paths[i])
    lst = f.path("list")
    f.write(lst, h.s("\n".join(str(p) for p in paths) + "\n"))
    m = {"input_store_list_file": h.s(str(lst)),
         "output": {h.s("type"): h.s("zip"), h.s("path"): h.s(str(f.path("out", "all.zip")))}}
    if shape.get("outs") and h.choose("stale", 2):
        stale(h, f, f.path("out", "all.zip"))
    directory = h.choose("directory", 2) if shape.get("outs") else 0
    if directory:
        m["output"] = {h.s("type"): h.s("directory"), h.s("path"): h.s(str(f.path("dir")))}
        f.path("dir").mkdir()
    _, e = h.attempt(main, params_of(h, m))
    union, dup = [], False
    for st in stores:
        for k, v in st:
            if lookup(h, union, k) is not None:
                dup = True
            else:
                union.append((k, v))
    if dup:
        h.check(e is not None, "key of two inputs refused")
        h.cover("duplicate")
        return
    h.check(e is None, "join accepted", repr(e))
    if directory:
        from vistautils.key_value import KeyValueSource

        with KeyValueSource.binary_from_doc_id_to_file_map(f.path("dir", "_index")) as s:
            got = list(s.items())
        h.check(len(list(f.path("dir").iterdir())) == len(union) + 1, "one file per key")
    else:
        got = read_store(h, f, f.path("out", "all.zip"))
    h.check(got is not None and len(got) == len(union), "number of keys")
    for k, v in union:
        w = lookup(h, got, k)
        h.check(w is not None and eq(binary(v), w), "key with its value")
    h.cover("joined")


def c30_downsample(h, shape):
    """Sampling: min(n, asked) keys of the input with their values, fixed by seed and input."""
    from vistautils.scripts.downsample_key_value_store import main

    f = Files(h)
    store = put_store(h, f, shape["n"], shape.get("kab", "abcd"), klen=shape.get("klen", 1),
                      fixed=shape.get("fixed", 0))
    asked = h.int("asked", -1, len(store) + 2)
    seed = h.int("seed") if h.choose("seeded", 2) else None
    inp = {h.s(a): b for a, b in make_input(
        h, f, store, h.choose("how", 3) if shape.get("hows") else 0).items()}

    def run(tag, sd):
        out = f.path("out" + tag + ".zip")
        m = {"input": inp, "num_to_sample": asked, "output_zip_path": h.s(str(out))}
        if sd is not None:
            m["random_seed"] = sd
        there = shape.get("hows") and h.choose("stale" + tag, 2)
        if there:
            stale(h, f, out)
        _, e = h.attempt(main, params_of(h, m))
        if bool(asked < 1):
            h.check(e is not None, "non-positive size refused")
            if not there:
                h.check(not out.exists(), "nothing written")
            return None
        h.check(e is None, "sampled", repr(e))
        return read_store(h, f, out)

    with randomness(h, shape.get("free")):
        got = run("1", seed)
        if got is None:
            return
        n = len(store)
        h.check(len(got) == (int(asked) if bool(asked < n) else n), "size of the sample")
        for i, (k, v) in enumerate(got):
            w = lookup(h, store, k)
            h.check(w is not None and eq(binary(w), v), "sampled key with its value")
            h.check(not any(eq(k, q) for q, _ in got[:i]), "no key twice")
        with another_process(h):
            again = run("2", seed if seed is not None else (0 if h.choose("zero", 2) else None))
        h.check(len(again) == len(got) and all(lookup(h, got, k) is not None for k, _ in again),
                "the same sample for the same seed")


# ------------------------------------------------------------------ C42
def c42_directory(h, shape):
    """Directory sinks: one file per key, an index to read them back with, nothing else touched."""
    from vistautils.key_value import (KeyValueSource, byte_key_value_sink_from_params,
                                      char_key_value_sink_from_params)

    f = Files(h)
    chars = shape["chars"]
    d = f.path("up", "d")
    f.write(f.path("up", "other"), h.s("keep"))
    d.mkdir()
    full = h.choose("full", 2) if shape.get("full") else 0
    if full:
        f.write(f.path("up", "d", "old"), h.s("old"))
    make = char_key_value_sink_from_params if chars else byte_key_value_sink_from_params
    params = params_of(h, {"output": {h.s("type"): h.s("directory"), h.s("path"): h.s(str(d))}})
    sink, e = h.attempt(make, params)
    h.check(e is None, "sink made", repr(e))
    store = []

    def value(name):
        t = h.str(name, shape.get("vlen", 1), "xX \n\u00e9", 0)
        return t if chars else binary(t)

    def check(label):
        make = (KeyValueSource.from_doc_id_to_file_map if chars
                else KeyValueSource.binary_from_doc_id_to_file_map)
        with make(f.path("up", "d", "_index")) as src:
            # (the index is text, whose identifiers have no blanks at their ends)
            if not any(bool(Or(k[0] == " ", k[-1] == " ")) for k, _ in store):
                check_store(h, f, src, store, h.str("p" + label, 1, "ab", 1),
                            value("dflt" + label), label)
        files = [q for q in d.rglob("*") if q.is_file()]
        h.check(len(files) == len(store) + 1, label + ": one file per key and the index")
        for k, v in store:
            h.check(eq(f.read(d / k), v.encode("utf-8") if chars else v), label + ": file")

    fails = h.choose("fails", 2) if shape.get("fail") else 0
    try:
        with sink as out:
            h.check(not full, "non-empty directory refused")
            for k, v in known(h, shape.get("fixed", 0), "a/"):
                v = v if chars else binary(v)
                out.put(k, v)
                store.append((k, v))
            for j in range(shape["puts"]):
                k = h.str("k%d" % j, shape["klen"], shape["kab"], 1)
                h.assume(And(k[0] != "/", k[-1] != "/",
                             *[Not(And(a == "/", b == "/")) for a, b in zip(k, k[1:])]))
                for w in ("/./", "/../"):
                    if "." in shape["kab"]:
                        h.assume(Not(w in h.s("/") + k + "/"))
                v = value("v%d" % j)
                clash = any(len(k) != len(q) and bool(
                    (k + "/" == q[:len(k) + 1]) if len(k) < len(q) else (q + "/" == k[:len(q) + 1]))
                    for q, _ in store)
                if j < shape.get("hows", 9) and h.choose("put%d" % j, 2):
                    _, e = h.attempt(out.put, k, v)
                else:
                    _, e = h.attempt(out.__setitem__, k, v)
                if clash:
                    h.check(e is not None, "file and directory of one name refused")
                    h.cover("clash")
                elif lookup(h, store, k) is None:
                    h.check(e is None, "put accepted", repr(e))
                    store.append((k, v))
                elif e is None:
                    # a repeated key may be refused or replaced
                    store = [(q, v if bool(q == k) else w) for q, w in store]
                    h.cover("repeated")
            if fails:
                raise Halt() if shape["fail"] == "halt" else Boom()
    except (Boom, Halt):
        h.check(bool(fails), "only failures asked for")
    except OSError:
        h.check(bool(full), "empty directory accepted")
        h.check(eq(f.read(f.path("up", "d", "old")), f.bytes_(b"old")), "old file stays")
        h.check(len(list(d.iterdir())) == 1, "nothing written")
        h.cover("refused")
        return
    else:
        h.check(not fails, "failure passed on")
    check("first")
    _, e = h.attempt(sink.__enter__)
    h.check(e is not None, "not overwritten by entering again")
    check("again")
    if shape.get("reuse"):
        # once the directory is empty again, so is the store
        for q in sorted(d.rglob("*"), key=lambda q: -len(q.parts)):
            q.rmdir() if q.is_dir() else q.unlink()
        store = [(h.s("z"), value("vz"))]
        with sink as out:
            out.put(*store[0])
        check("reused")
        h.cover("reused")
    h.check(eq(f.read(f.path("up", "other")), f.bytes_(b"keep")), "other files stay")
    h.check(len(list(f.path("up").iterdir())) == 2, "nothing written elsewhere")
    h.cover("kept")


# ------------------------------------------------------------------ C27
def c27_round_trip(h, shape):
    """Document maps: written and read back."""
    from immutablecollections import immutabledict

    from vistautils.io_utils import (CharSink, CharSource, read_doc_id_to_file_map,
                                     write_doc_id_to_file_map)

    f = Files(h)
    f.path("dir").mkdir()
    f.link(f.path("lnk"), f.path("dir"))
    items = [(k, f.path("known", "f%d" % i))
             for i, (k, _) in enumerate(known(h, shape.get("fixed", 0)))]
    for i in range(shape["n"]):
        k = h.str("id%d" % i, shape["klen"], "aB -\u00e9", 1)
        h.assume(Not(Or(k[0] == " ", k[-1] == " ")))
        for q, _ in items:
            h.assume(Not(k == q) if len(k) == len(q) else True)
        nm = h.str("f%d" % i, 2, "xX. ~\\%" if i == 0 else "xy. ", 1)
        h.assume(Not(Or(nm[0] == " ", nm[-1] == " ", nm == ".", nm == "..")))
        # absolute, relative, and through a symbolic link
        at = h.choose("abs%d" % i, 3)
        p = f.path("dir", nm) if at == 0 else f.raw(nm) if at == 1 else f.path("lnk", nm)
        items.append((k, p))
    m = immutabledict(items) if shape.get("imm", 1) else dict(items)
    path = f.path("out", "map.txt")
    write_doc_id_to_file_map(m, CharSink.to_file(path))
    got = read_doc_id_to_file_map(CharSource.from_file(path))
    h.check(len(got) == len(items), "number of documents")
    for k, p in items:
        h.check(k in got and got[k] == p.absolute(), "document with its absolute path")
    text = f.read(path).decode("utf-8") if not h.symbolic else CharSource.from_file(path).read_all()
    want = []
    rest = list(items)
    while rest:
        best = rest[0]
        for c in rest[1:]:
            if bool(c[0] < best[0]):
                best = c
        rest = [c for c in rest if c is not best]
        want.append(best[0] + "\t" + h.s(str(best[1].absolute()))
                    if not h.symbolic else best[0] + "\t" + best[1].absolute()._text() + "\n")
    if not h.symbolic:
        want = [w + "\n" for w in want]
    h.check(text == h.s("").join(want), "one line per document, in order")


def split_on(h, t, c):
    out, cur = [], h.s("")
    for x in t:
        if bool(x == c):
            out.append(cur)
            cur = h.s("")
        else:
            cur = cur + x
    out.append(cur)
    return out


def strip(h, t):
    a, b = 0, len(t)
    while a < b and bool(among(h, t[a], " \t\n")):
        a += 1
    while b > a and bool(among(h, t[b - 1], " \t\n")):
        b -= 1
    return t[a:b]


def c27_read(h, shape):
    """Reading any text as a document map."""
    from vistautils.io_utils import CharSource, read_doc_id_to_file_map

    t = h.str("text", shape["len"], shape.get("ab", "ab\t\n "), 0)
    lines = split_on(h, t, "\n")
    if not len(lines[-1]):
        lines = lines[:-1]
    want, bad = [], False
    for ln in lines:
        parts = split_on(h, ln, "\t")
        if len(parts) != 2:
            bad = True
            continue
        want.append((strip(h, parts[0]), strip(h, parts[1])))
    last = {}
    for i, (k, _) in enumerate(want):
        for j in list(last):
            if eq(want[j][0], k):
                h.cover("repeated")
                del last[j]
        last[i] = True
    want = [want[i] for i in last]
    got, e = h.attempt(read_doc_id_to_file_map, CharSource.from_string(t))
    if bad:
        h.check(isinstance(e, IOError), "bad line refused", repr(e))
        h.cover("bad line")
        return
    h.check(e is None, "read", repr(e))
    h.check(len(got) == len(want), "one entry per document")
    f = Files(h)
    for k, p in want:
        h.check(k in got and got[k] == f.raw(p), "document with its path")
        h.cover("entry")


def c27_lines(h, shape):
    """The set of lines of a file, in order, without blanks."""
    from vistautils.io_utils import file_lines_to_set

    f = Files(h)
    t = h.str("text", shape["len"], "ab \n\u2028\u000b", 0)
    p = f.path("lines")
    f.write(p, t)
    want = []
    for ln in split_on(h, t, "\n"):
        if len(ln) and not any(len(ln) == len(q) and bool(ln == q) for q in want):
            want.append(ln)
    got = list(file_lines_to_set(p))
    h.check(len(got) == len(want), "number of lines")
    for a, b in zip(got, want):
        h.check(eq(a, b), "lines in order of the file")


SCRIPT = [MODEL]

PROPS["C21"] = Prop(
    "C21",
    [
        H_("mapping", c21_mapping, [{"n": n} for n in (0, 1, 2)]
           + [{"n": 1, "fixed": 5}]),
        H_("interpret", c21_interpret, [{"n": n, "linear": x} for n in (0, 1, 2, 3)
                                        for x in (0, 1)]
           + [{"n": 1, "fixed": 10, "linear": x} for x in (0, 1)]),
        H_("reentered", c21_reentered, [{"chars": c, "puts": 1, "made": m}
                                        for c in (0, 1) for m in (0, 1)]),
        H_("errors", c21_errors, [{"how": "missing", "bytes": 0}, {"how": "missing", "bytes": 1},
                                  {"how": "linear"}, {"how": "values"}]),
        H_("tgz", c21_tgz, lambda tier: [
            {"n": n, "chars": c, "kinds": k} for c in (0, 1)
            for n, k in [(0, "f"), (1, "fdhspoc"), (2, "fd"), (2, "fh")]
            + ([] if tier == "quick" else [(2, "fdhsp"), (3, "fd"), (3, "fh")])]
           + [{"n": 1, "chars": c, "kinds": "f", "ab": "a./ A\u00e9"} for c in (0, 1)]),
        H_("undecodable", c21_undecodable, [{}]),
    ],
    bounds="up to 2 mapped files (one missing), two uses of one zip source between which its file changes, "
    "3 interpreted entries (and 5 and 10 known ones more), 2 (thorough 3) tar members; undecodable "
    "contents; keys, contents and filters arbitrary",
    outside="tar members of the same name, files changing while read",
    assumptions=[MODEL],
    covers=["absent", "present", "missing file", "failing interpretation"],
)
PROPS["C22"] = Prop(
    "C22",
    [H_("even", c22_even, lambda tier: [
        {"n": 0, "kab": "ab", "slices": 2, "hows": 1, "stale": 1},
        {"n": 1, "kab": "ab", "slices": 2, "hows": 1, "stale": 1},
        {"n": 2, "kab": NAMES, "slices": 3, "klen": 2},
        {"n": 3, "kab": "abc", "slices": 3, "_split": 4},
        {"n": 1, "kab": "10", "klen": 2, "slices": 4, "fixed": 11, "free": 1, "again": 0},
        {"n": 0, "kab": "a", "slices": 20, "fixed": 13, "free": 0}]
        + ([] if tier == "quick" else [{"n": 4, "kab": "abcd", "slices": 3, "_split": 5},
                                       {"n": 5, "kab": "abcde", "slices": 4, "again": 0,
                                        "_split": 5, "_opt": 1}]))],
    bounds="stores of up to 3 (thorough 5) entries split into up to 3 (4) slices, every shuffle, with and "
    "without outputs left by an earlier run and in another process (another order of sets); "
    "stores of 12 and 13 mostly known entries, up to 20 slices, some shuffles; output stores of an "
    "earlier run; sets iterated in two orders",
    outside="larger stores",
    assumptions=SCRIPT,
    covers=["refused"],
)
PROPS["C23"] = Prop(
    "C23",
    [H_("explicit", c23_explicit, lambda tier: [
        {"n": 1, "kab": NAMES, "splits": [1], "hows": 1, "both": 1, "klen": 2},
        {"n": 2, "kab": NAMES, "splits": [1, 1]},
        {"n": 1, "kab": "a ", "splits": [1], "klen": 3},
        {"n": 2, "kab": "ab", "splits": [2], "blank": 1, "stale": 1},
        {"n": 3, "kab": "abc", "splits": [2, 1], "flags": 0, "_split": 4},
        {"n": 1, "kab": "129", "klen": 2, "splits": [1, 0, 0], "fixed": 13},
        {"n": 0, "kab": "ab", "splits": []}]
        + ([] if tier == "quick" else [{"n": 3, "kab": "abcd", "splits": [2, 1], "_split": 5},
                                       {"n": 2, "kab": "ab", "splits": [1, 1, 1], "blank": 1,
                                        "_split": 5}]))],
    bounds="outputs new or left by an earlier run; stores of up to 2 (thorough 3) entries, up to 2 (3) splits of up to 2 listed keys with "
    "blank lines (and 13 known entries in 3 splits), every placement of the exhaustiveness flag",
    outside="larger splits, two splits with one output file",
    assumptions=SCRIPT,
    covers=["unknown key", "not exhaustive", "split"],
)
PROPS["C24"] = Prop(
    "C24",
    [H_("join", c24_join, lambda tier: [
        {"ns": [], "kab": "ab", "outs": 1}, {"ns": [1], "kab": NAMES, "outs": 1, "klen": 3},
        {"ns": [1, 1], "kab": NAMES, "outs": 1, "klen": 2}, {"ns": [2, 1], "kab": "abc"},
        {"ns": [1, 0], "kab": "ab", "again": 1}, {"ns": [2], "kab": "ab", "again": 1},
        {"ns": [0, 1, 1], "kab": "ab"}, {"ns": [1, 1, 1], "kab": "abc", "outs": 1, "_split": 4},
        {"ns": [1, 1], "kab": "01", "klen": 3, "fixed": 11}, {"ns": [0] * 12, "kab": "a", "fixed": 1},
        {"ns": [2, 2], "kab": "abcd", "_split": 4}]
        + ([] if tier == "quick" else [{"ns": [2, 2], "kab": "abcd", "_split": 4},
                                       {"ns": [2, 1, 1], "kab": "abcd", "outs": 1, "_split": 5},
                                       {"ns": [1, 1, 1, 1], "kab": "abcd", "_split": 5}]))],
    bounds="up to 3 (thorough 4) input stores of up to 2 entries, zip and directory outputs, new or left by an earlier run; "
    "2 stores with 11 known entries each, 12 stores with 1",
    outside="stores without key file, larger stores",
    assumptions=SCRIPT,
    covers=["duplicate", "joined"],
)
PROPS["C27"] = Prop(
    "C27",
    [
        H_("round_trip", c27_round_trip, [{"n": 0, "klen": 1}, {"n": 1, "klen": 2},
                                          {"n": 2, "klen": 1, "imm": 0},
                                          {"n": 1, "klen": 1, "fixed": 14}]),
        H_("read", c27_read, lambda tier: [{"len": 4 if tier == "quick" else 5, "_split": 3},
                                          {"len": 4, "ab": "aB\t~\\%#/$,\"", "_split": 3}]),
        H_("lines", c27_lines, lambda tier: [{"len": 4 if tier == "quick" else 6, "_split": 3}]),
    ],
    bounds="maps of up to 2 documents (and 14 known ones more) with identifiers of up to 2 characters; texts of up to 4 "
    "(thorough 5) characters; line files of up to 4 (6) characters",
    outside="longer texts, carriage returns",
    assumptions=SCRIPT,
    covers=["bad line", "entry", "repeated"],
)
PROPS["C30"] = Prop(
    "C30",
    [H_("downsample", c30_downsample, lambda tier: [
        {"n": 0}, {"n": 1, "hows": 1, "kab": NAMES, "klen": 2}, {"n": 2, "kab": NAMES},
        {"n": 1, "kab": "109", "klen": 2, "fixed": 11, "free": 1}]
        + ([{"n": 3, "_opt": 1, "_split": 4}] if tier == "quick" else
           [{"n": 3, "_split": 4}, {"n": 4, "_opt": 1, "_split": 5}]))],
    bounds="stores of up to 3 (thorough 4) entries, every sample size and shuffle, in this and another "
    "process (another order of sets), outputs new or left by an earlier run; 12 mostly known "
    "entries, every sample size, some shuffles",
    outside="larger stores; uniformity of the sample",
    assumptions=SCRIPT,
    covers=[],
)
PROPS["C42"] = Prop(
    "C42",
    [H_("directory", c42_directory, lambda tier: [
        x for c in (0, 1) for x in (
            {"chars": c, "puts": 0, "klen": 1, "kab": "a", "full": 1},
            {"chars": c, "puts": 1, "klen": 3, "kab": "ab/.", "full": 1, "vlen": 2},
            {"chars": c, "puts": 2, "klen": 3 if tier != "quick" else 2 + c, "kab": "a/",
             "fail": 1, "_split": 4},
            {"chars": c, "puts": 2, "klen": 1, "kab": "ab", "vlen": 2 - (tier == "quick")},
            {"chars": c, "puts": 1, "klen": 3, "kab": "1a/", "fixed": 12},
            {"chars": c, "puts": 1, "klen": 2, "kab": NAMES + ". ,", "vlen": 2},
            {"chars": c, "puts": 2, "klen": 2, "kab": "aA ", "hows": 0},
            {"chars": c, "puts": 1, "klen": 1, "kab": "ab", "reuse": 1},
            {"chars": c, "puts": 1, "klen": 1, "kab": "ab", "fail": "halt"},
            {"chars": c, "puts": 3, "klen": 1, "kab": "ab", "_split": 4,
             "hows": 1 if tier == "quick" else 3})
        + (() if tier == "quick" else (
            {"chars": c, "puts": 3, "klen": 3, "kab": "ab/", "_split": 5, "_opt": 1},))])],
    bounds="up to 3 puts (the first after 12 known ones) of keys of up to 3 characters, slashes and dots included, into an empty "
    "directory; a non-empty directory; normal and failing ends; entering again, also once emptied",
    outside="the key _index, keys of dots only or leaving the directory, keys with white space at "
    "an end, tabs or newlines (the index is a document map)",
    assumptions=[MODEL],
    covers=["kept", "refused", "clash", "repeated"],
)
