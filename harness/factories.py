"""Objects from parameters: factories, values, special names and defaults."""
import functools
import sys
import types

from sx.core import And, Iff, Implies, Ite, Not, Or, Sum
from sx.run import Harness, Prop

from harness.files import FAKES, Files, eq
from harness.small import among
from harness.stores import MODEL, check_store, lookup, put_store


class Good:
    """What is asked for: remembers how it was made."""

    def __init__(self, how="constructed", params=None):
        self.how, self.params = how, params


class Falsy(Good):
    def __bool__(self):
        return False


class Bad:
    pass


class World:
    """Names an expression can use, and what they stand for."""

    def __init__(self, h):
        def fn(params):
            return Good("fn", params)

        def badfn(params):
            return Bad()

        class Plainclass(Good):
            def __init__(self):
                Good.__init__(self, "plain class")

        class FromParams(Good):
            @staticmethod
            def from_parameters(params):
                return Good("from_parameters", params)

        class Inherits(FromParams):
            pass

        class Caller:
            """A factory that is neither a function nor a class."""

            def __bool__(self):
                return False

            def __call__(self, params):
                return Good("caller", params)

            def method(self, params):
                return Good("method", params)

        def two(how, params):
            return Good(how, params)

        self.v, self.fn, self.special = Good("v"), fn, Good("special")
        self.falsy, self.special_falsy = Falsy("v2"), Falsy("special2")

        def special_fn(params):
            return Good("special_fn", params)

        self.context = {"v": self.v, "w": Bad(), "f": fn, "b": badfn, "c": FromParams,
                        "d": Plainclass, "i": Inherits, "n": 7, "k": Caller(),
                        "m": Caller().method, "p": functools.partial(two, "partial"),
                        "g": self.falsy}
        self.special_values = {h.s("s"): self.special, h.s("u"): Bad(),
                               h.s("t"): self.special_falsy}
        self.special_factories = {h.s("x"): special_fn, h.s("y"): FromParams, h.s("z"): h.s("f"),
                                  h.s("o"): Caller()}
        self.defaults = {"fn": fn, "cls": FromParams, "plain": Plainclass, "bad": badfn,
                         "caller": Caller()}

    def value(self, c):
        """The object named by a value expression: an object or None for an error."""
        if c == "s":
            return self.special
        return {"v": self.v, "g": self.falsy, "t": self.special_falsy}.get(c)

    def made(self, c):
        """How the factory named c makes its object (None: refused)."""
        return {"f": "fn", "c": "from_parameters", "i": "from_parameters", "d": "plain class",
                "x": "special_fn", "y": "from_parameters", "z": "fn", "k": "caller",
                "m": "method", "p": "partial", "o": "caller"}.get(c)


NAMES = "vwfbcdinsuxyzqkmpgto"


def pick(h, name, alphabet):
    """A one-letter string of the alphabet and its plain letter."""
    s = h.str(name, 1, alphabet, 1)
    for c in alphabet:
        if bool(s == c):
            return s, c
    raise AssertionError


def expect(h, got, err, how, params_check, label):
    """how: None for an error, an object for itself, or the way it must have been made."""
    if how is None:
        h.check(err is not None, label + ": refused", repr(got))
        return
    h.check(err is None, label + ": accepted", repr(err))
    if isinstance(how, Good):
        h.check(got is how, label + ": the object itself")
        return
    h.check(type(got) is Good or how == "plain class", label + ": what the factory returned")
    h.check(got.how == how, label + ": made by the right factory", "%r %r" % (got.how, how))
    if how != "plain class":
        params_check(got.params)


def c31_objects(h, shape):
    """Which object a parameter stands for."""
    from vistautils.parameters import Parameters

    w = World(h)
    kind = shape["kind"]
    kw = {}
    vname, fname = "value", "factory"
    if shape.get("renamed"):
        vname, fname = "val", "type"
        kw = {"value_namespace_param_name": h.s("val"), "factory_namespace_param_name": h.s("type")}
    dv = [None, Good("default"), Falsy("falsy"), Bad()][h.choose("default", 4)]
    df = [None, "fn", "cls", "plain", "bad", "caller"][h.choose("default_factory", 6)]
    if dv is not None:
        kw["default_value"] = dv
    if df is not None:
        kw["default_factory"] = w.defaults[df]
    nested = h.choose("nested", 2)
    n = h.int("n")
    prefix = (("a", "t") if nested else ("t",))
    content = {}
    if kind == "string":
        s, c = pick(h, "sel", NAMES)
        if h.choose("padded", 2):
            # no longer a special name, though Python would not mind
            s = s + " "
            c = {"v": "v", "g": "g"}.get(c, c if c in w.context else "q")
        content[h.s("t")] = s
    elif kind == "namespace":
        ns = {h.s("n"): n}
        vs, fs = h.choose("has_value", 2), h.choose("has_factory", 2)
        if vs:
            s, c = pick(h, "value", NAMES if not fs else "vs")
            ns[h.s(vname)] = s
        if fs:
            s, c = pick(h, "factory", NAMES if not vs else "fx")
            ns[h.s(fname)] = s
        content[h.s("t")] = ns
    elif kind == "other":
        content[h.s("t")] = [h.int("t"), [h.s("v")], False, 0][h.choose("what", 4)]
    if nested:
        content = {h.s("a"): content}
    params = Parameters.from_mapping(content)
    got, err = h.attempt(
        params.object_from_parameters, h.s("a.t") if nested else h.s("t"), Good,
        context=w.context, special_values=w.special_values, special_factories=w.special_factories,
        **kw)

    def whole(p):
        h.check(isinstance(p, Parameters), "factories get parameters")
        h.check(p.integer(h.s("n")) == n, "factories get the namespace")
        h.check(h.s(".").join(list(p.namespace_prefix)) == h.s(".".join(prefix)), "namespace keeps its path",
                repr(p.namespace_prefix))

    def empty(p):
        h.check(isinstance(p, Parameters) and len(list(p.as_mapping())) == 0,
                "factories without namespace get empty parameters")
        h.check(h.s(".").join(list(p.namespace_prefix)) == h.s(".".join(prefix)), "empty parameters name their path",
                repr(p.namespace_prefix))

    def by_default(check):
        if dv is not None:
            how = None if isinstance(dv, Bad) else dv
            h.cover("default value")
        else:
            how = {"fn": "fn", "cls": "from_parameters", "plain": "plain class",
                   "caller": "caller"}.get(df)
            h.cover("default factory" if how else "no default")
        expect(h, got, err, how, check, "default")

    if kind == "absent":
        by_default(empty)
    elif kind == "other":
        h.check(err is not None, "neither string nor namespace: refused", repr(got))
    elif kind == "string":
        how = w.value(c)
        if how is None and c in "xyzo":
            how = w.made(c)
        expect(h, got, err, how, empty, "string")
        h.cover("string")
    elif vs and fs:
        h.check(err is not None, "both value and factory: refused", repr(got))
    elif vs:
        expect(h, got, err, w.value(c), whole, "value")
        h.cover("value")
    elif fs:
        expect(h, got, err, w.made(c), whole, "factory")
        h.cover("factory")
    else:
        by_default(whole)


def make_modules(h):
    """Importable modules for the evaluation of qualified names."""
    log = []
    a, b = types.ModuleType("sxmod"), types.ModuleType("sxmod.sub")
    a.__path__ = []
    a.sub = b
    a.v, b.v = Good("sxmod.v"), Good("sxmod.sub.v")

    def make(params):
        return Good("sxmod.sub.make", params)

    b.make = make
    sys.modules["sxmod"], sys.modules["sxmod.sub"] = a, b
    sys.modules["sxother"] = types.ModuleType("sxother")
    return a, b


def c31_qualified(h, shape):
    """Qualified names import what they need; so does the import list of a namespace."""
    from vistautils.parameters import Parameters

    a, b = make_modules(h)
    try:
        exprs = [("sxmod.v", a.v), ("sxmod.sub.v", b.v), ("sxmod.sub.w", None),
                 ("sxnone.v", None), ("sxmod.sub.v if True else 0", b.v)]
        how = h.choose("how", 6)
        if how == 0:
            e, want = exprs[h.choose("expr", 4)]
            got, err = h.attempt(Parameters.from_mapping({h.s("t"): h.s(e)}).object_from_parameters,
                                 h.s("t"), Good, context={"q": 1} if h.choose("ctx", 2) else None)
        elif how == 1:
            e, want = exprs[[0, 1, 2, 4][h.choose("expr", 4)]]
            ns = {h.s("value"): h.s(e)}
            imports = h.choose("imports", 5)
            if imports:
                ns[h.s("import")] = [
                    h.s(m) for m in [["sxmod"], ["sxmod.sub"], ["sxother", "sxmod"],
                                     ["sxmod", "sxother"]][imports - 1]]
            else:
                want = None
            got, err = h.attempt(Parameters.from_mapping({h.s("t"): ns}).object_from_parameters,
                                 h.s("t"), Good)
        elif how == 2:
            ns = {h.s("factory"): h.s("sxmod.sub.make"), h.s("n"): h.int("n")}
            want = None
            if h.choose("imports", 2):
                ns[h.s("import")] = [h.s("sxmod.sub")]
                want = "sxmod.sub.make"
            got, err = h.attempt(Parameters.from_mapping({h.s("t"): ns}).object_from_parameters,
                                 h.s("t"), Good)
        elif how == 3:
            e, want = exprs[h.choose("expr", 4)]
            got, err = h.attempt(Parameters.from_mapping({h.s("t"): h.s(e)}).evaluate,
                                 h.s("t"), Good)
        elif how == 4:
            want = None
            got, err = h.attempt(Parameters.from_mapping({h.s("t"): h.s("sxmod.v")}).evaluate,
                                 h.s("t"), Bad)
        else:
            want = "sxmod.sub.make"
            got, err = h.attempt(
                Parameters.from_mapping({h.s("t"): h.s("k")}).object_from_parameters, h.s("t"),
                Good, special_factories={h.s("k"): h.s("sxmod.sub.make")})
    finally:
        del sys.modules["sxmod"], sys.modules["sxmod.sub"], sys.modules["sxother"]
    expect(h, got, err, want, lambda p: h.check(isinstance(p, Parameters), "parameters"),
           "qualified")


def c31_evaluate(h, shape):
    """Expressions as parameters: context, shortcuts, expected types, defaults."""
    from vistautils.parameters import ParameterError, Parameters

    x, y = h.int("x"), h.int("y")
    ctx = {"x": x, "y": y, "z": "text"}
    s, c = pick(h, "expr", "xyzq1")
    kw = {}
    special = {}
    if h.choose("special", 2):
        special = {h.s("x"): h.s("y"), h.s("q"): h.s("x+y")}
        kw["special_values"] = special
    want = {"x": x, "y": y, "1": 1}.get(c)
    if special and c in "xq":
        want = y if c == "x" else x + y
    how = h.choose("how", 5)
    if how == 0:
        m = {h.s("t"): s}
    elif how == 1:
        m = {h.s("t"): {h.s("value"): s}}
    elif how == 2:
        m = {h.s("t"): {h.s("expr"): s}}
        kw["namespace_param_name"] = h.s("expr")
    elif how == 3:
        m = {}
        want = None
    else:
        m = {h.s("t"): {h.s("other"): s}}
        want = None
    default = None
    if h.choose("default", 2):
        kw["default"] = default = h.int("d")
    got, err = h.attempt(Parameters.from_mapping(m).evaluate, h.s("t"), int, context=ctx, **kw)
    if how == 3 and default is not None:
        h.check(err is None, "default of an absent parameter", repr(err))
        h.check(got == default, "value of the default")
    elif want is None:
        h.check(isinstance(err, ParameterError), "refused", repr(err or got))
    else:
        h.check(err is None, "evaluated", repr(err))
        h.check(got == want, "value of the expression")
    h.check(sorted(ctx) == ["x", "y", "z"], "the context is left alone")


# ------------------------------------------------------------------ key-value stores by parameters
def c31_source(h, shape):
    """Shortcuts, defaults and factories of key-value sources."""
    import vistautils.key_value as kvm
    from vistautils.parameters import Parameters

    f = Files(h)
    chars = h.choose("chars", 2)
    name = ("byte", "char")[chars] + ("_key_value_source_from_params",
                                      "_key_value_linear_source_from_params")[h.choose("linear", 2)]
    store = put_store(h, f, 1, "ab", vab="x\u00e9\ufeff")
    zp, mp = f.path("s.zip"), f.path("map")
    f.make_zip(zp, [(k, v.encode("utf-8")) for k, v in store]
               + [(h.s("__keys"), store[0][0].encode("utf-8"))])
    fp = f.path("in", "f")
    f.write(fp, store[0][1])
    f.write(mp, store[0][0] + "\t" + h.s(str(fp)) + "\n")
    class Custom(kvm.KeyValueSource):
        def __init__(self, params):
            self.p = params

        def __getitem__(self, k):
            return self.p.string(h.s("path"))

        get = __getitem__

        def __exit__(self, *a):
            return False

    how = h.choose("how", 7)
    kw = {}
    ns = {}
    if how == 0:
        ns = {"type": "zip", "path": str(zp)}
    elif how == 1:
        ns = {"type": "file-map", "path": str(mp)}
    elif how == 2:
        ns = {"path": str(mp)}
    elif how == 3:
        ns = {"type": "mine", "path": "p"}
        kw["eval_context"] = {"mine": Custom}
    elif how == 4:
        ns = {"type": "nothing", "path": str(zp)}
    elif how == 5:
        ns = {"type": "mine", "path": "p"}
        kw["eval_context"] = {"mine": lambda p: 3}
    else:
        # the context goes before what the module itself knows
        ns = {"type": "CharSource", "path": "p"}
        kw["eval_context"] = {"CharSource": lambda p: Custom(p)}
        how = 3
    if how == 3 and ns["type"] == "mine":
        kw["eval_context"] = {"mine": lambda p: Custom(p)}
    space = "input"
    if h.choose("space", 2):
        space = "from"
        kw["input_namespace"] = h.s("from")
    params = Parameters.from_mapping({h.s(space): {h.s(a): h.s(b) for a, b in ns.items()}})
    src, e = h.attempt(getattr(kvm, name), params, **kw)
    if how > 3:
        h.check(e is not None, "unknown or wrong type refused", repr(src))
        return
    h.check(e is None, "source accepted", repr(e))
    if how == 3:
        h.check(type(src) is Custom and src[h.s("a")] == h.s("p"), "source of the given factory")
        return
    with src:
        got = list(src.items())
    h.check(len(got) == 1, "items of the source")
    k, v = store[0]
    h.check(eq(got[0][0], k), "key")
    h.check(isinstance(got[0][1], str) == bool(chars), "characters or bytes")
    h.check(eq(got[0][1] if not chars else got[0][1].encode("utf-8"), v.encode("utf-8")), "value")


def c31_sink(h, shape):
    """Shortcuts, defaults and factories of key-value sinks."""
    import vistautils.key_value as kvm
    from vistautils.parameters import Parameters

    f = Files(h)
    chars = h.choose("chars", 2)
    make = getattr(kvm, ("byte", "char")[chars] + "_key_value_sink_from_params")
    store = put_store(h, f, 2, "ab")
    path = f.path("out")
    how = h.choose("how", 6)
    kw = {}
    made = []

    def mine(p):
        made.append(p)
        return (kvm.KeyValueSink.zip_character_sink if chars
                else kvm.KeyValueSink.zip_bytes_sink)(path)

    if how == 0:
        ns = {"type": "zip", "path": str(path)}
    elif how >= 4:
        name = ["mine", "CharSource"][how - 4]
        ns = {"type": name, "path": str(path)}
        kw["eval_context"] = {name: mine}
    else:
        path.mkdir()
        ns = [{"type": "directory"}, {"type": "file-map"}, {"type": "nothing"}][how - 1]
        ns["path"] = str(path)
    space = "output"
    if h.choose("space", 2):
        space = "to"
        kw["output_namespace"] = h.s("to")
    params = Parameters.from_mapping({h.s(space): {h.s(a): h.s(b) for a, b in ns.items()}})
    sink, e = h.attempt(make, params, **kw)
    if how == 3:
        h.check(e is not None, "unknown type refused", repr(sink))
        return
    h.check(e is None, "sink accepted", repr(e))
    with sink as out:
        for k, v in store:
            out.put(k, v if chars else v.encode("utf-8"))
    S = kvm.KeyValueSource
    h.check(len(made) == (how >= 4), "the factory of the context is called once")
    if how == 0 or how >= 4:
        src = S.zip_bytes_source(path)
    else:
        src = S.binary_from_doc_id_to_file_map(path / "_index")
    with src:
        got = list(src.items())
    h.check(len(got) == len(store), "all keys written")
    for k, v in store:
        w = lookup(h, got, k)
        h.check(w is not None and eq(w, v.encode("utf-8")), "key with its value")


def H_(name, fn, shapes, **k):
    return Harness(name, fn, shapes, strings=True, fakes=FAKES + ("importlib",), **k)


PROPS = {
    "C31": Prop(
        "C31",
        [
            H_("objects", c31_objects, [{"kind": k, "renamed": r} for r in (0, 1) for k in
                                        ("string", "namespace", "absent", "other")
                                        if not r or k == "namespace"]),
            H_("qualified", c31_qualified, [{}]),
            H_("evaluate", c31_evaluate, [{}]),
            H_("source", c31_source, [{}]),
            H_("sink", c31_sink, [{}]),
        ],
        bounds="every combination of presence, value, factory, special values and factories, "
        "defaults and expected types over one-letter expressions of 20 meanings, with blanks around special strings, nested or not",
        outside="other expressions (they are evaluated by Python itself), the evaluation without "
        "context",
        assumptions=[MODEL, "eval and imports are Python's own"],
        covers=["string", "value", "factory", "default value", "default factory", "no default"],
    ),
}
