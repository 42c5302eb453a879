"""attrs helpers and qualified names."""
import importlib.machinery
import warnings

from sx.core import And, Iff, Implies, Not, Or
from sx.run import Harness, Prop

from harness.small import TYPES, _isa, c28_value


def at(h, n):
    """The value of a symbolic number on this path."""
    if h.symbolic:
        from sx import core

        return core.concretize(n.z)
    return n


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def made(h, **fields):
    """A class with these attributes."""
    import attr

    return attr.make_class("Made", fields)


# ------------------------------------------------------------------ C40
def c40_types(h, shape):
    """Type-checked attributes hold exactly instances of their type (or null, if optional)."""
    from vistautils import attrutils as a

    t = TYPES[h.choose("type", len(TYPES))]
    v, k = c28_value(h, "v")
    ok = _isa(v, k, t)
    op = shape["op"]
    kw = {}
    if op == "plain":
        if h.choose("given", 2):
            kw = {"default": v}
        c = made(h, x=quiet(a.attrib_instance_of, t, **kw))
    elif op == "opt":
        d, kd = c28_value(h, "d", 7)
        if h.choose("default", 2):
            kw = {"default": d}
        else:
            d, kd = None, 2
        c = made(h, x=quiet(a.attrib_opt_instance_of, t, **kw))
        r, e = h.attempt(c)
        good = kd == 2 or _isa(d, kd, t)
        h.check((e is None) == good, "default checked", repr(e))
        if e is None:
            h.check(r.x is d, "default used")
        ok = ok or v is None
    else:
        import attr

        c = made(h, x=attr.attrib(validator=quiet(a.opt_instance_of, t)))
        ok = ok or v is None
    if op == "plain" and kw:
        r, e = h.attempt(c)
    else:
        r, e = h.attempt(c, v) if h.choose("positional", 2) else h.attempt(c, x=v)
    h.check((e is None) == ok, "exactly the instances accepted", repr(e))
    if e is None:
        h.check(r.x is v, "value kept")
        h.cover("accepted")
    else:
        h.check(isinstance(e, TypeError), "type error", repr(e))
        h.cover("refused")
    if op == "plain" and not kw:
        _, e = h.attempt(c)
        h.check(isinstance(e, TypeError), "no default")


def c40_factory(h, shape):
    """Factory defaults: called once per object that is not given a value."""
    from vistautils.attrutils import attrib_factory

    calls = []

    def make():
        calls.append([h.int("e%d" % len(calls))])
        return calls[-1]

    c = made(h, x=quiet(attrib_factory, make))
    h.check(not calls, "not called before it is needed")
    want = 0
    for i in range(shape["n"]):
        if h.choose("given%d" % i, 2):
            v, _ = c28_value(h, "v%d" % i, 7)
            h.check(c(v).x is v, "given value kept")
        else:
            r = c()
            want += 1
            h.check(len(calls) == want and r.x is calls[-1], "its own value")
            h.cover("own")
        h.check(len(calls) == want, "called once per default")


def c40_collections(h, shape):
    """Collection attributes: converted copies of what is given, empty if optional and absent."""
    import immutablecollections as ic

    from vistautils import attrutils as a

    t = [ic.ImmutableSet, ic.ImmutableDict][shape["dict"]]
    items = [at(h, h.int("i%d" % i, 0, 2)) for i in range(shape["n"])]
    if shape["dict"]:
        given = {}
        for i, x in enumerate(items):
            given[x] = i
        want = list(given.items())
    else:
        given = items
        want = []
        for x in items:
            if x not in want:
                want.append(x)

    def check(got, want, label):
        h.check(isinstance(got, t), label + ": immutable")
        h.check(list(got.items() if shape["dict"] else got) == want, label + ": content")

    opt = h.choose("opt", 2)
    c = made(h, x=quiet(a.attrib_opt_immutable if opt else a.attrib_immutable, t))
    form = h.choose("form", 3)
    v = [given, t.of(given), iter(given.items() if shape["dict"] else given)][form]
    r, e = h.attempt(c, v)
    h.check(e is None, "accepted", repr(e))
    if form == 0:
        if shape["dict"]:
            given[9] = 9
        else:
            given.append(9)
    check(r.x, want, "given")
    # whatever else is given must be a collection
    b, kb = c28_value(h, "bad")
    if kb not in (2, 3, 4, 7, 9):
        _, e = h.attempt(c, b)
        h.check(e is not None, "not a collection")
    r, e = h.attempt(c)
    n, f = h.attempt(c, None)
    if opt:
        h.check(e is None and f is None, "absent or null", repr((e, f)))
        check(r.x, [], "absent")
        check(n.x, [], "null")
        h.cover("empty")
    else:
        h.check(isinstance(e, TypeError), "required")
        h.check(f is not None, "null refused")


def c40_builder(h, shape):
    """Private builders: one per object, not settable by the caller, refused for other types."""
    import immutablecollections as ic

    from vistautils import attrutils as a

    c = made(h, x=quiet(a.attrib_private_immutable_builder, ic.ImmutableSet))
    _, e = h.attempt(c, [1])
    h.check(isinstance(e, TypeError), "no constructor argument")
    objs = [c(), c()]
    parts = [[], []]
    for i in range(3):
        w = h.choose("w%d" % i, 2)
        v = at(h, h.int("v%d" % i, 0, 2))
        objs[w].x.add(v)
        if v not in parts[w]:
            parts[w].append(v)
    for o, p in zip(objs, parts):
        h.check(list(o.x.build()) == p, "own builder")
    for fn in (a.attrib_immutable, a.attrib_opt_immutable, a.attrib_private_immutable_builder):
        for bad in (list, dict, str):
            _, e = h.attempt(quiet, fn, bad)
            h.check(isinstance(e, ValueError), "mutable collections refused", repr(e))


def c40_non_empty(h, shape):
    """The validator of non-empty values refuses exactly the empty ones."""
    import attr

    from vistautils.attrutils import non_empty

    c = made(h, x=attr.attrib(validator=non_empty))
    n = h.choose("n", 3)

    class Sized:
        def __len__(self):
            return n

    class Contrary(Sized):
        """Its truth says nothing about its length."""

        def __bool__(self):
            return n == 0

    v = [lambda: [h.int("e")] * n, lambda: h.str("s", 2, "ab", 0), lambda: {i: 0 for i in range(n)},
         lambda: (None,) * n, lambda: Sized(), lambda: Contrary()][h.choose("kind", 6)]()
    r, e = h.attempt(c, v)
    h.check((e is None) == (len(v) > 0), "exactly the empty ones refused", repr(e))
    if e is None:
        h.check(r.x is v, "value kept")
    else:
        h.check(isinstance(e, ValueError), "value error", repr(e))


# ------------------------------------------------------------------ C41
class Named:
    """Stands for a class with this module and qualified name."""

    def __init__(self, module, name):
        self.__dict__["__module__"] = module
        self.__qualname__ = name
        self.__name__ = name.split(".")[-1]


def c41_names(h, shape):
    """Module, a dot and the qualified name; only the latter for built-in and module-less types."""
    import types

    from vistautils.class_utils import fully_qualified_name, fully_qualified_name_of_type

    kind = h.choose("kind", 4)
    name = h.str("name", 3, "A.b", 1)
    if h.choose("local", 2):
        # what classes made in functions are called
        name = name + h.s(".<locals>.") + h.str("in", 2, "A._", 1)
    if kind == 0:
        class Special(types.ModuleType):
            pass

        m = [types.ModuleType, Special][h.choose("special", 2)]("x")
        m.__name__ = name
        m.__package__ = [None, "", "p", "A"][h.choose("package", 4)]
        m.__file__ = [None, "/q/r.py"][h.choose("file", 2)]
        if h.choose("spec", 2):
            # as in a module that is run as a script
            m.__spec__ = importlib.machinery.ModuleSpec("q.r", None)
        h.check(fully_qualified_name(m) == name, "module")
        h.cover("module")
        return
    module = None
    if kind == 1:
        module = h.str("module", shape["n"], "builtns.", shape["n"])
        if shape.get("after"):
            module = h.s("builtins") + module
        if shape.get("before"):
            module = module + h.s("builtins")
        want = name if len(module) == 8 and bool(module == "builtins") else module + "." + name
    else:
        module = None if kind == 2 else h.s("builtins")
        want = name
    c = Named(module, name)
    h.check(fully_qualified_name(c) == want, "class")

    class Obj:
        __class__ = c

    h.check(fully_qualified_name_of_type(Obj()) == want, "type of an object")
    h.cover("class")


def c41_real(h, shape):
    """The real thing, for the standard types and nested classes."""
    from vistautils.class_utils import fully_qualified_name, fully_qualified_name_of_type

    v, k = c28_value(h, "v")
    want = ["int", "bool", "NoneType", "str", "list", "harness.small._B", "type", "tuple", "float",
            "dict"][k]
    h.check(fully_qualified_name_of_type(v) == want, "standard types",
            fully_qualified_name_of_type(v))
    h.check(fully_qualified_name(v.__class__) == want, "their classes")

    # a class defined in a script
    class Local:
        class Inner:
            pass

    for c in (Local, Local.Inner):
        c.__module__ = ["__main__", "a.b", "_x"][h.choose("module", 3) if c is Local else 0]
        h.check(fully_qualified_name(c) == c.__module__ + "." + c.__qualname__, "local classes")
        h.check(fully_qualified_name_of_type(c()) == c.__module__ + "." + c.__qualname__,
                "types of their objects")


PROPS = {
    "C40": Prop(
        "C40",
        [
            Harness("types", c40_types, [{"op": o, "_split": 2} for o in ("plain", "opt", "validator")]),
            Harness("factory", c40_factory, lambda tier: [
                {"n": n} for n in ((0, 2) if tier == "quick" else (0, 2, 4))]),
            Harness("collections", c40_collections, lambda tier: [
                {"n": n, "dict": d} for d in (0, 1)
                for n in ((0, 1, 2) if tier == "quick" else (0, 1, 2, 3, 4))]),
            Harness("builder", c40_builder, [{}]),
            Harness("non_empty", c40_non_empty, [{}], strings=True),
        ],
        bounds="values of nine kinds against nine types, up to 2 (thorough 4) objects with factory "
        "defaults, collections of up to 2 (4) elements in every form",
        outside="other attribute options, the multi-dictionaries",
        assumptions=["the attrs and immutablecollections libraries run as they are"],
        covers=["accepted", "refused", "own", "empty"],
    ),
    "C41": Prop(
        "C41",
        [
            Harness("names", c41_names, lambda tier: [
                {"n": 1, "after": 1}, {"n": 1, "before": 1}] + [
                {"n": n} for n in ((1, 8) if tier == "quick" else (1, 2, 7, 8, 9))], strings=True),
            Harness("real", c41_real, [{}]),
        ],
        bounds="module names of 1 and 8 (thorough up to 9) characters, qualified names of up to 3, "
        "also of local classes; module names around \"builtins\"",
        outside="longer names",
        covers=["module", "class"],
    ),
}
