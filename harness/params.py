"""Parameters: lookup, typed accessors, unification, conversions, interpolation, loading."""
import os

from sx.core import And, Iff, Implies, Ite, Not, Or, Sum
from sx.run import Harness, Prop

from harness.small import among

# names users choose
NAMES = "aB0_-\u00e9 %:/"

FAKES = ("re", "io", "pathlib", "shutil", "os", "yaml")


class Tree:
    """Spec of a namespace: ordered (key, value) pairs; a value may be a Tree."""

    def __init__(self, pairs=()):
        self.pairs = list(pairs)

    def mapping(self):
        return {k: v.mapping() if isinstance(v, Tree) else v for k, v in self.pairs}

    def get(self, key):
        for k, v in self.pairs:
            if k == key:
                return v
        return MISSING

    def leaves(self, prefix=()):
        for k, v in self.pairs:
            if isinstance(v, Tree):
                yield from v.leaves(prefix + (k,))
            else:
                yield prefix + (k,), v

    def has_empty(self):
        return any(isinstance(v, Tree) and (not v.pairs or v.has_empty()) for _, v in self.pairs)


MISSING = object()


def dotted(h, parts):
    out = h.s("")
    for i, p in enumerate(parts):
        out = out + (h.s(".") if i else h.s("")) + p
    return out


def key(h, name, others, alphabet="ab", klen=1):
    k = h.str(name, klen, alphabet, 1)
    for o in others:
        h.assume(Not(k == o))
    return k


def leaf(h, name, kinds=3):
    k = h.choose(name + ".leaf", kinds)
    if k == 0:
        return h.int(name)
    return [h.s(""), [], [h.int(name)], False, h.s("v.%v"), 0,
            [{h.s("a"): h.int(name)}, [None]]][k - 1]


def tree(h, name, width, depth, alphabet="ab", kinds=2, min_width=0, klen=1):
    """A namespace with up to ``width`` entries per level."""
    n = min_width + h.choose(name + ".n", width - min_width + 1)
    pairs = []
    for i in range(n):
        nm = "%s%d" % (name, i)
        k = key(h, nm + ".k", [p for p, _ in pairs], alphabet, klen)
        if depth > 0 and h.choose(nm + ".ns", 2):
            v = tree(h, nm, width, depth - 1, alphabet, kinds, klen=klen)
        else:
            v = leaf(h, nm, kinds)
        pairs.append((k, v))
    return Tree(pairs)


def alike(x, v):
    """x is v, or a copy of it that cannot be told from it."""
    if x is v:
        return True
    if x.__class__ is not v.__class__:
        return False
    if isinstance(v, (list, tuple)):
        return len(x) == len(v) and And(*[alike(a, b) for a, b in zip(x, v)])
    if isinstance(v, dict):
        return len(x) == len(v) and And(*[And(alike(a, b), alike(x[a], v[b]))
                                          for a, b in zip(x, v)])
    return x == v


def same_mapping(h, got, want, label):
    """got (nested dicts) holds exactly the spec tree, with the very same values."""
    from collections.abc import Mapping

    h.check(isinstance(got, Mapping), label + ": not a mapping", repr(got))
    h.check(len(got) == len(want.pairs), label + ": number of entries",
            "%r / %r" % (got, want.mapping()))
    items = list(got.items())
    for k, v in want.pairs:
        hit = [x for kk, x in items if kk == k]
        h.check(len(hit) == 1, label + ": entry missing", repr(k))
        if isinstance(v, Tree):
            same_mapping(h, hit[0], v, label)
        else:
            h.check(alike(hit[0], v), label + ": value", "%r / %r" % (hit[0], v))


def same_items(h, got, want, label):
    """got: (name, value) pairs; want: (parts, value) pairs; as sets."""
    got = list(got)
    h.check(len(got) == len(want), label + ": number of entries", repr(got))
    for parts, v in want:
        name = dotted(h, parts)
        hit = [x for n, x in got if n == name]
        h.check(len(hit) == 1, label + ": entry missing", repr(name))
        h.check(alike(hit[0], v), label + ": value")


def prefixes_ok(h, params, parts, label):
    """Every namespace knows the path that leads to it."""
    from vistautils.parameters import Parameters

    h.check(len(params.namespace_prefix) == len(parts)
            and And(*[a == b for a, b in zip(params.namespace_prefix, parts)]),
            label + ": namespace prefix", repr((params.namespace_prefix, parts)))
    for k, v in params.as_nested_dicts().items():
        if params.has_namespace(k):
            prefixes_ok(h, params.namespace(k), tuple(parts) + (k,), label)


def resolve(h, t, q):
    """Spec lookup of a dotted name: (status, value)."""
    comps, cur = [], 0
    for i in range(len(q) + 1):
        if i == len(q) or bool(among(h, q[i], ".")):
            comps.append(q[cur:i])
            cur = i + 1
    node = t
    for c in comps:
        if not isinstance(node, Tree):
            return "leaf", None
        node = node.get(c)
        if node is MISSING:
            return "absent", None
    return "found", node


# ------------------------------------------------------------------ C15
TREES = {
    "flat": lambda v: [("a", v[0]), ("b", v[1])],
    "nested": lambda v: [("a", [("a", v[0]), ("b", [("a", v[1])])]), ("b", v[2])],
    "deep": lambda v: [("a", [("a", [("a", [("b", v[0])])])])],
    "empty": lambda v: [],
    "emptyns": lambda v: [("a", []), ("b", v[0])],
    "names": lambda v: [("a-B", [("0_", v[0]), ("a", v[1]), ("\u00e9 ", [("B", v[0])])]),
                        ("a", v[2]), ("aa", v[1]), ("a_", v[1]), ("B", [("aa", v[0])])],
    "digits": lambda v: [("1", v[0]), ("0", [("1", v[1])]), ("a", v[2])],
    "emptykey": lambda v: [("", [("", v[0])]), ("a", v[1])],
}


LETTERS = {"names": "aB-0_\u00e9 .", "digits": "a01-."}


def to_tree(h, d):
    if isinstance(d, list) and not isinstance(d, Leaf):
        return Tree([(h.s(k), to_tree(h, v)) for k, v in d])
    return d.v if isinstance(d, Leaf) else d


class Leaf(list):
    def __init__(self, v):
        self.v = v


def fixed_tree(h, name):
    vals = [Leaf(leaf(h, "v%d" % i, 3)) for i in range(2)] + [
        Leaf([h.int("v2"), h.s("a.a"), 0][h.choose("v2.kind", 3)] if name == "names"
             else [[h.int("v2"), h.int("v3")], h.s("aa"), [{h.s("1"): h.int("v2")}],
                   1][h.choose("v2.kind", 4)] if name == "digits"
             else h.int("v2"))]
    return to_tree(h, TREES[name](vals))


def c15_lookup(h, shape):
    from vistautils.parameters import ParameterError, Parameters

    t = fixed_tree(h, shape["tree"])
    p = Parameters.from_mapping(t.mapping())
    q = h.str("q", shape["n"], LETTERS.get(shape["tree"], "ab."), shape["n"])
    st, v = resolve(h, t, q)
    op = shape["op"]
    d = h.int("default")
    present = st == "found"
    h.cover(st)
    if op == "get":
        r, err = h.attempt(p.get, q, object)
        if present:
            h.check(err is None, "present parameter not found", repr(err))
            if isinstance(v, Tree):
                same_mapping(h, r.as_nested_dicts(), v, "namespace")
            else:
                h.check(alike(r, v), "another value")
        else:
            h.check(isinstance(err, ParameterError), "missing parameter", repr((r, err)))
        r, err = h.attempt(p.get, q, object, d)
        h.check(err is None, "default not used", repr(err))
        if not present:
            h.check(alike(r, d), "default not returned")
        elif not isinstance(v, Tree):
            h.check(alike(r, v), "default instead of the value")
    elif op == "in":
        r, err = h.attempt(lambda: q in p)
        h.check(err is None, "membership raised", repr(err))
        h.check(Iff(r, present), "membership")
    elif op == "optional":
        r, err = h.attempt(p.get_optional, q, object)
        h.check(err is None, "optional lookup raised", repr(err))
        if not present:
            h.check(r is None, "something found for a missing parameter")
        elif not isinstance(v, Tree):
            h.check(alike(r, v), "another value")
        else:
            same_mapping(h, r.as_nested_dicts(), v, "namespace")
        r, err = h.attempt(lambda: p.get_optional(q, object, default=d))
        h.check(err is None, "optional lookup raised", repr(err))
        if not present:
            h.check(alike(r, d), "default not returned")
        elif not isinstance(v, Tree):
            h.check(alike(r, v), "default instead of the value")
    elif op == "ns":
        isns = present and isinstance(v, Tree)
        h.check(Iff(p.has_namespace(q), isns), "has_namespace")
        r, err = h.attempt(p.namespace, q)
        if isns:
            h.check(err is None, "namespace not found", repr(err))
            same_mapping(h, r.as_nested_dicts(), v, "namespace")
        else:
            h.check(isinstance(err, ParameterError), "namespace of a non-namespace", repr(err))
        r = p.optional_namespace(q)
        if isns:
            same_mapping(h, r.as_nested_dicts(), v, "optional_namespace")
        else:
            h.check(r is None, "optional_namespace of a non-namespace")
        r, err = h.attempt(p.namespace_or_empty, q)
        if isns:
            same_mapping(h, r.as_nested_dicts(), v, "namespace_or_empty")
        elif present:
            h.check(isinstance(err, ParameterError), "leaf taken for a namespace")
        else:
            h.check(err is None, "namespace_or_empty raised", repr(err))
            h.check(len(r.as_nested_dicts()) == 0, "empty namespace has content")
            h.check(h.s(".").join(r.namespace_prefix) == q, "prefix of the empty namespace")


def c15_compose(h, shape):
    """Looking up a dotted name equals looking up its parts one after the other."""
    from vistautils.parameters import Parameters

    t = fixed_tree(h, shape["tree"])
    p = Parameters.from_mapping(t.mapping())
    wide = shape["tree"] == "names"
    a = h.str("x", 3, "aB-", 1) if wide else h.str("x", 1, "aA", 1)
    rest = h.str("y", 4 if wide else 3, "aB0_\u00e9 ." if wide else "ab.", 1)
    ns = p.optional_namespace(a)
    h.assume(ns is not None)
    full = a + h.s(".") + rest
    v1, e1 = h.attempt(p.get, full, object)
    v2, e2 = h.attempt(ns.get, rest, object)
    h.check((e1 is None) == (e2 is None), "dotted lookup differs from stepwise lookup")
    if e1 is None:
        h.check(alike(v1, v2), "dotted lookup finds another value")
        h.cover("composed")
    h.check((full in p) == (rest in ns), "membership differs")


def c15_exactly_one(h, shape):
    from vistautils.parameters import ParameterError, Parameters

    t = fixed_tree(h, shape["tree"])
    p = Parameters.from_mapping(t.mapping())
    names = [h.str("q%d" % i, 3, "ab.", 1) for i in range(shape["n"])]
    n = sum(1 for q in names if resolve(h, t, q)[0] == "found")
    given = {"list": list, "tuple": tuple, "iter": iter, "gen": lambda ns: (x for x in ns)}
    _, err = h.attempt(p.assert_exactly_one_present, given[shape["kind"]](names))
    if n == 1:
        h.check(err is None, "exactly one present but refused", repr(err))
        h.cover("one")
    else:
        h.check(isinstance(err, ParameterError), "%d present but accepted" % n, repr(err))
        h.cover("not one")


# ------------------------------------------------------------------ C16
def value_of_kind(h, name, kinds):
    """(present, value, kind)"""
    k = kinds[h.choose(name + ".kind", len(kinds))]
    v = {
        "absent": lambda: None,
        "int": lambda: h.int(name),
        "bool": lambda: h.bool(name),
        "real": lambda: h.real(name),
        "str": lambda: h.str(name, 2, "xyX", 0),
        "words": lambda: h.s(WORDS[h.choose(name + ".word", len(WORDS))]),
        "tuple": lambda: (h.int(name),) if h.choose(name + ".size", 2) else (),
        "list": lambda: [h.int(name)],
        "empty_list": lambda: [],
        "ns": lambda: {h.s("k"): h.int(name)},
        "none": lambda: None,
        "odd": lambda: [float("inf"), float("-inf"), float("nan"), 5e-324, 2.0 ** 60][
            h.choose(name + ".odd", 5)],
    }[k]()
    return v, {"odd": "real", "words": "str"}.get(k, k)


WORDS = ("true", "False", "yes", "1", "-2", "1.5", "nan", "none", "[]", "1,2", " ")
KINDS = ("absent", "int", "bool", "real", "str", "list", "empty_list", "ns", "odd", "words", "tuple")
PYTYPE = {"int": (int, "int", "bool"), "real": (float, "real"), "bool": (bool, "bool"),
          "str": (str, "str"), "list": (list, "list", "empty_list")}


def mk_params(h, v, k):
    from vistautils.parameters import Parameters

    inner = [] if k == "absent" else [(h.s("p"), v)]
    where = h.choose("where", 2)
    if where:
        m = {h.s("n"): dict(inner)}
        return Parameters.from_mapping(m), h.s("n.p")
    return Parameters.from_mapping(dict(inner)), h.s("p")


def mk_range(h, num, name, nan=False):
    """(range or None, predicate)"""
    from vistautils.range import Range

    k = h.choose(name + ".range", 4)
    # whether a range without lower bound has room for not-a-number is left open
    h.assume(not (nan and k == 2))
    if k == 0:
        return None, lambda x: True
    lo = num(name + ".lo")
    if k == 1:
        return Range.at_least(lo), lambda x: x >= lo
    if k == 2:
        return Range.less_than(lo), lambda x: x < lo
    hi = num(name + ".hi")
    h.assume(lo <= hi)
    return Range.closed(lo, hi), lambda x: And(lo <= x, x <= hi)


def expect(h, fn, want, ok, label):
    """fn() gives exactly ``want`` when ok, a ParameterError otherwise."""
    from vistautils.parameters import ParameterError

    r, err = h.attempt(fn)
    if err is not None:
        h.check(isinstance(err, ParameterError), label + ": wrong error", repr(err))
        h.check(Not(ok), label + ": legal value refused", repr(err))
        h.cover("refused")
    else:
        h.check(ok, label + ": illegal value accepted", repr(r))
        h.check(alike(r, want), label + ": another value", "%r / %r" % (r, want))
        h.cover("returned")


def c16_accessor(h, shape):
    op = shape["op"]
    v, k = value_of_kind(h, "v", KINDS)
    d, dk = value_of_kind(h, "d", shape["defaults"])
    p, name = mk_params(h, v, k)
    val, vk = (d, dk) if k == "absent" else (v, k)
    nan = type(val) is float and val != val
    absent = k == "absent"
    none = val is None
    isint = vk in ("int", "bool")
    dflt = {} if dk == "none" else {"default": d}
    if op == "integer":
        r, pred = mk_range(h, h.int, "r")
        kw = dict(dflt, **({"valid_range": r} if r is not None else {}))
        expect(h, lambda: p.integer(name, **kw), val, isint and pred(val), op)
    elif op == "positive_integer":
        expect(h, lambda: p.positive_integer(name, **dflt), val, isint and val > 0, op)
    elif op == "optional_integer":
        expect(h, lambda: p.optional_integer(name, **dflt), val, absent or isint, op)
    elif op == "optional_positive_integer":
        expect(h, lambda: p.optional_positive_integer(name, **dflt), val,
               none or (isint and val > 0), op)
    elif op == "floating_point":
        r, pred = mk_range(h, h.real, "r", nan)
        expect(h, lambda: p.floating_point(name, r, **dflt), val, vk == "real" and pred(val), op)
    elif op == "optional_floating_point":
        r, pred = mk_range(h, h.real, "r", nan)
        expect(h, lambda: p.optional_floating_point(name, r, **dflt), val,
               none or ((vk == "real" or absent and vk == "int") and pred(val)), op)
    elif op == "optional_float":
        r, pred = mk_range(h, h.real, "r", nan)
        expect(h, lambda: p.optional_float(name, r), v, absent or (k == "real" and pred(v)), op)
    elif op == "optional_boolean_with_default":
        b = h.bool("b")
        expect(h, lambda: p.optional_boolean_with_default(name, b), b if absent else v,
               absent or k == "bool", op)
    elif op == "boolean":
        expect(h, lambda: p.boolean(name, **dflt), val, vk == "bool", op)
    elif op == "optional_boolean":
        expect(h, lambda: p.optional_boolean(name, **dflt), val, absent or vk == "bool", op)
    elif op in ("string", "optional_string"):
        n = h.choose("options", 4)
        opts = None if n == 0 else [h.str("o%d" % i, 2, "xyX", 0) for i in range(n - 1)]
        isstr = vk == "str"
        good = And(isstr, True if opts is None else isstr and Or(*[val == o for o in opts]))
        if op == "string":
            expect(h, lambda: p.string(name, opts, **dflt), val, good, op)
        else:
            expect(h, lambda: p.optional_string(name, opts, **dflt), val, absent or good, op)
    elif op == "arbitrary_list":
        expect(h, lambda: p.arbitrary_list(name, **dflt), val, vk in ("list", "empty_list"), op)
    elif op == "optional_arbitrary_list":
        expect(h, lambda: p.optional_arbitrary_list(name, **dflt), val,
               absent or vk in ("list", "empty_list"), op)
    elif op == "get":
        t = shape["type"]
        expect(h, lambda: p.get(name, PYTYPE[t][0], **dflt), val, vk in PYTYPE[t][1:], op)
    elif op == "get_optional":
        t = shape["type"]
        expect(h, lambda: p.get_optional(name, PYTYPE[t][0], **dflt), val,
               absent or vk in PYTYPE[t][1:], op)


class _SymEnum:
    """Stands for an Enum class when its member names must compare with symbolic strings."""

    def __init__(self, members, canonical):
        self.__members__ = members
        self.canonical = canonical

    def __iter__(self):
        return iter(self.canonical)

    def __len__(self):
        return len(self.canonical)

    def __getitem__(self, n):
        return self.__members__[n]


def c16_enum(h, shape):
    import enum

    v, k = value_of_kind(h, "v", ("absent", "str", "int", "ns"))
    p, name = mk_params(h, v, k)

    class Level(enum.IntEnum):
        x = 0
        y = 1
        X = 1  # another name of y

    members = {h.s("x"): Level.x, h.s("y"): Level.y, h.s("X"): Level.y}
    cls = _SymEnum(members, list(Level)) if h.symbolic else Level
    d = [None, Level.x, Level.y][h.choose("d", 3)]
    dflt = {} if d is None else {"default": d}
    if k == "absent":
        expect(h, lambda: p.enum(name, cls, **dflt), d, d is not None, "enum")
    elif k == "str":
        if v == "x":
            want = Level.x
        elif v == "y" or v == "X":
            want = Level.y
        else:
            want = None
        expect(h, lambda: p.enum(name, cls, **dflt), want, want is not None, "enum")
    else:
        expect(h, lambda: p.enum(name, cls, **dflt), None, False, "enum")


# ------------------------------------------------------------------ C17
class Conflict(Exception):
    pass


def merge(h, a, b):
    out = []
    for k, v in a.pairs:
        w = b.get(k)
        if w is MISSING:
            out.append((k, v))
        elif isinstance(v, Tree) != isinstance(w, Tree):
            raise Conflict()
        elif isinstance(v, Tree):
            out.append((k, merge(h, v, w)))
        else:
            out.append((k, w))
    for k, w in b.pairs:
        if a.get(k) is MISSING:
            out.append((k, w))
    return Tree(out)


def c17_unify(h, shape):
    from vistautils.parameters import Parameters

    kl = shape.get("klen", 1)
    a = tree(h, "a", shape["wa"], shape["da"], shape["alphabet"], shape["kinds"], klen=kl)
    b = tree(h, "b", shape["wb"], shape["db"], shape["alphabet"], shape["kinds"], klen=kl)
    # either side may itself be a namespace of something larger
    home = (h.s("h"), h.s("i"))[: h.choose("a.prefix", 2) * 2]
    p = Parameters.from_mapping(a.mapping(), namespace_prefix=home)
    form = h.choose("form", 3)
    if form:
        q = Parameters.from_mapping(b.mapping(), namespace_prefix=[h.s("p")][: form - 1])
    else:
        q = b.mapping()
    try:
        want = merge(h, a, b)
    except Conflict:
        want = None
    r, err = h.attempt(p.unify, q)
    if want is None:
        h.check(isinstance(err, IOError), "namespace/parameter conflict not reported",
                repr((r and r.as_nested_dicts(), err)))
        h.cover("conflict")
    else:
        h.check(err is None, "unify raised", repr(err))
        same_mapping(h, r.as_nested_dicts(), want, "unified")
        same_items(h, r.namespaced_items(),
                   [(home + parts, v) for parts, v in want.leaves()], "unified items")
        prefixes_ok(h, r, home, "unified")
        h.cover("unified")
    same_mapping(h, p.as_nested_dicts(), a, "left side changed")
    if form:
        same_mapping(h, q.as_nested_dicts(), b, "right side changed")
    else:
        same_mapping(h, q, b, "right side changed")


def c17_laws(h, shape):
    """Unifying with nothing or with itself changes nothing; unification is associative."""
    from vistautils.parameters import Parameters

    if shape["law"] == "identity":
        a = tree(h, "a", shape["w"], shape["d"], "ab", 2)
        home = (h.s("h"),)[: h.choose("prefix", 2)]
        p = Parameters.from_mapping(a.mapping(), namespace_prefix=home)
        for r in (p.unify(Parameters.empty()), p.unify(p), p.unify({})):
            same_mapping(h, r.as_nested_dicts(), a, "identity law")
            prefixes_ok(h, r, home, "identity law")
        r = Parameters.empty().unify(p)
        same_mapping(h, r.as_nested_dicts(), a, "identity law")
        prefixes_ok(h, r, (), "identity law")
        h.cover("identity")
    else:
        ts = [tree(h, n, 1, 1, "ab", 1) for n in "abc"]
        ps = [Parameters.from_mapping(t.mapping()) for t in ts]
        l, e1 = h.attempt(lambda: ps[0].unify(ps[1]).unify(ps[2]))
        r, e2 = h.attempt(lambda: ps[0].unify(ps[1].unify(ps[2])))
        if e1 is None and e2 is None:
            x, y = l.as_nested_dicts(), r.as_nested_dicts()
            deep_same(h, x, y, "associativity")
            h.cover("associative")


def deep_same(h, x, y, label):
    h.check(isinstance(x, dict) == isinstance(y, dict), label + ": structure")
    if not isinstance(x, dict):
        h.check(x is y, label + ": value")
        return
    h.check(len(x) == len(y), label + ": entries")
    for k, v in x.items():
        hit = [w for kk, w in y.items() if kk == k]
        h.check(len(hit) == 1, label + ": entry")
        deep_same(h, v, hit[0], label)


# ------------------------------------------------------------------ C18
def c18_roundtrip(h, shape):
    from vistautils.parameters import Parameters

    t = tree(h, "t", shape["w"], shape["d"], shape["alphabet"], shape["kinds"],
             klen=shape.get("klen", 1))
    m = t.mapping()
    p = Parameters.from_mapping(m)
    same_mapping(h, p.as_nested_dicts(), t, "nested form")
    same_mapping(h, m, t, "input changed")
    prefixes_ok(h, p, (), "from_mapping")
    items = list(p.namespaced_items())
    same_items(h, items, list(t.leaves()), "flat form")
    for parts, v in t.leaves():
        h.check(alike(p.get(dotted(h, parts), object), v), "value under its dotted name")
        h.check(dotted(h, parts) in p, "dotted name absent")
    again = Parameters.from_mapping(p.as_nested_dicts())
    same_mapping(h, again.as_nested_dicts(), t, "nested round trip")
    if not t.has_empty():
        r, err = h.attempt(Parameters.from_key_value_pairs, iter(items))
        h.check(err is None, "flat form not accepted back", repr(err))
        same_mapping(h, r.as_nested_dicts(), t, "flat round trip")
        prefixes_ok(h, r, (), "from_key_value_pairs")
        h.cover("flat round trip")
    mixed = Parameters.from_mapping(
        {k: (Parameters.from_mapping(v.mapping(), namespace_prefix=[k])
             if isinstance(v, Tree) else v) for k, v in t.pairs}
    )
    same_mapping(h, mixed.as_nested_dicts(), t, "mixed nested form")
    h.cover("nested round trip")


def c18_deep(h, shape):
    """Names of parameters many namespaces deep."""
    from vistautils.parameters import Parameters

    n = shape["n"]
    keys = [h.str("k%d" % i, 1, "aA", 1) if i in (0, n - 1) else h.s("n%d" % i)
            for i in range(n)]
    v, w = h.int("v"), h.int("w")
    cut = h.choose("cut", n)
    d = {keys[-1]: v}
    for i in reversed(range(n - 1)):
        d = {keys[i]: d}
        if i == cut:
            d[h.s("side")] = w
    p = Parameters.from_mapping(d)
    prefixes_ok(h, p, (), "from_mapping")
    want = [(tuple(keys), v)]
    if cut < n - 1:
        want.append((tuple(keys[:cut]) + (h.s("side"),), w))
    items = list(p.namespaced_items())
    same_items(h, items, want, "flat form")
    for parts, x in want:
        h.check(alike(p.get(dotted(h, parts), object), x), "value under its dotted name")
    r, err = h.attempt(Parameters.from_key_value_pairs, iter(items))
    h.check(err is None, "flat form not accepted back", repr(err))
    same_items(h, list(r.namespaced_items()), want, "flat round trip")
    # what a namespace inside says are the full names
    q = p
    for k in keys[:cut]:
        q = q.namespace(k)
    same_items(h, list(q.namespaced_items()), want if cut == 0 else
               [x for x in want if x[0][:cut] == tuple(keys[:cut])], "flat form of a namespace")
    h.cover("deep")


def c18_pairs(h, shape):
    """Repeated names: the last pair wins; empty names and bad keys are refused."""
    from vistautils.parameters import Parameters

    n = shape["n"]
    sep = h.s([".", "/", "::"][h.choose("sep", 3)])
    deep = [h.s("x")] * h.choose("deep", 3)
    ab = "ab"
    if shape.get("names"):
        ab = "aB0_- "
    ks = [h.str("k%d" % i, 1, ab) for i in range(n)]
    inner = [h.str("j%d" % i, 1, ab, 1) for i in range(n)]
    vals = [h.int("v%d" % i) for i in range(n)]
    pairs = []
    for k, j, v in zip(ks, inner, vals):
        name = k
        if len(k):
            for part in deep + [j]:
                name = name + sep + part
        pairs.append((name, v))
    r, err = h.attempt(
        lambda: Parameters.from_key_value_pairs(pairs, namespace_separator=sep)
    )
    if any(len(k) == 0 for k in ks):
        h.check(isinstance(err, RuntimeError), "empty parameter name accepted", repr(err))
        h.cover("empty name")
        return
    h.check(err is None, "pairs refused", repr(err))
    for i in range(n):
        want = vals[i]
        for m in range(i + 1, n):
            if And(len(ks[m]) == len(ks[i]), ks[m] == ks[i], inner[m] == inner[i]):
                want = vals[m]
        h.check(alike(r.get(dotted(h, [ks[i]] + deep + [inner[i]]), object), want),
                "value of a repeated name")
    distinct = []
    for i in range(n):
        if not any(ks[i] == ks[m] and inner[i] == inner[m] for m in distinct):
            distinct.append(i)
    h.check(len(list(r.namespaced_items())) == len(distinct), "number of parameters")
    h.cover("pairs")


def c18_separator(h, shape):
    """Only the given separator separates; what still holds a dot afterwards is refused."""
    from vistautils.parameters import Parameters

    sep = h.s(shape["sep"])
    k = h.str("k", shape["n"], "aB._-" + shape["sep"][0], 1)
    v = h.int("v")
    parts = k.split(sep)
    h.assume(And(*[len(x) > 0 for x in parts]))
    r, err = h.attempt(Parameters.from_key_value_pairs, [(k, v)], namespace_separator=sep)
    if Or(*[among(h, c, ".") for x in parts for c in x]):
        h.check(isinstance(err, ValueError), "name with a dot accepted", repr(err))
        h.cover("key refused")
        return
    h.check(err is None, "name refused", repr(err))
    d = r.as_nested_dicts()
    for x in parts:
        h.check(len(d) == 1, "number of entries")
        ((got, d),) = d.items()
        h.check(got == x, "name of a part", repr(got))
    h.check(alike(d, v), "value")
    h.cover("pairs")


def c18_keys(h, shape):
    from vistautils.parameters import Parameters

    k = h.str("k", 3, "a." + NAMES)
    v = h.int("v")
    m = {k: v} if shape["at"] == "top" else {h.s("n"): {k: v}}
    r, err = h.attempt(Parameters.from_mapping, m)
    bad = Or(*[among(h, k[i], ".") for i in range(len(k))])
    if err is None:
        h.check(Not(bad), "key with a separator accepted")
        h.cover("key ok")
    else:
        h.check(isinstance(err, ValueError), "wrong error", repr(err))
        h.check(bad, "legal key refused")
        h.cover("key refused")


def c18_subs(h, shape):
    from vistautils.parameters import Parameters

    t = tree(h, "t", shape["w"], 1, shape["ab"], 3)
    p = Parameters.from_mapping(t.mapping())
    subs, err = h.attempt(p.sub_namespaces)
    h.check(err is None, "sub_namespaces raised", repr(err))
    want = [(k, v) for k, v in t.pairs if isinstance(v, Tree)]
    h.check(len(subs) == len(want), "number of sub-namespaces")
    for k, v in want:
        hit = [s for s in subs if len(s.namespace_prefix) == 1 and s.namespace_prefix[0] == k]
        h.check(len(hit) == 1, "sub-namespace missing")
        same_mapping(h, hit[0].as_nested_dicts(), v, "sub-namespace")
    h.cover("subs")


def c18_written(h, shape):
    """What is written is the plain form of the parameters: reading it back gives them again."""
    from vistautils.io_utils import CharSink
    from vistautils.parameters import Parameters, YAMLParametersLoader, YAMLParametersWriter

    t = tree(h, "t", 2, 1, "ab", 1)
    extra = h.choose("extra", 15)
    special = None
    if extra:
        from vistautils.parameters import Path

        k = h.s("z")
        special = [
            (Path("/x/y"), h.s("/x/y")),
            ((1, [2, Path("q")]), [1, [2, h.s("q")]]),
            (h.bool("flag"), None),
            ([{h.s("d"): Path("/r")}], [{h.s("d"): h.s("/r")}]),
            (h.str("text", 2, "a :#-~\n", 0), None),
            ([h.str("text", 1, "a -", 1), h.s("")], None),
            (h.s("a b  c " * 30), None),
            (h.s("1"), None),
            ([None, 1, {h.s("d"): [None]}, [None]], None),
            ([2 ** 70, -1.5e300, h.s(""), []], None),
            ([(1, 2), ()], [[1, 2], []]),
            (((1,), ((Path("q"), None),), ()), [[1], [[h.s("q"), None]], []]),
            ([{h.s("d"): (1, {h.s("e"): ()})}], [{h.s("d"): [1, {h.s("e"): []}]}]),
            ([[[True, 0.5], (False,)]], [[[True, 0.5], [False]]]),
        ][extra - 1]
        t = Tree(t.pairs + [(k, special[0])])
    p = Parameters.from_mapping(t.mapping())
    sink = CharSink.to_string()
    _, err = h.attempt(lambda: YAMLParametersWriter().write(p, sink))
    h.check(err is None, "writing raised", repr(err))
    text = sink.last_string_written
    r, err = h.attempt(
        lambda: YAMLParametersLoader(interpolate_environmental_variables=False).load_string(text)
    )
    h.check(err is None, "reading back raised", repr(err))
    back = r.as_nested_dicts()
    h.check(len(back) == len(t.pairs), "number of parameters after reading back")
    for k, v in t.pairs:
        got = [x for kk, x in back.items() if kk == k]
        h.check(len(got) == 1, "parameter lost in writing")
        if isinstance(v, Tree):
            v = v.mapping()
        if special is not None and v is special[0] and special[1] is not None:
            v = special[1]
        h.check(plain_eq(got[0], v), "value after reading back", "%r / %r" % (got[0], v))
    h.cover("written")


def plain_eq(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and len(a) == len(b) and And(*[
            Or(*[And(k == kk, plain_eq(x, y)) for kk, y in b.items()]) for k, x in a.items()
        ])
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and And(*[
            plain_eq(x, y) for x, y in zip(a, b)
        ])
    return a == b


LISTS = ("none", "list", "empty_list", "str")

C16_SHAPES = [
    {"op": "integer", "defaults": ["none", "int", "str"]},
    {"op": "positive_integer", "defaults": ["none", "int"]},
    {"op": "optional_integer", "defaults": ["none", "int"]},
    {"op": "optional_positive_integer", "defaults": ["none", "int", "real"]},
    {"op": "floating_point", "defaults": ["none", "real", "str", "odd"]},
    {"op": "optional_floating_point", "defaults": ["none", "real", "odd", "int"]},
    {"op": "optional_float", "defaults": ["none"]},
    {"op": "optional_boolean_with_default", "defaults": ["none"]},
    {"op": "boolean", "defaults": ["none", "bool", "int"]},
    {"op": "optional_boolean", "defaults": ["none", "bool"]},
    {"op": "string", "defaults": ["none", "str", "int"]},
    {"op": "optional_string", "defaults": ["none", "str"]},
    {"op": "arbitrary_list", "defaults": ["none", "list", "empty_list", "str"]},
    {"op": "optional_arbitrary_list", "defaults": ["none", "list", "empty_list"]},
] + [{"op": o, "type": t, "defaults": ["none", d]} for o in ("get", "get_optional")
     for t, d in (("int", "int"), ("real", "real"), ("bool", "bool"), ("str", "str"),
                  ("list", "list"))]


def _c15_shapes(tier):
    top = 5 if tier == "quick" else 8
    return [{"tree": t, "n": n, "op": o} for t in TREES for n in range(0, top)
            for o in ("get", "in", "optional", "ns")]


def _c17_shapes(tier):
    out = [
        {"wa": 2, "da": 0, "wb": 2, "db": 0, "alphabet": "abc", "kinds": 2},
        {"wa": 1, "da": 1, "wb": 1, "db": 1, "alphabet": "ab", "kinds": 4},
        {"wa": 1, "da": 1, "wb": 1, "db": 1, "alphabet": NAMES, "kinds": 8},
        {"wa": 1, "da": 1, "wb": 2, "db": 0, "alphabet": NAMES, "kinds": 1, "klen": 2,
         "_split": 4},
        {"wa": 1, "da": 2, "wb": 1, "db": 2, "alphabet": "ab", "kinds": 1},
        {"wa": 2, "da": 1, "wb": 1, "db": 1, "alphabet": "ab", "kinds": 1, "_split": 6},
        {"wa": 1, "da": 1, "wb": 2, "db": 1, "alphabet": "ab", "kinds": 1, "_split": 6},
        {"wa": 2, "da": 1, "wb": 2, "db": 1, "alphabet": "ab", "kinds": 1, "_split": 8, "_opt": 1},
    ]
    if tier != "quick":
        out += [
            {"wa": 2, "da": 2, "wb": 1, "db": 2, "alphabet": "ab", "kinds": 1, "_split": 8, "_opt": 2},
            {"wa": 1, "da": 3, "wb": 1, "db": 3, "alphabet": "ab", "kinds": 2, "_split": 6, "_opt": 1},
            {"wa": 3, "da": 0, "wb": 3, "db": 0, "alphabet": "abcd", "kinds": 2, "_split": 8, "_opt": 1},
        ]
    return out


def _c18_shapes(tier):
    out = [
        {"w": 2, "d": 0, "alphabet": "abc", "kinds": 4},
        {"w": 1, "d": 3, "alphabet": "ab", "kinds": 2},
        {"w": 2, "d": 0, "alphabet": NAMES, "kinds": 8},
        {"w": 1, "d": 2, "alphabet": NAMES, "kinds": 2, "klen": 3},
        {"w": 2, "d": 1, "alphabet": NAMES, "kinds": 1, "klen": 2, "_split": 4, "_opt": 1},
        {"w": 2, "d": 1, "alphabet": "ab", "kinds": 2, "_split": 5},
        {"w": 2, "d": 2, "alphabet": "ab", "kinds": 1, "_split": 7, "_opt": 1},
    ]
    if tier != "quick":
        out += [
            {"w": 3, "d": 1, "alphabet": "abc", "kinds": 1, "_split": 8, "_opt": 2},
            {"w": 1, "d": 5, "alphabet": "ab", "kinds": 2, "_split": 4},
        ]
    return out


def H_(name, fn, shapes, **k):
    return Harness(name, fn, shapes, strings=True, fakes=FAKES, **k)


MODEL = "YAML text, the file system and environment variables are modelled at their library " \
        "boundary; the code's own source is executed symbolically"

PROPS = {
    "C15": Prop(
        "C15",
        [
            H_("lookup", c15_lookup, _c15_shapes),
            H_("compose", c15_compose, [{"tree": t} for t in TREES]),
            H_("exactly_one", c15_exactly_one,
               lambda tier: [{"tree": t, "n": n, "kind": k} for t in ("flat", "nested", "empty")
                             for n in ((0, 1, 2) if tier == "quick" else (0, 1, 2, 3))
                             for k in (("list", "gen", "iter", "tuple") if t == "flat" or n < 2
                                       else ("list", "gen"))]),
        ],
        bounds="seven parameter trees up to four levels deep with symbolic leaf values; every query "
        "of up to 4 (thorough 7) characters over two key letters and the separator",
        outside="larger trees; null values (which count as absent)",
        covers=["found", "absent", "leaf", "one", "not one", "composed"],
    ),
    "C16": Prop(
        "C16",
        [H_("accessor", c16_accessor, C16_SHAPES), H_("enum", c16_enum, [{}])],
        bounds="every accessor; the parameter absent or any integer, truth value, real number, "
        "short string (and strings that look like other values), list, tuple or namespace; every default, an integer where a real is asked for, too; every range with real or integer ends",
        outside="null values; subclasses of the value types",
        assumptions=["floats are modelled as reals, besides infinities, not-a-number and two more"],
        covers=["returned", "refused"],
    ),
    "C17": Prop(
        "C17",
        [
            H_("unify", c17_unify, _c17_shapes),
            H_("laws", c17_laws, lambda tier: [
                {"law": "identity", "w": 2, "d": 1, "_split": 5},
                {"law": "identity", "w": 1, "d": 3},
                {"law": "assoc", "_split": 6},
            ] + ([] if tier == "quick" else [
                {"law": "identity", "w": 2, "d": 2, "_split": 7, "_opt": 2},
            ])),
        ],
        bounds="two parameter sets with symbolic keys: up to 2 entries per level and 2 levels on "
        "both sides (thorough 3 levels or 3 entries), or one entry and 3 levels; values any "
        "integer, empty strings and lists",
        outside="null values; wider or deeper trees",
        covers=["unified", "conflict", "identity", "associative"],
    ),
    "C18": Prop(
        "C18",
        [
            H_("roundtrip", c18_roundtrip, _c18_shapes),
            H_("deep", c18_deep, lambda tier: [{"n": n} for n in (
                (5, 8) if tier == "quick" else (5, 8, 12))]),
            H_("pairs", c18_pairs, lambda tier: [{"n": n} for n in range(0, 3 if tier == "quick" else 4)]
               + [{"n": 1, "names": 1}, {"n": 2, "names": 1}]),
            H_("separator", c18_separator, lambda tier: [
                {"sep": x, "n": n} for x in (".", "/", "::")
                for n in ((4,) if tier == "quick" else (4, 6))]),
            H_("keys", c18_keys, [{"at": "top"}, {"at": "nested"}]),
            H_("subs", c18_subs, [{"_split": 5, "w": 2, "ab": "ab"}, {"w": 1, "ab": NAMES}]),
            H_("written", c18_written, [{"_split": 4}]),
        ],
        bounds="parameter trees with symbolic keys of up to 2 entries per level and 3 levels "
        "(thorough 3 entries or 6 levels), chains of 5 and 8 (thorough 12) namespaces; up to 2 (thorough 3) flat pairs; keys of up to 3 "
        "characters; names of up to 4 (thorough 6) characters with other separators",
        outside="the YAML text itself (PyYAML); byte strings (refused)",
        assumptions=[MODEL],
        covers=["nested round trip", "flat round trip", "pairs", "empty name", "key ok",
                "key refused", "subs", "written", "deep"],
    ),
}
