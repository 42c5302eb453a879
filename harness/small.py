"""Iterators, graphs, memory amounts, names, guards and checkpoints."""
import abc
import collections.abc
import itertools
from collections import deque

from sx.core import And, Iff, Implies, Ite, Not, Or, Sum
from sx.run import Harness, Prop


class OneShotList:
    """An iterable (not an iterator) that counts how often it is traversed."""

    def __init__(self, items):
        self.items = items
        self.traversals = 0

    def __iter__(self):
        self.traversals += 1
        return iter(list(self.items))


class Source:
    """An iterator that records how many elements were taken; may be infinite."""

    def __init__(self, items, tail=None):
        self.items, self.i, self.tail = items, 0, tail

    def __iter__(self):
        return self

    def __next__(self):
        if self.i < len(self.items):
            v = self.items[self.i]
        elif self.tail is not None:
            v = self.tail
        else:
            raise StopIteration
        self.i += 1
        return v


def same_seq(h, got, want, label):
    h.check(len(got) == len(want), label + ": length", "%d vs %d" % (len(got), len(want)))
    h.check(all(a is b for a, b in zip(got, want)), label + ": elements")


def elements(h, n):
    """n elements of every awkward sort: None, falsy, symbolic integers, repeats."""
    out = []
    for i in range(n):
        k = h.choose("kind%d" % i, 3)
        if k == 0:
            out.append(h.int("e%d" % i))
        elif k == 1:
            out.append(None)
        else:
            out.append(out[0] if out else "")
    return out


def many(h, n):
    """n arbitrary integers, one of them None: for long inputs."""
    out = [h.int("e%d" % i) for i in range(n)]
    if n > 2:
        out[n // 2] = None
    return out


def as_input(kind, items):
    return {
        "list": lambda: list(items),
        "tuple": lambda: tuple(items),
        "iter": lambda: iter(list(items)),
        "gen": lambda: (x for x in list(items)),
        "obj": lambda: OneShotList(items),
        "src": lambda: Source(list(items)),
        "deque": lambda: deque(items),
        "values": lambda: dict(enumerate(items)).values(),
        "dict": lambda: dict.fromkeys(items),
        "keys": lambda: dict.fromkeys(items).keys(),
        "set": lambda: set(items),
        "frozenset": lambda: frozenset(items),
        "range": lambda: range(len(items)),
        "text": lambda: "".join(items),
    }[kind]()


class Token:
    pass


def own_elements(kind, n):
    """Elements that inputs of this kind can hold (known ones), or None."""
    if kind in ("dict", "keys", "set", "frozenset"):
        return [Token() for _ in range(n)]
    if kind == "range":
        return list(range(n))
    if kind == "text":
        return [chr(97 + i) for i in range(n)]


ITERATORS = ("iter", "gen", "src")
ITERABLES = ("list", "tuple", "obj")


# ------------------------------------------------------------------ C12
def c12_windowed(h, shape):
    from vistautils.iter_utils import windowed

    n = shape["n"]
    xs = own_elements(shape["kind"], n) or (
        many(h, n) if "plain" in shape else elements(h, n))
    w = h.int("w", None, n + 2)
    partial = h.bool("partial")
    inp = as_input(shape["kind"], xs)
    res, err = h.attempt(windowed, inp, w, partial_windows=partial)
    if err is not None:
        h.check(isinstance(err, ValueError), "wrong error", repr(err))
        h.check(w < 1, "legal window size rejected")
        h.cover("rejected")
        return
    h.check(w >= 1, "window size below one accepted")
    w = w.__index__()
    if partial:
        want = [tuple(xs[i : i + w]) for i in range(n)]
        h.cover("partial")
    else:
        want = [tuple(xs[i : i + w]) for i in range(n - w + 1)]
        h.cover("complete")
    rounds = 1
    if shape["kind"] in ITERATORS:
        h.check(hasattr(res, "__next__"), "iterator in, iterable out")
    else:
        rounds = 2
    for r in range(rounds):
        got = list(res)
        h.check(len(got) == len(want), "number of windows", "%r vs %r" % (len(got), len(want)))
        for g, e in zip(got, want):
            h.check(isinstance(g, tuple), "window type")
            same_seq(h, g, e, "window")
    if shape["kind"] in ITERATORS:
        h.check(next(res, None) is None, "iterator not exhausted")


def c12_drop(h, shape):
    from vistautils.iter_utils import drop

    n = shape["n"]
    xs = own_elements(shape["kind"], n) or (
        many(h, n) if "plain" in shape else elements(h, n))
    k = h.int("k", None, n + 2)
    inp = as_input(shape["kind"], xs)
    res, err = h.attempt(drop, inp, k)
    if err is not None:
        h.check(isinstance(err, ValueError), "wrong error", repr(err))
        h.check(k < 0, "legal count rejected")
        h.cover("rejected")
        return
    h.check(k >= 0, "negative count accepted")
    k = k.__index__()
    rounds = 1 if shape["kind"] in ITERATORS else 2
    for r in range(rounds):
        same_seq(h, list(res), xs[k:], "drop")
    if shape["kind"] in ("list", "deque") and h.choose("grow", 2):
        # what is dropped is decided when the elements are asked for
        inp.append(None)
        same_seq(h, list(res), (xs + [None])[k:], "drop from what has grown")
    if rounds == 1:
        h.check(hasattr(res, "__next__"), "iterator in, iterable out")
    h.cover("dropped")


def c12_lazy(h, shape):
    """Works on unbounded input, taking no more than it must."""
    from vistautils.iter_utils import drop, windowed

    n = 4
    xs = [h.int("e%d" % i) for i in range(n)]
    tail = h.int("tail")
    src = Source(xs, tail)
    w = h.int("w", 1, 4).__index__()
    full = xs + [tail] * 10
    if shape.get("re"):
        return c12_lazy_iterable(h, shape, xs, tail, w, full)
    if shape["op"] == "drop":
        it = drop(src, w)
        h.check(src.i == 0, "input consumed before it is asked for")
        for i in range(3):
            h.check(next(it) is full[w + i], "drop: element")
            h.check(src.i <= w + i + 1, "drop: reads ahead")
    else:
        it = windowed(src, w, partial_windows=bool(h.bool("partial")))
        h.check(src.i == 0, "input consumed before it is asked for")
        for i in range(4):
            same_seq(h, next(it), tuple(full[i : i + w]), "window")
            h.check(src.i <= w + i, "windowed: reads ahead")
    h.cover("lazy")


def c12_lazy_iterable(h, shape, xs, tail, w, full):
    """The same of an iterable that begins anew whenever it is asked."""
    from vistautils.iter_utils import drop, windowed

    begun = []

    class Endless:
        def __iter__(self):
            begun.append(Source(xs, tail))
            return begun[-1]

    if shape["op"] == "drop":
        res = drop(Endless(), w)
    else:
        res = windowed(Endless(), w, partial_windows=bool(h.bool("partial")))
    for r in range(2):
        h.check(all(s.i == 0 for s in begun[r:]), "input consumed before it is asked for")
        it = iter(res)
        for i in range(3):
            got = next(it)
            if shape["op"] == "drop":
                h.check(got is full[w + i], "drop: element")
            else:
                same_seq(h, got, tuple(full[i : i + w]), "window")
            h.check(sum(s.i for s in begun[r:]) <= w + i + (shape["op"] == "drop"), "reads ahead")
        del begun[r + 1:]
    h.cover("lazy iterable")


def c12_pairs(h, shape):
    from vistautils.iterutils import tile_with_pairs
    from vistautils.misc_utils import flatten_once_to_list

    n = shape["n"]
    xs = own_elements(shape["kind"], n) or (
        many(h, n) if "plain" in shape else elements(h, n))
    got = list(tile_with_pairs(as_input(shape["kind"], xs)))
    h.check(len(got) == max(0, n - 1), "number of pairs")
    for i, g in enumerate(got):
        same_seq(h, g, (xs[i], xs[i + 1]), "pair")
    cut = h.choose("cut", n + 1)
    kind = "list" if shape["kind"] == "range" else shape["kind"]
    groups = [as_input(kind, xs[:cut]), [], as_input(kind, xs[cut:])]
    flat = flatten_once_to_list(iter(groups))
    h.check(type(flat) is list, "not a list")
    same_seq(h, flat, xs, "flatten")


# ------------------------------------------------------------------ C13
class Odd:
    """An element whose (in)equality with anything else is arbitrary."""

    def __init__(self, h, name):
        self.e = h.bool(name + ".eq")
        self.n = h.bool(name + ".ne")
        self.t = h.bool(name + ".truth")

    def __eq__(self, o):
        return bool(self.e)

    def __ne__(self, o):
        return bool(self.n)

    def __bool__(self):
        return bool(self.t)

    def __hash__(self):
        return 3


def c13_elements(h, n):
    out = []
    for i in range(n):
        k = h.choose("kind%d" % i, 4)
        out.append(h.int("e%d" % i) if k == 0 else None if k == 1 else
                   (h.int("e%d" % i), "") if k == 2 else Odd(h, "o%d" % i))
    return out


def c13_only(h, shape):
    from vistautils.collection_utils import get_only
    from vistautils.iter_utils import only

    n = shape["n"]
    xs = own_elements(shape["kind"], n) or (
        many(h, n) if "plain" in shape else c13_elements(h, n))
    fn = only if shape["fn"] == "only" else get_only
    inp = as_input(shape["kind"], xs)
    v, err = h.attempt(fn, inp)
    if n == 1:
        h.check(err is None, "one element refused", repr(err))
        h.check(v is xs[0], "another element returned")
        h.cover("one")
    else:
        h.check(err is not None, "an element returned although there are %d" % n)
        h.check(isinstance(err, (ValueError, LookupError)), "wrong error", repr(err))
        h.cover("none" if n == 0 else "many")


def c13_infinite(h, shape):
    from vistautils.collection_utils import get_only
    from vistautils.iter_utils import only

    fn = only if shape["fn"] == "only" else get_only
    src = Source([h.int("a")], h.int("t"))
    v, err = h.attempt(fn, src)
    h.check(isinstance(err, (ValueError, LookupError)), "wrong answer on unbounded input")
    h.check(src.i <= 3, "reads far ahead")


def c13_non_none(h, shape):
    from vistautils.iter_utils import non_none

    n = shape["n"]
    xs = []
    for i in range(n):
        k = h.choose("kind%d" % i, 5)
        xs.append([None, h.int("e%d" % i), "", [], Odd(h, "o%d" % i)][k])
    got = list(non_none(as_input(shape["kind"], xs)))
    same_seq(h, got, [x for x in xs if x is not None], "non_none")
    h.cover("non_none")


# ------------------------------------------------------------------ C14
def c14_sort(h, shape):
    from vistautils._graph import Digraph, ParameterInterpolationError

    n, k = shape["n"], shape["k"]
    if h.mode == "symbolic":
        nodes = [h.int("n%d" % i) for i in range(n)]
    else:
        nodes = [h.int("n%d" % i) for i in range(n)]
    edges = [(h.int("u%d" % i), h.int("v%d" % i)) for i in range(k)]
    known = And(*[Or(*[x == m for m in nodes]) for e in edges for x in e])
    g, err = h.attempt(lambda: Digraph(nodes=nodes, edges=edges))
    if err is not None:
        h.check(isinstance(err, RuntimeError), "wrong error", repr(err))
        h.check(Not(known), "legal graph rejected")
        h.cover("unknown node")
        return
    h.check(known, "edge to a node that is not in the graph accepted")
    # cycle: an edge that reaches itself
    reach = [[edges[i][1] == edges[j][0] for j in range(k)] for i in range(k)]
    for m in range(k):
        for i in range(k):
            for j in range(k):
                reach[i][j] = Or(reach[i][j], And(reach[i][m], reach[m][j]))
    cyclic = Or(*[reach[i][i] for i in range(k)])
    out, err = h.attempt(lambda: list(g.topological_sort()))
    if err is not None:
        h.check(isinstance(err, ParameterInterpolationError), "wrong error", repr(err))
        h.check(cyclic, "acyclic graph reported as cyclic")
        h.cover("cyclic")
        return
    h.check(Not(cyclic), "cycle not reported")
    h.cover("sorted")
    for m in nodes:
        h.check(Or(*[o == m for o in out]), "node missing from the order")
    for i, o in enumerate(out):
        h.check(Or(*[o == m for m in nodes]), "foreign node in the order")
        for j in range(i):
            h.check(o != out[j], "node repeated in the order")
    for u, v in edges:
        h.check(
            Or(*[And(out[p] == u, out[q] == v) for q in range(len(out)) for p in range(q)]),
            "edge points backwards",
        )


def c14_adjacency(h, shape):
    """Every graph on n distinct nodes: which edges there are is symbolic."""
    from vistautils._graph import Digraph, ParameterInterpolationError

    n = shape["n"]
    nodes = list(range(n))
    has = {(i, j): h.bool("e%d%d" % (i, j)) for i in nodes for j in nodes if i != j}
    h.assume(Sum(b for b in has.values()) <= shape["k"])
    edges = [e for e, b in has.items() if b]
    g = Digraph(nodes=nodes, edges=edges)
    # longest path by relaxation: symbolic reachability of the adjacency matrix
    reach = dict(has)
    for m in nodes:
        for i in nodes:
            for j in nodes:
                via = And(reach.get((i, m), False), reach.get((m, j), False))
                reach[i, j] = Or(reach.get((i, j), False), via)
    cyclic = Or(*[reach[i, i] for i in nodes])
    out, err = h.attempt(lambda: list(g.topological_sort()))
    if err is not None:
        h.check(isinstance(err, ParameterInterpolationError), "wrong error", repr(err))
        h.check(cyclic, "acyclic graph reported as cyclic")
        return
    h.check(Not(cyclic), "cycle not reported")
    h.check(sorted(out) == nodes, "order is not an order of the nodes")
    pos = {x: i for i, x in enumerate(out)}
    for (i, j), b in has.items():
        h.check(Not(And(b, pos[i] > pos[j])), "edge points backwards")


def c14_degrees(h, shape):
    from vistautils._graph import Digraph

    n, k = shape["n"], shape["k"]
    nodes = [h.int("n%d" % i) for i in range(n)]
    for i in range(n):
        for j in range(i):
            h.assume(nodes[i] != nodes[j])
    edges = [(h.int("u%d" % i), h.int("v%d" % i)) for i in range(k)]
    for e in edges:
        for x in e:
            h.assume(Or(*[x == m for m in nodes]))
    for i in range(k):
        for j in range(i):
            h.assume(Not(And(edges[i][0] == edges[j][0], edges[i][1] == edges[j][1])))
    g = Digraph(nodes=nodes, edges=edges)
    deg = list(g.in_degree())
    h.check(len(deg) == n, "number of degrees")
    for m, d in deg:
        h.check(d == Sum(v == m for _, v in edges), "in-degree")
        h.check(g.in_degree()[m] == d, "in-degree lookup")


def c14_chain(h, shape):
    """A long chain of known nodes, given in any of several orders, with up to two arbitrary
    edges more."""
    from vistautils._graph import Digraph, ParameterInterpolationError

    n = shape["n"]
    order = list(range(n))
    if shape["order"] == "down":
        order.reverse()
    elif shape["order"] == "mix":
        order = [(i * 7 + 3) % n for i in range(n)]
    edges = [(i, i + 1) for i in range(n - 1)]
    if shape["order"] != "up":
        edges.reverse()
    extra = []
    for e in range(shape["extra"]):
        if n <= 20:
            u, v = h.choose("u%d" % e, n), h.choose("v%d" % e, n)
        else:
            at = [0, 1, n // 3, n // 2, n - 2, n - 1]
            u, v = at[h.choose("u%d" % e, 6)], at[h.choose("v%d" % e, 6)]
        extra.append((u, v))
    edges[n // 2 : n // 2] = extra
    g = Digraph(nodes=order, edges=edges)
    out, err = h.attempt(lambda: list(g.topological_sort()))
    if any(u >= v for u, v in extra):
        h.check(isinstance(err, ParameterInterpolationError), "cycle not reported", repr(err))
        h.cover("long cycle")
    else:
        h.check(err is None, "long chain refused", repr(err))
        h.check(out == list(range(n)), "order of a long chain")
        h.cover("long chain")


# ------------------------------------------------------------------ C25
def digits_value(h, ds):
    v = 0
    for d in ds:
        v = v * 10 + (code(h, d) - 48)
    return v


def code(h, ch):
    """Code point of a one-character string (symbolic or not)."""
    if h.symbolic:
        from sx import core, strs

        c = strs.chars_of(ch)[0]
        return c if type(c) is int else core.SymInt(c)
    return ord(ch)


def among(h, ch, chars):
    c = code(h, ch)
    return Or(*[c == ord(x) for x in chars])


def unit_of(c):
    from vistautils.memory_amount import MemoryUnit

    return {
        "K": MemoryUnit.KILOBYTES,
        "M": MemoryUnit.MEGABYTES,
        "G": MemoryUnit.GIGABYTES,
        "T": MemoryUnit.TERABYTES,
    }[c]


def check_amount(h, m, value, u):
    h.check(m.amount == value, "amount")
    for c in "KMGT":
        h.check(Implies(among(h, u, c + c.lower()), m.unit is unit_of(c)), "unit")


def c25_wellformed(h, shape):
    from vistautils.memory_amount import MemoryAmount

    ds = [h.str("d%d" % i, 1, "0123456789", 1) for i in range(shape["digits"])]
    sp = h.s(" " * h.choose("space", 2))
    u = h.str("unit", 1, "KMGTkmgt", 1)
    b = h.s(["", "b", "B"][h.choose("suffix", 3)])
    text = h.s("")
    for p in ds + [sp, u, b]:
        text = text + p
    value = digits_value(h, ds)
    m, err = h.attempt(MemoryAmount.parse, text)
    if err is not None:
        h.check(isinstance(err, ValueError), "well-formed amount refused", repr(err))
        h.check(value == 0, "positive amount refused")
        h.cover("zero")
        return
    h.check(value >= 1, "amount of nothing accepted")
    check_amount(h, m, value, u)
    h.cover("parsed")


def c25_any(h, shape):
    from vistautils.memory_amount import MemoryAmount

    text = h.str("text", shape["n"], shape["alphabet"], shape["n"])
    cs = [text[i] for i in range(shape["n"])]
    dig = [among(h, c, "0123456789") for c in cs]
    unit = [among(h, c, "KMGTkmgt") for c in cs]
    spc = [among(h, c, " ") for c in cs]
    heads = []
    for d in range(1, len(cs)):
        lead = And(*dig[:d])
        heads.append((d, d, And(lead, unit[d])))
        if d + 1 < len(cs):
            heads.append((d, d + 1, And(lead, spc[d], unit[d + 1])))
    m, err = h.attempt(MemoryAmount.parse, text)
    if err is not None:
        if isinstance(err, ValueError):
            h.check(Or(*[And(c, digits_value(h, cs[:d]) == 0) for d, _, c in heads]),
                    "positive amount refused")
            return
        h.check(isinstance(err, RuntimeError), "wrong error", repr(err))
        h.check(Not(Or(*[c for _, _, c in heads])), "well-formed amount refused")
        h.cover("refused")
        return
    h.check(Or(*[c for _, _, c in heads]), "text that starts with no amount accepted")
    for d, u, c in heads:
        h.check(Implies(c, m.amount == digits_value(h, cs[:d])), "amount")
        for k in "KMGT":
            h.check(Implies(And(c, among(h, cs[u], k + k.lower())), m.unit is unit_of(k)), "unit")
    h.cover("accepted")


def c25_unit(h, shape):
    from vistautils.memory_amount import MemoryUnit

    t = h.str("unit", 2, "KMGTkmgtB a1\u212a\u00b5\n")
    u, err = h.attempt(MemoryUnit.parse, t)
    ok = len(t) == 1 and among(h, t[0], "KMGTkmgt")
    if err is not None:
        h.check(isinstance(err, RuntimeError), "wrong error", repr(err))
        h.check(Not(ok), "unit refused")
        h.cover("unit refused")
        return
    h.check(ok, "not a unit")
    for k in "KMGT":
        h.check(Implies(among(h, t[0], k + k.lower()), u is unit_of(k)), "unit")
    h.cover("unit")


def c25_direct(h, shape):
    from vistautils.memory_amount import MemoryAmount, MemoryUnit

    n = h.int("n")
    m, err = h.attempt(MemoryAmount, n, MemoryUnit.GIGABYTES)
    h.check(Iff(err is None, n >= 1), "amounts are positive")
    if err is None:
        h.check(m.amount == n, "amount")


# ------------------------------------------------------------------ C26
def c26_limited(h, shape):
    from vistautils.misc_utils import str_list_limited

    n = shape["n"]
    pool = [1, "b", None, "x, y", [2], 0]
    xs = (pool * 6)[:n]
    limit = h.int("limit")
    if limit >= 0 and limit < n:
        limit = limit.__index__()
    s, err = h.attempt(str_list_limited, as_input(shape["kind"], xs), limit)
    if err is not None:
        h.check(isinstance(err, ValueError), "wrong error", repr(err))
        h.check(limit < 0, "legal limit rejected")
        h.cover("negative")
        return
    h.check(limit >= 0, "negative limit accepted")
    if limit >= n:
        h.check(s == str(xs), "short list", s)
        h.cover("short")
    else:
        want = "[" + ", ".join(repr(x) for x in xs[:limit]) + " and %d more]" % (n - limit)
        h.check(s == want, "long list", s)
        h.cover("long")


def c26_flatten(h, shape):
    """Exactly one level is flattened, whatever is iterated and whatever the elements are."""
    from vistautils.misc_utils import flatten_once_to_list

    xs, want = [], []
    for i in range(shape["n"]):
        k = h.choose("kind%d" % i, 9)
        a, b = h.int("a%d" % i), h.int("b%d" % i)
        t = h.str("t%d" % i, 2, "aA ", 0)
        part = [[a, b], (a,), [], t, {t: a}, iter([a, None, b]), [[a, [b]], t], [()], "xy"][k]
        want += ([a, b], [a], [], list(t), [t], [a, None, b], [[a, [b]], t], [()], ["x", "y"])[k]
        xs.append(part)
    how = [list, tuple, iter, OneShotList][h.choose("as", 4)]
    got = flatten_once_to_list(how(xs))
    h.check(type(got) is list and len(got) == len(want), "number of elements")
    for x, y in zip(got, want):
        h.check(x is y or (isinstance(x, type(y)) and x == y), "element")
    h.cover("flattened")


def c26_strip(h, shape):
    from vistautils.misc_utils import strip_extension

    t = h.str("name", shape["n"], shape.get("ab", "ab./-"), shape["n"])
    r = strip_extension(t)
    n, k = len(t), len(r)
    h.check(k <= n, "longer than the name")
    h.check(r == t[:k], "not the beginning of the name")
    dots = [among(h, t[i], ".") for i in range(n)]
    if k == n:
        h.check(Not(Or(*dots)), "extension kept")
        h.cover("no extension")
    else:
        h.check(dots[k], "cut elsewhere than at a dot")
        h.check(Not(Or(*dots[k + 1 :])), "more than one extension removed")
        h.cover("stripped")


def c26_zip_name(h, shape):
    from vistautils.scripts.tar_gz_to_zip import _output_name

    t = h.str("name", shape["n"], ".targz/x", shape["n"])
    if shape.get("ext"):
        t = t + h.s(shape["ext"])
    r = _output_name(t)

    def ends(e):
        return len(t) >= len(e) and t[len(t) - len(e) :] == e

    gz, tar, tgz = ends(".tar.gz"), ends(".tar"), ends(".tgz")
    want = Ite(gz, 7, Ite(Or(tar, tgz), 4, 0))
    base = len(r) - 4
    h.check(base >= 0 and r[base:] == ".zip", "does not end in .zip")
    h.check(len(t) - base == want, "wrong extension removed")
    h.check(r[:base] == t[:base], "name altered")
    h.cover("ext %d" % (len(t) - base))


# ------------------------------------------------------------------ C28
class _A:
    pass


class _B(_A):
    pass


def c28_value(h, name, kinds=10):
    k = h.choose(name + ".kind", kinds)
    return [
        lambda: h.int(name), lambda: h.bool(name), lambda: None, lambda: "", lambda: [],
        lambda: _B(), lambda: _B, lambda: (), lambda: _NAN, lambda: {},
    ][k](), k


_NAN = float("nan")


def guard(h, fn, ok, errtype, label, passthrough=None):
    v, err = h.attempt(fn)
    if err is None:
        h.check(ok, label + ": let a bad value pass")
        if passthrough is not None:
            h.check(v is passthrough[0], label + ": other value returned")
        h.cover(label + " pass")
    else:
        h.check(type(err) is errtype, label + ": wrong error", repr(err))
        h.check(Not(ok), label + ": refused a good value")
        h.cover(label + " refuse")
    return err


def truthy(h, v, k):
    if k == 0:
        return v != 0
    if k == 1:
        return v == True  # noqa: E712
    return bool(v)


def c28_guards(h, shape):
    from vistautils import preconditions as p

    v, k = c28_value(h, "v")
    op = shape["op"]
    msg = [None, "bad"][h.choose("msg", 2)]
    if op == "arg":
        err = guard(h, lambda: p.check_arg(v, msg), truthy(h, v, k), ValueError, "check_arg")
        if err is not None and msg:
            h.check(str(err) == msg, "message", str(err))
    elif op == "arg_fmt":
        err = guard(h, lambda: p.check_arg(v, "got %s of %s", (1, "b")), truthy(h, v, k),
                    ValueError, "check_arg")
        if err is not None:
            h.check(str(err) == "got 1 of b", "message", str(err))
    elif op == "state":
        guard(h, lambda: p.check_state(v, msg), truthy(h, v, k), AssertionError, "check_state")
    elif op == "not_none":
        guard(h, lambda: p.check_not_none(v, msg), v is not None, ValueError, "check_not_none", (v,))
    elif op == "args_not_none":
        w, _ = c28_value(h, "w")
        guard(h, lambda: p.check_args_not_none(v, w, msg=msg), v is not None and w is not None,
              ValueError, "check_args_not_none")
    elif op == "args_none":
        w, _ = c28_value(h, "w")
        guard(h, lambda: p.check_args_are_none(v, w, msg=msg), v is None and w is None,
              ValueError, "check_args_are_none")


def c28_message(h, shape):
    """A refusal carries the given message, whatever it says."""
    from vistautils import preconditions as p

    msg = h.str("msg", shape["n"], "%sd(a", 0)
    fn, kind = [
        (lambda: p.check_arg(False, msg), ValueError),
        (lambda: p.check_state(None, msg), AssertionError),
        (lambda: p.check_not_none(None, msg), ValueError),
        (lambda: p.check_args_are_none(None, 0, msg=msg), ValueError),
        (lambda: p.check_args_not_none(0, None, msg=msg), ValueError),
        (lambda: p.check_state(0, msg=msg), AssertionError),
        (lambda: p.check_arg([], msg=msg), ValueError),
    ][h.choose("guard", 7)]
    _, e = h.attempt(fn)
    h.check(type(e) is kind, "documented error", repr(e))
    if len(msg):
        h.check(len(e.args) == 1 and e.args[0] == msg, "given message", repr(e))
        h.cover("message")


class _V(abc.ABC):
    """An abstract base class with a registered subclass."""


_V.register(_A)

TYPES = (int, bool, str, list, _A, _B, type, (str, int), type(None), object, (list, (bool, (_A,))),
         _V, collections.abc.Sized, collections.abc.Hashable)


def _isa(v, k, t):
    if isinstance(t, tuple):
        return any(_isa(v, k, x) for x in t)
    real = (int, bool, type(None), str, list, _B, type, tuple, float, dict)[k]
    return issubclass(real, t)


def c28_types(h, shape):
    from vistautils import preconditions as p

    v, k = c28_value(h, "v")
    t = TYPES[h.choose("type", len(TYPES))]
    op = shape["op"]
    ok = _isa(v, k, t)
    if op == "isinstance":
        guard(h, lambda: p.check_isinstance(v, t), ok, TypeError, "check_isinstance", (v,))
    elif op == "opt":
        guard(h, lambda: p.check_opt_isinstance(v, t), v is None or ok, TypeError,
              "check_opt_isinstance", (v,))
    elif op == "all":
        w, kw = c28_value(h, "w")
        xs = [v, w][: h.choose("n", 3)]
        guard(h, lambda: p.check_all_isinstance(iter(xs), t),
              (len(xs) < 1 or ok) and (len(xs) < 2 or _isa(w, kw, t)), TypeError,
              "check_all_isinstance")
    elif op == "subclass":
        c = [int, bool, _A, _B, str, list, _V][h.choose("cls", 7)]
        good = issubclass(c, t)
        guard(h, lambda: p.check_issubclass(c, t), good, TypeError, "check_issubclass", (c,))


def c28_in(h, shape):
    from vistautils import preconditions as p

    n = shape["n"]
    x = h.int("x")
    legal = [h.int("l%d" % i) for i in range(n)]
    name = [None, "colour"][h.choose("name", 2)]
    how = [list, tuple, iter, OneShotList][h.choose("as", 4)]
    guard(h, lambda: p.check_in(x, how(legal), name),
          Or(*[x == v for v in legal]), ValueError, "check_in")


def c28_in_any(h, shape):
    """Values of any kind among legal ones of any kind."""
    from vistautils import preconditions as p

    v, k = c28_value(h, "v")
    w, kw = c28_value(h, "w")
    legal = [[], [w], [None, w], ["", 0], [w, "x"]][h.choose("legal", 5)]
    how = [list, tuple, iter][h.choose("as", 3)]
    good = Or(*[True if v is x else v == x for x in legal])
    guard(h, lambda: p.check_in(v, how(legal)), good, ValueError, "check_in")


def c28_in_many(h, shape):
    from vistautils import preconditions as p

    x = h.int("x")
    legal = [3 * i for i in range(shape["n"])]
    how = [list, iter, OneShotList][h.choose("as", 3)]
    guard(h, lambda: p.check_in(x, how(legal)), Or(*[x == v for v in legal]), ValueError,
          "check_in")


def c28_values(h, shape):
    from vistautils.misc_utils import Scored, WithId

    v, k = c28_value(h, "v")
    if shape["op"] == "withid":
        i = h.str("id", 1, "ab \0\u00e9/")
        use = h.choose("idkind", 2)
        ident = i if use == 0 else None
        guard(h, lambda: WithId(ident, v), v is not None and use == 0 and len(i) > 0,
              ValueError, "WithId")
    else:
        s = h.real("score")
        use = h.choose("scorekind", 10)
        score = [s, 1, None, 0, True, "1.0", _NAN, float("inf"), float("-inf"), 5e-324][use]
        use = 0 if use > 5 else use
        r, err = h.attempt(Scored, v, score)
        h.check(Iff(err is None, v is not None and use == 0), "Scored")
        if err is None:
            h.check(r.item is v and (r.score is score or r.score == score), "Scored keeps its parts")


def c28_eval(h, shape):
    from vistautils.misc_utils import eval_in_context_of_modules as ev

    v, k = c28_value(h, "v")
    t = TYPES[h.choose("type", len(TYPES))]
    context = {"x": v}
    modules = [["os.path"], [], (), ["os", "os.path"]][h.choose("modules", 4)]
    before = list(modules)
    guard(h, lambda: ev("x", context, context_modules=modules, expected_type=t),
          _isa(v, k, t), TypeError, "eval_in_context_of_modules", (v,))
    h.check(list(context) == ["x"] and context["x"] is v, "caller's context changed")
    h.check(list(modules) == before, "caller's list of modules changed")


# ------------------------------------------------------------------ C29
def c29_history(h, shape):
    """Any history of set / query / reset / reopen over symbolic names."""
    from vistautils.checkpoints import Checkpoints

    root = h.root()
    where = root + h.s("/cp/deep")
    other = root + h.s("/keep")
    if shape.get("unrelated"):
        bystander = Checkpoints.from_directory(other)
        bystander.set(h.s("z"))
    names = [h.str("name%d" % i, shape.get("nlen", 2), shape.get("nab", "ab."), 1)
             for i in range(shape.get("names", 2))]
    for n in names:
        # "." and ".." are not file names
        h.assume(Not(And(*[among(h, n[i], ".") for i in range(len(n))])))
    cp = Checkpoints.from_directory(where)
    done = []
    trace = []
    inner, inner_done = None, []
    if shape.get("nested"):
        # checkpoints of a part, below those of the whole
        inner = Checkpoints.from_directory(where + h.s("/part"))
        for n in names:
            h.assume(Not(n == "part") if len(n) == 4 else True)
    for i in range(shape.get("many", 0)):
        cp.set(h.s("step_%d" % i))
        done.append(h.s("step_%d" % i))
    for i in range(shape["steps"]):
        op = h.choose("op%d" % i, 6 if shape.get("nested") else 4)
        if op == 4:
            inner = Checkpoints.from_directory(where + h.s("/part"))
            inner.set(names[0])
            inner_done.append(names[0])
            trace.append("part")
        elif op == 5:
            Checkpoints.from_directory(where + h.s("/part")).reset_all()
            inner_done = []
            trace.append("reset part")
        elif op == 0:
            k = h.choose("k%d" % i, len(names))
            cp.set(names[k])
            done.append(names[k])
            trace.append("set")
        elif op == 1:
            cp.reset_all()
            done = []
            inner_done = []
            trace.append("reset")
        elif op == 2:
            cp = Checkpoints.from_directory(where)
            trace.append("reopen")
        else:
            fresh = Checkpoints.from_directory(where)
            fresh.set(names[1])
            done.append(names[1])
            trace.append("other handle")
    for q in names:
        # nothing was set there
        h.check(Not((q + h.s("/") + q) in cp), "membership of a name below another")
    for q in names + [h.s("step_%d" % i) for i in range(shape.get("many", 0))]:
        h.check(Iff(q in cp, Or(*[q == d for d in done])), "membership after " + " ".join(trace))
    again = Checkpoints.from_directory(where)
    if inner is not None:
        for q in names:
            h.check(Iff(q in inner, Or(*[q == d for d in inner_done])),
                    "membership in the part after " + " ".join(trace))
    for q in (h.s("."), h.s(".."), h.s("")) + ((h.s("part"),) if inner is not None else ()):
        h.check(Not(q in again), "a name that was never set")
    for q in names:
        h.check(Iff(q in again, Or(*[q == d for d in done])), "membership after reopening")
    if shape.get("unrelated"):
        h.check(h.s("z") in bystander, "reset reached outside the directory")
    for t in trace:
        h.cover(t)


def c29_types(h, shape):
    from vistautils.checkpoints import Checkpoints

    cp = Checkpoints.from_directory(h.root() + h.s("/cp"))
    v = [3, None, b"x"][h.choose("v", 3)]
    for f in (lambda: cp.set(v), lambda: v in cp):
        _, err = h.attempt(f)
        h.check(isinstance(err, TypeError), "names must be strings", repr(err))


def _grid(ns, kinds, tierns=(), long=(), tierlong=()):
    def shapes(tier):
        top = list(ns) + (list(tierns) if tier != "quick" else [])
        big = list(long) + (list(tierlong) if tier != "quick" else [])
        return [{"n": n, "kind": k} for n in top for k in kinds] + [
            {"n": n, "kind": k, "plain": 1} for n in big for k in kinds]

    return shapes


ALLK = ITERABLES + ITERATORS
ORDERED = ("deque", "values", "dict", "keys", "range", "text")

PROPS = {
    "C12": Prop(
        "C12",
        [
            Harness("windowed", c12_windowed, _grid(range(4), ALLK + ORDERED, (4, 5), (17,), (40,)),
                    fakes=("collections",)),
            Harness("drop", c12_drop, _grid(range(4), ALLK + ORDERED, (4, 5), (17,), (40,))),
            Harness("lazy", c12_lazy, [{"op": "drop"}, {"op": "windowed"},
                                            {"op": "drop", "re": 1}, {"op": "windowed", "re": 1}],
                    fakes=("collections",)),
            Harness("pairs", c12_pairs, _grid(range(4), ALLK + ORDERED, (4, 5), (17,), (40,)),
                    fakes=("collections",)),
        ],
        bounds="inputs of 0..3 elements (thorough 5), and of 17 (thorough 40) integers, any window size / count up to two beyond the "
        "length and every size below the legal minimum; lists, tuples, re-iterable objects, "
        "iterators, generators; elements None, repeated or any integer; unbounded iterators and iterables for the "
        "first windows",
        outside="longer inputs",
        covers=["rejected", "partial", "complete", "dropped", "lazy", "lazy iterable"],
    ),
    "C13": Prop(
        "C13",
        [
            Harness("only", c13_only,
                    lambda tier: [{"n": n, "kind": k, "fn": f} for n in range(4) for k in ALLK
                                  for f in ("only", "get_only")]
                    + [{"n": n, "kind": k, "fn": f} for n in range(4)
                       for k in ORDERED + ("set", "frozenset") for f in ("only", "get_only")]
                    + [{"n": n, "kind": k, "fn": f, "plain": 1} for n in (12, 30) for k in ALLK
                       for f in ("only", "get_only")]),
            Harness("infinite", c13_infinite, [{"fn": "only"}, {"fn": "get_only"}]),
            Harness("non_none", c13_non_none, _grid(range(4), ALLK + ("deque", "values"), (4,))),
        ],
        bounds="0..3 elements (plus unbounded input); elements None, any integer, or objects whose "
        "equality, inequality and truth value are arbitrary",
        outside="objects whose repr fails (error message)",
        covers=["one", "none", "many", "non_none"],
    ),
    "C14": Prop(
        "C14",
        [
            Harness(
                "sort", c14_sort,
                lambda tier: [
                    dict({"n": n, "k": k}, **({"_split": 8} if k >= 3 else {}),
                         **({"_opt": k + n} if n * k > 8 else {}))
                    for n in range(0, 4 if tier == "quick" else 5)
                    for k in range(0, 4 if tier == "quick" else 6)
                ],
            ),
            Harness("adjacency", c14_adjacency,
                    lambda tier: [{"n": 4, "k": 12, "_split": 6},
                                  {"n": 5, "k": 4, "_split": 8, "_opt": 9}]
                    + ([] if tier == "quick" else [
                        {"n": 5, "k": 6, "_split": 9, "_opt": 20},
                        {"n": 6, "k": 4, "_split": 9, "_opt": 21},
                    ])),
            Harness("chain", c14_chain,
                    lambda tier: [{"n": 9 if tier == "quick" else 14, "order": o, "extra": 1}
                                  for o in ("up", "down", "mix")]
                    + [{"n": 1500, "order": o, "extra": e} for o in ("up", "down", "mix")
                       for e in (0, 1)]),
            Harness("degrees", c14_degrees, [{"n": n, "k": k} for n in (1, 2, 3) for k in (0, 1, 2)]),
        ],
        bounds="graphs given as 0..3 nodes (thorough 4) and 0..3 edges (thorough 5) with symbolic "
        "identities: repeats, self-loops, parallel edges and dangling edges included; and every graph "
        "on 4 distinct nodes, and on 5 with up to 4 edges (thorough: 5 with 6, 6 with 4); chains of "
        "9 (thorough 14) and 1500 known nodes in three orders with one more edge",
        outside="larger graphs",
        covers=["sorted", "cyclic", "unknown node", "long cycle", "long chain"],
    ),
    "C25": Prop(
        "C25",
        [
            Harness("wellformed", c25_wellformed,
                    lambda tier: [{"digits": d} for d in range(1, 5 if tier == "quick" else 8)] + [{"digits": 21}],
                    strings=True, fakes=("re",)),
            Harness("any", c25_any,
                    lambda tier: [{"n": n, "alphabet": "0159KkMmGgTtbB -x.+_"} for n in
                                  range(0, 5 if tier == "quick" else 7)]
                    + [{"n": n, "alphabet": "1k\u212a\u017f\u0130\u00b5\u00df b\n"}
                       for n in (2, 3, 4)],
                    strings=True, fakes=("re",)),
            Harness("unit", c25_unit, [{}], strings=True, fakes=("re",)),
            Harness("direct", c25_direct, [{}]),
        ],
        bounds="amounts of 1..4 (thorough 7) and 21 digits; every string of up to 4 (thorough 6) "
        "characters over digits, unit letters, space and some others; any integer amount",
        outside="non-ASCII digits; what follows a complete amount (the parser ignores it)",
        assumptions=["regular expressions matched by a model of the re module's backtracking "
                     "semantics, whose patterns come from the code; ASCII classes"],
        covers=["parsed", "zero", "refused", "accepted", "unit", "unit refused"],
    ),
    "C26": Prop(
        "C26",
        [
            Harness("limited", c26_limited, _grid(range(5), ALLK, (5, 6), (30,)), strings=True),
            Harness("flatten", c26_flatten,
                    lambda tier: [{"n": n} for n in range(0, 3 if tier == "quick" else 4)],
                    strings=True),
            Harness("strip", c26_strip,
                    lambda tier: [{"n": n} for n in range(0, 5 if tier == "quick" else 8)]
                    + [{"n": 4, "ab": ". \\~"}, {"n": 4, "ab": ".A\n\u0130"}],
                    strings=True),
            Harness("zip_name", c26_zip_name,
                    lambda tier: [{"n": n} for n in range(0, 6 if tier == "quick" else 9)]
                    + [{"n": n, "ext": e} for n in range(0, 4)
                       for e in (".tar", ".tgz", ".tar.gz", "tar.gz", ".zip")]
                    + [{"n": n, "ext": e} for n in (0, 1)
                       for e in (".TAR", ".TGZ", ".TAR.GZ", ".tar.GZ", ".Tgz", ".tar ", ".tar.gz\n",
                                 ".tar.gz.", "tgz", ".tarx", ".tar.gz.zip", ".tgz.ZIP", ".tar.bz2",
                                 ".tar.gz ", ".t\u0261z", ".tar~")]
                    + [{"n": n, "ext": a + b} for n in (0, 1, 2)
                       for a in (".tar", ".tgz", ".tar.gz", ".gz", ".zip")
                       for b in (".tar", ".tgz", ".tar.gz", ".gz")],
                    strings=True),
        ],
        bounds="any integer limit over lists of 0..4 (thorough 6) and 30 items; names of up to 4 "
        "(thorough 7) characters; archive names of up to 5 (thorough 8) characters over the "
        "letters of the extensions, and up to 3 followed by each extension, up to 2 by any two; up to 1 followed by 16 endings that only look like one; up to 2 (thorough 3) parts of 9 kinds flattened",
        outside="longer names",
        covers=["flattened", "short", "long", "negative", "no extension", "stripped", "ext 7", "ext 4", "ext 0"],
    ),
    "C28": Prop(
        "C28",
        [
            Harness("guards", c28_guards,
                    [{"op": o} for o in ("arg", "arg_fmt", "state", "not_none", "args_not_none",
                                         "args_none")]),
            Harness("message", c28_message, [{"n": 3}], strings=True),
            Harness("types", c28_types, [{"op": o} for o in ("isinstance", "opt", "all", "subclass")]),
            Harness("in", c28_in, [{"n": n} for n in range(4)]),
            Harness("in_any", c28_in_any, [{}]),
            Harness("in_many", c28_in_many, [{"n": 12}]),
            Harness("values", c28_values, [{"op": "withid"}, {"op": "scored"}], strings=True),
            Harness("eval", c28_eval, [{}], strings=True, fakes=("importlib",)),
        ],
        bounds="values: any integer, any truth value, None, empty string and list, an instance, a "
        "class; up to 3 legal values, and 12 known ones; ids of up to 1 character; scores any real, infinite or not a number; messages of up to 3 characters, "
        "percent signs included; 14 types, abstract ones and nested tuples included",
        outside="classes overriding isinstance checks (other than abstract base classes); other values",
        covers=["check_arg pass", "check_arg refuse", "check_in pass", "check_in refuse",
                "check_opt_isinstance pass", "check_opt_isinstance refuse"],
    ),
    "C29": Prop(
        "C29",
        [
            Harness("history", c29_history,
                    lambda tier: [{"steps": s, "unrelated": u} for s in
                                  range(0, 4 if tier == "quick" else 6) for u in (0, 1)]
                    + [{"steps": 2, "unrelated": 1, "nlen": 3, "names": 2, "nab": "aA0 ._-\u00e9%"},
                       {"steps": 3, "unrelated": 0, "names": 3, "nlen": 1, "nab": "aA\u00e9~ "},
                       {"steps": 3, "unrelated": 0, "nested": 1, "nlen": 1},
                       {"steps": 2, "unrelated": 1, "many": 12}],
                    strings=True, fakes=("pathlib", "shutil", "os")),
            Harness("types", c29_types, [{}], strings=True, fakes=("pathlib", "shutil", "os")),
        ],
        bounds="histories of up to 3 (thorough 5) operations, also after 12 names set, two or "
        "three names of 1..3 characters over letters, dots and others, second handles and reopening included; queries of names below "
        "another",
        outside="names that are not legal file names; concurrent processes; crashes inside the "
        "file system",
        assumptions=["the file system is a tree of named nodes (in-memory model of the pathlib and "
                     "shutil calls made); the real file system is used by the replays"],
        covers=["set", "reset", "reopen", "other handle"],
    ),
}
