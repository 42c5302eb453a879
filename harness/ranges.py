"""Ranges, range sets and range maps.

Specification side: a range is a pair of *cuts*; a cut is -inf, +inf or (value, side) with side 0
just below and 1 just above the value, ordered lexicographically.  All spec formulas are built
with non-forking connectives, so each check is one solver question.
"""
import copy
import itertools
import pickle

from sx.core import And, Iff, Implies, Ite, Not, Or
from sx.run import Harness, Prop

KINDS = ("cc", "co", "oc", "oo", "uc", "uo", "cu", "ou", "uu")


# ------------------------------------------------------------------ spec: cuts
class Cut:
    def __init__(self, inf, v=None, side=0):
        self.inf, self.v, self.side = inf, v, side


NEG, POS = Cut(-1), Cut(1)


def clt(a, b):
    if a.inf or b.inf:
        return a.inf < b.inf
    return Or(a.v < b.v, And(a.v == b.v, a.side < b.side))


def ceq(a, b):
    if a.inf or b.inf:
        return a.inf == b.inf
    return And(a.v == b.v, a.side == b.side)


def cle(a, b):
    return Not(clt(b, a))


class R:
    """Spec of a range."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def has(self, x):
        # x strictly between the cuts
        a = True if self.lo.inf else (self.lo.v < x if self.lo.side else self.lo.v <= x)
        b = True if self.hi.inf else (x <= self.hi.v if self.hi.side else x < self.hi.v)
        return And(a, b)

    def valid(self):
        return cle(self.lo, self.hi)

    def empty(self):
        return ceq(self.lo, self.hi)

    def encloses(self, o):
        return And(cle(self.lo, o.lo), cle(o.hi, self.hi))

    def connected(self, o):
        return And(cle(self.lo, o.hi), cle(o.lo, self.hi))

    def eq(self, o):
        return And(ceq(self.lo, o.lo), ceq(self.hi, o.hi))


def spec(kind, a, b):
    lo = NEG if kind[0] == "u" else Cut(0, a, 0 if kind[0] == "c" else 1)
    hi = POS if kind[1] == "u" else Cut(0, b, 1 if kind[1] == "c" else 0)
    return R(lo, hi)


def build(kind, a, b):
    from vistautils.range import Range

    return {
        "cc": lambda: Range.closed(a, b),
        "co": lambda: Range.closed_open(a, b),
        "oc": lambda: Range.open_closed(a, b),
        "oo": lambda: Range.open(a, b),
        "uc": lambda: Range.at_most(b),
        "uo": lambda: Range.less_than(b),
        "cu": lambda: Range.at_least(a),
        "ou": lambda: Range.greater_than(a),
        "uu": lambda: Range.all(),
    }[kind]()


def mk(h, name, kind, nonempty=False):
    """A symbolic valid range of the given kind: (real object, spec)."""
    a = h.int(name + ".lo") if kind[0] != "u" else None
    b = h.int(name + ".hi") if kind[1] != "u" else None
    s = spec(kind, a, b)
    h.assume(s.valid())
    if nonempty:
        h.assume(Not(s.empty()))
    return build(kind, a, b), s


def read(r):
    """The spec of a range object, read back through its public accessors."""
    from vistautils.range import BoundType

    lo, hi = NEG, POS
    if r.has_lower_bound():
        lo = Cut(0, r.lower_endpoint, 0 if r.lower_bound_type is BoundType.closed() else 1)
    if r.has_upper_bound():
        hi = Cut(0, r.upper_endpoint, 1 if r.upper_bound_type is BoundType.closed() else 0)
    return R(lo, hi)


def same(r, s):
    return And(r is not None, read(r).eq(s)) if r is not None else False


def is_true(h, v, label):
    """The value is a genuine truth value equal to the expectation."""


# ------------------------------------------------------------------ C01
def c01_construct(h, shape):
    kind = shape["kind"]
    a = h.int("lo") if kind[0] != "u" else None
    b = h.int("hi") if kind[1] != "u" else None
    x = h.int("x")
    mixed = shape.get("mixed")  # values and ends of different numeric types
    if mixed == 1:
        x = h.real("x")
    elif mixed:
        a = a if a is None or mixed == 3 else h.real("lo")
        b = b if b is None else h.real("hi")
    s = spec(kind, a, b)
    r, err = h.attempt(build, kind, a, b)
    if err is not None:
        h.check(isinstance(err, ValueError), "invalid range raises something else", repr(type(err)))
        h.check(Not(s.valid()), "valid range rejected")
        h.cover("rejected")
        return
    h.check(s.valid(), "invalid range accepted")
    h.cover("accepted " + kind)
    h.check(r.has_lower_bound() == (kind[0] != "u"), "has_lower_bound")
    h.check(r.has_upper_bound() == (kind[1] != "u"), "has_upper_bound")
    h.check(same(r, s), "accessors disagree with the factory")
    h.check(Iff(r.is_empty(), s.empty()), "is_empty")
    got = x in r
    h.check(Iff(got, s.has(x)), "membership")
    h.cover("member" if got else "not member")
    h.check(Iff(got, s.has(x)), "membership")
    if kind[0] == "u":
        for f in ("lower_endpoint", "lower_bound_type"):
            _, e = h.attempt(getattr, r, f)
            h.check(e is not None, "unbounded end has an accessor value")
    if kind[1] == "u":
        for f in ("upper_endpoint", "upper_bound_type"):
            _, e = h.attempt(getattr, r, f)
            h.check(e is not None, "unbounded end has an accessor value")
    _, e = h.attempt(lambda: None in r)
    h.check(isinstance(e, ValueError), "membership of None is not rejected")
    # convexity
    y = h.int("y")
    z = h.int("z")
    h.assume(And(x <= y, y <= z))
    if x in r and z in r:
        h.check(y in r, "not convex")
    h.observe("in", got)


class Bare:
    """A totally ordered value that knows no more comparisons than it must."""

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return self.v < o.v

    def __eq__(self, o):
        return self.v == o.v

    def __hash__(self):
        return 1


def c01_ordered(h, shape):
    """Endpoints of any ordered type."""
    kind = shape["kind"]
    a = h.int("lo") if kind[0] != "u" else None
    b = h.int("hi") if kind[1] != "u" else None
    x = h.int("x")
    s = spec(kind, a, b)
    ka, kb = (None if v is None else Bare(v) for v in (a, b))
    r, err = h.attempt(build, kind, ka, kb)
    h.check(Iff(err is None, s.valid()), "valid endpoints accepted", repr(err))
    if err is not None:
        h.check(isinstance(err, ValueError), "invalid range raises something else", repr(type(err)))
        return
    h.check(Iff(Bare(x) in r, s.has(x)), "membership")
    h.check(Iff(r.is_empty(), s.empty()), "is_empty")
    h.check(a is None or r.lower_endpoint is ka, "lower endpoint")
    h.check(b is None or r.upper_endpoint is kb, "upper endpoint")


# ------------------------------------------------------------------ C02
def c02_pair(h, shape):
    from vistautils.range import Range

    ra, a = mk(h, "a", shape["ka"])
    rb, b = mk(h, "b", shape["kb"])
    x = h.int("x")
    op = shape["op"]
    if op == "encloses":
        got = ra.encloses(rb)
        h.check(Iff(got, a.encloses(b)), "encloses")
        if got:
            h.cover("encloses")
            h.check(Implies(b.has(x), a.has(x)), "enclosed value missing")
    elif op == "connected":
        got = ra.is_connected(rb)
        h.check(Iff(got, a.connected(b)), "is_connected")
        h.check(Iff(rb.is_connected(ra), got), "is_connected not symmetric")
        h.check(Iff(ra.intersects(rb), a.connected(b)), "intersects")
        h.check(Iff(rb.intersects(ra), a.connected(b)), "intersects not symmetric")
    elif op == "intersection":
        r, e = h.attempt(ra.intersection, rb)
        if e is not None:
            h.check(isinstance(e, ValueError), "intersection raises the wrong error")
            h.check(Not(a.connected(b)), "intersection of connected ranges raised")
            h.cover("disconnected")
        else:
            h.check(a.connected(b), "intersection of disconnected ranges returned")
            h.cover("connected")
            s = read(r)
            h.check(s.valid(), "intersection invalid")
            h.check(Iff(s.has(x), And(a.has(x), b.has(x))), "intersection membership")
            h.check(And(a.encloses(s), b.encloses(s)), "intersection not enclosed by both")
            # maximality: the bounds are the larger lower and the smaller upper cut
            h.check(
                And(
                    Or(ceq(s.lo, a.lo), ceq(s.lo, b.lo)), Or(ceq(s.hi, a.hi), ceq(s.hi, b.hi))
                ),
                "intersection not maximal",
            )
    elif op == "span":
        s = read(ra.span(rb))
        h.check(And(s.encloses(a), s.encloses(b)), "span does not enclose both")
        h.check(
            And(Or(ceq(s.lo, a.lo), ceq(s.lo, b.lo)), Or(ceq(s.hi, a.hi), ceq(s.hi, b.hi))),
            "span not minimal",
        )
        s2 = read(rb.span(ra))
        h.check(s.eq(s2), "span not commutative")
        t = read(Range.create_spanning([ra, rb]))
        h.check(s.eq(t), "create_spanning disagrees with span")
        h.check(Implies(Or(a.has(x), b.has(x)), s.has(x)), "span loses a value")
    h.cover(op)


def c02_spanning(h, shape):
    from vistautils.range import Range

    n = len(shape["kinds"])
    if n == 0:
        _, e = h.attempt(Range.create_spanning, [])
        h.check(isinstance(e, ValueError), "create_spanning([]) accepted")
        return
    rs = [mk(h, "r%d" % i, k) for i, k in enumerate(shape["kinds"])]
    s = read(Range.create_spanning([r for r, _ in rs]))
    h.check(And(*[s.encloses(q) for _, q in rs]), "does not enclose all")
    h.check(Or(*[ceq(s.lo, q.lo) for _, q in rs]), "lower bound not tight")
    h.check(Or(*[ceq(s.hi, q.hi) for _, q in rs]), "upper bound not tight")
    h.cover("spanning")


# ------------------------------------------------------------------ C03
class Tagged:
    """An endpoint with an ordinary total order; equal endpoints need not be alike otherwise."""

    def __init__(self, h, v, tag):
        self.h, self.v, self.tag = h, v, tag

    def __eq__(self, o):
        return self.v == o.v if isinstance(o, Tagged) else NotImplemented

    def __ne__(self, o):
        return self.v != o.v if isinstance(o, Tagged) else NotImplemented

    def __lt__(self, o):
        return self.v < o.v

    def __le__(self, o):
        return self.v <= o.v

    def __gt__(self, o):
        return self.v > o.v

    def __ge__(self, o):
        return self.v >= o.v

    def __hash__(self):
        if self.h.symbolic:
            from sx.loader import sx_hash

            return sx_hash(self.v)
        return hash(self.v)

    def __repr__(self):
        return "endpoint-" + self.tag

    __str__ = __repr__


def mk_tagged(h, name, kind):
    _, s = mk(h, name, kind)
    return build(kind, Tagged(h, s.lo.v, name), Tagged(h, s.hi.v, name)), s


def c03_eq(h, shape):
    make = mk_tagged if shape.get("tagged") else mk
    ra, a = make(h, "a", shape["ka"])
    rb, b = make(h, "b", shape["kb"])
    got = ra == rb
    # == must be the equality of bounds (the nine kinds are distinct even if both are empty)
    h.check(Iff(got, a.eq(b)), "equality")
    h.check(Iff(rb == ra, got), "equality not symmetric")
    h.check(Iff(ra != rb, Not(got)), "!= is not the negation of ==")
    h.check(ra == ra, "not reflexive")
    h.check(Not(ra == 5), "equal to a non-range")
    if got:
        h.cover("equal")
        if h.symbolic:
            from sx.loader import sx_hash

            ha, hb = sx_hash(ra), sx_hash(rb)
        else:
            ha, hb = hash(ra), hash(rb)
        h.check(ha == hb, "equal ranges hash differently")


PROTOCOLS = list(range(pickle.HIGHEST_PROTOCOL + 1))


def c03_pickle(h, shape):
    # object identity of the unbounded ends must survive copying and pickling; endpoints are
    # carried through unchanged, so they are concretised by the solver
    ra, a = mk(h, "a", shape["ka"])
    if h.symbolic:
        kind = shape["ka"]
        lo = None if kind[0] == "u" else conc(a.lo.v)
        hi = None if kind[1] == "u" else conc(a.hi.v)
        ra = build(kind, lo, hi)
        a = spec(kind, lo, hi)
    how = h.choice("how", ["copy", "deepcopy", "pickle"])
    f = {
        "copy": copy.copy,
        "deepcopy": copy.deepcopy,
        "pickle": lambda r: pickle.loads(pickle.dumps(r, h.choice("protocol", PROTOCOLS))),
    }[how]
    rb = f(ra)
    h.check(rb == ra, "copy differs")
    h.check(ra == rb, "copy differs (reversed)")
    h.check(hash(rb) == hash(ra), "copy hashes differently")
    h.check(rb.encloses(ra), "copy does not enclose the original")
    h.check(ra.encloses(rb), "original does not enclose the copy")
    h.check(rb.has_lower_bound() == ra.has_lower_bound(), "copy lost its unbounded end")
    h.check(rb.has_upper_bound() == ra.has_upper_bound(), "copy lost its unbounded end")
    h.check(rb.is_connected(ra), "copy not connected")
    h.cover("copied")


def conc(v):
    """Restrict an endpoint to a small window and let the solver enumerate it."""
    from sx import core

    if isinstance(v, core.SymBase):
        core.ctx().assume(v >= 0)
        core.ctx().assume(v <= 1)
        return v.__index__()
    return v


# ------------------------------------------------------------------ range set states
def set_kinds(k):
    """All bound-kind patterns of k disjoint sorted ranges (unbounded only at the outside)."""
    for ks in itertools.product(("cc", "co", "oc", "oo"), repeat=k):
        yield ks
    # unbounded ends
    if k >= 1:
        for ks in itertools.product(("cc", "co", "oc", "oo"), repeat=k):
            if ks[0][0] == "c":
                yield (("u" + ks[0][1]),) + ks[1:]
            if ks[-1][1] == "c":
                l = list(ks)
                l[-1] = l[-1][0] + "u"
                yield tuple(l)
                if ks[0][0] == "c":
                    l[0] = "u" + l[0][1]
                    yield tuple(l)


def fixed_int(h, n):
    """A known number that compares and hashes like the arbitrary ones."""
    if not h.symbolic:
        return n
    import z3

    from sx import core

    return core.SymInt(z3.IntVal(n))


def mk_members(h, kinds, tag="m", nonempty=True, fixed=False):
    """k disjoint, pairwise unconnected, non-empty ranges in ascending order; ``fixed``: with these
    bounds, for large sets, in which what is added or asked for stays arbitrary."""
    out = []
    prev = None
    if fixed:
        ends = [(fixed_int(h, 5 * i), fixed_int(h, 5 * i + 2)) for i in range(len(kinds))]
        return [(build(k, a, b), spec(k, a, b)) for k, (a, b) in zip(kinds, ends)]
    for i, k in enumerate(kinds):
        r, s = mk(h, "%s%d" % (tag, i), k, nonempty=True)
        if prev is not None:
            h.assume(clt(prev.hi, s.lo))
        out.append((r, s))
        prev = s
    return out


def canonical(h, rs, what):
    """The member ranges are non-empty, ascending and pairwise unconnected."""
    members = list(rs.as_ranges())
    sp = [read(m) for m in members]
    conds = [And(s.valid(), Not(s.empty())) for s in sp]
    conds += [clt(p.hi, q.lo) for p, q in zip(sp, sp[1:])]
    h.check(And(*conds), what + ": members not canonical")
    h.check(len(rs) == len(members), what + ": len")
    h.check(rs.is_empty() == (len(members) == 0), what + ": is_empty")
    return members, sp


def new_set(members, mutable=True):
    from vistautils.range import RangeSet

    rs = RangeSet.create_mutable()
    for r, _ in members:
        rs.add(r)
    return rs


def expected_union(member_specs, new):
    """Exactly which members of the canonical form are merged with ``new`` and its bounds."""


# ------------------------------------------------------------------ C04
def c04_add(h, shape):
    from vistautils.range import RangeSet

    ms = mk_members(h, shape["kinds"], fixed=shape.get("fixed"))
    rs = new_set(ms)
    before, bs = canonical(h, rs, "built")
    h.check(len(before) == len(ms), "adding disjoint ranges in order changed their number")
    if len(before) == len(ms):
        h.check(And(*[s.eq(m[1]) for s, m in zip(bs, ms)]), "adding disjoint ranges altered them")
    rn, n = mk(h, "new", shape["new"])
    if shape.get("near"):
        # each end next to one of these members
        i, j = shape["near"]
        h.assume(And(n.lo.v >= 5 * i - 1, n.lo.v <= 5 * i + 2, n.hi.v >= 5 * j, n.hi.v <= 5 * j + 3))
    x = h.int("x")
    ret = rs.add(rn)
    h.check(ret is rs, "add does not return the set")
    after, sp = canonical(h, rs, "after add")
    h.cover("members after: %d" % len(after))
    # exact membership, for every value
    h.check(
        Iff(Or(*[s.has(x) for s in sp]), Or(n.has(x), *[m.has(x) for _, m in ms])),
        "union of values wrong",
    )
    # over dense orders too: the members are exactly the connected unions
    merged = [And(m.connected(n), Not(n.empty())) for _, m in ms]
    # every old member that is not merged survives unchanged
    for (_, m), c in zip(ms, merged):
        h.check(Implies(Not(c), Or(*[s.eq(m) for s in sp])), "an untouched member changed")
    # one member encloses the new range and its bounds come from the merged group
    if sp:
        h.check(
            Implies(Not(n.empty()), Or(*[s.encloses(n) for s in sp])),
            "the added range is not enclosed by one member",
        )
        for s in sp:
            lo_from = Or(ceq(s.lo, n.lo), *[ceq(s.lo, m.lo) for _, m in ms])
            hi_from = Or(ceq(s.hi, n.hi), *[ceq(s.hi, m.hi) for _, m in ms])
            h.check(And(lo_from, hi_from), "a member has invented bounds")
    h.check(
        Implies(n.empty(), And(len(sp) == len(ms), *[s.eq(m[1]) for s, m in zip(sp, ms)])),
        "adding an empty range changed the set",
    )
    h.check((x in rs) == bool(Or(*[s.has(x) for s in sp])), "contains after add")


def c04_bulk(h, shape):
    """add_all of a list / a range set / builder.add_all all equal repeated add; clear empties."""
    from vistautils.range import ImmutableRangeSet, RangeSet

    if shape.get("fixed"):
        rs = mk_members(h, shape["kinds"], fixed=True) + [mk(h, "new", k) for k in shape["new"]]
        rs = [rs[(7 * i) % len(rs)] for i in range(len(rs))]
    else:
        rs = [mk(h, "r%d" % i, k) for i, k in enumerate(shape["kinds"])]
    one = RangeSet.create_mutable()
    for r, _ in rs:
        one.add(r)
    how = shape["how"]
    if how == "list":
        two = RangeSet.create_mutable()
        h.check(two.add_all([r for r, _ in rs]) is two, "add_all does not return the set")
    elif how == "iterator":
        two = RangeSet.create_mutable()
        two.add_all(iter([r for r, _ in rs]))
    elif how == "rangeset":
        two = RangeSet.create_mutable()
        two.add_all(one)
    elif how == "builder":
        two = ImmutableRangeSet.builder().add_all([r for r, _ in rs]).build()
    elif how == "clear":
        one.clear()
        m, _ = canonical(h, one, "after clear")
        h.check(len(m) == 0, "clear left members")
        x = h.int("x")
        h.check(not (x in one), "a cleared set contains a value")
        h.cover("cleared")
        return
    m1, s1 = canonical(h, one, "one by one")
    m2, s2 = canonical(h, two, "bulk")
    h.check(len(s1) == len(s2), "bulk addition differs in size")
    h.check(And(*[a.eq(b) for a, b in zip(s1, s2)]), "bulk addition differs")
    x = h.int("x")
    h.check(
        Iff(Or(*[s.has(x) for s in s2]), Or(*[m.has(x) for _, m in rs])),
        "bulk union of values wrong",
    )
    if how == "rangeset":
        # from then on the two sets live their own lives
        rn, n = mk(h, "later", "co", nonempty=True)
        grown, kept, ks = (two, one, s1) if h.choice("grown", [0, 1]) else (one, two, s2)
        grown.add(rn)
        _, after = canonical(h, kept, "the other set")
        h.check(len(after) == len(ks), "the two sets share their members (size)")
        h.check(And(*[a.eq(b) for a, b in zip(after, ks)]), "the two sets share their members")
    h.cover("bulk")


# ------------------------------------------------------------------ C05
def opt_same(h, got, ms, pred, label):
    """``got`` is the unique member satisfying pred (or None when none does)."""
    if got is None:
        h.check(Not(Or(*[pred(m) for _, m in ms])), label + ": missed")
        return
    g = read(got)
    h.check(Or(*[And(pred(m), g.eq(m)) for _, m in ms]), label + ": wrong member")


def same_collection(h, got, ms, pred, label):
    got = list(got)
    gs = [read(g) for g in got]
    for _, m in ms:
        h.check(
            Iff(Or(*[g.eq(m) for g in gs]), pred(m)), label + ": a member is missing or extra"
        )
    for g in gs:
        h.check(Or(*[g.eq(m) for _, m in ms]), label + ": not a member")
    for i in range(len(gs)):
        for j in range(i):
            h.check(Not(gs[i].eq(gs[j])), label + ": duplicate")
    h.check(
        And(*[clt(p.lo, q.lo) for p, q in zip(gs, gs[1:])]), label + ": not in ascending order"
    )


def c05_point(h, shape):
    ms = mk_members(h, shape["kinds"], fixed=shape.get("fixed"))
    rs = new_set(ms)
    if shape["imm"]:
        rs = rs.immutable_copy()
    x = h.int("x")
    q = shape["q"]
    if q == "contains":
        got = x in rs
        h.check(Iff(got, Or(*[m.has(x) for _, m in ms])), "contains")
        opt_same(h, rs.range_containing(x), ms, lambda m: m.has(x), "range_containing")
        h.cover("contained" if got else "not contained")
    elif q == "rightmost":
        # the last member whose lower bound does not exceed x
        got = rs.rightmost_containing_or_below(x)

        def ok(m):
            return Or(m.lo.inf == -1, cle(m.lo, Cut(0, x, 0)))

        if got is None:
            h.check(Not(Or(*[ok(m) for _, m in ms])), "rightmost: missed")
            h.cover("none")
        else:
            g = read(got)
            h.check(Or(*[And(ok(m), g.eq(m)) for _, m in ms]), "rightmost: not a candidate")
            h.check(
                And(*[Implies(ok(m), cle(m.lo, g.lo)) for _, m in ms]), "rightmost: not the last"
            )
            h.cover("some")
        if hasattr(rs, "maximal_containing_or_below"):
            alt = rs.maximal_containing_or_below(x)
            h.check(
                (alt is None) == (got is None) and (got is None or same(alt, read(got))),
                "deprecated alias differs",
            )
    elif q == "leftmost":
        got = rs.leftmost_containing_or_above(x)

        def ok2(m):
            return Or(m.hi.inf == 1, cle(Cut(0, x, 1), m.hi))

        if got is None:
            h.check(Not(Or(*[ok2(m) for _, m in ms])), "leftmost: missed")
            h.cover("none")
        else:
            g = read(got)
            h.check(Or(*[And(ok2(m), g.eq(m)) for _, m in ms]), "leftmost: not a candidate")
            h.check(
                And(*[Implies(ok2(m), cle(g.lo, m.lo)) for _, m in ms]), "leftmost: not the first"
            )
            h.cover("some")
        if hasattr(rs, "minimal_containing_or_above"):
            alt = rs.minimal_containing_or_above(x)
            h.check(
                (alt is None) == (got is None) and (got is None or same(alt, read(got))),
                "deprecated alias differs",
            )


def c05_range(h, shape):
    ms = mk_members(h, shape["kinds"], fixed=shape.get("fixed"))
    rs = new_set(ms)
    if shape["imm"]:
        rs = rs.immutable_copy()
    rq, q = mk(h, "q", shape["qk"])
    op = shape["q"]
    if op == "encloses":
        got = rs.encloses(rq)
        h.check(Iff(got, Or(*[m.encloses(q) for _, m in ms])), "encloses")
        g = rs.range_enclosing_range(rq)
        if g is None:
            h.check(Not(Or(*[m.encloses(q) for _, m in ms])), "range_enclosing_range: missed")
        else:
            s = read(g)
            h.check(
                Or(*[And(m.encloses(q), s.eq(m)) for _, m in ms]),
                "range_enclosing_range: wrong member",
            )
        h.check(Iff(rs.encloses_all([rq]), got), "encloses_all of one")
        h.check(rs.encloses_all([]), "encloses_all of none")
        h.check(rs.encloses_all(rs), "does not enclose itself")
    elif op == "intersects":
        def nonempty_common(m):
            lo_ok = And(clt(m.lo, q.hi), clt(q.lo, m.hi))
            return And(lo_ok, Not(q.empty()))

        got = rs.intersects(rq)
        h.check(Iff(got, Or(*[nonempty_common(m) for _, m in ms])), "intersects")
        h.cover("intersects" if got else "no intersection")
    elif op == "overlapping":
        # the documented "have an intersection": the intersection of two ranges exists iff they
        # are connected
        same_collection(
            h, rs.ranges_overlapping(rq), ms, lambda m: m.connected(q), "ranges_overlapping"
        )
    elif op == "enclosed_by":
        same_collection(
            h, rs.ranges_enclosed_by(rq), ms, lambda m: q.encloses(m), "ranges_enclosed_by"
        )
    h.cover(op)


def c05_all(h, shape):
    """encloses_all of a second range set, span, emptiness."""
    if shape.get("fixed"):
        # a large set asked about itself with one member replaced by anything
        ms, os_ = two_sets(h, shape)
    else:
        ms = mk_members(h, shape["kinds"])
        os_ = mk_members(h, shape["other"], tag="o")
    rs = new_set(ms)
    other = new_set(os_)
    got = rs.encloses_all(other)
    want = And(*[Or(*[m.encloses(o) for _, m in ms]) for _, o in os_])
    h.check(Iff(got, want), "encloses_all")
    h.check(Iff(rs.encloses_all([r for r, _ in os_]), want), "encloses_all of a list")
    h.cover("encloses_all" if got else "not encloses_all")
    if ms:
        s = read(rs.span)
        h.check(And(ceq(s.lo, ms[0][1].lo), ceq(s.hi, ms[-1][1].hi)), "span")
    else:
        _, e = h.attempt(lambda: rs.span)
        h.check(isinstance(e, ValueError), "span of an empty set")


def c05_history(h, shape):
    """What a set answers depends on its members now, not on what it was asked or held before."""
    from vistautils.range import Range

    ms = mk_members(h, shape["kinds"])
    rs = new_set(ms)
    x = h.int("x")
    rq, q = mk(h, "q", shape["qk"])
    rn, _ = mk(h, "new", shape["new"])

    asks = {
        "contains": lambda: [x in rs, rs.range_containing(x)],
        "nearest": lambda: [
            rs.rightmost_containing_or_below(x),
            rs.leftmost_containing_or_above(x),
        ],
        "encloses": lambda: [
            rs.encloses(rq),
            rs.range_enclosing_range(rq),
            rs.encloses_all([rq]),
            list(rs.ranges_enclosed_by(rq)),
        ],
        "overlaps": lambda: [rs.intersects(rq), list(rs.ranges_overlapping(rq))],
        "whole": lambda: [
            rs.span if len(rs) else None,
            rs.is_empty(),
            len(rs),
            list(rs.as_ranges()),
            list(rs.immutable_copy().as_ranges()),
        ],
    }
    ask = asks[shape["ask"]]
    ask()
    for step in shape["steps"]:
        if step == "add":
            rs.add(rn)
        elif step == "clear":
            rs.clear()
        elif step == "back":
            rs.add_all([r for r, _ in ms])
        elif step == "self":
            before = [read(m) for m in rs.as_ranges()]
            h.check(rs.add_all(rs) is rs, "add_all does not return the set")
            after = [read(m) for m in rs.as_ranges()]
            h.check(len(before) == len(after), "adding a set to itself changed its size")
            h.check(And(*[a.eq(b) for a, b in zip(before, after)]), "adding a set to itself")
    # one which was given the same and was never asked anything
    given = list(ms)
    for step in shape["steps"]:
        if step == "add":
            given.append((rn, None))
        elif step == "clear":
            given = []
        elif step == "back":
            given += ms
    fresh = new_set(given)
    got = ask()
    rs = fresh
    want = ask()
    for i, (g, w) in enumerate(zip(got, want)):
        label = "%s, answer %d, of a set asked before" % (shape["ask"], i)
        if isinstance(g, list) or isinstance(w, list):
            h.check(len(g) == len(w), label)
            h.check(And(*[same(a, read(b)) for a, b in zip(g, w)]), label)
        elif isinstance(w, Range) or isinstance(g, Range):
            h.check(g is not None and w is not None, label)
            if g is not None and w is not None:
                h.check(same(g, read(w)), label)
        elif g is None or w is None:
            h.check(g is None and w is None, label)
        else:
            h.check(g == w, label)
    h.cover("history " + "-".join(shape["steps"]))


# ------------------------------------------------------------------ C06
def c06_order(h, shape):
    """Any insertion order yields equal sets with equal hashes."""
    from vistautils.range import ImmutableRangeSet, RangeSet

    if shape.get("fixed"):
        # a large set, and one arbitrary range which comes first in one order, last in the other
        rs = mk_members(h, shape["kinds"], fixed=True)
        rs += [mk(h, "new", k) for k in shape["new"]]
    else:
        rs = [mk(h, "r%d" % i, k) for i, k in enumerate(shape["kinds"])]
    perm = shape["perm"]
    one = RangeSet.create_mutable()
    two = RangeSet.create_mutable()
    for r, _ in rs:
        one.add(r)
    for i in perm:
        two.add(rs[i][0])
    _, s1 = canonical(h, one, "first order")
    _, s2 = canonical(h, two, "second order")
    h.check(len(s1) == len(s2), "order changes the number of members")
    h.check(And(*[a.eq(b) for a, b in zip(s1, s2)]), "order changes the members")
    h.check(one == two, "equal sets compare unequal")
    h.check(not (one != two), "equal sets compare unequal (!=)")
    h.check(one.immutable_copy() == two, "immutable copy compares unequal")
    h.check(hash(one.immutable_copy()) == hash(two.immutable_copy()), "equal sets hash differently")
    c = one.immutable_copy()
    h.check(hash(c) == hash(c), "hash not stable")
    h.cover("same")


def two_sets(h, shape):
    if not shape.get("fixed"):
        return mk_members(h, shape["kinds"]), mk_members(h, shape["other"], tag="o")
    # two large sets that may differ in one member
    ms = mk_members(h, shape["kinds"], fixed=True)
    i = shape["at"]
    os_ = list(ms)
    os_[i] = mk(h, "o", shape["kinds"][i], nonempty=True)
    if i:
        h.assume(clt(ms[i - 1][1].hi, os_[i][1].lo))
    if i + 1 < len(ms):
        h.assume(clt(os_[i][1].hi, ms[i + 1][1].lo))
    return ms, os_


def c06_neq(h, shape):
    ms, os_ = two_sets(h, shape)
    a, b = new_set(ms), new_set(os_)
    want = (
        And(*[m.eq(o) for (_, m), (_, o) in zip(ms, os_)]) if len(ms) == len(os_) else False
    )
    got = a == b
    h.check(Iff(got, want), "set equality")
    h.check(Iff(b == a, want), "set equality not symmetric")
    h.check(Iff(a != b, Not(want)), "set inequality")
    h.check(not (a == 3), "equal to a non-set")
    h.cover("equal" if got else "unequal")


def same_members(h, a, b, what):
    """Two sets hold the same ranges."""
    sa, sb = canonical(h, a, what)[1], canonical(h, b, what)[1]
    h.check(len(sa) == len(sb), what + ": size")
    h.check(And(*[x.eq(y) for x, y in zip(sa, sb)]), what + ": members")


def c06_snapshot(h, shape):
    """An immutable copy / a builder's product does not change when its source does."""
    from vistautils.range import ImmutableRangeSet

    ms = mk_members(h, shape["kinds"], fixed=shape.get("fixed"))
    rn, n = mk(h, "new", shape["new"])
    if shape["how"] == "copy":
        rs = new_set(ms)
        snap = rs.immutable_copy()
        rs.add(rn)
        again = rs.immutable_copy()
        same_members(h, again, rs, "second copy")
    elif shape["how"] == "clear":
        rs = new_set(ms)
        snap = rs.immutable_copy()
        rs.clear()
        h.check(rs.immutable_copy().is_empty() and rs.is_empty(), "copy of a cleared set")
    else:
        b = ImmutableRangeSet.builder()
        for r, _ in ms:
            b.add(r)
        snap = b.build()
        b.add(rn)
        rs = new_set(ms)
        rs.add(rn)
        same_members(h, b.build(), rs, "second set")
    _, sp = canonical(h, snap, "snapshot")
    h.check(len(sp) == len(ms), "a snapshot changed size")
    h.check(And(*[s.eq(m) for s, (_, m) in zip(sp, ms)]), "a snapshot changed")
    x = h.int("x")
    h.check((x in snap) == bool(Or(*[m.has(x) for _, m in ms])), "snapshot membership changed")
    h.cover("snapshot " + shape["how"])


def c06_serial(h, shape):
    """copy, deepcopy and the pickle protocol preserve a range set."""
    ms = mk_members(h, shape["kinds"], fixed=shape.get("fixed"))
    if shape.get("fixed"):
        ms = [(build(k, 5 * i, 5 * i + 2), spec(k, 5 * i, 5 * i + 2))
              for i, k in enumerate(shape["kinds"])]
    elif h.symbolic:
        vals = [(conc3(m.lo.v), conc3(m.hi.v)) for _, m in ms]
        ms = [
            (build(k, a, b), spec(k, a, b)) for k, (a, b) in zip(shape["kinds"], vals)
        ]
    rs = new_set(ms)
    if shape["imm"]:
        rs = rs.immutable_copy()
    f = {
        "copy": copy.copy,
        "deepcopy": copy.deepcopy,
        "pickle": lambda r: pickle.loads(pickle.dumps(r, h.choice("protocol", PROTOCOLS))),
    }[shape["how"]]
    c = f(rs)
    m2, s2 = canonical(h, c, "copy")
    h.check(len(s2) == len(ms), "copy has another size")
    h.check(And(*[a.eq(b) for a, (_, b) in zip(s2, ms)]), "copy has other members")
    h.check(c == rs and rs == c, "copy compares unequal")
    x = conc9(h.int("x", -1, 8))
    h.check((x in c) == (x in rs), "copy membership differs")
    h.cover("serial")


def conc9(v):
    # the members are concrete here, so a probe must hash like a concrete number
    return v if type(v) is int else v.__index__()


def conc3(v):
    from sx import core

    if isinstance(v, core.SymBase):
        core.ctx().assume(And(v >= 0, v <= 5))
        return v.__index__()
    return v


# ------------------------------------------------------------------ C07/C08
def mk_map(h, ms, how="pairs", falsy=True, null=False):
    from vistautils.range import ImmutableRangeMap, immutablerangemap

    # any value may be stored, falsy ones included
    vals = ([0, "", ()] + ["v%d" % i for i in range(3, len(ms))])[: len(ms)] if falsy else ["v%d" % i for i in range(len(ms))]
    if null and vals:
        vals[-1] = None
    pairs = [(r, v) for (r, _), v in zip(ms, vals)]
    if how == "builder":
        b = ImmutableRangeMap.builder()
        for r, v in pairs:
            b.put(r, v)
        return b.build(), vals
    if how == "iterator":
        return immutablerangemap(iter(pairs)), vals
    return immutablerangemap(pairs), vals


def c07_lookup(h, shape):
    ms = mk_members(h, shape["kinds"], fixed=shape.get("fixed"))
    # insertion order is not sorted order
    order = shape["perm"]
    shuffled = [ms[i] for i in order]
    null = shape["q"] == "enclosed" or shape.get("null")
    mp, vals = mk_map(h, shuffled, shape["how"], null=null)
    val_of = {}
    for i, v in zip(order, vals):
        val_of[i] = v
    x = h.int("x")
    q = shape["q"]
    if q == "get":
        got = mp[x]
        for i, (_, m) in enumerate(ms):
            if val_of[i] is None:
                h.check(Implies(m.has(x), got is None), "lookup of null")
            else:
                h.check(Iff(got == val_of[i], m.has(x)), "lookup")
        h.check(
            Iff(
                got is None,
                Not(Or(*[m.has(x) for i, (_, m) in enumerate(ms) if val_of[i] is not None])),
            ),
            "lookup: spurious",
        )
        h.check(Iff(x in mp, Or(*[m.has(x) for _, m in ms])), "contains")
        h.check(mp.is_empty() == (len(ms) == 0), "is_empty")
        h.check(len(mp.as_dict()) == len(ms), "as_dict size")
        h.cover("hit" if got is not None else "miss")
    elif q == "right":
        got = mp.get_from_rightmost_containing_or_below(x)
        ok = [cle(m.lo, Cut(0, x, 0)) for _, m in ms]
        for i in range(len(ms)):
            last = And(ok[i], *[Not(ok[j]) for j in range(i + 1, len(ms))])
            if val_of[i] is None:
                h.check(Implies(last, got is None), "rightmost value: null")
            else:
                h.check(Iff(got == val_of[i], last), "rightmost value")
        if None not in vals:
            h.check(Iff(got is None, Not(Or(*ok))), "rightmost value: none")
        h.check(
            mp.get_from_maximal_containing_or_below(x) == got, "deprecated alias differs"
        )
    elif q == "left":
        got = mp.get_from_leftmost_containing_or_above(x)
        ok = [cle(Cut(0, x, 1), m.hi) for _, m in ms]
        for i in range(len(ms)):
            first = And(ok[i], *[Not(ok[j]) for j in range(i)])
            if val_of[i] is None:
                h.check(Implies(first, got is None), "leftmost value: null")
            else:
                h.check(Iff(got == val_of[i], first), "leftmost value")
        if None not in vals:
            h.check(Iff(got is None, Not(Or(*ok))), "leftmost value: none")
        h.check(
            mp.get_from_minimal_containing_or_above(x) == got, "deprecated alias differs"
        )
    elif q == "enclosed":
        rq, s = mk(h, "q", shape["qk"])
        got = list(mp.get_enclosed_by(rq))
        for i, (_, m) in enumerate(ms):
            h.check(Iff(val_of[i] in got, s.encloses(m)), "get_enclosed_by")
        h.check(len(got) == len(set(got)), "get_enclosed_by: duplicates")
    h.cover(q)


def c08_construct(h, shape):
    """A range map exists iff its keys are non-empty and pairwise unconnected."""
    rs = [mk(h, "k%d" % i, k) for i, k in enumerate(shape["kinds"])]
    mp, e = h.attempt(mk_map, h, rs, shape["how"])
    sp = [s for _, s in rs]
    bad = Or(
        *[s.empty() for s in sp],
        *[
            And(sp[i].connected(sp[j]), Not(sp[i].eq(sp[j])))
            for i in range(len(sp))
            for j in range(i)
        ]
    )
    dup = Or(*[sp[i].eq(sp[j]) for i in range(len(sp)) for j in range(i)])
    if e is not None:
        h.check(isinstance(e, ValueError), "wrong exception", repr(e))
        h.check(Or(bad, dup), "disjoint keys rejected")
        h.cover("rejected")
    else:
        h.check(Not(bad), "connected, overlapping or empty keys accepted")
        # a key given twice is either rejected or replaced, like in a dictionary
        h.cover("accepted")
        mp = mp[0]
        keys = [read(k) for k in mp.as_dict().keys()]
        h.check(Implies(Not(dup), len(keys) == len(sp)), "number of keys")
        h.check(
            And(*[Not(keys[i].eq(keys[j])) for i in range(len(keys)) for j in range(i)]),
            "the same key range is present twice",
        )
        h.check(And(*[Or(*[k.eq(s) for k in keys]) for s in sp]), "a key is missing")


C08B = ["cc", "co"], ["oc", "oo"], ["cu", "uo"]


def c08_builder(h, shape):
    """What a builder has built stays; built again it gives what it was given till then."""
    from vistautils.range import ImmutableRangeMap, immutablerangemap

    a, b = [mk(h, "k%d" % i, k) for i, k in enumerate(shape["kinds"])]
    (ra, sa), (rb, sb) = a, b
    h.assume(And(Not(sa.empty()), Not(sb.empty()), Not(sa.connected(sb))))
    bld = ImmutableRangeMap.builder()
    h.check(bld.put(ra, "a") is bld, "put gives the builder")
    one = bld.build()
    again = bld.build()
    want1, want2 = immutablerangemap([(ra, "a")]), immutablerangemap([(ra, "a"), (rb, "b")])
    h.check(one == want1 and again == want1, "built twice")
    bld.put(rb, "b")
    two = bld.build()
    h.check(two == want2, "built after more was put")
    h.check(one == want1 and again == want1, "map changed by its builder")
    x = h.int("x")
    h.check(Iff(one[x] is not None, sa.has(x)), "lookup in the first")
    h.check(Iff(two[x] is not None, Or(sa.has(x), sb.has(x))), "lookup in the second")
    h.cover("built again")


def c08_eq(h, shape):
    """Maps with the same mappings are equal and hash equal whatever the order of insertion."""
    from vistautils.range import immutablerangemap

    ms = mk_members(h, shape["kinds"], fixed=shape.get("fixed"))
    if shape.get("fixed"):
        v = list(range(len(ms)))
        w = list(v)
        w[shape["at"]] = h.choice("w", [shape["at"], -1])
    else:
        domain = shape.get("values", [1, 2])
        v = [h.choice("v%d" % i, domain) for i in range(len(ms))]
        w = [h.choice("w%d" % i, domain) for i in range(len(ms))]
    a = immutablerangemap([(r, x) for (r, _), x in zip(ms, v)])
    items = [(build(k, m.lo.v, m.hi.v), x) for k, (_, m), x in zip(shape["kinds"], ms, w)]
    b = immutablerangemap([items[i] for i in shape["perm"]])
    want = v == w
    h.check((a == b) == want, "map equality")
    h.check((b == a) == want, "map equality not symmetric")
    h.check((a != b) == (not want), "map inequality")
    if want:
        ha, e = h.attempt(hash, a)
        h.check(e is None, "hash raises", repr(e))
        h.check(ha == hash(b), "equal maps hash differently")
        h.check(hash(a) == ha, "hash not stable")
        h.cover("equal")
    else:
        h.cover("unequal")


def c08_neq(h, shape):
    from vistautils.range import immutablerangemap

    ms, os_ = two_sets(h, shape)
    a = immutablerangemap([(r, 1) for r, _ in ms])
    b = immutablerangemap([(r, 1) for r, _ in os_])
    want = (
        And(*[m.eq(o) for (_, m), (_, o) in zip(ms, os_)]) if len(ms) == len(os_) else False
    )
    h.check(Iff(a == b, want), "map equality by keys")
    h.check(not (a == 3), "equal to a non-map")
    h.cover("compared")


def c08_serial(h, shape):
    from vistautils.range import immutablerangemap

    ms = mk_members(h, shape["kinds"], fixed=shape.get("fixed"))
    if shape.get("fixed"):
        ms = [(build(k, 5 * i, 5 * i + 2), spec(k, 5 * i, 5 * i + 2))
              for i, k in enumerate(shape["kinds"])]
    elif h.symbolic:
        vals = [(conc3(m.lo.v), conc3(m.hi.v)) for _, m in ms]
        ms = [(build(k, a, b), spec(k, a, b)) for k, (a, b) in zip(shape["kinds"], vals)]
    # any value, null and falsy ones included
    vals = ([None, "", 0] + list(range(3, len(ms))))[: len(ms)]
    if shape.get("fixed"):
        vals[len(ms) // 2] = None
    a = immutablerangemap([(r, v) for (r, _), v in zip(ms, vals)])
    h.check(len(a.as_dict()) == len(ms), "size")
    f = {
        "copy": copy.copy,
        "deepcopy": copy.deepcopy,
        "pickle": lambda r: pickle.loads(pickle.dumps(r, h.choice("protocol", PROTOCOLS))),
    }[shape["how"]]
    c = f(a)
    h.check(c == a and a == c, "copy compares unequal")
    x = conc9(h.int("x", -1, 8))
    h.check(c[x] == a[x], "copy looks up differently")
    h.check((x in c) == (x in a), "copy contains differently")
    h.check(len(c.as_dict()) == len(ms), "copy size")
    h.check(list(c.as_dict().values()) == vals, "copied values")
    h.cover("serial")


# ------------------------------------------------------------------ shapes
def sh_c01(tier):
    return [{"kind": k} for k in KINDS]


def sh_c01c(tier):
    return sh_c01(tier) + [{"kind": k, "mixed": m} for k in KINDS for m in (1, 2, 3)]


def sh_c02(tier):
    return [
        {"ka": a, "kb": b, "op": op}
        for op in ("encloses", "connected", "intersection", "span")
        for a in KINDS
        for b in KINDS
    ]


def sh_c02s(tier):
    out = [{"kinds": []}] + [{"kinds": [a]} for a in KINDS]
    out += [{"kinds": [a, b]} for a in KINDS for b in KINDS]
    n = 0
    for ks in itertools.combinations_with_replacement(KINDS, 3):
        n += 1
        out.append({"kinds": list(ks), "_opt": 1} if n % 3 else {"kinds": list(ks)})
    if tier == "thorough":
        out += [{"kinds": list(ks), "_opt": 2} for ks in itertools.product(("cc", "oo", "uo", "cu"), repeat=4)]
    return out


def sh_pairs(tier):
    return [{"ka": a, "kb": b} for a in KINDS for b in KINDS]


def sh_c03(tier):
    return sh_pairs(tier) + [{"ka": a, "kb": b, "tagged": 1} for a in KINDS for b in KINDS
                             if a == b or tier != "quick" or (a + b).count("u") == 0]


def sh_c03p(tier):
    return [{"ka": a} for a in KINDS]


NEWQ = ("cc", "co", "oc", "oo", "uc", "uo", "cu", "ou", "uu")


def thin(seq, step, off=0):
    return [x for i, x in enumerate(seq) if i % step == off]


def wide(n, first="u", last="u"):
    """The kinds of a large set of ranges."""
    ks = [("cc", "oo", "co", "oc")[(i * i + i // 3) % 4] for i in range(n)]
    return [first + "c"] + ks[1:-1] + ["o" + last]


def sh_c04(tier):
    out = [{"kinds": wide(n, a, b), "fixed": 1, "new": k}
           for n, ks in ((5, ("cc", "oo")), (6, ("cc",)))
           for k in ks for a, b in (("u", "o"), ("o", "u"))]
    out += [{"kinds": wide(n, "o", "c"), "fixed": 1, "new": k, "near": ij}
            for k, n, ij in (("oc", 20, [2, 17]), ("co", 20, [8, 9]), ("co", 34, [32, 32]))]
    if tier != "quick":
        out += [{"kinds": wide(n), "fixed": 1, "new": k} for n in (10, 14) for k in NEWQ]
    for k in (0, 1, 2):
        for ks in set_kinds(k):
            for n in NEWQ:
                out.append({"kinds": list(ks), "new": n})
    i = 0
    for ks in set_kinds(3):
        for n in NEWQ:
            i += 1
            if tier == "thorough" or i % 7 == 0:
                out.append({"kinds": list(ks), "new": n, "_opt": 1 + i % 7, "_samples": 1})
    if tier == "thorough":
        for ks in itertools.product(("cc", "oo"), repeat=4):
            for n in NEWQ:
                out.append({"kinds": list(ks), "new": n, "_opt": 9, "_samples": 1})
        for ks in itertools.product(("co",), repeat=5):
            for n in NEWQ:
                out.append({"kinds": list(ks), "new": n, "_opt": 10, "_samples": 1})
    return out


def sh_c04b(tier):
    n = 70 if tier == "quick" else 140
    few = 3 if tier == "quick" else 5
    out = [{"kinds": wide(m, "o", "u"), "new": new, "fixed": 1, "how": how,
            "_split": 5 if new else 0}
           for how in ("list", "rangeset", "builder")
           for m, new in ((n, []), (few if how == "rangeset" else 5, ["co"]))]
    for how in ("list", "iterator", "rangeset", "builder", "clear"):
        for ks in itertools.product(("cc", "oo", "co", "uo"), repeat=2):
            out.append({"kinds": list(ks), "how": how})
        for ks in itertools.product(("co", "oc"), repeat=3):
            out.append({"kinds": list(ks), "how": how, "_opt": 1})
    return out


def sh_c05p(tier):
    out = [{"kinds": wide(n, a, "u"), "fixed": 1, "imm": False, "q": q}
           for n, a in ((9, "o"), (40, "u") if tier == "quick" else (150, "u"))
           for q in ("contains", "rightmost", "leftmost")]
    n = 0
    for k in (0, 1, 2, 3):
        for ks in set_kinds(k):
            for q in ("contains", "rightmost", "leftmost"):
                n += 1
                s = {"kinds": list(ks), "q": q, "imm": bool(n % 2)}
                if k == 3:
                    s["_opt"] = 1 + n % 5
                    s["_samples"] = 1
                out.append(s)
    if tier == "thorough":
        for ks in itertools.product(("cc", "oo", "co"), repeat=4):
            for q in ("contains", "rightmost", "leftmost"):
                out.append({"kinds": list(ks), "q": q, "imm": False, "_opt": 8, "_samples": 1})
    return out


def sh_c05r(tier):
    n = 7 if tier == "quick" else 12
    out = [{"kinds": wide(n, a, "c"), "fixed": 1, "imm": False, "q": op, "qk": qk}
           for a, qk in (("u", "oo"), ("o", "cc"), ("u", "cu"))
           for op in ("encloses", "intersects", "overlapping", "enclosed_by")]
    # only one end of the asked range varies
    n = 40 if tier == "quick" else 150
    out += [{"kinds": wide(n, a, "c"), "fixed": 1, "imm": False, "q": op, "qk": qk}
           for a, qk in (("u", "uc"), ("o", "ou"))
           for op in ("encloses", "intersects", "overlapping", "enclosed_by")]
    n = 0
    for k in (0, 1, 2):
        for ks in set_kinds(k):
            for op in ("encloses", "intersects", "overlapping", "enclosed_by"):
                for qk in NEWQ:
                    n += 1
                    s = {"kinds": list(ks), "q": op, "qk": qk, "imm": bool(n % 2)}
                    if k == 2 and any("u" in x for x in ks) and n % 2:
                        s["_opt"] = 1
                    out.append(s)
    for ks in itertools.product(("cc", "oo", "co"), repeat=3):
        for op in ("encloses", "intersects", "overlapping", "enclosed_by"):
            for qk in NEWQ:
                n += 1
                if tier == "thorough" or n % 4 == 0:
                    out.append(
                        {"kinds": list(ks), "q": op, "qk": qk, "imm": False, "_opt": 2 + n % 4,
                         "_samples": 1}
                    )
    if tier == "thorough":
        for ks in itertools.product(("cc", "oo"), repeat=4):
            for op in ("encloses", "intersects", "overlapping", "enclosed_by"):
                for qk in NEWQ:
                    out.append({"kinds": list(ks), "q": op, "qk": qk, "imm": False, "_opt": 9,
                                "_samples": 1})
    return out


def sh_c05h(tier):
    out = []
    n = 0
    for ks in [(), ("oo",), ("uo",), ("co", "oc")]:
        for steps in (["add"], ["clear", "add"], ["clear", "back"], ["self", "add"]):
            for new, qk in (("co", "oo"), ("oc", "uc"), ("ou", "cc")):
                for q in ("contains", "nearest", "encloses", "overlaps", "whole"):
                    n += 1
                    if tier == "thorough" or n % 4 == 0:
                        out.append({"kinds": list(ks), "steps": steps, "new": new, "qk": qk,
                                    "ask": q, "_samples": 1})
    return out


def sh_c05a(tier):
    n = 75 if tier == "quick" else 150
    out = [{"kinds": wide(n), "fixed": 1, "at": i} for i in (0, 3, n // 2, n - 6, n - 1)]
    for a in [(), ("cc",), ("oo",), ("uo",), ("cc", "co"), ("oo", "oc"), ("uc", "ou")]:
        for b in [(), ("cc",), ("oo",), ("cc", "oc"), ("oo", "co")]:
            out.append({"kinds": list(a), "other": list(b)})
    return out


def sh_c06o(tier):
    n = 70 if tier == "quick" else 140
    out = [{"kinds": wide(n, "u", "c"), "fixed": 1, "new": [], "perm": p}
           for p in (list(range(n))[::-1], [(9 * i + 4) % n for i in range(n)])]
    n = 5 if tier == "quick" else 9
    out += [{"kinds": wide(n, "o", "u"), "fixed": 1, "new": [k], "perm": [n] + list(range(n))}
            for k in ("oo", "cc")]
    for ks in itertools.product(("cc", "co", "oc", "oo", "uo", "cu"), repeat=2):
        out.append({"kinds": list(ks), "perm": [1, 0]})
    n = 0
    for ks in itertools.product(("cc", "oo", "co", "oc"), repeat=3):
        for p in ([0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]):
            n += 1
            if tier == "thorough" or n % 8 == 0:
                out.append({"kinds": list(ks), "perm": p, "_opt": 1 + n % 8, "_samples": 1})
    if tier == "thorough":
        for p in itertools.permutations(range(4)):
            out.append({"kinds": ["co"] * 4, "perm": list(p), "_opt": 10, "_samples": 1})
    return out


def sh_c06n(tier):
    n = 75 if tier == "quick" else 150
    out = [{"kinds": wide(n), "fixed": 1, "at": i} for i in (0, 3, n // 2, n - 6, n - 1)]
    sets = [(), ("cc",), ("co",), ("oo",), ("uo",), ("cu",), ("uu",), ("cc", "oc"), ("co", "co"), ("uc", "ou")]
    for a in sets:
        for b in sets:
            out.append({"kinds": list(a), "other": list(b)})
    return out


def sh_c06s(tier):
    n = 70 if tier == "quick" else 140
    out = [{"kinds": wide(n, "u", "c"), "fixed": 1, "new": "cu", "how": "clear"}]
    out += [{"kinds": wide(6, "u", "c"), "fixed": 1, "new": "cu", "how": how}
            for how in ("copy", "builder")]
    for how in ("copy", "clear", "builder"):
        for ks in [(), ("cc",), ("oo",), ("co", "co"), ("oc", "oo"), ("uo", "cu")]:
            for n in ("cc", "oo", "uu"):
                out.append({"kinds": list(ks), "new": n, "how": how})
    return out


def sh_c06z(tier):
    out = [{"kinds": wide(150, "u", "c"), "fixed": 1, "how": how, "imm": imm}
           for how in ("copy", "deepcopy", "pickle") for imm in (True, False)]
    for how in ("copy", "deepcopy", "pickle"):
        for imm in (True, False):
            for ks in [(), ("cc",), ("oo",), ("uo",), ("cu",), ("uu",), ("co", "oc")]:
                out.append({"kinds": list(ks), "how": how, "imm": imm})
    return out


def sh_c07(tier):
    n = 30 if tier == "quick" else 100
    out = [{"kinds": wide(n, a, "o"), "fixed": 1, "perm": [7 * i % n for i in range(n)],
            "how": "builder", "q": q} for a in "uo" for q in ("get", "right", "left")]
    out += [{"kinds": wide(6, "c", b), "fixed": 1, "perm": [3, 1, 5, 4, 0, 2], "how": "pairs",
             "q": "enclosed", "qk": "oc"} for b in "uc"]
    n = 0
    for k in (0, 1, 2):
        for ks in set_kinds(k):
            for q in ("get", "right", "left"):
                n += 1
                out.append(
                    {
                        "kinds": list(ks),
                        "perm": list(range(k)) if n % 2 else list(range(k))[::-1],
                        "how": ("pairs", "builder", "iterator")[n % 3],
                        "q": q,
                        "null": n % 2,
                    }
                )
            for qk in ("cc", "oo", "uo", "cu", "uu") if k < 2 else ("cc", "oo"):
                n += 1
                out.append(
                    {
                        "kinds": list(ks),
                        "perm": list(range(k))[::-1],
                        "how": ("pairs", "builder", "iterator")[n % 3],
                        "q": "enclosed",
                        "qk": qk,
                    }
                )
    for ks in itertools.product(("cc", "oo", "co"), repeat=3):
        for q in ("get", "right", "left"):
            n += 1
            out.append({"kinds": list(ks), "perm": [2, 0, 1], "how": "pairs", "q": q,
                        "_opt": 1 + n % 3, "_samples": 1})
    return out


def sh_c08c(tier):
    out = [{"kinds": [], "how": "pairs"}]
    n = 0
    for ks in itertools.product(KINDS, repeat=2):
        n += 1
        out.append({"kinds": list(ks), "how": ("pairs", "builder", "iterator")[n % 3]})
    for k in KINDS:
        out.append({"kinds": [k], "how": "pairs"})
    for ks in itertools.product(("cc", "co", "oo"), repeat=3):
        n += 1
        if tier == "thorough" or n % 4 == 0:
            out.append({"kinds": list(ks), "how": "pairs", "_opt": 1 + n % 4, "_samples": 1})
    return out


def sh_c08e(tier):
    n = 75 if tier == "quick" else 150
    out = [{"kinds": wide(n), "fixed": 1, "at": i, "perm": [7 * j % n for j in range(n)]}
           for i in (0, n // 2, n - 1)]
    for ks in [(), ("cc",), ("oo",), ("uo",)]:
        out.append({"kinds": list(ks), "perm": list(range(len(ks)))})
    for ks in [("cc", "cc"), ("co", "co"), ("oo", "oc"), ("uo", "ou")]:
        out.append({"kinds": list(ks), "perm": [1, 0]})
    for ks in [("cc",), ("co", "co")]:
        out.append({"kinds": list(ks), "perm": list(range(len(ks))), "values": [0, None, ""]})
    out.append({"kinds": ["co", "co", "co"], "perm": [2, 0, 1], "_opt": 1})
    return out


def sh_c08z(tier):
    return [
        {"kinds": wide(150), "fixed": 1, "how": how} for how in ("copy", "deepcopy", "pickle")
    ] + [
        {"kinds": list(ks), "how": how}
        for how in ("copy", "deepcopy", "pickle")
        for ks in [(), ("cc",), ("oo",), ("uo",), ("cu",), ("co", "oc")]
    ]


DOM = (
    "endpoints and probe values are unbounded mathematical integers; the code only compares "
    "endpoints, so the verdict carries over to any total order with the same order pattern"
)

PROPS = {
    "C01": Prop(
        "C01",
        [Harness("construct", c01_construct, sh_c01c), Harness("ordered", c01_ordered, sh_c01)],
        "all nine factory forms; both endpoints and three probe values unbounded, of one or of "
        "different numeric types; endpoints of a type "
        "with no comparisons but < and ==, too",
        "endpoint types whose < and == disagree; NaN",
        [DOM],
        ["rejected", "member", "not member"],
    ),
    "C02": Prop(
        "C02",
        [Harness("pair", c02_pair, sh_c02), Harness("spanning", c02_spanning, sh_c02s)],
        "all 81 pairs of range kinds, unbounded endpoints; create_spanning of up to 3 ranges "
        "(4 in the thorough tier)",
        "longer create_spanning inputs; mixed endpoint types",
        [DOM],
        ["encloses", "connected", "disconnected", "span", "spanning"],
    ),
    "C03": Prop(
        "C03",
        [
            Harness("eq", c03_eq, sh_c03, hash_uf=True),
            Harness("copies", c03_pickle, sh_c03p),
        ],
        "all 81 pairs of kinds, unbounded endpoints, hash of an endpoint an uninterpreted "
        "function; endpoints that are equal without being alike; copies with endpoints in {0,1}",
        "endpoint types whose own == and hash disagree",
        [DOM],
        ["equal", "copied"],
    ),
    "C04": Prop(
        "C04",
        [Harness("add", c04_add, sh_c04), Harness("bulk", c04_bulk, sh_c04b)],
        "one add onto every canonical set of up to 2 members (3 sampled by bound kind in quick, "
        "all in thorough; up to 5 half-open members in thorough), all nine kinds of added range, "
        "unbounded endpoints; bulk addition of up to 3 ranges; onto sets of 5 and 6 fixed members any "
        "range, onto 20 and 34 any range whose ends are next to chosen members; bulk addition of "
        "70 (thorough 140) fixed ranges",
        "other sets with more members; removal (not implemented by the library)",
        [DOM],
        ["bulk", "cleared", "members after: 1", "members after: 2"],
    ),
    "C05": Prop(
        "C05",
        [
            Harness("point", c05_point, sh_c05p),
            Harness("range", c05_range, sh_c05r),
            Harness("all", c05_all, sh_c05a),
            Harness("history", c05_history, sh_c05h),
        ],
        "every bound-kind pattern of up to 2 members (3 where the time budget allows, 4 in "
        "thorough), every kind of query range, unbounded endpoints and probe values; sets of fixed "
        "members: 40 (thorough 150) for points, 7 for ranges, encloses_all of 75 (thorough 150) "
        "one of which is arbitrary; every answer again after an added range, a clear and an addition "
        "of the set to itself",
        "other larger sets",
        [DOM],
        ["contained", "not contained", "none", "some", "encloses_all", "intersects"],
    ),
    "C06": Prop(
        "C06",
        [
            Harness("order", c06_order, sh_c06o),
            Harness("equality", c06_neq, sh_c06n),
            Harness("snapshot", c06_snapshot, sh_c06s),
            Harness("serial", c06_serial, sh_c06z),
        ],
        "insertion orders of 2 ranges (all orders of 3 in thorough), sets of up to 2 members for "
        "equality and snapshots, unbounded endpoints; copies with endpoints in 0..5; 70 fixed ranges "
        "(thorough 140) in three orders and as snapshots, 75 (thorough 150) of which one is "
        "arbitrary for equality, copies of 150",
        "other large sets",
        [DOM, "hash of an endpoint is a fixed constant (a legal hash), so only order and "
         "identity dependence are decided for sets"],
        ["same", "equal", "unequal", "snapshot copy", "snapshot clear", "snapshot builder", "serial"],
    ),
    "C07": Prop(
        "C07",
        [Harness("lookup", c07_lookup, sh_c07)],
        "every bound-kind pattern of up to 2 keys (3 where the time budget allows), unbounded "
        "endpoints and probes, distinct values, three ways of building, unsorted insertion; 30 "
        "(thorough 100) fixed keys inserted out of order",
        "other maps with more keys",
        [DOM],
        ["get", "right", "left", "enclosed", "hit", "miss"],
    ),
    "C08": Prop(
        "C08",
        [
            Harness("construct", c08_construct, sh_c08c),
            Harness("builder", c08_builder, [{"kinds": k} for k in C08B]),
            Harness("eq", c08_eq, sh_c08e),
            Harness("neq", c08_neq, sh_c06n),
            Harness("serial", c08_serial, sh_c08z),
        ],
        "all pairs of key kinds including overlapping, connected, empty and equal keys (triples "
        "in thorough), unbounded endpoints; equality of maps of up to 2 keys; copies with "
        "endpoints in 0..5; builders of two disjoint ranges built three times; equality of maps of 75 (thorough 150) fixed keys one of which, or its "
        "value, is arbitrary, copies of 150 keys",
        "other maps with more keys",
        [DOM, "hash of an endpoint is a fixed constant (a legal hash)"],
        ["accepted", "rejected", "equal", "unequal", "serial", "built again"],
    ),
}
