"""Spans, span indexes and annotated text."""
import re

from sx.core import And, Iff, Implies, Ite, Not, Or, Sum
from sx.run import Harness, Prop

from .ranges import fixed_int


def zmin(a, b):
    return Ite(a <= b, a, b)


def zmax(a, b):
    return Ite(a <= b, b, a)


def mkspan(h, name, lo=None):
    from vistautils.span import Span

    a = h.int(name + ".s", lo)
    b = h.int(name + ".e")
    h.assume(a < b)
    return Span(a, b), a, b


def is_span(v, a, b):
    from vistautils.span import Span

    if not isinstance(v, Span):
        return False
    return And(v.start == a, v.end == b)


# ------------------------------------------------------------------ C09
def c09_construct(h, shape):
    from vistautils.span import Span

    a, b = h.int("a"), h.int("b")
    mk = Span if shape["how"] == "ctor" else Span.from_inclusive_to_exclusive
    s, err = h.attempt(mk, a, b)
    if err is not None:
        h.check(isinstance(err, ValueError), "wrong error", type(err).__name__)
        h.check(a >= b, "valid span rejected")
        h.cover("rejected")
        return
    h.check(a < b, "empty or inverted span accepted")
    h.check(And(s.start == a, s.end == b), "endpoints")
    h.check(Span.__len__(s) == b - a, "length")
    x = h.int("x")
    inside = And(a <= x, x < b)
    h.check(Iff(s.contains_offset(x), inside), "contains_offset")
    h.check(Iff(s.as_range().__contains__(x), inside), "as_range holds other offsets")
    d = h.int("d")
    h.check(is_span(s.shift(d), a + d, b + d), "shift")
    h.check(is_span(s, a, b), "shift changed the span")
    h.cover("accepted")


def c09_pair(h, shape):
    from vistautils.span import Span

    s, a, b = mkspan(h, "s")
    t, c, d = mkspan(h, "t")
    x = h.int("x")
    share = And(a < d, c < b)
    op = shape["op"]
    if op == "rel":
        h.check(Iff(s.contains_span(t), And(a <= c, d <= b)), "contains_span")
        h.check(Iff(s.precedes(t), b <= c), "precedes")
        h.check(Iff(s.follows(t), a >= d), "follows")
        h.check(Iff(s.overlaps(t), share), "overlaps")
        h.check(Iff(t in s, And(a <= c, d <= b)), "in")
        h.check(Implies(And(s.contains_offset(x), t.contains_offset(x)), s.overlaps(t)),
                "shared offset but no overlap")
        h.check(Iff(s == t, And(a == c, b == d)), "equality")
        if s == t:
            h.check(hash(s) == hash(t), "equal spans hash differently")
    elif op == "intersection":
        r = s.intersection(t)
        if r is None:
            h.check(Not(share), "overlapping spans without an intersection")
            h.cover("disjoint")
        else:
            h.check(share, "intersection of disjoint spans")
            h.check(is_span(r, zmax(a, c), zmin(b, d)), "intersection")
            h.check(Iff(r.contains_offset(x), And(s.contains_offset(x), t.contains_offset(x))),
                    "intersection holds other offsets")
            h.cover("intersect")
    elif op == "clip":
        r = s.clip_to(t)
        if r is None:
            h.check(Not(share), "overlapping span clipped away")
            h.cover("clipped away")
        else:
            h.check(share, "disjoint span survives clipping")
            h.check(is_span(r, zmax(a, c), zmin(b, d)), "clip_to")
            h.cover("clipped")
    elif op == "order":
        from vistautils.span import Span

        ks, kt = Span.earliest_then_longest_first_key(s), Span.earliest_then_longest_first_key(t)
        before = Or(a < c, And(a == c, b > d))
        h.check(Iff(ks < kt, before), "earliest-then-longest order")


def c09_enclosing(h, shape):
    from vistautils.span import Span

    n = shape["n"]
    sp = [mkspan(h, "s%d" % i) for i in range(n)]
    spans = [s for s, _, _ in sp]
    arg = {"list": lambda: spans, "gen": lambda: (s for s in spans), "iter": lambda: iter(spans)}[
        shape["arg"]
    ]()
    r, err = h.attempt(Span.minimal_enclosing_span, arg)
    if n == 0:
        h.check(isinstance(err, ValueError), "no spans: expected a ValueError")
        h.cover("empty")
        return
    h.check(err is None, "minimal_enclosing_span raised", repr(err))
    h.check(isinstance(r, Span), "not a span")
    for _, a, b in sp:
        h.check(And(r.start <= a, b <= r.end), "does not enclose")
    h.check(Or(*[r.start == a for _, a, _ in sp]), "not minimal (start)")
    h.check(Or(*[r.end == b for _, _, b in sp]), "not minimal (end)")
    h.cover("enclosing")


def c09_hasspan(h, shape):
    from vistautils.span import HasSpan, Span

    class Item(HasSpan):
        __slots__ = ("span",)

        def __init__(self, span):
            self.span = span

    s, a, b = mkspan(h, "s")
    t, c, d = mkspan(h, "t")
    x = h.int("x")
    it = Item(s)
    h.check(And(it.start == a, it.end == b), "item start/end")
    h.check(Iff(it.contains_offset(x), And(a <= x, x < b)), "item contains_offset")
    h.check(Iff(it.contains_span(t), And(a <= c, d <= b)), "item contains_span")


def fixed_spans(h, n, layout):
    """n spans with known bounds that look like arbitrary ones, in an order that is neither that of
    their starts nor of their ends: for large collections."""
    from vistautils.span import Span

    out = []
    for i in range(n):
        j = (i * 7 + 3) % n if n % 7 else (i * 5 + 3) % n
        if layout == "disjoint":  # some touch
            a, b = 10 * j, 10 * j + (10 if j % 3 == 0 else 4)
        elif layout == "nested":
            a, b = 2 * j, 4 * n - j
        elif layout == "stairs":  # each overlaps several successors
            a, b = 3 * j, 3 * j + 10
        else:  # mixed: nested, equal, touching, far apart
            a, b = [(0, 100), (10, 20), (20, 30), (10, 20), (15, 60), (200, 201), (30, 31), (-5, 3),
                    (59, 61), (0, 1), (99, 100), (-50, 300), (60, 99), (12, 14)][j % 14]
            a, b = a + 400 * (j // 14), b + 400 * (j // 14)
        a, b = fixed_int(h, a), fixed_int(h, b)
        out.append((Span(a, b), a, b))
    return out


def c09_many(h, shape):
    """Many spans with known bounds and one arbitrary one anywhere among them."""
    from vistautils.span import Span

    sp = fixed_spans(h, shape["n"], shape["layout"])
    sp.insert(shape["at"], mkspan(h, "s"))
    spans = [s for s, _, _ in sp]
    arg = {"list": lambda: spans, "gen": lambda: (s for s in spans), "set": lambda: set(spans)}[
        shape["arg"]
    ]()
    r = Span.minimal_enclosing_span(arg)
    lo, hi = sp[0][1], sp[0][2]
    for _, a, b in sp:
        lo, hi = zmin(lo, a), zmax(hi, b)
    h.check(is_span(r, lo, hi), "minimal_enclosing_span of many")
    h.cover("many")


# ------------------------------------------------------------------ C10
class _Item:
    def __init__(self, span, i):
        self.span = span
        self.i = i


class _EqItem(_Item):
    """Items that compare equal although their spans differ (e.g. two mentions of one thing)."""

    def __eq__(self, o):
        return isinstance(o, _EqItem)

    def __hash__(self):
        return 7


class _FalsyItem(_Item):
    """Items which count as false, like empty collections with a span."""

    def __bool__(self):
        return False


def same_items(h, got, items, cond, label):
    got = list(got)
    for it, c in zip(items, cond):
        n = sum(1 for g in got if g is it)
        h.check(n <= 1, label + ": duplicate")
        h.check(Iff(n == 1, c), label)
    h.check(all(any(g is it for it in items) for g in got), label + ": foreign item")


def c10_overlapping(h, shape):
    from vistautils.span import HasSpanIndex

    n = shape["n"]
    sp = (fixed_spans(h, n, shape["layout"]) if "layout" in shape
          else [mkspan(h, "s%d" % i) for i in range(n)])
    cls = [_Item, _FalsyItem][h.choose("falsy", 2)]
    items = [cls(s, i) for i, (s, _, _) in enumerate(sp)]
    idx = HasSpanIndex.index(items if shape["arg"] == "list" else (i for i in items))
    q, c, d = mkspan(h, "q")
    op = shape["op"]
    if op == "exact":
        same_items(h, idx.get_exactly_matching(q), items,
                   [And(a == c, b == d) for _, a, b in sp], "get_exactly_matching")
    elif op == "overlap":
        same_items(h, idx.get_overlapping(q), items,
                   [And(a < d, c < b) for _, a, b in sp], "get_overlapping")
    elif op == "contained":
        same_items(h, idx.get_contained(q), items,
                   [And(c <= a, b <= d) for _, a, b in sp], "get_contained")
    else:
        same_items(h, idx.get_containing(q), items,
                   [And(a <= c, d <= b) for _, a, b in sp], "get_containing")
    h.cover(op)


def one_or_none(h, got, items, cond, label):
    if got is None:
        h.check(Not(Or(*cond)), label + ": item missed")
        h.cover(label + " none")
        return
    ix = [i for i, it in enumerate(items) if it is got]
    h.check(len(ix) == 1, label + ": foreign item")
    h.check(cond[ix[0]], label + ": wrong item")
    h.cover(label + " found")


def c10_disjoint(h, shape):
    from vistautils.span import HasSpanIndex

    n = shape["n"]
    if "layout" in shape:  # many known spans; one more may be arbitrary
        sp = fixed_spans(h, n, shape["layout"])
        if shape.get("free"):
            sp.insert(n // 2, mkspan(h, "f"))
            n += 1
    else:
        sp = [mkspan(h, "s%d" % i) for i in range(n)]
    cls = _EqItem if shape.get("eq") else [_Item, _FalsyItem][h.choose("falsy", 2)]
    items = [cls(s, i) for i, (s, _, _) in enumerate(sp)]
    idx, err = h.attempt(
        HasSpanIndex.index_disjoint, items if shape["arg"] == "list" else (i for i in items)
    )
    clash = Or(*[
        And(sp[i][1] < sp[j][2], sp[j][1] < sp[i][2]) for i in range(n) for j in range(i)
    ])
    if err is not None:
        h.check(isinstance(err, ValueError), "wrong error", repr(err))
        h.check(clash, "disjoint spans rejected")
        h.cover("rejected")
        return
    h.check(Not(clash), "overlapping spans accepted")
    q, c, d = mkspan(h, "q")
    op = shape["op"]
    if op == "exact":
        one_or_none(h, idx.get_exactly_matching(q), items,
                    [And(a == c, b == d) for _, a, b in sp], "get_exactly_matching")
    elif op == "containing":
        one_or_none(h, idx.get_containing(q), items,
                    [And(a <= c, d <= b) for _, a, b in sp], "get_containing")
    elif op == "overlap":
        same_items(h, idx.get_overlapping(q), items,
                   [And(a < d, c < b) for _, a, b in sp], "get_overlapping")
    else:
        same_items(h, idx.get_contained(q), items,
                   [And(c <= a, b <= d) for _, a, b in sp], "get_contained")
    h.cover(op)


# ------------------------------------------------------------------ C11
def parts_of(h, out):
    """The output as ("text", lo, hi) / ("tag", string) pieces; None when it has other matter."""
    pieces = []
    if h.symbolic:
        from sx.strs import Rope

        raw = out.parts if type(out) is Rope else [str(out)]
        for p in raw:
            if isinstance(p, tuple):
                pieces.append(("text", p[1], p[2]))
            else:
                pieces.append(str.__str__(p))
    else:
        i = 0
        for m in re.finditer("([\u4e00-\u9fff]+)|([^\u4e00-\u9fff]+)", out):
            if m.group(1):
                # split at discontinuities
                cs = [ord(c) - 0x4E00 for c in m.group(1)]
                st = 0
                for k in range(1, len(cs) + 1):
                    if k == len(cs) or cs[k] != cs[k - 1] + 1:
                        pieces.append(("text", cs[st], cs[k - 1] + 1))
                        st = k
            else:
                pieces.append(m.group(2))
    res = []
    for p in pieces:
        if isinstance(p, tuple):
            res.append(p)
            continue
        pos = 0
        for m in re.finditer(r"<[^<>]*>", p):
            if m.start() != pos:
                return None
            pos = m.end()
            res.append(("tag", m.group(0)))
        if pos != len(p):
            return None
    return res


# nested, crossing, equal, touching, reaching over either end
KNOWN = [(3, 12), (0, 30), (8, 20), (3, 12), (20, 30), (28, 40), (12, 20), (4, 5)]


def c11_annotate(h, shape):
    from vistautils.annotated_text_utils import AnnotatedSpan, HTMLStyleAnnotationFormatter
    from vistautils.span import Span

    n = shape["n"]
    text = h.text("len", 1)
    ln = h.text_len(text)
    if shape["offsets"]:
        base = h.int("base", 0)
        off = Span(base, base + ln)
    else:
        base = 0
        off = None
    sp = [mkspan(h, "a%d" % i) for i in range(n)]
    if shape.get("inside"):
        for _, a, b in sp:
            h.assume(And(a >= base, b <= base + ln))
    if shape.get("known"):  # known annotations of a text of known length around the arbitrary ones
        h.assume(And(ln == 30, base == (100 if shape["offsets"] else 0)))
        for a, b in KNOWN[:shape["known"]]:
            a, b = (fixed_int(h, x + (100 if shape["offsets"] else 0)) for x in (a, b))
            sp.insert(len(sp) // 2, (Span(a, b), a, b))
        n = len(sp)
    attrs = shape.get("attrs", 0)
    anns, starts, ends = [], [], []
    for i, (s, _, _) in enumerate(sp):
        lab = "xyzbcdefgh"[i]
        pairs = [[], [("k", "v%d" % i)], [("q", ""), ("b", "2")]][(i + attrs) % 3 if attrs else 0]
        anns.append(AnnotatedSpan(lab, s, pairs))
        starts.append("<%s%s>" % (lab, "".join(' %s="%s"' % p for p in sorted(pairs))))
        ends.append("</%s>" % lab)
    out, err = h.attempt(
        lambda: HTMLStyleAnnotationFormatter().annotated_text(text, anns, text_offsets=off)
    )
    h.check(err is None, "formatting raised", repr(err))
    ps = parts_of(h, out)
    h.check(ps is not None, "output holds something other than the text and tags", repr(out))
    pos = 0
    tags = []
    for p in ps:
        if p[0] == "text":
            h.check(Or(p[1] == p[2], p[1] == pos), "text lost, repeated or reordered")
            pos = Ite(p[1] == p[2], pos, p[2])
        else:
            tags.append((p[1], pos))
    h.check(pos == ln, "text truncated")
    where = {}
    for t, _ in tags:
        h.check(t in starts or t in ends, "unexpected tag", t)
    for i, (_, a, b) in enumerate(sp):
        kept = And(a < base + ln, base < b)
        si = [k for k, (t, _) in enumerate(tags) if t == starts[i]]
        ei = [k for k, (t, _) in enumerate(tags) if t == ends[i]]
        h.check(len(si) <= 1 and len(ei) == len(si), "tag repeated or unbalanced")
        h.check(Iff(len(si) == 1, kept), "annotation dropped or kept wrongly")
        if not si:
            h.cover("dropped")
            continue
        ca, cb = zmax(a - base, 0), zmin(b - base, ln)
        h.check(si[0] < ei[0], "end tag before start tag")
        h.check(tags[si[0]][1] == ca, "start tag at the wrong offset")
        h.check(tags[ei[0]][1] == cb, "end tag at the wrong offset")
        where[i] = (si[0], ei[0], ca, cb)
        h.cover("kept")
    for i, (si, ei, a, b) in where.items():
        for j, (sj, ej, c, d) in where.items():
            if si < sj < ei < ej:
                h.check(And(a < c, c < b, b < d), "tags cross although the spans do not")
                h.cover("crossing")


CHARS = "aZ&<>\"'\\{}%$ \n\t\réE\u0301\u2028\x00"


def c11_chars(h, shape):
    """Characters that mean something to markup, formats or escapes are copied as they are."""
    from vistautils.annotated_text_utils import AnnotatedSpan, HTMLStyleAnnotationFormatter
    from vistautils.span import Span

    n = shape["len"]
    text = h.str("t", n, CHARS, min_len=n)
    a = h.choice("a", range(0, n))
    b = h.choice("b", range(1, n + 1))
    h.assume(a < b)
    value = h.str("v", 1, "aé {}%\\")
    out, err = h.attempt(
        lambda: HTMLStyleAnnotationFormatter().annotated_text(
            text,
            [AnnotatedSpan("x", Span(a, b), [("k", value)] if shape["attr"] else [])],
            text_offsets=Span(0, n) if shape["offsets"] else None,
        )
    )
    h.check(err is None, "formatting raised", repr(err))
    start = h.s('<x k="') + value + '">' if shape["attr"] else h.s("<x>")
    h.check(out == text[:a] + start + text[a:b] + "</x>" + text[b:], "characters changed", repr(out))
    h.cover("characters")


def c11_equal(h, shape):
    """Annotations that cannot be told apart: one pair of tags for each."""
    from vistautils.annotated_text_utils import AnnotatedSpan, HTMLStyleAnnotationFormatter
    from vistautils.span import Span

    n = shape["n"]
    text = h.text("len", 1)
    ln = h.text_len(text)
    off = None
    base = 0
    if shape["offsets"]:
        base = h.int("base", 0)
        off = Span(base, base + ln)
    s, a, b = mkspan(h, "a")
    sp = [(s, a, b)]
    if n > 2:
        sp.append(mkspan(h, "b"))
    anns = [AnnotatedSpan("x", t, []) for t, _, _ in sp]
    # the same object again, or an equal one
    again = shape["again"]
    anns.append(anns[0] if again == "same" else AnnotatedSpan("x", Span(a, b), []))
    sp.append((s, a, b))
    out, err = h.attempt(
        lambda: HTMLStyleAnnotationFormatter().annotated_text(text, anns, text_offsets=off)
    )
    h.check(err is None, "formatting raised", repr(err))
    ps = parts_of(h, out)
    h.check(ps is not None, "output holds something other than the text and tags", repr(out))
    pos = 0
    tags = []
    depth = 0
    for p in ps:
        if p[0] == "text":
            h.check(Or(p[1] == p[2], p[1] == pos), "text lost, repeated or reordered")
            pos = Ite(p[1] == p[2], pos, p[2])
        else:
            tags.append((p[1], pos))
            h.check(p[1] in ("<x>", "</x>"), "unexpected tag", p[1])
            depth += 1 if p[1] == "<x>" else -1
            h.check(depth >= 0, "end tag before start tag")
    h.check(depth == 0, "tags unbalanced")
    h.check(pos == ln, "text truncated")
    kept = [And(c < base + ln, base < d) for _, c, d in sp]

    def total(conds):
        return sum([Ite(c, 1, 0) for c in conds], 0)

    h.check(len(tags) == 2 * total(kept), "one pair of tags for each annotation kept")
    for _, c, d in sp:
        c, d = zmax(c - base, 0), zmin(d - base, ln)
        h.check(total([p == c for t, p in tags if t == "<x>"])
                == total([And(k, zmax(e - base, 0) == c) for k, (_, e, _) in zip(kept, sp)]),
                "start tags of equal annotations")
        h.check(total([p == d for t, p in tags if t == "</x>"])
                == total([And(k, zmin(e - base, ln) == d) for k, (_, _, e) in zip(kept, sp)]),
                "end tags of equal annotations")
    h.cover("equal" if tags else "dropped")


def c11_offsets(h, shape):
    """A window whose length is not the text's is refused."""
    from vistautils.annotated_text_utils import HTMLStyleAnnotationFormatter

    text = h.text("len", 1)
    ln = h.text_len(text)
    s, a, b = mkspan(h, "o", 0)
    out, err = h.attempt(
        lambda: HTMLStyleAnnotationFormatter().annotated_text(text, [], text_offsets=s)
    )
    if err is not None:
        h.check(isinstance(err, ValueError), "wrong error", repr(err))
        h.check(b - a != ln, "matching window rejected")
        h.cover("rejected")
    else:
        h.check(b - a == ln, "mismatched window accepted")
        h.cover("accepted")


def _c10_shapes(ops, eqs):
    def shapes(tier):
        out = []
        top = 3 if tier == "quick" else 4
        for n in range(0, top + 1):
            for op in ops:
                for eq in eqs if n > 1 and op in ("exact", "containing") else (0,):
                    for arg in ("list", "gen") if n in (0, 2) else ("list",):
                        d = {"n": n, "op": op, "arg": arg}
                        if eq:
                            d["eq"] = 1
                        if n >= 3:
                            d["_split"] = 6
                        if n == 4:
                            d["_opt"] = 1
                        out.append(d)
        disjoint = 1 in eqs
        sizes = (12,) if tier == "quick" else (12, 33)
        for n in sizes:
            for op in ops:
                for lay in ("disjoint",) if disjoint else ("mixed", "nested", "stairs"):
                    out.append({"n": n, "op": op, "arg": "list", "layout": lay})
                if disjoint:
                    d = {"n": n // 2 - 1, "op": op, "arg": "list", "layout": "disjoint",
                         "free": 1, "_split": 5}
                    out.append(dict(d, _opt=2) if n > 12 else d)
        return out

    return shapes


def _c11_shapes(tier):
    out = []
    for offs in (0, 1):
        out += [{"n": n, "offsets": offs, "attrs": 0} for n in (0, 1, 2)]
        out.append({"n": 2, "offsets": offs, "attrs": 1})
        out += [{"n": 1, "offsets": offs, "attrs": 1, "known": k} for k in (3, 5, 8)]
        out.append({"n": 0, "offsets": offs, "attrs": 0, "known": 7})
        if tier != "quick":
            out += [
                {"n": 3, "offsets": offs, "attrs": 0, "_split": 8, "_opt": 1 + offs},
                {"n": 2, "offsets": offs, "attrs": 0, "known": 3, "_split": 8, "_opt": 3},
                {"n": 3, "offsets": offs, "attrs": 0, "inside": 1, "_split": 8}]
    out.append({"n": 3, "offsets": 0, "attrs": 0, "inside": 1, "_split": 8})
    return out


PROPS = {
    "C09": Prop(
        "C09",
        [
            Harness("construct", c09_construct, [{"how": "ctor"}, {"how": "factory"}]),
            Harness("pair", c09_pair, [{"op": o} for o in ("rel", "intersection", "clip", "order")]),
            Harness(
                "enclosing", c09_enclosing,
                lambda tier: [{"n": n, "arg": a} for n in range(0, 5 if tier == "quick" else 7)
                              for a in ("list", "gen", "iter")],
            ),
            Harness("many", c09_many,
                    lambda tier: [{"n": n, "layout": lay, "at": at, "arg": arg}
                                  for n, at in (((8, 3), (17, 17), (40, 0)) if tier == "quick" else
                                                ((8, 0), (8, 8), (17, 17), (40, 0), (130, 60)))
                                  for lay, arg in (("stairs", "list"), ("mixed", "gen"),
                                                   ("nested", "set"))]),
            Harness("hasspan", c09_hasspan, [{}]),
        ],
        bounds="unbounded integer offsets; minimal_enclosing_span of 0..4 (thorough 0..6) spans, and "
        "of 8, 17 and 40 (thorough 130) known spans with an arbitrary one",
        outside="more spans in one enclosing query; non-integer offsets (rejected by type)",
        covers=["accepted", "rejected", "intersect", "disjoint", "clipped", "clipped away",
                "enclosing", "empty"],
    ),
    "C10": Prop(
        "C10",
        [
            Harness("overlapping", c10_overlapping,
                    _c10_shapes(("exact", "overlap", "contained", "containing"), (0,))),
            Harness("disjoint", c10_disjoint,
                    _c10_shapes(("exact", "overlap", "contained", "containing"), (0, 1))),
        ],
        bounds="0..3 indexed items (thorough 4) with unbounded integer spans, and 12 (thorough 33) "
        "known ones in four layouts, without and with an arbitrary one, all of them items that count as true or as false; any query span",
        outside="more items in one index; item hash collisions with user-defined equality "
        "in the overlapping index",
        covers=["exact", "overlap", "contained", "containing", "rejected"],
    ),
    "C11": Prop(
        "C11",
        [
            Harness("annotate", c11_annotate, _c11_shapes, fakes=("io",), strings=True),
            Harness("equal", c11_equal,
                    lambda tier: [{"n": n, "offsets": o, "again": a}
                                  for n, o, a in ((2, 0, "same"), (2, 1, "equal"), (3, 1, "same"),
                                                  (3, 0, "equal"))],
                    fakes=("io",), strings=True),
            Harness("chars", c11_chars,
                    lambda tier: [{"len": n, "attr": (n + o) % 2, "offsets": o}
                                  for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 5, 8))
                                  for o in (0, 1)],
                    fakes=("io",), strings=True),
            Harness("offsets", c11_offsets, [{}], fakes=("io",), strings=True),
        ],
        bounds="texts of any length >= 1; 0..2 annotations (thorough 3) at any offsets, also "
        "outside the text, and 3 inside it; one (thorough 2) among up to 8 known ones in a text of "
        "30; equal annotations twice, also beside another; one annotation in any text of 1..3 (thorough "
        "8) characters out of letters, accents, markup, format and escape characters; with and without a window into a larger text",
        outside="empty text; windows with a negative start; several annotations in texts that contain markup",
        assumptions=["text content is opaque where it is of any length: the formatter only slices it",
                     "io.StringIO modelled as an append-only buffer"],
        covers=["kept", "dropped", "crossing", "accepted", "rejected", "equal", "characters"],
    ),
}
