"""Loading parameter files: interpolation, includes, entry points, path lists."""
import os

from sx.core import And, Iff, Implies, Ite, Not, Or, Sum
from sx.run import Harness, Prop

from harness.params import (Conflict, MISSING, Tree, deep_same, dotted, merge, plain_eq,
                            prefixes_ok, resolve)
from harness.small import among

from harness.files import FAKES, Files


def yaml_text(h, mapping):
    if h.symbolic:
        from sx.fakes import YamlText

        return YamlText(mapping)
    import yaml

    return yaml.safe_dump(mapping, sort_keys=False)


class environment:
    """The environment variables seen by the code under test."""

    def __init__(self, h, env):
        self.h, self.env = h, env

    def __enter__(self):
        if self.h.symbolic:
            from sx import symfs

            symfs.ENV = dict(self.env)
        else:
            from unittest import mock

            self.patch = mock.patch.dict(os.environ, self.env, clear=True)
            self.patch.start()

    def __exit__(self, *a):
        if self.h.symbolic:
            from sx import symfs

            symfs.ENV = None
        else:
            self.patch.stop()


# ------------------------------------------------------------------ C19
class T:
    """A string value: pieces ("lit", text) and ("ref", dotted name)."""

    def __init__(self, pieces):
        self.pieces = pieces

    def text(self, h):
        out = h.s("")
        for k, t in self.pieces:
            out = out + (t if k == "lit" else h.s("%") + t + h.s("%"))
        return out


class Bad(Exception):
    pass


def raw(h, t):
    """The uninterpolated mapping."""
    return {k: raw(h, v) if isinstance(v, Tree) else v.text(h) if isinstance(v, T) else v
            for k, v in t.pairs}


def components(h, q):
    comps, cur = [], 0
    for i in range(len(q) + 1):
        if i == len(q) or bool(among(h, q[i], ".")):
            comps.append(q[cur:i])
            cur = i + 1
    return comps


class Spec:
    def __init__(self, h, own, ctx, env):
        self.h, self.own, self.ctx, self.env = h, own, ctx, env
        self.stack = []
        self.context = Tree(ctx.pairs + [(k, v) for k, v in env.items()
                                         if ctx.get(k) is MISSING])

    def value(self, v):
        if not isinstance(v, (Tree, T)):
            return v
        if any(x is v for x in self.stack):
            raise Bad("cycle")
        self.stack.append(v)
        try:
            if isinstance(v, Tree):
                return Tree([(k, self.value(x)) for k, x in v.pairs])
            if len(v.pieces) == 1 and v.pieces[0][0] == "ref":
                return self.target(v.pieces[0][1])
            out = self.h.s("")
            for k, t in v.pieces:
                if k == "ref":
                    t = self.target(t)
                    if not is_text(t):
                        raise Bad("not a string")
                out = out + t
            return out
        finally:
            self.stack.pop()

    def target(self, name):
        return self.value(self.place(name, []))

    def place(self, name, through):
        """What a name stands for: among the own parameters, else in the context."""
        node = self.own_place(name, through)
        if node is not MISSING:
            return node
        node = self.context
        for c in components(self.h, name):
            node = node.get(c) if isinstance(node, Tree) else MISSING
            if node is MISSING:
                raise Bad("unknown name")
        return node

    def own_place(self, name, through):
        node = self.own
        for c in components(self.h, name):
            # a parameter on the way may itself stand for a namespace
            while isinstance(node, T) and len(node.pieces) == 1 and node.pieces[0][0] == "ref":
                if any(x is node for x in through):
                    raise Bad("cycle")
                through = through + [node]
                node = self.place(node.pieces[0][1], through)
            node = node.get(c) if isinstance(node, Tree) else MISSING
            if node is MISSING:
                return MISSING
        return node


def is_text(x):
    return isinstance(x, str) or type(x).__name__ in ("SymStr", "HStr")


def check_load(h, own, ctx, env, form=0):
    from vistautils.parameters import Parameters, YAMLParametersLoader

    spec = Spec(h, own, ctx, env)
    try:
        want = merge(h, ctx, spec.value(own))
    except (Bad, Conflict) as e:
        want = None
        why = "bad: %s" % e
    included = Parameters.from_mapping(ctx.mapping())
    text = yaml_text(h, raw(h, own))
    with environment(h, env):
        r, err = h.attempt(
            lambda: YAMLParametersLoader().load_string(text, included_context=included)
        )
    if want is None:
        h.check(isinstance(err, IOError), "faulty interpolation accepted (%s)" % why,
                repr(err or r.as_nested_dicts()))
        h.cover(why)
    else:
        h.check(err is None, "interpolation failed", repr((err, err.__cause__ if err else None)))
        h.check(plain_eq(r.as_nested_dicts(), want.mapping()), "interpolated parameters",
                "%r / %r" % (r.as_nested_dicts(), want.mapping()))
        prefixes_ok(h, r, (), "interpolated")
        h.cover("interpolated")
    h.check(plain_eq(included.as_nested_dicts(), ctx.mapping()), "context changed")


def template(h, name, targets, npieces, lits):
    n = h.choose(name + ".n", npieces + 1)
    pieces = []
    for i in range(n):
        k = h.choose("%s.p%d" % (name, i), len(targets) + len(lits))
        if k < len(lits):
            pieces.append(("lit", h.s(lits[k])))
        else:
            pieces.append(("ref", h.s(targets[k - len(lits)])))
    return T(pieces)


# names users choose, some the beginnings of others
LONG = {"a": "alpha", "b": "alpha-1", "c": "B_0", "i": "I9", "x": "alpha-10", "y": "y_",
        "n": "al", "d": "0", "e": "E_V", "zz": "alph", "q": "Q", "p": "P-"}


def long_name(dotted_name):
    return ".".join(LONG.get(c, c) for c in dotted_name.split("."))


STRUCTS = {
    # own names (dotted), other targets
    "flat": (["a", "b", "c"], ["i", "x", "y", "e", "zz"]),
    "nested": (["a", "n.b", "n.c"], ["n", "x", "n.d", "n.a", "e"]),
    "below": (["a", "n.b", "c"], ["n", "i", "a.b", "n.b.d", "c.d", "a.x", "m", "a.m.b"]),
    "context": (["a", "b"], ["i", "x", "y", "n", "n.d", "n.i", "e", "zz", "i.q", "x.q"]),
}


def c19_graph(h, shape):
    """References among parameters, the context and the environment."""
    own_names, others = STRUCTS[shape["struct"]]
    nm = long_name if shape.get("long") else (lambda x: x)
    own_names, others = [nm(x) for x in own_names], [nm(x) for x in others]
    targets = own_names + others
    vals = [template(h, n, targets, shape["pieces"], shape["lits"]) for n in own_names]
    if shape["order"]:
        own_names, vals = own_names[::-1], vals[::-1]
    pairs = []
    for n, v in zip(own_names, vals):
        at = pairs
        *ns, last = n.split(".")
        for c in ns:
            hit = [t for k, t in at if k == c]
            if not hit:
                at.append((h.s(c), Tree()))
                hit = [at[-1][1]]
            at = hit[0].pairs
        at.append((h.s(last), v))
    if nm("i") in others and "m" not in others:
        pairs.append((h.s(nm("i")), [h.int("i"), h.s(""), h.bool("i.b"), [h.int("i.l")]][
            h.choose("i.kind", shape.get("ikinds", 2))]))
    own = Tree(pairs)
    ctx = [(h.s(nm("x")), h.s("%" + nm("a") + "%v"))]
    if nm("y") in others:
        ctx.append((h.s(nm("y")), h.int("y")))
    if nm("n.d") in others:
        ctx.append((h.s(nm("n")), Tree([(h.s(nm("d")), h.s("w")), (h.s(nm("i")), h.int("n.i"))])))
    if "m" in others:
        ctx.append((h.s("m"), Tree([(h.s("b"), Tree([(h.s("d"), h.int("m.b.d"))])),
                                    (h.s("d"), h.int("m.d"))])))
        if h.choose("context a", 2):
            ctx.append((h.s("a"), Tree([(h.s("x"), h.int("a.x"))])))
        [t for k, t in pairs if k == "n"][0].pairs.append((h.s("d"), h.int("own n.d")))
        pairs.append((h.s("i"), Tree([(h.s("d"), h.int("own i.d"))])))
    env = {"e": h.s("env%" + nm("b") + "%"), "x": h.s("shadowed"), "p.q": h.s("dotted"),
           # whatever the values are that hide them
           "y": h.s("shadowed"), "i": h.s("shadowed"), "n": h.s("shadowed"),
           # variables are found by their very names
           "ZZ": h.s("upper"), "zz_": h.s("longer"), "Q": h.s("upper")}
    check_load(h, own, Tree(ctx), {h.s(nm(k)): v for k, v in env.items()})


def c19_chain(h, shape):
    """Many parameters referring to each other in a row, written in any of several orders, with
    one more reference between any two of them."""
    n = shape["n"]
    names = ["p%d" % i for i in range(n)]
    if shape["nested"]:
        names = ["s.p%d" % i if i % 3 else "p%d" % i for i in range(n)]
    u, v = h.choose("u", n), h.choose("v", n + 2)
    end = [T([("lit", h.s("end"))]), h.int("end"), T([("ref", h.s("x"))]),
           T([("ref", h.s("nowhere"))])][h.choose("end", 4)]
    vals = [T([("ref", h.s(names[i + 1]))] + ([("lit", h.s("%d " % i))] if i % 4 == 1 and
                                              shape["text"] else [])) for i in range(n - 1)] + [end]
    if v < n:
        vals[u] = T([("ref", h.s(names[v]))])
    elif v == n:
        vals[u] = T([("lit", h.s("cut"))])
    order = list(range(n))
    if shape["order"] == "down":
        order.reverse()
    elif shape["order"] == "mix":
        order = [(i * 5 + 3) % n for i in range(n)] if n % 5 else [(i * 7 + 3) % n for i in range(n)]
    top, sub = [], []
    for i in order:
        at, name = (sub, names[i][2:]) if names[i].startswith("s.") else (top, names[i])
        at.append((h.s(name), vals[i]))
    if sub:
        top.insert(len(top) // 2, (h.s("s"), Tree(sub)))
    check_load(h, Tree(top), Tree([(h.s("x"), h.int("x"))]), {h.s("p0"): h.s("wrong")})


def pieces_of(h, text):
    """Spec of the placeholder syntax: maximal runs of name characters between percent signs."""
    out, lit, i, n = [], 0, 0, len(text)
    while i < n:
        if bool(among(h, text[i], "%")):
            j = i + 1
            while j < n and bool(among(h, text[j], NAMECH)):
                j += 1
            if j > i + 1 and j < n and bool(among(h, text[j], "%")):
                if i > lit:
                    out.append(("lit", text[lit:i]))
                out.append(("ref", text[i + 1:j]))
                i = lit = j + 1
                continue
        i += 1
    if n > lit:
        out.append(("lit", text[lit:]))
    return out


NAMECH = "abn.-_0123456789cdefxyzABC\u00e9"


def c19_text(h, shape):
    """Any text: what counts as a placeholder and what does not."""
    text = h.str("text", shape["n"], shape["alphabet"], shape["n"])
    a = T(pieces_of(h, text))
    val = [h.int("v"), h.str("v", 1, "%a"), Tree([(h.s("a"), h.s("in"))]), 2.5, True, h.real("v"), []][shape["v"]]
    own = Tree([(h.s("z"), a), (h.s("a"), val)])
    ctx = Tree([(h.s("-"), h.s("dash")), (h.s("b"), h.s("ctx"))])
    check_load(h, own, ctx, {h.s("a"): h.s("wrong"), h.s("b"): h.s("wrong")})


def c19_values(h, shape):
    """What a reference is replaced by is taken as it is, whatever it looks like."""
    v = h.str("v", shape["n"], "%xy\\{1\n$", 0)
    name = {"own": "a", "context": "x", "nested": "n.d", "environment": "e"}[shape["where"]]
    lit, ref = lambda t: ("lit", h.s(t)), ("ref", h.s(name))
    z = [[ref], [lit("-"), ref], [ref, lit("\n")], [ref, ref], [lit("\n"), ref, lit(" ")],
         [lit("%"), ref, lit("%")]][h.choose("form", 6)]
    w = shape["where"]
    own = Tree([(h.s("z"), T(z))] + ([(h.s("a"), T(pieces_of(h, v)))] if w == "own" else []))
    ctx = Tree([(h.s("x"), v if w == "context" else h.s("X")), (h.s("y"), h.s("Y%x%")),
                (h.s("n"), Tree([(h.s("d"), v if w == "nested" else h.s("D"))]))])
    check_load(h, own, ctx, {h.s("e"): v if w == "environment" else h.s("E"), h.s("y"): h.s("no")})


def c19_inert(h, shape):
    """Keys, lists and non-strings are left alone."""
    l = [h.s("%a%"), [h.s("%zz%")]]
    own = Tree([(h.s("%a%"), h.int("v")), (h.s("l"), l), (h.s("a"), h.s("A")),
                (h.s("f"), h.bool("f")), (h.s("n"), Tree([(h.s("%b"), l)]))])
    check_load(h, own, Tree(), {})


def _c19_graph(tier):
    out = []
    for order in (0, 1):
        out += [
            {"struct": "flat", "pieces": 1, "lits": ["t"], "order": order, "_split": 2},
            {"struct": "nested", "pieces": 1, "lits": ["t"], "order": order, "_split": 2},
            {"struct": "context", "pieces": 1, "lits": ["t", "%"], "ikinds": 4, "order": order,
             "_split": 2},
            {"struct": "context", "pieces": 2, "lits": ["t"], "ikinds": 1, "order": order,
             "_split": 3, "_opt": 1},
            {"struct": "below", "pieces": 1, "lits": ["t"], "order": order, "_split": 2},
        ]
        if order:
            out += [
                {"struct": "context", "pieces": 1, "lits": ["50% \u00e9"], "ikinds": 4, "order": 1,
                 "long": 1, "_split": 2},
                {"struct": "nested", "pieces": 1, "lits": ["%"], "order": 1, "long": 1,
                 "_split": 2},
            ]
        if tier != "quick":
            out += [
                {"struct": "flat", "pieces": 2, "lits": ["t"], "ikinds": 1, "order": order,
                 "_split": 4, "_opt": 2},
                {"struct": "nested", "pieces": 2, "lits": [], "order": order, "_split": 4,
                 "_opt": 2},
            ]
    return out


def _c19_text(tier):
    out = []
    for v in (0, 1, 2):
        for n in range(0, 6 if tier == "quick" else 7):
            d = {"n": n, "alphabet": "%ab.", "v": v}
            if n > 4:
                d.update(_split=4)
            out.append(d)
        out.append({"n": 4, "alphabet": "%a -A", "v": v})
        out.append({"n": 4, "alphabet": "%a0_\u00e9$", "v": v})
        out.append({"n": 4, "alphabet": "%a\n\\e\u0301", "v": v})
    return out + [{"n": n, "alphabet": "%a", "v": v} for v in (3, 4, 5, 6) for n in (3, 4)]


def _c19_chain(tier):
    out = []
    for order in ("up", "down", "mix"):
        for nested in (0, 1):
            out.append({"n": 11 if tier == "quick" else 18, "order": order, "nested": nested,
                        "text": nested})
    return out


# ------------------------------------------------------------------ C34
FILES = {"main": ("dir", "main.yaml"), "f1": ("dir", "sub", "f1.yaml"), "f2": ("f2.yaml",),
         "f3": ("dir", "f3.yaml")}
RELATIVE = {("main", "f3"): "f3.yaml", ("f2", "f3"): "./dir/f3.yaml", ("f1", "f3"): "../f3.yaml",
            ("f3", "f2"): "../f2.yaml",
            ("main", "f1"): "sub/f1.yaml", ("main", "f2"): "../f2.yaml",
            ("f1", "f2"): "../../f2.yaml", ("f2", "f1"): "dir/sub/f1.yaml"}


def layer(h, name, opts):
    """The content of one file: what it says about a, b and the namespace n."""
    pairs = []
    a = h.choose(name + ".a", 4 if "r" in opts else 2)
    if a == 1:
        pairs.append((h.s("a"), h.int(name + ".va")))
    elif a:
        pairs.append((h.s("a"), T([("ref", h.s("b" if a == 2 else "n.c"))])))
    if h.choose(name + ".b", 2) if "b" in opts else 0:
        pairs.append((h.s("b"), h.int(name + ".vb")))
    n = h.choose(name + ".n", 2 + ("l" in opts)) if "n" in opts else 0
    if n == 1:
        pairs.append((h.s("n"), Tree([(h.s("c"), h.int(name + ".vc")),
                                      (h.s(name), T([("lit", h.s("x"))]))])))
    elif n == 2:
        pairs.append((h.s("n"), h.int(name + ".vn")))
    return Tree(pairs)


def c34_layers(h, shape):
    """Included files: later ones override earlier ones, the including file overrides them all."""
    from vistautils.parameters import ParameterError, Parameters, YAMLParametersLoader

    f = Files(h)
    includes = shape["includes"]
    own = {n: layer(h, n, shape["opts"][n]) for n in FILES
           if n == "main" or any(n in v for v in includes.values())}
    ctx = layer(h, "ctx", shape["opts"]["ctx"])
    ctx = Tree([(k, v) for k, v in ctx.pairs if not isinstance(v, T)])
    ctx = Tree([(k, Tree([(q, w) for q, w in v.pairs if not isinstance(w, T)])
                 if isinstance(v, Tree) else v) for k, v in ctx.pairs])
    env = {"b": h.s("env")} if h.choose("env", 2) else {}
    use_env = shape.get("use_env", 1) or h.choose("use_env", 2)
    free = (lambda name, n: h.choose(name, n)) if shape.get("free") else (lambda name, n: 0)
    forms = free("absolute", 2)
    fault = shape.get("fault")
    at_fault = None
    if fault:
        at_fault = sorted(own)[h.choose("at", len(own))]
    texts = {}
    for n, t in own.items():
        m = raw(h, t)
        if includes.get(n):
            refs = [h.s(str(f.path(*FILES[i])) if forms else RELATIVE[n, i]) for i in includes[n]]
            if at_fault == n and fault == "missing":
                refs.append(h.s("nowhere.yaml" if h.choose("rel", 2) else
                                str(f.path("nowhere.yaml"))))
            inc = {h.s("_includes"): refs}
            m = {**m, **inc} if free("%s.order" % n, 2) else {**inc, **m}
        elif at_fault == n and fault == "missing":
            m = {h.s("_includes"): [h.s("nowhere.yaml")], **m}
        elif n != "main" and not fault and free("%s.none" % n, 2):
            m = {h.s("_includes"): [], **m}
        if at_fault == n and fault == "keys":
            bad = [{3: 4}, {h.s("m"): {True: 1}}, {h.s("m"): {h.s("k"): {1: 2}}}][h.choose("key", 3)]
            m = {**m, **bad}
        if at_fault == n and fault == "shape":
            m = [[h.s("a")], h.s("text"), 3, None][h.choose("shape", 4)]
        texts[n] = yaml_text(h, m)
        if n != "main" or not shape.get("string"):
            f.write(f.path(*FILES[n]), texts[n])

    def load(n, c):
        for i in includes.get(n, ()):
            c = merge(h, c, load(i, c))
        return merge(h, c, Spec(h, own[n], c, env if use_env else {}).value(own[n]))

    try:
        want = load("main", ctx)
    except (Bad, Conflict) as e:
        want = None
        why = "faulty"
    if fault:
        want, why = None, fault
    if shape.get("string") and includes.get("main") and not forms:
        want, why = None, "relative"
    loader = YAMLParametersLoader() if use_env else YAMLParametersLoader(
        interpolate_environmental_variables=False)
    included = Parameters.from_mapping(ctx.mapping())
    how = free("context", 3) if not ctx.pairs else free("context", 2)
    kw = [{"included_context": included}, {"context": included}, {}][how]
    with environment(h, {h.s(k): v for k, v in env.items()}):
        if shape.get("string"):
            kw.pop("context", None)
            if not kw and how == 1:
                kw = {"included_context": included}
            r, err = h.attempt(loader.load_string, texts["main"], **kw)
        else:
            p = f.path(*FILES["main"])
            r, err = h.attempt(loader.load, h.s(str(p)) if free("str", 2) else p, **kw)
    if want is None:
        h.check(isinstance(err, IOError), "faulty parameters accepted (%s)" % why,
                repr(err or r.as_nested_dicts()))
        h.cover(why)
    else:
        h.check(err is None, "loading failed", repr((err, err.__cause__ if err else None)))
        got = r.as_nested_dicts()
        h.check(plain_eq(got, want.mapping()), "loaded parameters", "%r / %r" % (
            got, want.mapping()))
        prefixes_ok(h, r, (), "loaded")
        h.cover("loaded")
        if shape.get("free") and not shape.get("string"):
            # the loader remembers nothing of what it has read
            r, err = h.attempt(loader.load, f.path(*FILES["main"]), included_context=included)
            h.check(err is None and plain_eq(r.as_nested_dicts(), got), "loading again")
    h.check(plain_eq(included.as_nested_dicts(), ctx.mapping()), "context changed")


def c34_many(h, shape):
    """Many files, each including the next or all included by one."""
    from vistautils.parameters import YAMLParametersLoader

    f = Files(h)
    n = shape["n"]
    at = [h.choose("at%d" % i, n) for i in range(2)]
    trees = []
    for i in range(n):
        pairs = [(h.s("own%d" % i), h.int("o%d" % i)), (h.s("s"), Tree([(h.s("k%d" % i), h.s("v"))]))]
        for j, k in enumerate(at):
            if k == i:
                pairs.append((h.s("ab"[j]), h.int("ab"[j] + "v")))
        if i == 0:
            pairs.append((h.s("r"), T([("ref", h.s("own%d" % (n - 1))), ("ref", h.s("a"))][
                :1 if shape["deep"] else 1])))
        trees.append(Tree(pairs))
    # everybody's idea of c: the strongest file wins
    said = [i for i in range(n) if i % 3 != at[0] % 3]
    for i in said:
        trees[i].pairs.append((h.s("c"), h.int("c%d" % i)))

    def path(i):
        return ("d%d" % (i % 3), "g%d.yaml" % i)

    for i in range(n):
        m = raw(h, trees[i])
        nxt = ([i + 1] if i + 1 < n else []) if shape["deep"] else list(range(1, n)) if i == 0 else []
        if nxt:
            m = {h.s("_includes"): [h.s("../%s/%s" % path(j)) for j in nxt], **m}
        f.write(f.path(*path(i)), yaml_text(h, m))
    ctx = Tree()
    for i in list(range(n - 1, -1, -1)) if shape["deep"] else list(range(1, n)) + [0]:
        ctx = merge(h, ctx, Spec(h, trees[i], ctx, {}).value(trees[i]))
    r, err = h.attempt(YAMLParametersLoader().load, f.path(*path(0)))
    h.check(err is None, "loading failed", repr((err, err.__cause__ if err else None)))
    h.check(plain_eq(r.as_nested_dicts(), ctx.mapping()), "parameters of many files", "%r / %r" % (
        r.as_nested_dicts(), ctx.mapping()))


def c34_both(h, shape):
    """The two context arguments exclude each other."""
    from vistautils.parameters import ParameterError, Parameters, YAMLParametersLoader

    f = Files(h)
    p = f.path("x.yaml")
    f.write(p, yaml_text(h, {h.s("a"): h.int("a")}))
    c, d = Parameters.from_mapping({h.s("b"): 1}), Parameters.empty()
    _, e = h.attempt(YAMLParametersLoader().load, p, [c, d][h.choose("c", 2)],
                     included_context=[c, d][h.choose("d", 2)])
    h.check(isinstance(e, ParameterError), "two contexts refused", repr(e))


# ------------------------------------------------------------------ C32
class logging_state:
    """Keeps the process's logging configuration and standard output out of the way."""

    def __enter__(self):
        import io
        import logging
        import logging.config
        import sys

        self.root = logging.getLogger()
        self.saved = self.root.level, list(self.root.handlers), sys.stdout, logging.config.fileConfig
        self.configured = []
        logging.config.fileConfig = lambda *a, **k: self.configured.append(a)
        for x in list(self.root.handlers):
            self.root.removeHandler(x)
        self.out = sys.stdout = io.StringIO()
        self.root.setLevel(1)
        return self

    def __exit__(self, *a):
        import logging.config
        import sys

        level, handlers, sys.stdout, logging.config.fileConfig = self.saved
        for x in list(self.root.handlers):
            self.root.removeHandler(x)
        for x in handlers:
            self.root.addHandler(x)
        self.root.setLevel(level)


LEVELS = {"CRITICAL": 50, "FATAL": 50, "ERROR": 40, "WARNING": 30, "WARN": 30, "INFO": 20,
          "DEBUG": 10}


def overridden(h, base, pairs):
    """Spec: command-line overrides in order, by dotted name."""
    over = Tree()
    for name, v in pairs:
        node = over
        comps = components(h, name)
        for c in comps[:-1]:
            nxt = node.get(c)
            if nxt is MISSING:
                nxt = Tree()
                node.pairs.append((c, nxt))
            h.assume(isinstance(nxt, Tree))
            node = nxt
        h.assume(not isinstance(node.get(comps[-1]), Tree))
        node.pairs = [(k, w) for k, w in node.pairs if not bool(k == comps[-1])]
        node.pairs.append((comps[-1], v))
    return merge(h, base, over)


class Stop(Exception):
    pass


def c32_entry(h, shape):
    """What the main method is given: the file's or caller's parameters and the overrides."""
    from vistautils.parameters import Parameters
    from vistautils.parameters_only_entrypoint import parameters_only_entry_point

    import sys

    f = Files(h)
    base = [(h.s("a"), h.str("a", 1, "xy"))]
    if h.choose("n", 2):
        base.append((h.s("n"), Tree([(h.s("b"), h.int("b"))])))
    if shape.get("empty") and h.choose("empty", 2):
        base = []
    base = Tree(base)
    given = 0 if shape.get("plain") else h.choose("given", 2)
    args = [h.s("prog")]
    kw = {}
    if given:
        kw["parameters"] = Parameters.from_mapping(base.mapping())
        if shape.get("extra") and h.choose("extra", 2):
            args.append(h.s("file"))
    else:
        p = f.path("p.yaml")
        f.write(p, yaml_text(h, base.mapping()))
        if not (shape.get("extra") and h.choose("extra", 2)):
            args.append(h.s(str(p)))
    bad_args = bool(len(args) - 2 + given)
    pairs = []
    for i in range(shape["pairs"]):
        name = h.str("name%d" % i, shape["nlen"], shape.get("nab", "abn."), 1)
        for c in components(h, name):
            h.assume(len(c) > 0)
        v = h.str("value%d" % i, shape.get("vlen", 1), "xy1%=. \u00e9", 0)
        pairs.append((name, v))
        at = 1 if len(args) == 1 or shape.get("plain") or not h.choose("at%d" % i, 2) else len(args)
        if i:
            at = len(args)
        args[at:at] = [h.s("-p"), name, v]
    try:
        want = overridden(h, base, pairs)
    except Conflict:
        want = None
    seen = []
    fails = 0 if shape.get("plain") else h.choose("fails", 2 if shape["pairs"] else 6)
    stop = [None, Stop, KeyboardInterrupt, ValueError, OSError, GeneratorExit][fails]

    def main(params):
        seen.append(params)
        if fails:
            raise stop()

    argv, sys.argv = sys.argv, args
    stderr, sys.stderr = sys.stderr, None
    with logging_state() as log:
        try:
            kw["program_name"] = h.s("prog")
            parameters_only_entry_point(main, h.s("usage"), **kw)
            err = None
        except (Exception, SystemExit, KeyboardInterrupt, GeneratorExit) as e:
            err = e
        finally:
            sys.argv, sys.stderr = argv, stderr
    if bad_args:
        h.check(isinstance(err, SystemExit) and not seen, "wrong arguments refused", repr(err))
        h.cover("wrong arguments")
    elif want is None:
        h.check(isinstance(err, IOError) and not seen, "conflicting override refused", repr(err))
        h.cover("conflict")
    else:
        h.check(len(seen) == 1, "main called once", repr(err))
        h.check(plain_eq(seen[0].as_nested_dicts(), want.mapping()), "parameters of the main method",
                repr((seen[0].as_nested_dicts(), want.mapping())))
        h.check(type(err) is stop if fails else err is None, "outcome of main passed on",
                repr(err))
        h.cover("called")


def c32_level(h, shape):
    """The root logger gets the asked level, INFO by default."""
    import logging

    from vistautils.logging_utils import configure_logging_from
    from vistautils.parameters import ParameterError, Parameters

    f = Files(h)
    how = h.choose("how", 6)
    names = sorted(LEVELS)
    want = 20
    if how == 0:
        m = {}
    elif how == 1:
        n = names[h.choose("level", len(names))]
        m = {h.s("logging"): {h.s("root_level"): h.s(n)}}
        want = LEVELS[n]
    elif how == 2 or how == 5:
        if how == 2:
            s = h.str("text", 4, "WARNIFOo", 0)
        else:
            # a level name in lower case, or with something around it
            n = names[h.choose("level", len(names))]
            s = h.str("pre", 1, " 1aA", 0) + h.s(
                [n, n.lower(), n.title()][h.choose("case", 3)]) + h.str("post", 1, " 1sS", 0)
        m = {h.s("logging"): {h.s("root_level"): s}}
        want = None
        for n in names:
            if len(s) == len(n) and bool(s == n):
                want = LEVELS[n]
    elif how == 3:
        p = f.path("log.conf")
        f.write(p, h.s("x"))
        m = {h.s("logging"): {h.s("config_file"): h.s(str(p)), h.s("root_level"): h.s("DEBUG")}}
    else:
        m = {h.s("logging"): {h.s("other"): h.int("x")}}
    earlier = [None, "DEBUG", "ERROR"][h.choose("earlier", 3)] if how < 2 or how == 4 else None
    with logging_state() as log:
        if earlier:
            configure_logging_from(Parameters.from_mapping(
                {h.s("logging"): {h.s("root_level"): h.s(earlier)}}))
        _, err = h.attempt(configure_logging_from, Parameters.from_mapping(m),
                           **({"log_params": True} if h.choose("log", 2) else {}))
        level = logging.getLogger().level
        handlers = [(x.level, x.stream is log.out) for x in log.root.handlers]
    if how == 3:
        h.check(err is None, "configuration file accepted", repr(err))
        h.check(len(log.configured) == 1 and h.s(log.configured[0][0]) == h.s(str(p)),
                "configured from the file", repr(log.configured))
        h.check(handlers == [] and level == 1, "nothing else configured")
    elif want is None:
        h.check(isinstance(err, ParameterError), "unknown level refused", repr(err))
        h.cover("unknown level")
    else:
        h.check(err is None, "configured", repr(err))
        h.check(level == want, "root level", repr(level))
        want = [(LEVELS[n], True) for n in ([earlier] if earlier else [])] + [(want, True)]
        h.check(handlers == want, "one handler to standard output", repr(handlers))


# ------------------------------------------------------------------ C33
def lines_of(h, t):
    out, cur = [], 0
    for i in range(len(t)):
        if bool(among(h, t[i], "\n")):
            out.append(t[cur:i])
            cur = i + 1
    if cur < len(t):
        out.append(t[cur:])
    return out


def stripped(h, t):
    a, b = 0, len(t)
    while a < b and bool(among(h, t[a], " \t\n")):
        a += 1
    while b > a and bool(among(h, t[b - 1], " \t\n")):
        b -= 1
    return t[a:b]


def same_path(p, base, text, f):
    want = f.raw(text) if base is None else base / text
    return p == want


def c33_list(h, shape):
    """Lists of paths: in the parameters or, one per line with comments, in a file."""
    from vistautils.parameters import ParameterError, Parameters

    f = Files(h)
    base = f.path("base") if h.choose("relative", 2) else None
    kw = {} if base is None else {"resolve_relative_to": base}
    if h.choose("named", 2):
        kw["log_name"] = h.s("things")
    if shape["kind"] == "file":
        t = h.str("text", shape["n"], shape.get("ab", "~#\n \t"), 0)
        if shape.get("fixed"):
            # a long file, with a comment, a blank line and a long line
            first = h.choose("first", 2)
            more = h.s("".join("d%d/f \u00e9\n" % i if i % 5 else "  # %d\n\n" % i
                               for i in range(shape["fixed"])) + "x/" + "long/" * 250)
            t = t + "\n" + more if first else more + "\n" + t
        p = f.path("list.txt")
        f.write(p, t)
        v = h.s(str(p))
        want = []
        for ln in lines_of(h, t):
            ln = stripped(h, ln)
            if len(ln) and not bool(among(h, ln[0], "#")):
                want.append(ln)
        what = 0
    else:
        what = h.choose("what", 4)
        items = [h.str("i%d" % i, shape["n"], "aB# /~\\,%", 1) for i in range(2)]
        for x in items:
            h.assume(len(stripped(h, x)) > 0)
        want = [stripped(h, x) for x in items]
        v = [items, [], h.int("v"), h.s(str(f.path("missing")))][what]
        if what == 1:
            want = []
    m = {h.s("n"): {h.s("paths"): v}} if h.choose("nested", 2) else {h.s("paths"): v}
    name = h.s("n.paths") if h.s("n") in m else h.s("paths")
    got, err = h.attempt(Parameters.from_mapping(m).path_list_from_file, name, **kw)
    if what > 1:
        h.check(isinstance(err, ParameterError), "neither list nor file: refused", repr(err or got))
        return
    h.check(err is None, "list accepted", repr(err))
    h.check(len(got) == len(want), "number of paths", repr((got, want)))
    for g, w in zip(got, want):
        h.check(same_path(g, base, w, f), "path in order", repr((g, w)))
        h.cover("path")


def c33_map(h, shape):
    """Maps from keys to paths in a file."""
    from vistautils.parameters import ParameterError, Parameters

    f = Files(h)
    base = f.path("base") if h.choose("relative", 2) else None
    kw = {} if base is None else {"resolve_relative_to": base}
    t = h.str("text", shape["n"], shape.get("ab", "a~\t\n "), 0)
    if shape.get("fixed"):
        more = h.s("".join("k%d\td%d/f \u00e9\n" % (i * 7 % shape["fixed"], i)
                           for i in range(shape["fixed"])) + "x\t" + "long/" * 250 + "\n")
        t = t + "\n" + more if h.choose("first", 2) else more + t
    p = f.path("map.txt")
    f.write(p, t)
    want, bad = [], False
    for ln in lines_of(h, t):
        tabs = [i for i in range(len(ln)) if bool(among(h, ln[i], "\t"))]
        if len(tabs) != 1:
            bad = True
            continue
        k = stripped(h, ln[:tabs[0]])
        for q, _ in want:
            h.assume(Not(k == q) if len(k) == len(q) else True)
        want.append((k, stripped(h, ln[tabs[0] + 1:])))
    got, err = h.attempt(Parameters.from_mapping({h.s("m"): h.s(str(p))}).path_map_from_file,
                         h.s("m"), **kw)
    if bad:
        h.check(isinstance(err, IOError), "line without two fields refused", repr(err or got))
        h.cover("bad line")
        return
    h.check(err is None, "map accepted", repr(err))
    h.check(len(got) == len(want), "number of entries")
    for k, w in want:
        h.check(k in got and same_path(got[k], base, w, f), "entry")
        h.cover("entry")


def H_(name, fn, shapes, **k):
    return Harness(name, fn, shapes, strings=True, fakes=FAKES + ("argparse",), **k)


MODEL = "YAML text, the file system and environment variables are modelled at their library " \
        "boundary; the code's own source is executed symbolically"

PROPS = {
    "C19": Prop(
        "C19",
        [
            H_("graph", c19_graph, _c19_graph),
            H_("text", c19_text, _c19_text),
            H_("chain", c19_chain, _c19_chain),
            H_("values", c19_values, lambda tier: [
                {"n": 3 if tier == "quick" else 4, "where": w, "_split": 2}
                for w in ("own", "context", "nested", "environment")]),
            H_("inert", c19_inert, [{}]),
        ],
        bounds="up to 3 string parameters, nested or not, each made of up to one piece (two "
        "parameters: two pieces; thorough three parameters), every way the pieces refer to "
        "parameters, namespaces, context values, environment variables and unknown names, both "
        "orders; every text of up to 5 (thorough 6) characters over percent, two letters and the "
        "dot, and 4 over other characters; chains of 11 (thorough 18) parameters in three orders with "
        "any reference replaced by any other; references below a parameter that is itself "
        "interpolated to a namespace, in both orders; data beside the texts: integers, reals, truth values, empty lists",
        outside="longer chains of such references; null values; longer texts",
        assumptions=[MODEL],
        covers=["interpolated", "bad: cycle", "bad: unknown name", "bad: not a string"],
    ),
}


ALL = {"main": "rbn", "f1": "rb", "f2": "bn", "ctx": "b"}


def _c34(tier):
    out = [
        {"includes": {}, "opts": {"main": "rbnl", "ctx": "bnl"}, "use_env": 0},
        {"includes": {"main": ["f1"]}, "opts": {"main": "rbn", "f1": "rbnl", "ctx": "b"},
         "_split": 4},
        {"includes": {"main": ["f1"], "f1": ["f2"]}, "free": 1,
         "opts": {"main": "", "f1": "", "f2": "", "ctx": "b"}, "_split": 3},
        {"includes": {"main": ["f1", "f2"]}, "opts": {"main": "rn", "f1": "b", "f2": "rb", "ctx": ""},
         "_split": 5},
        {"includes": {"main": ["f1"], "f1": ["f2"]},
         "opts": {"main": "r", "f1": "rn", "f2": "bn", "ctx": ""}, "_split": 5},
        {"includes": {"main": ["f2", "f1"], "f1": ["f2"]},
         "opts": {"main": "r", "f1": "b", "f2": "b", "ctx": ""}, "_split": 4},
        {"includes": {"main": ["f1", "f2", "f1"]},
         "opts": {"main": "", "f1": "b", "f2": "b", "ctx": ""}, "_split": 3},
        {"includes": {"main": ["f1", "f2", "f3"]},
         "opts": {"main": "r", "f1": "b", "f2": "r", "f3": "rb", "ctx": ""}, "_split": 5},
        {"includes": {"main": ["f1", "f2", "f3"]},
         "opts": {"main": "", "f1": "n", "f2": "n", "f3": "n", "ctx": ""}, "_split": 5},
        {"includes": {"main": ["f1"], "f1": ["f2"], "f2": ["f3"]},
         "opts": {"main": "r", "f1": "", "f2": "r", "f3": "rb", "ctx": ""}, "_split": 5},
        {"includes": {"main": ["f1"]}, "string": 1, "free": 1, "opts": {"main": "rb", "f1": "b", "ctx": "b"},
         "_split": 3},
    ]
    for fault in ("missing", "keys", "shape"):
        out.append({"includes": {"main": ["f1"], "f1": ["f2"]}, "fault": fault, "free": 1,
                    "opts": {"main": "", "f1": "", "f2": "", "ctx": ""}})
    if tier != "quick":
        for inc in ({"main": ["f1", "f2"]}, {"main": ["f1"], "f1": ["f2"]},
                    {"main": ["f2", "f1"], "f1": ["f2"]}, {"main": ["f1", "f2"], "f2": ["f1"]}):
            out.append({"includes": inc, "_split": 8, "_opt": 1,
                        "opts": {"main": "rbnl", "f1": "rbn", "f2": "bnl", "ctx": "b"}})
    return out


PROPS["C34"] = Prop(
    "C34",
    [H_("layers", c34_layers, _c34),
     H_("many", c34_many, lambda tier: [{"n": 7 if tier == "quick" else 12, "deep": d}
                                        for d in (0, 1)]),
     H_("both", c34_both, [{}])],
    bounds="7 (thorough 12) files including the next or all included by the first; include lists that are empty; up to four files including each other in ten ways (absolute and relative), each with "
    "up to a parameter, a reference, a namespace and a clash, with context and environment",
    outside="cyclic includes, other large sets of files, null values",
    assumptions=[MODEL],
    covers=["loaded", "faulty", "missing", "keys", "shape", "relative"],
)
PROPS["C32"] = Prop(
    "C32",
    [H_("entry", c32_entry, lambda tier: [
        {"pairs": 0, "nlen": 1, "extra": 1, "empty": 1}, {"pairs": 1, "nlen": 3, "extra": 1},
        {"pairs": 2, "nlen": 1, "empty": 1, "_split": 4},
        {"pairs": 1, "nlen": 3, "nab": "aB0_.\u00e9 ", "vlen": 3, "plain": 1},
        {"pairs": 2, "nlen": 3, "plain": 1, "_split": 5}]
        + ([] if tier == "quick" else [{"pairs": 2, "nlen": 3, "_split": 5, "_opt": 1},
                                       {"pairs": 3, "nlen": 1, "_split": 5, "_opt": 1}])),
     H_("level", c32_level, [{}])],
    bounds="up to two (thorough three) overrides with names of up to three characters and values of "
    "up to one, before and after the file, given or loaded parameters; main methods that return, fail or are interrupted; every level name and every "
    "text of up to 4 letters",
    outside="override values that look like options; logging configuration files themselves",
    assumptions=[MODEL, "argument parsing runs the library's own source symbolically"],
    covers=["called", "conflict", "wrong arguments", "unknown level"],
)
PROPS["C33"] = Prop(
    "C33",
    [H_("list", c33_list, lambda tier: [{"kind": "file", "n": 4 if tier == "quick" else 6,
                                         "_split": 4},
                                        {"kind": "file", "n": 3, "ab": "aB#\n\ufeff\u0301%$\\,:\"'"},
                                        {"kind": "file", "n": 2, "fixed": 24},
                                        {"kind": "list", "n": 2}]),
     H_("map", c33_map, lambda tier: [{"n": 4 if tier == "quick" else 6, "_split": 4},
                                      {"n": 2, "fixed": 24, "ab": "a\t#\n"},
                                      {"n": 4, "ab": "Aa\t\ufeff#%$\u00e9\\", "_split": 4}])],
    bounds="list files of up to 4 (thorough 6) characters with comments, blanks and tabs, and of 3 "
    "over others, and of 2 before or after 25 known lines, one of 1250 characters; lists of two entries; map files of up to 4 (6) characters, also over others",
    outside="other line separators, repeated keys",
    assumptions=[MODEL],
    covers=["path", "entry", "bad line"],
)
