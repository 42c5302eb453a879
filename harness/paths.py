"""Parameters that name files and directories."""
from sx.core import And, Not, Or
from sx.run import Harness, Prop

from harness.files import FAKES, Files, eq
from harness.loading import environment
from harness.stores import MODEL


def same(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and bool(x == y) for x, y in zip(a, b))


class World:
    """Spec side: what exists below the scratch directory, as (components, kind)."""

    def __init__(self, base):
        self.items = []
        for i in range(len(base)):
            self.items.append((base[:i + 1], "d"))

    def kind(self, parts):
        if not parts:
            return "d"
        for q, k in self.items:
            if same(q, parts):
                return k
        return None

    def lead(self, comps, depth=0):
        """Where a path leads, parent references and links followed; None: round in circles."""
        if depth > 9:
            return None
        out = ()
        for c in comps:
            if len(c) == 2 and bool(c == ".."):
                out = out[:-1]
                continue
            out = out + (c,)
            k = self.kind(out)
            if isinstance(k, tuple):
                out = self.lead(k, depth + 1)
                if out is None:
                    return None
        return out

    def under(self, parts):
        return [(q, k) for q, k in self.items
                if len(q) > len(parts) and same(q[:len(parts)], parts)]

    def mkdirs(self, parts):
        """Add the directories; False if a file is in the way."""
        new = []
        for i in range(len(parts)):
            k = self.kind(parts[:i + 1])
            if k == "f":
                return False
            if k is None:
                new.append((parts[:i + 1], "d"))
        self.items += new
        return True


ACCESSORS = ["creatable_directory", "creatable_empty_directory", "creatable_file",
             "existing_file", "existing_directory"]


CALLED = ("a.d", "a.txt", "a.gz", "a.tar.gz", "a.zip", "a.yaml", "_a", "-a", "A", "con", "a~")


def c39_paths(h, shape):
    """One accessor on one path, in a directory with some content."""
    f = Files(h)
    base = tuple(h.s(x) for x in ("p", "q", "r"))
    world = World(base)
    f.path("p", "q", "r").mkdir(parents=True)
    keep = base + (h.s("keep"),)
    f.write(f.path(*keep), h.s("k"))
    world.items.append((keep, "f"))
    # one entry that the path may hit
    called = h.s("a")
    if shape.get("named"):
        called = h.s(CALLED[h.choose("called", len(CALLED))])
    name = base + (called,)
    state = h.choose("state", 6)
    if state == 1:
        f.write(f.path(*name), h.s("old"))
        world.items.append((name, "f"))
    elif state >= 2:
        f.path(*name).mkdir()
        world.items.append((name, "d"))
        if state == 3:
            f.write(f.path(*name, "a"), h.s("in"))
            world.items.append((name + (h.s("a"),), "f"))
        elif state == 5:
            f.write(f.path(*name, ".a"), h.s("in"))
            world.items.append((name + (h.s(".a"),), "f"))
        elif state == 4:
            f.path(*name, "a").mkdir()
            world.items.append((name + (h.s("a"),), "d"))
    if shape.get("named"):
        text = called
        if h.choose("below", 2):
            text = text + h.s("/a")
    else:
        text = h.str("path", shape["n"], shape.get("ab", "a~/."), 1)
    which = ACCESSORS[shape["which"]]
    # the target, links aside
    target, word = list(base), h.s("")
    for c in list(text) + [h.s("/")]:
        if bool(c == "/"):
            if len(word) == 2 and bool(word == ".."):
                target.pop()
            elif len(word) and not (len(word) == 1 and bool(word == ".")):
                target.append(word)
            word = h.s("")
        else:
            word = word + c
    target = tuple(target)
    relative = h.choose("relative", 2)
    h.assume(Not(text[0] == "/"))
    where = text if relative else h.s(str(f.path(*base))) + "/" + text
    ask(h, f, world, which, where, target, relative, base)
    if world.kind(keep) == "f":
        h.check(eq(f.read(f.path(*keep)), h.s("k").encode("utf-8")), "other file unchanged")
    if world.kind(name) == "f":
        h.check(eq(f.read(f.path(*name)), h.s("old").encode("utf-8")), "file unchanged")


def c39_links(h, shape):
    """The same through symbolic links, which lead to a directory, a file or nowhere."""
    f = Files(h)
    base = (h.s("r"),)
    world = World(base)
    f.path("r").mkdir()

    def add(parts, kind, to=None):
        parts = tuple(h.s(x) for x in parts)
        if kind == "d":
            f.path(*parts).mkdir()
        elif kind == "f":
            f.write(f.path(*parts), h.s("k"))
        else:
            f.link(f.path(*parts), f.path(*to))
            kind = tuple(h.s(x) for x in to)
        world.items.append((parts, kind))

    # t: what links lead to, beside x; r/d: a directory that holds a link only
    add(("t",), "d")
    add(("t", "x"), "f")
    add(("t", "d"), "d")
    add(("x",), "d")
    add(("r", "d"), "d")
    add(("r", "d", "x"), "l", ("t",))
    to = [("t",), ("t", "x"), ("t", "d"), ("r", "d"), ("gone",), ("r", "d", "x")]
    add(("r", "l"), "l", to[h.choose("to", shape.get("to", len(to)))])
    comps = []
    for i in range(shape["n"]):
        comps.append(h.s("..") if h.choose("up%d" % i, 2) else h.str("c%d" % i, 1, "ldx ", 1))
    target = world.lead(base + tuple(comps))
    where = h.s("/").join(comps)
    relative = h.choose("relative", 2)
    if not relative:
        where = h.s(str(f.path(*base))) + "/" + where
    # what is written to is always somewhere below
    h.assume(len(target) > 0)
    ask(h, f, world, ACCESSORS[shape["which"]], where, target, relative, base)
    for parts, kind in world.items:
        if kind == "f":
            h.check(eq(f.read(f.path(*parts)), h.s("k").encode("utf-8")), "file unchanged")
    h.cover("link")


def ask(h, f, world, which, where, target, relative, base):
    """Ask for ``where``, which leads to ``target``; compare answer and file system."""
    import os

    from vistautils.parameters import ParameterError, Parameters

    optional = bool(h.choose("optional", 2))
    present = h.choose("present", 3)
    p = h.s("par")
    value = where if present == 1 else h.int("number")
    params = Parameters.from_mapping({h.s("ns"): {p: value}} if present else {h.s("ns"): {}})
    q = h.s("ns.par")
    kw = {}
    if which == "creatable_empty_directory":
        delete = bool(h.choose("delete", 3))
        if delete or h.choose("explicit", 2):
            kw["delete"] = delete
    cwd = os.getcwd()
    if relative:
        chdir(h, f.path(*base))
    try:
        with contained(h, f), environment(h, {"a": "b", "HOME": str(f.path("home"))}):
            got, e = h.attempt(getattr(params, ("optional_" if optional else "") + which), q, **kw)
    finally:
        if relative:
            chdir(h, None if h.symbolic else cwd)
    if present != 1:
        if present == 0 and optional:
            h.check(e is None and got is None, "optional and absent", repr(e))
            h.cover("absent")
        else:
            h.check(isinstance(e, ParameterError), "absent or no string: refused", repr(e))
        ok = None
    else:
        kind = world.kind(target)
        documented = True
        if which == "existing_file":
            ok = kind == "f"
        elif which == "existing_directory":
            ok = kind == "d"
        elif which == "creatable_file":
            ok = world.mkdirs(target[:-1])
            documented = False
        elif which == "creatable_directory":
            ok = world.mkdirs(target)
            documented = False
        else:
            inside = world.under(target)
            if kind == "f" or (inside and not kw.get("delete")):
                ok = False
            else:
                if inside:
                    h.cover("deleted")
                    gone = [i for i, _ in inside]
                    world.items = [x for x in world.items if not any(x[0] is g for g in gone)]
                ok = world.mkdirs(target)
                documented = False
        if ok:
            h.check(e is None, which, repr(e))
            want = f.path(*target)
            h.check(got.is_absolute(), which + ": absolute path")
            # links on the way may be named or resolved
            h.check(bool(got == want) or bool(got.resolve() == want), which + ": path",
                    repr((got, want)))
            h.cover("found")
        else:
            h.check(isinstance(e, ParameterError if documented else Exception),
                    which + ": refused", repr((got, e)))
            h.cover("refused")
    tree = f.tree()
    h.check(len(tree) == len(world.items), "number of files and directories",
            repr((len(tree), len(world.items))))
    for parts, kind in world.items:
        x = f.path(*parts)
        if isinstance(kind, tuple):
            h.check(x.is_symlink(), "links stay")
        else:
            h.check(not x.is_symlink() and (x.is_dir() if kind == "d" else x.is_file()),
                    "what exists", repr(parts))


class contained:
    """Concrete runs: removals only below the scratch directory."""

    def __init__(self, h, f):
        self.h, self.f = h, f

    def __enter__(self):
        if self.h.symbolic:
            return
        import os
        import shutil

        self.real = shutil.rmtree
        root = os.path.realpath(str(self.f.path()))

        def rmtree(path, *a, **k):
            if not os.path.realpath(str(path)).startswith(root + os.sep):
                raise AssertionError("removal outside the scratch directory")
            return self.real(path, *a, **k)

        shutil.rmtree = rmtree

    def __exit__(self, *a):
        if not self.h.symbolic:
            import shutil

            shutil.rmtree = self.real


def chdir(h, where):
    import os

    if h.symbolic:
        from sx import symfs

        symfs.CWD = ("cwd",) if where is None else where._abs()
    else:
        os.chdir(str(where))


def H_(name, fn, shapes, **k):
    return Harness(name, fn, shapes, strings=True, fakes=FAKES, **k)


PROPS = {
    "C39": Prop(
        "C39",
        [H_("paths", c39_paths, lambda tier: [
            {"n": 3 if tier == "quick" else 5, "which": i} for i in range(5)]
            + [{"n": n, "which": i, "ab": ab} for i in range(5)
               for n, ab in ((2, "a$ %\n"), (2, "aA*?\\\u0301"), (1, "#:[~\u00e9\u212a"))]
            + [{"n": 0, "which": i, "named": 1} for i in range(5)]),
         H_("links", c39_links, lambda tier: [
             {"n": n, "which": i} for i in range(5)
             for n in ((1, 2) if tier == "quick" else (1, 2, 3))])],
        bounds="absolute and relative path texts of up to 3 (thorough 5) characters over a, the tilde, / and "
        "dots, with parents, repeated slashes and parent references, and up to 2 over blanks, variables, patterns, escapes and unusual letters, in a directory three levels "
        "deep holding a file and a missing, empty, full (also of hidden files only) or nested directory or file of that name; "
        "paths of up to 2 (thorough 3) components through symbolic links to directories, files and "
        "nowhere, and such in a directory to be emptied; every accessor, present, absent and of the wrong kind",
        outside="longer paths through symbolic links, permissions, concurrent changes of the file system",
        assumptions=[MODEL],
        covers=["absent", "found", "refused", "deleted", "link"],
    ),
}
