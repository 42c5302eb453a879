"""A backtracking matcher for regular expressions over symbolic strings.

Patterns are parsed by the real ``re`` parser; the matcher follows its semantics (leftmost, greedy
or lazy, ordered alternatives) and asks the executor to decide each character test.  Character
classes are those of the real module, exact for characters below U+0300.
"""
import re
import types

from . import core, strs
from .core import Unsupported

_p = re._parser
_c = re._constants

def _ranges(pattern):
    out = []
    for k in range(0x300):
        if re.match(pattern, chr(k)):
            if out and out[-1][1] == k - 1:
                out[-1] = (out[-1][0], k)
            else:
                out.append((k, k))
    return tuple(out)


_CLASSES = {"CATEGORY_DIGIT": r"\d", "CATEGORY_SPACE": r"\s", "CATEGORY_WORD": r"\w"}
_CATS = {
    asc: {n: _ranges(("(?a)" if asc else "") + p) for n, p in _CLASSES.items()}
    for asc in (False, True)
}


def _category(c, name, flags):
    asc = bool(flags & re.ASCII)
    if type(c) is int and c >= 0x300:
        return bool(re.match(("(?a)" if asc else "") + _CLASSES[name], chr(c)))
    return strs.in_set(c, _CATS[asc][name])


def _in_item(c, op, av, ic, flags):
    name = str(op)
    if name == "LITERAL":
        return _lit(c, av, ic)
    if name == "RANGE":
        lo, hi = av
        r = strs.in_set(c, ((lo, hi),))
        if ic:
            for k in range(lo, min(hi, 200) + 1):
                r = core.Or(r, _lit(c, k, True))
        return r
    if name == "CATEGORY":
        n = str(av)
        if "NOT" in n:
            return core.Not(_category(c, n.replace("_NOT", ""), flags))
        return _category(c, n, flags)
    raise Unsupported("regular expression item %s" % name)


def _lit(c, k, ic):
    if ic:
        s = {ord(chr(k).lower()), ord(chr(k).upper())}
        return strs.in_set(c, tuple(s))
    return strs.in_set(c, (k,))


def _word_at(cs, i, flags):
    return 0 <= i < len(cs) and bool(_category(cs[i], "CATEGORY_WORD", flags))


class _M:
    def __init__(self, cs, flags, end):
        self.cs, self.flags, self.end = cs, flags, end
        self.ic = bool(flags & re.IGNORECASE)

    def seq(self, nodes, k, i, g):
        """Yield (position, groups) for nodes[k:] matched at i."""
        if k == len(nodes):
            yield i, g
            return
        op, av = nodes[k]
        name = str(op)
        cs = self.cs
        if name in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
            if i >= self.end:
                return
            c = cs[i]
            if name == "LITERAL":
                ok = _lit(c, av, self.ic)
            elif name == "NOT_LITERAL":
                ok = core.Not(_lit(c, av, self.ic))
            elif name == "ANY":
                ok = True if self.flags & re.DOTALL else core.Not(strs.in_set(c, (10,)))
            else:
                neg = str(av[0][0]) == "NEGATE"
                ok = core.Or(*[_in_item(c, o, a, self.ic, self.flags) for o, a in (av[1:] if neg else av)])
                if neg:
                    ok = core.Not(ok)
            if bool(ok):
                yield from self.seq(nodes, k + 1, i + 1, g)
            return
        if name == "SUBPATTERN":
            gid, add, dele, p = av
            m = _M(self.cs, (self.flags | add) & ~dele, self.end) if add or dele else self
            for j, g2 in m.seq(list(p), 0, i, g):
                if gid is not None:
                    g3 = dict(g2)
                    g3[gid] = (i, j)
                else:
                    g3 = g2
                yield from self.seq(nodes, k + 1, j, g3)
            return
        if name == "BRANCH":
            for p in av[1]:
                for j, g2 in self.seq(list(p), 0, i, g):
                    yield from self.seq(nodes, k + 1, j, g2)
            return
        if name in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, p = av
            hi = 10 ** 9 if hi is _c.MAXREPEAT else hi
            yield from self.rep(nodes, k, list(p), lo, hi, name == "MAX_REPEAT", 0, i, g)
            return
        if name == "AT":
            n = str(av)
            if n in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                ok = i == 0
                if n == "AT_BEGINNING" and self.flags & re.MULTILINE and i > 0:
                    ok = bool(strs.in_set(cs[i - 1], (10,)))
            elif n == "AT_END":
                ok = i == self.end or (
                    i == self.end - 1 and bool(strs.in_set(cs[i], (10,)))
                )
            elif n == "AT_END_STRING":
                ok = i == self.end
            elif n == "AT_BOUNDARY":
                ok = _word_at(cs, i - 1, self.flags) != _word_at(cs, i, self.flags)
            elif n == "AT_NON_BOUNDARY":
                ok = _word_at(cs, i - 1, self.flags) == _word_at(cs, i, self.flags)
            else:
                raise Unsupported(n)
            if ok:
                yield from self.seq(nodes, k + 1, i, g)
            return
        if name == "GROUPREF":
            if av not in g:
                return
            a, b = g[av]
            n = b - a
            if i + n <= self.end and bool(strs.eq_expr(cs[a:b], cs[i : i + n])):
                yield from self.seq(nodes, k + 1, i + n, g)
            return
        if name in ("ASSERT", "ASSERT_NOT"):
            d, p = av
            if d < 0:
                raise Unsupported("look-behind")
            hit = None
            for r in self.seq(list(p), 0, i, g):
                hit = r
                break
            if (hit is not None) == (name == "ASSERT"):
                yield from self.seq(nodes, k + 1, i, hit[1] if hit and name == "ASSERT" else g)
            return
        raise Unsupported("regular expression node %s" % name)

    def rep(self, nodes, k, p, lo, hi, greedy, n, i, g):
        if not greedy and n >= lo:
            yield from self.seq(nodes, k + 1, i, g)
        if n < hi:
            for j, g2 in self.seq(p, 0, i, g):
                if j == i and n >= lo:
                    continue
                yield from self.rep(nodes, k, p, lo, hi, greedy, n + 1, j, g2)
        if greedy and n >= lo:
            yield from self.seq(nodes, k + 1, i, g)


class Match:
    def __init__(self, pat, s, cs, span, groups):
        self.re, self.string, self._cs, self._span, self._g = pat, s, cs, span, groups

    def _sp(self, n):
        if strs.is_strlike(n):
            n = self.re.groupindex[strs.plain(n)]
        if n == 0:
            return self._span
        if n > self.re.groups:
            raise IndexError("no such group")
        return self._g.get(n)

    def _get(self, n):
        sp = self._sp(n)
        return None if sp is None else strs.mk(self._cs[sp[0] : sp[1]])

    def group(self, *ns):
        if not ns:
            return self._get(0)
        if len(ns) == 1:
            return self._get(ns[0])
        return tuple(self._get(n) for n in ns)

    __getitem__ = _get

    def groups(self, default=None):
        out = []
        for n in range(1, self.re.groups + 1):
            v = self._get(n)
            out.append(default if v is None else v)
        return tuple(out)

    def groupdict(self, default=None):
        return {strs.HStr(k): self._get(k) for k in self.re.groupindex}

    def start(self, n=0):
        sp = self._sp(n)
        return -1 if sp is None else sp[0]

    def end(self, n=0):
        sp = self._sp(n)
        return -1 if sp is None else sp[1]

    def span(self, n=0):
        return self._sp(n) or (-1, -1)

    @property
    def lastindex(self):
        return max(self._g) if self._g else None

    def __bool__(self):
        return True


class Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        real = re.compile(strs.plain(pattern), flags)
        self.flags = real.flags
        self.groups = real.groups
        self.groupindex = dict(real.groupindex)
        self.nodes = list(_p.parse(strs.plain(pattern), flags))

    def _try(self, s, cs, i, end, full=False):
        m = _M(cs, self.flags, end)
        for j, g in m.seq(self.nodes, 0, i, {}):
            if full and j != end:
                continue
            return Match(self, s, cs, (i, j), g)
        return None

    @staticmethod
    def _cs(s):
        cs = strs.chars_of(s)
        if cs is None:
            raise TypeError("expected string or bytes-like object, got %r" % type(s).__name__)
        return cs

    def match(self, s, pos=0, endpos=None):
        cs = self._cs(s)
        return self._try(s, cs, pos, len(cs) if endpos is None else endpos)

    def fullmatch(self, s, pos=0, endpos=None):
        cs = self._cs(s)
        return self._try(s, cs, pos, len(cs) if endpos is None else endpos, True)

    def search(self, s, pos=0, endpos=None):
        cs = self._cs(s)
        end = len(cs) if endpos is None else endpos
        for i in range(pos, end + 1):
            r = self._try(s, cs, i, end)
            if r is not None:
                return r
        return None

    def finditer(self, s, pos=0, endpos=None):
        cs = self._cs(s)
        end = len(cs) if endpos is None else endpos
        i, empty_ok = pos, True
        while i <= end:
            r = None
            for k in range(i, end + 1):
                r = self._try(s, cs, k, end)
                if r is not None and r.end() == r.start() == i and not empty_ok:
                    r = None
                    continue
                if r is not None:
                    break
            if r is None:
                return
            yield r
            empty_ok = r.end() != i or r.start() != r.end()
            if r.end() == r.start():
                i = r.end()
                empty_ok = False
            else:
                i = r.end()
                empty_ok = True

    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                v = m.group(1)
                out.append(strs.HStr("") if v is None else v)
            else:
                out.append(m.groups(strs.HStr("")))
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        cs = self._cs(s)
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.append(strs.mk(cs[last : m.start()]))
            if callable(repl):
                out.append(repl(m))
            else:
                out.append(_expand(repl, m))
            last = m.end()
            n += 1
        out.append(strs.mk(cs[last:]))
        return strs.join("", out), n

    def split(self, s, maxsplit=0):
        cs = self._cs(s)
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(strs.mk(cs[last : m.start()]))
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(strs.mk(cs[last:]))
        return out


def _expand(repl, m):
    cs = strs.chars_of(repl)
    for c in cs:
        if type(c) is not int:
            # a symbolic replacement template: backslashes would be interpreted
            if bool(strs.in_set(c, (92,))):
                raise Unsupported("symbolic replacement template")
    if all(c != 92 for c in cs if type(c) is int):
        return repl
    out = []
    t = _p.parse_template(strs.plain(repl), re.compile(strs.plain(m.re.pattern), m.re.flags))
    for p in t:
        if isinstance(p, int):
            v = m.group(p)
            out.append("" if v is None else v)
        elif p is not None:
            out.append(p)
    return strs.join("", out)


def module():
    def compile(p, flags=0):
        return p if type(p) is Pattern else Pattern(p, flags)

    class M(types.ModuleType):
        def __getattr__(self, n):
            return getattr(re, n)

    m = M("re")
    m.compile = compile
    for name in ("match", "fullmatch", "search", "findall", "finditer", "split"):
        def f(p, s, *a, _n=name, flags=0, **k):
            return getattr(compile(p, flags), _n)(s, *a, **k)

        setattr(m, name, f)
    m.sub = lambda p, r, s, count=0, flags=0: compile(p, flags).sub(r, s, count)
    m.subn = lambda p, r, s, count=0, flags=0: compile(p, flags).subn(r, s, count)
    m.Pattern = Pattern
    m.Match = Match
    return m
