"""Symbolic strings: concrete length on each path, symbolic code points.

``HStr``   a real ``str`` whose hash agrees with that of symbolic strings and whose methods accept
           symbolic arguments (string constants of the instrumented code become HStr).
``SymStr`` a tuple of code points, each an int or a Z3 integer term.
``Rope``   a concatenation of concrete strings and slices of an opaque text with *symbolic*
           offsets and unbounded length.
``OpaqueStr`` the text of a formatted symbolic number (fit for messages; comparing it is
           unsupported).
"""
import builtins

import z3

from . import core
from .core import SymBase, SymBool, SymInt, SymReal, Unsupported, mkbool, tid

_str = builtins.str
_WS = tuple(k for k in range(0x3100) if chr(k).isspace())


def chars_of(x):
    """The code points of a string-like value, or None."""
    t = type(x)
    if t is SymStr:
        return x.chars
    if t is OpaqueStr:
        raise Unsupported("looking into a formatted symbolic number")
    if issubclass(t, _str):
        return tuple(map(ord, _str.__str__(x)))
    return None


def is_strlike(x):
    t = type(x)
    return t is SymStr or t is Rope or issubclass(t, _str)


def plain(x):
    return _str.__str__(x) if type(x) is not _str else x


def concrete(x):
    """A plain string, forking over the possible characters."""
    if type(x) is SymStr:
        return "".join(chr(c if type(c) is int else core.concretize(c)) for c in x.chars)
    if type(x) in (Rope, OpaqueStr):
        raise core.Unsupported("concrete text of %s" % type(x).__name__)
    return plain(x)


def mk(chars):
    for c in chars:
        if type(c) is not int:
            return SymStr(tuple(chars))
    return HStr("".join(map(chr, chars)))


def ceq(a, b):
    """Code point equality as bool/z3."""
    if type(a) is int and type(b) is int:
        return a == b
    return a == b


def eq_expr(a, b):
    if len(a) != len(b):
        return False
    conj = []
    for x, y in zip(a, b):
        if type(x) is int and type(y) is int:
            if x != y:
                return False
        elif type(x) is int or type(y) is int:
            z, k = (y, x) if type(x) is int else (x, y)
            d = DOM.get(tid(z))
            if d is not None and k not in d[1]:
                return False
            conj.append(core.eqz(z, k))
        else:
            if x is y or tid(x) == tid(y):
                continue
            dx, dy = DOM.get(tid(x)), DOM.get(tid(y))
            if dx and dy and not dx[1] & dy[1]:
                return False
            conj.append(core.eqz(x, y))
    if not conj:
        return True
    return core.And(*conj) if len(conj) > 1 else conj[0]


def branch(b):
    return bool(b)


# code points whose values are limited by their declaration: term id -> (term, codes)
DOM = {}


def in_set(c, codes):
    """bool/SymBool: code point c is one of ``codes`` (iterable of ints or (lo, hi) pairs)."""
    if type(c) is not int:
        d = DOM.get(tid(c))
        if d is not None:
            hit = [
                k for k in d[1]
                if any((x[0] <= k <= x[1]) if type(x) is tuple else k == x for x in codes)
            ]
            if not hit:
                return False
            if len(hit) == len(d[1]):
                return True
            if len(hit) == 1:
                return core.eqz(c, hit[0])
    if type(c) is int:
        for k in codes:
            if (k[0] <= c <= k[1]) if type(k) is tuple else c == k:
                return True
        return False
    codes = tuple(codes)
    key = (in_set, tid(c), codes)
    r = core._CMP.get(key)
    if r is not None:
        return r[1]
    d = []
    for k in codes:
        if type(k) is tuple:
            d.append(z3.And(c >= k[0], c <= k[1]))
        else:
            d.append(c == k)
    r = mkbool(z3.Or(*d)) if d else False
    core._CMP[key] = (c, r)
    return r


def lt_expr(a, b, i=0):
    """Lexicographic a < b (code point order)."""
    out = z3.BoolVal(len(a) < len(b))
    for x, y in reversed(list(zip(a, b))):
        x = z3.IntVal(x) if type(x) is int else x
        y = z3.IntVal(y) if type(y) is int else y
        out = z3.Or(x < y, z3.And(x == y, out))
    return mkbool(out)


class _Ops:
    """String methods over code point tuples; shared by SymStr and (for symbolic args) HStr."""

    __slots__ = ()

    def _find(self, sub, start=0, end=None):
        cs = chars_of(self)
        ss = chars_of(sub)
        n = len(cs) if end is None else min(end, len(cs))
        for i in range(start, n - len(ss) + 1):
            if branch(eq_expr(cs[i : i + len(ss)], ss)):
                return i
        return -1


def _bounds(n, start, end):
    s = slice(
        None if start is None else start.__index__(), None if end is None else end.__index__()
    )
    a, b, _ = s.indices(n)
    return a, b


def s_split(x, sep=None, maxsplit=-1):
    cs = chars_of(x)
    out, cur, i = [], [], 0
    if sep is None:
        tok = []
        pieces = 0
        while i < len(cs):
            if branch(in_set(cs[i], _WS)):
                if tok:
                    out.append(mk(tok))
                    tok = []
                i += 1
            else:
                if not tok and maxsplit >= 0 and len(out) >= maxsplit:
                    rest = list(cs[i:])
                    while rest and branch(in_set(rest[-1], _WS)):
                        rest.pop()
                    out.append(mk(rest))
                    return out
                tok.append(cs[i])
                i += 1
        if tok:
            out.append(mk(tok))
        return out
    ss = chars_of(sep)
    if not ss:
        raise ValueError("empty separator")
    while i < len(cs):
        if (
            (maxsplit < 0 or len(out) < maxsplit)
            and i + len(ss) <= len(cs)
            and branch(eq_expr(cs[i : i + len(ss)], ss))
        ):
            out.append(mk(cur))
            cur = []
            i += len(ss)
        else:
            cur.append(cs[i])
            i += 1
    out.append(mk(cur))
    return out


def s_rsplit(x, sep=None, maxsplit=-1):
    if sep is None:
        if maxsplit < 0:
            return s_split(x)
        return [mk(chars_of(t)[::-1]) for t in s_split(mk(chars_of(x)[::-1]), None, maxsplit)][
            ::-1
        ]
    r = s_split(mk(chars_of(x)[::-1]), mk(chars_of(sep)[::-1]), maxsplit)
    return [mk(chars_of(t)[::-1]) for t in r][::-1]


def s_replace(x, old, new, count=-1):
    oc = chars_of(old)
    cs = chars_of(x)
    nc = chars_of(new)
    out, i, n = [], 0, 0
    if not oc:
        for c in cs:
            if count < 0 or n < count:
                out.extend(nc)
                n += 1
            out.append(c)
        if count < 0 or n < count:
            out.extend(nc)
        return mk(out)
    while i < len(cs):
        if (
            (count < 0 or n < count)
            and i + len(oc) <= len(cs)
            and branch(eq_expr(cs[i : i + len(oc)], oc))
        ):
            out.extend(nc)
            i += len(oc)
            n += 1
        else:
            out.append(cs[i])
            i += 1
    return mk(out)


def _affix(x, pre, at_end, start=None, end=None):
    cs = chars_of(x)
    if start is not None or end is not None:
        a, b = _bounds(len(cs), start, end)
        cs = cs[a:b]
    if type(pre) is tuple:
        return core.Or(*[_affix(mk(cs), p, at_end) for p in pre])
    ps = chars_of(pre)
    if ps is None:
        raise TypeError("startswith first arg must be str or a tuple of str")
    if len(ps) > len(cs):
        return False
    if not ps:
        return True
    return eq_expr(cs[-len(ps) :] if at_end else cs[: len(ps)], ps)


def s_strip(x, chars=None, left=True, right=True):
    cs = list(chars_of(x))
    codes = _WS if chars is None else chars_of(chars)
    if any(type(c) is not int for c in codes):
        test = lambda c: core.Or(*[mkbool(c == k) if not (type(c) is int and type(k) is int) else c == k for k in codes])
    else:
        test = lambda c: in_set(c, codes)
    a, b = 0, len(cs)
    if left:
        while a < b and branch(test(cs[a])):
            a += 1
    if right:
        while b > a and branch(test(cs[b - 1])):
            b -= 1
    return mk(cs[a:b])


def _map_chars(x, f, lo, hi, delta):
    """Apply a character-wise str method to each character (exact where the possible characters
    are known, ASCII letters otherwise)."""
    cs = chars_of(x)
    out = []
    for c in cs:
        if type(c) is int:
            out.extend(map(ord, f(chr(c))))
            continue
        d = DOM.get(tid(c))
        if d is None:
            out.append(z3.simplify(z3.If(z3.And(c >= lo, c <= hi), c + delta, c)))
            continue
        m = {k: f(chr(k)) for k in d[1]}
        wide = [k for k in m if len(m[k]) != 1]
        if wide and branch(in_set(c, wide)):
            out.extend(map(ord, f(chr(core.concretize(c, 200)))))
            continue
        m = {k: ord(v) for k, v in m.items() if len(v) == 1}
        groups = {}
        for k, v in sorted(m.items()):
            if k != v:
                groups.setdefault(v - k, []).append(k)
        if not groups:
            out.append(c)
            continue
        r = c
        for dl, ks in groups.items():
            r = z3.If(z3.Or(*[c == k for k in ks]), c + dl, r)
        r = z3.simplify(r)
        if not z3.is_int_value(r):
            DOM[tid(r)] = (r, frozenset(m.values()))
            out.append(r)
        else:
            out.append(r.as_long())
    return mk(out)


def s_lower(x):
    cs = chars_of(x)
    if all(type(c) is int for c in cs):
        return HStr(_str.lower(plain(x) if type(x) is not SymStr else concrete(x)))
    if any(c == 0x3A3 if type(c) is int else _may(c, 0x3A3) for c in cs):
        return HStr(concrete(x).lower())  # final sigma depends on its surroundings
    return _map_chars(x, _str.lower, 65, 90, 32)


def s_casefold(x):
    return _map_chars(x, _str.casefold, 65, 90, 32)


def s_upper(x):
    return _map_chars(x, _str.upper, 97, 122, -32)


def _may(c, k):
    d = DOM.get(tid(c))
    return d is not None and k in d[1]


def join(sep, items):
    items = list(items)
    for i, it in enumerate(items):
        if not is_strlike(it):
            raise TypeError(
                "sequence item %d: expected str instance, %s found" % (i, type(it).__name__)
            )
    if any(type(i) is Rope for i in items) or type(sep) is Rope:
        out = Rope([])
        for i, it in enumerate(items):
            if i:
                out = out + sep
            out = out + it
        return out
    if any(type(i) is OpaqueStr for i in items) or type(sep) is OpaqueStr:
        return OpaqueStr(_str.join(plain(sep), [raw(i) for i in items]))
    out = []
    sc = chars_of(sep)
    for i, it in enumerate(items):
        if i:
            out.extend(sc)
        out.extend(chars_of(it))
    return mk(out)


def raw(x):
    """Text for messages only."""
    if type(x) is SymStr:
        return "".join(chr(c) if type(c) is int else "?" for c in x.chars)
    if type(x) is Rope:
        return repr(x)
    return _str.__str__(x)


def concat(a, b):
    if not is_strlike(a) or not is_strlike(b):
        return NotImplemented
    if type(a) is Rope or type(b) is Rope:
        return Rope.cat(a, b)
    if type(a) is OpaqueStr or type(b) is OpaqueStr:
        return OpaqueStr(raw(a) + raw(b))
    return mk(chars_of(a) + chars_of(b))


def s_getitem(x, i):
    cs = chars_of(x)
    if isinstance(i, slice):
        return mk(cs[slice(*(None if v is None else v.__index__() for v in (i.start, i.stop, i.step)))])
    return mk((cs[i.__index__()],))


def s_count(x, sub):
    cs, ss = chars_of(x), chars_of(sub)
    if not ss:
        return len(cs) + 1
    n = i = 0
    while i + len(ss) <= len(cs):
        if branch(eq_expr(cs[i : i + len(ss)], ss)):
            n += 1
            i += len(ss)
        else:
            i += 1
    return n


_DIG = ((48, 57),)
_ALPHA = ((65, 90), (97, 122))
_CLS = {
    "isdigit": _DIG, "isdecimal": _DIG, "isnumeric": _DIG, "isalpha": _ALPHA,
    "isalnum": _ALPHA + _DIG, "isspace": _WS, "isupper": ((65, 90),), "islower": ((97, 122),),
    "isascii": ((0, 127),), "isprintable": ((32, 126),),
}


def _is(c, cls):
    """bool/SymBool: the one-character string c is of the class (exact where the possible
    characters are known)."""
    if type(c) is int:
        return getattr(chr(c), cls)()
    d = DOM.get(tid(c))
    if d is None:
        return in_set(c, _CLS[cls])
    return in_set(c, [k for k in d[1] if getattr(chr(k), cls)()])


def _all_in(x, cls):
    cs = chars_of(x)
    if not cs:
        return cls in ("isascii", "isprintable")
    return core.And(*[_is(c, cls) for c in cs])


class _StrMixin:
    """Methods shared by SymStr and HStr."""

    __slots__ = ()

    def __add__(self, o):
        return concat(self, o)

    def __radd__(self, o):
        return concat(o, self)

    def __mul__(self, n):
        return mk(chars_of(self) * n.__index__())

    __rmul__ = __mul__

    def __getitem__(self, i):
        return s_getitem(self, i)

    def __iter__(self):
        for c in chars_of(self):
            yield mk((c,))

    def __hash__(self):
        return 0

    def __contains__(self, sub):
        if not is_strlike(sub):
            raise TypeError(
                "'in <string>' requires string as left operand, not " + type(sub).__name__
            )
        return bool(has_sub(self, sub))

    def __lt__(self, o):
        oc = chars_of(o)
        return NotImplemented if oc is None else lt_expr(chars_of(self), oc)

    def __gt__(self, o):
        oc = chars_of(o)
        return NotImplemented if oc is None else lt_expr(oc, chars_of(self))

    def __le__(self, o):
        oc = chars_of(o)
        return NotImplemented if oc is None else core.Not(lt_expr(oc, chars_of(self)))

    def __ge__(self, o):
        oc = chars_of(o)
        return NotImplemented if oc is None else core.Not(lt_expr(chars_of(self), oc))

    def __mod__(self, args):
        return mod(self, args)

    def split(self, sep=None, maxsplit=-1):
        return s_split(self, sep, maxsplit)

    def rsplit(self, sep=None, maxsplit=-1):
        return s_rsplit(self, sep, maxsplit)

    def splitlines(self, keepends=False):
        cs = chars_of(self)
        out, cur = [], []
        i = 0
        while i < len(cs):
            c = cs[i]
            if branch(in_set(c, (10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029))):
                eol = [c]
                if (
                    i + 1 < len(cs)
                    and branch(in_set(c, (13,)))
                    and branch(in_set(cs[i + 1], (10,)))
                ):
                    eol.append(cs[i + 1])
                    i += 1
                out.append(mk(cur + (eol if keepends else [])))
                cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(mk(cur))
        return out

    def join(self, items):
        return join(self, items)

    def replace(self, old, new, count=-1):
        return s_replace(self, old, new, count)

    def startswith(self, p, start=None, end=None):
        return _affix(self, p, False, start, end)

    def endswith(self, p, start=None, end=None):
        return _affix(self, p, True, start, end)

    def removeprefix(self, p):
        return self[len(chars_of(p)) :] if self.startswith(p) else self

    def removesuffix(self, p):
        n = len(chars_of(p))
        return self[: len(chars_of(self)) - n] if n and self.endswith(p) else self

    def strip(self, chars=None):
        return s_strip(self, chars)

    def lstrip(self, chars=None):
        return s_strip(self, chars, right=False)

    def rstrip(self, chars=None):
        return s_strip(self, chars, left=False)

    def lower(self):
        return s_lower(self)

    def casefold(self):
        return s_casefold(self)

    def upper(self):
        return s_upper(self)

    def find(self, sub, start=None, end=None):
        a, b = _bounds(len(chars_of(self)), start, end)
        return _Ops._find(self, sub, a, b)

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rfind(self, sub, start=None, end=None):
        cs, ss = chars_of(self), chars_of(sub)
        a, b = _bounds(len(cs), start, end)
        for i in range(b - len(ss), a - 1, -1):
            if branch(eq_expr(cs[i : i + len(ss)], ss)):
                return i
        return -1

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def partition(self, sep):
        cs, ss = chars_of(self), chars_of(sep)
        i = _Ops._find(self, sep, 0, len(cs))
        if i < 0:
            return (self, HStr(""), HStr(""))
        return (mk(cs[:i]), mk(ss), mk(cs[i + len(ss) :]))

    def rpartition(self, sep):
        cs, ss = chars_of(self), chars_of(sep)
        i = self.rfind(sep)
        if i < 0:
            return (HStr(""), HStr(""), self)
        return (mk(cs[:i]), mk(ss), mk(cs[i + len(ss) :]))

    def count(self, sub, start=None, end=None):
        a, b = _bounds(len(chars_of(self)), start, end)
        return s_count(mk(chars_of(self)[a:b]), sub)

    def isdigit(self):
        return _all_in(self, "isdigit")

    def isdecimal(self):
        return _all_in(self, "isdecimal")

    def isnumeric(self):
        return _all_in(self, "isnumeric")

    def isalpha(self):
        return _all_in(self, "isalpha")

    def isalnum(self):
        return _all_in(self, "isalnum")

    def isspace(self):
        return _all_in(self, "isspace")

    def isascii(self):
        return _all_in(self, "isascii")

    def isprintable(self):
        return _all_in(self, "isprintable")

    def isupper(self):
        cs = chars_of(self)
        return core.And(
            core.Or(*[_is(c, "isupper") for c in cs]),
            *[core.Not(_is(c, "islower")) for c in cs]
        )

    def islower(self):
        cs = chars_of(self)
        return core.And(
            core.Or(*[_is(c, "islower") for c in cs]),
            *[core.Not(_is(c, "isupper")) for c in cs]
        )

    def capitalize(self):
        cs = chars_of(self)
        return concat(HStr(concrete(mk(cs[:1])).title()), s_lower(mk(cs[1:])))

    def swapcase(self):
        return _map_chars(self, _str.swapcase, 0, -1, 0)

    def ljust(self, n, fill=" "):
        return mk(chars_of(self) + chars_of(fill) * max(0, n - len(chars_of(self))))

    def rjust(self, n, fill=" "):
        return mk(chars_of(fill) * max(0, n - len(chars_of(self))) + chars_of(self))

    def encode(self, encoding="utf-8", errors="strict"):
        return encoded(self, encoding, errors)

    def format(self, *args, **kw):
        return s_format(self, args, kw)

    def translate(self, table):
        return HStr(concrete(self).translate(table))

    def zfill(self, n):
        cs = chars_of(self)
        k = 1 if cs and branch(in_set(cs[0], (43, 45))) else 0
        return mk(cs[:k] + (48,) * max(0, n - len(cs)) + cs[k:])

    def title(self):
        return HStr(concrete(self).title())

    def __reduce__(self):
        raise Unsupported("pickling")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class HStr(_StrMixin, _str):
    def __new__(cls, s=""):
        return _str.__new__(cls, s)

    __hash__ = _StrMixin.__hash__

    def __eq__(self, o):
        if type(o) is SymStr:
            return eq_expr(chars_of(self), o.chars)
        return _str.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.Not(r)

    def __str__(self):
        return self

    def __len__(self):
        return _str.__len__(self)

    def __reduce__(self):
        return (HStr, (_str.__str__(self),))

    def title(self):
        return HStr(_str.title(plain(self)))

    def encode(self, encoding="utf-8", errors="strict"):
        return encoded(self, encoding, errors)

    def __format__(self, spec):
        return format(plain(self), spec)


class SymStr(_StrMixin):
    __slots__ = ("chars",)

    def __init__(self, chars):
        self.chars = tuple(chars)

    @property
    def __class__(self):
        return _str

    __hash__ = _StrMixin.__hash__

    def __eq__(self, o):
        oc = chars_of(o)
        if oc is None:
            return NotImplemented
        return eq_expr(self.chars, oc)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.Not(r)

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __str__(self):
        raise Unsupported("str() of a symbolic string by C code")

    def __repr__(self):
        return "'%s'" % raw(self)

    def __format__(self, spec):
        raise Unsupported("format() of a symbolic string by C code")

    def __fspath__(self):
        raise Unsupported("symbolic string used as a path")

    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(_str, n):
            raise AttributeError("'str' object has no attribute %r" % n)
        return getattr(HStr(concrete(self)), n)


class OpaqueStr(_str):
    def __eq__(self, o):
        raise Unsupported("comparing a formatted symbolic number")

    __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__

    def __hash__(self):
        raise Unsupported("hashing a formatted symbolic number")

    def __add__(self, o):
        return concat(self, o)

    def __radd__(self, o):
        return concat(o, self)


def _strobj(s):
    return s if isinstance(s, _StrMixin) else HStr(s)


def codec(e):
    e = plain(e or "utf-8").lower().replace("_", "-")
    if e in ("utf-8", "utf8"):
        return "utf-8"
    if e in ("latin-1", "latin1", "iso-8859-1", "iso8859-1", "l1"):
        return "latin-1"
    if e in ("ascii", "us-ascii"):
        return "ascii"
    if e in ("utf-8-sig", "utf8-sig"):
        return "utf-8-sig"
    if e in ("utf-16", "utf-16-le", "utf-16-be", "utf-32", "cp1252", "windows-1252"):
        return e
    raise Unsupported("codec %s" % e)


_BOM = 0xFEFF
_SURROGATES = ((0xD800, 0xDFFF),)


class _Raw(Exception):
    """Bytes that are not the encoding of a text."""


def encoded(s, encoding="utf-8", errors="strict"):
    """What ``encode`` gives for a (possibly symbolic) string."""
    e = codec(encoding)
    if e not in ("utf-8", "latin-1", "ascii", "utf-8-sig"):
        return concrete(s).encode(e, plain(errors))
    try:
        return Encoded(s, encoding, errors)
    except _Raw as r:
        return r.args[0]


def _fit(s, encoding, errors):
    """The text whose strict encoding is that of ``s`` under the error handler."""
    errors = plain(errors or "strict")
    if type(s) is HStr or type(s) is _str:
        try:
            plain(s).encode(encoding)
            return s
        except UnicodeEncodeError:
            pass
    top = {"utf-8": 0x10FFFF, "ascii": 0x7F}.get(encoding, 0xFF)
    out = []
    for i, c in enumerate(chars_of(s)):
        if encoding == "utf-8":
            bad = branch(in_set(c, _SURROGATES))
        else:
            bad = not branch(in_set(c, ((0, top),)))
        if not bad:
            out.append(c)
        elif errors == "ignore":
            pass
        elif errors == "replace":
            out.append(63)
        elif errors in ("strict", "surrogateescape", "surrogatepass"):
            if errors != "strict" and branch(in_set(c, _SURROGATES)):
                raise _Raw(concrete(s).encode(encoding, errors))
            raise UnicodeEncodeError(encoding, "x", 0, 1, "cannot encode character")
        else:
            out.extend(chr(c if type(c) is int else core.concretize(c, 200))
                       .encode(encoding, errors).decode(encoding))
    return mk([ord(c) if type(c) is str else c for c in out])


class Encoded:
    """The bytes of a (possibly symbolic) string, kept as the string (UTF-8 is injective)."""

    def __init__(self, s, encoding="utf-8", errors="strict"):
        self.encoding = codec(encoding)
        if self.encoding == "utf-8-sig":
            self.encoding = "utf-8"
            s = mk((_BOM,) + chars_of(s))
        self.s = s if type(s).__name__ == "YamlText" else _fit(s, self.encoding, errors)
        if self.encoding == "ascii":
            self.encoding = "utf-8"

    @property
    def __class__(self):
        return bytes

    def bytes_(self):
        """The concrete bytes, forking over the possible characters."""
        return concrete(self.s).encode(self.encoding)

    def is_ascii(self):
        if type(self.s) is HStr or type(self.s) is _str:
            return plain(self.s).isascii()
        return all(branch(in_set(c, ((0, 0x7F),))) for c in chars_of(self.s))

    def decode(self, encoding="utf-8", errors="strict"):
        e = codec(encoding)
        if e == "utf-8-sig":
            cs = chars_of(self.decode("utf-8", errors))
            return mk(cs[1:] if cs and branch(in_set(cs[0], (_BOM,))) else cs)
        if e == self.encoding or (e in ("utf-8", "ascii", "latin-1") and self.is_ascii()):
            return self.s
        return HStr(self.bytes_().decode(e, plain(errors)))

    def __eq__(self, o):
        if type(o) is Encoded:
            if o.encoding == self.encoding:
                return self.s == o.s
            if len(self) != len(o):
                return False
            if self.is_ascii() and o.is_ascii():
                return self.s == o.s
            return self.bytes_() == o.bytes_()
        if isinstance(o, bytes):
            try:
                return self.s == HStr(o.decode(self.encoding))
            except UnicodeDecodeError:
                return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.Not(r)

    def __hash__(self):
        return 0

    def __len__(self):
        n = 0
        if type(self.s) is HStr or type(self.s) is _str:
            return len(plain(self.s).encode(self.encoding))
        if self.encoding != "utf-8":
            return len(chars_of(self.s))
        for c in chars_of(self.s):
            for k, (lo, hi) in enumerate(((0, 0x7F), (0x80, 0x7FF), (0x800, 0xFFFF))):
                if branch(in_set(c, ((lo, hi),))):
                    n += k + 1
                    break
            else:
                n += 4
        return n

    def __bool__(self):
        return len(chars_of(self.s)) > 0

    def _ascii(self):
        if not self.is_ascii():
            raise Unsupported("offsets in non-ASCII bytes")
        return self.s

    def __getitem__(self, i):
        if not self.is_ascii():
            return self.bytes_()[i]
        t = s_getitem(self._ascii(), i)
        if isinstance(i, slice):
            return Encoded(t)
        c = chars_of(t)[0]
        return c if type(c) is int else SymInt(c)

    def __iter__(self):
        if not self.is_ascii():
            yield from self.bytes_()
            return
        for c in chars_of(self._ascii()):
            yield c if type(c) is int else SymInt(c)

    def __add__(self, o):
        if type(o) is not Encoded:
            o = Encoded(HStr(o.decode("utf-8")))
        if o.encoding != self.encoding and not (self.is_ascii() and o.is_ascii()):
            raise Unsupported("joining bytes of different codecs")
        return Encoded(concat(self.s, o.s), self.encoding)

    def __radd__(self, o):
        return Encoded(HStr(o.decode("utf-8"))) + self

    def join(self, items):
        from . import symio

        out = []
        for i, it in enumerate(items):
            if i:
                out.append(self)
            out.append(it)
        return symio.bcat(out)

    def __getattr__(self, n):
        if n not in ("strip", "rstrip", "lstrip", "split", "rsplit", "startswith", "endswith",
                     "find", "rfind", "replace", "count", "splitlines", "index", "partition"):
            raise AttributeError(n)

        def arg(a):
            if type(a) is Encoded:
                return a._ascii()
            return HStr(a.decode("ascii")) if isinstance(a, bytes) else a

        def call(*args):
            if not self.is_ascii():
                return getattr(self.bytes_(), n)(
                    *[a.bytes_() if type(a) is Encoded else a for a in args])
            if n in ("strip", "rstrip", "lstrip") and not args:
                args = (b" \t\n\r\x0b\x0c",)
            r = getattr(_strobj(self._ascii()), n)(*map(arg, args))
            if is_strlike(r):
                return Encoded(r)
            if isinstance(r, (list, tuple)):
                return type(r)(Encoded(x) for x in r)
            return r

        return call


def literal_bytes(b):
    """A bytes literal whose methods take the bytes of symbolic text."""
    try:
        return Encoded(HStr(b.decode("utf-8")))
    except UnicodeDecodeError:
        return b


def to_bytes(*args, **kw):
    if args and (is_strlike(args[0]) or type(args[0]) is Encoded):
        if type(args[0]) is Encoded:
            return args[0]
        if len(args) == 1 and not kw:
            raise TypeError("string argument without an encoding")
        return encoded(*args, **kw)
    return bytes(*args, **kw)


class Rope:
    """Concatenation of concrete strings and slices ("text", lo, hi) of one opaque text."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = list(parts)

    @classmethod
    def text(cls, n):
        """The opaque text itself: length n (symbolic)."""
        return cls([("slice", 0, n)])

    @property
    def __class__(self):
        return _str

    @staticmethod
    def cat(a, b):
        def parts(x):
            return x.parts if type(x) is Rope else [raw(x)]

        return Rope([p for p in parts(a) + parts(b) if p != ""])

    def length(self):
        n = 0
        for p in self.parts:
            if isinstance(p, tuple):
                n = n + (p[2] - p[1])
            else:
                n = n + len(p)
        return n

    def __len__(self):
        n = self.length()
        return n if type(n) is int else n.__index__()

    def __bool__(self):
        return bool(self.length() != 0)

    def __add__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return Rope.cat(self, o)

    def __radd__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return Rope.cat(o, self)

    def __getitem__(self, i):
        if not isinstance(i, slice) or i.step not in (None, 1):
            raise Unsupported("indexing opaque text")
        if len(self.parts) != 1 or not isinstance(self.parts[0], tuple):
            raise Unsupported("slicing a composed text")
        _, lo, hi = self.parts[0]
        n = hi - lo
        a = 0 if i.start is None else i.start
        b = n if i.stop is None else i.stop
        # Python slice clamping, without forking
        a = core.Ite(a < 0, core.Ite(a + n < 0, 0, a + n), core.Ite(a > n, n, a))
        b = core.Ite(b < 0, core.Ite(b + n < 0, 0, b + n), core.Ite(b > n, n, b))
        b = core.Ite(b < a, a, b)
        return Rope([("slice", lo + a, lo + b)])

    def __eq__(self, o):
        if type(o) is Rope and o is self:
            return True
        if isinstance(o, _str) and type(o) is not Rope and len(o) == 0:
            return mkbool(core.zint(self.length()) == 0)
        raise Unsupported("comparing opaque text")

    def __ne__(self, o):
        return core.Not(self.__eq__(o))

    def __hash__(self):
        return 0

    def join(self, items):
        return join(self, items)

    def __repr__(self):
        return "Rope(%r)" % (self.parts,)

    def __str__(self):
        raise Unsupported("str() of opaque text by C code")


# ------------------------------------------------------------------ helpers for transformed code
def has_sub(hay, needle):
    hc, nc = chars_of(hay), chars_of(needle)
    if not nc:
        return True
    return core.Or(
        *[eq_expr(hc[i : i + len(nc)], nc) for i in range(len(hc) - len(nc) + 1)]
    )


def contains(x, c):
    if type(c) is SymStr or (issubclass(type(c), _str) and type(x) is SymStr):
        if not is_strlike(x):
            raise TypeError(
                "'in <string>' requires string as left operand, not " + type(x).__name__
            )
        return has_sub(c, x)
    if type(x) is SymStr and type(c) is dict and any(type(k) is _str for k in c):
        return core.Or(*[k == x for k in c if is_strlike(k)])
    return x in c


def to_str(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        if is_strlike(x):
            return x
        if isinstance(x, SymBase):
            if type(x) is SymBool:
                return HStr("True" if x else "False")
            return OpaqueStr(repr(x))
        s = type(x).__str__(x)
        return s
    if args and type(args[0]) is Encoded:
        return args[0].decode(*args[1:], **kw)
    if args and type(args[0]) is bytes:
        return HStr(_str(*map(raw, args), **kw))
    return _str(*args, **kw)


class _StrNamespace:
    """``str`` as a namespace: unbound methods that also take symbolic strings."""

    def __getattr__(self, n):
        if n.startswith("__") or n == "maketrans":
            return getattr(_str, n)
        if not hasattr(_str, n):
            raise AttributeError("type object 'str' has no attribute %r" % n)

        def method(*args, **kw):
            if not args:
                raise TypeError("unbound method str.%s() needs an argument" % n)
            if not is_strlike(args[0]):
                raise TypeError(
                    "descriptor %r for 'str' objects doesn't apply to a %r object"
                    % (n, type(args[0]).__name__)
                )
            x = args[0]
            return getattr(HStr(x) if type(x) is _str else x, n)(*args[1:], **kw)

        return method


STR = _StrNamespace()


class SETS:
    reverse = False


class _Like(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.__bases__[0])


def _other_iter(base):
    def __iter__(self):
        return reversed(list(base.__iter__(self)))

    return __iter__


class OtherSet(set, metaclass=_Like):
    """A set as another process may order it."""

    __iter__ = _other_iter(set)


class OtherFrozenSet(frozenset, metaclass=_Like):
    __iter__ = _other_iter(frozenset)


def mk_set(*args):
    return (OtherSet if SETS.reverse else set)(*args)


def mk_frozenset(*args):
    return (OtherFrozenSet if SETS.reverse else frozenset)(*args)


def type_of(*args, **kw):
    """``type``: symbolic values are of the type they stand for."""
    t = type(*args, **kw)
    if t is OtherSet or t is OtherFrozenSet:
        return t.__bases__[0]
    if len(args) == 1 and issubclass(t, (SymBase, _StrMixin, OpaqueStr, Encoded, Rope)):
        return args[0].__class__ if not issubclass(t, _str) else _str
    return t


def to_bool(*args):
    if len(args) == 1 and type(args[0]) is SymBool:
        return args[0]
    return bool(*args)


def to_int(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return core.mkint(core.zint(x))
        if type(x) is SymReal:
            return x.__trunc__()
        if type(x) is SymStr:
            return parse_int(x)
        if type(x) is HStr:
            return int(plain(x))
    if args and type(args[0]) is SymStr:
        raise Unsupported("int() with a base")
    return int(*args, **kw)


def parse_int(x):
    cs = list(chars_of(s_strip(x)))
    sign = 1
    if cs and branch(in_set(cs[0], (43, 45))):
        if branch(in_set(cs[0], (45,))):
            sign = -1
        cs = cs[1:]
    if not cs:
        raise ValueError("invalid literal for int() with base 10")
    val = z3.IntVal(0)
    prev_us = True
    for c in cs:
        if branch(in_set(c, _DIG)):
            prev_us = False
            val = val * 10 + ((c - 48) if type(c) is not int else z3.IntVal(c - 48))
        elif branch(_is(c, "isdecimal")):
            prev_us = False
            val = val * 10 + int(chr(c if type(c) is int else core.concretize(c, 200)))
        elif branch(in_set(c, (95,))) and not prev_us:
            prev_us = True
        else:
            raise ValueError("invalid literal for int() with base 10")
    if prev_us:
        raise ValueError("invalid literal for int() with base 10")
    return core.mkint(z3.simplify(val * sign))


def to_float(*args):
    if len(args) == 1:
        x = args[0]
        if type(x) is SymReal:
            return x
        if type(x) in (SymInt, SymBool):
            return SymReal(z3.simplify(core.as_double(core.zint(x))))
        if type(x) is SymStr:
            raise Unsupported("float() of a symbolic string")
        if type(x) is HStr:
            return float(plain(x))
    return float(*args)


def _conv(v, conv):
    if conv == 114:
        return s_repr(v)
    if conv == 97:
        return ascii(v)
    if is_strlike(v):
        return v
    return to_str(v)


def s_repr(v):
    if type(v) is SymStr:
        return OpaqueStr(repr(v))
    return repr(v)


def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if spec is None or (is_strlike(spec) and not len(spec)):
                out.append(_conv(v, conv))
            else:
                if conv != -1:
                    v = _conv(v, conv)
                if isinstance(v, SymBase) or type(v) is SymStr:
                    out.append(OpaqueStr(raw(v) if type(v) is SymStr else repr(v)))
                else:
                    out.append(format(plain(v) if isinstance(v, _str) else v, plain(spec)))
        else:
            out.append(p)
    return join("", out)


def _has_sym(args):
    return any(
        isinstance(a, SymBase) or type(a) in (SymStr, Rope, OpaqueStr) for a in args
    )


def mod(l, r):
    if type(l) is SymStr:
        raise Unsupported("% on a symbolic format string")
    if isinstance(l, _str) and type(l) not in (Rope, OpaqueStr):
        args = r if type(r) is tuple else (r,)
        fmt = plain(l)
        if isinstance(r, dict) and not _has_sym(r.values()):
            return HStr(fmt % {plain(k): v for k, v in r.items()})
        out, i, k = [], 0, 0
        import re

        for m in re.finditer(r"%(.)", fmt, re.S):
            out.append(fmt[i : m.start()])
            i = m.end()
            c = m.group(1)
            if c == "%":
                out.append("%")
                continue
            if c not in "srdi":
                if _has_sym(args):
                    raise Unsupported("%% format %r" % c)
                return HStr(fmt % tuple(plain(a) if isinstance(a, _str) else a for a in args))
            if k >= len(args):
                raise TypeError("not enough arguments for format string")
            a = args[k]
            k += 1
            if c == "r":
                out.append(s_repr(a))
            elif c in "di":
                if is_strlike(a):
                    raise TypeError("%d format: a real number is required, not str")
                out.append(to_str(a))
            else:
                out.append(_conv(a, -1))
        out.append(fmt[i:])
        if k < len(args) and not isinstance(r, dict):
            raise TypeError("not all arguments converted during string formatting")
        return join("", out)
    return l % r


def s_format(fmt, args, kw):
    if type(fmt) is SymStr:
        raise Unsupported("format() on a symbolic format string")
    import string

    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(plain(fmt)):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            v, _ = string.Formatter().get_field(field, args, kw)
        out.append(fstr((v, -1 if conv is None else ord(conv), spec or None)))
    return join("", out)
