"""Path-exploring symbolic executor for ordinary Python code.

The code under test is *run* (by CPython) on proxy values whose operations build Z3 terms.
When the code asks a proxy for a concrete truth value, the executor asks Z3 which outcomes are
feasible under the current path condition, follows one and remembers the other; the function is
re-executed until every feasible path has been followed.  ``Ctx.check`` asks Z3 whether a property
can be false for *any* assignment reaching that point.
"""
import itertools
import operator
import time

import z3


class Abort(BaseException):
    """Base of the engine's control-flow exceptions (never caught by ``except Exception``)."""


class Infeasible(Abort):
    pass


class Unsupported(Abort):
    pass


class Inconclusive(Abort):
    pass


class Split(Abort):
    pass


class OutOfBudget(Abort):
    pass


class Violation(Abort):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = label
        self.detail = detail


_CTX = None


def ctx():
    return _CTX


def set_ctx(c):
    global _CTX
    _CTX = c


class Entry:
    __slots__ = ("kind", "expr", "value", "alt", "alt_model", "pushed", "options", "info")

    def __init__(self, kind, expr, value):
        self.kind = kind
        self.expr = expr
        self.value = value
        self.alt = False
        self.alt_model = None
        self.pushed = False
        self.options = None
        self.info = None


class Stats:
    FIELDS = (
        "paths",
        "infeasible",
        "forks",
        "forced",
        "queries",
        "checks",
        "check_queries",
        "trivial_checks",
        "decisions",
        "splits",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = round(self.solver_s, 4)
        return d


class Ctx:
    MAX_DECISIONS = 4000

    def __init__(self, prefix=None, split_depth=None, deadline=None, timeout_ms=20000):
        clear_memos()
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.stats = Stats()
        self.trail = []
        self.pos = 0
        self.known = {}
        self.model = None
        self.names = {}
        self.inputs = {}
        self.covers = {}
        self.path_covers = []
        self.observed = []
        self.split_depth = split_depth
        self.deadline = deadline
        self.free = 0
        self.fixed = 0
        self.pidx = 0
        self.split_prefixes = []
        self._keep = []
        self.prefix = list(prefix) if prefix else None
        self.shadow = None

    # ------------------------------------------------------------------ solver plumbing
    def _check(self, *extra):
        t = time.perf_counter()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            raise Inconclusive("solver returned unknown: %s" % self.solver.reason_unknown())
        return r == z3.sat

    def _ensure_model(self):
        if self.model is None:
            if not self._check():
                raise Infeasible()
            self.model = self.solver.model()
        return self.model

    def _push(self, entry, expr):
        self.solver.push()
        self.solver.add(expr)
        entry.pushed = True

    def _budget(self):
        if len(self.trail) > self.MAX_DECISIONS:
            raise OutOfBudget("more than %d decisions on one path" % self.MAX_DECISIONS)
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfBudget("deadline")

    # ------------------------------------------------------------------ decisions
    def branch(self, expr):
        """Decide a symbolic boolean on this path."""
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        return self.decide(expr)

    def decide(self, expr):
        """Decide a boolean term that is no constant."""
        key = tid(expr)
        k = self.known.get(key)
        if k is not None:
            return k
        inner = inner_of(expr)
        if inner is not None:
            k = self.known.get(tid(inner))
            if k is not None:
                return not k
        self._keep.append(expr)
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != "b" or not (e.expr is expr or e.expr.eq(expr)):
                raise Unsupported(
                    "non-deterministic re-execution: %r vs %r" % (e.expr, expr)
                )
            self.pos += 1
            v = e.value
        else:
            v = self._new_branch(expr)
        self.known[key] = v
        if inner is not None:
            self.known[tid(inner)] = not v
            self._keep.append(inner)
        return v

    def _new_branch(self, expr):
        self._budget()
        e = Entry("b", expr, None)
        if self.prefix is not None and self.pidx < len(self.prefix):
            # following a prefix handed over by a splitter process: it lists every decision of the
            # path, forced ones included, so no query is needed
            kind, value, _, is_free = self.prefix[self.pidx]
            if kind != "b":
                raise Unsupported("prefix mismatch")
            e.value = value
            if is_free:
                e.options = -2
                self.free += 1
                self.fixed += 1
                self.model = None
                self._push(e, expr if value else z3.Not(expr))
            self.trail.append(e)
            self.pos += 1
            self.pidx += 1
            return e.value
        m = self._ensure_model()
        mv = z3.is_true(m.eval(expr, model_completion=True))
        other = z3.Not(expr) if mv else expr
        self.stats.decisions += 1
        if self._check(other):
            if self.split_depth is not None and self.free >= self.split_depth:
                raise Split()
            e.alt = True
            e.alt_model = self.solver.model()
            e.value = mv
            self._push(e, expr if mv else z3.Not(expr))
            self.stats.forks += 1
            self.free += 1
        else:
            e.value = mv
            self.stats.forced += 1
        self.trail.append(e)
        self.pos += 1
        self.pidx += 1
        return e.value

    def choose(self, n, name="choice"):
        """An n-ary non-deterministic choice with no constraint attached."""
        if n <= 0:
            raise Infeasible()
        if n == 1:
            return 0
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != "n":
                raise Unsupported("non-deterministic re-execution (choice %s)" % name)
            self.pos += 1
            return e.value
        self._budget()
        e = Entry("n", None, 0)
        if self.prefix is not None and self.pidx < len(self.prefix):
            want = self.prefix[self.pidx]
            if want[0] != "n":
                raise Unsupported("prefix mismatch")
            e.value = want[1]
            e.options = -2
            self.free += 1
            self.fixed += 1
        else:
            if self.split_depth is not None and self.free >= self.split_depth:
                raise Split()
            self.stats.forks += 1
            self.free += 1
            e.options = n
            e.alt = True
        self.trail.append(e)
        self.pos += 1
        self.pidx += 1
        return e.value

    def candidate(self, z):
        """A possible value of an integer term, the same one on re-execution."""
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != "c" or not e.expr.eq(z):
                raise Unsupported("non-deterministic re-execution (concretize)")
            self.pos += 1
            return e.value
        if self.prefix is not None and self.pidx < len(self.prefix):
            kind, v = self.prefix[self.pidx][:2]
            if kind != "c":
                raise Unsupported("prefix mismatch")
        else:
            v = self._ensure_model().eval(z, model_completion=True).as_long()
        self.trail.append(Entry("c", z, v))
        self.pos += 1
        self.pidx += 1
        return v

    def assume(self, expr):
        if isinstance(expr, SymBool):
            expr = expr.z
        if isinstance(expr, bool):
            if not expr:
                raise Infeasible()
            return
        expr = simp(expr)
        if z3.is_true(expr):
            return
        if z3.is_false(expr):
            raise Infeasible()
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != "a" or not e.expr.eq(expr):
                raise Unsupported("non-deterministic re-execution (assume)")
            self.pos += 1
            return
        e = Entry("a", expr, True)
        self.trail.append(e)
        self.pos += 1
        self._push(e, expr)
        if self.model is not None and not z3.is_true(
            self.model.eval(expr, model_completion=True)
        ):
            self.model = None
        self._ensure_model()

    # ------------------------------------------------------------------ properties
    def check(self, cond, label, detail=""):
        self.stats.checks += 1
        if isinstance(cond, SymBool):
            cond = cond.z
        if not z3.is_expr(cond):
            if cond:
                self.stats.trivial_checks += 1
                return
            self._ensure_model()
            raise Violation(label, detail)
        cond = simp(cond)
        if z3.is_true(cond):
            self.stats.trivial_checks += 1
            return
        m = self._ensure_model()
        self.stats.check_queries += 1
        if not z3.is_true(m.eval(cond, model_completion=True)):
            raise Violation(label, detail)
        if self._check(z3.Not(cond)):
            self.model = self.solver.model()
            raise Violation(label, detail)

    # ------------------------------------------------------------------ exploration
    def start_path(self):
        from . import strs

        strs.DOM.clear()
        self.pos = 0
        self.known = {}
        self._keep = []
        clear_memos(200000)
        self.inputs = {}
        self.names = {}
        self.path_covers = []
        self.observed = []
        self.shadow = None
        # "free" counts the free decisions replayed so far; recomputed while replaying
        self.free = sum(1 for e in self.trail if e.alt or e.options)
        self.pidx = sum(1 for e in self.trail if e.kind != "a")

    def decisions_prefix(self):
        return [
            (e.kind, e.value, e.info, bool(e.pushed or e.kind == "n"))
            for e in self.trail
            if e.kind != "a"
        ]

    def backtrack(self):
        """Advance to the next unexplored path; False when exhausted."""
        while self.trail:
            e = self.trail[-1]
            if e.kind == "n" and e.options and e.value + 1 < e.options:
                e.value += 1
                return True
            if e.kind == "b" and e.alt:
                self.solver.pop()
                e.alt = False
                e.value = not e.value
                self.model = e.alt_model
                e.alt_model = None
                self._push(e, e.expr if e.value else z3.Not(e.expr))
                # keep counting it as a free decision
                e.options = -1
                return True
            if e.pushed:
                self.solver.pop()
            self.trail.pop()
        return False

    def explore(self, fn, on_path=None, on_violation=None, max_paths=None):
        """Run ``fn`` over every feasible path.  Returns "complete", "violation" or "budget"."""
        set_ctx(self)
        first = True
        try:
            while first or self.backtrack():
                first = False
                self.start_path()
                try:
                    fn()
                except Infeasible:
                    self.stats.infeasible += 1
                    continue
                except Split:
                    self.stats.splits += 1
                    self.split_prefixes.append(self.decisions_prefix())
                    continue
                except Violation as v:
                    self.stats.paths += 1
                    if on_violation and on_violation(v):
                        return "violation"
                    continue
                except OutOfBudget:
                    return "budget"
                self.stats.paths += 1
                for c in self.path_covers:
                    self.covers[c] = self.covers.get(c, 0) + 1
                if on_path:
                    on_path(self)
                if max_paths and self.stats.paths >= max_paths:
                    return "budget"
                if self.deadline is not None and time.time() > self.deadline:
                    return "budget" if self.trail_has_alt() else "complete"
            return "complete"
        finally:
            set_ctx(None)

    def trail_has_alt(self):
        return any(
            (e.kind == "b" and e.alt)
            or (e.kind == "n" and e.options and e.value + 1 < e.options)
            for e in self.trail
        )

    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else "%s#%d" % (base, n)


# ---------------------------------------------------------------------- value helpers
def zint(x):
    if isinstance(x, SymBase):
        if type(x) is SymInt:
            return x.z
        if type(x) is SymBool:
            return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    elif isinstance(x, int):
        return intval(int(x))
    return None


def zbool(x):
    if type(x) is SymBool:
        return x.z
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


class SymBase:
    __slots__ = ()


# Terms are hash-consed by the solver, so results are remembered by term identity; the terms are kept
# alive by the tables.
_SIMP = {}
_BOOL = {}
_CMP = {}
_CONN = {}
_INTS = {}
_INNER = {}
_MEMOS = (_SIMP, _BOOL, _CMP, _CONN, _INNER)


def clear_memos(limit=0):
    if max(len(m) for m in _MEMOS) > limit:
        for m in _MEMOS:
            m.clear()


def tid(e):
    try:
        return e._tid
    except AttributeError:
        r = e._tid = e.get_id()
        return r


def simp(e):
    k = tid(e)
    r = _SIMP.get(k)
    if r is None:
        r = _SIMP[k] = (e, z3.simplify(e))
    return r[1]


def mkbool(e):
    k = tid(e)
    r = _BOOL.get(k)
    if r is None:
        q = z3.simplify(e)
        if z3.is_true(q):
            v = True
        elif z3.is_false(q):
            v = False
        else:
            v = SymBool(q)
        r = _BOOL[k] = (e, v)
    return r[1]


def eqz(a, b):
    """Equality of an integer term and an integer or integer term."""
    i = b if type(b) is not int else intval(b)
    k = (operator.eq, tid(a), tid(i))
    r = _CMP.get(k)
    if r is None:
        r = _CMP[k] = (a, i, mkbool(a == i))
    return r[2]


def intval(n):
    r = _INTS.get(n)
    if r is None:
        r = z3.IntVal(n)
        if len(_INTS) < 4096:
            _INTS[n] = r
    return r


def inner_of(e):
    """The operand of a negation, else None."""
    k = tid(e)
    r = _INNER.get(k)
    if r is None:
        r = _INNER[k] = (e, e.arg(0) if z3.is_not(e) else None)
    return r[1]


class SymBool(SymBase):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return _CTX.decide(self.z)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.z == zbool(o))
        i = zint(o)
        if i is not None:
            return mkbool(zint(self) == i)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return mkbool(z3.And(self.z, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.z, zbool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, zbool(o)))

    __rxor__ = __xor__

    def __add__(self, o):
        return mkint(zint(self)) + o

    __radd__ = __add__

    def __lt__(self, o):
        return mkint(zint(self)) < o

    def __le__(self, o):
        return mkint(zint(self)) <= o

    def __gt__(self, o):
        return mkint(zint(self)) > o

    def __ge__(self, o):
        return mkint(zint(self)) >= o

    def __repr__(self):
        return repr(bool(self))

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


HASH_MODE = "const"


class SymInt(SymBase):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return int

    # --- comparison
    def _cmp(self, o, f):
        i = zint(o)
        if i is None:
            r = zreal_or_none(o)
            if r is None:
                if type(o) is float:  # infinities and not-a-number
                    return f(0, o)
                return NotImplemented
            return mkbool(f(z3.ToReal(self.z), r))
        k = (f, tid(self.z), tid(i))
        r = _CMP.get(k)
        if r is None:
            r = _CMP[k] = (self.z, i, mkbool(f(self.z, i)))
        return r[2]

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __eq__(self, o):
        if o is self:
            return True
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        if o is self:
            return False
        return self._cmp(o, operator.ne)

    def __hash__(self):
        if HASH_MODE == "concrete":
            return hash(self.__index__())
        return 0

    def __bool__(self):
        return _CTX.branch(simp(self.z != 0))

    # --- arithmetic
    def _arith(self, o, f):
        i = zint(o)
        if i is None:
            r = zreal_or_none(o)
            if r is None:
                return NotImplemented
            return SymReal(simp(f(as_double(self.z), r)))
        r = mkint(simp(f(self.z, i)))
        if type(r) is int and z3.is_int_value(self.z):
            return SymInt(z3.IntVal(r))  # a known number made to look unknown stays so
        return r

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)) and zint(o) is None:
            return o * self.__index__()
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(simp(-self.z))

    def __pos__(self):
        return self

    def __invert__(self):
        return mkint(simp(-self.z - 1))

    def __abs__(self):
        return mkint(simp(z3.If(self.z < 0, -self.z, self.z)))

    @staticmethod
    def _div(a, b):
        """Python floor division and modulus of z3 ints (concrete or sign-decided divisor)."""
        if _CTX.branch(simp(b == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        if _CTX.branch(simp(b > 0)):
            q = a / b  # z3: Euclidean == floor for positive divisor
        else:
            q = (-a) / (-b)
        return simp(q), simp(a - q * b)

    def __floordiv__(self, o):
        i = zint(o)
        if i is None:
            return NotImplemented
        return mkint(self._div(self.z, i)[0])

    def __rfloordiv__(self, o):
        i = zint(o)
        if i is None:
            return NotImplemented
        return mkint(self._div(i, self.z)[0])

    def __mod__(self, o):
        i = zint(o)
        if i is None:
            return NotImplemented
        return mkint(self._div(self.z, i)[1])

    def __rmod__(self, o):
        i = zint(o)
        if i is None:
            return NotImplemented
        return mkint(self._div(i, self.z)[1])

    def __divmod__(self, o):
        i = zint(o)
        if i is None:
            return NotImplemented
        q, r = self._div(self.z, i)
        return mkint(q), mkint(r)

    def __rdivmod__(self, o):
        i = zint(o)
        if i is None:
            return NotImplemented
        q, r = self._div(i, self.z)
        return mkint(q), mkint(r)

    def __truediv__(self, o):
        i = zint(o)
        r = z3.ToReal(i) if i is not None else zreal_or_none(o)
        if r is None:
            return NotImplemented
        if _CTX.branch(simp(r == 0)):
            raise ZeroDivisionError("division by zero")
        return SymReal(simp((z3.ToReal if i is not None else as_double)(self.z) / r))

    def __rtruediv__(self, o):
        i = zint(o)
        r = z3.ToReal(i) if i is not None else zreal_or_none(o)
        if r is None:
            return NotImplemented
        if _CTX.branch(simp(self.z == 0)):
            raise ZeroDivisionError("division by zero")
        return SymReal(simp(r / (z3.ToReal if i is not None else as_double)(self.z)))

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and type(o) is int and 0 <= o <= 4 and mod is None:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.z
            return mkint(simp(r))
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        if type(o) is int:
            return self * (1 << o)
        return self.__index__() << o

    def __rshift__(self, o):
        if type(o) is int:
            return self // (1 << o)
        return self.__index__() >> o

    def _bit(self, o, f):
        if isinstance(o, (int,)):
            return f(self.__index__(), o.__index__())
        return NotImplemented

    def __and__(self, o):
        return self._bit(o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    # --- concretisation
    def __index__(self):
        return concretize(self.z)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def bit_length(self):
        return self.__index__().bit_length()

    def is_integer(self):
        return True

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def __repr__(self):
        return "<int %s>" % (self.z,)

    __str__ = __repr__

    def __format__(self, spec):
        return format(repr(self), "")

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


CONCRETIZE_LIMIT = 64


def concretize(z, limit=None):
    """Enumerate (by solver-guided forking) the values of an integer term."""
    z = simp(z)
    if z3.is_int_value(z):
        return z.as_long()
    c = _CTX
    n = 0
    lim = limit or CONCRETIZE_LIMIT
    while True:
        v = c.candidate(z)
        r = c.branch(z == z3.IntVal(v))
        if r:
            return v
        n += 1
        if n >= lim:
            raise Unsupported("more than %d values for a concretised integer" % lim)


def zreal_or_none(o):
    if isinstance(o, SymBase):
        if type(o) is SymReal:
            return o.z
        return None
    if isinstance(o, float):
        if o != o or o in (float("inf"), float("-inf")):
            return None
        from fractions import Fraction

        f = Fraction(o)
        return z3.RealVal(str(f.numerator)) / z3.RealVal(str(f.denominator))
    return None


def as_double(z):
    """The nearest double of an integer term, as a real term (ties to even).  Magnitudes from
    2**57 on are left out."""
    m = z3.If(z >= 0, z, -z)
    if _CTX.branch(simp(m <= 2 ** 53)):
        return z3.ToReal(z)
    for g in (2, 4, 8, 16):
        if g == 16:
            _CTX.assume(mkbool(m <= 2 ** 53 * g))
        if g == 16 or _CTX.branch(simp(m <= 2 ** 53 * g)):
            q = m / g
            rest = m - q * g
            up = z3.Or(rest * 2 > g, z3.And(rest * 2 == g, q % 2 == 1))
            r = g * (q + z3.If(up, z3.IntVal(1), z3.IntVal(0)))
            return z3.ToReal(z3.If(z >= 0, r, -r))


def zreal(o):
    r = zreal_or_none(o)
    if r is not None:
        return r
    i = zint(o)
    return z3.ToReal(i) if i is not None else None


class SymReal(SymBase):
    """A symbolic float, modelled as a real (NaN, infinities and rounding are outside)."""

    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return float

    def _cmp(self, o, f, inf):
        if type(o) is float and (o in (float("inf"), float("-inf")) or o != o):
            return inf(o)
        r = zreal(o)
        if r is None:
            return NotImplemented
        return mkbool(f(self.z, r))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda o: o > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda o: o > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda o: o < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda o: o < 0)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda o: False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, lambda o: True)

    def __hash__(self):
        return 0

    def __bool__(self):
        return _CTX.branch(simp(self.z != 0))

    def _arith(self, o, f):
        r = zreal(o)
        if r is None:
            return NotImplemented
        return SymReal(simp(f(self.z, r)))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        r = zreal(o)
        if r is None:
            return NotImplemented
        if _CTX.branch(simp(r == 0)):
            raise ZeroDivisionError("float division by zero")
        return SymReal(simp(self.z / r))

    def __neg__(self):
        return SymReal(simp(-self.z))

    def __trunc__(self):
        fl = z3.ToInt(self.z)
        return mkint(simp(z3.If(self.z >= 0, fl, -z3.ToInt(-self.z))))

    def __floor__(self):
        return mkint(simp(z3.ToInt(self.z)))

    def __ceil__(self):
        return mkint(simp(-z3.ToInt(-self.z)))

    def is_integer(self):
        return mkbool(z3.IsInt(self.z))

    def __int__(self):
        t = self.__trunc__()
        return t if type(t) is int else t.__index__()

    def __float__(self):
        raise Unsupported("float() of a symbolic real")

    def __repr__(self):
        return "<float %s>" % (self.z,)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


# ---------------------------------------------------------------------- non-forking connectives
def _conn(op, out):
    if len(out) == 1:
        return mkbool(out[0])
    k = (op,) + tuple(tid(x) for x in out)
    r = _CONN.get(k)
    if r is None:
        r = _CONN[k] = (out, mkbool(op(*out)))
    return r[1]


def And(*xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.z)
        elif x is True:
            continue
        elif x is False:
            return False
        elif z3.is_expr(x):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return _conn(z3.And, out)


def Or(*xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.z)
        elif x is False:
            continue
        elif x is True:
            return True
        elif z3.is_expr(x):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return _conn(z3.Or, out)


def Not(x):
    if type(x) is SymBool:
        return _conn1(x.z)
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_expr(x):
        return _conn1(x)
    return not x


def _conn1(z):
    k = (z3.Not, tid(z))
    r = _CONN.get(k)
    if r is None:
        r = _CONN[k] = (z, mkbool(z3.Not(z)))
    return r[1]


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if type(a) is SymBool or type(b) is SymBool:
        return mkbool(zbool(a) == zbool(b))
    return bool(a) == bool(b)


def Ite(c, a, b):
    if type(c) is not SymBool:
        return a if c else b
    if type(a) is SymReal or type(b) is SymReal:
        return SymReal(simp(z3.If(c.z, zreal(a), zreal(b))))
    if isinstance(a, bool) or isinstance(b, bool):
        return mkbool(z3.If(c.z, zbool(a), zbool(b)))
    return mkint(simp(z3.If(c.z, zint(a), zint(b))))


def Sum(xs):
    r = 0
    for x in xs:
        r = r + (Ite(x, 1, 0) if isinstance(x, bool) else x)
    return r


def is_sym(x):
    return isinstance(x, SymBase)
