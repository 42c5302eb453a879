"""The harness API: the same harness runs symbolically, concretised, or on concrete inputs."""
import time

import os
import sys


class Infeasible(BaseException):
    pass


class ConcreteViolation(BaseException):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = label
        self.detail = detail


class Skip(BaseException):
    """The harness cannot be run for this input in concrete mode (not an error)."""


class H:
    """Concrete mode: inputs come from a dictionary, the code under test is loaded plainly."""

    symbolic = False
    mode = "concrete"

    def __init__(self, shape, inputs, tmp=None):
        self.shape = shape
        self.inputs = inputs
        self.used = {}
        self.covers = []
        self.observed = []
        self.tmp = tmp
        self._names = {}

    def _name(self, n):
        k = self._names.get(n, 0)
        self._names[n] = k + 1
        return n if k == 0 else "%s#%d" % (n, k)

    def int(self, name, lo=None, hi=None):
        n = self._name(name)
        v = self.inputs.get(n)
        if v is None:
            v = 0
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
        return v

    def bool(self, name):
        return bool(self.inputs.get(self._name(name), False))

    def real(self, name, lo=None, hi=None):
        v = self.inputs.get(self._name(name))
        if v is None:
            return 0.0
        if isinstance(v, list):
            return v[0] / v[1]
        return float(v)

    def choose(self, name, n):
        return int(self.inputs.get(self._name(name), 0)) if n > 1 else 0

    def choice(self, name, options):
        options = list(options)
        return options[self.choose(name, len(options))]

    def str(self, name, max_len, alphabet, min_len=0):
        v = self.inputs.get(self._name(name))
        return alphabet[0] * min_len if v is None else v

    def text(self, name, min_len=0):
        """A text of arbitrary length: distinct characters by position."""
        n = self._name(name)
        ln = self.inputs.get(n)
        ln = min_len if ln is None else ln
        if ln > 20000:
            raise Skip()
        return "".join(chr(0x4E00 + i % 20000) for i in range(ln))

    def text_len(self, t):
        return len(t)

    def assume(self, c):
        if not c:
            raise Infeasible()

    def check(self, c, label, detail=""):
        if not c:
            raise ConcreteViolation(label, detail)

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def cover(self, label):
        self.covers.append(label)

    def observe(self, label, value):
        self.observed.append([label, norm(value)])

    def attempt(self, fn, *args, **kw):
        """Run code under test: (value, None) or (None, exception)."""
        try:
            return fn(*args, **kw), None
        except Exception as e:  # the code under test may raise anything
            return None, e

    def root(self):
        """A fresh empty directory for the code under test to write in."""
        return self.tmp

    # strings that must hash compatibly with symbolic ones
    def s(self, text):
        return text

    def same(self, a, b):
        """Equality without forking."""
        return a == b


def norm(v):
    if isinstance(v, bool):
        return bool(v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return ["f", v]
    if isinstance(v, str):
        return str(v)
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return [[norm(k), norm(x)] for k, x in v.items()]
    if v is None:
        return None
    return repr(type(v).__name__)


class SymH(H):
    symbolic = True
    mode = "symbolic"

    def __init__(self, shape, cx):
        super().__init__(shape, {})
        self.cx = cx
        from . import core, strs

        self.core = core
        self.strs = strs

    def _rec(self, name, kind, val):
        n = self._name(name)
        self.cx.inputs[n] = (kind, val)
        return n

    def int(self, name, lo=None, hi=None):
        import z3

        n = self._name(name)
        z = z3.Int(n)
        self.cx.inputs[n] = ("int", z)
        if lo is not None:
            self.cx.assume(z >= lo)
        if hi is not None:
            self.cx.assume(z <= hi)
        return self.core.SymInt(z)

    def bool(self, name):
        import z3

        n = self._name(name)
        z = z3.Bool(n)
        self.cx.inputs[n] = ("bool", z)
        return self.core.SymBool(z)

    def real(self, name, lo=None, hi=None):
        import z3

        n = self._name(name)
        z = z3.Real(n)
        self.cx.inputs[n] = ("real", z)
        return self.core.SymReal(z)

    def choose(self, name, n):
        nm = self._name(name)
        v = self.cx.choose(n, nm)
        self.cx.inputs[nm] = ("const", v)
        return v

    def str(self, name, max_len, alphabet, min_len=0):
        import z3

        n = self._name(name)
        ln = min_len + self.cx.choose(max_len - min_len + 1, n + ".len")
        cs = []
        codes = sorted({ord(a) for a in alphabet})
        for i in range(ln):
            z = z3.Int("%s[%d]" % (n, i))
            if len(codes) == 1:
                cs.append(codes[0])
                continue
            runs = []
            for c in codes:
                if runs and runs[-1][1] == c - 1:
                    runs[-1][1] = c
                else:
                    runs.append([c, c])
            d = [z3.And(z >= a, z <= b) if a != b else z == a for a, b in runs]
            self.cx.assume(z3.Or(*d) if len(d) > 1 else d[0])
            self.strs.DOM[self.core.tid(z)] = (z, frozenset(codes))
            cs.append(z)
        self.cx.inputs[n] = ("str", tuple(cs))
        return self.strs.mk(cs)

    def text(self, name, min_len=0):
        import z3

        n = self._name(name)
        z = z3.Int(n)
        self.cx.inputs[n] = ("int", z)
        self.cx.assume(z >= min_len)
        return self.strs.Rope.text(self.core.SymInt(z))

    def text_len(self, t):
        return t.length() if type(t) is self.strs.Rope else len(t)

    def assume(self, c):
        self.cx.assume(c)

    def check(self, c, label, detail=""):
        self.cx.check(c, label, detail)

    def cover(self, label):
        self.cx.path_covers.append(label)

    def observe(self, label, value):
        self.cx.observed.append((label, value))

    def s(self, text):
        return self.strs.HStr(text)

    def root(self):
        from . import symfs

        symfs.reset()
        symfs.FakePath("/sx").mkdir()
        return self.strs.HStr("/sx")


class ConcretizedH(SymH):
    """Fallback: solver-enumerated concrete inputs from small domains, plain code under test."""

    symbolic = False
    mode = "concretised"
    INT_DOMAIN = (-2, 3)

    def int(self, name, lo=None, hi=None):
        v = super().int(name, lo, hi)
        a = self.INT_DOMAIN[0] if lo is None else lo
        b = self.INT_DOMAIN[1] if hi is None else min(hi, a + (5 if lo is None else 12))
        if lo is not None and hi is None:
            b = a + 5
        self.cx.assume(self.core.zint(v) >= a)
        self.cx.assume(self.core.zint(v) <= b)
        return v.__index__()

    def bool(self, name):
        return bool(super().bool(name))

    def real(self, name, lo=None, hi=None):
        import z3

        v = super().real(name)
        for c in (-1.5, 0.0, 0.5, 1.0, 2.0, 3.5):
            if self.cx.branch(v.z == z3.RealVal(str(c))):
                return c
        raise self.core.Infeasible()

    def str(self, name, max_len, alphabet, min_len=0):
        n = name
        v = super().str(name, max_len, alphabet, min_len)
        cs = self.strs.chars_of(v)
        return "".join(
            chr(c if type(c) is int else self.core.concretize(c, 200)) for c in cs
        )

    def text(self, name, min_len=0):
        ln = self.int(name, min_len, min_len + 5)
        return "".join(chr(0x4E00 + i % 20000) for i in range(ln))

    def s(self, text):
        return text

    def root(self):
        return self.tmp

    def check(self, c, label, detail=""):
        self.cx.check(c, label, detail)


def eval_inputs(cx):
    """Concrete values of the recorded inputs under the current model."""
    import z3

    m = cx._ensure_model()
    out = {}
    for n, (kind, v) in cx.inputs.items():
        if kind == "const":
            out[n] = v
        elif kind == "int":
            out[n] = m.eval(v, model_completion=True).as_long()
        elif kind == "bool":
            out[n] = z3.is_true(m.eval(v, model_completion=True))
        elif kind == "real":
            r = m.eval(v, model_completion=True)
            if z3.is_algebraic_value(r):
                r = r.approx(20)
            out[n] = [r.numerator_as_long(), r.denominator_as_long()]
        elif kind == "str":
            out[n] = "".join(
                chr(c if type(c) is int else m.eval(c, model_completion=True).as_long())
                for c in v
            )
    return out


def eval_value(cx, v):
    import z3

    from . import core, strs

    m = cx._ensure_model()
    if isinstance(v, core.SymBase):
        if type(v) is core.SymBool:
            return z3.is_true(m.eval(v.z, model_completion=True))
        if type(v) is core.SymInt:
            return m.eval(v.z, model_completion=True).as_long()
        r = m.eval(v.z, model_completion=True)
        return ["f", r.numerator_as_long() / r.denominator_as_long()]
    if type(v) is strs.SymStr:
        return "".join(
            chr(c if type(c) is int else m.eval(c, model_completion=True).as_long())
            for c in v.chars
        )
    if type(v) is strs.Encoded:
        return repr("bytes")
    if isinstance(v, (list, tuple)):
        return [eval_value(cx, x) for x in v]
    if isinstance(v, dict):
        return [[eval_value(cx, k), eval_value(cx, x)] for k, x in v.items()]
    return norm(v)
