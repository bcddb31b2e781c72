"""Symbolic stand-ins for Python's int, bool, float, bytes and str.

Integers are bit-vectors of whatever width their (tracked) interval needs, so
arithmetic is exact, i.e. Python's unbounded integers restricted to inputs in
a stated range.  Floats are IEEE-754 binary64.  bytes and str have a concrete
length and symbolic elements.
"""

from __future__ import annotations

import math
import struct

import z3

from . import core
from .core import PathEnd  # noqa: F401

F64 = z3.Float64()
F32 = z3.Float32()
F16 = z3.Float16()
RNE = z3.RNE()
RTZ = z3.RTZ()


def eng():
    e = core.ENGINE
    if e is None:
        raise RuntimeError("symbolic value used outside of a path")
    return e


# ---------------------------------------------------------------- helpers
def ubits(n):
    return max(1, n.bit_length())


def sbits(lo, hi):
    def one(n):
        return (-n - 1).bit_length() if n < 0 else n.bit_length()
    return max(one(lo), one(hi)) + 1


def width_for(lo, hi):
    return ubits(hi) if lo >= 0 else sbits(lo, hi)


def resize(e, w, W, signed):
    if W == w:
        return e
    if W < w:
        return z3.Extract(W - 1, 0, e)
    return z3.SignExt(W - w, e) if signed else z3.ZeroExt(W - w, e)


def mk(e, lo, hi):
    """A SymInt from an expression wide enough to hold [lo, hi] (two's comp.)"""
    if lo == hi:
        return lo
    W = width_for(lo, hi)
    w = e.size()
    if W < w:
        e = z3.Extract(W - 1, 0, e)
    elif W > w:
        raise AssertionError("width")
    return SymInt(e, lo, hi)


MAXBITS = 4096


class SymInt:
    __slots__ = ("e", "lo", "hi", "__weakref__")

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    @property
    def __class__(self):
        return int

    def at(self, W):
        """As a two's complement term of W bits."""
        return resize(self.e, self.e.size(), W, self.lo < 0)

    # conversions that the interpreter insists on
    def __bool__(self):
        return eng().decide(self.e != 0)

    def __index__(self):
        return concretise(self, "index")

    def __int__(self):
        return concretise(self, "int")

    def __float__(self):
        return float(concretise(self, "float"))

    def __hash__(self):
        return hash(concretise(self, "hash"))

    def __repr__(self):
        if core.ENGINE is None:
            return "<sym int>"
        return "<sym int %d..%d>" % (self.lo, self.hi)

    def __str__(self):
        return str(concretise(self, "str"))

    def __format__(self, spec):
        return format(concretise(self, "format"), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # arithmetic
    def _bin(self, o, iv, op, sw):
        if type(o) is bool:
            o = int(o)
        if type(o) is SymBool:
            o = o.as_int()
        if type(o) is float or type(o) is SymFloat:
            a, b = float_of(self), float_of(o)
            return op(b, a) if sw else op(a, b)
        if type(o) is not SymInt:
            if not isinstance(o, int):
                return NotImplemented
            o = int(o)
            olo = ohi = o
        else:
            olo, ohi = o.lo, o.hi
        a = (self.lo, self.hi)
        b = (olo, ohi)
        if sw:
            a, b = b, a
        lo, hi = iv(a, b)
        W = max(sbits(lo, hi), sbits(self.lo, self.hi), sbits(olo, ohi))
        x = self.at(W)
        y = o.at(W) if type(o) is SymInt else z3.BitVecVal(o, W)
        if sw:
            x, y = y, x
        return mk(op(x, y), lo, hi)

    def __add__(self, o):
        return self._bin(o, lambda a, b: (a[0] + b[0], a[1] + b[1]),
                         lambda x, y: x + y, False)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: (a[0] - b[1], a[1] - b[0]),
                         lambda x, y: x - y, False)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: (a[0] - b[1], a[1] - b[0]),
                         lambda x, y: x - y, True)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, bytearray)):
            return o * concretise(self, "repeat")
        return self._bin(
            o, lambda a, b: (min(p * q for p in a for q in b),
                             max(p * q for p in a for q in b)),
            lambda x, y: x * y, False)

    __rmul__ = __mul__

    def __neg__(self):
        W = sbits(-self.hi, -self.lo)
        W = max(W, sbits(self.lo, self.hi))
        return mk(-self.at(W), -self.hi, -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        W = sbits(self.lo, self.hi) + 1
        x = self.at(W)
        hi = max(-self.lo, self.hi)
        return mk(z3.If(x < 0, -x, x), 0, hi)

    def __invert__(self):
        return -self - 1

    @staticmethod
    def _bits_iv(a, b):
        n = max(sbits(*a), sbits(*b))
        if a[0] >= 0 and b[0] >= 0:
            return 0, (1 << (n - 1)) - 1
        return -(1 << (n - 1)), (1 << (n - 1)) - 1

    @staticmethod
    def _and_iv(a, b):
        if a[0] >= 0 and b[0] >= 0:
            return 0, min(a[1], b[1])
        if a[0] >= 0:
            return 0, a[1]
        if b[0] >= 0:
            return 0, b[1]
        return SymInt._bits_iv(a, b)

    def __and__(self, o):
        return self._bin(o, self._and_iv, lambda x, y: x & y, False)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, self._bits_iv, lambda x, y: x | y, False)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, self._bits_iv, lambda x, y: x ^ y, False)

    __rxor__ = __xor__

    def _shift_amount(self, o):
        o = plain_int(o)
        if o is None:
            return None
        if type(o) is SymInt:
            if o.lo < 0 and eng().decide(o.e < 0):
                raise ValueError("negative shift count")
            if o.hi - max(o.lo, 0) > 128:
                o = concretise(o, "shift")
        if type(o) is int and o < 0:
            raise ValueError("negative shift count")
        return o

    def __lshift__(self, o):
        o = self._shift_amount(o)
        if o is None:
            return NotImplemented
        return shl(self, o)

    def __rlshift__(self, o):
        n = self._shift_amount(self)
        return shl(o, n)

    def __rshift__(self, o):
        o = self._shift_amount(o)
        if o is None:
            return NotImplemented
        return shr(self, o)

    def __rrshift__(self, o):
        n = self._shift_amount(self)
        return shr(o, n)

    def __floordiv__(self, o):
        return divmod_(self, o, 0)

    def __rfloordiv__(self, o):
        return divmod_(o, self, 0)

    def __mod__(self, o):
        return divmod_(self, o, 1)

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return o % concretise(self, "format")
        return divmod_(o, self, 1)

    def __divmod__(self, o):
        return divmod_(self, o, 0), divmod_(self, o, 1)

    def __rdivmod__(self, o):
        return divmod_(o, self, 0), divmod_(o, self, 1)

    def __truediv__(self, o):
        return truediv(self, o)

    def __rtruediv__(self, o):
        return truediv(o, self)

    def __pow__(self, o, mod=None):
        return pow_(self, o, mod)

    def __rpow__(self, o, mod=None):
        return pow_(o, self, mod)

    # comparisons
    def _cmp(self, o, op, name):
        if type(o) is SymBool:
            o = o.as_int()
        if type(o) is float or type(o) is SymFloat:
            return fcmp(self, o, name)
        if type(o) is not SymInt:
            if not isinstance(o, int):
                return NotImplemented
            o = int(o)
            # settle by interval where possible
            if o < self.lo:
                return name in ("gt", "ge", "ne")
            if o > self.hi:
                return name in ("lt", "le", "ne")
            W = sbits(self.lo, self.hi)
            return SymBool(op(self.at(W), z3.BitVecVal(o, W)))
        W = max(sbits(self.lo, self.hi), sbits(o.lo, o.hi))
        return SymBool(op(self.at(W), o.at(W)))

    def __eq__(self, o):
        return self._cmp(o, lambda x, y: x == y, "eq")

    def __ne__(self, o):
        return self._cmp(o, lambda x, y: x != y, "ne")

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y, "lt")

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y, "le")

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y, "gt")

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y, "ge")

    # int's methods
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return self, 1

    def bit_length(self):
        a = abs(self)
        W = a.e.size() if type(a) is SymInt else None
        if W is None:
            return a.bit_length()
        res = z3.BitVecVal(0, 16)
        for i in range(W):
            res = z3.If(z3.Extract(i, i, a.e) == 1, z3.BitVecVal(i + 1, 16), res)
        return mk(res, 0, W)

    def bit_count(self):
        a = abs(self)
        if type(a) is not SymInt:
            return a.bit_count()
        W = a.e.size()
        res = z3.BitVecVal(0, 16)
        for i in range(W):
            res = res + z3.ZeroExt(15, z3.Extract(i, i, a.e))
        return mk(res, 0, W)

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = concretise(length, "to_bytes")
        lo = -(1 << (8 * length - 1)) if signed else 0
        hi = (1 << (8 * length - 1)) - 1 if signed else (1 << (8 * length)) - 1
        if not (self >= lo):
            raise OverflowError("int too small to convert" if signed else
                                "can't convert negative int to unsigned")
        if not (self <= hi):
            raise OverflowError("int too big to convert")
        return int_to_bytes(self, length, byteorder)


def int_to_bytes(v, n, order):
    """n bytes of v's two's complement, big or little."""
    if type(v) is not SymInt:
        return (int(v) & ((1 << (8 * n)) - 1)).to_bytes(n, order)
    x = v.at(8 * n)
    out = []
    for i in range(n):
        out.append(byte_el(z3.Extract(8 * i + 7, 8 * i, x)))
    if order == "big":
        out.reverse()
    return make_bytes(out)


def int_from_elems(els, order, signed):
    """The integer that a list of byte elements spells."""
    if order == "little":
        els = list(reversed(els))
    n = len(els)
    if all(type(x) is int for x in els):
        return int.from_bytes(bytes(els), "big", signed=signed)
    parts = [el_bv(x) for x in els]
    e = parts[0] if n == 1 else z3.Concat(*parts)
    e = z3.simplify(e)
    if signed:
        return mk_checked(e, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1, True)
    return mk_checked(e, 0, (1 << (8 * n)) - 1, False)


def mk_checked(e, lo, hi, signed):
    if z3.is_bv_value(e):
        return e.as_signed_long() if signed else e.as_long()
    return SymInt(e, lo, hi)


def byte_el(e):
    """A byte element (int or SymInt) from an 8-bit term."""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return SymInt(e, 0, 255)


def el_bv(x):
    """The 8-bit term of a byte element."""
    if type(x) is SymInt:
        return x.at(8)
    return z3.BitVecVal(int(x), 8)


def plain_int(o):
    if type(o) is SymInt:
        return o
    if type(o) is SymBool:
        return o.as_int()
    if type(o) in (float, SymFloat):
        return None
    if isinstance(o, int):
        return int(o)
    return None


def shl(v, n):
    if type(n) is int:
        return v * (1 << n)
    # symbolic amount
    lo = v.lo if type(v) is SymInt else int(v)
    hi = v.hi if type(v) is SymInt else int(v)
    nlo, nhi = max(n.lo, 0), n.hi
    c = [lo << nlo, lo << nhi, hi << nlo, hi << nhi]
    rlo, rhi = min(c), max(c)
    W = max(sbits(rlo, rhi), sbits(n.lo, n.hi))
    x = v.at(W) if type(v) is SymInt else z3.BitVecVal(int(v), W)
    return mk(x << n.at(W), rlo, rhi)


def shr(v, n):
    lo = v.lo if type(v) is SymInt else int(v)
    hi = v.hi if type(v) is SymInt else int(v)
    if type(n) is int:
        rlo, rhi = lo >> n, hi >> n
        W = sbits(lo, hi)
        if n >= W:
            n = W - 1
        return mk(v.at(W) >> z3.BitVecVal(n, W), rlo, rhi)
    nlo, nhi = max(n.lo, 0), n.hi
    c = [lo >> nlo, lo >> nhi, hi >> nlo, hi >> nhi]
    rlo, rhi = min(c), max(c)
    W = max(sbits(lo, hi), sbits(n.lo, n.hi))
    x = v.at(W) if type(v) is SymInt else z3.BitVecVal(int(v), W)
    return mk(x >> n.at(W), rlo, rhi)


def divmod_(a, b, which):
    if type(a) in (float, SymFloat) or type(b) in (float, SymFloat):
        a, b = concretise(a, "divmod"), concretise(b, "divmod")
        return float(a) // float(b) if which == 0 else float(a) % float(b)
    a = plain_int(a)
    b = plain_int(b)
    if a is None or b is None:
        return NotImplemented
    blo, bhi = (b.lo, b.hi) if type(b) is SymInt else (b, b)
    alo, ahi = (a.lo, a.hi) if type(a) is SymInt else (a, a)
    if blo <= 0 <= bhi:
        if type(b) is int or eng().decide(b.e == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
    if type(b) is int and b > 0 and b & (b - 1) == 0 and type(a) is SymInt:
        k = b.bit_length() - 1
        return shr(a, k) if which == 0 else (a & (b - 1))
    W = max(sbits(alo, ahi), sbits(blo, bhi)) + 1
    x = a.at(W) if type(a) is SymInt else z3.BitVecVal(a, W)
    y = b.at(W) if type(b) is SymInt else z3.BitVecVal(b, W)
    if alo >= 0 and blo >= 0:
        q = z3.UDiv(x, y)
        r = z3.URem(x, y)
        bl = max(blo, 1)
        if which == 0:
            return mk(q, alo // bhi, ahi // bl)
        return mk(r, 0, min(bhi - 1, ahi))
    q = x / y  # truncating
    r = z3.SRem(x, y)
    adj = z3.And(r != 0, (r < 0) != (y < 0))
    m = max(abs(alo), abs(ahi))
    if which == 0:
        return mk(z3.If(adj, q - 1, q), -m - 1, m)
    mb = max(abs(blo), abs(bhi))
    lo = 0 if blo >= 0 else -mb
    hi = mb if bhi > 0 else 0
    return mk(z3.If(adj, r + y, r), lo, hi)


def pow_(a, b, mod):
    if mod is not None:
        return pow(concretise(a, "pow"), concretise(b, "pow"),
                   concretise(mod, "pow"))
    if type(a) is SymInt and type(b) is int and 0 <= b <= 4:
        res = 1
        for _ in range(b):
            res = res * a
        return res
    if type(a) is int and type(b) is SymInt and a == 2 and b.lo >= 0 \
            and b.hi <= 256:
        return shl(1, b)
    if isinstance(a, (int, float)) and type(b) is SymInt:
        return a ** concretise(b, "pow")
    return concretise(a, "pow") ** concretise(b, "pow")


def truediv(a, b):
    if type(b) in (float, SymFloat) or type(a) in (float, SymFloat):
        a, b = float_of(a), float_of(b)
        if type(a) is float:
            return b.__rtruediv__(a)
        return a.__truediv__(b)
    a = plain_int(a)
    b = plain_int(b)
    if a is None or b is None:
        return NotImplemented
    if not b if type(b) is int else (b == 0):
        raise ZeroDivisionError("division by zero")
    for v in (a, b):
        m = max(abs(v.lo), abs(v.hi)) if type(v) is SymInt else abs(v)
        if m > 1 << 53:
            return concretise(a, "truediv") / concretise(b, "truediv")
    if type(b) is int and type(a) is SymInt:
        return float_of(a) / b
    return SymFloat(z3.fpDiv(RNE, to_fp(a), to_fp(b)))


# ------------------------------------------------------------------- bool
class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def as_int(self):
        return SymInt(z3.If(self.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1)

    def __bool__(self):
        return eng().decide(self.e)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "<sym bool>"

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _as(self, o):
        if type(o) is SymBool:
            return o.e
        if type(o) is bool:
            return z3.BoolVal(o)
        return None

    def __eq__(self, o):
        e = self._as(o)
        if e is not None:
            return SymBool(self.e == e)
        if isinstance(o, (int, float)):
            return self.as_int() == o
        return NotImplemented

    def __ne__(self, o):
        e = self._as(o)
        if e is not None:
            return SymBool(self.e != e)
        if isinstance(o, (int, float)):
            return self.as_int() != o
        return NotImplemented

    def _logic(self, o, f, g):
        e = self._as(o)
        if e is not None:
            return SymBool(f(self.e, e))
        if isinstance(o, int):
            return g(self.as_int(), o)
        return NotImplemented

    def __and__(self, o):
        return self._logic(o, z3.And, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return self._logic(o, z3.Or, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._logic(o, z3.Xor, lambda a, b: a ^ b)

    __rxor__ = __xor__


def _delegate(name):
    def method(self, *args):
        return getattr(self.as_int(), name)(*args)
    return method


for _n in ("add radd sub rsub mul rmul floordiv rfloordiv mod rmod truediv "
           "rtruediv lshift rlshift rshift rrshift lt le gt ge neg pos abs "
           "invert pow rpow").split():
    setattr(SymBool, "__%s__" % _n, _delegate("__%s__" % _n))
for _n in ("bit_length", "to_bytes", "conjugate"):
    setattr(SymBool, _n, _delegate(_n))


# ------------------------------------------------------------------ float
LIM53 = 1 << 53


class SymFloat:
    """A binary64.  Where the value is known to be n / 2**k exactly, with n an
    integer of at most 53 bits, it is kept as such (arithmetic on those that
    stays within 53 bits is exact in IEEE-754), else as a floating-point term."""

    __slots__ = ("_e", "_bits", "src", "n", "k", "zneg")

    def __init__(self, e, bits=None, src=None):
        self._e = e
        self._bits = bits
        self.src = src  # (code, bits) when widened from a narrower encoding
        self.n = None

    @staticmethod
    def dyadic(n, k, zneg):
        """n / 2**k; zneg() says whether a zero is the negative one."""
        if type(n) is not SymInt:
            if n == 0:
                z = zneg() if callable(zneg) else zneg
                if z is not False and not (z is True):
                    z = eng().decide(z)
                return -0.0 if z else 0.0
            return n / (1 << k) if k >= 0 else float(n << -k)
        f = SymFloat(None)
        f.n, f.k, f.zneg = n, k, zneg
        return f

    @property
    def e(self):
        if self._e is None:
            x = z3.fpSignedToFP(RNE, self.n.at(sbits(self.n.lo, self.n.hi)), F64)
            if self.k:
                x = z3.fpMul(RNE, x, z3.FPVal(2.0 ** -self.k, F64))
            z = self.zneg() if callable(self.zneg) else self.zneg
            if z is not False:
                x = z3.If(z3.And(self.n.e == 0, z), z3.fpMinusZero(F64), x)
            self._e = x
        if core.ENGINE is not None:
            core.ENGINE.uses_fp = True
        return self._e

    @property
    def __class__(self):
        return float

    @property
    def bits(self):
        """The IEEE-754 encoding (a NaN result is the canonical one)."""
        if self._bits is None:
            nan = z3.BitVecVal(0x7FF8 << 48, 64)
            v = z3.BitVec(eng().fresh("fpbits"), 64)
            eng().add(z3.If(z3.fpIsNaN(self.e), v == nan,
                            z3.fpBVToFP(v, F64) == self.e))
            # fpEQ treats -0 and +0 alike: pin the sign
            eng().add(z3.Implies(z3.fpIsZero(self.e),
                                 (z3.Extract(63, 63, v) == 1)
                                 == z3.fpIsNegative(self.e)))
            eng().model = None
            self._bits = v
        return self._bits

    def __bool__(self):
        if self.n is not None:
            return eng().decide(self.n.e != 0)
        return eng().decide(z3.Not(z3.fpIsZero(self.e)))

    def __float__(self):
        return concretise(self, "float")

    def __int__(self):
        return int(concretise(self, "int"))

    def __hash__(self):
        return hash(concretise(self, "hash"))

    def __repr__(self):
        return "<sym float>"

    def __str__(self):
        return str(concretise(self, "str"))

    def __format__(self, spec):
        return format(concretise(self, "format"), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _bin(self, o, op, sw, which):
        d = dyad(o)
        if self.n is not None and d is not None:
            x, y = (self.n, self.k, self.zneg), d
            if sw:
                x, y = y, x
            r = dyad_op(which, x, y)
            if r is not None:
                return r
        f = to_fp(o)
        if f is None:
            return NotImplemented
        a, b = (f, self.e) if sw else (self.e, f)
        return SymFloat(op(RNE, a, b))

    def __add__(self, o):
        return self._bin(o, z3.fpAdd, False, "+")

    def __radd__(self, o):
        return self._bin(o, z3.fpAdd, True, "+")

    def __sub__(self, o):
        return self._bin(o, z3.fpSub, False, "-")

    def __rsub__(self, o):
        return self._bin(o, z3.fpSub, True, "-")

    def __mul__(self, o):
        return self._bin(o, z3.fpMul, False, "*")

    def __rmul__(self, o):
        return self._bin(o, z3.fpMul, True, "*")

    def __truediv__(self, o):
        if self.n is not None and type(o) is not SymFloat and \
                isinstance(o, (int, float)) and type(o) is not SymInt and \
                type(o) is not SymBool and o == o and o:
            m, ex = math.frexp(float(o))
            if abs(m) == 0.5 and abs(ex) < 64:
                r = dyad_op("*", (self.n, self.k, self.zneg),
                            dyad(1.0 / float(o)))
                if r is not None:
                    return r
        f = to_fp(o)
        if f is None:
            return NotImplemented
        if eng().decide(z3.fpIsZero(f)):
            raise ZeroDivisionError("float division by zero")
        return SymFloat(z3.fpDiv(RNE, self.e, f))

    def __rtruediv__(self, o):
        f = to_fp(o)
        if f is None:
            return NotImplemented
        if not self:
            raise ZeroDivisionError("float division by zero")
        return SymFloat(z3.fpDiv(RNE, f, self.e))

    def __neg__(self):
        if self.n is not None:
            old = self.zneg

            def flip():
                z = old() if callable(old) else old
                return (not z) if isinstance(z, bool) else z3.Not(z)
            return SymFloat.dyadic(-self.n, self.k, flip)
        return SymFloat(z3.fpNeg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.n is not None:
            return SymFloat.dyadic(abs(self.n), self.k, False)
        return SymFloat(z3.fpAbs(self.e))

    def __round__(self, nd=None):
        if nd is not None:
            return round(concretise(self, "round"), nd)
        if self.n is not None:
            if self.k <= 0:
                return self.n << -self.k
            q = self.n >> self.k
            r = self.n & ((1 << self.k) - 1)
            half = 1 << (self.k - 1)
            odd = (q & 1) == 1
            up = ite(r > half, True, ite(r == half, odd, False))
            return q + ite(up, 1, 0)
        return SymFloat(z3.fpRoundToIntegral(RNE, self.e)).__trunc__()

    def __floor__(self):
        if self.n is not None:
            return self.n >> self.k if self.k > 0 else self.n << -self.k
        return SymFloat(z3.fpRoundToIntegral(z3.RTN(), self.e)).__trunc__()

    def __ceil__(self):
        if self.n is not None:
            return -((-self.n) >> self.k) if self.k > 0 else self.n << -self.k
        return SymFloat(z3.fpRoundToIntegral(z3.RTP(), self.e)).__trunc__()

    def __trunc__(self):
        if self.n is not None:
            if self.k <= 0:
                return self.n << -self.k
            return ite(self.n >= 0, self.n >> self.k, -((-self.n) >> self.k))
        if eng().decide(z3.fpIsNaN(self.e)):
            raise ValueError("cannot convert float NaN to integer")
        if eng().decide(z3.fpIsInf(self.e)):
            raise OverflowError("cannot convert float infinity to integer")
        big = z3.FPVal(2.0 ** 66, F64)
        if eng().decide(z3.Or(z3.fpGT(self.e, big), z3.fpLT(self.e, z3.fpNeg(big)))):
            return int(concretise(self, "int of a huge float"))
        return SymInt(z3.fpToSBV(RTZ, self.e, z3.BitVecSort(68)), -(2 ** 66), 2 ** 66)

    def __floordiv__(self, o):
        return concretise(self, "floordiv") // concretise(o, "floordiv")

    def __rfloordiv__(self, o):
        return concretise(o, "floordiv") // concretise(self, "floordiv")

    def __mod__(self, o):
        return concretise(self, "mod") % concretise(o, "mod")

    def __rmod__(self, o):
        return concretise(o, "mod") % concretise(self, "mod")

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 2:
            return 1.0 if o == 0 else (self if o == 1 else self * self)
        return concretise(self, "pow") ** concretise(o, "pow")

    def __rpow__(self, o):
        return concretise(o, "pow") ** concretise(self, "pow")

    def __eq__(self, o):
        return fcmp(self, o, "eq")

    def __ne__(self, o):
        return fcmp(self, o, "ne")

    def __lt__(self, o):
        return fcmp(self, o, "lt")

    def __le__(self, o):
        return fcmp(self, o, "le")

    def __gt__(self, o):
        return fcmp(self, o, "gt")

    def __ge__(self, o):
        return fcmp(self, o, "ge")

    def is_integer(self):
        return SymBool(z3.And(z3.Not(z3.fpIsInf(self.e)), z3.Not(z3.fpIsNaN(self.e)),
                              z3.fpEQ(z3.fpRoundToIntegral(RTZ, self.e), self.e)))

    @property
    def real(self):
        return self

    def conjugate(self):
        return self


def dyad(o):
    """(n, k, zneg) for a number of the form n / 2**k, else None."""
    t = type(o)
    if t is SymFloat:
        return None if o.n is None else (o.n, o.k, o.zneg)
    if t is SymBool:
        o = o.as_int()
        t = SymInt
    if t is SymInt:
        if max(abs(o.lo), abs(o.hi)) > LIM53:
            return None
        return o, 0, False
    if isinstance(o, (int, float)):
        if isinstance(o, int):
            o = int(o)
            return (o, 0, False) if abs(o) <= LIM53 else None
        if o != o or o in (math.inf, -math.inf):
            return None
        n, d = o.as_integer_ratio()
        k = d.bit_length() - 1
        if k > 64 or abs(n) > LIM53:
            return None
        return n, k, math.copysign(1.0, o) < 0
    return None


def _neg_z3(n, zneg):
    """z3 Bool: the sign of a dyadic is negative."""
    z = zneg() if callable(zneg) else zneg
    if type(n) is SymInt:
        z = z3.BoolVal(z) if isinstance(z, bool) else z
        return z3.Or(n.at(sbits(n.lo, n.hi)) < 0, z3.And(n.e == 0, z))
    if n:
        return z3.BoolVal(n < 0)
    return z3.BoolVal(z) if isinstance(z, bool) else z


def dyad_op(which, x, y):
    (a, ka, za), (b, kb, zb) = x, y
    if which == "*":
        n, k = a * b, ka + kb

        def zneg():
            return z3.Xor(_neg_z3(a, za), _neg_z3(b, zb))
    else:
        k = max(ka, kb)
        if k - min(ka, kb) > 60:
            return None
        p, q = a << (k - ka), b << (k - kb)
        n = p + q if which == "+" else p - q

        def zneg():
            s = _neg_z3(b, zb)
            return z3.And(_neg_z3(a, za), s if which == "+" else z3.Not(s))
    hi = max(abs(n.lo), abs(n.hi)) if type(n) is SymInt else abs(n)
    if hi > LIM53 or abs(k) > 200:
        return None
    return SymFloat.dyadic(n, k, zneg)


def to_fp(o):
    """A Float64 term for a number (ints are rounded like float())."""
    t = type(o)
    if t is SymFloat:
        return o.e
    if t is float:
        return z3.FPVal(o, F64)
    if t is SymBool:
        o = o.as_int()
        t = SymInt
    if t is SymInt:
        core.ENGINE.uses_fp = True
        W = sbits(o.lo, o.hi)
        return z3.fpSignedToFP(RNE, o.at(W), F64)
    if isinstance(o, (int, float)):
        return z3.FPVal(float(o), F64)
    return None


BIG = z3.FPSort(15, 113)


def dyad_cmp(o):
    """As dyad, for comparisons: integers of any size are exact."""
    if type(o) is SymBool:
        o = o.as_int()
    if type(o) is SymInt:
        return o, 0
    if type(o) is not SymFloat and isinstance(o, int):
        return int(o), 0
    if type(o) is not SymFloat and isinstance(o, float):
        if o != o or o in (math.inf, -math.inf):
            return None
        n, d = o.as_integer_ratio()
        return n, d.bit_length() - 1
    d = dyad(o)
    return None if d is None else d[:2]


def fcmp(a, o, name):
    """Exact comparison where at least one side is a float."""
    def lift(v):
        t = type(v)
        if t is SymFloat:
            return z3.fpToFP(RNE, v.e, BIG)
        if t is SymInt:
            W = sbits(v.lo, v.hi)
            if W > 112:
                return lift(concretise(v, "compare"))
            return z3.fpSignedToFP(RNE, v.at(W), BIG)
        if t is SymBool:
            return lift(v.as_int())
        if isinstance(v, float):
            return z3.fpToFP(RNE, z3.FPVal(v, F64), BIG)
        if isinstance(v, int):
            if abs(v) >= 1 << 112:
                return z3.fpPlusInfinity(BIG) if v > 0 else z3.fpMinusInfinity(BIG)
            return z3.fpSignedToFP(RNE, z3.BitVecVal(v, 114), BIG)
        return None
    d1, d2 = dyad_cmp(a), dyad_cmp(o)
    if d1 is not None and d2 is not None:
        k = max(d1[1], d2[1])
        x, y = d1[0] << (k - d1[1]), d2[0] << (k - d2[1])
        r = {"eq": lambda: x == y, "ne": lambda: x != y, "lt": lambda: x < y,
             "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y}[name]()
        return r
    if type(a) is SymFloat and type(o) in (SymFloat, float):
        x, y = a.e, to_fp(o)
    else:
        x, y = lift(a), lift(o)
        if y is None:
            return NotImplemented
    core.ENGINE.uses_fp = True
    op = {"eq": z3.fpEQ, "lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT,
          "ge": z3.fpGEQ}.get(name)
    if op is None:
        return SymBool(z3.Not(z3.fpEQ(x, y)))
    return SymBool(op(x, y))


def float_of(v):
    """float(v)"""
    if type(v) is SymFloat:
        return v
    if type(v) is SymBool:
        v = v.as_int()
    if type(v) is SymInt:
        if max(abs(v.lo), abs(v.hi)) <= LIM53:
            return SymFloat.dyadic(v, 0, False)
        return SymFloat(to_fp(v))
    return float(v)


def float_from_bits(bv):
    bv = z3.simplify(bv)
    if z3.is_bv_value(bv):
        return struct.unpack(">d", bv.as_long().to_bytes(8, "big"))[0]
    return SymFloat(z3.fpBVToFP(bv, F64), bv)


# ------------------------------------------------------- sequences in common
class SymSeq:
    """bytes or str with a concrete length."""

    __slots__ = ("els",)

    def __init__(self, els):
        self.els = els

    def __len__(self):
        return len(self.els)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        return bool(self.els)

    # -- element comparison
    @classmethod
    def lift(cls, o):
        """Elements of a like-kinded operand, else None."""
        if type(o) is cls:
            return o.els
        return cls._els_of(o)

    def __eq__(self, o):
        oe = self.lift(o)
        if oe is None:
            return NotImplemented
        return eq_els(self.els, oe)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if type(r) is bool:
            return not r
        return SymBool(z3.Not(r.e))

    def __hash__(self):
        return hash(concretise(self, "hash"))

    def _lex(self, o, strict, less):
        oe = self.lift(o)
        if oe is None:
            return NotImplemented
        a, b = (self.els, oe) if less else (oe, self.els)
        for x, y in zip(a, b):
            if x == y:
                continue
            return bool(x < y)
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._lex(o, True, True)

    def __le__(self, o):
        return self._lex(o, False, True)

    def __gt__(self, o):
        return self._lex(o, True, False)

    def __ge__(self, o):
        return self._lex(o, False, False)

    def __add__(self, o):
        oe = self.lift(o)
        if oe is None:
            return NotImplemented
        return self.make(list(self.els) + list(oe))

    def __radd__(self, o):
        oe = self.lift(o)
        if oe is None:
            return NotImplemented
        return self.make(list(oe) + list(self.els))

    def __mul__(self, n):
        return self.make(list(self.els) * concretise(n, "repeat"))

    __rmul__ = __mul__

    def __contains__(self, o):
        return self.find(o) >= 0

    def __repr__(self):
        return "<sym %s[%d]>" % (self.kind, len(self.els))

    def _window(self, start, end):
        n = len(self.els)
        s, e, _ = slice(None if start is None else concretise(start, "slice"),
                        None if end is None else concretise(end, "slice")).indices(n)
        if start is not None and start > n:
            return None
        return s, e

    def _needle(self, sub):
        els = self.lift(sub)
        if els is None:
            if self.kind == "bytes" and isinstance(sub, int):
                return [sub]
            raise TypeError("bad operand for %s" % self.kind)
        return els

    def find(self, sub, start=None, end=None):
        els = self._needle(sub)
        w = self._window(start, end)
        if w is None:
            return -1
        s, e = w
        k = len(els)
        for i in range(s, e - k + 1):
            if eq_els(self.els[i:i + k], els):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        els = self._needle(sub)
        w = self._window(start, end)
        if w is None:
            return -1
        s, e = w
        k = len(els)
        for i in range(e - k, s - 1, -1):
            if eq_els(self.els[i:i + k], els):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found" if self.kind == "str" else
                             "subsection not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        els = self._needle(sub)
        w = self._window(start, end)
        if w is None:
            return 0
        s, e = w
        k = len(els)
        if k == 0:
            return max(0, e - s) + 1
        n = 0
        i = s
        while i <= e - k:
            if eq_els(self.els[i:i + k], els):
                n += 1
                i += k
            else:
                i += 1
        return n

    def startswith(self, pre, start=None, end=None):
        if isinstance(pre, tuple):
            return any(self.startswith(p, start, end) for p in pre)
        els = self._needle(pre)
        w = self._window(start, end)
        if w is None:
            return False
        s, e = w
        if e - s < len(els):
            return False
        return eq_els(self.els[s:s + len(els)], els)

    def endswith(self, suf, start=None, end=None):
        if isinstance(suf, tuple):
            return any(self.endswith(p, start, end) for p in suf)
        els = self._needle(suf)
        w = self._window(start, end)
        if w is None:
            return False
        s, e = w
        if e - s < len(els):
            return False
        return eq_els(self.els[e - len(els):e], els)

    def removeprefix(self, pre):
        if self.startswith(pre):
            return self.make(self.els[len(self._needle(pre)):])
        return self

    def removesuffix(self, suf):
        k = len(self._needle(suf))
        if k and self.endswith(suf):
            return self.make(self.els[:-k])
        return self

    def partition(self, sep):
        i = self.find(sep)
        k = len(self._needle(sep))
        if not k:
            raise ValueError("empty separator")
        if i < 0:
            return self.make(self.els), self.make([]), self.make([])
        return (self.make(self.els[:i]), sep, self.make(self.els[i + k:]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        k = len(self._needle(sep))
        if not k:
            raise ValueError("empty separator")
        if i < 0:
            return self.make([]), self.make([]), self.make(self.els)
        return (self.make(self.els[:i]), sep, self.make(self.els[i + k:]))

    def split(self, sep=None, maxsplit=-1):
        maxsplit = concretise(maxsplit, "split")
        out = []
        if sep is None:
            i, n = 0, len(self.els)
            while True:
                while i < n and self._is_space(self.els[i]):
                    i += 1
                if i >= n:
                    return out
                if 0 <= maxsplit <= len(out):
                    j = n
                    while j > i and self._is_space(self.els[j - 1]):
                        j -= 1
                    out.append(self.make(self.els[i:j]))
                    return out
                j = i
                while j < n and not self._is_space(self.els[j]):
                    j += 1
                out.append(self.make(self.els[i:j]))
                i = j
        els = self._needle(sep)
        k = len(els)
        if not k:
            raise ValueError("empty separator")
        i = beg = 0
        while i <= len(self.els) - k:
            if 0 <= maxsplit <= len(out):
                break
            if eq_els(self.els[i:i + k], els):
                out.append(self.make(self.els[beg:i]))
                i += k
                beg = i
            else:
                i += 1
        out.append(self.make(self.els[beg:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1:
            return self.split(sep)
        if sep is None:
            return concretise(self, "rsplit").rsplit(None, maxsplit)
        out = []
        cur = self
        while len(out) < maxsplit:
            a, s, b = cur.rpartition(sep) if isinstance(cur, SymSeq) \
                else cur.rpartition(concretise(sep, "rsplit"))
            if not s:
                break
            out.append(b)
            cur = a
            if not isinstance(cur, SymSeq):
                out.extend(reversed(cur.rsplit(concretise(sep, "r"),
                                               maxsplit - len(out))))
                out.reverse()
                return out
        out.append(cur)
        out.reverse()
        return out

    def _strip(self, chars, left, right):
        if chars is None:
            def hit(x):
                return self._is_space(x)
        else:
            els = self._needle(chars)

            def hit(x):
                return any_eq(x, els)
        i, j = 0, len(self.els)
        if left:
            while i < j and hit(self.els[i]):
                i += 1
        if right:
            while j > i and hit(self.els[j - 1]):
                j -= 1
        return self.make(self.els[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def join(self, parts):
        return join(self, self.els, list(parts), type(self))

    def replace(self, old, new, count=-1):
        oe, ne = self._needle(old), self._needle(new)
        count = concretise(count, "replace")
        if not oe:
            return concretise(self, "replace").replace(
                concretise(old, "r"), concretise(new, "r"), count)
        out, i, n = [], 0, 0
        while i < len(self.els):
            if (count < 0 or n < count) and i + len(oe) <= len(self.els) and \
                    eq_els(self.els[i:i + len(oe)], oe):
                out.extend(ne)
                i += len(oe)
                n += 1
            else:
                out.append(self.els[i])
                i += 1
        return self.make(out)

    def _pad(self, n, fill, left):
        n = concretise(n, "pad") - len(self.els)
        f = self._needle(fill)
        if n <= 0:
            return self
        return self.make(list(f) * n + list(self.els) if left
                         else list(self.els) + list(f) * n)

    def _ascii(self, pred):
        """Non-empty and every element satisfies a predicate on small ints."""
        if not self.els:
            return False
        for x in self.els:
            if type(x) is not SymInt:
                if not pred(x):
                    return False
                continue
            terms = table_pred(x, pred)
            if not eng().decide(terms):
                return False
        return True

    def _map(self, f):
        out = []
        for x in self.els:
            if type(x) is not SymInt:
                out.append(x)
                continue
            if x.hi > 127 and self.kind == "str" and not eng().decide(
                    z3.ULT(x.at(22), 128)):
                x = concretise(x, "case of a non-ASCII character")
                r = f(chr(x))
                out.extend(ord(c) for c in r)
                continue
            e = x.at(22)
            for a, b in f(None):
                # a range of characters shifted by a constant
                lo, hi, d = a[0], a[1], b
                e = z3.If(z3.And(z3.UGE(x.at(22), lo), z3.ULE(x.at(22), hi)),
                          x.at(22) + d, e)
            out.append(SymInt(z3.Extract(x.e.size() - 1, 0, e), 0,
                              min(max(x.hi, 122), (1 << x.e.size()) - 1)))
        return self.make(out)


def table_pred(x, pred):
    """z3 Bool: pred holds of the code x (ranges over 0..255, then exact)."""
    lo, hi = x.lo, x.hi
    if hi > 255:
        if not eng().decide(z3.ULT(x.at(22), 256)):
            return z3.BoolVal(pred(concretise(x, "character class")))
        hi = 255
    rs = []
    beg = None
    for c in range(lo, hi + 1):
        if pred(c):
            if beg is None:
                beg = c
        elif beg is not None:
            rs.append((beg, c - 1))
            beg = None
    if beg is not None:
        rs.append((beg, hi))
    W = x.e.size()
    big = max(W, 9)
    e = x.at(big)
    return z3.Or(*[z3.And(z3.UGE(e, a), z3.ULE(e, b)) if a != b else e == a
                   for a, b in rs]) if rs else z3.BoolVal(False)


def eq_els(a, b):
    """Element-wise equality as one truth value."""
    if len(a) != len(b):
        return False
    terms = []
    for x, y in zip(a, b):
        r = x == y
        if r is True:
            continue
        if r is False or r is NotImplemented:
            return False
        terms.append(r.e)
    if not terms:
        return True
    return SymBool(z3.And(*terms) if len(terms) > 1 else terms[0])


def any_eq(x, els):
    terms = []
    for y in els:
        r = x == y
        if r is True:
            return True
        if type(r) is SymBool:
            terms.append(r.e)
    if not terms:
        return False
    return eng().decide(z3.Or(*terms))


def join(sep, sep_els, parts, cls):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.extend(sep_els)
        els = cls.lift(p)
        if els is None:
            raise TypeError("sequence item %d: expected %s instance, %s found"
                            % (i, cls.kind, type(p).__name__))
        out.extend(els)
    return cls.make(out)


# ------------------------------------------------------------------- bytes
def make_bytes(els):
    els = list(els)
    for x in els:
        if type(x) is not int:
            break
    else:
        return bytes(els)
    return SymBytes(els)


class SymBytes(SymSeq):
    __slots__ = ()
    kind = "bytes"
    make = staticmethod(make_bytes)

    @property
    def __class__(self):
        return bytes

    @classmethod
    def _els_of(cls, o):
        if isinstance(o, (bytes, bytearray, memoryview)):
            return list(bytes(o))
        return None

    __eq__ = SymSeq.__eq__
    __hash__ = SymSeq.__hash__

    def __bytes__(self):
        return concretise(self, "bytes")

    def __str__(self):
        return str(concretise(self, "str"))

    def __iter__(self):
        return iter(list(self.els))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return make_bytes(self.els[cslice(i)])
        return self.els[concretise(i, "index")]

    @staticmethod
    def _is_space(x):
        return any_eq(x, (32, 9, 10, 11, 12, 13))

    def decode(self, encoding="utf-8", errors="strict"):
        enc = concretise(encoding, "encoding").lower().replace("_", "-")
        if errors != "strict":
            return concretise(self, "decode").decode(enc, errors)
        if enc in ("ascii", "us-ascii"):
            for i, x in enumerate(self.els):
                if not x < 128:
                    raise UnicodeDecodeError("ascii", b"?", 0, 1, "range")
            return make_str(list(self.els))
        if enc in ("latin-1", "iso-8859-1", "latin1"):
            return make_str(list(self.els))
        if enc in ("utf-8", "utf8"):
            return utf8_decode(self.els)
        return concretise(self, "decode").decode(enc)

    def hex(self, *a):
        if a:
            return concretise(self, "hex").hex(*a)
        out = []
        for x in self.els:
            for nib in (x >> 4, x & 15):
                out.append(nib + 48 if type(nib) is int and nib < 10 else
                           (nib + 87 if type(nib) is int else
                            ite(nib < 10, nib + 48, nib + 87)))
        return make_str(out)

    def upper(self):
        return self._map(UPPER)

    def lower(self):
        return self._map(LOWER)

    def isdigit(self):
        return self._ascii(lambda c: 48 <= c <= 57)

    def isspace(self):
        return self._ascii(lambda c: c in (32, 9, 10, 11, 12, 13))

    def isalpha(self):
        return self._ascii(lambda c: 65 <= c <= 90 or 97 <= c <= 122)

    def isalnum(self):
        return self._ascii(lambda c: 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57)

    def splitlines(self, keepends=False):
        return concretise(self, "splitlines").splitlines(keepends)

    def ljust(self, n, fill=b" "):
        return self._pad(n, fill, False)

    def rjust(self, n, fill=b" "):
        return self._pad(n, fill, True)

    # memoryview-ish
    def tobytes(self):
        return self

    def release(self):
        return None

    @property
    def nbytes(self):
        return len(self.els)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def UPPER(c):
    return c.upper() if c is not None else [((97, 122), -32)]


def LOWER(c):
    return c.lower() if c is not None else [((65, 90), 32)]


def utf8_decode(els):
    out = []
    i, n = 0, len(els)

    def bad(why):
        raise UnicodeDecodeError("utf-8", b"\xff" * max(n, 1), min(i, max(n - 1, 0)),
                                 min(i + 1, max(n, 1)), why)

    while i < n:
        b = els[i]
        if b < 0x80:
            out.append(b if type(b) is int else SymInt(b.at(7), 0, 127))
            i += 1
            continue
        if b < 0xC2 or b > 0xF4:
            bad("invalid start byte")
        need = 1 if b < 0xE0 else (2 if b < 0xF0 else 3)
        cp = b & (0x1F if need == 1 else (0x0F if need == 2 else 0x07))
        for k in range(1, need + 1):
            if i + k >= n:
                bad("unexpected end of data")
            c = els[i + k]
            lo, hi = 0x80, 0xBF
            if k == 1 and need == 2:
                if b == 0xE0:
                    lo = 0xA0
                elif b == 0xED:
                    hi = 0x9F
            if k == 1 and need == 3:
                if b == 0xF0:
                    lo = 0x90
                elif b == 0xF4:
                    hi = 0x8F
            if c < lo or c > hi:
                bad("invalid continuation byte")
            cp = (cp << 6) | (c & 0x3F)
        out.append(cp)
        i += need + 1
    return make_str(out)


# --------------------------------------------------------------------- str
def make_str(els):
    els = list(els)
    for x in els:
        if type(x) is not int:
            break
    else:
        return "".join(map(chr, els))
    return SymStr(els)


def _str_space(c):
    return chr(c).isspace()


class SymStr(SymSeq):
    __slots__ = ()
    kind = "str"
    make = staticmethod(make_str)

    @property
    def __class__(self):
        return str

    @classmethod
    def _els_of(cls, o):
        if isinstance(o, str):
            return [ord(c) for c in o]
        return None

    __eq__ = SymSeq.__eq__
    __hash__ = SymSeq.__hash__

    def __str__(self):
        return concretise(self, "str")

    def __format__(self, spec):
        return format(concretise(self, "format"), spec)

    def __iter__(self):
        return iter([make_str([x]) for x in self.els])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return make_str(self.els[cslice(i)])
        return make_str([self.els[concretise(i, "index")]])

    @staticmethod
    def _is_space(x):
        if type(x) is not SymInt:
            return _str_space(x)
        return eng().decide(table_pred(x, _str_space))

    def encode(self, encoding="utf-8", errors="strict"):
        enc = concretise(encoding, "encoding").lower().replace("_", "-")
        if errors != "strict":
            return concretise(self, "encode").encode(enc, errors)
        if enc in ("ascii", "us-ascii", "latin-1", "iso-8859-1", "latin1"):
            lim = 128 if "ascii" in enc else 256
            for x in self.els:
                if not x < lim:
                    raise UnicodeEncodeError(enc, "?", 0, 1, "range")
            return make_bytes([x if type(x) is int else SymInt(
                x.at(8), 0, min(x.hi, lim - 1)) for x in self.els])
        if enc in ("utf-8", "utf8"):
            return utf8_encode(self.els)
        return concretise(self, "encode").encode(enc)

    def upper(self):
        return self._map(UPPER)

    def lower(self):
        return self._map(LOWER)

    def casefold(self):
        return self._map(LOWER)

    def title(self):
        out = []
        prev = False
        for x in self.els:
            one = make_str([x])
            cased = one.isalpha()
            one = one.lower() if prev else one.upper()
            out.extend(one.els if type(one) is SymStr else [ord(c) for c in one])
            prev = cased
        return make_str(out)

    def capitalize(self):
        return make_str(self.els[:1]).upper() + make_str(self.els[1:]).lower()

    def isdigit(self):
        return self._ascii(lambda c: chr(c).isdigit())

    def isdecimal(self):
        return self._ascii(lambda c: chr(c).isdecimal())

    def isnumeric(self):
        return self._ascii(lambda c: chr(c).isnumeric())

    def isspace(self):
        return self._ascii(_str_space)

    def isalpha(self):
        return self._ascii(lambda c: chr(c).isalpha())

    def isalnum(self):
        return self._ascii(lambda c: chr(c).isalnum())

    def isprintable(self):
        return not self.els or self._ascii(lambda c: chr(c).isprintable())

    def isascii(self):
        return not self.els or self._ascii(lambda c: c < 128)

    def isidentifier(self):
        if not self.els:
            return False
        return char_is(self.els[0], lambda c: chr(c).isidentifier()) and \
            all(char_is(x, lambda c: ("a" + chr(c)).isidentifier())
                for x in self.els[1:])

    def splitlines(self, keepends=False):
        ends = (10, 11, 12, 13, 28, 29, 30, 133, 0x2028, 0x2029)
        out, beg, i, n = [], 0, 0, len(self.els)
        while i < n:
            if any_eq(self.els[i], ends):
                k = 1
                if i + 1 < n and self.els[i] == 13 and self.els[i + 1] == 10:
                    k = 2
                out.append(make_str(self.els[beg:i + (k if keepends else 0)]))
                i += k
                beg = i
            else:
                i += 1
        if beg < n:
            out.append(make_str(self.els[beg:]))
        return out

    def ljust(self, n, fill=" "):
        return self._pad(n, fill, False)

    def rjust(self, n, fill=" "):
        return self._pad(n, fill, True)

    def center(self, n, fill=" "):
        return concretise(self, "center").center(concretise(n, "center"), fill)

    def zfill(self, n):
        return concretise(self, "zfill").zfill(concretise(n, "zfill"))

    def __mod__(self, o):
        return concretise(self, "format") % o

    def format(self, *a, **k):
        return concretise(self, "format").format(*a, **k)

    def translate(self, t):
        return concretise(self, "translate").translate(t)

    def expandtabs(self, *a):
        return concretise(self, "expandtabs").expandtabs(*a)


def char_is(x, pred):
    if type(x) is not SymInt:
        return bool(pred(x))
    return eng().decide(table_pred(x, pred))


def utf8_encode(els):
    out = []
    for x in els:
        if x < 0x80:
            out.append(x if type(x) is int else byte_el(x.at(8)))
        elif x < 0x800:
            out += [0xC0 | (x >> 6), 0x80 | (x & 0x3F)]
        elif x < 0x10000:
            if 0xD800 <= x and x <= 0xDFFF:
                raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
            out += [0xE0 | (x >> 12), 0x80 | ((x >> 6) & 0x3F), 0x80 | (x & 0x3F)]
        else:
            out += [0xF0 | (x >> 18), 0x80 | ((x >> 12) & 0x3F),
                    0x80 | ((x >> 6) & 0x3F), 0x80 | (x & 0x3F)]
    return make_bytes([y if type(y) is int else byte_el(y.at(8)) for y in out])


def cslice(s):
    return slice(*[None if x is None else concretise(x, "slice")
                   for x in (s.start, s.stop, s.step)])


def str_to_int(s, base=10):
    """int(str) for a symbolic str or bytes."""
    if base != 10:
        return int(concretise(s, "int"), base)
    if type(s) is SymBytes:
        s = make_str(s.els)
        if type(s) is str:
            return int(s)
    s = s.strip()
    if type(s) is str:
        return int(s)
    els = list(s.els)
    neg = False
    if els and els[0] == 45:
        neg = True
        els = els[1:]
    elif els and els[0] == 43:
        els = els[1:]
    if not els:
        raise ValueError("invalid literal for int() with base 10")
    val = 0
    prev_us = True
    for i, c in enumerate(els):
        if c >= 128:
            c = concretise(c, "non-ASCII digit")
            if not chr(c).isdecimal():
                raise ValueError("invalid literal for int() with base 10")
            val = val * 10 + int(chr(c))
            prev_us = False
            continue
        if c == 95:
            if prev_us or i == len(els) - 1:
                raise ValueError("invalid literal for int() with base 10")
            prev_us = True
            continue
        if c < 48 or c > 57:
            raise ValueError("invalid literal for int() with base 10")
        prev_us = False
        d = c - 48
        if type(d) is SymInt:
            d = SymInt(z3.Extract(3, 0, d.at(8)), 0, 9)
        val = val * 10 + d
    return -val if neg else val


def int_to_str(v):
    """str(int)"""
    if v.lo < 0:
        if v < 0:
            r = int_to_str(-v) if type(-v) is SymInt else str(-v)
            return "-" + r
        v = SymInt(v.at(ubits(v.hi)), 0, v.hi)
    digits = 1
    while v.hi >= 10 ** digits:
        if v < 10 ** digits:
            break
        digits += 1
    if digits > 12:
        return str(concretise(v, "str"))
    els = []
    for k in range(digits - 1, -1, -1):
        d = (v // (10 ** k)) % 10 if k or digits > 1 else v
        if digits == 1:
            d = v
        if type(d) is SymInt:
            els.append(SymInt(z3.Extract(6, 0, (d + 48).at(max(7, (d + 48).e.size()))), 48, 57))
        else:
            els.append(d + 48)
    return make_str(els)


# ------------------------------------------------------------- concretising
SYMS = None


def is_sym(v):
    t = type(v)
    return t is SymInt or t is SymBool or t is SymBytes or t is SymStr or t is SymFloat


def concretise(v, why="?"):
    """A concrete value of v on this path; every other value is queued."""
    t = type(v)
    if t is SymInt:
        e = eng()
        _count(e, why)
        n = 0
        while True:
            m = e.value_of(v.e)
            val = m.as_signed_long() if v.lo < 0 else m.as_long()
            # an interval bound that the width does not enforce
            if e.decide(v.e == m):
                return val
            n += 1
            if n >= e.conc_limit:
                e.cut("more than %d concrete values for %s" % (n, why))
    if t is SymBool:
        return bool(v)
    if t is SymFloat:
        e = eng()
        _count(e, why)
        for n in range(8):
            m = e.value_of(v.bits)
            if e.decide(v.bits == m):
                return struct.unpack(">d", m.as_long().to_bytes(8, "big"))[0]
        e.cut("concrete floats for %s" % why)
    if t is SymBytes or t is SymStr:
        e = eng()
        _count(e, why)
        n = 0
        while True:
            vals = []
            terms = []
            for x in v.els:
                if type(x) is SymInt:
                    m = e.value_of(x.e)
                    vals.append(m.as_signed_long() if x.lo < 0 else m.as_long())
                    terms.append(x.e == m)
                else:
                    vals.append(x)
            if e.decide(z3.And(*terms)):
                return bytes(vals) if t is SymBytes else "".join(map(chr, vals))
            n += 1
            if n >= e.conc_limit:
                e.cut("more than %d concrete values for %s" % (n, why))
    return v


def _count(e, why):
    e.stats.concretised[why] = e.stats.concretised.get(why, 0) + 1


# ------------------------------------------------------------------ results
def evaluate(v, model):
    """A plain, JSON-able value of v in a model."""
    t = type(v)
    if t is SymInt:
        m = model.eval(v.e, model_completion=True)
        return m.as_signed_long() if v.lo < 0 else m.as_long()
    if t is SymBool:
        return z3.is_true(model.eval(v.e, model_completion=True))
    if t is SymFloat:
        if v._bits is not None:
            m = model.eval(v._bits, model_completion=True).as_long()
        else:
            f = z3.simplify(model.eval(v.e, model_completion=True))
            if z3.is_true(z3.simplify(z3.fpIsNaN(f))):
                m = 0x7FF8 << 48
            else:
                m = z3.simplify(z3.fpToIEEEBV(f)).as_long()
        return {"float": "%016x" % m}
    if t is SymBytes:
        return {"bytes": bytes(evaluate(x, model) for x in v.els).hex()}
    if t is SymStr:
        return {"str": [evaluate(x, model) for x in v.els]}
    if t is bytes or t is bytearray:
        return {"bytes": bytes(v).hex()}
    if t is str:
        return {"str": [ord(c) for c in v]}
    if t is float:
        if v != v:
            return {"float": "7ff8000000000000"}
        return {"float": struct.pack(">d", v).hex()}
    if t in (list, tuple):
        return {"list": [evaluate(x, model) for x in v]}
    if t is dict:
        return {"dict": [[evaluate(a, model), evaluate(b, model)]
                         for a, b in v.items()]}
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return int(v)
    return {"repr": type(v).__name__}


def as_z3bool(c):
    """True, False or a z3 Bool."""
    t = type(c)
    if t is SymBool:
        return c.e
    if t is SymInt:
        return c.e != 0
    if t is SymFloat:
        return z3.Not(z3.fpIsZero(c.e))
    return bool(c)


def ite(c, a, b):
    """A merged value (no fork)."""
    if type(c) is not SymBool:
        return a if c else b
    if type(a) in (SymFloat, float) or type(b) in (SymFloat, float):
        return SymFloat(z3.If(c.e, to_fp(a), to_fp(b)))
    if isinstance(a, bool) and isinstance(b, bool):
        x, y = (v.e if type(v) is SymBool else z3.BoolVal(v) for v in (a, b))
        return SymBool(z3.If(c.e, x, y))
    if isinstance(a, int) and isinstance(b, int):
        a, b = plain_int(a), plain_int(b)
        al, ah = (a.lo, a.hi) if type(a) is SymInt else (a, a)
        bl, bh = (b.lo, b.hi) if type(b) is SymInt else (b, b)
        lo, hi = min(al, bl), max(ah, bh)
        W = max(sbits(al, ah), sbits(bl, bh))
        x = a.at(W) if type(a) is SymInt else z3.BitVecVal(a, W)
        y = b.at(W) if type(b) is SymInt else z3.BitVecVal(b, W)
        return mk(z3.If(c.e, x, y), lo, hi)
    return a if c else b
