"""The harness's view of the engine while a case is explored."""

import z3

from . import core
from .values import (
    F64, SymBool, SymBytes, SymFloat, SymInt, SymStr, as_z3bool, concretise,
    is_sym, ite, make_bytes, make_str, ubits, width_for,
)


class SymCtx:
    symbolic = True

    def __init__(self, engine):
        self.engine = engine
        self.seq = {}

    def _name(self, name):
        n = self.seq.get(name, 0)
        self.seq[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def _var(self, name, lo, hi):
        if lo == hi:
            return lo
        W = width_for(lo, hi)
        v = z3.BitVec(name, W)
        s = SymInt(v, lo, hi)
        full_lo, full_hi = (0, (1 << W) - 1) if lo >= 0 else \
            (-(1 << (W - 1)), (1 << (W - 1)) - 1)
        if lo > full_lo:
            self.engine.add(z3.UGE(v, lo) if lo >= 0 else v >= lo)
        if hi < full_hi:
            self.engine.add(z3.ULE(v, hi) if lo >= 0 else v <= hi)
        if lo > full_lo or hi < full_hi:
            self.engine.model = None
        return s

    def int(self, name, lo, hi):
        name = self._name(name)
        v = self._var(name, lo, hi)
        self.engine.inputs[name] = v
        return v

    def bool(self, name):
        name = self._name(name)
        v = SymBool(z3.Bool(name))
        self.engine.inputs[name] = v
        return v

    def bytes(self, name, n):
        name = self._name(name)
        v = make_bytes([SymInt(z3.BitVec("%s.%d" % (name, i), 8), 0, 255)
                        for i in range(n)])
        self.engine.inputs[name] = v
        return v

    def str(self, name, n, lo=0, hi=127, alphabet=None):
        """n characters lo..hi, or each drawn from an alphabet."""
        name = self._name(name)
        els = []
        for i in range(n):
            if alphabet is not None:
                codes = sorted({ord(c) for c in alphabet})
                x = self._var("%s.%d" % (name, i), codes[0], codes[-1])
                if type(x) is SymInt:
                    self.engine.add(z3.Or(*[x.e == c for c in codes]))
                    self.engine.model = None
            else:
                x = self._var("%s.%d" % (name, i), lo, hi)
                if type(x) is SymInt and lo < 0xD800 <= hi:
                    self.engine.add(z3.Not(z3.And(z3.UGE(x.e, 0xD800),
                                                  z3.ULE(x.e, 0xDFFF))))
                    self.engine.model = None
            els.append(x)
        v = make_str(els)
        self.engine.inputs[name] = v
        return v

    def float(self, name, nan=True):
        name = self._name(name)
        b = z3.BitVec(name, 64)
        v = SymFloat(z3.fpBVToFP(b, F64), b)
        # only the canonical NaN: payloads are outside the claim
        isnan = z3.And(z3.Extract(62, 52, b) == 0x7FF, z3.Extract(51, 0, b) != 0)
        if nan:
            self.engine.add(z3.Implies(isnan, b == 0x7FF8 << 48))
        else:
            self.engine.add(z3.Not(isnan))
        self.engine.model = None
        self.engine.inputs[name] = v
        return v

    def pick(self, name, options):
        """One of the options; each is explored."""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[concretise(i, "choice")]

    def size(self, name, lo, hi):
        """A number that steers structure (a length, a split point)."""
        return concretise(self.int(name, lo, hi), "size")

    def concrete(self, v):
        return concretise(v, "harness")

    def assume(self, cond):
        self.engine.assume(cond)

    def check(self, cond, message):
        self.engine.require(cond, message)

    def fail(self, message):
        self.engine.require(False, message)

    def reach(self, label):
        r = self.engine.stats.reached
        r[label] = r.get(label, 0) + 1

    def observe(self, label, value):
        self.engine.observed.append((label, value))

    # truth values without forking
    def all(self, *conds):
        es = [as_z3bool(c) for c in conds]
        if any(e is False for e in es):
            return False
        es = [e for e in es if e is not True]
        return SymBool(z3.And(*es)) if es else True

    def any(self, *conds):
        es = [as_z3bool(c) for c in conds]
        if any(e is True for e in es):
            return True
        es = [e for e in es if e is not False]
        return SymBool(z3.Or(*es)) if es else False

    def no(self, cond):
        e = as_z3bool(cond)
        return (not e) if isinstance(e, bool) else SymBool(z3.Not(e))

    def implies(self, a, b):
        return self.any(self.no(a), b)

    def iff(self, a, b):
        a, b = as_z3bool(a), as_z3bool(b)
        if isinstance(a, bool):
            a = z3.BoolVal(a)
        if isinstance(b, bool):
            b = z3.BoolVal(b)
        return SymBool(a == b)

    def ite(self, c, a, b):
        return ite(c, a, b)

    def eq(self, a, b):
        """Structural equality, as one truth value. NaN equals NaN."""
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.all(*(self.eq(x, y) for x, y in zip(a, b)))
        if isinstance(a, dict) and isinstance(b, dict):
            if list(sorted(map(str, a))) != list(sorted(map(str, b))):
                return False
            return self.all(*(self.eq(a[k], b[k]) for k in a))
        if isinstance(a, float) and isinstance(b, float):
            if (type(a) is SymFloat and a.n is not None) or (
                    type(b) is SymFloat and b.n is not None):
                return a == b
            if type(a) is SymFloat or type(b) is SymFloat:
                x = a.e if type(a) is SymFloat else z3.FPVal(a, F64)
                y = b.e if type(b) is SymFloat else z3.FPVal(b, F64)
                return SymBool(z3.Or(z3.fpEQ(x, y),
                                     z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y))))
            return a == b or (a != a and b != b)
        return a == b
