"""The harness's view when it is run for real on concrete inputs."""

import struct


class Failed(Exception):
    """A check failed for real."""


class Mismatch(Exception):
    """The run does not follow the recorded inputs."""


def decode(v):
    if isinstance(v, dict):
        if "bytes" in v:
            return bytes.fromhex(v["bytes"])
        if "str" in v:
            return "".join(map(chr, v["str"]))
        if "float" in v:
            return struct.unpack(">d", bytes.fromhex(v["float"]))[0]
        if "list" in v:
            return [decode(x) for x in v["list"]]
        if "dict" in v:
            return {decode(a): decode(b) for a, b in v["dict"]}
    return v


def encode(v):
    if isinstance(v, (bytes, bytearray, memoryview)):
        return {"bytes": bytes(v).hex()}
    if isinstance(v, str):
        return {"str": [ord(c) for c in str(v)]}
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, float):
        if v != v:
            return {"float": "7ff8000000000000"}
        return {"float": struct.pack(">d", v).hex()}
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (list, tuple)):
        return {"list": [encode(x) for x in v]}
    if isinstance(v, dict):
        return {"dict": [[encode(a), encode(b)] for a, b in v.items()]}
    return {"repr": type(v).__name__}


class PlainCtx:
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.seq = {}
        self.observed = []
        self.checks = 0

    def _get(self, name):
        n = self.seq.get(name, 0)
        self.seq[name] = n + 1
        name = name if n == 0 else "%s#%d" % (name, n)
        if name not in self.inputs:
            raise Mismatch("no recorded input %r" % name)
        return decode(self.inputs[name])

    def int(self, name, lo, hi):
        if lo == hi:
            self._skip(name)
            return lo
        return self._get(name)

    def _skip(self, name):
        self.seq[name] = self.seq.get(name, 0) + 1

    def bool(self, name):
        return self._get(name)

    def bytes(self, name, n):
        return self._get(name)

    def str(self, name, n, lo=0, hi=127, alphabet=None):
        return self._get(name)

    def float(self, name, nan=True):
        return self._get(name)

    def pick(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    def size(self, name, lo, hi):
        return self.int(name, lo, hi)

    def concrete(self, v):
        return v

    def assume(self, cond):
        if not cond:
            raise Mismatch("an assumption does not hold")

    def check(self, cond, message):
        self.checks += 1
        if not cond:
            raise Failed(message)

    def fail(self, message):
        raise Failed(message)

    def reach(self, label):
        pass

    def observe(self, label, value):
        self.observed.append((label, encode(value)))

    def all(self, *conds):
        return all(conds)

    def any(self, *conds):
        return any(conds)

    def no(self, cond):
        return not cond

    def implies(self, a, b):
        return bool(not a or b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return sorted(map(str, a)) == sorted(map(str, b)) and all(
                self.eq(a[k], b[k]) for k in a)
        if isinstance(a, float) and isinstance(b, float):
            return a == b or (a != a and b != b)
        return a == b
