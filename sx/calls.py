"""What a call does when a symbolic value reaches code we cannot interpret.

Instrumented source (sx.transform) routes its calls, subscripts, membership
tests and f-strings through here.  Python functions are simply called: their
bodies run on the symbolic values.  C functions are modelled (struct, ctypes,
int, len, io, ...); a C function without a model gets concrete arguments, every
feasible value of which is explored in turn (or the path is cut and reported).
"""

from __future__ import annotations

import builtins
import ctypes
import io
import math
import pathlib
import re
import struct
import types

import z3

from . import core, rx
from .values import (
    F16, F32, F64, RNE, SymBool, SymBytes, SymFloat, SymInt, SymSeq, SymStr,
    byte_el, concretise, el_bv, eq_els, float_from_bits, float_of,
    int_from_elems, int_to_bytes, int_to_str, is_sym, ite, join, make_bytes,
    make_str, mk, sbits, str_to_int, to_fp,
)

FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType
CMethodType = type(re.compile("").match)
MethodWrapper = type((1).__add__)
MethodDescr = type(str.join)
ClassMethodDescr = type(dict.__dict__["fromkeys"])
WrapperDescr = type(object.__init__)

MODELS = {}
METHOD_MODELS = {}


def model(*targets):
    def wrap(f):
        for t in targets:
            MODELS[t] = f
        return f
    return wrap


def deep_sym(v, depth=3):
    """Whether a (shallowly nested) argument holds a symbolic value."""
    if is_sym(v):
        return True
    if depth:
        t = type(v)
        if t in (list, tuple, set, frozenset):
            return any(deep_sym(x, depth - 1) for x in v)
        if t is dict:
            return any(deep_sym(x, depth - 1) for x in v.values()) or \
                any(is_sym(x) for x in v)
    return False


def deep_concrete(v, why):
    if is_sym(v):
        return concretise(v, why)
    t = type(v)
    if t in (list, tuple) and deep_sym(v):
        return t(deep_concrete(x, why) for x in v)
    if t is dict and deep_sym(v):
        return {deep_concrete(a, why): deep_concrete(b, why) for a, b in v.items()}
    return v


# C callables that only store or move a value, or call back into Python
PASS_FUNCS = {
    isinstance, issubclass, callable, id, iter, next, zip, enumerate, map,
    filter, list, tuple, reversed, print, object, getattr, setattr, hasattr,
    delattr, any, all, super, property, staticmethod, classmethod, sorted,
    dict, set, frozenset, slice, vars, types.SimpleNamespace,
}
PASS_METHODS = {
    list: {"append", "insert", "extend", "pop", "clear", "copy", "sort",
           "reverse", "remove", "index", "count", "__init__"},
    tuple: {"index", "count"},
    dict: {"update", "clear", "items", "keys", "values", "copy", "popitem"},
    set: {"add", "discard", "remove", "update", "clear"},
}


# library modules written in Python whose functions only store, schedule or
# pass on what they are given; all other un-instrumented ones get concrete
# arguments (each feasible value explored in turn)
TRANSPARENT = {"asyncio", "contextlib", "collections", "functools", "weakref",
               "dataclasses", "abc", "typing", "enum", "inspect", "types",
               "logging", "threading", "unittest", "copy", "sx", "operator",
               "_weakrefset", "_collections_abc", "signal", "warnings",
               "concurrent", "contextvars", "_py_abc", "reprlib", "__main__",
               "statistics", "heapq", "bisect", "queue", "_pydatetime"}


def opaque(fn):
    g = fn.__globals__
    if "_sx_call" in g or "REGEX_PATTERNS" in g:  # a compiled JSON schema
        return False
    return (fn.__module__ or "").split(".")[0] not in TRANSPARENT


def name_of(fn):
    return getattr(fn, "__qualname__", None) or getattr(fn, "__name__", None) \
        or type(fn).__name__


def call(fn, /, *args, **kwargs):
    t = type(fn)
    if t is FunctionType or t is MethodType:
        m = FUNC_MODELS.get(fn if t is FunctionType else fn.__func__)
        if m is not None and any(deep_sym(a) for a in args):
            if t is MethodType:
                return m(fn.__self__, *args, **kwargs)
            return m(*args, **kwargs)
        if core.ENGINE is not None and opaque(
                fn if t is FunctionType else fn.__func__) and (
                any(map(deep_sym, args)) or any(map(deep_sym, kwargs.values()))):
            why = name_of(fn)
            args = tuple(deep_concrete(a, why) for a in args)
            kwargs = {k: deep_concrete(v, why) for k, v in kwargs.items()}
        return fn(*args, **kwargs)
    if t is CMethodType:
        t = BuiltinType
    if core.ENGINE is None:
        # import time, or plain set-up code: nothing symbolic exists, but
        # ctypes/io objects made now may hold symbolic values later
        if isinstance(fn, type):
            m = ALWAYS_GET(fn)
            if m is not None:
                return m(*args, **kwargs)
        return fn(*args, **kwargs)
    if t is BuiltinType or isinstance(fn, type):
        m = ALWAYS_GET(fn)
        if m is not None:
            return m(*args, **kwargs)
    if t is BuiltinType or t is MethodWrapper:
        self = fn.__self__
        if self is not None and not isinstance(self, types.ModuleType):
            return bound_call(fn, self, fn.__name__, args, kwargs)
        try:
            m = MODELS.get(fn)
        except TypeError:
            m = None
        if m is not None:
            if any(map(deep_sym, args)) or any(map(deep_sym, kwargs.values())):
                return m(*args, **kwargs)
            return fn(*args, **kwargs)
        if fn in PASS_FUNCS:
            if fn in (getattr, setattr, hasattr, delattr) and is_sym(args[1]):
                args = (args[0], concretise(args[1], "attribute name")) + args[2:]
            return fn(*args, **kwargs)
    elif isinstance(fn, type):
        try:
            m = MODELS.get(fn)
        except TypeError:
            m = None
        if m is not None:
            if any(map(deep_sym, args)) or any(map(deep_sym, kwargs.values())) \
                    or any(isinstance(a, SymIO) for a in args):
                return m(*args, **kwargs)
            return fn(*args, **kwargs)
        if issubclass(fn, ENUM) and args and is_sym(args[0]) and len(args) == 1:
            return enum_of(fn, args[0])
        if fn in PASS_FUNCS or fn.__flags__ & (1 << 9):  # heap type
            if issubclass(fn, (int, str, bytes, float, pathlib.PurePath)) and any(
                    map(is_sym, args)):
                args = tuple(deep_concrete(a, name_of(fn)) for a in args)
            return fn(*args, **kwargs)
        if issubclass(fn, BaseException):
            return fn(*args, **kwargs)
    elif t is MethodDescr or t is WrapperDescr:
        if args and is_sym(args[0]):
            return getattr(args[0], fn.__name__)(*args[1:], **kwargs)
        if args and isinstance(args[0], (str, bytes)) and any(
                map(deep_sym, args[1:])):
            return bound_call(None, args[0], fn.__name__, args[1:], kwargs)
        if t is WrapperDescr:
            return fn(*args, **kwargs)
    elif t is ClassMethodDescr:
        pass
    else:
        # an instance with __call__, a partial, ...
        return fn(*args, **kwargs)
    if any(map(deep_sym, args)) or any(map(deep_sym, kwargs.values())):
        why = name_of(fn)
        args = tuple(deep_concrete(a, why) for a in args)
        kwargs = {k: deep_concrete(v, why) for k, v in kwargs.items()}
    return fn(*args, **kwargs)


def bound_call(fn, self, name, args, kwargs):
    ts = type(self)
    if isinstance(self, type):
        # int.from_bytes, dict.fromkeys, bytes.fromhex, object.__new__
        if name == "from_bytes" and any(map(deep_sym, args)):
            return from_bytes(*args, **kwargs)
        if name == "fromhex" and any(map(is_sym, args)):
            return fn(*(concretise(a, "fromhex") for a in args))
        if name in ("__new__", "__init__", "__subclasses__", "mro"):
            return fn(*args, **kwargs)
        if any(map(deep_sym, args)):
            args = tuple(deep_concrete(a, name) for a in args)
        return fn(*args, **kwargs)
    if not (any(map(deep_sym, args)) or any(map(deep_sym, kwargs.values()))):
        if name == "join" and isinstance(self, (str, bytes)) and args and \
                not isinstance(args[0], (str, bytes, list, tuple)):
            parts = list(args[0])
            return join_model(self, parts)
        return fn(*args, **kwargs)
    if isinstance(self, (bytes, str)):
        if name == "join":
            return join_model(self, list(args[0]))
        if name == "format":
            return fmt_model(self, args, kwargs)
        sym = SymBytes(list(self)) if isinstance(self, bytes) else \
            SymStr([ord(c) for c in self])
        meth = getattr(sym, name, None)
        if meth is not None and name not in ("encode", "decode"):
            return meth(*args, **kwargs)
        args = tuple(deep_concrete(a, name) for a in args)
        return getattr(self, name)(*args, **kwargs)
    if isinstance(self, re.Pattern):
        if name in rx.METHODS and len(args) == 1 and is_sym(args[0]) and not kwargs:
            try:
                return rx.run(self, name, args[0])
            except rx.Unsupported:
                pass
    if isinstance(self, dict):
        if name in ("get", "pop", "setdefault", "__contains__", "__getitem__") \
                and is_sym(args[0]):
            return dict_method(self, fn, name, args, kwargs)
        return fn(*args, **kwargs)
    if isinstance(self, bytearray):
        args = tuple(deep_concrete(a, name) for a in args)
        return fn(*args, **kwargs)
    if isinstance(self, (list, tuple, set, frozenset)) or \
            type(self).__module__ in CONTAINERS or name in ("__init__",
                                                            "__setattr__"):
        return fn(*args, **kwargs)
    if isinstance(self, (int, float)):
        sy = args and is_sym(args[0])
        if sy and name in ("__add__", "__eq__"):
            return NotImplemented
    why = "%s.%s" % (ts.__name__, name)
    args = tuple(deep_concrete(a, why) for a in args)
    kwargs = {k: deep_concrete(v, why) for k, v in kwargs.items()}
    return fn(*args, **kwargs)


CONTAINERS = {"collections", "_asyncio", "asyncio", "_contextvars", "_queue",
              "_thread", "_functools", "itertools", "_collections",
              "uvloop.loop", "_contextvars", "weakref", "_weakref"}


def join_model(sep, parts):
    if not any(map(is_sym, parts)):
        return sep.join(parts)
    if isinstance(sep, bytes):
        return join(sep, list(sep), parts, SymBytes)
    return join(sep, [ord(c) for c in sep], parts, SymStr)


def fmt_model(s, args, kwargs):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if spec or conv or not (field == "" or field.isdigit() or field.isidentifier()):
            return s.format(*(deep_concrete(a, "format") for a in args),
                            **{k: deep_concrete(v, "format") for k, v in kwargs.items()})
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        else:
            v = kwargs[field]
        out.append(to_str(v))
    return join_model("", out)


# ----------------------------------------------------------- dict operations
_MISSING = object()


def same_kind(k, q):
    t = type(q)
    if t is SymStr:
        return isinstance(k, str)
    if t is SymBytes:
        return isinstance(k, bytes)
    return isinstance(k, (int, float)) and not isinstance(k, str)


def dict_find(d, key):
    """The stored key equal to a symbolic one (forks), or _MISSING."""
    for k in list(d.keys()):
        if same_kind(k, key):
            if k == key:
                return k
    return _MISSING


def dict_method(d, fn, name, args, kwargs):
    k = dict_find(d, args[0])
    if name == "__contains__":
        return k is not _MISSING
    if k is not _MISSING:
        return fn(k, *args[1:], **kwargs)
    if name == "get":
        return args[1] if len(args) > 1 else None
    if name == "pop":
        if len(args) > 1:
            return args[1]
        raise KeyError(args[0])
    if name == "__getitem__":
        raise KeyError(args[0])
    return fn(concretise(args[0], "dict key"), *args[1:], **kwargs)


def getitem(obj, key):
    if core.ENGINE is None:
        return obj[key]
    if isinstance(obj, dict) and is_sym(key):
        k = dict_find(obj, key)
        if k is not _MISSING:
            return obj[k]
        miss = getattr(type(obj), "__missing__", None)
        if miss is not None:
            return obj[concretise(key, "missing dict key")]
        raise KeyError(key)
    if isinstance(key, slice) and not isinstance(obj, SymSeq):
        if is_sym(key.start) or is_sym(key.stop) or is_sym(key.step):
            key = slice(*(concretise(x, "slice") for x in
                          (key.start, key.stop, key.step)))
    return obj[key]


def setitem(obj, key, value):
    if core.ENGINE is not None and isinstance(obj, dict) and is_sym(key):
        k = dict_find(obj, key)
        if k is _MISSING:
            k = concretise(key, "new dict key")
        obj[k] = value
        return
    if isinstance(obj, bytearray) and is_sym(value):
        value = concretise(value, "bytearray")
    obj[key] = value


def contains(container, item):
    if core.ENGINE is None:
        return item in container
    if is_sym(item):
        if isinstance(container, (dict, types.MappingProxyType)) or (
                type(container).__name__ in ("dict_keys",)):
            return dict_find(container if hasattr(container, "keys") else
                             dict.fromkeys(container), item) is not _MISSING
        if isinstance(container, (set, frozenset)):
            return dict_find(dict.fromkeys(container), item) is not _MISSING
        if isinstance(container, str) and type(item) is SymStr:
            return SymStr([ord(c) for c in container]).find(item) >= 0
        if isinstance(container, (bytes,)):
            return SymBytes(list(container)).find(item) >= 0
        if isinstance(container, range):
            return range_contains(container, item)
    return item in container


def range_contains(r, x):
    if not isinstance(x, int):
        return False
    lo, hi = (r.start, r.stop) if r.step > 0 else (r.stop + 1, r.start + 1)
    return x >= lo and x < hi and (x - r.start) % abs(r.step) == 0


# ------------------------------------------------------------------ strings
def to_str(v):
    t = type(v)
    if t is SymStr or t is str:
        return v
    if t is SymInt:
        return int_to_str(v)
    if t is SymBool:
        return "True" if v else "False"
    if t is SymBytes or t is SymFloat:
        return str(concretise(v, "str"))
    if t in (list, tuple, dict) and deep_sym(v):
        return str(deep_concrete(v, "str"))
    m = getattr(type(v), "__str__", None)
    if type(m) is FunctionType:
        return m(v)  # may legitimately be symbolic
    return str(v)


class Fld:
    """A formatted field of an f-string."""
    __slots__ = ("v", "conv", "spec")

    def __init__(self, v, conv, spec):
        self.v, self.conv, self.spec = v, conv, spec


def fld(v, conv, spec):
    return Fld(v, conv, spec)


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is not Fld:
            out.append(p)
            continue
        v = p.v
        spec = p.spec
        if core.ENGINE is None:
            if p.conv == 114:
                v = repr(v)
            elif p.conv == 115:
                v = str(v)
            elif p.conv == 97:
                v = ascii(v)
            out.append(format(v, spec))
            continue
        if is_sym(spec):
            spec = concretise(spec, "format spec")
        if p.conv == 114:
            v = repr(concretise(v, "repr")) if is_sym(v) else repr(v)
        elif p.conv == 115:
            v = to_str(v)
        elif p.conv == 97:
            v = ascii(concretise(v, "repr"))
        if spec:
            if is_sym(v):
                r = fmt_spec(v, spec)
            else:
                r = format(v, spec)
            out.append(r)
        elif is_sym(v):
            out.append(to_str(v))
        else:
            m = type(v).__format__
            out.append(to_str(v) if m is object.__format__ else
                       (m(v, "") if type(m) is FunctionType else format(v, "")))
    return join_model("", out)


def fmt_spec(v, spec):
    """Fixed-width hex of a small non-negative int, else concrete."""
    import re
    m = re.fullmatch(r"0(\d+)([xX])", spec)
    if m and type(v) is SymInt and v.lo >= 0 and v.hi < 16 ** int(m.group(1)):
        n = int(m.group(1))
        x = v.at(4 * n)
        a = 87 if m.group(2) == "x" else 55
        els = []
        for i in range(n - 1, -1, -1):
            nib = SymInt(z3.Extract(4 * i + 3, 4 * i, x), 0, 15)
            els.append(ite(nib < 10, nib + 48, nib + a))
        return make_str(els)
    return format(concretise(v, "format"), spec)


# ------------------------------------------------------------------ builtins
@model(len)
def m_len(x):
    return len(x)


@model(type)
def m_type(x, *rest):
    if rest:
        return type(x, *rest)
    return x.__class__ if is_sym(x) else type(x)


@model(abs)
def m_abs(x):
    return abs(x)


@model(repr)
def m_repr(x):
    return repr(deep_concrete(x, "repr"))


@model(str)
def m_str(x="", *rest, **kw):
    if rest or kw:
        return x.decode(*rest, **kw) if type(x) is SymBytes else str(x, *rest, **kw)
    return to_str(x)


@model(int)
def m_int(x=0, *rest, **kw):
    if rest or kw:
        base = rest[0] if rest else kw["base"]
        return str_to_int(x, concretise(base, "base")) if is_sym(x) else int(x, base)
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return x.as_int()
    if t is SymFloat:
        return x.__trunc__()
    if t in (SymStr, SymBytes):
        return str_to_int(x)
    return int(x)


@model(bool)
def m_bool(x=False):
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt:
        return SymBool(x.e != 0)
    if t is SymFloat:
        if x.n is not None:
            return SymBool(x.n.e != 0)
        return SymBool(z3.Not(z3.fpIsZero(x.e)))
    return bool(x)


@model(float)
def m_float(x=0.0):
    if type(x) in (SymStr, SymBytes):
        return float(concretise(x, "float of text"))
    return float_of(x) if is_sym(x) else float(x)


@model(bytes)
def m_bytes(x=b"", *rest, **kw):
    t = type(x)
    if rest or kw:
        return x.encode(*rest, **kw)
    if t is SymBytes:
        return x
    if t is SymInt:
        return bytes(concretise(x, "bytes length"))
    if isinstance(x, (list, tuple)):
        out = []
        for v in x:
            if type(v) is SymBool:
                v = v.as_int()
            if type(v) is SymInt:
                if v < 0 or v > 255:
                    raise ValueError("bytes must be in range(0, 256)")
                v = byte_el(v.at(8))
            out.append(v)
        return make_bytes(out)
    return bytes(x)


def always_bytes(*args, **kw):
    """bytes(obj): obj.__bytes__ may hand back symbolic bytes."""
    if len(args) == 1 and not kw:
        x = args[0]
        if not is_sym(x):
            m = getattr(type(x), "__bytes__", None)
            if type(m) is FunctionType:
                return m(x)
            if isinstance(x, types.GeneratorType) or isinstance(x, (map, filter)):
                return m_bytes(list(x))
            if isinstance(x, (list, tuple)) and deep_sym(x):
                return m_bytes(x)
            return bytes(x)
        return m_bytes(x)
    if args and is_sym(args[0]):
        return m_bytes(*args, **kw)
    return bytes(*args, **kw)


def always_str(*args, **kw):
    if len(args) == 1 and not kw:
        return to_str(args[0])
    if args and is_sym(args[0]):
        return m_str(*args, **kw)
    return str(*args, **kw)


def always_bool(*args):
    if len(args) == 1:
        x = args[0]
        if is_sym(x):
            return m_bool(x)
        m = getattr(type(x), "__bool__", None)
        if type(m) is FunctionType:
            r = m(x)
            if is_sym(r):
                return m_bool(r)
            return r
    return bool(*args)


def always_hash(x):
    m = getattr(type(x), "__hash__", None)
    if type(m) is FunctionType:
        return m(x)
    return hash(x)


@model(bytearray)
def m_bytearray(x=b"", *rest):
    return bytearray(deep_concrete(x, "bytearray"))


@model(memoryview)
def m_memoryview(x):
    return x if is_sym(x) else memoryview(x)


@model(range)
def m_range(*args):
    return range(*(concretise(a, "range") for a in args))


@model(ord)
def m_ord(x):
    if len(x) != 1:
        raise TypeError("ord() expected a character")
    return x.els[0]


@model(chr)
def m_chr(x):
    if x < 0 or x > 0x10FFFF:
        raise ValueError("chr() arg not in range(0x110000)")
    return make_str([mk(x.at(max(22, x.e.size() + 1)), max(0, x.lo),
                        min(x.hi, 0x10FFFF)) if x.lo >= 0 else
                     SymInt(x.at(21), 0, 0x10FFFF)])


def _minmax(args, kw, pick):
    key = kw.get("key")
    if len(args) == 1:
        args = list(args[0])
    if not args:
        if "default" in kw:
            return kw["default"]
        raise ValueError("arg is an empty sequence")
    best = args[0]
    for x in args[1:]:
        a, b = (key(x), key(best)) if key else (x, best)
        c = (a < b) if pick == "min" else (a > b)
        if key is None and type(c) is SymBool and all(
                isinstance(v, (int, bool)) for v in (x, best)):
            best = ite(c, x, best)
        elif c:
            best = x
    return best


@model(min)
def m_min(*args, **kw):
    return _minmax(args, kw, "min")


@model(max)
def m_max(*args, **kw):
    return _minmax(args, kw, "max")


@model(sum)
def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


@model(round)
def m_round(x, nd=None):
    if type(x) is SymFloat:
        return x.__round__(nd)
    if type(x) is SymInt and nd is None:
        return x
    return round(deep_concrete(x, "round"), nd)


@model(divmod)
def m_divmod(a, b):
    return a // b, a % b


@model(pow)
def m_pow(a, b, mod=None):
    return pow(concretise(a, "pow"), concretise(b, "pow"), mod) if mod is not None \
        else a ** b


@model(format)
def m_format(v, spec=""):
    return fstr(Fld(v, -1, spec))


@model(hash)
def m_hash(x):
    return hash(deep_concrete(x, "hash"))


@model(hex)
def m_hex(x):
    return hex(concretise(x, "hex"))


@model(math.isnan)
def m_isnan(x):
    if type(x) is SymFloat:
        if x.n is not None:
            return False
        return SymBool(z3.fpIsNaN(x.e))
    if type(x) in (SymInt, SymBool):
        return False
    return math.isnan(x)


@model(math.isinf)
def m_isinf(x):
    if type(x) is SymFloat:
        if x.n is not None:
            return False
        return SymBool(z3.fpIsInf(x.e))
    return False


@model(math.isfinite)
def m_isfinite(x):
    if type(x) is SymFloat:
        if x.n is not None:
            return True
        return SymBool(z3.And(z3.Not(z3.fpIsInf(x.e)), z3.Not(z3.fpIsNaN(x.e))))
    return True


@model(math.floor)
def m_floor(x):
    return x.__floor__() if type(x) is SymFloat else x


@model(math.ceil)
def m_ceil(x):
    return x.__ceil__() if type(x) is SymFloat else x


@model(math.trunc)
def m_trunc(x):
    return x.__trunc__() if type(x) is SymFloat else x


@model(math.isclose)
def m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    a, b = float_of(a), float_of(b)
    if a == b:
        return True
    if m_isinf(a) or m_isinf(b):
        return False
    diff = abs(b - a)
    return ((diff <= abs(rel_tol * b)) or (diff <= abs(rel_tol * a))
            or (diff <= abs_tol))


def _operators():
    import operator as op
    for name, f in (("lt", lambda a, b: a < b), ("le", lambda a, b: a <= b),
                    ("eq", lambda a, b: a == b), ("ne", lambda a, b: a != b),
                    ("ge", lambda a, b: a >= b), ("gt", lambda a, b: a > b),
                    ("add", lambda a, b: a + b), ("sub", lambda a, b: a - b),
                    ("mul", lambda a, b: a * b), ("neg", lambda a: -a),
                    ("and_", lambda a, b: a & b), ("or_", lambda a, b: a | b),
                    ("xor", lambda a, b: a ^ b), ("not_", lambda a: not a)):
        MODELS[getattr(op, name)] = f


_operators()


def from_bytes(data, byteorder="big", *, signed=False):
    if type(data) is SymBytes:
        els = data.els
    else:
        els = [x for x in data]
    return int_from_elems(els, concretise(byteorder, "order"), signed) if els else 0


# -------------------------------------------------------------------- struct
INT_CODES = "bBhHiIlLqQnN"


def parse_fmt(fmt):
    """[(code, count, offset)], total size."""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "@"
    body = fmt
    if fmt and fmt[0] in "@=<>!":
        order, body = fmt[0], fmt[1:]
    items = []
    num = ""
    prefix = ""
    for c in body:
        if c.isspace():
            continue
        if c.isdigit():
            num += c
            continue
        n = int(num) if num else 1
        num = ""
        if c in "sp":
            start = struct.calcsize(order + prefix + "0" + c)
            prefix += "%d%s" % (n, c)
            items.append((c, n, start))
        elif c == "x":
            prefix += "%dx" % n
        elif n == 0:
            prefix += "0" + c
        else:
            for _ in range(n):
                prefix += c
                start = struct.calcsize(order + prefix) - struct.calcsize(order + c)
                items.append((c, struct.calcsize(order + c), start))
    return order, items, struct.calcsize(fmt)


_FMT = {}


def fmt_info(fmt):
    fmt = concretise(fmt, "struct format")
    if fmt not in _FMT:
        _FMT[fmt] = parse_fmt(fmt)
    return _FMT[fmt]


def big(order):
    import sys
    return order in ">!" or (order in "@=" and sys.byteorder == "big")


def float_pack(v, code):
    """The bits of a float at a width; raises OverflowError like struct."""
    f = float_of(v)
    if type(f) is not SymFloat:
        return int.from_bytes(struct.pack(">" + code, f), "big")
    if code == "d":
        return SymInt(f.bits, 0, 2 ** 64 - 1)
    S, W, nan = (F32, 32, 0x7FC00000) if code == "f" else (F16, 16, 0x7E00)
    if f.src is not None and f.src[0] == code:
        return SymInt(z3.If(z3.fpIsNaN(f.e), z3.BitVecVal(nan, W), f.src[1]),
                      0, 2 ** W - 1)
    n = z3.fpToFP(RNE, f.e, S)
    if core.ENGINE.decide(z3.And(z3.fpIsInf(n), z3.Not(z3.fpIsInf(f.e)))):
        raise OverflowError("float too large to pack with %s format" % code)
    v = z3.BitVec(core.ENGINE.fresh("fpbits"), W)
    core.ENGINE.add(z3.If(z3.fpIsNaN(n), v == nan, z3.fpBVToFP(v, S) == n))
    core.ENGINE.add(z3.Implies(z3.fpIsZero(n), (z3.Extract(W - 1, W - 1, v) == 1)
                               == z3.fpIsNegative(n)))
    core.ENGINE.model = None
    return SymInt(v, 0, 2 ** W - 1)


def float_unpack(bv, code):
    if code == "d":
        return float_from_bits(bv)
    bv = z3.simplify(bv)
    W, S = (32, F32) if code == "f" else (16, F16)
    if z3.is_bv_value(bv):
        return struct.unpack(">" + code, bv.as_long().to_bytes(W // 8, "big"))[0]
    return SymFloat(z3.fpToFP(RNE, z3.fpBVToFP(bv, S), F64), None, (code, bv))


def pack_els(fmt, args):
    order, items, size = fmt_info(fmt)
    if len(items) != len(args):
        raise struct.error("pack expected %d items for packing (got %d)"
                           % (len(items), len(args)))
    out = [0] * size
    end = "big" if big(order) else "little"
    for (code, n, off), v in zip(items, args):
        if code in INT_CODES:
            if type(v) is SymBool:
                v = v.as_int()
            if type(v) is SymFloat or not isinstance(v, int):
                raise struct.error("required argument is not an integer")
            signed = code.islower()
            bits = 8 * n
            lo = -(1 << (bits - 1)) if signed else 0
            hi = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
            if not (v >= lo) or not (v <= hi):
                raise struct.error("'%s' format requires %d <= number <= %d"
                                   % (code, lo, hi))
            b = int_to_bytes(v, n, end)
        elif code in "efd":
            if type(v) in (SymBytes, SymStr) or not isinstance(v, (int, float)):
                raise struct.error("required argument is not a float")
            b = int_to_bytes(float_pack(v, code), n, end)
        elif code == "?":
            v = always_bool(v)
            if type(v) is SymBool:
                b = make_bytes([byte_el(z3.If(v.e, z3.BitVecVal(1, 8),
                                              z3.BitVecVal(0, 8)))])
            else:
                b = bytes([1 if v else 0])
        elif code == "s":
            if not isinstance(v, (bytes, bytearray)):
                raise struct.error("argument for 's' must be a bytes object")
            b = v[:n]
            b = b + bytes(n - len(b))
        elif code == "c":
            b = v
        else:
            b = struct.pack(order + code, concretise(v, "struct"))
        els = b.els if type(b) is SymBytes else list(b)
        out[off:off + len(els)] = els
    return out


@model(struct.pack)
def m_pack(fmt, *args):
    return make_bytes(pack_els(fmt, args))


def unpack_els(fmt, els):
    order, items, size = fmt_info(fmt)
    if len(els) != size:
        raise struct.error("unpack requires a buffer of %d bytes" % size)
    end = "big" if big(order) else "little"
    res = []
    for code, n, off in items:
        part = list(els[off:off + n])
        if code in INT_CODES:
            res.append(int_from_elems(part, end, code.islower()))
        elif code in "efd":
            v = int_from_elems(part, end, False)
            if type(v) is int:
                v = z3.BitVecVal(v, 8 * n)
            else:
                v = v.at(8 * n)
            res.append(float_unpack(v, code))
        elif code == "?":
            x = part[0]
            res.append(SymBool(x.e != 0) if type(x) is SymInt else bool(x))
        elif code == "s":
            res.append(make_bytes(part))
        elif code == "c":
            res.append(make_bytes(part))
        else:
            res.append(struct.unpack(order + code,
                                     bytes(concretise(x, "struct") for x in part))[0])
    return tuple(res)


@model(struct.unpack)
def m_unpack(fmt, data):
    if not isinstance(data, (bytes, bytearray, memoryview)):
        raise TypeError("a bytes-like object is required")
    return unpack_els(fmt, data.els if type(data) is SymBytes else list(bytes(data)))


@model(struct.unpack_from)
def m_unpack_from(fmt, buffer, offset=0):
    n = struct.calcsize(fmt)
    part = buffer[offset:offset + n]
    return m_unpack(fmt, part) if is_sym(part) else struct.unpack(fmt, part)


@model(struct.calcsize)
def m_calcsize(fmt):
    return struct.calcsize(concretise(fmt, "struct format"))


class SymStruct:
    """struct.Struct"""

    def __init__(self, fmt):
        self.format = fmt
        self.size = struct.calcsize(fmt)

    def pack(self, *args):
        return call(struct.pack, self.format, *args)

    def unpack(self, data):
        return call(struct.unpack, self.format, data)

    def unpack_from(self, data, offset=0):
        return call(struct.unpack_from, self.format, data, offset)


# -------------------------------------------------------------------- ctypes
def c_model(ct):
    """A stand-in for a ctypes scalar class whose value may be symbolic."""
    name = ct.__name__
    size = ctypes.sizeof(ct)

    if ct is ctypes.c_bool:
        def conv(v):
            if is_sym(v):
                return m_bool(v)
            return ct(v).value
    elif ct in (ctypes.c_float, ctypes.c_double):
        def conv(v):
            if type(v) in (SymStr, SymBytes):
                raise TypeError("must be real number, not %s" % v.kind)
            if not is_sym(v):
                return ct(v).value
            f = float_of(v)
            if ct is ctypes.c_double or type(f) is not SymFloat:
                return f if type(f) is SymFloat else ct(f).value
            if f.src is not None or (f.n is not None and max(
                    abs(f.n.lo), abs(f.n.hi)) <= 1 << 24):
                return f  # already representable in single precision
            return SymFloat(z3.fpToFP(RNE, z3.fpToFP(RNE, f.e, F32), F64))
    else:
        signed = ct(-1).value < 0

        def conv(v):
            if type(v) is SymBool:
                v = v.as_int()
            if type(v) is SymInt:
                lo = -(1 << (8 * size - 1)) if signed else 0
                hi = (1 << (8 * size - 1)) - 1 if signed else (1 << 8 * size) - 1
                if lo <= v.lo and v.hi <= hi:
                    return v
                e = v.at(8 * size)
                return SymInt(e, lo, hi)
            if type(v) in (SymFloat, SymStr, SymBytes):
                raise TypeError("int expected instead of %s instance"
                                % v.__class__.__name__)
            return ct(v).value

    class C:
        __slots__ = ("_v",)
        real = ct

        def __init__(self, v=_MISSING):
            self._v = ct().value if v is _MISSING else conv(v)

        @property
        def __class__(self):
            return ct

        @property
        def value(self):
            return self._v

        @value.setter
        def value(self, v):
            self._v = conv(v)

        def __bool__(self):
            return bool(self._v)

        def __repr__(self):
            return "%s(%r)" % (name, self._v)

    C.__name__ = C.__qualname__ = name
    return C


C_TYPES = [ctypes.c_bool, ctypes.c_byte, ctypes.c_ubyte, ctypes.c_short,
           ctypes.c_ushort, ctypes.c_int, ctypes.c_uint, ctypes.c_long,
           ctypes.c_ulong, ctypes.c_longlong, ctypes.c_ulonglong,
           ctypes.c_float, ctypes.c_double]


# ------------------------------------------------------------------------ io
class SymIO:
    """io.BytesIO / io.StringIO"""

    text = False

    def __init__(self, initial=None, newline=None):
        if initial is None:
            initial = "" if self.text else b""
        self.els = self._els(initial)
        self.pos = 0
        self.closed = False

    def _els(self, v):
        if is_sym(v):
            return list(v.els)
        if self.text:
            if not isinstance(v, str):
                raise TypeError("string argument expected, got %r" % type(v).__name__)
            return [ord(c) for c in v]
        if isinstance(v, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        if hasattr(v, "els"):
            return list(v.els)
        return list(bytes(v))

    def _make(self, els):
        return make_str(els) if self.text else make_bytes(els)

    def _open(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, data):
        self._open()
        els = self._els(data)
        if self.pos > len(self.els):
            self.els.extend([0] * (self.pos - len(self.els)))
        self.els[self.pos:self.pos + len(els)] = els
        self.pos += len(els)
        return len(els)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def read(self, n=-1):
        self._open()
        n = -1 if n is None else concretise(n, "read size")
        end = len(self.els) if n < 0 else min(len(self.els), self.pos + n)
        out = self.els[self.pos:max(end, self.pos)]
        self.pos = max(end, self.pos) if self.pos <= len(self.els) else self.pos
        return self._make(out)

    read1 = read

    def readline(self, n=-1):
        self._open()
        i = self.pos
        while i < len(self.els):
            hit = self.els[i] == 10
            i += 1
            if hit:
                break
        out = self.els[self.pos:i]
        self.pos = max(i, self.pos)
        return self._make(out)

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

    def seek(self, off, whence=0):
        self._open()
        off = concretise(off, "seek")
        if whence == 0 and off < 0:
            raise ValueError("negative seek value %d" % off)
        base = 0 if whence == 0 else (self.pos if whence == 1 else len(self.els))
        self.pos = max(0, base + off)
        return self.pos

    def tell(self):
        self._open()
        return self.pos

    def truncate(self, size=None):
        self._open()
        size = self.pos if size is None else concretise(size, "truncate")
        del self.els[size:]
        return size

    def getvalue(self):
        self._open()
        return self._make(self.els)

    def getbuffer(self):
        self._open()
        return self._make(self.els)

    def readable(self):
        return True

    writable = seekable = readable

    def flush(self):
        self._open()

    def close(self):
        self.closed = True

    def __enter__(self):
        self._open()
        return self

    def __exit__(self, *a):
        self.close()


class SymBytesIO(SymIO):
    @property
    def __class__(self):
        return io.BytesIO


class SymStringIO(SymIO):
    text = True

    @property
    def __class__(self):
        return io.StringIO


# --------------------------------------------------------------------- enums
import enum  # noqa: E402

ENUM = enum.Enum


def enum_of(cls, value):
    """EnumClass(value)"""
    for m in cls:
        if isinstance(m.value, (int, str)) and value == m.value:
            return m
    miss = None
    if getattr(cls._missing_, "__func__", None) is not ENUM._missing_.__func__:
        miss = cls._missing_(concretise(value, "enum value"))
    if miss is None:
        raise ValueError("no such %s" % cls.__name__)
    return miss


ALWAYS = {c: c_model(c) for c in C_TYPES}
ALWAYS[io.BytesIO] = SymBytesIO
ALWAYS[io.StringIO] = SymStringIO
ALWAYS[bytes] = always_bytes
ALWAYS[str] = always_str
ALWAYS[bool] = always_bool
ALWAYS[hash] = always_hash
ALWAYS[struct.Struct] = SymStruct



def ALWAYS_GET(fn):
    try:
        return ALWAYS.get(fn)
    except TypeError:
        return None


FUNC_MODELS = {}


def install_late_models():
    import copy
    import fractions  # noqa: F401
    # copy.copy/deepcopy work through __copy__/__deepcopy__
    del copy
