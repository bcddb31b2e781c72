"""P02: engineering units: scaling, its inverse, and clamping to the range."""

from runtimepy.primitives import create
from runtimepy.primitives.scaling import apply, invert
from runtimepy.primitives.types.bounds import IntegerBounds
from sx.registry import case

ASSUMPTIONS = [
    "floats are IEEE-754 binary64, round to nearest even",
    "scaling coefficients are sampled from a fixed list (values are symbolic)",
]

INTS = {"int8": (1, True), "int16": (2, True), "int32": (4, True),
        "int64": (8, True), "uint8": (1, False), "uint16": (2, False),
        "uint32": (4, False), "uint64": (8, False)}


def bounds_of(kind):
    size, signed = INTS[kind]
    bits = 8 * size
    if signed:
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1


@case("P02", [{"kind": k} for k in INTS],
      bounds="every integer within 2^16 ranges of the kind's range")
def clamping(sx, kind):
    lo, hi = bounds_of(kind)
    span = (hi - lo + 1) << 16
    value = sx.int("value", lo - span, hi + span)
    bounds = create(kind).kind.int_bounds
    sx.check(bounds.min == lo and bounds.max == hi, "advertised bounds")
    size, signed = INTS[kind]
    made = IntegerBounds.create(size, signed)
    sx.check(tuple(made) == (lo, hi), "created bounds")
    got = bounds.clamp(value)
    want = sx.ite(value < lo, lo, sx.ite(value > hi, hi, value))
    sx.check(got == want, "clamp")
    sx.check(sx.iff(bounds.validate(value), sx.all(value >= lo, value <= hi)),
             "validate")
    # an unscaled primitive set in engineering units saturates, never wraps
    prim = create(kind)
    prim.scaled = value
    sx.check(prim.value == want, "saturation when set in scaled units")
    sx.check(prim.scaled == want, "reading back scaled units")


SCALINGS = [[0.0, 2.0], [1.0, 0.5], [-3.0], [10, 4], [0.5, -2.0], [2, 8, 1]]


@case("P02", [{"kind": k, "scaling": s} for k in ("int8", "uint8", "int16", "uint16")
              for s in SCALINGS if len(s) < 3],
      thorough=[{"kind": k, "scaling": s} for k in INTS for s in SCALINGS if len(s) < 3],
      bounds="every raw value; listed linear scalings with exact coefficients",
      query_ms=30000)
def raw_round_trip(sx, kind, scaling):
    """Reading in scaled units and writing that back restores the raw value."""
    lo, hi = bounds_of(kind)
    cap = (1 << 48)
    raw = sx.int("raw", max(lo, -cap), min(hi, cap))
    prim = create(kind, scaling=scaling)
    prim.value = raw
    units = prim.scaled
    slope = scaling[1] if len(scaling) > 1 else 1.0
    want = None
    if len(scaling) > 1:
        want = scaling[0] + slope * float(raw)
        sx.check(units == want, "scaled value is the polynomial's value")
        prim.value = 0
        prim.scaled = units
        sx.check(prim.value == raw, "raw value restored")
    else:
        sx.check(units == scaling[0], "a constant polynomial is constant")


@case("P02", [{"scaling": s} for s in SCALINGS],
      bounds="every integer of magnitude at most 2^20 (2^9: degree 2)",
      query_ms=30000)
def polynomial(sx, scaling):
    top = 1 << (20 if len(scaling) < 3 else 9)
    x = sx.int("x", -top, top)
    got = apply(x, scaling=scaling)
    # coefficients are dyadic, so the exact value is an integer over 4
    exact = 0
    for i, c in enumerate(scaling):
        term = int(c * 4)
        for _ in range(i):
            term = term * x
        exact = exact + term
    sx.check(got * 4.0 == exact, "value of the polynomial")


@case("P02", [{"scaling": s} for s in (None, [])], bounds="every 64-bit integer")
def no_scaling(sx, scaling):
    x = sx.int("x", -(1 << 63), (1 << 64) - 1)
    sx.check(apply(x, scaling=scaling) == x, "identity")
    sx.check(invert(x, scaling=scaling) == x, "identity inverse")
    sx.check(invert(x, scaling=scaling, should_round=True) == x, "rounded")


@case("P02", [{"kind": k, "scaling": s}
              for k, s in (("uint8", [0.0, 2.0]), ("int8", [1.0, 0.5]),
                           ("int16", [10, 4]), ("uint16", [0.5, -2.0]))],
      bounds="every integer of units within 2^24", query_ms=30000)
def units_nearest(sx, kind, scaling):
    """Setting units stores the nearest raw value in range (half to even)."""
    lo, hi = bounds_of(kind)
    units = sx.int("units", -(1 << 24), 1 << 24)
    prim = create(kind, scaling=scaling)
    prim.scaled = units
    got = prim.value
    sx.check(sx.all(got >= lo, got <= hi), "in range")
    # |offset + slope*got - units| <= |slope|/2 unless clamped (all over 4)
    off4, slope4 = int(scaling[0] * 4), int(scaling[1] * 4)
    err = abs(off4 + slope4 * got - 4 * units)
    near = 2 * err <= abs(slope4)
    # beyond the end of the range: the end is stored
    up = slope4 > 0
    past_hi = (off4 + slope4 * hi < 4 * units) if up else (off4 + slope4 * hi > 4 * units)
    past_lo = (off4 + slope4 * lo > 4 * units) if up else (off4 + slope4 * lo < 4 * units)
    sx.check(sx.any(near, sx.all(past_hi, got == hi), sx.all(past_lo, got == lo)),
             "nearest representable value")


@case("P02", [{"scaling": s} for s in ([0.0, 2.0], [1.0, 0.5], [-3.0, 4.0])],
      bounds="every finite double whose scaled value is exact", query_ms=30000)
def float_units(sx, scaling):
    prim = create("double", scaling=scaling)
    n = sx.int("n", -(1 << 50), 1 << 50)
    value = n / 4
    prim.value = value
    units = prim.scaled
    sx.check(units == scaling[0] + scaling[1] * value, "scaled")
    prim.value = 0.0
    prim.scaled = units
    sx.check(prim.value == value, "restored")
