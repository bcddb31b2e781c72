"""P03: change notification."""

from runtimepy.primitives import create
from sx.registry import case

ASSUMPTIONS = ["time source injected by the harness"]

RANGES = {"int8": (-128, 127), "uint8": (0, 255), "int32": (-(1 << 31), (1 << 31) - 1),
          "uint64": (0, (1 << 64) - 1), "uint16": (0, 65535)}


def clock():
    """A clock that ticks once per reading."""
    state = [100]

    def tick():
        state[0] += 1
        return state[0]
    return tick


def fresh(sx, kind, name="initial"):
    prim = create(kind, time_source=clock())
    prim.value = draw(sx, kind, name)
    return prim


def draw(sx, kind, name):
    if kind == "bool":
        return sx.bool(name)
    if kind in ("double", "float", "half"):
        return sx.float(name)
    return sx.int(name, *RANGES[kind])


def same(sx, a, b):
    return sx.eq(a, b)


KINDS = list(RANGES) + ["bool", "double"]


@case("P03", [{"kind": k, "steps": 3} for k in KINDS],
      thorough=[{"kind": k, "steps": 5} for k in KINDS],
      bounds="every starting value and sequence of 3 (5) assignments")
def exactly_on_change(sx, kind, steps):
    """Each change is reported once, in order, with old and new values."""
    prim = fresh(sx, kind)
    log = []
    late = []
    seen = []

    def watch(cur, new):
        log.append((cur, new))
        seen.append(prim.value)

    prim.register_callback(watch)
    prim.register_callback(lambda cur, new: late.append((cur, new)))
    want = []
    for i in range(steps):
        cur = prim.value
        new = draw(sx, kind, "v%d" % i)
        prim.value = new
        sx.check(same(sx, prim.value, new), "stored")
        if kind == "double":
            changed = new == new and cur != new
        else:
            changed = cur != new
        if changed:
            want.append((cur, new))
    sx.check(len(log) == len(want), "number of notifications")
    sx.check(sx.eq(log, want), "old and new values, in order")
    sx.check(sx.eq(late, want), "every callback is told")
    sx.check(sx.eq(seen, [b for _, b in want]), "the new value is visible")
    sx.observe("count", len(log))


@case("P03", [{"kind": k} for k in ("uint8", "int8", "uint16")],
      bounds="assigned value anywhere within four ranges either side")
def wrapped_assignment(sx, kind):
    """What callbacks are told is what is stored, also when it wraps."""
    prim = fresh(sx, kind)
    log = []
    prim.register_callback(lambda cur, new: log.append((cur, new)))
    lo, hi = RANGES[kind]
    span = hi - lo + 1
    cur = prim.value
    prim.value = sx.int("value", lo - 4 * span, hi + 4 * span)
    now = prim.value
    sx.check(sx.all(now >= lo, now <= hi), "stored value in range")
    if cur == now:
        sx.check(not log, "notified without a change")
    else:
        sx.check(len(log) == 1, "notified once")
        sx.check(sx.eq(log[0], (cur, now)), "notified of what is stored")


@case("P03", [{"kind": k} for k in ("uint8", "int32", "bool")],
      bounds="every starting value and 3 assignments")
def once(sx, kind):
    """A one-time callback sees the first change only."""
    prim = fresh(sx, kind)
    log, steady = [], []
    prim.register_callback(lambda c, n: log.append((c, n)), once=True)
    prim.register_callback(lambda c, n: steady.append((c, n)))
    for i in range(3):
        prim.value = draw(sx, kind, "v%d" % i)
    sx.check(sx.eq(log, steady[:1]), "first change only")
    sx.check(len(prim.callbacks) == (1 if steady else 2), "and then forgotten")


@case("P03", [{"kind": "uint8"}], bounds="every starting value and 2 assignments")
def once_reentrant(sx, kind):
    """A one-time callback that assigns again is still called once."""
    prim = fresh(sx, kind)
    log = []

    def bump(cur, new):
        log.append((cur, new))
        if len(log) < 4:
            prim.value = (new + 1) & 0xFF

    prim.register_callback(bump, once=True)
    a = draw(sx, kind, "a")
    sx.assume(a != prim.value)
    prim.value = a
    prim.value = draw(sx, kind, "b")
    sx.check(len(log) == 1, "called once")


@case("P03", [{"which": w} for w in (0, 1, 2)],
      bounds="every pair of values; removal at every position of three callbacks")
def removal(sx, which):
    """A removed callback is silent, the rest keep working; ids are unique."""
    prim = fresh(sx, "uint8")
    logs = [[], [], []]
    idents = [prim.register_callback(
        lambda c, n, log=log: log.append((c, n))) for log in logs]
    sx.check(len(set(idents)) == 3, "unique identifiers")
    sx.check(prim.remove_callback(idents[which]) is True, "removed")
    sx.check(prim.remove_callback(idents[which]) is False, "already removed")
    extra = []
    ident = prim.register_callback(lambda c, n: extra.append((c, n)))
    sx.check(ident not in [x for i, x in enumerate(idents) if i != which],
             "an identifier in use is not reused")
    cur = prim.value
    new = draw(sx, "uint8", "v")
    prim.value = new
    want = [(cur, new)] if cur != new else []
    for i, log in enumerate(logs):
        sx.check(sx.eq(log, [] if i == which else want), "log %d" % i)
    sx.check(sx.eq(extra, want), "the new one")


@case("P03", [{"actor": a} for a in (0, 1, 2)],
      bounds="every change; each of three callbacks removing itself or another")
def removal_during_delivery(sx, actor):
    """Callbacks may unregister themselves (or others) while being told."""
    prim = fresh(sx, "uint8")
    logs = [[], [], []]
    idents = []
    victim = sx.pick("victim", [0, 1, 2])

    def make(i):
        def callback(cur, new):
            logs[i].append((cur, new))
            if i == actor:
                prim.remove_callback(idents[victim])
        return callback

    for i in range(3):
        idents.append(prim.register_callback(make(i)))
    cur = prim.value
    a = draw(sx, "uint8", "a")
    b = draw(sx, "uint8", "b")
    sx.assume(sx.all(a != cur, a != b))
    prim.value = a
    prim.value = b
    for i in range(3):
        if i != victim:
            sx.check(sx.eq(logs[i], [(cur, a), (a, b)]), "survivor told of all")
        else:
            sx.check(len(logs[i]) == (0 if victim > actor else 1),
                     "told until it's removed, and no more")


@case("P03", bounds="every pair of values; error or not inside the context")
def scoped(sx):
    """A context-managed callback ends with its context, errors included."""
    prim = fresh(sx, "int8")
    log = []
    fail = sx.bool("fail")
    cur = prim.value
    inside = draw(sx, "int8", "inside")
    after = draw(sx, "int8", "after")
    try:
        with prim.callback(lambda c, n: log.append((c, n))):
            prim.value = inside
            if fail:
                raise KeyError("x")
    except KeyError:
        pass
    prim.value = after
    sx.check(sx.eq(log, [(cur, inside)] if cur != inside else []), "scope")
    sx.check(not prim.callbacks, "nothing left behind")


@case("P03", [{"kind": k} for k in ("uint8", "int32", "bool", "double")],
      bounds="every value and timestamp")
def timestamps(sx, kind):
    """Every assignment (changed or not) refreshes the time, which is exact."""
    prim = fresh(sx, kind)
    stamp = sx.int("stamp", 0, 1 << 62)
    now = sx.int("now", 0, 1 << 62)
    value = draw(sx, kind, "v")
    prim.set_value(value, timestamp_ns=stamp)
    sx.check(prim.last_updated_ns == stamp, "explicit time")
    sx.check(prim.age_ns(now=now) == now - stamp, "age")
    before = prim.time_source()
    prim.value = value
    sx.check(prim.last_updated_ns > before, "implicit time")
    if kind != "double" or value == value:
        before = prim.time_source()
        prim(value)
        sx.check(prim.last_updated_ns > before, "implicit time of a call")
    before = prim.last_updated_ns
    prim()
    sx.check(prim.last_updated_ns == before, "reading isn't an assignment")
    if kind == "bool":
        for op in (prim.toggle, prim.set, prim.set, prim.clear, prim.clear):
            before = prim.time_source()
            op()
            sx.check(prim.last_updated_ns > before, "implicit time of a command")
    elif kind != "double":
        prim.increment(1, timestamp_ns=stamp)
        sx.check(prim.last_updated_ns == stamp, "explicit time of an increment")
        before = prim.time_source()
        prim.increment(0)
        sx.check(prim.last_updated_ns > before, "implicit time of an increment")


@case("P03", [{"kind": k} for k in ("uint8", "int8", "uint16", "int32")],
      bounds="every value and amount within the range")
def increment(sx, kind):
    prim = fresh(sx, kind)
    lo, hi = RANGES[kind]
    log = []
    prim.register_callback(lambda c, n: log.append((c, n)))
    cur = prim.value
    amount = sx.int("amount", lo, hi)
    got = prim.increment(amount)
    span = hi - lo + 1
    sx.check((prim.value - cur - amount) % span == 0, "sum modulo the range")
    sx.check(got == prim.value, "returns the value now stored")
    sx.check(sx.iff(len(log) == 1, amount % span != 0), "told of the change")


@case("P03", bounds="both values")
def flags(sx):
    prim = fresh(sx, "bool")
    log = []
    prim.register_callback(lambda c, n: log.append((c, n)))
    cur = prim.value
    op = sx.pick("op", ["toggle", "set", "clear"])
    getattr(prim, op)()
    want = {"toggle": not cur, "set": True, "clear": False}[op]
    sx.check(prim.value == want, op)
    sx.check(len(log) == (1 if cur != want else 0), "told")
