"""P26: waiting for a value, and sampling changes."""

import asyncio

from harness.vloop import VLoop
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.primitives import create
from runtimepy.primitives.evaluation import EvalResult, Operator, sample_for
from sx.registry import case

def make(kind, **kw):
    return type(create(kind))(**kw)


ASSUMPTIONS = ["writes happen between, not during, the steps of the event loop",
               "no write happens at exactly the moment a wait times out"]


def compare(sx, op, a, b):
    return {"LESS_THAN": a < b, "LESS_THAN_OR_EQUAL": a <= b, "EQUAL": a == b,
            "NOT_EQUAL": a != b, "GREATER_THAN_OR_EQUAL": a >= b,
            "GREATER_THAN": a > b}[op]


def gaps(sx, n, timeout):
    """When each write happens, strictly increasing, and never at the timeout."""
    at, out = 0, []
    for i in range(n):
        at = at + sx.int("gap%d" % i, 1, 40)
        sx.assume(at != timeout)
        out.append(at)
    return out


async def write(prim, times, values):
    now = 0
    for t, v in zip(times, values):
        await asyncio.sleep(t - now)
        now = t
        prim.value = v


def scenario(sx, prim, waiter, values, n):
    """Run a waiter against writes at every combination of times."""
    loop = VLoop()
    timeout = sx.int("timeout", 1, 60)
    times = gaps(sx, n, timeout)

    async def main():
        task = asyncio.ensure_future(write(prim, times, values))
        res = await waiter(timeout)
        end = loop.time()
        await task
        return res, end

    res, end = loop.run_until_complete(main())
    sx.check(not loop.errors, "no unhandled error")
    return res, end, timeout, times


def judge(sx, prim, res, end, timeout, times, holds, start):
    """The first satisfying change ends the wait; else it lasts to the end."""
    sx.check(not prim.callbacks, "nothing is left registered")
    if start:
        sx.check(res is EvalResult.SUCCESS and end == 0, "already satisfied")
        return
    changed = False
    for t, (change, ok) in zip(times, holds):
        if t > timeout:
            break
        if change and ok:
            sx.check(res is EvalResult.SUCCESS and bool(res), "satisfied")
            sx.check(end == t, "ends as soon as it is satisfied")
            return
        changed = changed or change
    sx.check(not bool(res), "not satisfied")
    sx.check(end == timeout, "ends at the timeout")
    sx.check(res is (EvalResult.FAIL if changed else EvalResult.TIMEOUT), "reason")


OPS = ["LESS_THAN", "LESS_THAN_OR_EQUAL", "EQUAL", "NOT_EQUAL",
       "GREATER_THAN_OR_EQUAL", "GREATER_THAN"]


@case("P26", [{"op": o, "n": 2, "kind": "uint8"} for o in OPS] +
      [{"op": "EQUAL", "n": 2, "kind": "int32"}],
      thorough=[{"op": o, "n": 3, "kind": k} for o in OPS for k in ("uint8", "int32")],
      bounds="every starting value, every 2 (thorough 3) values written at every "
      "time, every awaited value and timeout (times are integers up to 60)",
      budget=60)
def integers(sx, op, n, kind):
    lo, hi = (0, 255) if kind == "uint8" else (-2 ** 31, 2 ** 31 - 1)
    prim = make(kind, value=sx.int("start", lo, hi))
    want = sx.int("want", lo, hi)
    values = [sx.int("v", lo, hi) for _ in range(n)]
    prev, holds = prim.value, []
    start = bool(compare(sx, op, want, prev))
    res, end, timeout, times = scenario(
        sx, prim, lambda t: prim.wait_for_value(want, t, Operator[op]), values, n)
    for v in values:
        holds.append((bool(v != prev), bool(compare(sx, op, want, v))))
        prev = v
    judge(sx, prim, res, end, timeout, times, holds, start)


@case("P26", [{"op": o, "n": 2} for o in OPS], budget=60,
      bounds="a double, scaled or not, with 2 of 3 values written at every time, against "
      "an awaited value in engineering units")
def floats(sx, op, n):
    scaling = sx.pick("scaling", [None, [1.5, 0.5]])
    raws = [-2.0, 0.25, 1000.5]
    prim = make("double", value=sx.pick("start", raws), scaling=scaling)
    raw = sx.pick("want", raws)
    want = 1.5 + 0.5 * raw if scaling else raw
    values = [sx.pick("v%d" % i, raws) for i in range(n)]
    prev, holds = prim.value, []
    start = compare(sx, op, raw, prev)
    # a different object of the same value
    want = float(repr(want))
    res, end, timeout, times = scenario(
        sx, prim, lambda t: prim.wait_for_value(want, t, Operator[op]), values, n)
    for v in values:
        holds.append((v != prev, compare(sx, op, raw, v)))
        prev = v
    judge(sx, prim, res, end, timeout, times, holds, start)


@case("P26", [{"n": 3}], bounds="both starting and awaited states, 3 writes at "
      "every time")
def states(sx, n):
    prim = make("bool", value=bool(sx.bool("start")))
    want = bool(sx.bool("want"))
    values = [bool(sx.bool("v")) for _ in range(n)]
    prev, holds, start = prim.value, [], bool(prim.value == want)
    for v in values:
        holds.append((v != prev, v == want))
        prev = v
    res, end, timeout, times = scenario(
        sx, prim, lambda t: prim.wait_for_state(want, t), values, n)
    judge(sx, prim, res, end, timeout, times, holds, start)


@case("P26", [{"tol": t, "n": 2} for t in (0, 3)],
      bounds="16-bit values against a scaled target within an absolute "
      "tolerance, 2 writes at every time")
def close(sx, tol, n):
    prim = make("int16", value=sx.int("start", -1000, 1000), scaling=[2.0, 0.5])
    want = sx.pick("want", [-7.0, 2.0, 3.25])
    values = [sx.int("v", -1000, 1000) for _ in range(n)]
    prev, holds = prim.value, []
    start = bool(abs(4 + prev - 2 * want) <= 2 * tol)
    res, end, timeout, times = scenario(
        sx, prim, lambda t: prim.wait_for_isclose(want, t, rel_tol=0.0, abs_tol=tol),
        values, n)
    for v in values:
        holds.append((bool(v != prev), bool(abs(4 + v - 2 * want) <= 2 * tol)))
        prev = v
    judge(sx, prim, res, end, timeout, times, holds, start)


@case("P26", [{"n": 2 + q, "count": c, "current": u, "quick": q}
              for c in (-1, 0, 1, 2) for u in (False, True) for q in (0, 1)],
      thorough=[{"n": 3 + q, "count": c, "current": u, "quick": q}
                for c in (-1, 0, 1, 2, 3) for u in (False, True) for q in (0, 1)],
      bounds="every starting value and 2 to 4 writes at every time before or "
      "after every timeout; consumers that take no or any time with a sample",
      budget=150)
def sampling(sx, n, count, current, quick):
    """Each change until the end is sampled once, in order, with its time."""
    loop = VLoop()
    clock = [sx.int("t0", 0, 1000)]
    prim = make("uint8", value=sx.int("start", 0, 255),
                  time_source=lambda: clock[0] + loop.time())
    timeout = sx.int("timeout", 1, 60)
    times = gaps(sx, n, timeout)
    values = [sx.int("v", 0, 255) for _ in range(n)]
    slow = 0 if quick else sx.int("slow", 1, 50)
    expect = [(prim.value, prim.last_updated_ns)] if current else []
    prev = prim.value
    got = []

    async def main():
        task = asyncio.ensure_future(write(prim, times, values))
        async for sample in sample_for(prim, timeout, count=count, current=current):
            got.append(sample)
            if slow > 0:
                await asyncio.sleep(slow)
        sx.check(not prim.callbacks, "nothing is left registered")
        if count > 0 and len(got) >= count:
            sx.reach("count")
        else:
            sx.check(loop.time() >= timeout, "sampled to the end")
        await task

    loop.run_until_complete(main())
    sx.check(not loop.errors, "no unhandled error")
    for t, v in zip(times, values):
        if v != prev and t < timeout:
            expect.append((v, clock[0] + t))
        prev = v
    if count > 0:
        expect = expect[:count]
    sx.check(sx.eq(got[:len(expect)], expect), "samples")
    sx.check(len(got) == len(expect) or (slow > 0 and len(got) > len(expect)),
             "nothing else")


ITEMS = {"off": 0, "low": 3, "high": 200}


def environment(sx, kind, start, clock=None):
    """An environment with one channel that matters, of a kind, and another one."""
    env = ChannelEnvironment()
    prim = make({"enum": "uint8", "flags": "bool", "scaled": "int16"}.get(kind, kind),
                **({"time_source": clock} if clock else {}))
    prim.value = start
    kwargs = {"scaling": [2.0, 0.5]} if kind == "scaled" else {}
    if kind == "enum":
        env.enum("items", "int", items=dict(ITEMS))
        kwargs["enum"] = "items"
    elif kind == "flags":
        env.enum("items", "bool", items={"no": False, "yes": True})
        kwargs["enum"] = "items"
    env.channel("other", "uint8")
    env.channel("x", prim, **kwargs)
    if kind == "scaled":
        prim.scaling = [2.0, 0.5]
    env.finalize()
    return env, prim


@case("P26", [{"kind": k} for k in ("bool", "flags", "enum", "uint8", "scaled",
                                    "close")], budget=60,
      bounds="a channel of 6 kinds by name or identifier, every starting value, 2 writes "
      "of any values at every time, and an awaited one by its number or item's name")
def environments(sx, kind):
    """An environment waits for its channels as those would."""
    flag = kind in ("bool", "flags")
    lo, hi = (0, 1) if flag else (0, 255)

    def draw(name):
        return bool(sx.bool(name)) if flag else sx.int(name, lo, hi)

    env, prim = environment(sx, "scaled" if kind == "close" else kind, draw("start"))
    key = sx.pick("key", ["x", env.channels["x"].id])
    values = [draw("v%d" % i) for i in range(2)]
    if kind == "enum":
        name = sx.pick("want", list(ITEMS))
        want, wait = ITEMS[name], lambda t: env.wait_for_enum(key, name, t)
    elif kind == "flags":
        name = sx.pick("want", ["no", "yes"])
        want, wait = name == "yes", lambda t: env.wait_for_enum(key, name, t)
    elif kind == "bool":
        want = bool(sx.bool("want"))
        wait = lambda t: env.wait_for_bool(key, want, t)  # noqa: E731
    elif kind == "close":
        want = sx.pick("want", [0, 3, 255])
        wait = lambda t: env.wait_for_numeric_isclose(  # noqa: E731
            key, 2.0 + 0.5 * want, t, rel_tol=0.0, abs_tol=0.25)
    else:
        want = sx.pick("want", [0, 3, 255])
        wait = lambda t: env.wait_for_numeric(  # noqa: E731
            key, 2.0 + 0.5 * want if kind == "scaled" else want, t, operation=op)
    op = Operator.EQUAL
    if kind in ("uint8", "scaled"):
        op = sx.pick("op", [Operator.EQUAL, Operator.LESS_THAN,
                            Operator.GREATER_THAN_OR_EQUAL])
    prev, holds = prim.value, []

    def ok(v):
        return bool(compare(sx, op.name, want, v))

    start = ok(prev)
    res, end, timeout, times = scenario(sx, prim, wait, values, 2)
    for v in values:
        holds.append((bool(v != prev), ok(v)))
        prev = v
    judge(sx, prim, res, end, timeout, times, holds, start)


@case("P26", [{"kind": k} for k in ("bool", "enum", "uint8", "scaled", "double")],
      budget=60, bounds="a channel of 5 kinds by name or identifier, every starting "
      "value, 3 writes of any (or of 4 doubles) at every time, counted or not, with or "
      "without the current one, scaled or not")
def environment_samples(sx, kind):
    """An environment's samples are its channel's changes, as they're read."""
    loop, t0 = VLoop(), sx.int("t0", 0, 1000)

    def draw(name):
        return bool(sx.bool(name)) if kind == "bool" else sx.pick(
            name, [0.5, -1.0, 7.0, 8.0]) if kind == "double" else sx.pick(
            name, [0, 3, 7, 200]) if kind == "enum" else sx.int(name, 0, 255)

    env, prim = environment(sx, kind, draw("start"), lambda: t0 + loop.time())
    key = sx.pick("key", ["x", env.channels["x"].id])
    timeout = sx.int("timeout", 1, 60)
    times = gaps(sx, 2, timeout)
    values = [draw("v%d" % i) for i in range(2)]
    count, current = sx.pick("count", [-1, 1, 2]), sx.pick("current", [True, False])
    kwargs = {}
    if kind in ("uint8", "scaled", "double"):
        kwargs["scale"] = sx.pick("scale", [True, False])
    method = {"bool": env.sample_bool_for, "enum": env.sample_enum_for,
              "double": env.sample_float_for}.get(kind, env.sample_int_for)

    def read(v):
        if kind == "enum":
            return {0: "off", 3: "low", 200: "high"}.get(v, v)
        return 2.0 + 0.5 * v if kind == "scaled" and kwargs["scale"] else v

    expect = [(read(prim.value), prim.last_updated_ns)] if current else []
    prev, got = prim.value, []

    async def main():
        task = asyncio.ensure_future(write(prim, times, values))
        async for sample in method(key, timeout, count=count, current=current, **kwargs):
            got.append(sample)
        sx.check(not prim.callbacks, "nothing is left registered")
        await task

    loop.run_until_complete(main())
    sx.check(not loop.errors, "no unhandled error")
    for t, v in zip(times, values):
        if v != prev and t < timeout:
            expect.append((read(v), t0 + t))
        prev = v
    if count > 0:
        expect = expect[:count]
    sx.check(len(got) == len(expect), "each change once")
    sx.check(sx.eq(got, expect), "as it's read, with its time")


@case("P26", [{"times": 2}], budget=40,
      bounds="an environment final at the start, at any time up to 3, or by then again")
def final(sx, times):
    """Waiting for an environment to be final ends when it is, for everyone."""
    loop = VLoop()
    asyncio.set_event_loop(loop)
    env = ChannelEnvironment()
    at = sx.size("at", 0, 3)
    starts, ends = [sx.size("start%d" % i, 0, 3) for i in range(times)], []

    async def waiter(start):
        await asyncio.sleep(start)
        await env.wait_finalized()
        ends.append((start, loop.time()))

    async def main():
        tasks = [asyncio.ensure_future(waiter(s)) for s in starts]
        await asyncio.sleep(at)
        sx.check(not env.finalized, "not yet")
        env.finalize()
        sx.check(env.finalized, "final")
        env.finalize(strict=False)
        try:
            env.finalize()
            sx.fail("an environment is made final once")
        except AssertionError:
            pass
        await asyncio.gather(*tasks)

    try:
        loop.run_until_complete(main())
    finally:
        asyncio.set_event_loop(None)
    sx.check(sorted(ends) == sorted((s, max(s, at)) for s in starts), "in time")
