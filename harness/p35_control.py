"""P35: stepping time, and what moves with it."""

import math
import random
import types

from vcorelib.math import default_time_ns, restore_time_source

from harness.p23_connections import loop_run
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.control import step as module
from runtimepy.control.source import DoubleSource
from runtimepy.control.step import ToggleStepper, ToggleStepperTask, should_poll
from runtimepy.metrics.task import PeriodicTaskMetrics
from runtimepy.mixins.trig import TrigMixin
from runtimepy.net.arbiter.info import RuntimeStruct, SampleStruct
from runtimepy.net.server.websocket import RuntimepyWebsocketConnection
from runtimepy.noise import GaussianSource
from runtimepy.primitives import Bool, Uint16
from runtimepy.telemetry import sample
from sx.registry import case

ASSUMPTIONS = [
    "the real-time clock stands still",
    "times in nanoseconds where they are stepped",
    "sines and cosines are those of the math module",
]


class Thing(RuntimeStruct):
    """Something that is polled."""

    def init_env(self):
        self.times = []

    def poll(self):
        self.times.append(default_time_ns())


class Other(Thing):
    pass


class RtThing(Thing):
    """Polled by something else."""


class Rate(Thing):
    pass


class UiState(Thing):
    pass


class Page:
    """A browser."""

    def __init__(self, names=("a", "b")):
        self.got = []
        self.send_interfaces = {
            name: (lambda data, name=name: self.got.append((name, data))) for name in names
        }


class Manager:
    def __init__(self, pages):
        self.pages = pages

    def by_type(self, kind):
        assert kind is RuntimepyWebsocketConnection
        return iter(self.pages)


def world(names, config=None, pages=()):
    """An application with some structs and a stepper."""
    app = types.SimpleNamespace(structs={}, conn_manager=Manager(list(pages)))
    kinds = {"thing": Thing, "other": Other, "rt": RtThing, "ui": UiState,
             "rate": Rate}
    for i, name in enumerate(names):
        app.structs["%s%d" % (name, i)] = kinds[name]("%s%d" % (name, i), {})
    stepper = ToggleStepper("stepper", {})
    stepper.config = config or {}
    app.structs["stepper"] = stepper
    module.metrics_time_ns = lambda: 0
    for struct in app.structs.values():
        struct.app = app
        struct.init_env()
    stepper.count_rate_tracker = lambda: 0.0
    for prim in (stepper.count, stepper.counts, stepper.count_rate):
        prim.time_source = lambda: 0
    return app, stepper


@case("P35", [{"n": 2}], [{"n": 3}], budget=60,
      bounds="2 (3) toggles of the step or the source of time, or changes of the number "
      "of iterations to up to 3, with steps in time of any size")
def stepping(sx, n):
    """Every toggle is as many iterations as asked for, each one step in time."""
    restore_time_source()
    delta = sx.int("delta", 1, 2 ** 40)
    everything = sx.pick("everything", [True, False, None])
    config = {"step_dt_ns": delta}
    if everything is not None:
        config["global"] = everything
    first = sx.pick("first", [None, 2])
    if first is not None:
        config["count"] = first
    page = Page()
    names = ["thing", "rt", "other", "ui"]
    published, old = [], module.from_nanos
    module.from_nanos = lambda x: published.append(x) or 0.0
    app, stepper = world(names, config, [page])
    things = list(app.structs.values())[:4]
    count, total, simulated, actions, steps = first or 1, 0, False, 0, []
    try:
        for i in range(n):
            what = sx.pick("what%d" % i, ["step", "simulate", "count"])
            if what == "step":
                before = stepper.step.value
                stepper.step.toggle()
                sx.check(stepper.step.value == (not before), "toggled")
                for _ in range(count):
                    if simulated:
                        steps.append(delta * total)
                    total += 1
                if simulated and count:
                    sx.check(published[-1] == steps[-1], "the time is published")
            elif what == "simulate":
                simulated = not simulated
                stepper.simulate_time.toggle()
                actions += 1
                if simulated:
                    sx.check(sx.all(default_time_ns() == delta * total,
                                    published[-1] == delta * total),
                             "the time is the stepper's")
                else:
                    sx.check(default_time_ns() > 2 ** 60, "the time is the real one again")
            else:
                count = sx.pick("count%d" % i, [0, 1, 3])
                stepper.env.set("count", count)
            sx.check(stepper.env.value("counts") == total, "iterations")
            sx.check(stepper.timer() == delta * total, "the stepper's time")
            if simulated:
                sx.check(default_time_ns() == delta * total, "time moves with it")
            sx.check(page.got == [(x, {"actions": ["clear_points"]})
                                  for _ in range(actions) for x in ("a", "b")],
                     "browsers start over when the source of time changes")
    finally:
        restore_time_source()
        module.from_nanos = old
    for name, thing in zip(names, things):
        polled = everything is not False and name in ("thing", "other")
        sx.check(len(thing.times) == (total if polled else 0), "polled each time")
        if polled:
            seen = [x for x in thing.times if bool(x < 2 ** 60)]
            sx.check(len(seen) == len(steps), "at the time of the stepper")
            for x, y in zip(seen, steps):
                sx.check(x == y, "time when polled")


@case("P35", bounds="every sequence of up to 3 kinds of structs")
def polled(sx):
    """A stepper polls every struct but those that others poll."""
    names = [sx.pick("name%d" % i, ["thing", "other", "rt", "ui", "rate"])
             for i in range(sx.size("n", 0, 3))]
    app, stepper = world(names)
    want = {x for x in app.structs.values() if type(x) in (Thing, Other, Rate)}
    sx.check(stepper.to_poll == want, "those, once")
    sx.check(not should_poll(ToggleStepper) and not should_poll(SampleStruct), "not others")


@case("P35", bounds="up to 3 steppers and 3 iterations, paused or not")
def task(sx):
    """A task steps every stepper once per iteration, when it's asked to."""
    count, times = sx.size("count", 0, 3), sx.size("times", 0, 3)
    steppers = [types.SimpleNamespace(step=Bool(), toggles=[]) for _ in range(count)]
    for x in steppers:
        x.step.register_callback(lambda _, new, toggles=x.toggles: toggles.append(new))
    kinds = []

    def search(kind, pattern=".*"):
        kinds.append(kind)
        return iter(steppers)

    runner = ToggleStepperTask("p35")
    app = types.SimpleNamespace(search_structs=search)

    async def main():
        await runner.init(app)
        sx.check(bool(runner.paused), "paused at first")
        for _ in range(times):
            sx.check(await runner.dispatch(), "goes on")

    loop_run(main())
    sx.check(kinds == [ToggleStepper], "looks for steppers")
    for x in steppers:
        sx.check(len(x.toggles) == times, "each stepped")


class Source(DoubleSource):
    """A source of given values."""

    def init_source(self):
        self.calls = []

    def source(self, index):
        self.calls.append(index)
        return self.values[index]


@case("P35", bounds="up to 3 outputs of every value and 4 amplitudes, and the generator "
      "of noise")
def sources(sx):
    """Outputs are the values of their source times their amplitudes."""
    count = sx.pick("count", [None, 0, 1, 3])
    noise = sx.pick("noise", [False, True])
    source = (GaussianSource if noise else Source)("p35", {} if count is None else {
        "count": count})
    source.init_env()
    count = 1 if count is None else count
    names = ["%d.%s" % (i, x) for i in range(count) for x in ("output", "amplitude")]
    sx.check(sorted(x for x in source.env.names if x[0].isdigit()) == sorted(names),
             "channels")
    source.values = [sx.float("v%d" % i) for i in range(count)]
    for x in source.values:
        sx.assume(sx.all(x > -1e300, x < 1e300))
    amplitudes = [sx.pick("a%d" % i, [None, 0.0, -2.0, 0.5]) if i < 2 else None
                  for i in range(count)]
    for i, x in enumerate(amplitudes):
        if x is not None:
            source.env.set("%d.amplitude" % i, x)
        else:
            sx.check(source.env.value("%d.amplitude" % i) == 1, "1 unless changed")
    made = iter(source.values)
    old = random.gauss
    random.gauss = lambda *_: next(made)
    try:
        source.poll()
    finally:
        random.gauss = old
    if not noise:
        sx.check(sorted(source.calls) == list(range(count)), "each once")
    for i, x in enumerate(amplitudes):
        sx.check(source.env.value("%d.output" % i) ==
                 source.values[i] * (1.0 if x is None else x), "output")


def near(a, b):
    return abs(a - b) <= 1e-5 * max(abs(a), abs(b), 1.0)


@case("P35", [{"first": x} for x in ("amplitude", "sin_phase_angle", "cos_phase_angle",
                                     "steps", "dispatch")], budget=60,
      bounds="an iteration, then 3 of: changes of the amplitude, a phase or the number of "
      "steps (also to zero), and other iterations")
def waves(sx, first):
    """Waves follow their steps, amplitude and phases at once."""
    env = ChannelEnvironment()
    wave = TrigMixin(env)
    env.finalize()
    state = {"amplitude": 1.0, "sin_phase_angle": 0.0, "cos_phase_angle": 0.0,
             "steps": 64.0}
    at = sx.pick("at", [0, 5])
    angle = math.tau / 64.0 * at
    wave.dispatch_trig(at)
    for i in range(3):
        name = first if not i else sx.pick("name%d" % i, list(state) + ["dispatch"])
        if name == "dispatch":
            step = sx.pick("step%d" % i, [0, 1, 1000])
            wave.dispatch_trig(step)
            if state["steps"]:
                angle = math.tau / state["steps"] * step
        else:
            state[name] = sx.pick("to%d" % i, [0.0, 1.0, 0.5, 100.0] if name == "steps"
                                  else [0.0, 0.5, -2.0])
            env.set(name, state[name])
        sx.check(near(env.value("sin"), state["amplitude"] * math.sin(
            angle + state["sin_phase_angle"])), "sine")
        sx.check(near(env.value("cos"), state["amplitude"] * math.cos(
            angle + state["cos_phase_angle"])), "cosine")


@case("P35", bounds="every number of iterations and flush counts of 0 to 4 (and 65535)")
def flushes(sx):
    """Telemetry is captured every iteration, and flushed every so many."""
    calls = []
    task = sample.SampleTelemetryTask("p35")
    task.tx_conn = types.SimpleNamespace(
        capture=lambda sample=True, flush=False: calls.append((sample, flush)))
    task.flush_count = Uint16(value=sx.pick("count", [0, 1, 2, 3, 4, 65535]))
    at = sx.int("at", 0, 2 ** 31)
    task.metrics = PeriodicTaskMetrics.create()
    task.metrics.dispatches.value = at
    sx.check(loop_run(task.dispatch()) is not False, "goes on")
    want = [(True, False)]
    every = task.flush_count.value
    if every <= 1 or bool(at % every == 0):
        want.append((False, True))
    sx.check(calls == want, "captured and flushed")
