"""P31: instruments spoken to in text: SCPI devices and the NP-05B."""

import asyncio
import logging

from harness.p23_connections import Transport, loop_run
from harness.vloop import VLoop
from runtimepy.net.tcp.protocol import QueueProtocol
from runtimepy.net.tcp.scpi import ScpiConnection
from runtimepy.net.tcp.telnet.np_05b import Np05bConnection, Np05bStrings
from sx.registry import case

ASSUMPTIONS = [
    "responses and echoed commands arrive with their lines whole",
    "times are whole numbers",
]
LOG = logging.getLogger("p31")
LOG.disabled = True
RIGHT = 100


class Scpi(ScpiConnection):
    """Records what was sent, and when."""

    def init(self):
        super().init()
        self.sent = []
        self.device = None

    def send_text(self, data):
        self.sent.append((asyncio.get_running_loop().time(), data))
        if self.device:
            self.device(data)


def build(kind):
    conn = kind(Transport(), QueueProtocol())
    conn.logger = LOG
    return conn


@case("P31", [{"modes": 2}], [{"modes": 4}, {"modes": 1, "count": 3}], budget=120,
      bounds="2 or 3 commands with every response delay and pause up to 4 (or none "
      "at all), a timeout of 2, waited for one after the other or at once")
def scpi(sx, modes, count=2):
    """A command's result is the first line received while it waited for one."""
    together = sx.pick("together", [False, True])
    shapes = [(True, True), (True, False), (False, False), (False, True)][-modes:]
    flags = [sx.pick("f%d" % i, shapes) for i in range(count)]
    delays = [sx.int("d%d" % i, 0, 4) for i in range(count)]
    silent = sx.pick("silent", [None] + list(range(count)))
    pauses = [sx.int("p%d" % i, 0, 4) for i in range(count)]
    loop = VLoop()
    conn = build(Scpi)
    received, spans, results = [], [None] * count, [None] * count
    state = {"open": 0, "most": 0}

    async def arrive(text):
        received.append((loop.time(), len(received), text))
        await conn.process_text(text + "\n")

    def device(data):
        idx = int(data[1])
        if idx != silent:
            loop.call_later(delays[idx],
                            lambda: loop.create_task(arrive("r%d" % idx)))

    conn.device = device

    async def issue(idx):
        response, query = flags[idx]
        results[idx] = await conn.send_command(
            "c%d" % idx, response=response, query=query, timeout=2)
        spans[idx] = loop.time()

    async def main():
        tasks = []
        for idx in range(count):
            if together:
                tasks.append(asyncio.create_task(issue(idx)))
            else:
                await issue(idx)
                await asyncio.sleep(pauses[idx])
        for task in tasks:
            await task
        await asyncio.sleep(6)

    loop_run(main(), loop)
    sx.check(len(conn.sent) == count, "every command is sent once")
    for idx in range(count):
        response, query = flags[idx]
        when, data = conn.sent[idx]
        sx.check(sx.eq(data, "c%d%s\n" % (idx, "?" if query else "")),
                 "commands are sent in order, as lines")
        if idx:
            sx.check(spans[idx - 1] <= when, "commands are sent one at a time")
        if not (response or query):
            sx.check(results[idx] == "" and sx.all(spans[idx] == when),
                     "a command without a response doesn't wait")
            continue
        sx.check(spans[idx] <= when + 2, "a command waits until its timeout")
        if results[idx] == "":
            sx.check(spans[idx] == when + 2, "a result is empty after the timeout")
            for t, _, _ in received:
                sx.check(sx.any(t <= when, t >= when + 2),
                         "a line that arrives in time is the result")
        else:
            match = [x for x in received if x[2] == results[idx]]
            sx.check(len(match) == 1, "a result is a line that was received")
            sx.check(sx.all(match[0][0] >= when, match[0][0] <= spans[idx]),
                     "a result was received after its command was sent")
            for t, _, _ in received[:match[0][1]]:
                sx.check(t <= when, "a result is the first line received")


@case("P31", [{}], budget=60, bounds="up to 4 lines of which every is empty or not")
def scpi_lines(sx):
    """Lines nobody waits for don't hold up reading, and don't become results."""
    conn = build(Scpi)
    lines = [sx.pick("l%d" % i, ["", "x%d" % i]) for i in range(4)]
    split = sx.pick("split", [1, 2, 4])
    answer = [sx.pick("a%d" % i, ["", "y%d" % i]) for i in range(3)]
    loop = VLoop()
    out = []

    async def main():
        for i in range(0, 4, split):
            await asyncio.wait_for(
                conn.process_text("\r\n".join(lines[i:i + split]) + "\n"), 1)

        def device(_):
            loop.call_soon(lambda: loop.create_task(
                conn.process_binary("\n".join(answer).encode())))

        conn.device = device
        out.append(await conn.send_command("c", query=True, timeout=3))

    loop_run(main(), loop)
    expect = [x for x in answer if x]
    sx.check(out == [expect[0] if expect else ""], "the first line is the result")


@case("P31", [{}], budget=60, bounds="every delay up to 3 of an answer, or none")
def scpi_init(sx):
    """A device is initialised if it answers when it is asked what it is."""
    conn = build(Scpi)
    delay = sx.int("delay", 0, 3)
    sx.assume(delay != 1)
    answer = sx.pick("answer", ["Mock", "", None])
    loop = VLoop()
    conn.device = lambda _: None if answer is None else loop.call_later(
        delay, lambda: loop.create_task(conn.process_text(answer)))
    result = loop_run(conn.async_init(), loop)
    sx.check(conn.sent[0][1] == "*IDN?\n", "the device is asked what it is")
    sx.check(sx.iff(result, sx.all(bool(answer), delay < 1)), "it has to answer")


class Pdu(Np05bConnection):
    """A PDU whose device is scripted."""

    def init(self):
        super().init()
        self.sent, self.device = [], None

    def send_text(self, data):
        self.sent.append(data)
        if self.device:
            self.device(data)


def pdu():
    conn = build(Pdu)
    conn.env.finalize()
    return conn


def consistent(sx, conn, expect):
    for idx, value in enumerate(expect):
        sx.check(conn.outlets_on[idx] is value
                 if value is None else conn.outlets_on[idx] == value,
                 "an outlet's state is the one last reported")
        if value is not None:
            sx.check(conn.env.value("outlet.%d.on" % (idx + 1)) == value,
                     "an outlet's channel has its state")


LINES = ["$A5", "$A3 1 1", "$A9", "$A0", "$AF", "", "text", "status"]


@case("P31", [{"count": 2, "size": 7}, {"count": 3, "size": 2}],
      [{"count": 3, "size": 7}], budget=120,
      bounds="sequences of 2 or 3 lines of 8 kinds, of which one has every text of 2, "
      "and one a status of any 2 or 7 digits, whole or line by line")
def responses(sx, count, size):
    """Whatever a device sends, the outlets have the states it reported last."""
    conn = pdu()
    expect, pending, due = [None] * 5, "", 0
    status = sx.str("status", sx.pick("size", [0, size]), alphabet="012,")
    text = sx.str("text", 2, lo=32, hi=126)
    parts, used = [], set()
    for i in range(count):
        kind = sx.pick("k%d" % i, LINES)
        if kind in ("status", "text"):
            if kind in used:
                sx.assume(False)
            used.add(kind)
        line = {"status": "$A0," + status, "text": text}.get(kind, kind)
        parts.append(line)
        # The reference: a response is for the command that was echoed last.
        if kind in ("status", "$A0", "$AF"):
            if pending == "$A5":
                due += 1
                if kind == "status":
                    ours = list(status)
                    for j, char in enumerate(ours):
                        if bool(char == ","):
                            ours = ours[:j]
                            break
                    for j, char in enumerate(list(reversed(ours))[:5]):
                        expect[j] = char == "1"
            pending = ""
        elif kind not in ("text", ""):
            pending = kind[:3] if kind[:3] in ("$A3", "$A5") else ""
        elif kind == "text" and bool(text == "$A"):
            pending = ""
    whole = sx.pick("whole", [False, True])

    async def main():
        if whole:
            sx.check(await conn.process_text("\r\n".join(parts) + "\r\n"), "goes on")
        else:
            for part in parts:
                sx.check(await conn.process_text(part + "\r\n"), "goes on")

    loop_run(main())
    consistent(sx, conn, expect)
    got = 0
    while not conn.outlet_status_sem.locked():
        conn.outlet_status_sem._value -= 1
        got += 1
    sx.check(got == due, "every response to a status request is signalled")


@case("P31", [{}], budget=60,
      bounds="every status of 5 outlets behind every echo on the same line")
def echoes(sx):
    """Responses that follow an echo on its line are found."""
    conn = pdu()
    digits = sx.str("digits", 5, alphabet="01")
    lead = sx.pick("lead", ["", ">", ">>", "text "])
    echo = sx.pick("echo", ["$A5", "$A5 ", "$A3 1 1$A0$A5"])
    loop_run(conn.process_text(lead + echo + "$A0," + digits + "\r\n"))
    consistent(sx, conn, [x == "1" for x in reversed(list(digits))])


class Device:
    """An NP-05B that may be slow, refuse to set outlets, or lose requests."""

    def __init__(self, loop, conn, states, delay, refuse):
        self.loop, self.conn, self.states = loop, conn, states
        self.delay, self.refuse, self.commands = delay, refuse, []
        self.busy = self.most = 0
        self.last = 0

    def __call__(self, data):
        data = data.strip()
        parts = data.split(" ")
        self.commands.append(parts)
        reply = "$A0"
        if parts[0] == "$A3":
            if self.refuse == int(parts[1]):
                reply = "$AF"
            else:
                self.states[int(parts[1]) - 1] = parts[2] == "1"
        elif parts[0] == "$A7":
            self.states[:] = [parts[1] == "1"] * 5
        else:
            reply += "," + "".join("1" if x else "0" for x in reversed(self.states))
        delay = self.delay.pop(0) if self.delay else 0
        if delay is None:
            return
        text = "%s\r\n%s\r\n" % (data, reply)
        # Responses arrive in order.
        self.last = max(self.last, self.loop.time() + delay)
        self.loop.call_at(self.last, lambda: self.loop.create_task(
            self.conn.process_text(text)))


@case("P31", [{"count": 2}], [{"count": 3}], budget=120,
      bounds="2 or 3 outlets (of 0, 1, 2, 5 and 6) set one after the other or at "
      "once, one refused, delays up to 3")
def outlets(sx, count):
    """Setting an outlet tells whether the device reports the state afterwards."""
    loop, conn = VLoop(), pdu()
    first = sx.pick("first", [False, True])
    delays = [sx.int("d%d" % i, 0, 3) for i in range(2)]
    refuse = sx.pick("refuse", [None, 1, 5])
    device = conn.device = Device(loop, conn, [first, False, False, False, True],
                                  delays, refuse)
    wants = [(sx.pick("o%d" % i, [0, 1, 2, 5, 6] if not i else [1, 5]),
              sx.pick("w%d" % i, [False, True])) for i in range(count)]
    together = sx.pick("together", [False, True])
    if together:
        sx.assume(len({x for x, _ in wants}) == count)
    results = []

    async def one(idx, state):
        results.append((idx, state, await conn.set_outlet_state(idx, state)))
        if not together:
            consistent(sx, conn, device.states)

    async def main():
        sx.check(await conn.async_init(), "works")
        consistent(sx, conn, device.states)
        if together:
            for task in [asyncio.create_task(one(*x)) for x in wants]:
                await task
        else:
            for want in wants:
                await one(*want)

    before = list(device.states)
    loop_run(main(), loop)
    consistent(sx, conn, device.states)
    current = list(before)
    expect = [["$A5"]]
    for idx, state in wants:
        if 1 <= idx <= 5:
            if current[idx - 1] != state:
                expect += [["$A3", str(idx), "1" if state else "0"], ["$A5"]]
                if idx != refuse:
                    current[idx - 1] = state
    sx.check(device.commands == expect,
             "an outlet is set, and its state requested, unless it's in that state")
    sx.check(device.states == current, "the device's outlets are those set")
    for idx, state, result in results:
        sx.check(result == (1 <= idx <= 5 and device.states[idx - 1] == state)
                 if together else True, "the result is whether it's in the state")
    if not together:
        current = list(before)
        for idx, state, result in results:
            if 1 <= idx <= 5 and idx != refuse:
                current[idx - 1] = state
            sx.check(result == (1 <= idx <= 5 and current[idx - 1] == state),
                     "the result is whether it's in the state")


@case("P31", [{}], budget=100,
      bounds="a status response that takes up to 8 (or never arrives), and a pause "
      "of up to 6 before the next command")
def late(sx):
    """A status that arrives too late isn't taken for the one requested next."""
    loop, conn = VLoop(), pdu()
    slow = sx.int("slow", 0, 8)
    lost = sx.pick("lost", [False, True])
    pause = sx.int("pause", 0, 6)
    sx.assume(slow != 5)
    sx.assume(slow != pause + 5)
    device = conn.device = Device(loop, conn, [False] * 5,
                                  [0, 0, None if lost else slow, 0, 1], None)
    seen = []

    async def main():
        await conn.async_init()
        try:
            sx.check(await conn.set_outlet_state(1, True), "it gets set")
            seen.append("set")
        except asyncio.TimeoutError:
            seen.append("timeout")
        await asyncio.sleep(pause)
        start = loop.time()
        ahead = not lost and bool(slow > pause + 5)
        if not ahead:
            sx.check(await conn.set_outlet_state(2, True),
                     "the next command gets its own status")
            sx.check(loop.time() == start + 1, "the next command waits for its status")
            consistent(sx, conn, device.states)

    loop_run(main(), loop)
    sx.check(seen == (["timeout"] if lost or bool(slow > 5) else ["set"]),
             "a command waits for 5 seconds")


@case("P31", [{"count": 2}], [{"count": 3}], budget=100,
      bounds="2 or 3 of 8 commands, handled at once or one by one, for a device that "
      "sets every outlet or refuses one")
def commands(sx, count):
    """Channel commands and custom commands are turned into device commands."""
    loop, conn = VLoop(), pdu()
    refuse = sx.pick("refuse", [None, 1])
    device = conn.device = Device(loop, conn, [sx.pick("first", [False, True]), False,
                                               False, False, True], [], refuse)
    table = {"set outlet.1.on true": (1, True), "set outlet.1.on false": (1, False),
             "toggle outlet.1.on": (1, None), "set outlet.5.on 0": None,
             "toggle outlet.5.on": (5, None), "set outlet.5.on false": (5, False),
             "custom all_on": True, "custom all_off": False,
             "toggle enabled -f": None}
    picks = [sx.pick("c%d" % i, list(table)) for i in range(count)]
    each = sx.pick("each", [False, True])

    async def main():
        await conn.async_init()
        for pick in picks:
            conn.command.command(pick)
            if each:
                await conn.process_command_queue()
        await conn.process_command_queue()

    current = list(device.states)
    expect = []
    for pick in picks:
        what = table[pick]
        if what in (True, False):
            expect.append(["$A7", "1" if what else "0"])
            current = [what] * 5
        elif what:
            idx, state = what
            if state is None:
                state = not current[idx - 1]
            if state != current[idx - 1]:
                expect.append(["$A3", str(idx), "1" if state else "0"])
                if idx != refuse:
                    current[idx - 1] = state
    loop_run(main(), loop)
    sx.check([x for x in device.commands if x != ["$A5"]] == expect,
             "every command is sent to the device once and in order")
    sx.check(device.states == current, "the outlets are in the states commanded")
    sx.check([x is None or x == y for x, y in zip(conn.outlets_on, current)]
             == [True] * 5, "the outlets' states are known")
    if each:
        consistent(sx, conn, current)
    sx.check(conn.outgoing_commands.empty(), "no command is left")
