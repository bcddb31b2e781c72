"""P37: what the terminal interface shows."""

import types

from harness.p23_connections import loop_run
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.primitives import Bool, Double, Int16, Uint8
from runtimepy.primitives.field.fields import BitFields
from runtimepy.tui import channels, mixin
from runtimepy.tui.channels import ChannelTui
from runtimepy.tui.cursor import Cursor
from runtimepy.tui.task import TuiTask
from sx.registry import case

ASSUMPTIONS = ["curses is replaced by a grid of characters",
               "windows have a line for every channel, and columns for names and values"]
RESIZE = 410


class Window:
    """A grid of characters."""

    def __init__(self, height, width):
        self.size, self.keys, self.blocking, self.refreshed = (height, width), [], True, 0
        self.next = None
        self.clear()

    def clear(self):
        self.rows = [[" "] * self.size[1] for _ in range(self.size[0])]

    def box(self):
        for row in (0, -1):
            self.rows[row] = ["#"] * self.size[1]
        for row in self.rows:
            row[0] = row[-1] = "#"

    def addstr(self, y, x, text):
        assert 0 <= y < self.size[0] and 0 <= x and x + len(text) < self.size[1], (y, x, text)
        self.rows[y][x:x + len(text)] = list(text)

    def subwin(self, height, width, y, x):
        assert y + height <= self.size[0] and x + width <= self.size[1]
        return Window(height, width)

    def getmaxyx(self):
        return self.next or self.size

    def resize(self, height, width):
        self.size = (height, width)
        self.clear()

    def move(self, y, x):
        assert 0 <= y < self.size[0] and 0 <= x < self.size[1]

    def nodelay(self, flag):
        self.blocking = not flag

    def getch(self):
        return self.keys.pop(0) if self.keys else -1

    def noutrefresh(self):
        self.refreshed += 1

    def lines(self):
        return ["".join(x)[1:-1].rstrip() for x in self.rows[1:-1]]


def install():
    updates = []
    fake = types.SimpleNamespace(
        KEY_RESIZE=RESIZE, use_default_colors=lambda: None, curs_set=lambda x: None,
        doupdate=lambda: updates.append(1), keyname=lambda char: b"k%d" % char)
    channels._curses = mixin._curses = fake
    return updates


def show(value):
    if isinstance(value, float):
        return "%5.6f" % value
    return str(int(value)) if isinstance(value, int) else value


@case("P37", [{"first": x} for x in ("a", "b", "c", "mode", "key", "resize")], budget=90,
      bounds="2 changes of 4 channels of different types to values of different lengths, "
      "keys, or other sizes, each followed by an iteration")
def shown(sx, first):
    """Every channel's name and current value are shown, and nothing else."""
    updates = install()
    env = ChannelEnvironment()
    env.channel("a", Int16())
    env.channel("b", Double())
    env.channel("c", Bool())
    env.enum("Mode", "int", items={"off": 0, "automatic": 1})
    env.channel("mode", Uint8(), enum="Mode")
    fields = BitFields.new("uint8")
    fields.flag("flag")
    fields.field("bits", 3)
    fields.finalize()
    env.fields.add(fields)
    task = TuiTask.__new__(TuiTask)
    task.init_channels(env)
    window = Window(24, 80)

    async def main():
        sx.check(await task.init(window), "initialised")
        sx.check(not window.blocking, "doesn't wait for keys")
        pressed = ""
        for i in range(3):
            what = None
            if i:
                what = first if i == 1 else sx.pick("what", ["a", "b", "c", "mode", "key",
                                                             "resize"])
            if what == "a":
                env.set("a", sx.pick("v%d" % i, [0, -12345, 12345, 7]))
            elif what == "b":
                env.set("b", sx.pick("v%d" % i, [0.0, -1234.5, 1e6]))
            elif what == "c":
                env.set("c", sx.pick("v%d" % i, [True, False]))
            elif what == "mode":
                env.set("mode", sx.pick("v%d" % i, ["off", "automatic"]))
            elif what == "key":
                window.keys.append(sx.pick("v%d" % i, [97, 10, 0, 410]))
                pressed = "key: %4d 'k%d'" % (window.keys[-1], window.keys[-1])
            elif what == "resize":
                window.next = sx.pick("v%d" % i, [(30, 70), (20, 90)])
                window.keys.append(RESIZE)
            before = len(updates)
            sx.check(await task.dispatch(), "goes on")
            sx.check(len(updates) > before, "drawn")
            size = window.next or (24, 80)
            sx.check((env.value("ui.window.height"), env.value("ui.window.width")) == size,
                     "its size")
            names = sorted(env.names)
            col = max(len(x) for x in names) + 2
            got = task.tui.body.lines()
            for row, name in zip(got, names):
                want = name.ljust(col - 1) + show(env.value(name))
                sx.check(row == want.rstrip(), "name and value")
            sx.check(not any(got[len(names):]), "nothing else")
            header = task.tui.header.lines()
            sx.check(header[0].split() == ["width:", str(size[1])], "width")
            sx.check(header[1].split() == ["height:", str(size[0])], "height")
            if what == "resize":
                pressed = "key: %4d 'k%d'" % (RESIZE, RESIZE)
            sx.check(header[2].rstrip() == pressed, "and the latest key")
            sx.check(len(got) == size[0] - 10, "the size of the body")

    loop_run(main())


@case("P37", [{"n": 2}], [{"n": 3}], budget=60,
      bounds="a window of any size up to 100 that changes once, and 2 (3) moves to or by "
      "any distance of up to 200")
def cursor(sx, n):
    """A cursor moves exactly as asked for, but never out of its window."""
    height, width = sx.int("height", 1, 100), sx.int("width", 1, 100)
    moves = []

    class Screen:
        def getmaxyx(self):
            return size

        def resize(self, *args):
            resized.append(args)

        def move(self, y, x):
            moves.append((y, x))

    size, resized = (height, width), []
    cursor_ = Cursor(Screen())
    sx.check(len(moves) == 1 and sx.all(moves[0][0] == 0, moves[0][1] == 0), "at the start")
    y, x = 0, 0
    for i in range(n):
        if i == 1:
            size = (sx.int("height2", 1, 100), sx.int("width2", 1, 100))
            changed = cursor_.poll_max()
            sx.check(sx.iff(changed, sx.any(size[0] != height, size[1] != width)), "changed")
            height, width = size
        how = sx.pick("how%d" % i, ["down", "right", "to"])
        by = sx.int("by%d" % i, -200, 200)
        moves.clear()
        if how == "down":
            to = (y + by, x)
            result = cursor_.inc_y(by)
        elif how == "right":
            to = (y, x + by)
            result = cursor_.inc_x(by)
        else:
            to = (by, sx.int("x%d" % i, -200, 200))
            result = cursor_.move(*to)
        inside = sx.all(to[0] >= 0, to[1] >= 0, to[0] < height, to[1] < width)
        sx.check(sx.iff(result, inside), "whether it moved")
        if bool(inside):
            y, x = to
            sx.check(len(moves) == 1 and sx.all(moves[0][0] == y, moves[0][1] == x), "moved")
        else:
            sx.check(not moves, "not moved")
        sx.check(sx.all(cursor_.y.value == y, cursor_.x.value == x), "where it is")
