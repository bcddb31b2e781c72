"""P18: what an HTTP server serves: files of its paths, data, commands."""

import asyncio
import json
import logging
import os
from pathlib import Path
import tempfile

from harness.vloop import VLoop
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command import GLOBAL
from runtimepy.channel.environment.command.processor import (
    ChannelCommandProcessor,
)
from runtimepy.net.http import HttpMessageProcessor
from runtimepy.net.http.header import RequestHeader
from runtimepy.net.http.response import ResponseHeader
import runtimepy.net.server
import runtimepy.net.server.json
from runtimepy.net.server import RuntimepyServerConnection
from sx.registry import case

ASSUMPTIONS = ["JSON text round-trips (it is replaced by a store of values)",
               "file contents come from a stand-in that records the path"]
LOG = logging.getLogger("p18")
LOG.disabled = True

TREE = ["secret", "secret.md", "www.md", "www2/x", "a", "www/a", "www/d/b",
        "www/page.md", "www/page.txt", "www/d.md", "www/z.tar.gz", "www/t.html",
        "alt/a", "alt/only.json", "alt/d/c", "www/v.1.md", "www/v.md"]
TOP = None


def top():
    """A scratch tree of files, one for each process (removed by the check)."""
    global TOP
    if TOP is None or TOP[0] != os.getpid():
        base = Path(tempfile.mkdtemp(prefix="p18-")).resolve()
        TOP = (os.getpid(), base)
        for name in TREE:
            (base / name).parent.mkdir(parents=True, exist_ok=True)
            (base / name).write_bytes(b"x")
    return TOP[1]


class Transport:
    def __init__(self):
        self.sent = b""

    def write(self, data):
        self.sent = self.sent + data

    def get_extra_info(self, name, default=None):
        return ("host", 1) if name in ("sockname", "peername") else default


class Protocol:
    conn = None


class Server(RuntimepyServerConnection):
    class_paths = []
    class_redirect_paths = {Path("/old"): "/new", Path("/a"): "/shadowed"}
    favicon_data = b"icon"
    apps = {}
    default_app = None

    async def render_markdown_file(self, path, response, **kwargs):
        self.reads.append(path)
        return b"md:" + path.name.encode()


class Env:
    """A server, and what it reads."""

    def __init__(self, sx, content=b"data", paths=("www", "alt")):
        base = top()
        self.sx, self.store = sx, []
        self.conn = Server(Transport(), Protocol())
        self.conn.logger = LOG
        self.reads = self.conn.reads = []
        for p in paths:
            self.conn.add_path(base / p)

        async def read_binary(path):
            self.reads.append(path)
            return content

        runtimepy.net.server.read_binary = read_binary
        if sx.symbolic:
            runtimepy.net.server.json.ARBITER = self

    def encode_stream(self, kind, stream, data, cls=None):
        def done(x):
            if isinstance(x, dict):
                return {k: done(v) for k, v in x.items()}
            if isinstance(x, (list, tuple)):
                return [done(v) for v in x]
            return done(x()) if callable(x) else x
        self.store.append(done(data))
        stream.write("%d" % (len(self.store) - 1))

    def json(self, body):
        return self.store[int(body.decode())] if self.sx.symbolic else \
            json.loads(body.decode())

    def serve(self, method, target):
        loop = VLoop()
        try:
            ok = loop.run_until_complete(self.conn.process_binary(
                bytes(RequestHeader(method, target))))
        finally:
            asyncio.set_event_loop(None)
        self.sx.check(ok, "processed")
        got = list(HttpMessageProcessor().ingest(self.conn._transport.sent,
                                                 ResponseHeader))
        self.sx.check(len(got) == 1, "one response")
        self.conn._transport.sent = b""
        return got[0]


def inside(path, base):
    """Whether a file really is in one of the search paths."""
    real = os.path.realpath(path)
    return any(real.startswith(str(base / p) + "/") for p in ("www", "alt"))


def contained(sx, target):
    env = Env(sx)
    h, body = env.serve("GET", target)
    base = top()
    sx.check(all(inside(p, base) for p in env.reads), "nothing outside is read")
    sx.check(len(env.reads) <= 1, "at most one file")
    if not env.reads:
        sx.check(h.status == 307 and body is None, "redirected")


@case("P18", [{"n": 5}], thorough=[{"n": 7}], budget=120,
      bounds="every path of up to 5 (thorough 7) characters of '/.a'")
def characters(sx, n):
    """No path reads a file that isn't in a search path."""
    contained(sx, "/" + sx.str("path", sx.size("n", 0, n), alphabet="/.a"))


PARTS = ["..", ".", "", "secret", "www", "d", "www2", "TOP"]


@case("P18", [{"n": 3}], thorough=[{"n": 4}], budget=120,
      bounds="every path of 3 (thorough 4) of 8 components (parents, siblings and "
      "the absolute path included), to one of 5 files")
def components(sx, n):
    parts = [sx.pick("part%d" % i, PARTS) for i in range(n)]
    parts = [str(top()) if p == "TOP" else p for p in parts]
    name = sx.pick("name", ["secret", "a", "x", "www", "secret.txt"])
    contained(sx, "/" + "/".join(parts + [name]))


CLEAN = {"/a": ("www/a", None), "/d/b": ("www/d/b", None),
         "/d/c": ("alt/d/c", None), "/only.json": ("alt/only.json",
                                                   "application/json"),
         "/t.html": ("www/t.html", "text/html"), "/page.txt": ("www/page.md", None),
         "/page": ("www/page.md", None), "/d": ("www/d.md", None),
         "/page.md": ("www/page.md", None), "/z.tar.gz": ("www/z.tar.gz", None),
         "/t.html?x=/../y": ("www/t.html", "text/html"), "/nope": (None, None),
         "/a/b": (None, None), "/": (None, None), "/www.md": (None, None),
         "/v.1.txt": ("www/v.1.md", None), "/v.1": ("www/v.md", None)}


@case("P18", budget=60, bounds="17 targets, every content of 3 bytes, either order of "
      "the search paths, one of them possibly added twice")
def files(sx):
    """A file is served from the first search path that has it."""
    target = sx.pick("target", sorted(CLEAN))
    want, mime = CLEAN[target]
    content = sx.bytes("content", sx.size("n", 0, 1) * 3)
    front = sx.concrete(sx.bool("front"))
    again = front and sx.concrete(sx.bool("again"))
    env = Env(sx, content, paths=("www", "alt") if again or not front else ("www",))
    if front:
        env.conn.add_path(top() / "alt", front=True)
        want = "alt/a" if want == "www/a" else want
    h, body = env.serve("GET", target)
    if want is None:
        sx.check(h.status == 307 and h["location"] == "/404.html", "not found")
        sx.check(not env.reads and body is None, "no file")
    else:
        sx.check(h.status == 200, "found")
        sx.check([str(p) for p in env.reads] == [str(top() / want)], "that file")
        if want.endswith(".md"):
            sx.check(body == b"md:" + os.path.basename(want).encode(), "rendered")
        else:
            sx.check(body == content if len(content) else body is None, "its content")
            sx.check(h["content-type"] == (mime or "application/octet-stream"), "kind")


@case("P18", budget=40, bounds="redirect rules, the icon and the default application, "
      "for 8 targets")
def others(sx):
    env = Env(sx, paths=("alt",))
    with_app = sx.concrete(sx.bool("app"))

    async def app(doc, request, response, data):
        return Doc()

    class Doc:
        def render(self, stream):
            stream.write("app")

    type(env.conn).default_app = app if with_app else None
    target = sx.pick("target", ["/old", "/old?x=/a", "/favicon.ico", "/a", "/x", "/old/x", "*",
                                "http://x/a"])
    h, body = env.serve("GET", target)
    type(env.conn).default_app = None
    if target in ("/old", "/old?x=/a"):
        sx.check(h.status == 307 and h["location"] == "/new", "redirected")
    elif target == "/favicon.ico":
        sx.check(body == b"icon" and h["content-type"] == "image/x-icon", "icon")
    elif target == "/a":
        sx.check(body == b"data", "files come before redirects")
    elif with_app and target[0] == "/":
        sx.check(body == b"app" and h["content-type"].startswith("text/html"), "app")
    else:
        sx.check(h.status == 307 and h["location"] == "/404.html", "not found")


@case("P18", [{"n": 3}], thorough=[{"n": 4}], budget=90,
      bounds="every path of 3 (thorough 4) of 7 parts into a tree of objects, lists, "
      "functions and values")
def data(sx, n):
    """Data is found by its path, and mistakes are explained."""
    leaf = sx.int("leaf", 0, 2)  # appears in the text of errors
    tree = {"obj": {"leaf": leaf, "fn": lambda: {"x": leaf}, "none": None},
            "list": [leaf], "leaf": leaf, "fn": lambda: leaf, "json": {"x": leaf}}
    env = Env(sx, paths=())
    env.conn.json_data = tree
    parts = [sx.pick("part%d" % i, ["obj", "leaf", "fn", "x", "list", "",
                                    "json"]) for i in range(n)]
    h, body = env.serve("GET", "/".join(["", "json"] + parts))
    got = env.json(body)
    sx.check(h.status == 200 and
             h["content-type"].startswith("application/json"), "kind")
    cur, ok, at = tree, True, []
    for p in parts:
        if not p:
            continue
        at.append(p)
        cur = cur() if callable(cur) else cur
        if not isinstance(cur, dict) or p not in cur:
            ok = False
            break
        cur = cur[p]
    if not ok:
        sx.check("error" in got and got["path"]["part"] == p, "explained")
        sx.check(got["path"]["current"] == ".".join(at), "where the path ends")
    else:
        cur = cur() if callable(cur) else cur
        if cur is tree:
            cur = {"obj": {"leaf": leaf, "fn": {"x": leaf}, "none": None},
                   "list": [leaf], "leaf": leaf, "fn": leaf, "json": {"x": leaf}}
        elif cur is tree["obj"]:
            cur = {"leaf": leaf, "fn": {"x": leaf}, "none": None}
        sx.check(got == (cur if isinstance(cur, dict) else {"__raw__": cur}),
                 "what is there")


def env_with(value):
    env = ChannelEnvironment()
    env.int_channel("a", kind="int16", commandable=True)
    env.int_channel("b", kind="int16")
    env.set("a", value)
    env.set("b", value)
    env.finalize()
    return env


@case("P18", budget=60, bounds="11 requests, every value")
def commands(sx):
    """A command in a request's path has the effect and result it always has."""
    start = sx.int("start", -100, 100)
    target = sx.pick("target", ["/p18/set/a/7", "/p18/set/b/7", "/p18/set/-f/b/-7",
                                "/p18/set/a/x", "/p18/get/q", "/p18/toggle/a",
                                "/p18", "/other/set/a/7", "/", "/p18//set/a/7",
                                "/p18/set/a/7/"])
    local = ChannelCommandProcessor(env_with(start), LOG)
    remote = ChannelCommandProcessor(env_with(start), LOG)
    GLOBAL["p18"] = remote
    try:
        env = Env(sx, paths=())
        h, body = env.serve("POST", target)
    finally:
        del GLOBAL["p18"]
    got = env.json(body)
    sx.check(h.status == 200, "answered")
    if target.startswith("/p18"):
        want = local.command(" ".join(x for x in target.split("/")[2:] if x))
        sx.check(got["success"] == want.success, "result")
        sx.check(got["message"] == str(want), "message")
    else:
        sx.check(got["success"] is False and "usage" in got, "explained")
    sx.check(remote.env.values() == local.env.values(), "its effect and no other")
