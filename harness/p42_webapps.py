"""P42: web applications, the paths they have and what their pages consist of."""

from html.parser import HTMLParser
from io import StringIO
import logging
from pathlib import Path
import types

from svgen.element.html import Html, div

from harness.p23_connections import loop_run
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command.processor import ChannelCommandProcessor
from runtimepy.net.arbiter.info import AppInfo
from runtimepy.net.html import append_kind, full_markdown_page
from runtimepy.net.html.arbiter import web_app_paths
from runtimepy.net.html.bootstrap.tabs import TabbedContent
from runtimepy.net.http.header import RequestHeader
from runtimepy.net.http.response import ResponseHeader
from runtimepy.net.server import RuntimepyServerConnection, app as server_app
from runtimepy.net.server.app import env as env_app
from runtimepy.net.server.app.base import WebApplication
from runtimepy.net.server.app.tab import Tab
from runtimepy.net.server.app.env.tab import ChannelEnvironmentTab
from runtimepy.net.server.html import html_handler
from runtimepy.subprocess import program
from sx.registry import case

ASSUMPTIONS = ["browsers are recorded instead of started"]
LOG = logging.getLogger("p42")
LOG.disabled = True
PORTS = [{"name": "http_server", "port": 8000},
         {"name": "https_server", "port": 8001}, {"name": "tcp_json", "port": 8002},
         {"name": "my_http_server", "port": 8003}]


class Info:
    """Application information, of which only the configuration matters."""

    config_param = AppInfo.config_param
    logger = LOG

    def __init__(self, config, ports=()):
        self.config = {"root": {"config": config, "ports": list(ports)}}
        self.entered = []
        self.stack = types.SimpleNamespace(enter_async_context=self.enter)
        self.connections, self.tasks, self.structs, self.peers = {}, {}, {}, {}

    async def enter(self, context):
        self.entered.append(context)


class Parser(HTMLParser):
    """Collects elements, and the text right inside of them."""

    def __init__(self, text):
        super().__init__()
        self.elements, self.texts, self.inside = [], [], []
        self.feed(text)

    def handle_starttag(self, tag, attrs):
        self.elements.append((tag, dict(attrs), list(self.inside)))
        self.texts.append("")
        if tag not in ("link", "input", "meta", "hr", "br", "img"):
            self.inside.append(len(self.elements) - 1)

    def handle_endtag(self, tag):
        if tag not in [self.elements[i][0] for i in self.inside]:
            return
        while self.inside and self.elements[self.inside.pop()][0] != tag:
            pass

    def handle_data(self, data):
        if self.inside:
            self.texts[self.inside[-1]] += data


def flat(text):
    return "".join(text.split())


def package(kind, name, subdir=None):
    """The contents of a file of the package."""
    import runtimepy

    path = Path(runtimepy.__file__).parent / "data" / kind
    path = (path / subdir if subdir else path) / (name + "." + kind)
    return flat(path.read_text(encoding="utf-8")) if path.is_file() else None


def reset():
    ChannelEnvironmentTab.all_tabs.clear()
    RuntimepyServerConnection.apps = {}
    RuntimepyServerConnection.class_redirect_paths = {}
    RuntimepyServerConnection.default_app = None


@case("P42", [{"n": 3}], [{"n": 4}], budget=60, bounds="prefixes of every 1 to 3 (4) of "
      "2 characters, twice or with another, and paths that were configured before")
def prefixes(sx, n):
    """A prefix leads to its application, once, and keeps what's configured."""
    first = sx.str("first", sx.pick("n", list(range(1, n + 1))), alphabet="a/")
    first = "".join(chr(int(ord(x))) for x in first)
    second = sx.pick("second", [None, "b", "/b", first])
    name = first if first.startswith("/") else "/" + first
    before = sx.pick("before", [None, "prefix", "index", "app"])
    config = {}
    config["http_app_prefixes"] = [x for x in (first, second) if x is not None]
    if before == "prefix":
        config["http_redirects"] = {name: "/mine"}
    elif before == "index":
        config["http_redirects"] = {name + "/index.html": "/mine"}
    elif before == "app":
        config["http_app_paths"] = ["/other", name + "/app.html"]
    everything = {"config": config}
    try:
        web_app_paths(everything)
        sx.check(not first.endswith("/"), "a prefix doesn't end with a slash")
    except AssertionError:
        sx.check(first.endswith("/"), "a prefix that doesn't end with a slash is fine")
        return
    names = [name]
    if second is not None and second != first:
        names.append("/b")
    paths, redirects = [], {}
    if before == "app":
        paths = ["/other", name + "/app.html"]
    if before in ("prefix", "index"):
        redirects[name if before == "prefix" else name + "/index.html"] = "/mine"
    for x in names:
        redirects.setdefault(x, x + "/index.html")
        redirects.setdefault(x + "/index.html", x + "/app.html")
        if x + "/app.html" not in paths:
            paths.append(x + "/app.html")
    sx.check(config["http_redirects"] == redirects, "redirects")
    sx.check(config["http_app_paths"] == paths, "paths")
    web_app_paths(everything)
    sx.check(config["http_redirects"] == redirects, "the same, again")
    sx.check(config["http_app_paths"] == paths, "the same, again")
    nothing = {}
    web_app_paths(nothing)
    sx.check(nothing["config"] == {"http_redirects": {}, "http_app_paths": []}, "none")


@case("P42", [{"paths": i} for i in range(3)], budget=80,
      bounds="up to 2 paths of an application and of a landing page each, a redirect or "
      "none, a default application or none, and requests for 6 paths")
def setup(sx, paths):
    """Applications are at their configured paths, and nowhere else."""
    reset()
    ours = ["/app.html", "/x/app.html"][:paths]
    landing = sx.pick("landing", [[], ["/"], ["/", "/index.html"]])
    config = {"http_app_paths": ours,
              "html_method": "harness.p42_webapps.sample_tabs"}
    if sx.pick("redirect", [False, True]):
        config["http_redirects"] = {"/old": "/app.html", "/older": "/old"}
    if landing:
        config["landing_page"] = {"paths": landing, "markdown": "# Welcome"}
    default = sx.pick("default", [False, True])
    path = sx.pick("path", ["/app.html", "/x/app.html", "/", "/index.html", "/app",
                            "/none"])
    info = Info(config)

    async def own(document, request, response, data):
        div(parent=document.body, id="own")
        return document

    async def main():
        sx.check(await server_app.setup(info) == 0, "set up")
        return await html_handler(
            RuntimepyServerConnection.apps, stream, request, response, None,
            default_app=own if default else None)

    stream = StringIO()
    request, response = RequestHeader(), ResponseHeader()
    request.from_lines(["GET %s HTTP/1.1" % path])
    try:
        served = loop_run(main())
        want = "/old" in str(config.get("http_redirects", {}))
        got = {str(k): str(v) for k, v in
               RuntimepyServerConnection.class_redirect_paths.items()}
        sx.check(got == ({"/old": "/app.html", "/older": "/old"} if want else {}),
                 "redirects")
    finally:
        reset()
    text = stream.getvalue()
    sx.check("text/html" in response["Content-Type"], "the type of content")
    sx.check(served == (path in ours or path in landing or default), "served or not")
    sx.check(('id="sample-tabs"' in text) == (path in ours), "the application")
    sx.check(("Welcome" in text) == (path in landing), "the landing page")
    sx.check(('id="own"' in text) == (served and path not in ours + landing), "default")
    sx.check(info.entered == [], "no browser")


def sample_tabs(app, tabs):
    div(parent=tabs.content, id="sample-tabs")


@case("P42", budget=60, bounds="every choice of browsers for 2 protocols, a host, a "
      "fragment and whether there's one, for up to 4 ports")
def browsers(sx):
    """Browsers are started for the ports of configured servers, only."""
    config, started = {}, []
    for key in ("http", "https"):
        value = sx.pick(key, [None, False, True])
        if value is not None:
            config["xdg_open_" + key] = value
    host = sx.pick("host", [None, "example"])
    fragment = sx.pick("fragment", [None, "", "tab:x"])
    if host:
        config["xdg_host"] = host
    if fragment is not None:
        config["xdg_fragment"] = fragment
    first = sx.pick("ports", [0, 1, 2, 4])
    missing = sx.pick("missing", [False, True])
    info = Info(config, PORTS[:first])

    def spawn(*args):
        started.append(args)
        if missing:
            raise FileNotFoundError("xdg-open")
        return args

    old, server_app.spawn_exec = server_app.spawn_exec, spawn
    try:
        loop_run(server_app.launch_browser(info))
    finally:
        server_app.spawn_exec = old
    want = []
    for key in ("http", "https"):
        for port in PORTS[:first]:
            kind = {8000: "http", 8001: "https", 8003: "http"}.get(port["port"])
            if config.get("xdg_open_" + key) and kind == key:
                uri = "%s://%s:%d/" % (key, host or "localhost", port["port"])
                want.append(("xdg-open", uri + ("#" + fragment if fragment else "")))
    sx.check(started == want, "one for each server")
    sx.check(info.entered == ([] if missing else want), "kept running")


def command(value):
    env = ChannelEnvironment()
    env.int_channel("value", "uint8")
    env.set("value", value)
    env.finalize()
    return ChannelCommandProcessor(env, LOG)


def thing(name, value):
    return types.SimpleNamespace(name=name, command=command(value),
                                 markdown="words of " + name)


def peer(name, value):
    return types.SimpleNamespace(
        struct=thing(name + ".host", value), peer_name=name + ".peer",
        peer=command(value + 1), markdown="notes of " + name)


@case("P42", [{"kind": k} for k in ("main", "peer", "experimental")], budget=60,
      bounds="up to 2 connections and structs, a task or none, a peer or none, as a peer "
      "program, with experimental tabs, or neither")
def tabs(sx, kind):
    """A page has one tab for every environment, of which the first is active."""
    reset()
    info, want, value = Info({"experimental": kind == "experimental",
                              "top_markdown": "words on top",
                              "bottom_markdown": "words below"}), {}, 0
    for group, most in (("connections", 2), ("tasks", 1), ("structs", 2)):
        for i in range(sx.pick(group, list(range(most + 1)))):
            value += 1
            item = thing("%s%d" % (group, i), value)
            getattr(info, group)[item.name] = item
            want[item.name] = item.command
    peers = [("p", "peer")] if sx.bool("peer") else []
    old = program.PROGRAM
    try:
        for name, _ in peers:
            info.peers[name] = peer(name, 20)
        program.PROGRAM = peer("q", 30) if kind == "peer" else None
        for x in [*info.peers.values(), program.PROGRAM]:
            if x is not None:
                want[x.struct.name], want[x.peer_name] = x.struct.command, x.peer
        document = Html("test")
        WebApplication(info).populate(
            document, lambda tabs: env_app.channel_environments(info, tabs))
    finally:
        program.PROGRAM = old
    have = dict(ChannelEnvironmentTab.all_tabs)
    reset()
    sx.check(list(have) == list(want), "a tab for every environment")
    sx.check(all(have[x].command is want[x] for x in want), "with its commands")
    extra = ["sound", "test0", "test1", "test2"] if kind == "experimental" else []
    names = list(want) + extra
    page = Parser(document.encode_str())
    buttons = [a for t, a, _ in page.elements if a.get("role") == "tab"]
    panes = [a for t, a, _ in page.elements if a.get("role") == "tabpanel"]
    sx.check(len(buttons) == len(panes) == len(names), "buttons and panes")
    for i, (name, button, pane) in enumerate(zip(names, buttons, panes)):
        sx.check(button["data-bs-target"] == "#" + pane["id"], "opens its pane")
        sx.check(pane["aria-labelledby"] == button["id"] and pane["id"].endswith(name),
                 "is called by its name")
        sx.check(("active" in button["class"].split()) == (i == 0), "the first is active")
        sx.check(("active" in pane["class"].split()) == (i == 0), "the first is shown")
    ids = [a["id"] for t, a, _ in page.elements if t == "div" and "id" in a]
    sx.check(len(ids) == len(set(ids)), "identifiers of panes are unique")
    scripts = [i for i, (t, a, _) in enumerate(page.elements) if t == "script"]
    for name in names:
        own = [i for i in scripts if 'TabInterface("%s", worker)' % name in page.texts[i]]
        sx.check(len(own) == 1, "a tab has a script")
        sx.check(any(page.elements[j][1].get("id", "").endswith("-" + name)
                     for j in page.elements[own[0]][2]), "in its pane")
        code = package("js", "env" if name in want else name, "tab") or ""
        sx.check(code in flat(page.texts[own[0]]), "which is that of its kind")
    visible = " ".join(page.texts)
    for text in ["words on top", "words below"] + [
            "words of " + x for x in want if not x.endswith(".peer")] + [
            "notes of " + x[:-5] for x in want if x.endswith(".peer")]:
        sx.check(text in visible, "markdown is shown")
    for pane, name in zip(panes, want):
        inside = [a for t, a, p in page.elements
                  if any(page.elements[j][1].get("id") == pane["id"] for j in p)]
        sx.check([a["id"] for a in inside if "channel-row" in a.get("class", "")]
                 == ["value"], "with its channels")
    total = {"worker": 0, "styles": 0}
    bodies = [flat(page.texts[i]) for i in scripts]
    workers = [flat(page.texts[i]) for i in scripts
               if page.elements[i][1].get("type") == "text/js-worker"]
    for name, subdir in [(x, "classes") for x in WebApplication.worker_classes] + [
            ("worker", None)]:
        code = package("js", name, subdir)
        sx.check(code is not None and sum(code in x for x in workers) == 1,
                 "the worker has its parts")
    for name, subdir in [(x, "classes") for x in WebApplication.ui_classes] + [
            (x, None) for x in ("init", "events", "util", "main")]:
        code = package("js", name, subdir)
        sx.check(code is not None and sum(
            code in x for x in bodies if x not in workers) == 1, "the page has its parts")
    order = [next(i for i, x in enumerate(bodies) if package("js", y) in x)
             for y in ("worker", "init", "main")]
    sx.check(order == sorted(order), "in order")
    styles = [flat(page.texts[i]) for i, (t, a, _) in enumerate(page.elements)
              if t == "style"]
    for name in ("font", "main", "bootstrap_extra"):
        sx.check(any(package("css", name) in x for x in styles), "styles")


@case("P42", budget=40, bounds="3 names of tabs and 3 sources or none, an icon or none")
def own_tabs(sx):
    """A tab has its name, its icon, and the script of its source (or its name)."""
    document = Html("test")
    content = TabbedContent("test", document.body)
    name = sx.pick("name", ["sound", "env", "x"])
    source = sx.pick("source", [None, "sound", "env", "none"])
    icon = sx.pick("icon", [None, "cpu"])
    kwargs = {k: v for k, v in (("source", source), ("icon", icon)) if v is not None}
    Tab(name, Info({}), content, **kwargs).entry()
    page = Parser(document.encode_str())
    own = [flat(x) for (t, _, _), x in zip(page.elements, page.texts)
           if t == "script" and 'TabInterface("%s", worker)' % name in x]
    sx.check(len(own) == 1, "a script")
    for x in ("sound", "env"):
        sx.check((package("js", x, "tab") in own[0]) == ((source or name) == x),
                 "of its source")
    buttons = [i for i, (_, a, _) in enumerate(page.elements) if a.get("role") == "tab"]
    sx.check(len(buttons) == 1 and page.texts[buttons[0]].strip() == name, "its name")
    icons = [a for _, a, p in page.elements if p and p[-1] == buttons[0]]
    sx.check(len(icons) == (1 if icon else 0), "its icon")
    sx.check(all("bi-cpu" in a["class"].split() for a in icons), "which is that one")


NAMES = ["util", "init", "none"]


@case("P42", budget=60, bounds="up to 3 of 3 names of scripts, one of which doesn't exist, "
      "for a worker or not, of 2 kinds")
def parts(sx):
    """What's found is part of the page, in order; what isn't is left out."""
    document = Html("test")
    names = [sx.pick("name%d" % i, NAMES) for i in range(sx.pick("n", [0, 1, 2, 3]))]
    worker = sx.bool("worker")
    before = len(document.body.children)
    elem = append_kind(document.body, *names, worker=bool(worker))
    found = [x for x in names if x != "none"]
    sx.check((elem is not None) == (found != []), "if there's any")
    sx.check(len(document.body.children) - before == (1 if found else 0), "one element")
    if elem is not None:
        sx.check(document.body.children[-1] is elem, "at the end")
        sx.check(flat(elem.text) == "".join(package("js", x) for x in found), "whole")
        page = Parser(document.encode_str())
        scripts = [(a, x) for (t, a, _), x in zip(page.elements, page.texts)
                   if t == "script"]
        sx.check(len(scripts) == 1, "a script")
        sx.check(flat(scripts[0][1]) == flat(elem.text), "is rendered")
        sx.check(("type" in scripts[0][0]) == bool(worker), "of its type")
    else:
        sx.check("<script" not in document.encode_str(), "nothing else")


@case("P42", budget=60, bounds="every text of 3 of 4 characters as markdown")
def markdown(sx):
    """A page of markdown has its text."""
    text = sx.str("text", 3, alphabet="a1<&")
    text = "".join(chr(int(ord(x))) for x in text)
    document = Html("test")
    full_markdown_page(document, "word `%s` after" % text)
    page = Parser(document.encode_str())
    codes = [x for (t, a, _), x in zip(page.elements, page.texts) if t == "code"]
    sx.check(codes == [text], "as it is")
    sx.check(any(a.get("id") == "runtimepy" for t, a, _ in page.elements), "a container")
    bodies = [flat(x) for (t, a, _), x in zip(page.elements, page.texts) if t == "script"]
    sx.check(package("js", "markdown_page") in bodies, "its script")
