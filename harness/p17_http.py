"""P17: HTTP messages from a byte stream, and requests and their responses."""

import asyncio
import http
import io
import logging

from harness.vloop import VLoop
from runtimepy.net.http import HttpMessageProcessor
from runtimepy.net.http.header import RequestHeader
from runtimepy.net.http.request_target import RequestTarget
from runtimepy.net.http.response import ResponseHeader
from runtimepy.net.http.version import HttpVersion
from runtimepy.net.server.json import json_handler
from runtimepy.net.tcp.http import HttpConnection, to_json
from sx.registry import case

ASSUMPTIONS = ["header lines are chosen from lists except where symbolic text "
               "is stated"]
LOG = logging.getLogger("p17")
LOG.disabled = True
METHODS = [http.HTTPMethod.GET, http.HTTPMethod.POST, http.HTTPMethod.PUT]
NL = "\r\n"


def head(i, n, extra="x-num: %d"):
    """A request header as text, and what it says."""
    method, target = METHODS[i % 3], ["/", "/a?b=c", "/\u00e9"][i % 3]
    lines = ["%s %s HTTP/1.1" % (method, target), "Host:h%d:80" % i, extra % i]
    if n:
        lines.append("Content-Length: %d" % n)
    return method, target, (NL.join(lines) + NL + NL).encode()


def look(h, i, n):
    method, target, _ = head(i, n)
    want = {"host": "h%d:80" % i, "x-num": str(i)}
    if n:
        want["content-length"] = str(n)
    return (h.method == method and h.target.raw == target and h.headers == want
            and str(h.version) == "HTTP/1.1" and h.content_length == n)


MIXES = [[2, 0], [0, 0], [0, 3], [1, 2]]


@case("P17", [{"mix": i, "cuts": 1} for i in range(4)] + [{"mix": 0, "cuts": 2}],
      thorough=[{"mix": i, "cuts": 2} for i in range(4)], budget=150,
      bounds="two requests with bodies of up to 3 bytes of every content, split at "
      "every place (thorough: every two)")
def requests(sx, mix, cuts):
    """Messages are reported whole, in order, each as soon as it is complete."""
    sizes = MIXES[mix]
    bodies = [sx.bytes("b%d" % i, n) for i, n in enumerate(sizes)]
    stream, ends = b"", []
    for i, n in enumerate(sizes):
        stream = stream + head(i, n)[2] + bodies[i]
        ends.append(len(stream))
    at, step = [], 5 if cuts > 1 else 1
    for i in range(cuts):
        lo = at[-1] if at else 0
        at.append(lo + step * sx.size("cut%d" % i, 0, (len(stream) - lo) // step))
    proc, got, prev = HttpMessageProcessor(), [], 0
    for cut in at + [len(stream)]:
        got += list(proc.ingest(stream[prev:cut], RequestHeader))
        sx.check(len(got) == sum(1 for e in ends if e <= cut), "as soon as complete")
        prev = cut
    for i, (h, body) in enumerate(got):
        sx.check(look(h, i, sizes[i]), "header")
        sx.check(body == bodies[i] if sizes[i] else body is None, "body")


@case("P17", budget=60, bounds="3 methods, every version of a digit, up to 2 headers of 3 "
      "values, split at every place")
def bare(sx):
    """A request is received as it was made, with headers or without."""
    sent = RequestHeader(method=sx.pick("method", METHODS), target="/a",
                         major=1, minor=sx.int("minor", 0, 9))
    for i in range(sx.size("n", 0, 2)):
        sent["x-%d" % i] = sx.pick("value%d" % i, ["", "a", "b: c"])
    raw = bytes(sent)
    cut = sx.size("cut", 0, len(raw))
    proc = HttpMessageProcessor()
    got = list(proc.ingest(raw[:cut], RequestHeader))
    got += list(proc.ingest(raw[cut:], RequestHeader))
    sx.check(len(got) == 1, "one message")
    h, body = got[0]
    sx.check(h.method == sent.method and h.target.raw == "/a" and body is None, "the request")
    sx.check(sx.all(h.version.major == 1, h.version.minor == sent.version.minor), "version")
    sx.check(h.headers == sent.headers, "headers")


STATUSES = [(http.HTTPStatus.OK, ""), (http.HTTPStatus.NOT_FOUND, "Not Found"),
            (http.HTTPStatus.FOUND, "a  b"), (http.HTTPStatus.OK, "\u00e9t\u00e9")]


@case("P17", budget=120, bounds="4 statuses and reasons, 2 header values, bodies of up "
      "to 2 bytes, split at every place")
def responses(sx):
    """A response that is sent is received the same."""
    status, reason = sx.pick("status", STATUSES)
    minor = 0 if reason else 1
    sent = ResponseHeader(1, minor, status=status, reason=reason)
    sent["X-Text"] = sx.pick("text", [" a:b ", "\u20ac"])
    n = 2 * sx.size("n", 0, 1)
    body = sx.bytes("body", n)
    sent["content-length"] = str(n)
    raw = bytes(sent)
    stream = raw + body
    cut = sx.size("cut", 0, len(stream))
    proc = HttpMessageProcessor()
    got = list(proc.ingest(stream[:cut], ResponseHeader))
    got += list(proc.ingest(stream[cut:], ResponseHeader))
    sx.check(len(got) == 1, "one message")
    h, data = got[0]
    sx.check(h.status == sent.status and h.reason == sent.reason, "status")
    sx.check(h.headers == sent.headers and h["x-TEXT"] == sent["x-text"], "headers")
    sx.check(str(h.version) == "HTTP/1.%d" % minor, "version")
    sx.check(bytes(h) == raw, "same text again")
    sx.check(data == body if n else data is None, "body")


@case("P17", [{"n": 1}, {"n": 2}], thorough=[{"n": 3}], budget=120,
      bounds="every printable header value of up to 2 (thorough 3) characters below "
      "U+0100")
def header_text(sx, n):
    """Header values of any text arrive as they are."""
    value = sx.str("value", n, lo=0x20, hi=0xFF)
    for ch in value:
        code = ord(ch)
        sx.assume(sx.any(code < 0x7F, code > 0xA0))
    sx.assume(sx.all(value[0] != " ", value[n - 1] != " "))
    sent = RequestHeader(method="POST", target="/x")
    sent["Key"] = value
    got = list(HttpMessageProcessor().ingest(bytes(sent), RequestHeader))
    sx.check(len(got) == 1, "one message")
    sx.check(got[0][0]["kEY"] == value and list(got[0][0].headers) == ["key"], "value")
    sx.check(got[0][0].get("KeY") == value and got[0][0].get("Kex", "-") == "-",
             "names of any case")
    sx.check(got[0][0].target.path == "/x", "target")


@case("P17", budget=30, bounds="every announced length of up to 7 digits")
def lengths(sx):
    """A body is as long as announced, however long."""
    n = sx.size("n", 1, 7)
    text = sx.str("text", n, alphabet="0123456789")
    sent = RequestHeader(method="POST", target="/x")
    sent["Content-Length"] = text
    want = 0
    for ch in text:
        want = 10 * want + ord(ch) - ord("0")
    sx.check(sent.content_length == want, "as announced")


@case("P17", [{"n": 2}, {"n": 3}], thorough=[{"n": 4}], budget=120,
      bounds="every target of up to 3 (thorough 4) characters of '/?*:a' after GET, "
      "every host and port of a list after CONNECT")
def targets(sx, n):
    """A request target is taken apart in the way its form says."""
    raw = sx.str("target", n, alphabet="/?*:a")
    got = RequestTarget(http.HTTPMethod.GET, raw)
    sx.check(got.raw == raw and got.authority_form is None, "kept")
    if raw == "*":
        sx.check(got.asterisk_form and got.origin_form is None, "asterisk")
    elif raw[0] == "/":
        path, sep, query = raw.partition("?")
        sx.check(got.origin_form == (path, query if sep else None), "path and query")
        sx.check(got.path == path and got.absolute_form is None, "path")
    else:
        sx.check(got.absolute_form == raw and got.origin_form is None, "absolute")
    host = sx.pick("host", ["a", "1.2.3.4", "[::1]"])
    port = sx.int("port", 1, 65535) if n == 2 else 80
    port = sx.concrete(port % 3) + 8080 if n == 2 else port
    got = RequestTarget(http.HTTPMethod.CONNECT, "%s:%d" % (host, port))
    sx.check(got.authority_form == (host, port), "host and port")


@case("P17", budget=40, bounds="every version of two digits")
def versions(sx):
    major, minor = sx.int("major", 0, 9), sx.int("minor", 0, 9)
    v = HttpVersion("HTTP/%d.%d" % (major, minor))
    sx.check(v.major == major and v.minor == minor, "parsed")
    sx.check(str(v) == "HTTP/%d.%d" % (major, minor), "printed")


class Transport:
    def __init__(self):
        self.loop = self.peer = None
        self.delay, self.sent, self.last = lambda i: 0, [], 0

    def write(self, data):
        at = self.loop.time() + self.delay(len(self.sent))
        if at < self.last:
            at = self.last
        self.last = at
        self.sent.append(bytes(data))
        self.loop.call_at(at, self.peer.inbox.put_nowait, data)

    def get_extra_info(self, name, default=None):
        return ("host", 1) if name in ("sockname", "peername") else default

    def close(self):
        pass


class Protocol:
    conn = None


class Conn(HttpConnection):
    def __init__(self, loop):
        t = Transport()
        t.loop = loop
        self.inbox, self.served = asyncio.Queue(), []
        super().__init__(t, Protocol())
        self.logger = LOG

    async def read(self):
        while True:
            await self.process_binary(await self.inbox.get())

    async def get_handler(self, response, request, request_data):
        self.served.append((request.target.path, request_data))
        response["x-path"] = request.target.path
        return request_data

    async def post_handler(self, response, request, request_data):
        self.served.append((request.target.path, request_data))
        response.status = http.HTTPStatus.CREATED


def pair(sx, delay):
    loop = VLoop()
    ends = Conn(loop), Conn(loop)
    for i, e in enumerate(ends):
        e._transport.peer = ends[1 - i]
        loop.create_task(e.read())
    ends[1]._transport.delay = delay
    return (loop,) + ends


def finish(loop):
    loop.cancel_all()
    asyncio.set_event_loop(None)


@case("P17", [{"n": 2}, {"n": 3}], budget=90,
      bounds="2 or 3 requests at once, each of 3 methods, with every body of up to 2 "
      "bytes, every delay")
def exchanges(sx, n):
    """Each request is handled once and returns the response to it."""
    loop, client, server = pair(sx, lambda i: sx.int("d%d" % i, 0, 100))
    reqs = []
    for i in range(n):
        method = sx.pick("method%d" % i, METHODS)
        body = sx.bytes("body%d" % i, sx.size("n%d" % i, 0, 1) * 2) \
            if n == 2 else sx.bytes("body%d" % i, 1)
        reqs.append((method, "/%d" % i, body))

    async def one(method, path, body):
        return await client.request(RequestHeader(method, path), body or None)

    async def main():
        return await asyncio.gather(*(one(*r) for r in reqs))

    got = loop.run_until_complete(main())
    finish(loop)
    for (method, path, body), (h, data) in zip(reqs, got):
        sx.check("server" in h.headers, "identifies the server")
        if method is http.HTTPMethod.GET:
            sx.check(h.status == 200 and h["x-path"] == path, "its own response")
            sx.check(data == body if len(body) else data is None, "body echoed")
        else:
            sx.check(h.status == (201 if method is http.HTTPMethod.POST else 501)
                     and data is None, "status")
    sx.check(server.served == [(p, b if len(b) else None) for m, p, b in reqs
                               if m is not http.HTTPMethod.PUT],
             "handled once each, in order")
    sx.check(not client.expecting_response and client.responses.empty(),
             "nothing left over")


@case("P17", budget=60, bounds="a request cancelled at any time, then another, every "
      "delay of the responses")
def cancelled(sx):
    """A cancelled request doesn't affect the next one."""
    loop, client, _ = pair(sx, lambda i: sx.int("d%d" % i, 0, 20))
    stop, pause = sx.int("stop", 0, 30), sx.int("pause", 0, 30)
    out = []

    async def main():
        task = asyncio.ensure_future(client.request(RequestHeader("GET", "/first")))
        await asyncio.sleep(stop)
        task.cancel()
        await asyncio.wait([task])
        await asyncio.sleep(pause)
        out.append(await client.request(RequestHeader("GET", "/second")))
        out.append(await client.request(RequestHeader("GET", "/third")))

    loop.run_until_complete(main())
    finish(loop)
    sx.check([h["x-path"] for h, _ in out] == ["/second", "/third"],
             "their own responses")
    sx.check(not client.expecting_response, "ready for requests again")


@case("P17", budget=60, bounds="two requests cancelled at any time, then another, every "
      "delay of up to 9 of the responses")
def cancelled_twice(sx):
    """Each cancelled request keeps its response from the requests after it."""
    loop, client, _ = pair(sx, lambda i: sx.int("d%d" % i, 0, 9))
    stops = [sx.int("stop%d" % i, 0, 12) for i in range(2)]
    out = []

    async def main():
        for i, stop in enumerate(stops):
            task = asyncio.ensure_future(client.request(RequestHeader("GET", "/%d" % i)))
            await asyncio.sleep(stop)
            task.cancel()
            await asyncio.wait([task])
        out.append(await client.request(RequestHeader("GET", "/second")))

    loop.run_until_complete(main())
    finish(loop)
    sx.check([h["x-path"] for h, _ in out] == ["/second"], "its own response")
    sx.check(not client.expecting_response, "ready for requests again")


@case("P17", budget=60, bounds="a request that may be cancelled at any time, and one in "
      "the other direction, after it, every body of up to 2 bytes, every delay")
def both_ways(sx):
    """Either end can make requests."""
    loop, client, server = pair(sx, lambda i: sx.int("d%d" % i, 0, 20))
    stop = sx.int("stop", 0, 30)
    body = sx.bytes("body", sx.size("n", 0, 2))
    out = []

    async def main():
        task = asyncio.ensure_future(client.request(RequestHeader("GET", "/first")))
        await asyncio.sleep(stop)
        task.cancel()
        await asyncio.wait([task])
        await asyncio.sleep(50)
        out.append(await server.request(RequestHeader("GET", "/back"), body or None))
        out.append(await client.request(RequestHeader("GET", "/again")))
        out.append(await server.request(RequestHeader("POST", "/back"), None))

    loop.run_until_complete(main())
    finish(loop)
    sx.check([h["x-path"] for h, _ in out[:2]] == ["/back", "/again"], "answered")
    sx.check(out[0][1] == body if len(body) else out[0][1] is None, "body")
    sx.check(out[2][0].status == 201, "status")
    sx.check(client.served == [("/back", body if len(body) else None), ("/back", None)],
             "handled by the other end")


VALUES = [None, True, 0, -7, 2.5, "", "text \u00e9\u4e16", [], [1, [2]], {}, {"a": {"b": [None]}}]


class Json(Conn):
    value = None

    async def get_handler(self, response, request, request_data):
        with io.StringIO() as stream:
            json_handler(stream, request, response, request_data, {"v": self.value})
            return stream.getvalue().encode()


@case("P17", budget=60, bounds="11 values or an integer of 4 bits, possibly behind functions")
def json_requests(sx):
    """A JSON request returns the value served."""
    value = sx.pick("value", VALUES + ["int"])
    if value == "int":
        value = sx.concrete(sx.int("number", -8, 7))
    wrap = sx.size("wrap", 0, 2)
    loop = VLoop()
    ends = Conn(loop), Json(loop)
    for i, e in enumerate(ends):
        e._transport.peer = ends[1 - i]
        loop.create_task(e.read())
    served = value
    if wrap:
        served = (lambda: value) if wrap == 1 else (lambda: {"in": (lambda: value)})
    ends[1].value = served
    path = "/json/v" + ("/in" if wrap == 2 else "")
    got = loop.run_until_complete(ends[0].request_json(RequestHeader("GET", path)))
    whole = loop.run_until_complete(ends[0].request_json(RequestHeader("GET", "/json")))
    finish(loop)
    if isinstance(value, dict):
        sx.check(got == value, "the object")
    else:
        sx.check(got == {"__raw__": value}
                 and type(got["__raw__"]) is type(value), "the value")
    sx.check(whole == {"v": {"in": value} if wrap == 2 else value}, "everything")


@case("P17", budget=30, bounds="4 content types, a response of any of them")
def not_json(sx):
    """A response that isn't JSON isn't decoded as JSON."""
    kind = sx.pick("kind", ["application/json", "application/json; charset=utf-8",
                            "text/html", "text/json"])
    h = ResponseHeader()
    h["Content-Type"] = kind
    n = sx.int("n", 0, 9)
    data = b"[" + b"%d" % sx.concrete(n) + b"]"
    try:
        got = to_json((h, data))
    except AssertionError:
        got = None
    sx.check(got == ([sx.concrete(n)] if "application" in kind else None), "by type")
