"""P38: addresses, ports, and what is found out about them with sockets."""

import socket
import types

from harness.p23_connections import loop_run
from runtimepy.net import mtu, util
from runtimepy.net.mtu import SocketConstants, discover_mtu, socket_discover_mtu
from runtimepy.net.util import (IPv4Host, IPv6Host, get_free_socket, get_free_socket_name,
                                normalize_host, sockname, try_log_connection_error)
from runtimepy.net.mixin import TransportMixin
from sx.registry import case

ASSUMPTIONS = ["the operating system's sockets and names are replaced by tables"]


class Net:
    """The sockets and names of an operating system."""

    AF_INET, AF_INET6 = socket.AF_INET, socket.AF_INET6
    SOCK_STREAM, SOCK_DGRAM = socket.SOCK_STREAM, socket.SOCK_DGRAM
    SOL_SOCKET, SO_REUSEADDR = socket.SOL_SOCKET, socket.SO_REUSEADDR
    IPPROTO_IP = socket.IPPROTO_IP
    SocketType, herror = socket.SocketType, socket.herror

    def __init__(self, fails=(), mtu_=0, port=1):
        self.fails, self.opened, self.mtu, self.port = fails, [], mtu_, port
        self.names = {}

    def socket(self, family, kind):
        self.opened.append(Sock(self, family, kind))
        return self.opened[-1]

    def getfqdn(self):
        return "self"

    def gethostbyaddr(self, name):
        if name not in self.names:
            raise socket.herror("unknown")
        return (self.names[name], [], [])

    def getaddrinfo(self, name, port, family=None):
        return [(family, 0, 0, "", ("<%s>" % name, 0))]


class Sock:
    """A socket."""

    def __init__(self, net, family, kind):
        self.net, self.family, self.kind = net, family, kind
        self.closed, self.options, self.log = 0, {}, []
        self.options[SocketConstants.IP_MTU_DISCOVER] = 7

    def step(self, what, *args):
        assert not self.closed
        if what in self.net.fails:
            raise OSError(what)
        self.log.append((what,) + args)

    def bind(self, address):
        self.step("bind", address)

    def connect(self, address):
        self.step("connect", address)

    def send(self, data):
        discovers = self.options[SocketConstants.IP_MTU_DISCOVER]
        self.step("send", len(data), discovers)
        return len(data)

    def getsockopt(self, level, name):
        self.step("get%d" % name)
        return self.net.mtu if name == SocketConstants.IP_MTU else self.options[name]

    def setsockopt(self, level, name, value):
        self.step("set%d" % name)
        self.options[name] = value

    def getsockname(self):
        tail = () if self.family == socket.AF_INET else (3, 4)
        return ("name", self.net.port) + tail

    def close(self):
        self.closed += 1

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


def use(net):
    """Use a network, and forget everything known about others."""
    util._socket = mtu.socket = net
    for cached in (util.hostname, util.address_str, util.hostname_port,
                   mtu.host_discover_mtu):
        getattr(cached, "cache_clear", lambda: None)()
    return net


def restore():
    use(socket)


@case("P38", bounds="every port, flow and scope, as arguments of 5 kinds")
def hosts(sx):
    """Addresses are taken as they are given, and are of the kind they look like."""
    use(Net())
    name = sx.pick("name", ["", "localhost", "::1", "10.0.0.1"])
    port, flow, scope = sx.int("port", 0, 65535), sx.int("flow", 0, 2 ** 20), sx.int("scope", 0, 65535)
    kind = sx.pick("kind", ["none", "nothing", "v4", "v6", "name", "pair", "four", "one"])
    default = sx.pick("default", [IPv4Host, IPv6Host, None])
    kwargs = {} if default is None else {"default": default}
    if kind in ("none", "nothing"):
        host = normalize_host(*([] if kind == "nothing" else [None]), **kwargs)
        want = (default or IPv4Host)()
    elif kind == "v4":
        want = IPv4Host(name, port)
        host = normalize_host(want, **kwargs)
    elif kind == "v6":
        want = IPv6Host(name, port, flow, scope)
        host = normalize_host(want, **kwargs)
    elif kind == "name":
        want = IPv4Host(name)
        host = normalize_host(name, **kwargs)
    elif kind == "pair":
        want = IPv4Host(name, port)
        host = normalize_host(name, port, **kwargs)
    elif kind == "four":
        want = IPv6Host(name, port, flow, scope)
        host = normalize_host(name, port, flow, scope, **kwargs)
    else:
        host, want = normalize_host(name, port, flow), IPv6Host(name, port, flow)
    sx.check(type(host) is type(want) and len(host) == len(want), "the kind of address")
    for x, y in zip(host, want):
        sx.check(x == y, "the address")
    six = isinstance(want, IPv6Host)
    sx.check(host.family == (socket.AF_INET6 if six else socket.AF_INET), "its family")
    text = "<%s>" % (want.name or ("::" if six else "0.0.0.0"))
    sx.check(host.address_str == text, "where it leads")
    for x, y in zip(host.address_str_tuple, (text,) + tuple(want[1:])):
        sx.check(x == y, "with everything else")
    zero = host.zero_port()
    sx.check(type(zero) is type(host), "another of its kind")
    for i, (x, y) in enumerate(zip(zero, want)):
        sx.check(x == (0 if i == 1 else y), "without its port")
    restore()


@case("P38", bounds="3 names, known or not")
def names(sx):
    """Hosts are shown with their names if these are known."""
    net = use(Net())
    try:
        for name in ("a", "b"):
            known = sx.pick("known_" + name, [None, "host", "localhost"])
            if known:
                net.names[name] = known
            sx.check(IPv4Host(name, 5).hostname == (known or name), "its name")
            sx.check(str(IPv4Host(name, 5)) == (known or name) + ":5", "and port")
            sx.check(str(IPv6Host(name, 5)) == (known or name) + ":5", "and port")
            sx.check(hash(IPv4Host(name, 5)) == hash(IPv4Host(name, 5)), "equal if equal")
        sx.check(IPv4Host("0.0.0.0").hostname == "self", "this one")
        sx.check(IPv6Host("::").hostname == "self", "this one")
    finally:
        restore()


REUSE = "set%d" % socket.SO_REUSEADDR


@case("P38", bounds="every port, 3 addresses, 2 kinds of sockets, and a failure of any call")
def sockets(sx):
    """A free port is that of a socket, which is closed."""
    port = sx.int("port", 1, 65535)
    fails = sx.pick("fails", [None, "bind", REUSE])
    net = use(Net([fails], port=port))
    local = sx.pick("local", [None, IPv4Host("a", 0), IPv6Host("b", 9, 1, 2)])
    kind = sx.pick("kind", [socket.SOCK_STREAM, socket.SOCK_DGRAM])
    only = sx.pick("only", [True, False])
    reuse = sx.pick("reuse", [True, False]) if only else True
    try:
        if only:
            result = get_free_socket(local=local, kind=kind, reuse=reuse)
        else:
            result = get_free_socket_name(local=local, kind=kind)
        failed = False
    except OSError:
        failed = True
    finally:
        restore()
    sx.check(failed == (fails == "bind" or fails == REUSE and reuse), "whether it works")
    sx.check(len(net.opened) == 1, "one socket")
    sock = net.opened[0]
    six = isinstance(local, IPv6Host)
    sx.check(sock.kind == kind, "of the kind")
    sx.check(sock.family == (socket.AF_INET6 if six else socket.AF_INET), "of the family")
    sx.check(bool(sock.closed) == (failed or not only), "closed unless it's wanted")
    if failed:
        return
    sx.check((socket.SO_REUSEADDR in sock.options) == reuse, "reused when asked for")
    bound = [x[1] for x in sock.log if x[0] == "bind"]
    want = ("<b>", 9, 1, 2) if six else ("<a>" if local else "<0.0.0.0>", 0)
    sx.check(bound == [want], "bound there")
    host = sockname(result) if only else result
    sx.check(isinstance(host, IPv6Host) == six and host.port == port, "its port")


class Ends:
    """A transport between two addresses."""

    def __init__(self, here, there, kind):
        self.info = {"sockname": here, "peername": there,
                     "socket": types.SimpleNamespace(type=kind)}

    def get_extra_info(self, name, default=None):
        return self.info.get(name, default)


class End(TransportMixin):
    """An end of a transport."""

    def __init__(self, here, there, kind=socket.SOCK_DGRAM):
        super().__init__(Ends(here, there, kind))


@case("P38", bounds="every port, flow and scope, connected or not")
def ends(sx):
    """The ends of a connection are those of its transport."""
    six = sx.bool("six")

    def address(i):
        port = sx.int("port%d" % i, 0, 65535)
        if six:
            return ("h%d" % i, port, sx.int("flow%d" % i, 0, 2 ** 20 - 1),
                    sx.int("scope%d" % i, 0, 9))
        return ("h%d" % i, port)

    here, there = address(0), address(1) if sx.bool("connected") else None
    end = End(here, there)
    sx.check((end.remote_address is not None) == (there is not None), "whether it's connected")
    for got, want in ((end.local_address, here), (end.remote_address, there)):
        if want is None:
            continue
        sx.check(isinstance(got, IPv6Host) == six, "the kind")
        sx.check(sx.all(got.name == want[0], got.port == want[1]), "the address")
        if six:
            sx.check(sx.all(got.flowinfo == want[2], got.scope_id == want[3]), "and the rest")


DISCOVER = "set%d" % SocketConstants.IP_MTU_DISCOVER
FAILS = [None, "bind", "connect", "send", DISCOVER, "get%d" % SocketConstants.IP_MTU,
         "get%d" % SocketConstants.IP_MTU_DISCOVER]


@case("P38", budget=60, bounds="every size, and a failure of any call")
def sizes(sx):
    """The size found out is the one of the route, or the one to fall back to."""
    fails, found = sx.pick("fails", FAILS), sx.int("found", 0, 65535)
    fallback, size = sx.int("fallback", 1, 65535), sx.pick("size", [0, 1472])
    net = use(Net([fails], mtu_=found))
    how = sx.pick("how", ["socket", "v4", "v6", "twice", "end"])
    local = sx.pick("local", [None, True]) if how not in ("socket", "end") else how == "end"
    if local:
        local = IPv6Host("l", 77) if how == "v6" else IPv4Host("l", 77)
    failed = False
    try:
        if how == "socket":
            result = socket_discover_mtu(net.socket(1, 2), size, fallback)
        elif how == "end":
            fallback = sx.pick("fall", [1, 9000])
            result = End(("l", 77), ("d", 5)).mtu(probe_size=size, fallback=fallback)
        else:
            fallback = 1500
            dest = ("d", 5, 0, 0) if how == "v6" else ("d", 5)
            for _ in range(2 if how == "twice" else 1):
                result = discover_mtu(*dest, local=local, probe_size=size)
    except OSError:
        failed = True
    finally:
        restore()
    broken = how != "socket" and fails in ("bind", "connect")
    sx.check(failed == broken, "whether it works")
    sx.check(len(net.opened) == 1, "asked once")
    sock = net.opened[0]
    if how != "socket":
        sx.check(bool(sock.closed), "not kept")
        six = how == "v6"
        sx.check(sock.family == (socket.AF_INET6 if six else socket.AF_INET), "the family")
        bound = [x[1][:2] for x in sock.log if x[0] == "bind"]
        any_ = "<::>" if six else "<0.0.0.0>"
        sx.check(bound == ([] if fails == "bind" else [("<l>" if local else any_, 0)]),
                 "any port here")
        to = [x[1][:2] for x in sock.log if x[0] == "connect"]
        sx.check(to == ([] if broken else [("<d>", 5)]), "to there")
    if failed:
        return
    if fails == FAILS[5] or bool(found == 0):
        sx.check(result == fallback, "nothing found out")
    else:
        sx.check(result == found, "found out")
    sent = [x[1:] for x in sock.log if x[0] == "send"]
    mode = 7 if fails == DISCOVER else SocketConstants.IP_PMTUDISC_DO
    sx.check(sent == ([] if fails == "send" else [(size, mode)]), "a probe of the size")
    if fails != FAILS[6]:
        sx.check(sock.options[SocketConstants.IP_MTU_DISCOVER] == 7, "left as it was")


@case("P38", bounds="a result of every value or one of 3 exceptions")
def attempts(sx):
    """An attempt to connect gives its result, or nothing if that's not possible."""
    kind = sx.pick("kind", ["result", OSError("o"), ConnectionRefusedError("c"),
                            KeyError("k")])
    value = sx.int("value", -9, 2 ** 32)
    logged = []

    class Logger:
        def exception(self, *args, **kwargs):
            logged.append(args)

    async def attempt():
        if kind != "result":
            raise kind
        return value

    logger = Logger() if sx.pick("logs", [True, False]) else None
    raised, result = False, None
    try:
        result = loop_run(try_log_connection_error(attempt(), "message", logger=logger))
    except KeyError:
        raised = True
    sx.check(raised == isinstance(kind, KeyError), "other errors are raised")
    if kind == "result":
        sx.check(result == value, "the result")
    else:
        sx.check(result is None, "nothing")
    sx.check(len(logged) == (1 if logger and isinstance(kind, OSError) else 0), "logged")
