"""A network within an event loop: servers, streams and datagrams.

It behaves as asyncio's transports do: a client's connection is established before
the server has accepted it, 'connection_made' is called some iterations after that,
data sent is delivered in order (in pieces), a transport that is closed still sends
what was written, and a server that is closed waits until its transports are gone.
"""

import asyncio
import socket

from harness.vloop import VLoop


class Sock:
    """A socket: an address and a kind."""

    def __init__(self, name, kind=socket.SOCK_STREAM, peer=None):
        self.name, self.type, self.peer, self.closed = name, kind, peer, False

    def getsockname(self):
        return self.name

    def connect(self, peer):
        self.peer = peer

    def close(self):
        self.closed = True


class Stream(asyncio.Transport):
    """One end of a stream."""

    def __init__(self, loop, sock, server=None):
        super().__init__()
        self.loop, self.sock, self.server = loop, sock, server
        self.peer, self.protocol, self.early = None, None, []
        self.closing, self.lost, self.written = False, False, []

    def get_extra_info(self, name, default=None):
        return {"sockname": self.sock.name, "peername": self.sock.peer,
                "socket": self.sock}.get(name, default)

    def attach(self, protocol):
        self.protocol = protocol
        if self.server is not None:
            self.server.active += 1
        self.loop.streams.append(self)

    def made(self):
        self.protocol.connection_made(self)
        early, self.early = self.early, None
        for data in early:
            self.loop.call_soon(self.receive, data)

    def receive(self, data):
        """Deliver data (nothing is the end of it)."""
        if self.early is not None:
            self.early.append(data)
        elif not self.closing:
            if data is None:
                self.close()
            else:
                self.protocol.data_received(data)

    def write(self, data):
        if not self.closing:
            self.written.append(data)
            for piece in self.loop.pieces(data):
                self.loop.call_soon(self.peer.receive, piece)

    def is_closing(self):
        return self.closing

    def close(self):
        if not self.closing:
            self.closing = True
            self.loop.call_soon(self.peer.receive, None)
            self.loop.call_soon(self.end)

    abort = close

    def end(self):
        self.lost = True
        self.protocol.connection_lost(None)
        if self.server is not None:
            self.server.active -= 1
            self.server.wake()


class Server:
    """Something that accepts streams."""

    def __init__(self, loop, factory, names):
        self.loop, self.factory = loop, factory
        self.socks = [Sock(x) for x in names]
        self.active, self.open, self.waiters = 0, True, []

    @property
    def sockets(self):
        return self.socks if self.open else []

    def close(self):
        self.open = False
        self.wake()

    def wake(self):
        if not self.open and not self.active:
            for waiter in self.waiters:
                if not waiter.done():
                    waiter.set_result(None)

    async def wait_closed(self):
        if self.open or self.active:
            self.waiters.append(self.loop.create_future())
            await self.waiters[-1]

    async def __aenter__(self):
        return self

    async def __aexit__(self, *_):
        self.close()
        await self.wait_closed()

    def accept(self, far):
        """Accept a stream, or reset it if it's too late."""
        if not self.open:
            far.receive(None)
            return
        near = far.peer
        near.attach(self.factory())
        self.loop.call_soon(near.made)


class Datagrams(asyncio.DatagramTransport):
    """An end for datagrams."""

    def __init__(self, loop, name, peer, sock):
        super().__init__()
        self.loop, self.name, self.peer, self.sock = loop, name, peer, sock
        self.closing, self.sent = False, []

    def get_extra_info(self, name, default=None):
        return {"sockname": self.name, "peername": self.peer,
                "socket": self.sock}.get(name, default)

    def sendto(self, data, addr=None):
        if self.closing:
            return
        if self.peer is not None and addr is not None and tuple(addr) != self.peer:
            raise ValueError("Invalid address: must be None or %s" % (self.peer,))
        assert self.peer is not None or addr is not None, "no destination"
        self.sent.append((data, addr))
        self.loop.call_soon(self.loop.datagram, self, data, tuple(addr or self.peer))

    def is_closing(self):
        return self.closing

    def close(self):
        if not self.closing:
            self.closing = True
            self.loop.ends = {k: v for k, v in self.loop.ends.items() if v is not self}
            self.loop.call_soon(self.protocol.connection_lost, None)

    abort = close


class NetLoop(VLoop):
    """An event loop with a network."""

    def __init__(self, *args, hops=0, pieces=None, **kwargs):
        super().__init__(*args, **kwargs)
        self.servers, self.streams, self.ends = [], [], {}
        self.hops, self.port = hops, 50000
        self.pieces = pieces if pieces is not None else lambda data: [data]

    def free(self, port=0):
        if not port:
            self.port += 1
            port = self.port
        return port

    def hop(self, count, callback, *args):
        if count <= 0:
            self.call_soon(callback, *args)
        else:
            self.call_soon(self.hop, count - 1, callback, *args)

    async def create_server(self, factory, host=None, port=0, **kwargs):
        self.served = {"host": host, "port": port, **kwargs}
        for name in (host if isinstance(host, list) else [host]):
            for server in self.servers:
                if server.open and (name, port) in [x.name for x in server.socks]:
                    raise OSError("in use")
        hosts = host if isinstance(host, list) else [host]
        self.servers.append(Server(self, factory, [(x, self.free(port)) for x in hosts]))
        return self.servers[-1]

    async def create_connection(self, factory, host=None, port=None, local_addr=None,
                                **kwargs):
        self.connected = {"host": host, "port": port, **kwargs}
        found = [s for s in self.servers if s.open
                 and (host, port) in [x.name for x in s.socks]]
        if not found:
            raise ConnectionRefusedError("nobody listens")
        mine = tuple(local_addr) if local_addr else ("127.0.0.1", self.free())
        far, near = Stream(self, Sock(mine, peer=(host, port))), Stream(
            self, Sock((host, port), peer=mine), found[0])
        far.peer, near.peer = near, far
        self.hop(self.hops, found[0].accept, far)
        far.attach(factory())
        done = self.create_future()
        self.call_soon(far.made)
        self.call_soon(lambda: done.done() or done.set_result(None))
        await done
        return far, far.protocol

    async def create_datagram_endpoint(self, factory, local_addr=None, remote_addr=None,
                                       sock=None, family=0, **kwargs):
        self.endpoint = {"local_addr": local_addr, "remote_addr": remote_addr,
                         "family": family, **kwargs}
        peer = tuple(remote_addr) if remote_addr else None
        if sock is not None:
            name, peer = sock.name, sock.peer
        else:
            name = tuple(local_addr) if local_addr else ("127.0.0.1", 0)
            name = (name[0], self.free(name[1]))
        if name[1] in self.ends:
            raise OSError("in use")
        made = Datagrams(self, name, peer, sock or Sock(name, socket.SOCK_DGRAM, peer))
        made.protocol = factory()
        self.ends[name[1]] = made
        self.call_soon(made.protocol.connection_made, made)
        return made, made.protocol

    def datagram(self, source, data, addr):
        """Deliver a datagram to whoever is bound there, if it's for them."""
        end = self.ends.get(addr[1])
        if end is None or end.closing:
            if source.peer is not None and not source.closing:
                source.protocol.error_received(ConnectionRefusedError("nobody there"))
        elif end.peer is None or end.peer[1] == source.name[1]:
            end.protocol.datagram_received(data, ("127.0.0.1", source.name[1]))
