"""In-memory TCP for code that listens: asyncio.start_server and open_connection inside the virtual-time loop."""
from __future__ import annotations

import asyncio

from . import vloop


class Sock:
    def __init__(self, host, port):
        self._n = (host, port)

    def getsockname(self):
        return self._n


class Server(asyncio.AbstractServer):
    def __init__(self, net, host, port, factory):
        self.net, self.key, self.factory = net, (host, port), factory
        self.sockets = [Sock(host, port)]

    def close(self):
        self.net.servers.pop(self.key, None)

    async def wait_closed(self):
        return None

    def is_serving(self):
        return self.key in self.net.servers

    async def start_serving(self):
        return None

    async def serve_forever(self):
        await asyncio.get_running_loop().create_future()

    def get_loop(self):
        return self.net.loop


class Pipe(asyncio.Transport):
    """One end of a connection; bytes reach the peer in order, ``lat`` seconds later, cut by ``chop``."""

    def __init__(self, loop, net, side):
        super().__init__()
        self.loop, self.net, self.side = loop, net, side
        self.peer = self.protocol = None
        self.closing = self.lost = False
        self.wrote: list[tuple[float, bytes]] = []
        self.at = 0.0

    def get_extra_info(self, name, default=None):
        return {"peername": ("mem", 1), "sockname": ("mem", 2)}.get(name, default)

    def set_protocol(self, p):
        self.protocol = p

    def get_protocol(self):
        return self.protocol

    def is_closing(self):
        return self.closing

    def is_reading(self):
        return True

    def pause_reading(self): ...
    def resume_reading(self): ...
    def set_write_buffer_limits(self, high=None, low=None): ...

    def get_write_buffer_size(self):
        return 0

    def can_write_eof(self):
        return True

    def write_eof(self):
        self._later(lambda: self.peer._eof())

    def _later(self, fn, gap=0.0):
        self.at = max(self.at + gap, self.loop.time() + self.net.lat)
        self.loop.call_at(self.at, fn)

    def write(self, data):
        if self.closing or self.lost:
            return
        self.wrote.append((self.loop.time(), bytes(data)))
        for piece in self.net.chop(self.side, bytes(data)):
            self._later(lambda b=piece: self.peer._data(b), self.net.gap)

    def writelines(self, lst):
        self.write(b"".join(lst))

    def _data(self, b):
        if not self.lost and not self.closing:
            self.protocol.data_received(b)

    def _eof(self):
        if not self.lost and not self.closing:
            if not self.protocol.eof_received():
                self.close()

    def _drop(self, exc):
        if not self.lost:
            self.lost = self.closing = True
            self.protocol.connection_lost(exc)

    def close(self):
        if not self.closing:
            self.closing = True
            self.loop.call_soon(self._drop, None)
            self._later(lambda: self.peer._eof())

    def abort(self):
        self.close()


class Net:
    """``chop(side, data)`` yields the pieces the peer receives; side is 'c' (client wrote) or 's'."""

    def __init__(self, lat=0.01, chop=None, gap=0.001):
        self.lat, self.gap = lat, gap
        self.chop = chop or (lambda side, data: [data])
        self.servers: dict = {}
        self.pipes: list[tuple[Pipe, Pipe]] = []
        self.next_port = 40000
        self.loop = None

    async def create_server(self, loop, factory, host, port):
        self.loop = loop
        if not port:
            self.next_port += 1
            port = self.next_port
        if (host, port) in self.servers:
            raise OSError(98, "address already in use")
        s = self.servers[(host, port)] = Server(self, host, port, factory)
        return s

    async def open(self, loop, protocol_factory, host, port):
        s = self.servers.get((host, port))
        if s is None:
            raise ConnectionRefusedError(111, "refused")
        c, d = Pipe(loop, self, "c"), Pipe(loop, self, "s")
        c.peer, d.peer = d, c
        c.protocol, d.protocol = protocol_factory(), s.factory()
        self.pipes.append((c, d))
        d.protocol.connection_made(d)
        c.protocol.connection_made(c)
        return c, c.protocol


async def _create_server(self, protocol_factory, host=None, port=None, **kw):
    return await self.net.create_server(self, protocol_factory, host, port)


vloop.VLoop.create_server = _create_server
