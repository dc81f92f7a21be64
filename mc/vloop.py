"""Deterministic asyncio event loop with virtual time and an in-memory network.

The real client code runs unmodified on it: asyncio.open_connection() reaches
``create_connection`` below, which wires the real StreamReader/StreamWriter to an
in-memory transport whose other end is a scripted device.
"""
from __future__ import annotations

import asyncio
import datetime as _dtmod
import sys
from asyncio import base_events

EPOCH = _dtmod.datetime(2026, 1, 1, tzinfo=_dtmod.timezone.utc)
REAL_DT = _dtmod.datetime


class Quiescent(BaseException):
    """Nothing runnable, no timer pending, and the main task is not done: a deadlock."""


class Horizon(BaseException):
    """Virtual time ran past the horizon."""


class _Sel:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        lp = self.loop
        lp.steps += 1
        if lp.steps > lp.max_steps:
            raise Horizon(f"more than {lp.max_steps} loop iterations")
        fn = lp.at_step.pop(lp.steps, None)
        if fn is not None:
            lp.call_soon(fn)
            return []
        if timeout is None:
            raise Quiescent("deadlock: nothing runnable and no timer")
        if timeout > 0:
            when = lp._scheduled[0]._when if lp._scheduled else lp._now + timeout
            lp._now = max(lp._now, when)
            if lp._now > lp.horizon:
                raise Horizon(f"virtual time passed {lp.horizon}s")
        return []

    def close(self):
        pass

    def get_map(self):
        return {}


class VLoop(base_events.BaseEventLoop):
    def __init__(self, horizon=100000.0, max_steps=400000):
        super().__init__()
        self._now = 1000.0
        self._clock_resolution = 1e-9
        self._selector = _Sel(self)
        self.horizon = horizon
        self.max_steps = max_steps
        self.steps = 0
        self.at_step: dict = {}  # loop iteration -> callback injected before anything else may happen
        self.errors: list = []
        self.net = None
        self.set_exception_handler(lambda lp, c: self.errors.append(
            (c.get("message"), repr(c.get("exception")))))

    def time(self):
        return self._now

    def _process_events(self, ev):
        pass

    def _write_to_self(self):
        pass

    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        return await self.net.open(self, protocol_factory, host, port)


_current: VLoop | None = None


class _VMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, REAL_DT)


class VDatetime(REAL_DT, metaclass=_VMeta):
    """Stands in for datetime.datetime inside givenergy_modbus: now() is virtual."""

    def __new__(cls, *a, **k):
        return REAL_DT(*a, **k)

    @classmethod
    def now(cls, tz=None):
        t = EPOCH + _dtmod.timedelta(seconds=(_current._now if _current is not None else 0.0))
        return t.astimezone(tz) if tz is not None else t.replace(tzinfo=None)

    @classmethod
    def utcnow(cls):
        return cls.now(_dtmod.timezone.utc).replace(tzinfo=None)


class _Proxy:
    def __init__(self, mod, **over):
        self.__dict__["_m"] = mod
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self._m, k)


def vdt(t: float) -> _dtmod.datetime:
    return EPOCH + _dtmod.timedelta(seconds=t)


def patch_clock():
    """Route every wall-clock and random source of givenergy_modbus through the loop."""
    import random
    import time

    timeprox = _Proxy(time, time=lambda: 1.7e9 + (_current._now if _current else 0.0),
                      monotonic=lambda: (_current._now if _current else 0.0),
                      perf_counter=lambda: (_current._now if _current else 0.0))
    dtprox = _Proxy(_dtmod, datetime=VDatetime)
    randprox = _Proxy(random, uniform=lambda a, b: RAND(a, b), random=lambda: RAND(0.0, 1.0))
    for name, mod in list(sys.modules.items()):
        if not name.startswith("givenergy_modbus") or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if v is REAL_DT:
                setattr(mod, k, VDatetime)
            elif v is _dtmod and name.endswith((".plant", ".client", ".battery_splice")):
                setattr(mod, k, dtprox)
            elif v is time:
                setattr(mod, k, timeprox)
            elif v is random:
                setattr(mod, k, randprox)
            elif v is random.uniform:
                setattr(mod, k, lambda a, b: RAND(a, b))


_rand_point = 0.0


def RAND(a, b):
    return a + (b - a) * _rand_point


def set_rand(x: float):
    global _rand_point
    _rand_point = x


class MemTransport(asyncio.Transport):
    def __init__(self, loop, protocol, conn):
        super().__init__()
        self._loop = loop
        self._protocol = protocol
        self.conn = conn
        self._closing = False
        self._lost = False

    def get_extra_info(self, name, default=None):
        return {"peername": ("mem", 8899), "socket": None}.get(name, default)

    def set_protocol(self, p):
        self._protocol = p

    def get_protocol(self):
        return self._protocol

    def is_closing(self):
        return self._closing

    def is_reading(self):
        return True

    def pause_reading(self):
        pass

    def resume_reading(self):
        pass

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def get_write_buffer_size(self):
        return 0

    def can_write_eof(self):
        return True

    def write_eof(self):
        pass

    def write(self, data):
        if self._closing or self._lost:
            return
        if self.conn.stalled:
            self.conn.backlog.append(bytes(data))
            return
        self.conn._client_wrote(bytes(data))

    def writelines(self, lst):
        self.write(b"".join(lst))

    def _do_lost(self, exc):
        if not self._lost:
            self._lost = True
            self._closing = True
            self.conn.closed_at = self._loop.time()
            self._protocol.connection_lost(exc)

    def close(self):
        if not self._closing:
            self._closing = True
            if not self.conn.backlog:  # like the real transport: unsent bytes are flushed before the close completes
                self._loop.call_soon(self._do_lost, None)

    def abort(self):
        self.conn.backlog.clear()
        self._closing = True
        self._loop.call_soon(self._do_lost, None)


class Conn:
    """Device end of one in-memory TCP connection."""

    def __init__(self, loop, net, idx):
        self.loop, self.net, self.idx = loop, net, idx
        self.transport: MemTransport | None = None
        self.sent: list[tuple[float, bytes]] = []  # everything the client wrote
        self.closed_at = None
        self.eof_sent = False
        self.delivered: list[tuple[float, bytes]] = []
        self.stalled = False
        self.backlog: list[bytes] = []  # written by the client, not accepted by the peer

    def _client_wrote(self, data):
        self.sent.append((self.loop.time(), data))
        if self.net.on_data is not None:
            self.net.on_data(self, data)

    # -- device actions -------------------------------------------------------
    @property
    def dead(self):
        return self.transport is None or self.transport._lost or self.transport._closing

    def send(self, data: bytes):
        if self.dead or self.eof_sent:
            return
        self.delivered.append((self.loop.time(), data))
        self.transport._protocol.data_received(data)

    def eof(self):
        if self.dead or self.eof_sent:
            return
        self.eof_sent = True
        keep = self.transport._protocol.eof_received()
        if not keep:
            self.transport.close()

    def reset(self, exc=None):
        if self.transport is None or self.transport._lost:
            return
        self.transport._closing = True
        self.transport._do_lost(exc or ConnectionResetError(104, "Connection reset by peer"))

    def reset_clean(self):
        """The transport reports a clean close (connection_lost(None)) without an EOF first."""
        if self.transport is None or self.transport._lost:
            return
        self.transport._closing = True
        self.transport._do_lost(None)

    def pause(self):
        """The peer stops accepting data."""
        if not self.dead and not self.stalled:
            self.stalled = True
            self.transport._protocol.pause_writing()

    def resume(self):
        if self.stalled and not self.transport._lost:
            self.stalled = False
            out, self.backlog = self.backlog, []
            for data in out:
                self._client_wrote(data)
            if self.transport._closing:
                self.transport._do_lost(None)
            else:
                self.transport._protocol.resume_writing()


class Net:
    """Accepts the client's connections; ``on_data(conn, bytes)`` is the device program."""

    def __init__(self, on_data=None, on_open=None):
        self.on_data = on_data
        self.on_open = on_open
        self.conns: list[Conn] = []
        self.refuse = None  # exception to raise, or "hang"

    async def open(self, loop, factory, host, port):
        if self.refuse == "hang":
            await loop.create_future()
        if self.refuse is not None:
            raise self.refuse
        c = Conn(loop, self, len(self.conns))
        self.conns.append(c)
        proto = factory()
        tr = MemTransport(loop, proto, c)
        c.transport = tr
        proto.connection_made(tr)
        await asyncio.sleep(0)
        if self.on_open:
            self.on_open(c)
        return tr, proto


def run(main_factory, net: Net, horizon=100000.0, max_steps=400000, at_step=None):
    """Run ``await main_factory(loop)`` to completion on a fresh virtual loop.

    Returns (result, loop).  A deadlock/horizon is returned as the exception object.
    """
    global _current
    loop = VLoop(horizon, max_steps)
    loop.net = net
    if at_step:
        loop.at_step.update(at_step)
    _current = loop
    asyncio.set_event_loop(loop)
    try:
        try:
            task = loop.create_task(main_factory(loop))
            res = loop.run_until_complete(task)
        except (Quiescent, Horizon) as e:
            res = e
        # drain: cancel leftovers so nothing leaks between executions
        loop.horizon = float("inf")
        loop.max_steps = loop.steps + 100000
        left = [t for t in asyncio.all_tasks(loop) if not t.done()]
        for t in left:
            t.cancel()
        if left:
            try:
                loop.run_until_complete(asyncio.gather(*left, return_exceptions=True))
            except (Quiescent, Horizon, RuntimeError):
                pass
        return res, loop
    finally:
        _current = None
        asyncio.set_event_loop(None)
        try:
            loop.run_until_complete = None
            loop._ready.clear()
            loop._scheduled.clear()
            loop._closed = True
        except Exception:
            pass


def run_sync(coro):
    """Drive a coroutine that never really suspends (e.g. the framer generator)."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("coroutine suspended")
