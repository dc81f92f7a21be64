"""Client-under-virtual-time harness: the real Client talking to a scripted in-memory device."""
from __future__ import annotations

import asyncio

from . import env, wire, vloop  # noqa: F401
import givenergy_modbus.client.client as _cl
import givenergy_modbus.model.plant as _pl
import givenergy_modbus.client.commands  # noqa: F401
from givenergy_modbus.client.client import Client
from givenergy_modbus.exceptions import CommunicationError, ConnectionLost

vloop.patch_clock()
Plant = _pl.Plant


class Device:
    """A dongle that parses the client's frames and answers from register tables.

    ``banks[dev][kind]`` is {register: value}; missing devices stay silent, missing
    registers read as 0 unless ``partial`` says otherwise.  ``script(n, req)`` may
    override the answer of the n-th request: None = default, or a list of
    (delay, bytes | callable(conn)) events.
    """

    KIND = {"read_hr": "HR", "read_ir": "IR", "read_mr": "MR"}

    def __init__(self, banks=None, serials=None, script=None, latency=0.05):
        self.banks = banks or {}
        self.serials = serials or {}
        self.script = script
        self.latency = latency
        self.log: list[tuple[float, int, dict]] = []
        self.raw: list[tuple[float, int, bytes]] = []
        self.split: dict[int, wire.StreamSplitter] = {}
        self.bad: list = []
        self.n = 0
        self.adapter = wire.ADAPTER
        self.net = vloop.Net(on_data=self.on_data)

    # -- default behaviour ------------------------------------------------------
    def answer(self, r) -> bytes | None:
        if r["kind"] == "heartbeat":
            return None
        dev = r["dev"]
        if dev not in self.banks:
            return None
        ser = self.serials.get(dev, wire.INVERTER)
        if r["kind"] == "write":
            self.banks[dev].setdefault("HR", {})[r["register"]] = r["value"]
            return wire.write_response(dev, r["register"], r["value"], self.adapter, ser)
        kind = self.KIND[r["kind"]]
        if kind not in self.banks[dev]:
            return None
        tab = self.banks[dev][kind]
        vals = [tab.get(r["base"] + i, 0) for i in range(r["count"])]
        return wire.read_response(r["fc"], dev, r["base"], vals, self.adapter, ser)

    def on_data(self, conn, data):
        now = conn.loop.time()
        self.raw.append((now, conn.idx, data))
        sp = self.split.setdefault(conn.idx, wire.StreamSplitter())
        try:
            frames = sp.feed(data)
        except wire.BadFrame as e:
            self.bad.append(("stream", str(e)))
            return
        for f in frames:
            try:
                r = wire.parse_outgoing(f)
            except wire.BadFrame as e:
                self.bad.append(("frame", str(e), f.hex()))
                continue
            r["t"], r["conn"], r["raw"] = now, conn.idx, f
            self.log.append((now, conn.idx, r))
            i = self.n
            self.n += 1
            ev = self.script(i, r) if self.script else None
            if ev is None:
                a = self.answer(r)
                ev = [(self.latency, a)] if a is not None else []
            for delay, what in ev:
                if callable(what):
                    conn.loop.call_later(delay, what, conn)
                else:
                    conn.loop.call_later(delay, conn.send, what)


def client(**kw) -> Client:
    kw.setdefault("connect_timeout", 2.0)
    return Client("mem", 8899, **kw)


def caches(plant):
    """Comparable copy of every register value the plant holds."""
    return {a: {(type(k).__name__, k._idx): v for k, v in c.items()} for a, c in plant.register_caches.items()}


async def outcome(aw):
    """(kind, value) of awaiting something; never raises except harness control flow."""
    try:
        return ("ok", await aw)
    except asyncio.CancelledError:
        return ("cancelled", None)
    except ConnectionLost as e:
        return ("lost", e)
    except TimeoutError as e:
        return ("timeout", e)
    except CommunicationError as e:
        return ("comm", e)
    except Exception as e:
        return ("exc:" + type(e).__name__, e)
