"""Shared helpers for the framing/codec checks."""
from __future__ import annotations

import copy

from . import env, wire  # noqa: F401
from .vloop import run_sync
from givenergy_modbus.framer import ClientFramer, ServerFramer
from givenergy_modbus import pdu as P

SKIP = {"_builder"}


def feed(framer, data: bytes):
    """Feed one read; return everything the framer yields."""
    async def go():
        return [m async for m in framer.decode(data)]
    return run_sync(go())


def is_msg(m) -> bool:
    return isinstance(m, P.BasePDU)


def fp(m):
    """Observable content of a decoded message."""
    if not is_msg(m):
        return ("error", type(m).__name__)
    d = {k: v for k, v in vars(m).items() if k not in SKIP and not k.startswith("_")}
    return (type(m).__name__, tuple(sorted((k, repr(v)) for k, v in d.items())))


def state(framer):
    return repr(sorted((k, v) for k, v in vars(framer).items() if not isinstance(v, type)))


def retained(framer) -> int:
    return sum(len(v) for v in vars(framer).values() if isinstance(v, (bytes, bytearray, memoryview)))


def clone(framer):
    return copy.copy(framer) if all(isinstance(v, (bytes, int, str, type, type(None), float, bool, tuple))
                                    for v in vars(framer).values()) else copy.deepcopy(framer)


def frames():
    """name -> one valid device->client frame of every kind (all byte contents distinct)."""
    w = wire
    return {
        "hb": w.heartbeat("WF1234G567", 1),
        "hb2": w.heartbeat("WO7777H890", 2),
        "ir1": w.read_response(4, 0x32, 60, [0x1234]),
        "hr2": w.read_response(3, 0x11, 100, [7, 0xFFFF]),
        "mr1": w.read_response(0x16, 0x01, 0, [9]),
        "err": w.error_response(3, 0x31, 120, 60),
        "wr": w.write_response(0x11, 96, 1),
        "null": w.null_response(),
        "lan": w.lan_config(),
        "ir60": w.read_response(4, 0x11, 0, list(range(1, 61))),
        # payload bytes that look like framing bytes without containing a whole marker
        "tricky": w.read_response(4, 0x33, 0x5959, [0x5959, 0x0002, 0x5900, 0x0159]),
        "badcrc": w.read_response(4, 0x34, 60, [0x4321], crc=0x0000),
    }
