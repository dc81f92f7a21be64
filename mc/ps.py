"""Plant-state harness: real decoded messages into the real Plant, with cloning and canonical states for exploration."""
from __future__ import annotations

import copy
from datetime import datetime, timedelta, timezone

from . import env, wire, plants, fr  # noqa: F401
from .cl import Plant
from givenergy_modbus.model.register_cache import RegisterCache
from givenergy_modbus.model.plant import PlantCapabilities

T0 = datetime(2025, 3, 1, 12, 0, 0, tzinfo=timezone.utc)
FC = {"HR": 3, "IR": 4, "MR": 0x16}


def at(s: float) -> datetime:
    return T0 + timedelta(seconds=s)


def pdu(raw: bytes):
    """The message the client would decode from these wire bytes."""
    out = fr.feed(fr.ClientFramer(), raw)
    assert len(out) == 1, out
    return out[0]


def reply(dev, kind, base, values, ser=wire.INVERTER, adapter=wire.ADAPTER, **kw):
    return pdu(wire.read_response(FC[kind], dev, base, list(values), adapter, ser, **kw))


def bank(dev, kind, base, count, table, **kw):
    return reply(dev, kind, base, [table.get(base + i, 0) for i in range(count)], **kw)


_ATOM = (int, float, str, bytes, bool, type(None), datetime, timedelta, PlantCapabilities)


def _cp(v):
    if isinstance(v, _ATOM):
        return v
    if isinstance(v, RegisterCache):
        return RegisterCache(dict(v))
    if type(v) is dict:
        return {k: _cp(x) for k, x in v.items()}
    if type(v) is list:
        return [_cp(x) for x in v]
    if type(v) is tuple:
        return tuple(_cp(x) for x in v)
    if type(v) in (set, frozenset):
        return type(v)(v)
    return copy.deepcopy(v)


def clone(p):
    q = copy.copy(p)
    q.__dict__.update({k: _cp(v) for k, v in p.__dict__.items()})
    priv = p.__pydantic_private__
    if priv:
        object.__setattr__(q, "__pydantic_private__", {k: _cp(v) for k, v in priv.items()})
    return q


COUNTERS = {"crc_failure_count", "splice_reject_count", "splice_held_count", "retry_count", "cold_start_held_count"}


def canon(p, now: datetime, skip=frozenset()):
    """Hashable image of the whole plant state; times relative to now."""
    def c(v):
        if isinstance(v, datetime):
            return ("age", (now - (v if v.tzinfo else v.replace(tzinfo=timezone.utc))).total_seconds())
        if isinstance(v, (int, float, str, bytes, bool, type(None))):
            return v
        if isinstance(v, dict):
            return ("d", tuple(sorted(((repr(k), c(x)) for k, x in v.items()), key=lambda z: z[0])))
        if isinstance(v, (list, tuple)):
            return tuple(c(x) for x in v)
        if isinstance(v, (set, frozenset)):
            return ("s", tuple(sorted(map(repr, v))))
        d = getattr(v, "__dict__", None)
        return (type(v).__name__, c(d)) if d is not None else repr(v)
    parts = [(k, c(v)) for k, v in sorted(p.__dict__.items()) if k not in skip and k != "capabilities"]
    parts += [(k, c(v)) for k, v in sorted((p.__pydantic_private__ or {}).items()) if k not in skip]
    return hash(tuple(parts))


def regs(p) -> dict:
    """{(device, kind, register): value} of everything the plant holds."""
    return {(a, k.reg_type, k.index): v for a, c in p.register_caches.items() for k, v in c.items()}
