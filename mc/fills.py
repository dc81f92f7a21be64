"""Register-content spaces for the model sweeps: every state is {("HR", n): value}."""
from __future__ import annotations

import functools
import itertools
from fractions import Fraction

from . import decode

BIG = ("inverter", "threephase")
FW = (0, 1, 99, 100, 299, 300, 302, 303, 399, 400, 449, 577, 799, 800, 899, 900, 912, 999, 1000, 1020, 65535, None)
SCALE = {"deci": 10, "centi": 100, "milli": 1000, "pf_signed": 10000}


def regs(model):
    return decode.registers("gateway1" if model == "gateway" else model)


@functools.lru_cache(None)
def edges() -> tuple:
    """Raw words around every declared range limit, plus the usual corners."""
    out = {0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 16, 17, 23, 24, 31, 32, 59, 60, 61, 99, 100, 101, 255, 256, 0x2020, 0x3030, 0x4141, 0x5A5A, 0x6161, 0xFFFF,
           0x8080, 0x00FF, 0xFF00, 0xDFDF, 0xB2B2, 0x2001, 0x3001, 0x4001, 0x5001, 0x6001, 0x7001, 0x8001, 0x9001, 0x1234, 2359, 2360, 2399, 2400, 2401, 9999, 10000, 20000}
    for k in range(16):
        out |= {(1 << k) - 1, 1 << k, (1 << k) + 1, 0xFFFF ^ (1 << k)}
    for at in decode.MODELS.values():
        for pre, post, rr, lo, hi in at.values():
            sc = 1
            for c in (pre, post):
                n = c[0] if isinstance(c, list) else c
                sc *= SCALE.get(n, 1)
            off = 10000 if pre == "pf" else 0
            sc = 10000 if pre == "pf" else sc
            for b in (lo, hi):
                if b is not None:
                    x = int(Fraction(b) * sc) + off
                    out |= {x + d & 0xFFFF for d in (-1, 0, 1)}
    return tuple(sorted(v & 0xFFFF for v in out))


CORNERS = (0, 1, 9, 60, 100, 255, 256, 999, 2359, 2400, 0x4142, 0x7FFF, 0x8000, 0x8001, 0xFF00, 0xFFFF)


def uniform(model, v):
    return dict.fromkeys(regs(model), v)


def striped(model, a, b, period=2, at=0):
    return {r: (b if r[1] % period == at else a) for r in regs(model)}


def pattern(model, k, m, c=1):
    """Neighbouring registers all differ, so a value taken from the wrong place shows."""
    d = {r: (r[1] * k + i * 7 + c) % m for i, r in enumerate(regs(model))}
    return d


def identity(d, dtc, fw):
    d = dict(d)
    for r, v in ((("HR", 0), dtc), (("HR", 21), fw)):
        if v is None:
            d.pop(r, None)
        elif r in d:
            d[r] = v
    return d


PATTERNS = ((13, 97, 1), (31, 4099, 3), (257, 60013, 5), (4099, 65521, 11), (7, 251, 2), (101, 2360, 7))


def bases(model):
    yield "pattern", pattern(model, 13, 97)
    yield "wide", pattern(model, 4099, 65521)
    yield "zero", uniform(model, 0)
    yield "ones", uniform(model, 0xFFFF)
    yield "empty", {}


def changed(base, r, v):
    d = dict(base)
    if v is None:
        d.pop(r, None)
    else:
        d[r] = v
    return d


def clock(full=False):
    """Six-word dates, every combination of component corners."""
    comp = ((0, 24, 100, 7999, 65535), (0, 1, 2, 12, 13), (0, 1, 28, 29, 30, 31, 32), (0, 23, 24), (0, 59, 60), (0, 59, 60))
    return itertools.product(*comp)


def words(n, letters):
    return itertools.product(letters, repeat=n)


# the words the model-dependent readings of an inverter need, for fast device-type sweeps
SMALL_IDENTITY = {("HR", 0), ("HR", 21), ("IR", 1), ("IR", 2), ("IR", 8), ("IR", 9), ("IR", 25), ("IR", 26), ("IR", 35), ("IR", 36), ("IR", 37), ("IR", 44), ("IR", 45),
                  ("IR", 46), ("IR", 180), ("IR", 181), ("IR", 182), ("IR", 183), ("HR", 4109), ("HR", 4110), ("HR", 4111), ("HR", 4112), ("HR", 4113), ("HR", 4114)}
