"""Documented behaviour of the LV-battery guard, transcribed from the reference text (independent of battery_splice.py).

Frames are 60-value lists (IR60..IR119); indices below are absolute register numbers.
"""
from __future__ import annotations

from . import plants, ps, wire

GAP = 300.0          # an observation gap beyond this resets the baseline
HEAL_POLLS = 10      # polls of insistence before a constant-register change is believed
HEAL_SECONDS = 900.0

SINGLE = {**{r: ("cell", 300) for r in range(60, 76)}, **{r: ("temp", 50) for r in (76, 77, 78, 79, 103, 104)}, 81: ("mosfet", 200), 80: ("sum", 1600),
          100: ("soc", 10), 105: ("energy", 50), 106: ("energy", 50)}
PAIR = {82: ("vout", 4000), 84: ("cap", 1500), 86: ("cap", 1500), 88: ("cap", 1500), 101: ("cap", 1500)}
SIGNED = {"temp", "mosfet"}
SURGE = {"cell": (1000, 5000), "sum": (16000, 80000), "vout": (16000, 80000), "cap": (0, 50000)}
CONST = (97, 98)
SER = tuple(range(110, 115))


def s16(v):
    return v - 65536 if v & 0x8000 else v


def value(f, reg):
    if reg in PAIR:
        return (f[reg - 60] << 16) | f[reg - 59]
    v = f[reg - 60]
    return s16(v) if SINGLE[reg][0] in SIGNED else v


def trips(a, b):
    """(guarded readings that moved further than one poll allows, constants changed, serial changed)."""
    phys = [r for r, (_, lim) in {**SINGLE, **PAIR}.items() if abs(value(a, r) - value(b, r)) > lim]
    return phys, [r for r in CONST if a[r - 60] != b[r - 60]], any(a[r - 60] != b[r - 60] for r in SER)


def rule(reg):
    return (SINGLE.get(reg) or PAIR[reg])[0]


def surge(frame, phys):
    """Every trip is a voltage/capacity reading inside its physical range."""
    return all(rule(r) in SURGE and SURGE[rule(r)][0] <= value(frame, r) <= SURGE[rule(r)][1] for r in phys)


def cohort(f):
    """Two or more cell-block temperatures reading zero."""
    return sum(f[i] == 0 for i in (16, 17, 18, 19)) >= 2


def impossible(f):
    """Every cell at 0 V although firmware version or remaining capacity is reported."""
    return not any(f[:16]) and bool(f[38] or f[28] or f[29])


def serial_ok(f):
    b = b"".join(v.to_bytes(2, "big") for v in f[50:55]).decode("latin1")
    s = "".join(ch for ch in b if ch != "\0").upper()
    return len(s) == 10 and s.isalnum() and s.isascii()


def frame(dev=0x32, t=0, **ch) -> list:
    """A healthy frame; r100=..., or serial=... override."""
    ser = ch.pop("serial", None)
    r = plants.battery_regs(dev, t, ser)
    r.update({int(k[1:]): v & 0xFFFF for k, v in ch.items()})
    return [r[60 + i] for i in range(60)]


def put(f, **ch):
    f = list(f)
    for k, v in ch.items():
        f[int(k[1:]) - 60] = v & 0xFFFF
    return f


def msg(dev, f):
    return ps.reply(dev, "IR", 60, f)


def held(p, dev=0x32):
    """The battery block the plant currently serves (None if it serves none)."""
    c = {k.index: v for k, v in p.register_caches.get(dev, {}).items() if k.reg_type == "IR" and 60 <= k.index < 120}
    if not c:
        return None
    return [c.get(60 + i) for i in range(60)]
