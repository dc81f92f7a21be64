"""Calling command helpers and comparing what they emit with an independently written table."""
from . import env, wire  # noqa: F401
import decimal
import fractions
from datetime import time
from givenergy_modbus.client import commands
from givenergy_modbus.model import TimeSlot
from givenergy_modbus.pdu import WriteHoldingRegisterRequest as WR

MIN = [time(h, m) for h in range(24) for m in range(60)]
ODD = [float("nan"), float("inf"), float("-inf"), 1e300, -1e300, 10**30, -(10**30), None, "50", b"50", "", [50], (50,), {}, 50j, object(), True, False, 50.5, 4.000001, 99.9999999, -0.5, 0.5, 1.5, 2.9]
NUM = [50.0, 4.0, 100.0, 0.0, -0.0, 1.0, 3.0, 101.0, 65535.0, 65536.0, 20.0, 10.0, 90.0]


def hm(t):
    return 0 if t is None else t.hour * 100 + t.minute


class Odd(Exception):
    pass


def call(fn, *a, **k):
    """None if refused, else the emitted writes as a list of (register, value, installer, device)."""
    try:
        r = fn(*a, **k)
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception:
        return None
    if not isinstance(r, list):
        raise Odd(f"{fn} returned {type(r)}")
    out = []
    for x in r:
        if not isinstance(x, WR):
            raise Odd(f"{fn} emitted {type(x)}")
        if type(x.value) is bool or not isinstance(x.value, int):
            raise Odd(f"{fn} emitted value {x.value!r}")
        out.append((int(x.register), int(x.value), bool(x.installer), x.device_address))
    return out


def encodes(reg, val, installer):
    """The bytes on the wire for one emitted write are that write, addressed to the inverter."""
    f = (WR(reg, val, installer=True) if installer else WR(reg, val)).encode()
    p = wire.parse_outgoing(f)
    return (p["kind"], p["dev"], p["register"], p["value"]) == ("write", 0x11, reg, val)


def integral(v):
    """The integer a numeric argument means, or None when it must be refused."""
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return None
    if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf")) or v != int(v)):
        return None
    return int(v)
