"""Everything a consumer can read from a plant, as one comparable tree."""
from __future__ import annotations

import dataclasses
import enum

from . import models
from pydantic import BaseModel
from givenergy_modbus.model import TimeSlot
from givenergy_modbus.model.devices import Inverter

PROPS = ("inverter_serial", "inverter", "batteries", "number_batteries", "remaining_battery_energy_wh", "hv_stacks", "aio_battery_modules", "lv_bcu", "meters", "ems", "gateway", "inverters",
         "serial_index", "devices")
FACADE = ("data_source", "serial_number", "status", "p_inverter_out", "battery_soc", "t_inverter_heatsink", "is_blinded", "direct", "summary", "batteries", "hv_stacks", "battery_modules")


def render(x):
    if x is None or isinstance(x, (bool, int, float, str, TimeSlot)) and not isinstance(x, enum.Enum):
        return x if isinstance(x, (type(None), bool, int, float, str)) else repr(x)
    if isinstance(x, enum.Enum):
        return repr(x)
    if isinstance(x, (list, tuple)):
        return [render(y) for y in x]
    if isinstance(x, dict):
        return {repr(k): render(v) for k, v in x.items()}
    if isinstance(x, Inverter):
        return {"class": "Inverter", **{n: attempt(lambda: getattr(x, n)) for n in FACADE}}
    if isinstance(x, BaseModel):
        return {"class": type(x).__name__, **{n: attempt(lambda: models.read(x, n, how)) for n, how in models.surface(type(x))}}
    if dataclasses.is_dataclass(x):
        return {"class": type(x).__name__, **{f.name: render(getattr(x, f.name)) for f in dataclasses.fields(x)}}
    if type(x).__module__.startswith("givenergy_modbus"):
        return {"class": type(x).__name__, **{k: render(v) for k, v in vars(x).items() if not k.startswith("_")}}
    return repr(x)


def attempt(f):
    try:
        return render(f())
    except Exception as e:
        return f"raises {type(e).__name__}: {e}"[:200]


def view(plant, props=PROPS) -> dict:
    return {n: attempt(lambda: getattr(plant, n)) for n in props}


def diff(a, b, at=""):
    """Paths at which two trees differ, first few."""
    if type(a) is not type(b):
        return [(at, a if not isinstance(a, (dict, list)) else "…", b if not isinstance(b, (dict, list)) else "…")]
    out = []
    if isinstance(a, dict):
        for k in {**a, **b}:
            if len(out) < 8:
                out += diff(a[k], b[k], f"{at}.{k}") if k in a and k in b else [(f"{at}.{k}", "present" if k in a else "absent", "present" if k in b else "absent")]
    elif isinstance(a, list):
        if len(a) != len(b):
            return [(at, f"{len(a)} items", f"{len(b)} items")]
        for i, (x, y) in enumerate(zip(a, b)):
            if len(out) < 8:
                out += diff(x, y, f"{at}[{i}]")
    elif a != b and not (a != a and b != b):
        out = [(at, a, b)]
    return out[:8]


def texts(x):
    """Every piece of text in a tree."""
    if isinstance(x, str):
        yield x
    elif isinstance(x, dict):
        for k, v in x.items():
            yield str(k)
            yield from texts(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from texts(v)
