"""The public reading surface of every device model: how to build one, what can be read from it."""
from __future__ import annotations

import enum
import functools
import inspect
import logging
import math
import types
import typing
import warnings
from datetime import datetime

from . import env  # noqa: F401
from pydantic import BaseModel

from givenergy_modbus.model import TimeSlot
from givenergy_modbus.model.aio_battery import AioBatteryModule
from givenergy_modbus.model.battery import Battery
from givenergy_modbus.model.ems import Ems
from givenergy_modbus.model.gateway import GatewayV1, GatewayV2, select_gateway
from givenergy_modbus.model.hv_bcu import Bcu, Bmu
from givenergy_modbus.model.inverter import SinglePhaseInverter
from givenergy_modbus.model.inverter_threephase import ThreePhaseInverter
from givenergy_modbus.model.lv_bcu import LvBcu
from givenergy_modbus.model.meter import Meter, MeterProduct
from givenergy_modbus.model.register import HR, IR, MR
from givenergy_modbus.model.register_cache import RegisterCache

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
KIND = {"HR": HR, "IR": IR, "MR": MR}

MODELS = {
    "inverter": SinglePhaseInverter.from_register_cache,
    "threephase": ThreePhaseInverter.from_register_cache,
    "battery": Battery.from_register_cache,
    "bcu": Bcu.from_register_cache,
    "bmu": lambda c: Bmu.from_register_cache(c, 0),
    "lvbcu": LvBcu.from_register_cache,
    "aio": lambda c: AioBatteryModule.from_register_cache(c, 0x50),
    "meter": Meter.from_register_cache,
    "meterproduct": MeterProduct.from_register_cache,
    "ems": Ems.from_register_cache,
    "gateway1": GatewayV1.from_register_cache,
    "gateway2": GatewayV2.from_register_cache,
    "gateway": select_gateway,
}
CLASS = {"inverter": SinglePhaseInverter, "threephase": ThreePhaseInverter, "battery": Battery, "bcu": Bcu, "bmu": Bmu, "lvbcu": LvBcu,
         "aio": AioBatteryModule, "meter": Meter, "meterproduct": MeterProduct, "ems": Ems, "gateway1": GatewayV1, "gateway2": GatewayV2}
# attributes the changelog documents as removed: reading them raises AttributeError pointing at the replacement
REMOVED = {"ThreePhaseInverter": {"p_export_limit", "p_load_ac1", "p_load_ac2", "p_load_ac3", "p_out_ac1", "p_out_ac2", "p_out_ac3"}}
METHODS = ("p_pv", "e_pv_day", "is_valid")
SKIP = {"model_extra", "model_fields_set"}


def reg(k: str, n: int):
    return KIND[k](n)


def cache(regs: dict) -> RegisterCache:
    """{("HR", 3): 7, ...} -> RegisterCache."""
    return RegisterCache({KIND[k](n): v for (k, n), v in regs.items()})


@functools.lru_cache(None)
def surface(cls) -> tuple:
    """((name, how), ...) of every public readable thing on a class."""
    out = []
    if issubclass(cls, BaseModel):
        out += [(n, "field") for n in cls.model_fields]
        out += [(n, "prop") for n in cls.model_computed_fields]
    seen = {n for n, _ in out}
    for n in dir(cls):
        if n.startswith("_") or n in seen or n in SKIP or n in REMOVED.get(cls.__name__, ()):
            continue
        st = inspect.getattr_static(cls, n)
        if isinstance(st, (property, functools.cached_property)):
            out.append((n, "prop"))
    out += [(n, "call") for n in METHODS if callable(getattr(cls, n, None))]
    return tuple(out)


def read(obj, name, how):
    v = getattr(obj, name)
    return v() if how == "call" else v


def read_all(obj) -> dict:
    return {n: read(obj, n, how) for n, how in surface(type(obj))}


def annotation(cls, name, how):
    if how == "field":
        return cls.model_fields[name].annotation
    st = inspect.getattr_static(cls, name)
    f = st.fget if isinstance(st, property) else getattr(st, "func", st)
    f = getattr(f, "__wrapped__", f)
    try:
        return typing.get_type_hints(f).get("return", typing.Any)
    except Exception:
        return typing.Any


def _conform(v, a) -> bool:
    if v is None or a is typing.Any:
        return True
    o = typing.get_origin(a)
    if o in (typing.Union, types.UnionType):
        return any(_conform(v, x) for x in typing.get_args(a) if x is not type(None))
    if o is typing.Annotated:
        return _conform(v, typing.get_args(a)[0])
    if o is list:
        el = typing.get_args(a)
        return isinstance(v, list) and all(x is not None and _conform(x, el[0] if el else typing.Any) for x in v)
    if o is dict:
        return isinstance(v, dict)
    if o is typing.Literal:
        return v in typing.get_args(a)
    if not isinstance(a, type):
        return True
    if issubclass(a, enum.Enum):
        return isinstance(v, a) or (not isinstance(v, enum.Enum) and any(v == m.value for m in a))
    if a is bool:
        return isinstance(v, bool)
    if a is int:
        return isinstance(v, int) and not isinstance(v, bool)
    if a is float:
        return isinstance(v, (int, float)) and not isinstance(v, bool) and math.isfinite(v)
    if a in (str, datetime, TimeSlot):
        return isinstance(v, a)
    return isinstance(v, a)


@functools.lru_cache(None)
def _annotations(cls):
    return {n: annotation(cls, n, how) for n, how in surface(cls)}


def wrong_kind(obj, vals: dict):
    ann = _annotations(type(obj))
    return [(n, repr(v), str(ann[n])) for n, v in vals.items() if not _conform(v, ann[n])]


