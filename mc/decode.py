"""Independent decoder for device attributes, driven by the pinned register map (mc/regspec.json).

regspec.json is a transcription of which registers each attribute reads, its scaling and its
declared physical range; the conversions below are written from the register documentation.
Nothing here calls into givenergy_modbus.
"""
from __future__ import annotations

import json
import math
import os
from datetime import datetime, time
from fractions import Fraction

from . import env

SPEC = json.load(open(os.path.join(env.VERIF, "mc", "regspec.json")))
BITS = {k: {int(b): n for b, n in v.items()} for k, v in SPEC["bits"].items()}
ENUMS = SPEC["enums"]
FAMILIES = "2345678"
VOLT = {0: 230, 1: 208, 2: 240}
FREQ = {0: 50, 1: 60}


def _regs(s: str):
    return tuple((x[:2], int(x[2:])) for x in s.split())


MODELS = {m: {a: (d[0], d[1], _regs(d[2]), d[3], d[4]) for a, d in at.items()} for m, at in SPEC["models"].items()}


def registers(model: str) -> tuple:
    return tuple(sorted({r for d in MODELS[model].values() for r in d[2]}))


class Slot(tuple):
    """(start, end) as datetime.time values."""


def s16(v):
    return v - 0x10000 if v & 0x8000 else v


def text(vals):
    return "".join(chr(v >> 8) + chr(v & 0xFF) for v in vals).replace("\0", "").upper()


def _hm(v):
    h, m = divmod(v, 100)
    return time(h, m) if h < 24 and m < 60 else None


def _name(c):
    return c[0] if isinstance(c, list) else c


def _pre(c, vals):
    n, args = (c[0], c[1:]) if isinstance(c, list) else (c, [])
    v = vals[0]
    if n in ("uint16", "hex"):
        return v if n == "uint16" else format(v, "04x")
    if n == "int16":
        return s16(v)
    if n == "deci":
        return Fraction(v, 10)
    if n == "centi":
        return Fraction(v, 100)
    if n == "milli":
        return Fraction(v, 1000)
    if n == "pf":
        return Fraction(v - 10000, 10000)
    if n == "pf_signed":
        return Fraction(s16(v), 10000)
    if n == "bool":
        return v != 0
    if n == "duint8":
        return v >> 8 if args[0] == 0 else v & 0xFF
    if n == "uint32":
        return vals[0] * 65536 + vals[1]
    if n == "int32":
        x = vals[0] * 65536 + vals[1]
        return x - (1 << 32) if x >= 1 << 31 else x
    if n == "bitfield":
        lo, hi = args
        return (v >> (15 - hi)) & ((1 << (hi - lo + 1)) - 1)
    if n in ("serial", "string"):
        return text(vals)
    if n == "firmware_version":
        return f"D0.{vals[0]}-A0.{vals[1]}"
    if n == "gateway_version":
        p = "".join(chr(x >> 8) + chr(x & 0xFF) for x in vals[:2]).replace("\0", "")
        return p + "".join(f"{x >> 8}{x & 0xFF}" for x in vals[2:])
    if n == "timeslot":
        a, b = _hm(vals[0]), _hm(vals[1])
        return None if a is None or b is None else Slot((a, b))
    if n == "datetime":
        try:
            return datetime(2000 + vals[0], *vals[1:])
        except ValueError:
            return None
    if n == "nominal_voltage":
        return VOLT.get(v)
    if n == "nominal_frequency":
        return FREQ.get(v)
    if n == "_inverter_fault_code2":
        return faults(f"{n}:{args[0]}", v)
    raise KeyError(n)


def faults(table, v):
    return {name for b, name in BITS[table].items() if v >> b & 1}


LENIENT = {"_charge_status_from": "ChargeStatus", "_bcu_status_from": "BcuStatus", "_ems_inverter_suspected_status": "EmsInverterStatus"}


def _post(c, x):
    n, args = (c[0], c[1:]) if isinstance(c, list) else (c, [])
    if n in LENIENT:
        n = "enum:" + LENIENT[n]
    if n == "enum:Model":
        return x[0] if x[0] in FAMILIES else None
    if n.startswith("enum:"):
        e = ENUMS[n[5:]]
        return x if x in e["values"] else e["missing"]
    if n == "deci":
        return Fraction(x) / 10
    if n == "centi":
        return Fraction(x) / 100
    if n == "milli":
        return Fraction(x) / 1000
    if n == "negate":
        return -x
    if n == "bool":
        return x != 0
    if n == "hex":
        return format(x, f"0{args[0]}x")
    if n == "fstr":
        return ("fmt", args[0], x)
    if n in BITS:
        return faults(n, x)
    raise KeyError(n)


def value(d, get):
    """The decoded value of one definition; None when any register is missing or the reading is out of range."""
    pre, post, regs, lo, hi = d
    vals = [get(r) for r in regs]
    if any(v is None for v in vals):
        return None
    x = _pre(pre, vals)
    if post is not None and x is not None:
        x = _post(post, x)
    if x is not None and (lo is not None or hi is not None) and any(vals):
        if (lo is not None and x < Fraction(lo)) or (hi is not None and x > Fraction(hi)):
            return None
    return x


def attrs(model, regs: dict) -> dict:
    g = regs.get
    return {a: value(d, g) for a, d in MODELS[model].items()}


def same(exp, got) -> bool:
    """Whether a library value equals the expected one."""
    if exp is None or got is None:
        return exp is None and got is None
    if isinstance(exp, Slot):
        return (getattr(got, "start", None), getattr(got, "end", None)) == tuple(exp)
    if isinstance(exp, set):
        return isinstance(got, list) and len(got) == len(set(got)) and set(got) == exp
    if isinstance(exp, tuple) and exp and exp[0] == "fmt":
        return isinstance(got, str) and len(got.split(".")[-1]) == 2 and Fraction(got) == exp[2]
    got = getattr(got, "value", got) if not isinstance(got, (int, float)) else got
    if isinstance(exp, bool) or isinstance(got, bool):
        return isinstance(exp, bool) and isinstance(got, bool) and exp == got
    if isinstance(exp, (int, Fraction)):
        return isinstance(got, (int, float)) and math.isfinite(got) and abs(Fraction(got) - exp) <= Fraction(1, 10**7)
    return exp == got


# --- model identity and what depends on it -------------------------------------------------------

PREFIX = {"21": "POLAR", "41": "AIO_COMMERCIAL", "51": "EMS_COMMERCIAL", "81": "HYBRID_HV_GEN3", "82": "ALL_IN_ONE_HYBRID", "83": "HYBRID_GEN4"}
FAMILY = {"2": "HYBRID", "3": "AC", "4": "HYBRID_3PH", "5": "EMS", "6": "AC_3PH", "7": "GATEWAY", "8": "ALL_IN_ONE"}


def specific_model(dtc: int, fw: int) -> str | None:
    h = format(dtc, "04x")
    if h[:2] == "20":
        return {3: "HYBRID_GEN3", 8: "HYBRID_GEN2", 9: "HYBRID_GEN2"}.get(fw // 100, "HYBRID_GEN1")
    return PREFIX.get(h[:2]) or FAMILY.get(h[0])


def _sub(*xs):
    return None if any(x is None for x in xs) else xs


ALT_TODAY = {"HYBRID_GEN1": "alt2", "HYBRID_GEN2": "alt1", "AC": "alt1", "ALL_IN_ONE": "alt1"}
ALT_TOTAL = {"HYBRID_GEN1": "alt1"}
EXT = {"HYBRID_GEN4", "ALL_IN_ONE", "ALL_IN_ONE_HYBRID", "HYBRID_HV_GEN3"}


def _power_split(out, p_grid, p_batt):
    out["grid_import_power"] = None if p_grid is None else max(0, -p_grid)
    out["grid_export_power"] = None if p_grid is None else max(0, p_grid)
    out["battery_charge_power"] = None if p_batt is None else max(0, -p_batt)
    out["battery_discharge_power"] = None if p_batt is None else max(0, p_batt)


def _common_inverter(out):
    dtc, fw = out["device_type_code"], out["arm_firmware_version"]
    fam = out["model"]
    v = {"8": Fraction(307), "4": Fraction("76.8"), "6": Fraction("76.8")}.get(fam, Fraction("51.2"))
    cap = out["battery_capacity_ah"]
    out["battery_capacity_kwh"] = None if cap is None or fam is None else cap * v / 1000
    out["inverter_max_power"] = SPEC["rated"].get(dtc)
    if dtc is None or fw is None:
        out["battery_max_power"] = None
    elif dtc[:2] == "20":
        out["battery_max_power"] = 3600 if fw // 100 in (3, 8, 9) else 2600
    else:
        out["battery_max_power"] = SPEC["batpower"].get(dtc)
    out["is_ac_coupled"] = fam in ("3", "6")
    out["enable_standard_self_consumption_logic"] = out["enable_inverter_parallel_mode"]
    out["work_time_total"] = out["work_time_total_hours"]
    a, b = out["p_pv1"], out["p_pv2"]
    out["p_pv"] = None if a is None or b is None else a + b
    return dtc, fw


def single(regs: dict) -> dict:
    out = attrs("inverter", regs)
    dtc, fw = _common_inverter(out)
    m = None if dtc is None or fw is None else specific_model(int(dtc, 16), fw)
    out["e_inverter_out_today"] = out["e_inverter_out_total"] = None
    if m in ("AC", "ALL_IN_ONE"):
        for k in ("today", "total"):
            out["e_inverter_out_" + k], out["e_pv_generation_" + k] = out["e_pv_generation_" + k], None
        for k in ("v_pv1", "v_pv2", "i_pv1", "i_pv2"):
            out[k] = None
    for k, tab in (("today", ALT_TODAY), ("total", ALT_TOTAL)):
        for d in ("charge", "discharge"):
            out[f"e_battery_{d}_{k}"] = out[f"e_battery_{d}_{k}_{tab[m]}"] if m in tab else None
    _power_split(out, out["p_grid_out"], out["p_battery"])
    pv, gi, go, ac = out["e_pv_generation_today"], out["e_grid_in_day"], out["e_grid_out_day"], out["e_ac_charge_today"]
    out["e_consumption_today"] = pv + gi - go - ac if _sub(pv, gi, go, ac) else None
    out["e_self_consumption_today"] = max(Fraction(0), pv - go) if _sub(pv, go) else None
    pt, gt = out["e_pv_generation_total"], out["e_grid_out_total"]
    out["e_self_consumption_total"] = max(Fraction(0), pt - gt) if _sub(pt, gt) else None
    bc = out["e_battery_charge_today"]
    out["e_pv_direct_today"] = max(Fraction(0), pv - go - max(Fraction(0), bc - ac)) if _sub(pv, go, bc, ac) else None
    a, b = out["e_pv1_day"], out["e_pv2_day"]
    out["e_pv_day"] = None if a is None or b is None else a + b
    f, w = out["inverter_fault_code"], out["inverter_warning_code"]
    out["fault_code"] = None if f is None or w is None else f + w
    out["e_inverter_out_day"] = out["e_inverter_out_today"] if out["e_inverter_out_today"] is not None else out["e_pv_generation_today"]
    for i, s in enumerate(("trip", "reconnect", "grid"), 1):
        for q in ("v_ac_low_limit", "v_ac_high_limit", "f_ac_low_limit", "f_ac_high_limit"):
            out[f"{q}_{i}"] = out[f"{q}_{s}"]
        if i < 3:
            for q in ("t_ac_low_voltage", "t_ac_high_voltage", "t_ac_low_freq", "t_ac_high_freq"):
                out[f"{q}_{i}"] = out[f"{q}_{s}"]
    ext = m in EXT or (m == "HYBRID_GEN3" and fw > 302)
    out["slot_map"] = ("slots", ext)
    return out


def threephase(regs: dict) -> dict:
    out = attrs("threephase", regs)
    _common_inverter(out)
    c, d = out["p_battery_charge"], out["p_battery_discharge"]
    out["battery_charge_power"], out["battery_discharge_power"] = c, d
    out["p_battery"] = None if c is None or d is None else d - c
    c, d = out["e_battery_charge_total"], out["e_battery_discharge_total"]
    out["e_battery_throughput"] = None if c is None or d is None else c + d
    out["grid_import_power"], out["grid_export_power"] = out["p_meter_import"], out["p_meter_export"]
    out["e_inverter_out_day"] = out["e_pv_day"] = out["e_pv_today"]
    out["battery_power_cutoff"] = out["battery_reserve_soc"]
    for i, s in enumerate(("trip", "reconnect", "grid"), 1):
        for q in ("v_grid_low_limit", "v_grid_high_limit", "f_grid_low_limit", "f_grid_high_limit"):
            out[f"{q}_{i}"] = out[f"{q}_{s}"]
        if i < 3:
            for q in ("low_voltage", "high_voltage", "low_freq", "high_freq"):
                out[f"time_grid_{q}_limit_{i}"] = out[f"time_grid_{q}_limit_{s}"]
    out["slot_map"] = ("slots", "3ph")
    return out


def battery(regs: dict) -> dict:
    out = attrs("battery", regs)
    cap, n, v = out["cap_remaining"], out["num_cells"], out["v_out"]
    nv = n * Fraction("3.2") if n else v
    out["remaining_energy_nominal_wh"] = None if cap is None or nv is None else ("round", cap * nv)
    out["remaining_energy_measured_wh"] = None if cap is None or v is None else ("round", cap * v)
    out["is_valid"] = valid_serial(out["serial_number"])
    return out


def ems(regs: dict) -> dict:
    out = attrs("ems", regs)
    raw = regs.get(("HR", 2040))
    out["plant_enabled"] = None if raw is None else raw != 0
    out["is_valid"] = out["ems_status"] is not None
    rows = []
    for n in range(1, 5):
        ser = out[f"inverter_{n}_serial_number"]
        ser = ser.strip("\0 ") if ser else ser
        if ser:
            rows.append((ser, out[f"inverter_{n}_status"], out[f"inverter_{n}_power"], out[f"inverter_{n}_soc"], out[f"inverter_{n}_temp"]))
    out["managed_inverters"] = ("managed", rows)
    return out


ALNUM = set("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")


def valid_serial(s) -> bool:
    return s is not None and len(s) == 10 and set(s) <= ALNUM


def bcu(regs: dict) -> dict:
    out = attrs("bcu", regs)
    v = out["pack_software_version"]
    out["is_valid"] = v is not None and set(v) != {"0"}
    out["cluster_cell_voltage"], out["cluster_cell_temperature"] = out["total_cell_count"], out["total_temperature_sensor_count"]
    return out


def module(model, extra):
    def f(regs):
        out = attrs(model, regs)
        out.update(extra)
        s = out["serial_number"]
        # a serial of blanks shorter than the field is neither clearly a serial nor clearly blank: left open
        out["is_valid"] = ANY if s is not None and s and not s.strip() and len(s) != 10 else s not in (None, "", " " * 10)
        return out
    return f


def lvbcu(regs: dict) -> dict:
    out = attrs("lvbcu", regs)
    out["is_valid"] = any(out[f] not in (None, 0) for f in ("bms_status_1", "bms_status_2", "request_charge_current", "request_discharge_current"))
    return out


def meter(regs: dict) -> dict:
    out = attrs("meter", regs)
    out["is_valid"] = out["v_phase_1"] not in (None, 0)
    return out


def meterproduct(regs: dict) -> dict:
    out = attrs("meterproduct", regs)
    s = out["serial_number"]
    out["is_valid"] = ANY if s and not s.isascii() else bool(s) and set(s) <= ALNUM
    return out


def gateway(model):
    def f(regs):
        out = attrs(model, regs)
        out["is_valid"] = out["software_version"] is not None
        return out
    return f


ANY = ("any",)


DECODE = {"inverter": single, "threephase": threephase, "battery": battery, "ems": ems, "bcu": bcu, "bmu": module("bmu", {"bmu_index": 0}),
          "aio": module("aio", {"module_address": 0x50}), "lvbcu": lvbcu, "meter": meter, "meterproduct": meterproduct,
          "gateway1": gateway("gateway1"), "gateway2": gateway("gateway2"), "gateway": gateway("gateway1")}

SLOTS = {False: (((94, 95), (31, 32)), ((56, 57), (44, 45))),
         True: (((94, 95), (31, 32)) + tuple((246 + 3 * k, 247 + 3 * k) for k in range(8)),
                ((56, 57), (44, 45)) + tuple((276 + 3 * k, 277 + 3 * k) for k in range(8))),
         "3ph": (((1113, 1114), (1115, 1116)) + tuple((246 + 3 * k, 247 + 3 * k) for k in range(8)),
                 ((1118, 1119), (1120, 1121)) + tuple((276 + 3 * k, 277 + 3 * k) for k in range(8)))}


def agrees(exp, got) -> bool:
    if exp is ANY:
        return True
    if isinstance(exp, tuple) and exp and exp[0] == "managed":
        return len(got) == len(exp[1]) and all(
            same(a, getattr(g, n)) for row, g in zip(exp[1], got)
            for a, n in zip(row, ("serial_number", "status", "p_inverter_out", "battery_soc", "t_inverter_heatsink")))
    if isinstance(exp, tuple) and exp and exp[0] == "slots":
        s = SLOTS[exp[1]]
        return tuple(map(tuple, got.charge_slots)) == s[0] and tuple(map(tuple, got.discharge_slots)) == s[1]
    if isinstance(exp, tuple) and exp and exp[0] == "round":
        return isinstance(got, int) and abs(Fraction(got) - exp[1]) <= Fraction(1, 2) + Fraction(1, 10**6)
    return same(exp, got)
