"""W02: every argument in the domain of every ordinary command helper, module-level and on every model object, against an independent table."""
import os, sys
from datetime import datetime, time, timedelta
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop, plants, regs, helpers as H
from mc.report import Check, split
from mc.cl import client, Plant
from mc.helpers import MIN, ODD, NUM, call, commands, hm, integral, TimeSlot
from mc.plants import Spec
from givenergy_modbus.model.battery import BatteryPauseMode, ExportPriority
from givenergy_modbus.model import slot_map as SM
from givenergy_modbus.model.register_cache import RegisterCache
from givenergy_modbus.model.register import HR, IR

MAPS = {"single": SM.SINGLE_PHASE_SLOTS, "extended": SM.EXTENDED_SLOTS, "three": SM.THREE_PHASE_SLOTS, "ems": SM.EMS_SLOTS}
IDX = [-2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 100, 1.0, 2.0, 3.0, 1.5, 2.9, True, False, "1", None, float("nan"), float("inf"), 10**9]
EDGE = [time(0, 0), time(0, 1), time(0, 59), time(1, 0), time(12, 0), time(23, 0), time(23, 59)]
EDGES = [(a, b) for a in EDGE for b in EDGE]
TGT = lambda en, tgt, soc: lambda v: [(en, 1)] + ([(20, 0), (tgt, 100)] if v == 100 else [(20, 1), (tgt, v)])


def ranged(lo, hi, f):
    """Expected writes of a one-number helper."""
    def e(v):
        i = integral(v)
        return None if i is None or not lo <= i <= hi else (f(i) if callable(f) else [(f, i)])
    return e


# ---- one-number helpers: name -> (lo, hi, registers), by kind of model -----------------------
NUMERIC = {
    "set_charge_target_enabled": (4, 100, TGT(96, 116, 0)), "set_charge_target": (4, 100, TGT(96, 116, 0)), "set_charge_target_soc": (4, 100, 116),
    "set_battery_soc_reserve": (4, 100, 110), "set_shallow_charge": (4, 100, 110), "set_battery_reserve_soc": (4, 100, 1078),
    "set_battery_soc_reserve_3ph": (4, 100, 1109), "set_charge_target_enabled_3ph": (4, 100, TGT(1112, 1111, 0)), "set_charge_target_3ph": (4, 100, TGT(1112, 1111, 0)),
    "set_charge_target_soc_3ph": (4, 100, 1111), "set_battery_charge_limit": (0, 100, 111), "set_battery_discharge_limit": (0, 100, 112),
    "set_battery_power_reserve": (4, 100, 114), "set_active_power_rate": (0, 100, 50), "set_battery_charge_limit_ac": (1, 100, 313),
    "set_battery_discharge_limit_ac": (1, 100, 314), "set_ems_export_power_limit": (0, 65535, 2071),
}
BOOL = {"set_enable_charge": 96, "set_enable_discharge": 59, "set_enable_rtc": 166, "set_enable_eps": 317, "set_ac_charge": 1112, "set_force_charge": 1123,
        "set_force_discharge": 1122, "set_ems_plant": 2040}
NOARG = {"disable_charge_target": [(20, 0), (116, 100)], "disable_charge_target_3ph": [(20, 0), (1111, 100)], "set_inverter_reboot": [(163, 100)],
         "enable_charge": [(96, 1)], "disable_charge": [(96, 0)], "enable_discharge": [(59, 1)], "disable_discharge": [(59, 0)],
         "set_discharge_mode_max_power": [(27, 0)], "set_discharge_mode_to_match_demand": [(27, 1)], "set_mode_dynamic": [(27, 1), (110, 4), (59, 0)]}
IDXSOC = {"set_ems_charge_target_soc": (2055, 2058, 2061), "set_ems_discharge_target_soc": (2046, 2049, 2052), "set_ems_export_target_soc": (2064, 2067, 2070)}
PAIRS = {"set_smart_load_slot": [(554 + 2 * i, 555 + 2 * i) for i in range(10)], "set_export_slot": regs.SLOTS["ems"]["export"], "set_ems_export_slot": regs.SLOTS["ems"]["export"],
         "set_ems_charge_slot": regs.SLOTS["ems"]["charge"], "set_ems_discharge_slot": regs.SLOTS["ems"]["discharge"]}
# three-phase objects redirect these
M3_NUM = {"set_charge_target_enabled": (4, 100, TGT(1112, 1111, 0)), "set_charge_target": (4, 100, TGT(1112, 1111, 0)), "set_charge_target_soc": (4, 100, 1111),
          "set_battery_soc_reserve": (4, 100, 1109), "set_battery_reserve_soc": (4, 100, 1078)}
M3_BOOL = {"set_enable_charge": 1112, "set_ac_charge": 1112, "set_force_charge": 1123, "set_force_discharge": 1122}
M3_NOARG = {"disable_charge_target": [(20, 0), (1111, 100)], "set_mode_dynamic": [(27, 1), (1109, 4), (59, 0)]}
INV_NUM = ["set_charge_target_enabled", "set_charge_target", "set_charge_target_soc", "set_battery_soc_reserve", "set_battery_charge_limit", "set_battery_discharge_limit",
           "set_battery_power_reserve", "set_active_power_rate"]
INV_BOOL = ["set_enable_charge", "set_enable_discharge", "set_enable_rtc", "set_enable_eps"]
INV_NOARG = ["disable_charge_target", "set_inverter_reboot", "set_discharge_mode_max_power", "set_discharge_mode_to_match_demand", "set_mode_dynamic"]


class J:
    """Judge: compares what a helper emits with what the table says, encoding each distinct write once."""

    def __init__(self, t):
        self.t, self.seen = t, set()

    def __call__(self, where, fn, want, *a, **k):
        try:
            got = call(fn, *a, **k)
        except H.Odd as e:
            return self.t.violation("not-a-write", helper=where, args=repr((a, k)), error=str(e))
        self.t.add("transitions")
        w = None if want is None else sorted((r, v, False, 0x11) for r, v in want)
        g = None if got is None else sorted(got)
        self.t.outcome((where, g is None))
        if g != w:
            self.t.violation("helper", helper=where, args=repr((a, k))[:300], emitted=got, documented=want)
            return
        for r, v, i, d in g or ():
            if (r, v) not in self.seen:
                self.seen.add((r, v))
                if not H.encodes(r, v, False):
                    self.t.violation("encodes-wrong", helper=where, register=r, value=v)


def target(kind):
    """(where, object carrying the helpers) for a module or a model object."""
    if kind == "module":
        return commands
    s = Spec(kind, stacks=(1,) if kind in plants.HV else ())
    tab = plants.inverter_tables(s)
    cache = RegisterCache({**{HR(k): v for k, v in tab["HR"].items()}, **{IR(k): v for k, v in tab["IR"].items()}})
    p = Plant(capabilities=plants.caps(s), register_caches={0x11: cache})
    return p.ems if kind in plants.EMS else p.inverter


def tables_for(kind):
    if kind == "module":
        return NUMERIC, BOOL, NOARG, IDXSOC, PAIRS
    if kind in plants.EMS:
        return ({"set_ems_export_power_limit": NUMERIC["set_ems_export_power_limit"]}, {"set_ems_plant": 2040}, {}, IDXSOC,
                {k: v for k, v in PAIRS.items() if k != "set_smart_load_slot"})
    n = {k: NUMERIC[k] for k in INV_NUM}
    b = {k: BOOL[k] for k in INV_BOOL}
    z = {k: NOARG[k] for k in INV_NOARG}
    if kind in plants.THREE:
        n.update(M3_NUM), b.update(M3_BOOL), z.update(M3_NOARG)
    return n, b, z, {}, {}


def scalars(t, jobs):
    for kind, lo, hi, odd in jobs:
        o, j = target(kind), J(t)
        n, b, z, ix, _ = tables_for(kind)
        for name, (a, c, f) in n.items():
            fn, want = getattr(o, name), ranged(a, c, f)
            for v in range(lo, hi):
                j(f"{kind}.{name}", fn, want(v), v)
            if odd:
                for v in ODD + NUM + [x + 0.5 for x in range(-3, 105)] + [float(x) for x in range(-3, 105)]:
                    j(f"{kind}.{name}", fn, want(v), v)
            t.add("states")
        for name, regset in ix.items():
            fn = getattr(o, name)
            for i in IDX:
                k = integral(i)
                for v in list(range(max(lo, -200), min(hi, 400))) + (ODD + NUM if odd else []):
                    s = integral(v)
                    ok = k is not None and 1 <= k <= 3 and s is not None and 0 <= s <= 100
                    j(f"{kind}.{name}", fn, [(regset[k - 1], s)] if ok else None, i, v)
            t.add("states")
        if not odd:
            continue
        for name, r in b.items():
            for v in (True, False):
                j(f"{kind}.{name}", getattr(o, name), [(r, int(v))], v)
        for name, w in z.items():
            j(f"{kind}.{name}", getattr(o, name), w)
        if kind not in plants.EMS:
            fn = getattr(o, "set_calibrate_battery_soc")
            j(f"{kind}.set_calibrate_battery_soc", fn, [(29, 1)])
            for v in range(-1000, 70000):
                j(f"{kind}.set_calibrate_battery_soc", fn, [(29, v)] if v in (0, 1, 3) else None, v)
            for v in [x for x in ODD if x is not True and x is not False]:
                j(f"{kind}.set_calibrate_battery_soc", fn, None, v)
            fn = getattr(o, "set_export_priority")
            for v in list(ExportPriority) + list(range(-5, 70000)) + [True, False, None, "LOAD_FIRST", "1", 0.5, float("nan")]:
                ok = not isinstance(v, bool) and v in (0, 1, 2)
                j(f"{kind}.set_export_priority", fn, [(311, int(v))] if ok else None, v)
        if kind == "module":
            for v in BatteryPauseMode:
                j("set_battery_pause_mode", commands.set_battery_pause_mode, [(318, int(v))], v)


def slot_exp(pairs, i, s, e):
    k = integral(i)
    if k is None or not 1 <= k <= len(pairs):
        return None
    a, b = pairs[k - 1]
    return ([(a, hm(s))] if s != "-" else []) + ([(b, hm(e))] if e != "-" else [])


def slots(t, jobs):
    """Every slot helper, every index, every minute of the day for each endpoint."""
    for kind, part, quick in jobs:
        o, j = target(kind), J(t)
        fam = []  # (name, pairs, extra args)
        if kind == "module":
            for mname, m in MAPS.items():
                for d in ("charge", "discharge"):
                    fam.append((f"set_{d}_slot", regs.SLOTS[mname][d], (m,), f"reset_{d}_slot"))
            fam += [(k, v, (), None) for k, v in PAIRS.items()]
        elif kind in plants.EMS:
            fam += [(k, v, (), None) for k, v in PAIRS.items() if k != "set_smart_load_slot"]
        else:
            fam += [(f"set_{d}_slot", regs.SLOTS[regs.slot_kind(kind)][d], (), f"reset_{d}_slot") for d in ("charge", "discharge")]
        mins = MIN[part::4]
        for name, pairs, ex, reset in fam:
            st, en, both = getattr(o, name + "_start"), getattr(o, name + "_end"), getattr(o, name)
            tag = f"{kind}.{name}[{len(pairs)}]"
            for i in IDX:
                for x in [None] + (mins if integral(i) is not None and 1 <= i <= len(pairs) else mins[:3]):
                    j(tag + "_start", st, slot_exp(pairs, i, x, "-"), i, x, *ex)
                    j(tag + "_end", en, slot_exp(pairs, i, "-", x), i, x, *ex)
                    if x is not None:
                        y = MIN[(x.hour * 97 + x.minute * 61 + 7) % 1440]
                        for p, q in ((x, y), (x, x), (time(0, 0), x), (x, time(0, 0)), (x, time(23, 59))):
                            j(tag, both, slot_exp(pairs, i, p, q), i, TimeSlot(p, q), *ex)
                    else:
                        j(tag, both, slot_exp(pairs, i, None, None), i, None, *ex)
                        if reset:
                            j(f"{kind}.{reset}", getattr(o, reset), slot_exp(pairs, i, None, None), i, *ex)
            t.add("states")
        if kind == "module":
            for mname in MAPS:
                pr = regs.SLOTS[mname]
                for d in ("charge", "discharge"):
                    for n in (1, 2):
                        sf, rf = getattr(commands, f"set_{d}_slot_{n}"), getattr(commands, f"reset_{d}_slot_{n}")
                        for x, y in [(x, MIN[(x.hour * 61 + x.minute * 97 + 5) % 1440]) for x in mins] + EDGES:
                            j(f"set_{d}_slot_{n}", sf, slot_exp(pr[d], n, x, y), TimeSlot(x, y), MAPS[mname])
                            if mname == "single":
                                j(f"set_{d}_slot_{n}", sf, slot_exp(pr[d], n, x, y), TimeSlot(x, y))
                        j(f"reset_{d}_slot_{n}", rf, slot_exp(pr[d], n, None, None), MAPS[mname])
                        if mname == "single":
                            j(f"reset_{d}_slot_{n}", rf, slot_exp(pr[d], n, None, None))
            for x in [None] + mins:
                j("set_pause_slot_start", commands.set_pause_slot_start, [(319, hm(x))], x)
                j("set_pause_slot_end", commands.set_pause_slot_end, [(320, hm(x))], x)
                if x is None:
                    j("set_pause_slot", commands.set_pause_slot, [(319, 0), (320, 0)], None)
                else:
                    for y in (MIN[(x.hour * 61 + x.minute * 97 + 5) % 1440], time(0, 0), time(23, 59), x):
                        for a, b in ((x, y), (y, x)):
                            j("set_pause_slot", commands.set_pause_slot, [(319, hm(a)), (320, hm(b))], TimeSlot(a, b))
        # storage presets
        if kind not in plants.EMS:
            maps = MAPS.items() if kind == "module" else [(regs.slot_kind(kind), None)]
            for mname, m in maps:
                p = regs.SLOTS[mname]["discharge"]
                for a, b in EDGES:
                    for second in [None] + [TimeSlot(*e) for e in EDGES]:
                        w = [(27, 1), (59, 1)] + slot_exp(p, 1, a, b) + slot_exp(p, 2, second and second.start, second and second.end)
                        j(f"{kind}.set_mode_storage", o.set_mode_storage, w, TimeSlot(a, b), second, False, **({"slot_map": m} if m else {}))
                for n, x in enumerate(mins):
                    y, z, u = MIN[(n * 37 + 11) % 1440], MIN[(n * 53 + 3) % 1440], MIN[(n * 71 + 29) % 1440]
                    for second in (None, TimeSlot(z, u)):
                        for ex in (False, True):
                            w = [(27, 0 if ex else 1), (59, 1)] + slot_exp(p, 1, x, y) + slot_exp(p, 2, z if second else None, u if second else None)
                            j(f"{kind}.set_mode_storage", o.set_mode_storage, w, TimeSlot(x, y), second, ex, **({"slot_map": m} if m else {}))
                if kind == "module":
                    w = [(27, 1), (59, 1)] + slot_exp(p, 1, time(16), time(7)) + slot_exp(p, 2, None, None)
                    j("set_mode_storage()", o.set_mode_storage, w, slot_map=m)


def dates(t, jobs):
    for kind, lo, hi in jobs:
        o, j = target(kind), J(t)
        fn = o.set_system_date_time
        for n in range(lo, hi):
            if n < 36525:
                d = datetime(2000, 1, 1) + timedelta(days=n, seconds=(n * 7919) % 86400)
            else:
                d = datetime(2031, 12, 31) + timedelta(seconds=n - 36525)
            j(f"{kind}.set_system_date_time", fn, [(35, d.year - 2000), (36, d.month), (37, d.day), (38, d.hour), (39, d.minute), (40, d.second)], d)
        for d in (datetime(1999, 12, 31, 23, 59, 59), datetime(1, 1, 1), datetime(1970, 1, 1)):
            j(f"{kind}.set_system_date_time", fn, None, d)


def gates(t, jobs):
    """What a helper emits on a model object it is documented for passes that model's gate (dry run of the real command path)."""
    ts = TimeSlot(time(1, 30), time(4, 45))
    for m in jobs:
        o = target(m)
        s = Spec(m, stacks=(1,) if m in plants.HV else ())
        c = client(plant=Plant(capabilities=plants.caps(s)))
        n, b, z, ix, pr = tables_for(m)
        calls = [(k, (v,)) for k, (lo, hi, _) in n.items() for v in (lo, hi, max(lo, min(hi, 50)))] + [(k, (v,)) for k in b for v in (True, False)] + [(k, ()) for k in z]
        calls += [(k, (i, 7)) for k in ix for i in (1, 2, 3)]
        if m in plants.EMS:
            calls += [(k + e, (i, x)) for k in pr for i in (1, 2, 3) for e, x in (("", ts), ("", None), ("_start", ts.start), ("_end", None))]
        else:
            num = len(regs.SLOTS[regs.slot_kind(m)]["charge"])
            calls += [(f"set_{d}_slot" + e, (i, x)) for d in ("charge", "discharge") for i in range(1, num + 1) for e, x in (("", ts), ("_start", ts.start), ("_end", None))]
            calls += [(f"reset_{d}_slot", (i,)) for d in ("charge", "discharge") for i in range(1, num + 1)]
            calls += [("set_mode_storage", (ts, sl, e)) for sl in (None, ts) for e in (True, False)] + [("set_calibrate_battery_soc", (v,)) for v in (0, 1, 3)]
            calls += [("set_system_date_time", (datetime(2026, 2, 3, 4, 5, 6),))]
            if regs.AC <= regs.model_safe(m):
                calls += [("set_export_priority", (v,)) for v in ExportPriority]
            else:
                calls = [x for x in calls if x[0] != "set_enable_eps"]
        mod = {"ac": [("set_battery_charge_limit_ac", (50,)), ("set_battery_discharge_limit_ac", (1,)), ("set_export_priority", (1,)), ("set_enable_eps", (True,))] if regs.AC <= regs.model_safe(m) else []}["ac"]
        for obj, lst in ((o, calls), (commands, mod)):
            for k, a in lst:
                rs = getattr(obj, k)(*a)
                t.add("states"); t.add("transitions", len(rs))
                try:
                    vloop_res = vloop.run_sync(c.one_shot_command(rs, dry_run=True))
                except Exception as e:
                    t.violation("gate-refuses-helper", model=m, helper=k, args=repr(a), error=repr(e)[:300])
                for r in rs:
                    if r.register not in regs.model_safe(m):
                        t.violation("undocumented-register", model=m, helper=k, register=r.register)


def purity(t, jobs):
    """Helpers keep no state: the same call gives the same writes after any other call, and after the caller changed what it got."""
    for kind, firsts in jobs:
        o = target(kind)
        reps = representative(kind)
        base = {i: call(getattr(o, k), *a) for i, (k, a) in enumerate(reps)}
        for i in firsts:
            k, a = reps[i]
            for i2, (k2, a2) in enumerate(reps):
                r = getattr(o, k)(*a)
                for x in r:
                    x.value = 12345; x.register = 5004
                r.extend(r); del r[:1]
                t.add("transitions")
                if call(getattr(o, k2), *a2) != base[i2]:
                    t.violation("helper-keeps-state", first=(k, repr(a)), second=(k2, repr(a2)), alone=base[i2], after=call(getattr(o, k2), *a2))
                    return
        t.add("states", len(firsts))


def representative(kind):
    ts = TimeSlot(time(1, 30), time(4, 45))
    n, b, z, ix, pr = tables_for(kind)
    r = [(k, (v,)) for k, (lo, hi, _) in n.items() for v in (lo, hi)] + [(k, (True,)) for k in b] + [(k, ()) for k in z] + [(k, (1, 7)) for k in ix] + [(k, (1, ts)) for k in pr]
    if kind not in plants.EMS:
        x = (MAPS["extended"],) if kind == "module" else ()
        r += [(f"set_{d}_slot", (i, ts) + x) for d in ("charge", "discharge") for i in (1, 2)] + [("reset_charge_slot", (1,) + x), ("set_mode_storage", (ts,)), ("set_calibrate_battery_soc", ()),
              ("set_system_date_time", (datetime(2026, 2, 3),)), ("set_export_priority", (1,))]
    return r


def main():
    c = Check("W02", "model_checking")
    models = list(plants.MODELS)
    kinds = ["module"] + models
    R = c.pick((-300, 66000), (-70000, 140000))
    jobs = []
    for k in kinds:
        step = 20000 if k in ("module", "EMS", "EMS_COMMERCIAL") or not c.quick else 10**9
        lo, hi = R if k in ("module", "EMS", "EMS_COMMERCIAL") or not c.quick else (-300, 2000)
        jobs += [(k, x, min(hi, x + step), x == lo) for x in range(lo, hi, step)]
    c.run(scalars, [[j] for j in jobs])
    sk = kinds if not c.quick else ["module", "HYBRID_GEN1", "HYBRID_GEN3", "HYBRID_GEN3_OLD", "ALL_IN_ONE", "HYBRID_3PH", "AIO_COMMERCIAL", "EMS", "HYBRID_HV_GEN3", "HYBRID_GEN4", "ALL_IN_ONE_HYBRID", "GATEWAY"]
    c.run(slots, [[(k, p, c.quick)] for k in sk for p in range(4)])
    c.run(dates, [[(k, x, x + 12000)] for k in ["module"] + (["HYBRID_GEN2", "AC_3PH"] if c.quick else [m for m in models if m not in plants.EMS]) for x in range(0, 36525 + 86400, 12000)])
    c.run(gates, [[m] for m in models])
    c.run(purity, [[(k, part)] for k in kinds for part in split(range(len(representative(k))), 4)])
    c.assumptions = ["The table of helpers, ranges and registers in checks/W02.py is transcribed from the documentation of each helper.",
                     "AC-config helpers (HR 311/313/314/317) are documented for AC-coupled and all-in-one models; on other inverters the gate refuses them. Pause and smart-load helpers are not offered by any model object.",
                     "Slot times are whole minutes; battery pause mode arguments are its four modes."]
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("transitions", 0)})


if __name__ == "__main__":
    main()
