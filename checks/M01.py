"""M01: reading anything never raises, whatever the registers hold, and yields a value of the declared kind or None.

Explicit enumeration of register contents for every device model (every value everywhere, every
register changed/missing alone, every readable window, device-type sweep) and of whole plants
(every topology x every corruption of each device's registers); at each state every public
reading, every dump format and every topology accessor of the real code is read.
"""
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mc import env, fills, models, plants, ps, report  # noqa: E402,F401
from mc.plants import Spec  # noqa: E402
from givenergy_modbus.model.battery import Battery  # noqa: E402
from givenergy_modbus.model.devices import Inverter, PlantDevice  # noqa: E402
from givenergy_modbus.model.plant import Plant  # noqa: E402
from givenergy_modbus.model.register_cache import RegisterCache  # noqa: E402

NAMES = list(models.MODELS)
FACADE = ("serial_number", "is_blinded", "status", "p_inverter_out", "battery_soc", "t_inverter_heatsink", "batteries", "hv_stacks", "battery_modules", "direct", "summary")
PLANT_PROPS = ("inverter", "inverter_serial", "number_batteries", "batteries", "remaining_battery_energy_wh", "hv_stacks", "aio_battery_modules", "lv_bcu", "meters", "ems", "serial_index",
               "inverters", "gateway", "devices", "last_updated_at")


def dumps(t, obj, model, what):
    for name, f in (("model_dump", obj.model_dump), ("model_dump json mode", lambda: json.dumps(obj.model_dump(mode="json"))), ("model_dump_json", obj.model_dump_json),
                    ("repr", lambda: repr(obj)), ("str", lambda: str(obj))):
        try:
            f()
        except Exception as e:
            t.violation(f"{model}:{name}", what=what, error=repr(e)[:300])


def probe(t, model, regs, what, dump=False):
    t.add("states")
    if t.full:
        return
    try:
        obj = models.MODELS[model](models.cache(regs))
    except Exception as e:
        t.violation(f"{model}:build", what=what, error=repr(e)[:300])
        return
    vals = {}
    for n, how in models.surface(type(obj)):
        try:
            vals[n] = models.read(obj, n, how)
        except Exception as e:
            t.violation(f"{model}.{n}:raises", what=what, error=repr(e)[:300])
    for n, v, a in models.wrong_kind(obj, vals):
        t.violation(f"{model}.{n}:kind", what=what, value=v, declared=a)
    t.add("values", len(vals))
    if dump:
        dumps(t, obj, model, what)


def sweep_uniform(t, shard, vals, every):
    model, part, of = shard
    for i, v in enumerate(vals[part::of]):
        probe(t, model, fills.uniform(model, v), ("uniform", v), dump=i % every == 0)
        if ("HR", 0) in fills.regs(model):
            probe(t, model, fills.identity(fills.uniform(model, v), 0x2001, 449), ("uniform, known type", v), dump=i % every == 0)
        if t.full:
            return


def sweep_stripes(t, shard, corners):
    model, part, of = shard
    for a, b in list(itertools.product(corners, repeat=2))[part::of]:
        if a != b:
            probe(t, model, fills.striped(model, a, b), ("striped", a, b))


def sweep_single(t, shard, vals):
    model, part, of = shard
    rr = fills.regs(model)[part::of]
    for name, base in fills.bases(model):
        for r in rr:
            for v in (None, *vals):
                if base.get(r) != v:
                    probe(t, model, fills.changed(base, r, v), (name, r, v))
        if t.full:
            return


def sweep_windows(t, shard, lengths):
    """Only one contiguous window of registers known, as after a short or first read; or known but null, as after a load."""
    model, part, of = shard
    rr = fills.regs(model)
    base = fills.identity(fills.pattern(model, 31, 4099, 3), 0x2001, 449)
    for i in range(part, len(rr), of):
        for ln in lengths:
            w = rr[i:i + ln]
            probe(t, model, {r: base[r] for r in w}, ("only", w[0], len(w)))
            probe(t, model, {r: v for r, v in base.items() if r not in set(w)}, ("all but", w[0], len(w)))
            probe(t, model, {r: (None if r in set(w) else v) for r, v in base.items()}, ("null", w[0], len(w)))
        if t.full:
            return


def sweep_identity(t, shard, lows, fws):
    small = {r: v for r, v in fills.pattern("inverter", 31, 4099, 3).items() if r in {("HR", 55), *fills.SMALL_IDENTITY}}
    small3 = {r: v for r, v in fills.pattern("threephase", 31, 4099, 3).items() if r in {("HR", 55), *fills.SMALL_IDENTITY}}
    for hi in shard:
        for lo in lows:
            for fw in fws:
                probe(t, "inverter", fills.identity({**small, ("HR", 0): 0, ("HR", 21): 0}, hi << 8 | lo, fw), ("dtc", hi << 8 | lo, fw), dump=lo < 2 and fw in (449, None))
                if lo < 2:
                    probe(t, "threephase", fills.identity({**small3, ("HR", 0): 0, ("HR", 21): 0}, hi << 8 | lo, fw), ("dtc3", hi << 8 | lo, fw), dump=lo < 1)


def sweep_clock(t, shard):
    part, of, model = shard
    for i, c in enumerate(fills.clock()):
        if i % of == part:
            probe(t, model, {("HR", 35 + k): v for k, v in enumerate(c)}, ("clock", c), dump=i % 37 == 0)


# --- whole plants ---------------------------------------------------------------------------------
def topologies(level):
    out = [(n, s) for n, s in plants.SPECS.items()]
    out += [("none", Spec("HYBRID_GEN1")), ("six", Spec("HYBRID_GEN1", batts=tuple(range(0x32, 0x38)), meters=tuple(range(1, 9)), bcu=True)),
            ("polar", Spec("POLAR", batts=(0x34,))), ("aio_com", Spec("AIO_COMMERCIAL", batts=(0x32,))), ("emsc", Spec("EMS_COMMERCIAL", managed=4, meters=(8,))),
            ("ac3", Spec("AC_3PH", stacks=(0, 2))), ("hvg3", Spec("HYBRID_HV_GEN3", stacks=(3,))), ("aioh", Spec("ALL_IN_ONE_HYBRID", stacks=(1,))),
            ("gen4", Spec("HYBRID_GEN4", batts=(0x32,))), ("aio0", Spec("ALL_IN_ONE", stacks=(1,)))]
    return out


def caches_of(spec):
    return {d: {(k, r): v for k, tab in kinds.items() for r, v in tab.items()} for d, kinds in plants.banks(spec).items()}


DAMAGE = ("as is", "gone", "empty", "zero", "ones", "half", "texty", "signs", "nulls", "first register only", "no identity")


def damaged(regs, how):
    if how == "as is":
        return regs
    if how == "gone":
        return None
    if how == "empty":
        return {}
    if how == "zero":
        return dict.fromkeys(regs, 0)
    if how == "ones":
        return dict.fromkeys(regs, 0xFFFF)
    if how == "half":
        return {r: v for i, (r, v) in enumerate(sorted(regs.items())) if i % 2}
    if how == "texty":
        return {r: (0x4100 | v & 0xFF) for r, v in regs.items()}
    if how == "signs":
        return {r: (0x8000 if r[1] % 2 else 0x7FFF) for r in regs}
    if how == "nulls":
        return dict.fromkeys(regs)
    if how == "first register only":
        return dict([min(regs.items())])
    if how == "no identity":
        return {r: v for r, v in regs.items() if r not in {("HR", 0), ("HR", 21)} and not (r[0] == "HR" and 8 <= r[1] < 18)}
    raise KeyError(how)


EXPECT = {"inverter_serial": str, "number_batteries": int, "batteries": list, "hv_stacks": list, "aio_battery_modules": list, "meters": dict, "serial_index": dict, "inverters": list, "devices": list}


def read_plant(t, p, what):
    t.add("states")
    if t.full:
        return
    got = {}
    for n in PLANT_PROPS:
        try:
            got[n] = getattr(p, n)
        except Exception as e:
            t.violation(f"plant.{n}:raises", what=what, error=repr(e)[:300])
            continue
        t.add("values")
        if n in EXPECT and not isinstance(got[n], EXPECT[n]):
            t.violation(f"plant.{n}:kind", what=what, value=repr(got[n])[:200])
    e = got.get("remaining_battery_energy_wh")
    if e is not None and type(e) is not int:
        t.violation("plant.remaining_battery_energy_wh:kind", what=what, value=repr(e))
    for inv in got.get("inverters") or []:
        facade(t, inv, what)
    for d in got.get("devices") or []:
        if not isinstance(d, PlantDevice) or not isinstance(d.identity, str) or type(d.is_valid) is not bool or not isinstance(d.firmware_version, (str, type(None))) \
                or not isinstance(d.serial_number, (str, type(None))) or not isinstance(d.parent, (str, type(None))):
            t.violation("plant.devices:kind", what=what, row=repr(d)[:400])
    for s in got.get("hv_stacks") or []:
        for o in [s.bcu, *s.bmus]:
            objread(t, o, what)
    for b in [*(got.get("batteries") or []), *(got.get("aio_battery_modules") or []), *(got.get("meters") or {}).values(), got.get("inverter"), got.get("ems"), got.get("gateway"), got.get("lv_bcu")]:
        if b is not None:
            objread(t, b, what)


def objread(t, o, what):
    for n, how in models.surface(type(o)):
        try:
            models.read(o, n, how)
        except Exception as e:
            t.violation(f"{type(o).__name__}.{n}:raises in a plant", what=what, error=repr(e)[:300])
    t.add("values", 1)


def facade(t, inv, what):
    if not isinstance(inv, Inverter):
        t.violation("plant.inverters:kind", what=what, value=repr(inv)[:200])
        return
    for n in FACADE:
        try:
            v = getattr(inv, n)
        except Exception as e:
            t.violation(f"Inverter.{n}:raises", what=what, error=repr(e)[:300])
            continue
        ok = {"serial_number": (str,), "is_blinded": (bool,), "battery_soc": (int, type(None)), "batteries": (list,), "hv_stacks": (list,), "battery_modules": (list,)}.get(n)
        if ok and not isinstance(v, ok):
            t.violation(f"Inverter.{n}:kind", what=what, value=repr(v)[:200])
    try:
        repr(inv)
    except Exception as e:
        t.violation("Inverter:repr", what=what, error=repr(e)[:300])


def make(caches, caps=None, **kw):
    return Plant(inverter_serial_number="SA1234G567", data_adapter_serial_number="WF1234G567", capabilities=caps,
                 register_caches={d: models.cache(r) for d, r in caches.items() if r is not None}, **kw)


def plant_sweep(t, shard, pairs):
    """Every topology x damage of every one device (and of every pair of devices)."""
    name, spec = shard
    caps, good = plants.caps(spec), caches_of(spec)
    devs = sorted(good)
    combos = [((d, h),) for d in devs for h in DAMAGE] + [tuple((d, h) for d in devs) for h in DAMAGE]
    if pairs:
        combos += [((a, ha), (b, hb)) for a, b in itertools.combinations(devs[:6], 2) for ha in DAMAGE[1:] for hb in DAMAGE[1:]]
    for cb in combos:
        c = dict(good)
        for d, h in cb:
            c[d] = damaged(good[d], h)
        for mode in ("topology", "none"):
            read_plant(t, make(c, caps if mode == "topology" else None), (name, cb, mode))
        if t.full:
            return


def mismatch(t, shard):
    """A topology restored onto a plant whose registers say something else."""
    for na, a in topologies("small"):
        for nb, b in [shard]:
            read_plant(t, make(caches_of(b), plants.caps(a)), ("topology of", na, "registers of", nb))


def direct_sources(t, shard):
    """EMS plants given directly read inverters: every device type code family, garbage, missing words."""
    dtcs = shard
    for managed in (0, 1, 2, 4):
        spec = Spec("EMS", managed=managed, meters=(1,))
        ems = caches_of(spec)
        for dtc in dtcs:
            for fw in (None, 0, 449, 0xFFFF):
                for ser in ("match", "other", "blank", "none"):
                    src = caches_of(Spec("HYBRID_GEN2"))[0x11]
                    src[("HR", 0)] = dtc
                    src[("HR", 21)] = fw
                    if fw is None:
                        del src[("HR", 21)]
                    if dtc is None:
                        del src[("HR", 0)]
                    for i in range(5):
                        r = ("HR", 13 + i)
                        if ser == "match" and managed:
                            src[r] = ems[0x11][("IR", 2066 + i)]
                        elif ser == "blank":
                            src[r] = 0
                        elif ser == "none":
                            src.pop(r, None)
                    p = make(ems, plants.caps(spec))
                    try:
                        p.add_direct_source({0x11: models.cache(src), 0x32: models.cache({}), 0x33: models.cache(src)})
                    except Exception as e:
                        t.violation("add_direct_source", error=repr(e)[:300], dtc=dtc)
                        continue
                    read_plant(t, p, ("direct source", managed, dtc, fw, ser))


def bare(t, shard):
    """Plants that have seen nothing, or only some devices, with no topology."""
    for subset in itertools.chain.from_iterable(itertools.combinations((0x01, 0x11, 0x31, 0x32, 0x33, 0x35, 0x50, 0x70, 0xA0), k) for k in range(10)):
        good = {**caches_of(plants.SPECS["hybrid2"]), **caches_of(plants.SPECS["gen3"]), **{d: r for d, r in caches_of(plants.SPECS["hv3ph"]).items() if d != 0x11}}
        good[0x35] = {r: 7 for r in good[0x32]}
        for how in ("as is", "empty", "zero", "ones"):
            read_plant(t, make({d: damaged(good[d], how) for d in subset if d in good}), ("bare", subset, how))
    p = Plant()
    before = {d: dict(c) for d, c in p.register_caches.items()}
    read_plant(t, p, ("new",))
    # reading is not allowed to invent registers
    if {d: dict(c) for d, c in p.register_caches.items()} != before:
        t.violation("reading-changes-plant", after=repr(p.register_caches)[:300])


def main():
    c = report.Check("M01", "model_checking")
    vals = c.pick(sorted(set(fills.edges()) | set(range(0, 65536, 97))), list(range(65536)))
    n = lambda m, big, small: big if m in fills.BIG else small  # noqa: E731
    c.run(sweep_uniform, [(m, i, n(m, 16, 4)) for m in NAMES for i in range(n(m, 16, 4))], vals=vals, every=c.pick(10, 16))
    c.run(sweep_stripes, [(m, i, n(m, 8, 1)) for m in NAMES for i in range(n(m, 8, 1))], corners=c.pick(fills.CORNERS, fills.edges()[::2]))
    c.run(sweep_single, [(m, i, n(m, 24, 2)) for m in NAMES for i in range(n(m, 24, 2))], vals=c.pick((0xFFFF,), (0, 1, 60, 0x7FFF, 0x8000, 0xFFFF, 2359, 1234)))
    c.run(sweep_windows, [(m, i, n(m, 16, 2)) for m in NAMES for i in range(n(m, 16, 2))], lengths=c.pick((1, 6), (1, 2, 3, 5, 6, 12, 24, 60)))
    lows = c.pick((0, 1, 2, 3, 0xFF), tuple(range(256)))
    c.run(sweep_identity, report.split(list(range(256)), 64), lows=lows, fws=c.pick((0, 303, 449, 912, 65535, None), fills.FW))
    c.run(sweep_clock, [(i, 8, m) for i in range(8) for m in c.pick(("inverter",), fills.BIG)])
    tops = topologies("small")
    c.run(plant_sweep, tops, pairs=not c.quick)
    c.run(mismatch, tops)
    dt = [None, 0, 1, 0x1234, 0x2001, 0x2101, 0x3001, 0x4001, 0x4101, 0x5001, 0x6001, 0x7001, 0x8001, 0x8101, 0x8201, 0x8301, 0x9001, 0xA001, 0xFFFF, 0x0234, 0x2003]
    if not c.quick:
        dt += [h << 8 | 1 for h in range(256)]
    c.run(direct_sources, report.split(dt, 24))
    c.run(bare, [0])
    c.assumptions += ["Register values are 16-bit words or absent/null.", "Attributes the changelog documents as removed are not part of the reading surface."]
    c.finish({"states": c.total.n.get("states", 0), "transitions": c.total.n.get("values", 0), "traces_validated_against_impl": c.total.n.get("states", 0),
              "models": len(NAMES), "plant_topologies": len(tops), "raw_values_everywhere": len(vals)})


if __name__ == "__main__":
    main()
