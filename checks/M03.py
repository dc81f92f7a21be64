"""M03: the device list presents each attached device exactly once, correctly named, with a valid parent.

Explicit enumeration of topologies and of the state of every listed device's registers (present,
not read yet, blank, unreadable serial), plus discovered plants under virtual time; the real walk is
compared row by row with an independent construction of the documented list, and every row's
device with an independent decode of that device's own registers.
"""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mc import decode, models, plants, report, vloop, wire  # noqa: E402
from mc.cl import Device, client, outcome  # noqa: E402
from mc.plants import Spec  # noqa: E402
from givenergy_modbus.model.plant import Plant, PlantCapabilities  # noqa: E402
from givenergy_modbus.model.inverter import Model  # noqa: E402

ENVELOPE = "SA1234G567"
STATUS = ("ok", "gone", "blank", "badserial")


def caches_of(spec):
    return {d: {(k, r): v for k, tab in kinds.items() for r, v in tab.items()} for d, kinds in plants.banks(spec).items()}


def set_serial(regs, kind, base, ser):
    for i, v in enumerate(wire.serial_regs(ser)):
        if (kind, base + i) in regs:
            regs[(kind, base + i)] = v
    return regs


SERIAL_AT = [("HR", 13), ("IR", 110), ("IR", 114)]


def put_status(d, regs, st):
    if st == "ok":
        return regs
    if st == "gone":
        return None
    if st == "blank":
        return dict.fromkeys(regs, 0)
    at = ("HR", 13) if d == 0x11 else ("IR", 110) if 0x32 <= d <= 0x37 else ("IR", 114) if 0x50 <= d < 0x70 else None
    regs = dict(regs)
    if at:
        regs[at] = 0x2A2A  # "**": no serial has these
    elif d < 9:
        regs[("IR", 60)] = 0
    elif d >= 0x70:
        for r in (60, 61, 62, 63):
            regs.pop(("IR", r), None)
    return regs


def serial_of(regs, base):
    s = decode._pre("serial", [regs.get(("HR", base + i)) for i in range(5)]) if regs is not None and all(regs.get(("HR", base + i)) is not None for i in range(5)) else None
    return s if decode.valid_serial(s) else None


def show(x):
    return None if x is decode.ANY else x


def expected_rows(topo, regs, direct=()):
    """topo: plants.expected-style dict or None. regs: {device: {(kind, n): v}}. -> [(type, identity, parent, serial, valid, root?, source, model, decoded regs)]"""
    inv_at = topo["inverter_address"] if topo else 0x11
    plant = next((s for s in (serial_of(regs.get(a), 13) for a in dict.fromkeys((inv_at, 0x11)) if a in (0x11, 0x31)) if s), ENVELOPE)
    kind = topo["device_type"] if topo else None
    own = regs.get(inv_at, {})
    rows = []
    if kind == "GATEWAY":
        rows.append(("gateway", plant, None, plant, True, True, None, "gateway1", own))
    elif kind in plants.EMS:
        rows.append(("ems", plant, None, plant, True, True, None, "ems", own))
    else:
        m = "threephase" if kind in plants.THREE else "inverter"
        rows.append(("inverter", plant, None, plant, True, True, "direct", m, own))
    if kind in plants.EMS:
        managed = decoded("ems", own)["managed_inverters"][1]
        ds = {}
        for c in direct:
            if c.get(("HR", 0)) is None:
                continue
            name = decode.specific_model(c[("HR", 0)], c.get(("HR", 21)) or 0)
            if name is None:
                continue
            m = "threephase" if name in plants.THREE else "inverter"
            s = decoded(m, c)["serial_number"]
            if s:
                ds[s] = (m, c)
        for r in managed:
            if r[0] in ds:
                rows.append(("inverter", r[0], plant, r[0], True, False, "merged", *ds[r[0]]))
            else:
                rows.append(("inverter", r[0] + "_managed", plant, r[0], True, False, "ems_rollup", None, r))
        for s, x in ds.items():
            if s not in {r[0] for r in managed}:
                rows.append(("inverter", s, plant, s, True, False, "direct", *x))
    if topo:
        batts = topo["lv_battery_addresses"]
    else:
        batts = []
        for a in range(0x32, 0x38):
            if not decoded("battery", regs.get(a, {}))["is_valid"]:
                break
            batts.append(a)
    for n, a in enumerate(batts, 1):
        d = decoded("battery", regs.get(a, {}))
        rows.append(("battery", d["serial_number"] if d["is_valid"] else f"{plant}_battery_{n}", plant, d["serial_number"] if d["is_valid"] else None, d["is_valid"], False, None,
                     "battery", regs.get(a, {})))
    if topo:
        for a in topo["aio_battery_module_addresses"]:
            if a in regs:
                d = decoded("aio", regs[a])
                ok = d["is_valid"]
                rows.append(("battery_module", d["serial_number"] if ok else f"{plant}_module_{a}", plant, d["serial_number"] if ok else None, ok, False, None, ("aio", a), regs[a]))
        mod = 0x50
        for off, n in topo["bcu_stacks"]:
            st = 0x70 + off
            d = decoded("bcu", regs.get(st, {}))
            ident = f"{plant}_hvstack_{st:#04x}"
            rows.append(("hv_stack", ident, plant, (d["serial_number"] or None) if d["is_valid"] else None, d["is_valid"], False, None, ("stack", st, n, mod), regs.get(st, {})))
            if not topo["aio_battery_module_addresses"]:
                for k in range(n):
                    r = regs.get(mod + k, {})
                    b = decoded("bmu", r)
                    ok = bool(b["is_valid"])
                    rows.append(("battery_module", b["serial_number"] if ok else f"{ident}_bmu_{k + 1}", ident, b["serial_number"] if ok else None, ok, False, None, ("bmu", k), r))
            mod += n
        for a in topo["meter_addresses"]:
            r = regs.get(a, {})
            rows.append(("meter", f"{plant}_meter_{a}", plant, None, decoded("meter", r)["is_valid"], False, None, "meter", r))
    return plant, rows


MEMO: dict = {}
SEEN: set = set()


def decoded(model, regs):
    k = (model, id(regs))
    if k not in MEMO:
        if len(MEMO) > 4000:
            MEMO.clear()
        MEMO[k] = (regs, decode.DECODE[model](regs))
    return MEMO[k][1]


def device_of(row):
    return getattr(row.device, "direct", None) if row.device_type.value == "inverter" else row.device


def check_device(t, row, e, what):
    """The row's device is the one whose registers these are."""
    model, regs = e[7], e[8]
    if model is None:  # rollup row
        s = row.device.summary
        got = None if s is None else (s.serial_number, s.status, s.p_inverter_out, s.battery_soc, s.t_inverter_heatsink)
        if row.device.direct is not None or got is None or not all(decode.same(a, b) for a, b in zip(regs, got)):
            t.violation("row-device", what=what, identity=row.identity, got=repr(got), expected=repr(regs))
        return
    o = device_of(row)
    extra = {}
    if isinstance(model, tuple):
        if model[0] == "stack":
            _, st, n, mod = model
            if o.device_address != st or len(o.bmus) != n:
                t.violation("row-device", what=what, identity=row.identity, got=(o.device_address, len(o.bmus)), expected=(st, n))
            o, model = o.bcu, "bcu"
        elif model[0] == "aio":
            extra, model = {"module_address": model[1]}, "aio"
        else:
            extra, model = {"bmu_index": model[1]}, "bmu"
    if o is None:
        t.violation("row-device", what=what, identity=row.identity, got="no device")
        return
    if model == "gateway1" and type(o).__name__ == "GatewayV2":
        model = "gateway2"
    exp = {**decoded(model, regs), **extra}
    if len(exp) > 150 and (what[0], row.identity, id(regs)) in SEEN:
        return  # the big inverter decode is compared once per topology, its registers do not change with its children's
    SEEN.add((what[0], row.identity, id(regs)))
    try:
        got = models.read_all(o)
    except Exception as x:
        t.violation("row-device", what=what, identity=row.identity, error=repr(x)[:300])
        return
    t.add("values", len(exp))
    for k, v in exp.items():
        if k not in got or not decode.agrees(v, got[k]):
            t.violation("row-device", what=what, identity=row.identity, reading=k, got=repr(got.get(k)), expected=repr(v))
            return


def firmware(e):
    model, regs = e[7], e[8]
    name = model[0] if isinstance(model, tuple) else model
    return {"battery": lambda: (lambda v: None if v is None else str(v))(decoded("battery", regs)["bms_firmware_version"]),
            "stack": lambda: decoded("bcu", regs)["pack_software_version"], "gateway1": lambda: decoded("gateway1", regs)["software_version"],
            "ems": lambda: decoded("inverter", regs)["firmware_version"], "inverter": lambda: decoded("inverter", regs)["firmware_version"],
            "threephase": lambda: decoded("threephase", regs)["firmware_version"]}.get(name, lambda: None)()


def audit(t, plant, topo, regs, what, direct=(), deep=True):
    t.add("states")
    if t.full:
        return
    try:
        rows = plant.devices
    except Exception as x:
        t.violation("walk-raises", what=what, error=repr(x)[:300])
        return
    _, exp = expected_rows(topo, regs, direct)
    t.add("rows", len(rows))
    roots = [r for r in rows if r.parent is None]
    ids = [r.identity for r in rows]
    if len(roots) != 1 or rows[0] is not roots[0]:
        t.violation("one-root", what=what, roots=[r.identity for r in roots])
    if [r.is_control_authority for r in rows] != [True] + [False] * (len(rows) - 1):
        t.violation("one-authority", what=what, rows=[(r.identity, r.is_control_authority) for r in rows])
    if len(set(ids)) != len(ids) and len({e[1] for e in exp}) == len(exp):
        t.violation("unique-identity", what=what, identities=ids)
    for r in rows[1:]:
        if r.parent not in ids:
            t.violation("parent-exists", what=what, identity=r.identity, parent=r.parent)
    got = sorted((r.device_type.value, r.identity, r.parent or "", r.serial_number or "", bool(r.is_valid), r.is_control_authority, r.data_source or "") for r in rows)
    want = sorted((e[0], e[1], e[2] or "", e[3] or "", bool(e[4]), e[5], e[6] or "") for e in exp)
    if got != want and not any(e[4] is decode.ANY for e in exp):
        t.violation("rows", what=what, missing=[x for x in want if x not in got], extra=[x for x in got if x not in want], topo=topo)
        return
    if [(r.device_type.value, r.identity) for r in rows[1:]] != sorted((r.device_type.value, r.identity) for r in rows[1:]):
        t.violation("order", what=what, rows=ids)
    t.outcome(tuple(sorted({e[0] for e in exp})))
    if deep and len({(e[0], e[1]) for e in exp}) == len(exp):
        by = {(e[0], e[1]): e for e in exp}
        for r in rows:
            e = by[(r.device_type.value, r.identity)]
            check_device(t, r, e, what)
            f = firmware(e)
            if r.firmware_version != f:
                t.violation("firmware", what=what, identity=r.identity, got=r.firmware_version, expected=f)
            if t.full:
                return
    at = topo["lv_bcu_address"] if topo else None
    if (plant.lv_bcu is None) != (at is None or not regs.get(at)):
        t.violation("stack-block", what=what, at=at, got=repr(plant.lv_bcu)[:80])
    # the owning inverter's facade lists the same sub-devices
    if topo is None or topo["device_type"] not in plants.EMS:
        try:
            invs = plant.inverters
        except Exception as x:
            t.violation("inverters-raise", what=what, error=repr(x)[:300])
            return
        n = {k: sum(1 for e in exp if e[0] == k) for k in ("battery", "hv_stack", "battery_module")}
        i = invs[0]
        aio = n["battery_module"] if topo and topo["aio_battery_module_addresses"] else 0
        if len(invs) != 1 or (len(i.batteries), len(i.hv_stacks), len(i.battery_modules)) != (n["battery"], n["hv_stack"], aio):
            t.violation("facade", what=what, got=(len(invs), len(i.batteries), len(i.hv_stacks), len(i.battery_modules)), expected=(1, n, aio))
    else:
        inv = [(e[3], e[6]) for e in exp if e[0] == "inverter"]
        if sorted((i.serial_number, i.data_source) for i in plant.inverters) != sorted(inv):
            t.violation("facade", what=what, got=[(i.serial_number, i.data_source) for i in plant.inverters], expected=inv)
        idx = plant.serial_index
        if {k: v.data_source for k, v in idx.items()} != dict(inv):
            t.violation("serial-index", what=what, got={k: v.data_source for k, v in idx.items()}, expected=inv)


def build(regs, topo, addr=None):
    caps = None
    if topo:
        caps = PlantCapabilities(**{**topo, "device_type": Model[topo["device_type"]]})
    return Plant(inverter_serial_number=ENVELOPE, data_adapter_serial_number="WF1234G567", capabilities=caps, register_caches={d: models.cache(r) for d, r in regs.items()})


def family(t, shard, deep):
    for s in shard:
        regs, topo = caches_of(s), plants.expected(s)
        SEEN.clear()
        for st in ("ok", "gone", "blank", "badserial"):
            rr = {d: x for d, x in ((d, put_status(d, r, st if d != 0x11 else "ok")) for d, r in regs.items()) if x is not None}
            audit(t, build(rr, topo), topo, rr, (s.key(), "all children", st), deep=deep)
        rr = {d: {} if d == topo["lv_bcu_address"] else x for d, x in regs.items()}
        audit(t, build(rr, topo), topo, rr, (s.key(), "stack block empty"), deep=False)
        rr = {d: x for d, x in regs.items() if d != 0x11}
        audit(t, build(rr, topo), topo, rr, (s.key(), "inverter not read"), deep=False)
        audit(t, build(regs, None), None, regs, (s.key(), "no topology"), deep=deep)


def statuses(t, shard, full):
    """Every combination of register states of the listed devices."""
    name, spec, part, of = shard
    regs, topo = caches_of(spec), plants.expected(spec)
    devs = [d for d in sorted(regs) if d != 0xA0]
    n = 0
    for combo in itertools.product(STATUS, repeat=len(devs)):
        odd = sum(s != "ok" for s in combo)
        if odd > (4 if full else 2) and len(set(combo)) > 1:
            continue
        n += 1
        if n % of != part:
            continue
        rr = {d: x for d, x in ((d, put_status(d, regs[d], s)) for d, s in zip(devs, combo)) if x is not None}
        audit(t, build(rr, topo), topo, rr, (name, list(zip(devs, combo))))
        if t.full:
            return
    # legacy topology: inverter registers polled at 0x31, identity read at 0x11
    if part == 0 and topo["lv_bcu_address"] is None:
        for mv in ("moved", "both", "identity only"):
            old = {**topo, "inverter_address": 0x31}
            rr = dict(regs)
            if mv == "moved":
                rr[0x31] = rr.pop(0x11)
            elif mv == "both":
                rr[0x31] = set_serial(dict(regs[0x11]), "HR", 13, "ZZ9999Z999")
            audit(t, build(rr, old), old, rr, (name, "legacy", mv))
    if part == 0:
        # an older topology still naming the first battery's address as the inverter's: never a source of the plant's identity
        old = {**topo, "inverter_address": 0x32}
        for here in (True, False):
            rr = dict(regs)
            rr[0x32] = set_serial({**rr.get(0x32, {}), **{("HR", k): v for (q, k), v in regs[0x11].items() if q == "HR" and k < 60}}, "HR", 13, "ZZ9999Z999")
            if not here:
                del rr[0x11]
            audit(t, build(rr, old), old, rr, (name, "legacy 0x32", here), deep=False)
        # the inverter's serial only partly known, or partly unreadable
        for lost in itertools.product((0, 1, 2), repeat=5):
            rr = dict(regs)
            rr[0x11] = dict(regs[0x11])
            for i, how in enumerate(lost):
                if how == 1:
                    del rr[0x11][("HR", 13 + i)]
                elif how == 2:
                    rr[0x11][("HR", 13 + i)] = 0
            audit(t, build(rr, topo), topo, rr, (name, "serial words", lost), deep=False)


def ems_sources(t, shard):
    """EMS rollups reconciled with directly read inverters: every slot occupancy x every matching."""
    occ, = shard
    spec = Spec("EMS", managed=4, meters=(1,))
    regs = caches_of(spec)
    sers = [plants.serial("CE", m) for m in range(4)]
    for m in range(4):
        if not occ[m]:
            for i in range(5):
                regs[0x11][("IR", 2066 + 5 * m + i)] = 0 if occ.count(True) % 2 else 0x2020
    topo = plants.expected(spec)
    bank = caches_of(Spec("HYBRID_GEN2"))[0x11]
    bank3 = caches_of(Spec("HYBRID_3PH"))[0x11]
    for k in range(3):
        for names in itertools.permutations([*sers[:3], "XX0000X000", "", None, "unknown"], k):
            for three in (False, True):
                src = []
                for i, s in enumerate(names):
                    b = dict(bank3 if three else bank)
                    b[("IR", 41)] = b[("IR", 1128)] = 200 + i
                    if i == 0:  # a direct reading of zero is a reading, not a gap
                        b.update({("IR", 0): 0, ("IR", 59): 0, ("IR", 41): 0, ("IR", 1069): 0, ("IR", 1070): 0, ("IR", 1076): 0, ("IR", 1132): 0, ("IR", 1128): 0})
                    if s is None:
                        del b[("HR", 0)]
                        s = sers[0]
                    elif s == "unknown":  # a device type code of no known family
                        b[("HR", 0)] = 0x9001
                        s = sers[1]
                    src.append(set_serial(b, "HR", 13, s or "\0" * 10))
                p = build(regs, topo)
                for x in src:
                    p.add_direct_source({0x11: models.cache(x), 0x32: models.cache({})})
                what = ("ems", occ, names, three)
                audit(t, p, topo, regs, what, direct=src, deep=three is False)
                merged(t, p, regs, src, what)


def merged(t, p, regs, src, what):
    """A merged inverter shows the direct reading where there is one and the rollup's otherwise."""
    rows = {r[0]: r for r in decode.ems(regs[0x11])["managed_inverters"][1]}
    for i in p.inverters:
        own = next((s for s in reversed(src) if s.get(("HR", 0)) is not None and decode.specific_model(s[("HR", 0)], s.get(("HR", 21)) or 0) is not None and decode._pre("serial", [s[("HR", 13 + k)] for k in range(5)]) == i.serial_number), None)
        r = rows.get(i.serial_number)
        d = decode.DECODE["threephase" if own[("HR", 0)] >> 12 == 4 else "inverter"](own) if own else {}
        for n, v in zip(("status", "p_inverter_out", "battery_soc", "t_inverter_heatsink"), r[1:] if r else (None,) * 4):
            e = d.get(n)
            e = v if e is None else e
            if not decode.same(e, getattr(i, n)):
                t.violation("merged-reading", what=what, serial=i.serial_number, reading=n, got=repr(getattr(i, n)), expected=repr(e))
        if i.is_blinded != (own is None) or (i.direct is None) != (own is None) or (i.summary is None) != (r is None):
            t.violation("merged-source", what=what, serial=i.serial_number, blinded=i.is_blinded)


def discovered(t, shard):
    """Plants found over the wire: detect, configuration load, one poll, then the walk."""
    for s in shard:
        dev = Device(**plants.tables(s), script=plants.absent_script(s))
        out = {}

        async def main(loop):
            c = client(tx_message_wait=0.01, tx_jitter=0)
            await c.connect()
            out["empty"] = c.plant.devices
            o = await outcome(c.detect(timeout=0.4, retries=0, probe_timeout=0.2, probe_retries=0))
            out["o"] = o[0]
            out["mid"] = [(r.device_type.value, r.identity) for r in c.plant.devices]
            await outcome(c.load_config(timeout=0.4, retries=0))
            await outcome(c.refresh(timeout=0.4, retries=0))
            out["plant"] = c.plant
            await c.close()
            return True
        res, loop = vloop.run(main, dev.net, horizon=5000)
        t.add("transitions")
        if out.get("o") != "ok":
            t.violation("discovery", spec=s.key(), outcome=out.get("o"))
            continue
        p = out["plant"]
        # the poll reads some of each device's registers: judge against what the plant holds
        regs = {a: {(type(k).__name__, k._idx): v for k, v in c.items()} for a, c in p.register_caches.items()}
        audit(t, p, plants.expected(s), regs, ("discovered", s.key()))
        want = {"battery": len(plants.expected(s)["lv_battery_addresses"]), "meter": len(s.meters), "hv_stack": len(plants.expected(s)["bcu_stacks"]), "battery_module": len(s.modules),
                "inverter": s.managed if s.ems else (0 if s.model == "GATEWAY" else 1)}
        for k, n in want.items():
            g = sum(1 for r in p.devices if r.device_type.value == k)
            if g != n:
                t.violation("count", spec=s.key(), kind=k, attached=n, listed=g)


def main():
    c = report.Check("M03", "model_checking")
    fam = [s for s in plants.family(c.pick("small", "full")) if s.absent == "silent" and sum(s.stacks) <= 32]
    c.run(family, report.split(fam, 64), deep=True)
    scenes = [(n, s) for n, s in plants.SPECS.items()] + [("polar", Spec("POLAR", batts=(0x33, 0x35), meters=(2,))), ("aio2", Spec("ALL_IN_ONE", stacks=(2,), meters=(8,))),
                                                          ("ac3", Spec("AC_3PH", stacks=(1, 2))), ("hv3", Spec("HYBRID_HV_GEN3", stacks=(0, 2)))]
    c.run(statuses, [(n, s, i, 8) for n, s in scenes for i in range(8)], full=not c.quick)
    c.run(ems_sources, [(o,) for o in itertools.product((False, True), repeat=4)])
    disc = [s for s in plants.family("small") if sum(s.stacks) <= 32 and (not c.quick or (s.absent == "silent" and s.meters in ((), (1, 8))))]
    if c.quick:
        disc = disc[::3] + list(plants.SPECS.values())
    c.run(discovered, report.split(disc, 64))
    c.assumptions += ["Identities are required to be unique when the attached devices' serials are; at most 32 battery modules (the address band)."]
    c.finish({"states": c.total.n.get("states", 0), "transitions": c.total.n.get("rows", 0), "traces_validated_against_impl": c.total.n.get("states", 0) + c.total.n.get("transitions", 0),
              "discovered_plants": c.total.n.get("transitions", 0), "readings_compared": c.total.n.get("values", 0)})


if __name__ == "__main__":
    main()
