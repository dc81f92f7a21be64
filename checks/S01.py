"""S01: a saved topology restores to an equal one; damaged or older saves are migrated or refused, never misread.

Explicit enumeration of topologies (the bounded plant family, the product of edge values of every
field) and of every mutation of the saved form (older shapes, key aliases, dropped / nulled / ill-typed
fields), the real save and restore judged against the topology's own description; restored topologies
are also used to poll under virtual time and must make the same reads.
"""
import copy
import itertools
import json
import os
import pickle
import sys
import warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mc import plants, report, vloop  # noqa: E402
from mc.cl import Device, client, outcome  # noqa: E402
from givenergy_modbus.model.inverter import Model  # noqa: E402
from givenergy_modbus.model.plant import Plant, PlantCapabilities as PC  # noqa: E402

warnings.simplefilter("ignore")
VALUE = {"HYBRID": "2", "AC": "3", "HYBRID_3PH": "4", "EMS": "5", "AC_3PH": "6", "GATEWAY": "7", "ALL_IN_ONE": "8", "HYBRID_GEN1": "20g1", "HYBRID_GEN2": "20g2", "HYBRID_GEN3": "20g3",
         "POLAR": "21", "AIO_COMMERCIAL": "41", "EMS_COMMERCIAL": "51", "HYBRID_HV_GEN3": "81", "ALL_IN_ONE_HYBRID": "82", "HYBRID_GEN4": "83"}
LISTS = ("meter_addresses", "lv_battery_addresses", "aio_battery_module_addresses", "hv_bmu_addresses")
FIELDS = ("device_type", "inverter_address", *LISTS, "bcu_stacks", "lv_bcu_address", "arm_firmware_version")
OLD = {"inverter_slave": "inverter_address", "meter_slaves": "meter_addresses", "lv_battery_slaves": "lv_battery_addresses", "bcu_slaves": "bcu_stacks"}
V200 = ("device_type", "inverter_address", "meter_addresses", "lv_battery_addresses", "bcu_stacks")
DEFAULT = {**dict.fromkeys(LISTS, []), "bcu_stacks": [], "lv_bcu_address": None, "arm_firmware_version": None}


def behaviour(topo):
    m, fw = topo["device_type"], topo["arm_firmware_version"]
    ext = m in plants.EXTENDED and (m != "HYBRID_GEN3" or (fw is not None and fw > 302))
    return {"is_hv": m in plants.HV, "is_three_phase": m in plants.THREE, "is_ac_coupled": m in ("AC", "AC_3PH"), "has_extended_slots": ext,
            "has_ac_config_block": m in plants.AC_BLOCK, "is_ems": m in plants.EMS, "is_gateway": m in plants.GATEWAY,
            "has_smart_load_block": False, "has_hv_cabinet_block": False, "has_peak_shaving_block": False}


def make(topo):
    return PC(**{**copy.deepcopy(topo), "device_type": Model[topo["device_type"]]})


def norm(topo):
    return {**topo, "bcu_stacks": [tuple(x) for x in topo["bcu_stacks"]]}


def same_kind(c):
    """The restored fields hold what a discovered topology's do: whole numbers, lists, (offset, count) pairs."""
    ints = lambda xs: all(type(x) is int for x in xs)  # noqa: E731
    return (isinstance(c.device_type, Model) and type(c.inverter_address) is int and all(type(getattr(c, k)) is list and ints(getattr(c, k)) for k in LISTS)
            and all(type(x) is tuple and len(x) == 2 and ints(x) for x in c.bcu_stacks) and all(x is None or type(x) is int for x in (c.lv_bcu_address, c.arm_firmware_version)))


def judge(t, what, got, topo, orig=None):
    """got: the restored object; topo: what it must say."""
    t.add("restored")
    topo = norm(topo)
    if plants.topo(got) != topo or not same_kind(got):
        t.violation("misread", what=what, got=plants.topo(got), expected=topo)
        return False
    if orig is not None and (got != orig or not (orig == got) or repr(got) != repr(orig)):
        t.violation("not-equal", what=what, got=repr(got), expected=repr(orig))
        return False
    for k, v in behaviour(topo).items():
        if getattr(got, k) is not v:
            t.violation("behaviour", what=what, property=k, got=repr(getattr(got, k)), expected=v)
            return False
    return True


def ways(c):
    """Every supported way of saving and restoring a topology."""
    yield "dict", lambda: PC.from_dict(c.to_dict())
    yield "json", lambda: PC.from_dict(json.loads(json.dumps(c.to_dict())))
    yield "twice", lambda: PC.from_dict(json.loads(json.dumps(PC.from_dict(json.loads(json.dumps(c.to_dict()))).to_dict())))
    yield "sorted", lambda: PC.from_dict(json.loads(json.dumps(c.to_dict(), sort_keys=True, indent=1)))
    yield "model_json", lambda: PC.model_validate_json(c.model_dump_json())
    yield "model_dict", lambda: PC.model_validate(c.model_dump())
    yield "model_dict_json", lambda: PC.model_validate(json.loads(json.dumps(c.model_dump(mode="json"))))
    yield "kwargs", lambda: PC(**c.model_dump())
    yield "copy", lambda: copy.deepcopy(c)
    yield "pickle", lambda: pickle.loads(pickle.dumps(c))


def round_trip(t, topo, what, some=None):
    t.add("states")
    c = make(topo)
    if plants.topo(c) != norm(topo):
        t.violation("construct", what=what, got=plants.topo(c), expected=topo)
        return
    for name, f in ways(c):
        if some and name not in some:
            continue
        try:
            r = f()
        except Exception as x:
            t.violation("restore-raises", what=what, way=name, error=repr(x)[:300], topo=topo)
            continue
        if not judge(t, (what, name), r, topo, c):
            continue
        # a restored topology is its own object: changing it leaves the saved one alone
        for k in (*LISTS, "bcu_stacks"):
            getattr(r, k).append((9, 9) if k == "bcu_stacks" else 99)
        if plants.topo(c) != norm(topo):
            t.violation("shared", what=what, way=name, got=plants.topo(c), expected=topo)
            c = make(topo)
    d = c.to_dict()
    before = copy.deepcopy(d)
    if json.loads(json.dumps(d)) != d:
        t.violation("not-json", what=what, saved=d)
    r = PC.from_dict(d)
    for k in (*LISTS, "bcu_stacks"):
        getattr(r, k).append((9, 9) if k == "bcu_stacks" else 99)
    if d != before:
        t.violation("input-changed", what=what, got=d, expected=before)
    t.outcome(topo["device_type"])


def family(t, shard):
    for s in shard:
        round_trip(t, plants.expected(s), s.key())


ADDR = (0, 1, 0x0F, 0x10, 0x11, 0x31, 0x32, 0x7F, 0x80, 0xA0, 0xFF, 0x100)
EDGE = {
    "inverter_address": ADDR,
    **{k: [[], *[[a] for a in ADDR], [0x32, 0x33], [0x33, 0x32], [5, 5], list(range(1, 9)), list(range(0x50, 0x70))] for k in LISTS},
    "bcu_stacks": [[], [(0, 0)], [(0, 1)], [(1, 0)], [(0, 6), (1, 6)], [(1, 2), (0, 3)], [(2, 24)], [(0, 16), (0, 16)], [(15, 255)], [(8, 8), (10, 10)]],
    "lv_bcu_address": [None, 0, 0x31, 0xFF, 8, 10],
    "arm_firmware_version": [None, 0, 302, 303, 312, 449, 0xFFFF],
}
BASE = {"inverter_address": 0x11, "meter_addresses": [1, 8], "lv_battery_addresses": [0x32, 0x33], "bcu_stacks": [(0, 2), (1, 3)], "aio_battery_module_addresses": [0x50, 0x51],
        "hv_bmu_addresses": [0x50, 0x52], "lv_bcu_address": 0x31, "arm_firmware_version": 303}
BARE = {"inverter_address": 0x11, **DEFAULT}


def fields(t, shard, full):
    """Edge values of every pair of fields on every model (quick: of every field)."""
    m, part, of = shard
    n = 0
    keys = list(EDGE)
    for base in (BASE, BARE):
        for a, b in itertools.combinations(keys, 2):
            for x, y in itertools.product(EDGE[a], EDGE[b]):
                if not full and x not in (EDGE[a][0], base[a]) and y not in (EDGE[b][0], base[b]):
                    continue
                n += 1
                if n % of != part:
                    continue
                round_trip(t, {"device_type": m, **base, a: x, b: y}, (m, a, x, b, y), some=None if full else ("json", "model_json"))
                if t.full:
                    return


# -- older and damaged saves -----------------------------------------------------------------

def attempt(t, what, data, allowed):
    """allowed: list of topologies the save may be read as; None stands for refusal."""
    t.add("transitions")
    before = copy.deepcopy(data)
    try:
        r = PC.from_dict(data)
    except Exception as x:
        t.outcome(("refused", type(x).__name__))
        if None not in allowed:
            t.violation("refused", what=what, saved=data, error=repr(x)[:300])
        r = None
    if data != before:
        t.violation("input-changed", what=what, got=data, expected=before)
    if r is None:
        return
    t.outcome("read")
    ok = [norm(a) for a in allowed if a is not None]
    if plants.topo(r) not in ok or not same_kind(r):
        t.violation("misread", what=what, saved=data, got=plants.topo(r), expected=ok or "refusal")
        return
    judge(t, what, r, plants.topo(r))


def older(t, shard, full):
    """v2.0.0 saves (values not names, plain numbers, no version), each key alias, mixtures of both notations."""
    for topo in shard:
        m = topo["device_type"]
        base = {**topo, **{k: DEFAULT[k] for k in topo if k not in V200}}
        raw = {k: (VALUE[m] if k == "device_type" else [list(x) for x in topo[k]] if k == "bcu_stacks" else topo[k]) for k in V200}
        names = list(OLD)
        for use in itertools.product((False, True), repeat=len(names)):
            ren = {OLD[o]: o for o, u in zip(names, use) if u}
            for dt in {VALUE[m], m} | ({int(VALUE[m])} if VALUE[m].isdigit() else set()):
                d = {ren.get(k, k): v for k, v in raw.items()}
                d["device_type"] = dt
                attempt(t, ("v2.0.0", m, sorted(ren), dt), d, [base])
                attempt(t, ("v2.0.0 extra", m, sorted(ren), dt), {**d, "saved_at": "2024-01-01"}, [base])
        now = make(topo).to_dict()
        for use in itertools.product((False, True), repeat=len(names)):
            ren = {OLD[o]: o for o, u in zip(names, use) if u}
            attempt(t, ("aliases", m, sorted(ren)), {ren.get(k, k): v for k, v in now.items()}, [topo])
        # each field in plain numbers or as text
        lists = (*LISTS, "inverter_address", "lv_bcu_address", "bcu_stacks")
        for use in itertools.product((False, True), repeat=len(lists)) if full else [(False,) * len(lists), *[tuple(i == j for j in range(len(lists))) for i in range(len(lists))], (True,) * len(lists)]:
            d = dict(now)
            for k, u in zip(lists, use):
                if u:
                    d[k] = [[str(a), str(b)] for a, b in topo[k]] if k == "bcu_stacks" else topo[k]
            attempt(t, ("notation", m, use), d, [topo])
        for a in (str.upper, lambda s: "0X" + s[2:], lambda s: str(int(s, 16))):
            d = {k: [a(x) for x in v] if k in LISTS else v for k, v in now.items()}
            attempt(t, ("spelling", m), d, [topo])
        # the version field
        for v in (None, 1):
            attempt(t, ("version", m, v), {**now, "schema_version": v}, [topo])
        for v in (0, 2, -1, 99, "1", "2", "one", 1.5, [], {}, [1]):
            attempt(t, ("version", m, v), {**now, "schema_version": v}, [None])
        # generic constructor and validator with the pre-rename names
        for use in itertools.product((False, True), repeat=len(names)):
            ren = {OLD[o]: o for o, u in zip(names, use) if u}
            kw = {ren.get(k, k): v for k, v in copy.deepcopy(topo).items()}
            kw["device_type"] = Model[m]
            try:
                judge(t, ("kwargs aliases", m, sorted(ren)), PC(**kw), topo)
                judge(t, ("validate aliases", m, sorted(ren)), PC.model_validate(kw), topo)
            except Exception as x:
                t.violation("refused", what=("kwargs aliases", m, sorted(ren)), error=repr(x)[:300])


NOT_A_NUMBER = ("", "x", "0xzz", "0x", "eleven", "1 2", "1,2", {}, [], [1], {"a": 1}, 17.5, 1e400, float("nan"), "17.5")
NOT_A_LIST = (5, "x", "12", "0x32", {"a": 1}, {"1": 2}, True, 1.5)


def damaged(t, shard):
    """Every single-field omission, null and ill-typed value."""
    for topo in shard:
        m = topo["device_type"]
        now = make(topo).to_dict()
        for k in FIELDS:
            gone = {x: v for x, v in now.items() if x != k}
            null = {**now, k: None}
            if k == "device_type":
                ok = [None]
            elif k == "inverter_address":
                ok = [None, {**topo, k: 0x11}]
            else:
                ok = [{**topo, k: DEFAULT[k]}]
            attempt(t, ("omitted", m, k), gone, ok)
            attempt(t, ("null", m, k), null, ok)
        attempt(t, ("omitted", m, "schema_version"), {k: v for k, v in now.items() if k != "schema_version"}, [topo])
        for a, b in itertools.combinations(FIELDS[2:], 2):
            attempt(t, ("omitted", m, a, b), {k: v for k, v in now.items() if k not in (a, b)}, [{**topo, a: DEFAULT[a], b: DEFAULT[b]}])
        for v in ("", "9", "X", "HYBRID_GEN9", "hybrid?", "UNKNOWN", "Model.HYBRID", "99", 9, 0, -2, [], {}, ["HYBRID"], True, False, 2.5):
            if isinstance(v, float) and str(v)[0] in "2345678":
                continue  # text starting with a family digit is documented to fall back to that family
            attempt(t, ("device_type", m, v), {**now, "device_type": v}, [None])
        for v in NOT_A_NUMBER:
            attempt(t, ("inverter_address", m, v), {**now, "inverter_address": v}, [None])
            attempt(t, ("lv_bcu_address", m, v), {**now, "lv_bcu_address": v}, [None])
            attempt(t, ("firmware", m, v), {**now, "arm_firmware_version": v}, [None])
            for k in LISTS:
                for at in range(3):
                    xs = ["0x01", "0x02"]
                    xs.insert(at, v)
                    attempt(t, (k, m, at, v), {**now, k: xs}, [None])
            for at in range(2):
                row = [0, 2]
                row[at] = v
                attempt(t, ("bcu_stacks", m, at, v), {**now, "bcu_stacks": [row]}, [None])
                attempt(t, ("bcu_stacks", m, at, v), {**now, "bcu_stacks": [[1, 1], row]}, [None])
        for k in LISTS:
            attempt(t, (k, m, "null entry"), {**now, k: ["0x01", None]}, [None])
        for row in ([], [1], [1, 2, 3], None, 5, [None, 2], [2, None], [[1, 2]], [1, [2]]):
            attempt(t, ("bcu_stacks row", m, row), {**now, "bcu_stacks": [[0, 2], row]}, [None])
        for k in (*LISTS, "bcu_stacks"):
            for v in NOT_A_LIST:
                attempt(t, (k, m, v), {**now, k: v}, [None])
        for v in ({}, {"schema_version": 1}):
            attempt(t, ("empty", m), v, [None])


def polls(t, shard):
    """A restored topology polls exactly what the discovered one does, and confirms on rediscovery."""
    for s in shard:
        seen = {}
        saved = {}
        for how in ("live", "saved", "hinted"):
            dev = Device(**plants.tables(s))
            out = {}

            async def main(loop):
                c = client(tx_message_wait=0.01, tx_jitter=0)
                await c.connect()
                if how == "live":
                    r = await outcome(c.detect(timeout=0.4, retries=0, probe_timeout=0.2, probe_retries=0))
                    if r[0] == "ok":
                        saved["text"] = json.dumps(r[1].to_dict())
                        saved["topo"] = plants.topo(r[1])
                elif how == "saved":
                    c.plant.capabilities = PC.from_dict(json.loads(saved["text"]))
                    r = ("ok", c.plant.capabilities)
                else:
                    r = await outcome(c.detect(timeout=0.4, retries=0, probe_timeout=0.2, probe_retries=0, prior=PC.from_dict(json.loads(saved["text"]))))
                out["r"] = r
                n = len(dev.log)
                out["a"] = (await outcome(c.load_config(timeout=0.4, retries=0)))[0]
                out["b"] = (await outcome(c.refresh(timeout=0.4, retries=0)))[0]
                seen[how] = (out["a"], out["b"], sorted((r["kind"], r["dev"], r["base"], r["count"]) for _, _, r in dev.log[n:]))
                await c.close()
                return True
            vloop.run(main, dev.net, horizon=5000)
            t.add("polled")
            if out.get("r", ("?",))[0] != "ok":
                t.violation("restored-unusable", spec=s.key(), how=how, outcome=repr(out.get("r"))[:300])
                break
            if plants.topo(out["r"][1]) != saved["topo"]:
                t.violation("rediscovered", spec=s.key(), how=how, got=plants.topo(out["r"][1]), expected=saved["topo"])
            if seen[how] != seen["live"]:
                t.violation("reads-differ", spec=s.key(), how=how, got=seen[how], expected=seen["live"])


def main():
    c = report.Check("S01", "model_checking")
    fam = {json.dumps(plants.expected(s)): s for s in plants.family(c.pick("small", "full"))}
    c.run(family, report.split(list(fam.values()), 32))
    c.run(fields, [(m, i, c.pick(1, 4)) for m in VALUE for i in range(c.pick(1, 4))], full=not c.quick)
    small = {json.dumps(plants.expected(s)): plants.expected(s) for s in plants.family("small")}
    small = list(small.values())
    topos = [plants.expected(s) for s in plants.SPECS.values()] + [{"device_type": m, **b} for m in VALUE for b in (BASE, BARE)]
    if not c.quick:
        topos += small
    c.run(older, report.split(topos, 32), full=not c.quick)
    c.run(damaged, report.split(topos, 32))
    disc = list(plants.SPECS.values()) if c.quick else [s for s in fam.values() if s.absent == "silent" and s.meters in ((), (1, 8)) and sum(s.stacks) <= 32 and len(s.batts) in (0, 1, 2, 6)]
    c.run(polls, report.split(disc, 32))
    c.assumptions += ["A saved device type starting with a known family digit ('2001', '20g9') is documented to fall back to that family and is not judged; "
                      "a missing or null list reads as empty (documented)."]
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("restored", 0) + n.get("polled", 0), "saves_mutated": n.get("transitions", 0)})


if __name__ == "__main__":
    main()
