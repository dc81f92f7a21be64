"""S03: a plant rebuilt offline from its saved topology and register data equals the live one.

Explicit-state exploration: every plant of the bounded family is discovered and polled under virtual
time, and for a set of plants every history of polls, lost and damaged replies, hardware readings moving
and settings written, to a depth bound; at every state the plant is saved and rebuilt every supported
way, and everything a consumer can read from the rebuilt plant is compared with the live one.
"""
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mc import models, plants, report, vloop, wire  # noqa: E402
from mc.cl import Device, caches, client, outcome  # noqa: E402
from mc.plants import Spec  # noqa: E402
from mc.view import diff, view  # noqa: E402
from givenergy_modbus.exceptions import CommunicationError  # noqa: E402
from givenergy_modbus.model.plant import Plant, PlantCapabilities as PC  # noqa: E402
from givenergy_modbus.pdu import WriteHoldingRegisterRequest  # noqa: E402
from givenergy_modbus.model.register_cache import RegisterCache, parse_compact, to_compact  # noqa: E402


def copies(p):
    return {a: RegisterCache(dict(c)) for a, c in p.register_caches.items()}


def jsoned(p):
    text = json.dumps({str(a): c.json() for a, c in p.register_caches.items()})
    return {int(a): RegisterCache.from_json(x) for a, x in json.loads(text).items()}


def rebuilds(p, sound):
    """(name, build, registers carried exactly?) for every supported way."""
    saved = json.dumps(p.capabilities.to_dict())
    who = {"inverter_serial_number": p.inverter_serial_number, "data_adapter_serial_number": p.data_adapter_serial_number}
    yield "constructed", lambda: Plant(register_caches=jsoned(p), capabilities=PC.from_dict(json.loads(saved)), **who)
    yield "constructed from text", lambda: Plant(register_caches=parse_compact(to_compact(p.register_caches)), capabilities=PC.from_dict(json.loads(saved)), **who)
    if sound:
        yield "derived", lambda: Plant.from_caches(copies(p), **who)
        yield "derived from json", lambda: Plant.from_caches(jsoned(p), **who)
        yield "derived from text", lambda: Plant.from_caches(parse_compact(to_compact(p.register_caches)), **who)
        yield "derived with the saved topology", lambda: Plant.from_caches(jsoned(p), PC.from_dict(json.loads(saved)), **who)
        yield "derived, reversed", lambda: Plant.from_caches(dict(reversed(list(copies(p).items()))), **who)


def compare(t, p, what, sound=True, once=None):
    t.add("states")
    if t.full or p.capabilities is None:
        return
    before = caches(p)
    live = view(p)
    topo = plants.topo(p.capabilities)
    if once is not None:
        key = repr((before, topo, sound))
        if key in once:
            return
        once.add(key)
    t.add("distinct_states")
    for name, build in rebuilds(p, sound):
        t.add("rebuilt")
        try:
            q = build()
        except Exception as x:
            t.violation("rebuild-raises", what=what, way=name, error=repr(x)[:300])
            continue
        if q.capabilities is None or plants.topo(q.capabilities) != topo or (q.capabilities != p.capabilities):
            t.violation("topology", what=what, way=name, got=repr(q.capabilities), expected=repr(p.capabilities))
            continue
        held = {a: r for a, r in caches(q).items() if r}
        if held != {a: r for a, r in before.items() if r}:
            t.violation("registers", what=what, way=name)
            continue
        d = diff(live, view(q))
        if d:
            t.violation("readings", what=what, way=name, live_vs_rebuilt=d)
        if {a: r for a, r in caches(q).items() if r} != held:
            t.violation("reading-changes-registers", what=what, way=name)
    if caches(p) != before:
        t.violation("saving-changes-registers", what=what)
    t.outcome((topo["device_type"], len(topo["lv_battery_addresses"]), len(topo["bcu_stacks"])))


KW = dict(timeout=0.4, retries=0)
PROBE = dict(timeout=0.4, retries=0, probe_timeout=0.2, probe_retries=0)


def family(t, shard):
    for s in shard:
        dev = Device(**plants.tables(s), script=plants.absent_script(s), latency=0.01)
        dev.serials = {a: plants.serial("DV", a % 100) for a in dev.banks if a != 0x11}

        async def main(loop):
            c = client(tx_message_wait=0.01, tx_jitter=0)
            await c.connect()
            o = await outcome(c.detect(**PROBE))
            if o[0] != "ok":
                t.violation("discovery", spec=s.key(), outcome=o[0])
            compare(t, c.plant, (s.key(), "discovered"))
            await outcome(c.load_config(**KW))
            await outcome(c.refresh(**KW))
            compare(t, c.plant, (s.key(), "polled"))
            subsets(t, c.plant, s)
            await c.close()
            return True
        vloop.run(main, dev.net, horizon=5000)
        t.add("transitions", len(dev.log))


def subsets(t, p, s):
    """A saved topology that names fewer or more devices than there is data for: only devices in both appear."""
    full = plants.topo(p.capabilities)
    who = {"inverter_serial_number": p.inverter_serial_number, "data_adapter_serial_number": p.data_adapter_serial_number}
    none = PC(device_type=p.capabilities.device_type)
    t.add("rebuilt", 2)
    q = Plant.from_caches(copies(p), none, **who)
    want = {**full, "meter_addresses": [], "lv_battery_addresses": [], "bcu_stacks": [], "aio_battery_module_addresses": [], "hv_bmu_addresses": [], "lv_bcu_address": None}
    if plants.topo(q.capabilities) != want:
        t.violation("restricted", spec=s.key(), got=plants.topo(q.capabilities), expected=want)
    fewer = [{**full, "lv_bcu_address": None}] if full["lv_bcu_address"] is not None else []
    for k in ("meter_addresses", "lv_battery_addresses", "aio_battery_module_addresses", "hv_bmu_addresses", "bcu_stacks"):
        if len(full[k]) >= 2 or (full[k] and k in ("meter_addresses", "lv_battery_addresses")):
            fewer += [{**full, k: full[k][:i] + full[k][i + 1:]} for i in (range(len(full[k])) if len(full[k]) < 4 else (0, 1, len(full[k]) - 1))]
    saved = p.capabilities.to_dict()
    for some in fewer:
        t.add("rebuilt")
        prior = PC.from_dict({**saved, **{k: v for k, v in some.items() if v != full[k]}})
        q = Plant.from_caches(copies(p), prior, **who)
        if plants.topo(q.capabilities) != some:
            t.violation("restricted", spec=s.key(), named=some, got=plants.topo(q.capabilities))
    for k in who:
        q = Plant.from_caches(copies(p), **{k: who[k]})
        if {n: getattr(q, n) for n in who} != {**{n: "" for n in who}, k: who[k]}:
            t.violation("names", spec=s.key(), given=k, got=(q.inverter_serial_number, q.data_adapter_serial_number))
    more = PC.from_dict({**p.capabilities.to_dict(), "meter_addresses": list(range(1, 9)), **({} if s.hv or s.ems else {"lv_battery_addresses": list(range(0x32, 0x38))})})
    q = Plant.from_caches(copies(p), more, **who)
    if plants.topo(q.capabilities) != full:
        t.violation("named-but-not-there", spec=s.key(), got=plants.topo(q.capabilities), expected=full)
    lost = copies(p)
    for r in [r for r in lost[0x11] if (type(r).__name__, r._idx) == ("HR", 0)]:
        del lost[0x11][r]
    for what, cc in (("no HR(0)", lost), ("no inverter", {a: c for a, c in copies(p).items() if a != 0x11}), ("nothing", {})):
        try:
            q = Plant.from_caches(cc, **who)
            t.violation("unidentified-accepted", spec=s.key(), what=what, got=repr(q.capabilities))
        except CommunicationError:
            pass


# -- histories ------------------------------------------------------------------------------------

def moved(tab, n):
    """The readings a little later: each moves by less than any plausibility bound."""
    for d, kinds in tab.items():
        if 0x32 <= d <= 0x37:
            kinds["IR"].update({r: v + 1 for r, v in kinds["IR"].items() if 60 <= r < 80 or r in (89, 103, 104)})
        elif 0x50 <= d < 0x70:
            kinds["IR"].update({r: v + 1 for r, v in kinds["IR"].items() if 60 <= r < 84 or 90 <= r < 114})
        elif d >= 0x70:
            kinds["IR"][99] = kinds["IR"].get(99, 0) + 1
        elif d < 9:
            kinds["IR"].update({r: v + 3 for r, v in kinds["IR"].items() if r < 84})
    tab[0x11]["IR"][5] = tab[0x11]["IR"].get(5, 0) + n
    tab[0x11]["HR"][110] = 20 + n % 50


OPS = ("poll", "config", "moved", "quiet", "error", "zeros", "short", "write", "noise")


def ops_of(spec):
    return [o for o in OPS if not (o == "zeros" and not (spec.batts or spec.stacks))]


def histories(t, shard, depth):
    name, first = shard
    spec = plants.SPECS[name] if isinstance(name, str) else name
    ops = ops_of(spec)
    once = set()
    for rest in itertools.product(ops, repeat=depth - 1):
        hist = (first, *rest)
        dev = Device(**plants.tables(spec), latency=0.01)
        state = {"mode": None, "n": 0}
        child = next((d for d in sorted(dev.banks) if d != 0x11 and d != 0xA0), 0x11)

        def script(i, r):
            m = state["mode"]
            if m is None or r["kind"] in ("heartbeat", "write"):
                return None
            if m == "quiet" and r["dev"] == child:
                return []
            if m == "error" and r["dev"] == child:
                return [(0.01, wire.error_response(r["fc"], r["dev"], r["base"], r["count"]))]
            if m == "zeros" and r["dev"] == child and r["count"] == 60:
                return [(0.01, wire.read_response(r["fc"], r["dev"], r["base"], [0] * 60))]
            if m == "short" and r["dev"] == 0x11:
                return [(0.01, wire.read_response(r["fc"], r["dev"], r["base"], [7])), (0.02, dev.answer(r))]
            return None
        dev.script = script

        async def main(loop):
            c = client(tx_message_wait=0.01, tx_jitter=0)
            await c.connect()
            o = await outcome(c.detect(**PROBE))
            if o[0] != "ok":
                t.violation("discovery", history=hist, outcome=o[0])
                return True
            for k, op in enumerate(hist):
                state["mode"] = op
                if op == "config":
                    await outcome(c.load_config(**KW))
                elif op == "write":
                    await outcome(c.one_shot_command([WriteHoldingRegisterRequest(register=96, value=k % 2), WriteHoldingRegisterRequest(register=116, value=40 + k)]))
                elif op == "noise":
                    for conn in dev.net.conns[-1:]:
                        conn.send(wire.read_response(4, 0x11, 0, [3 + k] * 60))
                        conn.send(wire.heartbeat())
                        conn.send(wire.read_response(4, 0x37, 60, [1, 2, 3]))
                    await vloop.asyncio.sleep(0.5)
                else:
                    if op == "moved":
                        moved(dev.banks, k + 1)
                    await outcome(c.refresh(**KW))
                state["mode"] = None
                if k == len(hist) - 1 or hist[k + 1:] == (ops[0],) * (len(hist) - k - 1):
                    compare(t, c.plant, (spec.key(), hist[:k + 1]), once=once)
            await c.close()
            return True
        res, loop = vloop.run(main, dev.net, horizon=5000)
        t.add("transitions", len(hist))
        if res is not True:
            t.violation("stuck", history=hist, error=repr(res))
        if t.full:
            return


# -- states a live plant can be in that no scripted session reaches easily -----------------------------

def legacy(t, shard):
    """Older saved topologies (0x31 polling address) and devices whose data is missing, blank or unreadable: rebuilding with the saved topology is exact."""
    for name, status in shard:
        s = plants.SPECS[name]
        regs = {d: {(k, r): v for k, tab in kinds.items() for r, v in tab.items()} for d, kinds in plants.banks(s).items()}
        devs = [d for d in sorted(regs) if d not in (0x11, 0xA0)]
        for combo in itertools.product(status, repeat=min(len(devs), 5)):
            rr = {d: dict(r) for d, r in regs.items()}
            for d, st in zip(devs, combo):
                if st == "gone":
                    del rr[d]
                elif st == "blank":
                    rr[d] = dict.fromkeys(rr[d], 0)
                elif st == "partial":
                    rr[d] = {k: v for k, v in rr[d].items() if k[1] < 90}
            for inv in (0x11, 0x31):
                q = {d: dict(r) for d, r in rr.items()}
                if inv == 0x31:
                    q[0x31] = q.pop(0x11)
                    if s.bcu:
                        continue
                topo = {**plants.expected(s), "inverter_address": inv}
                p = Plant(inverter_serial_number=wire.INVERTER, data_adapter_serial_number=wire.ADAPTER, register_caches={d: models.cache(r) for d, r in q.items()},
                          capabilities=PC.from_dict({**plants.caps(s).to_dict(), "inverter_address": inv}))
                assert plants.topo(p.capabilities) == topo
                compare(t, p, (name, combo, inv), sound=False)


def main():
    c = report.Check("S03", "model_checking")
    fam = [s for s in plants.family(c.pick("small", "full")) if sum(s.stacks) <= 32]
    if c.quick:
        fam = [s for s in fam if s.absent == "silent" and s.meters in ((), (1, 8))][::3] + [s for s in fam if s.absent != "silent" and s.meters == (1,) and s.batts in ((), (0x32, 0x34)) and not s.bcu and s.managed in (0, 2)]
    else:
        fam = [s for s in fam if s.absent == "silent" and (s.meters in ((), (1,), (1, 8)) or len(s.batts) == 1)] + [s for s in plants.family("small") if s.absent != "silent" and sum(s.stacks) <= 32]
    c.run(family, report.split(fam, 64))
    names = c.pick(["hybrid2", "ems", "hv3ph"], list(plants.SPECS))
    c.run(histories, [(n, o) for n in names for o in ops_of(plants.SPECS[n])], depth=c.pick(2, 4))
    c.run(legacy, [[(n, st)] for n in plants.SPECS for st in c.pick([("ok", "gone"), ("ok", "blank"), ("ok", "partial")], [("ok", "gone", "blank", "partial")])])
    c.assumptions += ["Freshness and comms counters are session state and are not saved; topology re-derivation is judged while every listed device's data is readable."]
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("rebuilt", 0), "distinct_states": n.get("distinct_states", 0)})


if __name__ == "__main__":
    main()
