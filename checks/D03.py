"""D03: discovery with a remembered topology, over all pairs (remembered, actual) of a bounded plant family."""
import asyncio, os, sys
from dataclasses import replace
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop, plants
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, outcome
from mc.plants import Spec

KW = dict(timeout=0.4, retries=1, probe_timeout=0.2, probe_retries=0)


def hinted(p: dict, a: Spec):
    """What confirming the remembered topology ``p`` on plant ``a`` finds, by the documentation."""
    e = plants.expected(a)
    if e["device_type"] != p["device_type"]:
        return None
    have = set(plants.banks(a))
    got = {"device_type": e["device_type"], "inverter_address": 0x11, "arm_firmware_version": e["arm_firmware_version"], "meter_addresses": [m for m in p["meter_addresses"] if m in have],
           "lv_battery_addresses": [], "bcu_stacks": [], "aio_battery_module_addresses": [], "hv_bmu_addresses": [], "lv_bcu_address": None}
    if a.hv:
        # a remembered BCU address that answers at all is a BCU, with the module count it reports
        got["bcu_stacks"] = [(o, a.stacks[o] if o < len(a.stacks) else 0) for o, _ in p["bcu_stacks"] if o < len(a.stacks) or a.absent == "zero"]
        mods = {x for x, _ in a.modules}
        if got["bcu_stacks"]:
            if a.model == "ALL_IN_ONE":
                got["aio_battery_module_addresses"] = [x for x in p["aio_battery_module_addresses"] if x in mods]
            else:
                cand = p["hv_bmu_addresses"] or [0x50 + i for i in range(min(32, sum(n for _, n in got["bcu_stacks"])))]
                got["hv_bmu_addresses"] = [x for x in cand if x in mods]
    elif not a.ems:
        got["lv_battery_addresses"] = [x for x in p["lv_battery_addresses"] if x in have]
        got["lv_bcu_address"] = 0x31 if p["lv_bcu_address"] is not None and 0x31 in have else None
    return got


def same(x, y):
    return {k: v for k, v in x.items() if k != "arm_firmware_version"} == {k: v for k, v in y.items() if k != "arm_firmware_version"}


def pairs(t, jobs):
    from givenergy_modbus.exceptions import PlantTopologyMismatch
    for p, a, absent, hist in jobs:
        a = replace(a, absent=absent)
        first = replace(p, absent=absent)
        if hist and absent == "zero":
            bp, ba = plants.banks(first), plants.banks(a)
            if [d for d in bp if d not in ba and (0x31 <= d <= 0x37 or d >= 0x50)]:
                continue  # a served block turning to zeros is a dropout (P02), not evidence of removal
        dev = Device(**plants.tables(first if hist else a), latency=0.01)
        dev.script = plants.absent_script(first if hist else a)
        out = {}

        async def main(loop):
            c = client(tx_message_wait=0.01, tx_jitter=0)
            await c.connect()
            if hist:
                prior = await c.detect(**KW)
                await outcome(c.refresh(timeout=0.4, retries=0))
                dev.banks, dev.script = plants.banks(a), plants.absent_script(a)
            else:
                prior = plants.caps(p)
            before = plants.topo(prior)
            n0 = len(dev.log)
            o = await outcome(c.detect(prior=prior, **KW))
            out["marks"] = plants.marks_of(c.plant, dev, n0)
            out.update(o=o, caps=c.plant.capabilities, connected=c.connected, reads=[(r["dev"], r["kind"], r["base"], r["count"]) for _, _, r in dev.log[n0:]], before=before,
                       touched=plants.topo(prior) != before, prior=prior)
            cold = await outcome(c.detect(**KW))
            out.update(cold=cold, cold_caps=c.plant.capabilities)
            await c.close()
            return True
        res, loop = vloop.run(main, dev.net, horizon=5000)
        t.add("states"); t.add("transitions", len(dev.log))
        ctx = dict(remembered=p.key(), actual=a.key(), live_history=hist)
        if res is not True:
            t.violation("stuck", error=repr(res), **ctx); continue
        pd = plants.expected(p)
        if out["before"] != pd:
            t.violation("wrong-topology", got=out["before"], **ctx); continue
        found, o = hinted(pd, a), out["o"]
        ok = found is not None and same(found, pd)
        t.outcome((a.model, o[0], ok))
        if out["touched"]:
            t.violation("remembered-topology-modified", **ctx)
        if ok:
            if o[0] != "ok":
                t.violation("confirmed-topology-refused", outcome=o[0], error=repr(o[1])[:400], **ctx)
            elif plants.topo(out["caps"]) != found or o[1] is not out["caps"]:
                t.violation("wrong-topology", got=plants.topo(out["caps"]), want=found, **ctx)
            else:
                plants.marked(t, out["marks"], found, ctx)
        elif o[0] == "ok":
            t.violation("stale-topology-kept", got=plants.topo(out["caps"]), found=found, **ctx)
        else:
            e = o[1]
            if not isinstance(e, PlantTopologyMismatch):
                t.violation("wrong-failure", outcome=o[0], error=repr(e)[:400], **ctx)
            else:
                if out["caps"] is not None:
                    t.violation("topology-left-after-mismatch", got=plants.topo(out["caps"]), **ctx)
                if found is not None:
                    plants.marked(t, out["marks"], found, ctx)
                if not out["connected"]:
                    t.violation("mismatch-closed-connection", **ctx)
                act = plants.topo(e.actual)
                if e.prior != out["prior"] or act["device_type"] != plants.expected(a)["device_type"] or (found is not None and act != found):
                    t.violation("mismatch-misreports", reported=act, prior_ok=e.prior == out["prior"], found=found, **ctx)
        okdev = {0x11, 0xA0} | set(pd["meter_addresses"]) | set(pd["lv_battery_addresses"]) | ({0x31} if pd["lv_bcu_address"] else set()) | {0x70 + o_ for o_, _ in pd["bcu_stacks"]} | set(range(0x50, 0x70))
        extra = [r for r in out["reads"] if r[0] not in okdev]
        if extra:
            t.violation("swept-outside-hint", reads=extra[:5], **ctx)
        # the mismatch leaves a usable session: a full discovery now finds the truth
        if out["cold"][0] != "ok" or plants.topo(out["cold_caps"]) != plants.expected(a):
            t.violation("full-discovery-after-hint-wrong", outcome=out["cold"][0], got=None if out["cold_caps"] is None else plants.topo(out["cold_caps"]), **ctx)
        t.sample({**ctx, "outcome": o[0]}, 1)
        if t.full:
            return


def fam(quick):
    g = [[Spec("HYBRID_GEN2", batts=b, meters=m, bcu=u) for b in plants.subsets((0x32, 0x33) if quick else (0x32, 0x33, 0x36)) for m in plants.subsets((1, 2) if quick else (1, 2), 2) for u in (False, True)]]
    g.append([Spec("HYBRID_3PH", stacks=s, meters=m) for s in ((), (1,), (2,), (1, 1), (2, 1), (1, 2), (0,), (2, 0)) for m in ((), (1,))])
    g.append([Spec("ALL_IN_ONE", stacks=s, meters=m) for s in ((), (0,), (1,), (3,), (4,), (6,)) for m in ((), (2,))])
    g.append([Spec("EMS", meters=m, managed=2) for m in plants.subsets((1, 2, 8))])
    g.append([Spec(m, batts=(0x32,) if m not in plants.HV | plants.EMS else (), stacks=(2,) if m in plants.HV else ()) for m in plants.MODELS])
    if quick:
        g.append([Spec("HYBRID_HV_GEN3", stacks=s) for s in ((1, 1), (1, 1, 1), (2, 0, 1), (1, 1, 2), (1, 1, 1, 1))])
    else:
        g.append([Spec("HYBRID_HV_GEN3", stacks=(1,) * n) for n in range(3, 6)])
        g.append([Spec("HYBRID_HV_GEN3", stacks=s) for n in (0, 1, 2, 3) for s in __import__("itertools").product((0, 1, 2, 3), repeat=n)])
    return g


def main():
    c = Check("D03", "model_checking")
    jobs = [(p, a, ab, h) for g in fam(c.quick) for p in g for a in g for ab in ("silent", "zero", "error") for h in (False, True)]
    c.run(pairs, split(jobs, 128))
    c.assumptions = ["Devices that are not in the remembered topology are not looked for (documented); the mismatch oracle covers model changes and remembered devices that are gone or report another module count.",
                     "Hardware removed within one session does not answer its 60-register block with zeros (indistinguishable from a dropout, P02)."]
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
