"""P02: all-zero dropouts and impossible battery replies never overwrite good data; good data afterwards is accepted."""
import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, plants, ps, fr, batt, vloop
from mc.report import Check, split
from mc.cl import Plant, client, Device, outcome, caches
from mc.plants import Spec

SCENES = {**plants.SPECS, "gen4": Spec("HYBRID_GEN4", batts=(0x32,)), "hvgen3": Spec("HYBRID_HV_GEN3", stacks=(3,)), "aiocomm": Spec("AIO_COMMERCIAL"), "emsc": Spec("EMS_COMMERCIAL", managed=1)}


# -- ordinary blocks ------------------------------------------------------------
def blocks(spec):
    return [b for b in plants.config_reads(spec) + plants.poll_reads(spec) if not (b[1] == "IR" and 0x32 <= b[0] <= 0x37)]


def letters(spec, blk):
    dev, kind, base, n = blk
    tab = plants.banks(spec)[dev].get(kind, {})
    good = [tab.get(base + i, 0) for i in range(n)]
    if not any(good):
        return None
    nz = [i for i, v in enumerate(good) if v and not (kind == "HR" and 8 <= base + i <= 21 or kind == "IR" and base == 60 and i >= 50)]
    b = list(good)
    for i in nz[:4]:
        b[i] = (b[i] % 97) + 2
    few = [v if i not in nz or i == nz[0] else 0 for i, v in enumerate(good)]  # nearly everything zero, but one reading left
    L = {"A": good, "B": b, "few": few, "Z": [0] * n}
    L = {k: (ps.reply(dev, kind, base, v), {(dev, kind, base + i): x for i, x in enumerate(v)}) for k, v in L.items()}
    z = nz[0]
    L["z1"] = (ps.reply(dev, kind, base + z, [0]), {(dev, kind, base + z): 0})
    L["s1"] = (ps.reply(dev, kind, base + z, [good[z] % 89 + 3]), {(dev, kind, base + z): good[z] % 89 + 3})
    L["err"] = (ps.pdu(wire.error_response(ps.FC[kind], dev, base, n)), {})
    return L


def ordinary(t, shard, depth=4):
    for name, blk in shard:
        spec = SCENES[name]
        L = letters(spec, blk)
        if L is None:
            continue
        rng = [(blk[0], blk[1], blk[2] + i) for i in range(blk[3])]
        for scene_caps in (None, plants.caps(spec)):
            def rec(p, d, h):
                t.add("states")
                cur = ps.regs(p)
                for k, (m, inc) in L.items():
                    q = ps.clone(p)
                    q.update(m, received_at=ps.at(30 * d))
                    now = ps.regs(q)
                    t.add("transitions")
                    if k == "Z" and blk[3] >= 60 and any(cur.get(r) for r in rng):
                        want, why = cur, "dropout"
                    elif k == "Z" and blk[3] >= 60:  # nothing real there yet: absent or zero, both read as no data
                        want, why = (now if not any(now.get(r) for r in rng) else cur), "zero-on-empty"
                    elif k in ("z1", "s1") and not any(cur.get(r) for r in rng):
                        want, why = now, "short-first"
                    else:
                        want, why = {**cur, **inc}, "accept"
                    if now != want:
                        bad = sorted(x for x in set(now) | set(want) if now.get(x) != want.get(x))
                        t.violation(f"{why}", block=blk, scene=name, history=h + [k], reg=bad[:4], got=[now.get(x) for x in bad[:4]], want=[want.get(x) for x in bad[:4]])
                        if t.full:
                            return
                        continue
                    t.outcome((why, blk[3] >= 60))
                    if d + 1 < depth:
                        rec(q, d + 1, h + [k])
            rec(Plant(capabilities=scene_caps), 0, [])
        t.sample({"scene": name, "block": blk, "letters": list(L)})


# -- batteries --------------------------------------------------------------------
def batt_letters(dev):
    G = batt.frame(dev)
    L = {"G": G, "G1": batt.frame(dev, 1), "Z": [0] * 60}
    z16 = [0] * 16
    L["Xfw"] = batt.put(z16 + G[16:], r88=0, r89=0)
    L["Xcap"] = batt.put(z16 + G[16:], r98=0)
    L["Xboth"] = z16 + G[16:]
    L["Xcells+temps"] = [0] * 30 + G[30:]
    L["Xhi"] = batt.put(z16 + G[16:], r98=0, r88=1, r89=0)
    L["Xonlyfw+ser"] = [0] * 38 + [3010] + [0] * 11 + G[50:55] + [0] * 5
    L["serial-only"] = [0] * 50 + G[50:55] + [0] * 5
    L["T"] = batt.put(G, r76=0, r77=0, r78=0, r79=0, r103=0, r104=0)
    return L


def batteries(t, shard, depth=4):
    scene, dev, mode, firsts = shard
    L = batt_letters(dev)
    M = {k: batt.msg(dev, f) for k, f in L.items()}
    extra = {"short0": (ps.reply(dev, "IR", 60, [0] * 16), [0] * 16)}
    HEALTHY = {"G", "G1"}
    kw = {} if mode == "default" else {"splice_reject_heal_seconds": 300.0}

    def check(p, q, k, d, h):
        a, b = batt.held(p, dev), batt.held(q, dev)
        tr = dict(scene=scene, device=dev, mode=mode, history=h + [k])
        f = L.get(k)
        if k in ("Z",) or k.startswith("X"):
            if a != b and any(x for x in (a or []) if x):
                t.violation("battery-overwritten", frame=k, **tr)
            if k.startswith("X") and a != b:
                t.violation("impossible-stored", frame=k, **tr)
        if k in HEALTHY and a is not None and None not in a and not any(batt.trips(a, f)) and not batt.impossible(a):
            if b != f:
                t.violation("good-refused", frame=k, **tr)
        if k == "T" and b == f and a != f:
            t.violation("dropout-cohort-stored", frame=k, **tr)
        return not t.full

    def rec(p, d, h):
        t.add("states")
        for i, k in enumerate(list(L) + list(extra)):
            if d == 0 and i not in firsts:
                continue
            if k in extra and "short0" in h:
                continue
            q = ps.clone(p)
            q.update(M[k] if k in M else extra[k][0], received_at=ps.at(30 * d))
            t.add("transitions")
            if not check(p, q, k, d, h):
                return
            t.outcome((k, batt.held(q, dev) is not None))
            if d + 1 < depth:
                rec(q, d + 1, h + [k])
            else:  # whatever happened, two good polls leave good data in place unless a short zero read was absorbed
                r = ps.clone(q)
                r.update(M["G"], received_at=ps.at(30 * d + 30))
                r.update(M["G"], received_at=ps.at(30 * d + 60))
                t.add("transitions", 2)
                if batt.held(r, dev) != L["G"]:
                    t.violation("good-not-accepted-after", history=h + [k], scene=scene, device=dev, mode=mode, got=batt.held(r, dev))

    p = Plant(capabilities=None if scene == "none" else plants.caps(scene), **kw)
    rec(p, 0, [])


# -- through the client: a poll in which blocks drop out -------------------------------
def live(t, shard):
    for name, which in shard:
        spec = SCENES[name]
        tab = plants.banks(spec)
        polls = plants.poll_reads(spec)
        phase = {"n": 0}

        def script(i, r):
            if phase["n"] == 1 and r["kind"].startswith("read") and (r["dev"], Device.KIND[r["kind"]], r["base"]) in which:
                return [(0.03, wire.read_response(r["fc"], r["dev"], r["base"], [0] * r["count"]))]
        dev = Device(tab, script=script)

        async def main(loop):
            c = client(tx_message_wait=0.01, tx_jitter=0.0)
            c.plant.capabilities = plants.caps(spec)
            await c.connect()
            await c.load_config()
            await c.refresh()
            await c.refresh()
            before = caches(c.plant)
            phase["n"] = 1
            o1 = await outcome(c.refresh(timeout=1, retries=0))
            mid = caches(c.plant)
            phase["n"] = 2
            for a, kd in tab.items():
                for r in kd.get("IR", {}):
                    if a == 0x11 and 0 <= r < 60 and r not in range(8, 18):
                        kd["IR"][r] += 1
            o2 = await outcome(c.refresh(timeout=1, retries=1))
            end = caches(c.plant)
            await c.close()
            return before, o1, mid, o2, end
        res, _ = vloop.run(main, dev.net, horizon=9000)
        before, o1, mid, o2, end = res
        t.add("live")
        t.add("transitions", 3 * len(polls))
        guarded = {(d, k, b) for d, k, b, n in polls if n >= 60 and (d, k, b) in which}
        for d, k, b, n in polls:
            if (d, k, b) in guarded:
                for i in range(n):
                    x, y = before.get(d, {}).get((k, b + i)), mid.get(d, {}).get((k, b + i))
                    if x != y:
                        t.violation("live-dropout", scene=name, block=(d, k, b), reg=b + i, before=x, after=y)
                        break
            for i in range(n):
                w = tab[d].get(k, {}).get(b + i, 0)
                if end.get(d, {}).get((k, b + i)) != w:
                    t.violation("live-recovery", scene=name, block=(d, k, b), reg=b + i, got=end.get(d, {}).get((k, b + i)), want=w, outcome=o2[0])
                    break
        t.outcome(("live", o1[0], o2[0]))


def main():
    c = Check("P02", "model_checking")
    items = [(n, b) for n, s in SCENES.items() for b in blocks(s)]
    c.run(ordinary, split(items, 48), depth=c.pick(3, 5))
    sh = []
    nl = len(batt_letters(0x32)) + 1
    for scene, dev, mode in [("none", 0x32, "default"), ("hybrid2", 0x32, "default"), ("hybrid2", 0x33, "heal"), ("gen3", 0x34, "default"), ("hybrid2", 0x37, "default")][: c.pick(3, 5)]:
        sh += [(scene, dev, mode, f) for f in split(range(nl), nl)]
    if c.quick:  # the remaining pack addresses, less deep
        c.run(batteries, [(n, d, "default", f) for n, d in (("gen3", 0x34), ("hybrid2", 0x37)) for f in split(range(nl), 4)], depth=2)
    c.run(batteries, sh, depth=c.pick(4, 5))
    lv = []
    for n, s in SCENES.items():
        bl = [(d, k, b) for d, k, b, _ in plants.poll_reads(s)]
        lv += [(n, frozenset(bl))] + [(n, frozenset([b])) for b in bl]
    c.run(live, split(lv, 16))
    n = c.total.n
    c.assumptions += ["the documented dropout guard applies to full 60-register blocks; shorter reads that read zero are genuine by documentation"]
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("transitions", 0), "blocks": len(items), "live_runs": n.get("live", 0)})


if __name__ == "__main__":
    main()
