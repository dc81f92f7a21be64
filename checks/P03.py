"""P03: fragments of another battery's reply are never absorbed, at any splice position, at any point of a poll history."""
import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, plants, ps, batt, vloop
from mc.report import Check, split
from mc.cl import Plant, client, Device, outcome, caches

A = 0x32


def profiles():
    """Name -> the other pack's frame. They differ from pack 0x32 in one class of reading, or in all of them."""
    me = batt.frame(A)
    S = plants.serial
    P = {"near": batt.frame(0x33)}
    P["twin"] = batt.put(me, r110=me[50]), None
    P["twin"] = list(me)
    for i, v in enumerate(wire.serial_regs(S("BA", 41))):
        P["twin"][50 + i] = v
    t = P["twin"]
    far = [v for v in batt.frame(0x33)]
    far = batt.put(far, r76=420, r77=421, r78=422, r79=423, r81=510, r84=0, r85=8000, r86=0, r87=8200, r88=0, r89=1200, r97=15, r98=3022, r100=12, r101=0, r102=8200, r103=430, r104=415, r105=900, r106=990,
                   **{f"r{60 + i}": 2700 + i for i in range(16)}, r80=43300, r83=43300)
    P["far"] = far
    P["other-serial-prefix"] = list(me)
    for i, v in enumerate(wire.serial_regs("DX2230G777")):
        P["other-serial-prefix"][50 + i] = v
    P["soc"] = batt.put(t, r100=12)
    P["temps"] = batt.put(t, r76=400, r77=401, r78=402, r79=403, r103=405, r104=399)
    P["cold"] = batt.put(t, r76=-60, r77=-61, r78=-62, r79=-63, r103=-60, r104=-70)
    P["zero-temps"] = batt.put(t, r76=0, r77=0, r78=0, r79=0, r103=0, r104=0)
    P["cells"] = batt.put(t, **{f"r{60 + i}": 2800 for i in range(16)}, r80=44800, r83=44800)
    P["caps"] = batt.put(t, r85=9000, r87=9300, r89=4000, r102=9300)
    P["bigcaps"] = batt.put(t, r84=1, r85=3000, r86=1, r87=3100, r88=1, r89=2000, r101=1, r102=3100)
    P["fw"] = batt.put(t, r98=3022)
    P["cells-count"] = batt.put(t, r97=15)
    P["energy"] = batt.put(t, r105=5000, r106=5100)
    P["mosfet+soc"] = batt.put(t, r81=700, r100=90)
    return P


def fragments(other, shifts):
    """Every distinct frame made of pack 0x32's reply with words [i, j) replaced by other's words [i+s, j+s)."""
    me = batt.frame(A)
    seen = {tuple(me)}
    for s in shifts:
        for i in range(60):
            for j in range(i + 1, 61):
                lo, hi = max(i, -s), min(j, 60 - s)
                if lo >= hi or (s and (lo != i or hi != j)):
                    continue
                f = list(me)
                f[lo:hi] = other[lo + s:hi + s]
                k = tuple(f)
                if k not in seen:
                    seen.add(k)
                    yield (s, lo, hi), f


def kind(base, f):
    ph, const, ser = batt.trips(base, f)
    if ser or not batt.serial_ok(f):
        return "identity"
    if const:
        return "constant"
    return "many" if len(ph) >= 2 else "one" if ph else "none"


def explore(t, frags, depth, mode):
    me = [batt.frame(A, k % 2) for k in range(3)]
    mG = [batt.msg(A, f) for f in me]
    nb = batt.frame(0x33)
    kw = {} if mode == "default" else {"splice_reject_heal_seconds": 300.0}
    warm = Plant(capabilities=plants.caps("hybrid2"), **kw)
    for k in range(2):
        warm.update(batt.msg(0x33, nb), received_at=ps.at(30 * k))
    cold = ps.clone(warm)
    for k in range(2):
        warm.update(mG[0], received_at=ps.at(30 * k))
    assert batt.held(warm, A) == me[0] and batt.held(warm, 0x33) == nb
    for pname, (tag, f) in frags:
        mS = batt.msg(A, f)
        t.add("frames")
        kd = kind(me[0], f)
        t.outcome((pname, kd))
        if kd == "none":
            t.add("indistinguishable")
            continue

        def tr(h):
            return dict(profile=pname, splice=tag, kind=kd, mode=mode, history=h)

        def rec(p, d, h, run, start):
            """run: consecutive spliced replies so far; start: had a baseline at the beginning."""
            t.add("states")
            for k in "GS":
                q = ps.clone(p)
                sec = 60 + 30 * d
                q.update(mG[d % 3] if k == "G" else mS, received_at=ps.at(sec))
                t.add("transitions")
                a, b = batt.held(p, A), batt.held(q, A)
                hh = h + k
                if batt.held(q, 0x33) != nb:
                    t.violation("neighbour-changed", **tr(hh))
                    return
                if k == "G":
                    if a is not None and b != me[d % 3]:
                        t.violation("genuine-refused", **tr(hh))
                        return
                    if b not in (None, *me):
                        t.violation("mixed", got=b, **tr(hh))
                        return
                    if b is None and h.endswith("G"):
                        t.violation("genuine-pair-not-adopted", **tr(hh))
                        return
                else:
                    again = run >= 1
                    # a reading that moved alone is believed when the very next poll repeats it; a first-ever frame when the next one agrees
                    allowed = (again and kd == "one") if a is not None else (again and kd != "identity" or again and batt.serial_ok(f))
                    if b != a and not allowed:
                        t.violation("absorbed", got=[(60 + i, x) for i, x in enumerate(b) if a is None or x != a[i]][:6], **tr(hh))
                        return
                    if b != a and (b != f or any(x is None for x in b)):
                        t.violation("mixed", got=b, **tr(hh))
                        return
                    if b != a:
                        t.add("believed-after-repeat")
                        continue  # from here the plant is entitled to treat it as the pack's own data
                t.outcome((kd, k, b is not None))
                if d + 1 < depth:
                    rec(q, d + 1, hh, run + 1 if k == "S" else 0, start)
        rec(warm, 0, "", 0, True)
        rec(cold, 0, "", 0, False)
        if kd != "one":  # insisting does not help within ten polls (constants) / ever (identity, several readings)
            q = ps.clone(warm)
            n = 9 if kd == "constant" or mode != "default" else 40
            for i in range(n):
                q.update(mS, received_at=ps.at(60 + 200 * i))
                t.add("transitions")
                if batt.held(q, A) != me[0]:
                    t.violation("absorbed-by-insistence", polls=i + 1, **tr("S*"))
                    break
            q.update(mG[1], received_at=ps.at(60 + 200 * n))
            if batt.held(q, A) != me[1]:
                t.violation("genuine-refused-after-insistence", polls=n, **tr("S*G"))
            # just inside the documented gap the baseline still stands
            q = ps.clone(warm)
            q.update(mS, received_at=ps.at(30 + 300))
            if batt.held(q, A) != me[0]:
                t.violation("absorbed-after-short-gap", **tr("gap S"))
            t.add("transitions", 2)
        if t.full:
            return


def sweep(t, shard, depth=3, modes=("default",)):
    for mode in modes:
        explore(t, shard, depth, mode)
    t.sample([(p, tag) for p, (tag, _) in shard[:3]])


def pairs(t, shard, depth=3):
    """Two different spliced replies in a row, from two offsets or two other packs."""
    me = batt.frame(A)
    m0, m1 = batt.msg(A, me), batt.msg(A, batt.frame(A, 1))
    warm = Plant(capabilities=plants.caps("hybrid2"))
    for k in range(2):
        warm.update(m0, received_at=ps.at(30 * k))
    cold = Plant(capabilities=plants.caps("hybrid2"))
    for f, g in shard:
        kf, kg = kind(me, f), kind(me, g)
        t.add("frames")
        if "none" in (kf, kg):
            continue
        confirm = kf == kg == "one" and batt.trips(me, f)[0] == batt.trips(me, g)[0]
        for start, p0 in (("warm", warm), ("cold", cold)):
            p = ps.clone(p0)
            agree = not any(batt.trips(f, g)) and batt.serial_ok(f) and batt.serial_ok(g)
            for i, x in enumerate((f, g)):
                a = batt.held(p, A)
                p.update(batt.msg(A, x), received_at=ps.at(60 + 30 * i))
                t.add("transitions")
                b = batt.held(p, A)
                ok = i == 1 and (confirm if start == "warm" else agree)
                if a != b and not ok:
                    t.violation("absorbed-pair", start=start, which=i, kinds=(kf, kg), got=[(60 + n, v) for n, v in enumerate(b) if a is None or v != a[n]][:6])
                    break
                if a != b:
                    break
            else:
                for i in range(2):
                    p.update(m1 if i else m0, received_at=ps.at(120 + 30 * i))
                t.add("transitions", 2)
                if batt.held(p, A) != batt.frame(A, 1):
                    t.violation("genuine-refused-after-pair", start=start, kinds=(kf, kg))
        if t.full:
            return


def forgotten(t, shard):
    """Readings given up on request: the battery is new again, so neither the frame held back before nor the readings dropped vouch for the next reply."""
    me = [batt.frame(A, k % 2) for k in range(4)]
    for pname, (tag, f) in shard:
        kd = kind(me[0], f)
        mS = batt.msg(A, f)
        agree = batt.trips(me[0], f)
        for n in range(4):  # genuine replies seen before
            for again in "GS":
                p = Plant(capabilities=plants.caps("hybrid2"))
                for k in range(n):
                    p.update(batt.msg(A, me[k]), received_at=ps.at(30 * k))
                p.invalidate_presence(A, "IR", 60, 60)
                t.add("states")
                t.add("transitions", n + 3)
                tr = dict(profile=pname, splice=tag, kind=kd, before=n, then=again)
                if batt.held(p, A) is not None:
                    t.violation("kept-after-forgetting", **tr)
                    continue
                x, y = (mS, batt.msg(A, me[0])) if again == "S" else (batt.msg(A, me[0]), batt.msg(A, me[1]))
                p.update(x, received_at=ps.at(30 * n))
                if batt.held(p, A) is not None:
                    t.violation("adopted-without-agreement", **tr)
                    continue
                p.update(y, received_at=ps.at(30 * n + 30))
                b = batt.held(p, A)
                ok = (None, me[0]) if again == "S" else (me[1],)
                if again == "S" and not any(agree):
                    ok = (me[0],)
                t.outcome(("forgotten", again, b is not None))
                if b not in ok or (again == "S" and b is not None and any(agree)):
                    t.violation("mixed-after-forgetting", got=b, **tr)
        if t.full:
            return


def interrupted(t, shard):
    """With sustained steps allowed to be believed: an interruption of any kind starts the count of agreeing polls again."""
    me = batt.frame(A)
    mG = batt.msg(A, me)
    breaks = {"G": mG, "const": batt.msg(A, batt.put(me, r98=3022)), "T": batt.msg(A, batt.put(me, r76=0, r77=0, r78=0, r79=0)), "gap": None}
    for pname, (tag, f) in shard:
        ph, const, ser = batt.trips(me, f)
        if const or ser or len(ph) < 2 or not batt.surge(f, ph):
            continue
        mS = batt.msg(A, f)
        for name, m in breaks.items():
            for first in (1, 5, 9):
                p = Plant(capabilities=plants.caps("hybrid2"), splice_reject_heal_seconds=60.0)
                sec = -30
                for _ in range(2):
                    sec += 30
                    p.update(mG, received_at=ps.at(sec))
                seq = ["S"] * first + [name] + ["S"] * 9
                t.add("states")
                for i, k in enumerate(seq):
                    if k == "gap":
                        sec += 400  # nothing heard: the readings held no longer judge the next reply, which starts over
                        p.update(mG, received_at=ps.at(sec))
                        t.add("transitions")
                        continue
                    sec += 30
                    p.update(mS if k == "S" else m, received_at=ps.at(sec))
                    t.add("transitions")
                    if batt.held(p, A) != me:
                        t.violation("absorbed-by-interrupted-insistence", profile=pname, splice=tag, history=seq[: i + 1])
                        break
                else:
                    t.outcome(("interrupted", name))
        if t.full:
            return


def live(t, shard):
    """A poll whose battery reply is spliced, through the real client; the battery keeps its readings."""
    for pname, tag, f in shard:
        spec = plants.SPECS["hybrid2"]
        tab = plants.banks(spec)
        st = {"bad": False}

        def script(i, r):
            if st["bad"] and r["kind"] == "read_ir" and r["dev"] == A and r["base"] == 60:
                return [(0.03, wire.read_response(4, A, 60, f))]
        dev = Device(tab, script=script)

        async def main(loop):
            c = client(tx_message_wait=0.01, tx_jitter=0.0)
            await c.connect()
            await c.detect()
            for _ in range(2):
                await c.refresh()
            st["bad"] = True
            b0 = [b.model_dump() for b in c.plant.batteries]
            o = await outcome(c.refresh(timeout=1, retries=0))
            b1 = [b.model_dump() for b in c.plant.batteries]
            st["bad"] = False
            tab[A]["IR"][100] += 1
            await c.refresh()
            b2 = c.plant.batteries[0].soc
            await c.close()
            return b0, o[0], b1, b2
        res, _ = vloop.run(main, dev.net, horizon=9000)
        b0, o, b1, soc = res
        t.add("live")
        t.add("transitions", 4)
        t.outcome(("live", o))
        if b0 != b1:
            t.violation("live-mixed", profile=pname, splice=tag, diff=[(k, b0[0][k], b1[0][k]) for k in b0[0] if b0[0][k] != b1[0][k]][:5])
        if soc != tab[A]["IR"][100]:
            t.violation("live-not-recovered", profile=pname, splice=tag, soc=soc)


def main():
    c = Check("P03", "model_checking")
    P = profiles()
    frs = []
    shifts = c.pick((0,), tuple(range(-59, 60)))
    for n, o in P.items():
        full = c.quick or n in ("far", "near", "twin")
        for x in fragments(o, shifts if full else (0,)):
            frs.append((n, x))
    quick_shift = [("far", x) for x in fragments(P["far"], (-1, 1, 3, -5))] if c.quick else []
    c.run(sweep, split(frs, 32), depth=c.pick(3, 5) if c.quick else 3, modes=c.pick(("default",), ("default", "heal")))
    if c.quick:
        c.run(sweep, split(quick_shift, 16), depth=2)
        c.run(sweep, split([x for x in frs if x[0] in ("soc", "fw", "temps")], 16), depth=3, modes=("heal",))
        c.run(sweep, split([x for x in frs if x[0] in ("cells", "caps")][::7], 16), depth=1, modes=("heal",))
    else:
        c.run(sweep, split([x for x in frs if x[1][0][0] == 0], 32), depth=5)
    zero = [x for x in frs if x[1][0][0] == 0]
    c.run(forgotten, split(zero[:: c.pick(5, 1)], 16))
    c.run(interrupted, split([x for x in zero if x[0] in ("cells", "caps", "bigcaps", "far", "twin")][:: c.pick(11, 2)], 16))
    reps = {}
    for n, (tag, f) in frs:
        if tag[0] == 0:
            reps.setdefault((n, kind(batt.frame(A), f), tuple(batt.trips(batt.frame(A), f)[0])), f)
    reps = [f for f in reps.values()]
    k = c.pick(90, 330)
    reps = reps[:: max(1, len(reps) // k)]
    c.run(pairs, split([(f, g) for f in reps for g in reps], 32))
    me = batt.frame(A)
    lv = {}
    for n, (tag, f) in frs:
        if kind(me, f) != "none" and tag[0] == 0:
            lv.setdefault((n, kind(me, f)), (n, tag, f))
    c.run(live, split(list(lv.values()), 8))
    n = c.total.n
    c.assumptions += ["a fragment that differs from the pack's own reading by no more than one poll's documented movement cannot be told from it and is not judged",
                      "the documented exceptions are honoured: one lone reading repeated on the next poll, an agreeing second frame on a pack never seen, insistence of ten polls and 900 s on a constant, a polling gap over 300 s"]
    c.finish({"states": n.get("states", 0) + n.get("frames", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("transitions", 0), "splices": len(frs), "indistinguishable": n.get("indistinguishable", 0), "live_runs": n.get("live", 0)})


if __name__ == "__main__":
    main()
