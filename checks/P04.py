"""P04: whatever the guard has seen, a genuine battery is accepted within the documented polls and time."""
import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, plants, ps, batt
from mc.report import Check, split
from mc.cl import Plant

A = 0x32
SKIP = ps.COUNTERS | {"_splice_reject_burst", "_block_unchanged_since", "register_block_updated_at", "register_block_present"}
G = batt.frame(A)
FRAMES = {
    "G": G,
    "G1": batt.frame(A, 1),
    "soc": batt.put(G, r100=75),                                          # one reading jumped
    "cell": batt.put(G, r63=2500),
    "cap": batt.put(G, r88=0, r89=4000),
    "soc+temp": batt.put(G, r100=75, r76=400, r77=400, r103=400),         # several readings jumped
    "surge": batt.put(G, **{f"r{60 + i}": 3650 + i for i in range(16)}, r80=58500, r83=58500),  # charge knee
    "fw": batt.put(G, r98=3022),                                         # firmware upgrade
    "fw+energy": batt.put(G, r98=3022, r105=9000, r106=9100),            # upgrade that also starts reporting energy
    "count": batt.put(G, r97=15),
    "swap": [*G[:50], *wire.serial_regs(plants.serial("BA", 41)), *G[55:]],  # a different pack at this address
    "cold": batt.put(G, r76=-30, r77=-31, r78=-32, r79=-30, r103=-28, r104=-35),
    "T": batt.put(G, r76=0, r77=0, r78=0, r79=0, r103=0, r104=0),        # corruption
    "X": [0] * 16 + G[16:],
    "Z": [0] * 60,
    "junk": batt.put(G, r60=9, r70=60000, r82=7, r97=77, r100=200),
    "badser": [*G[:50], 0x2020, 0x2020, 0x2020, 0x2020, 0x2020, *G[55:]],
}
SHORT = {"shortG": (60, G[:16]), "shortZ": (60, [0] * 16), "shortSoc": (100, [G[40]])}
GENUINE = ["G", "soc", "cap", "surge", "soc+temp", "fw", "fw+energy", "count", "swap", "cold"]
FOREIGN = {"HR": ps.bank(A, "HR", 0, 60, {k: k + 1 for k in range(60)}), "IR0": ps.bank(A, "IR", 0, 60, {k: k + 1 for k in range(60)})}
MSG = {**{k: batt.msg(A, f) for k, f in FRAMES.items()}, **{k: ps.reply(A, "IR", b, v) for k, (b, v) in SHORT.items()}, **FOREIGN,
       "err": ps.pdu(wire.error_response(4, A, 60, 60))}


def allowed_polls(p, target, heal, dt):
    """Documented number of consecutive genuine polls after which ``target`` must be served; None: only after a gap."""
    base = batt.held(p, A)
    if base is None or None in base or batt.impossible(base):
        return None if batt.cohort(target) else 2
    ph, const, ser = batt.trips(base, target)
    if ser:
        return None
    if const:
        need = max(batt.HEAL_POLLS, int(-(-heal["scalar"] // dt)) + 1)
        return need
    if len(ph) >= 2:
        if heal["surge"] is None or not batt.surge(target, ph):
            return None
        return max(batt.HEAL_POLLS, int(-(-heal["surge"] // dt)) + 1)
    return 2 if ph else 1


def recover(t, p, sec, mode, hist, dt, target):
    f = FRAMES[target]
    n = allowed_polls(p, f, mode, dt)
    tr = dict(mode=mode["name"], history=hist, steady=target, every=dt)
    q = ps.clone(p)
    if n is None:
        # documented route: the guard holds; after an observation gap of more than 300 s the next healthy poll is believed
        q.update(MSG[target], received_at=ps.at(sec + dt))
        last = sec + dt
        q.update(MSG[target], received_at=ps.at(last + 301))
        t.add("transitions", 2)
        base = batt.held(p, A)
        if batt.held(q, A) != f and not batt.cohort(f):
            t.violation("not-accepted-after-gap", **tr)
            return False
        # and a reading back within limits of the one held is accepted at once
        if base is not None and None not in base and not batt.impossible(base) and not batt.cohort(base):
            q = ps.clone(p)
            q.update(batt.msg(A, base), received_at=ps.at(sec + dt))
            t.add("transitions")
            q.update(MSG[target], received_at=ps.at(sec + 2 * dt))
            r = ps.clone(q)
            b2 = batt.put(base, r89=(base[29] + 1) & 0xFFFF)
            r.update(batt.msg(A, b2), received_at=ps.at(sec + 3 * dt))
            t.add("transitions", 2)
            if batt.held(q, A) == base and batt.held(r, A) != b2:
                t.violation("held-reading-refused", **tr)
                return False
        return True
    got = None
    for i in range(n):
        q.update(MSG[target], received_at=ps.at(sec + dt * (i + 1)))
        t.add("transitions")
        if batt.held(q, A) == f:
            got = i + 1
            break
    t.outcome((target, n, got))
    if got is None:
        t.violation("locked-out", allowed=n, held=[(60 + i, v, f[i]) for i, v in enumerate(batt.held(q, A) or []) if v != f[i]][:6], **tr)
        return False
    # accepted: from now on it is the pack's own data and the next poll is accepted too
    g = batt.put(f, r89=(f[29] + 1) & 0xFFFF)
    q.update(batt.msg(A, g), received_at=ps.at(sec + dt * (got + 1)))
    t.add("transitions")
    if batt.held(q, A) != g:
        t.violation("refused-after-acceptance", **tr)
        return False
    return True


MODES = {
    "default": {"name": "default", "kw": {}, "scalar": 900.0, "surge": None},
    "heal": {"name": "heal", "kw": {"splice_reject_heal_seconds": 300.0}, "scalar": 900.0, "surge": 300.0},
    "quick-heal": {"name": "quick-heal", "kw": {"splice_heal_seconds": 120.0, "splice_reject_heal_seconds": 0.0}, "scalar": 120.0, "surge": 0.0},
}


def reach(t, shard, depth=3, letters=(), dts=(30, 290), targets=GENUINE, cap=200000):
    mname, starts, firsts = shard
    mode = MODES[mname]
    for start in starts:
        p = Plant(capabilities=plants.caps("hybrid2"), **mode["kw"])
        sec = 0
        if start == "warm":
            for k in range(2):
                p.update(MSG["G"], received_at=ps.at(30 * k))
            sec = 30
        seen = {}
        frontier = [(p, sec, [start])]
        for d in range(depth + 1):
            nxt = []
            for p, sec, h in frontier:
                for target in targets:
                    for dt in ((100,) if d < depth else (100, 30)):
                        if dt == 30 and target not in ("G", "soc", "fw"):
                            continue
                        recover(t, p, sec, mode, h, dt, target)
                if t.full:
                    return
                if d == depth:
                    continue
                for i, (k, dt) in enumerate((k, dt) for dt in dts for k in letters):
                    if d == 0 and i not in firsts:
                        continue
                    q = ps.clone(p)
                    now = sec + dt
                    q.update(MSG[k], received_at=ps.at(now))
                    t.add("transitions")
                    key = ps.canon(q, ps.at(now), SKIP)
                    if key in seen:
                        t.add("merged")
                        continue
                    if len(seen) > cap:
                        t.add("truncated")
                        continue
                    seen[key] = True
                    nxt.append((q, now, h + [f"{k}+{dt}"]))
            frontier = nxt
            t.add("states", len(frontier))
    t.sample({"mode": mname, "start": starts, "letters": list(letters)})


def insist(t, shard):
    """Long bad runs, then genuine data; plus exactness of the healing bounds, for every poll spacing."""
    for mname, bad, target, dt, n in shard:
        mode = MODES[mname]
        p = Plant(capabilities=plants.caps("hybrid2"), **mode["kw"])
        for k in range(2):
            p.update(MSG["G"], received_at=ps.at(30 * k))
        sec = 30
        for i in range(n):
            sec += dt
            p.update(MSG[bad], received_at=ps.at(sec))
        t.add("transitions", n + 2)
        t.add("states")
        recover(t, p, sec, mode, ["warm", f"{bad}*{n} every {dt}"], dt if dt <= 300 else 30, target)
        if t.full:
            return


MOVING = {
    "fw+energy rising": lambda i: batt.put(FRAMES["fw+energy"], r105=9000 + i, r106=9100 + 2 * i),
    "fw+soc falling": lambda i: batt.put(FRAMES["fw"], r100=80 - i % 5),
    "fw+temps": lambda i: batt.put(FRAMES["fw"], r76=400 + i % 7, r77=410 + i % 5, r103=390 + i % 3),
    "fw+cap": lambda i: batt.put(FRAMES["fw"], r89=(12000 + 9 * i) & 0xFFFF),
    "fw, pack near its limits": lambda i: batt.put(FRAMES["fw"], r60=3300 + 301 * (i & 1)),
    "count+energy": lambda i: batt.put(FRAMES["count"], r105=700 + 3 * i),
    "surge rising": lambda i: batt.put(FRAMES["surge"], **{f"r{60 + k}": 3650 + k + 2 * i for k in range(16)}, r80=58500 + 20 * i, r83=58500 + 20 * i),
    "soc falling": lambda i: batt.put(G, r100=90 - i % 3),
}


def moving(t, shard):
    """A changed pack whose readings keep moving from poll to poll is believed within the same bounds as a steady one."""
    for mname, kind, dt, cut in shard:
        mode, f = MODES[mname], MOVING[kind]
        p = Plant(capabilities=plants.caps("hybrid2"), **mode["kw"])
        for k in range(2):
            p.update(MSG["G"], received_at=ps.at(30 * k))
        n = allowed_polls(p, f(0), mode, dt)
        t.add("states")
        if n is None:
            continue
        sec, i = 30, 0
        if cut:  # a run of the change that a genuine old reading interrupted, then the change for good
            for i in range(cut):
                sec += dt
                p.update(batt.msg(A, f(i)), received_at=ps.at(sec))
            sec += dt
            if batt.held(p, A) != G:
                continue
            p.update(MSG["G"], received_at=ps.at(sec))
        got = None
        for j in range(n):
            sec += dt
            p.update(batt.msg(A, f(j)), received_at=ps.at(sec))
            t.add("transitions")
            if batt.held(p, A) == f(j):
                got = j + 1
                break
        t.outcome((kind, mname, n, got))
        if got is None:
            t.violation("locked-out-while-moving", mode=mname, change=kind, every=dt, interrupted_after=cut, allowed=n)
        if t.full:
            return


def drift(t, shard):
    """Every guarded reading may move by the documented limit at every value it can take, and one step beyond it is believed when repeated."""
    for reg in shard:
        cls, lim = ({**batt.SINGLE, **batt.PAIR})[reg]
        pair = reg in batt.PAIR
        lo, hi = {"cell": (0, 5000), "temp": (-600, 1500), "mosfet": (-600, 1500), "sum": (16000, 65535), "soc": (0, 100), "energy": (0, 65535), "vout": (16000, 80000), "cap": (0, 200000)}[cls]

        def fr(v):
            b = batt.put(G, r97=16)
            if pair:
                return batt.put(b, **{f"r{reg}": v >> 16, f"r{reg + 1}": v & 0xFFFF})
            return batt.put(b, **{f"r{reg}": v})
        vals = {lo, lo + 1, hi, hi - 1, 0, 1, -1, 255, 256, 32767, 32768, 65535, 65536, 65537, 131071, 131072}
        vals |= set(range(lo, hi, max(1, (hi - lo) // 60)))
        for v in sorted(x for x in vals if lo <= x <= hi):
            for d in (-lim - 1, -lim, -1, 1, lim, lim + 1):
                w = v + d
                if not lo <= w <= hi:
                    continue
                p = Plant(capabilities=plants.caps("hybrid2"))
                f, g = fr(v), fr(w)
                for k in range(2):
                    p.update(batt.msg(A, f), received_at=ps.at(30 * k))
                if batt.held(p, A) != f:
                    t.violation("steady-not-adopted", register=reg, value=v)
                    continue
                p.update(batt.msg(A, g), received_at=ps.at(60))
                t.add("transitions", 3)
                t.add("states")
                h = batt.held(p, A)
                if abs(d) <= lim:
                    if h != g:
                        t.violation("ordinary-movement-refused", register=reg, before=v, after=w)
                else:
                    p.update(batt.msg(A, g), received_at=ps.at(90))
                    t.add("transitions")
                    if batt.held(p, A) != g:
                        t.violation("lone-step-not-believed-on-repeat", register=reg, before=v, after=w)
                t.outcome((cls, abs(d) <= lim, h == g))
    t.sample({"registers": shard})


def trends(t, shard):
    """A pack whose readings all drift together (cooling through zero, charging up, discharging) is served fresh at every poll."""
    for name, dt, step in shard:
        p = Plant(capabilities=plants.caps("hybrid2"))
        n = late = 0
        for i in range(-120, 121):
            if name == "temps":
                v = i * step
                if abs(v) > 600:
                    continue
                f = batt.put(G, r76=v, r77=v + 1, r78=v - 2, r79=v + 3, r81=v + 20, r103=v + 4, r104=v - 3)
                if batt.cohort(f):
                    continue  # two sensors at exactly 0.0 degC read like the documented corruption signature
            elif name == "charge":
                s = min(100, max(0, (i + 120) * step // 4))
                c = 2900 + 3 * (i + 120)
                f = batt.put(G, r100=s, r89=min(65535, 60 * (i + 120) * step // 2), **{f"r{60 + k}": c + k for k in range(16)}, r80=(16 * c + 120) & 0xFFFF, r82=(16 * c) >> 16, r83=(16 * c) & 0xFFFF)
            else:
                f = batt.put(G, r105=1000 + (i + 120) * step, r106=2000 + (i + 120) * step, r96=i + 121)
            p.update(batt.msg(A, f), received_at=ps.at(dt * n))
            n += 1
            t.add("transitions")
            if dt > batt.GAP and batt.held(p, A) is None:
                late += 1
                if late < 10:
                    continue
                t.violation("never-adopted-when-every-poll-is-a-gap", trend=name, every=dt, polls=late)
                break
            if n >= 2 and batt.held(p, A) != f:
                t.violation("trend-refused", trend=name, every=dt, step=step, at=i, held=[(60 + k, v, f[k]) for k, v in enumerate(batt.held(p, A) or []) if v != f[k]][:6])
                break
        t.add("states", n)


def main():
    c = Check("P04", "model_checking")
    L = list(FRAMES) + list(FOREIGN) + ["err", "shortG"]
    few = ["G", "soc", "cell", "soc+temp", "surge", "fw", "fw+energy", "swap", "T", "X", "Z", "HR"]
    dts = (30, 290)

    def sh(letters, dts, modes, parts):
        idx = range(len(letters) * len(dts))
        return [(m, (s,), tuple(f)) for m in modes for s in ("cold", "warm") for f in split(idx, parts)]
    if c.quick:
        c.run(reach, sh(L, (30,), ("default", "heal"), 8), depth=2, letters=tuple(L), dts=(30,))
        c.run(reach, sh(few, (30, 310), ("default", "quick-heal"), 8), depth=2, letters=tuple(few), dts=(30, 310))
    else:
        c.run(reach, sh(L, (30, 290, 310), MODES, 16), depth=2, letters=tuple(L), dts=(30, 290, 310))
        c.run(reach, sh(few, (30, 310), MODES, 16), depth=3, letters=tuple(few), dts=(30, 310), targets=("G", "soc", "surge", "fw+energy", "swap"))
        c.run(reach, sh(few[:8], (30,), ("default", "heal"), 16), depth=4, letters=tuple(few[:8]), dts=(30,), targets=("G", "soc", "fw"))
    ins = [(m, b, g, dt, n) for m in MODES for b in ("T", "X", "Z", "junk", "soc+temp", "surge", "fw", "swap", "badser", "err", "HR", "cell") for g in GENUINE for dt in (5, 30, 100, 299) for n in c.pick((1, 3, 12), (1, 2, 5, 9, 10, 11, 40, 120))]
    if c.quick:
        ins = [x for x in ins if x[3] in (30, 100) or x[4] == 12]
    c.run(insist, split(ins, 32))
    c.run(moving, split([(m, k, dt, cut) for m in MODES for k in MOVING for dt in (5, 30, 100, 299) for cut in (0, 1, 2, 5, 9)], 16))
    c.run(drift, split(list(batt.SINGLE) + list(batt.PAIR), 29))
    c.run(trends, split([(n, dt, s) for n in ("temps", "charge", "energy") for dt in (5, 30, 299, 301) for s in (1, 2, 5)], 8))
    n = c.total.n
    if n.get("truncated"):
        c.exhaustive = False
    c.assumptions += ["'genuine' means the replies describe one pack consistently from poll to poll; several readings jumping at once, or a different serial, are documented as held until they return or an observation gap of more than 300 s",
                      "short reads carry genuine values (a short read of wrong values over good data is documented as stored unclassified)"]
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("transitions", 0), "merged_states": n.get("merged", 0), "letters": len(L)})


if __name__ == "__main__":
    main()
