"""P07: the comms-quality counters count every refused, held or re-requested frame exactly once, on its device and reason, and nothing else."""
import os, sys, itertools, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, plants, ps, batt, vloop, view
from mc.report import Check, split
from mc.cl import Plant, client, Device, outcome
from mc.plants import Spec
from givenergy_modbus import pdu as P

A, B = 0x32, 0x33
CRC, REJ, HELD, RETRY, COLD = NAMES = ("crc_failure_count", "splice_reject_count", "splice_held_count", "retry_count", "cold_start_held_count")
SKIP = ps.COUNTERS | {"_splice_reject_burst", "_block_unchanged_since", "register_block_present", "register_block_changed_at"}
SPEC = Spec("HYBRID_GEN2", batts=(A, B), meters=(1,))
TAB = plants.banks(SPEC)


def counts(p):
    return {(n, d): v for n in NAMES for d, v in getattr(p, n).items() if v}


class L:
    """One message: what it is on the wire, and the facts the documentation classifies it by."""

    def __init__(self, name, dev, kind, base, n, msg, frame=None, bad=False, quiet=False):
        self.name, self.dev, self.kind, self.base, self.n, self.msg, self.frame, self.bad, self.quiet = name, dev, kind, base, n, msg, frame, bad, quiet


def good(dev):
    return batt.frame(dev)


def battery_letters(dev):
    G = good(dev)
    F = {"G": G, "G1": batt.frame(dev, 1), "soc": batt.put(G, r100=75), "soc2": batt.put(G, r100=60), "cell": batt.put(G, r63=2500),
         "soc+temp": batt.put(G, r100=75, r76=400, r77=400, r103=400), "surge": batt.put(G, **{f"r{60 + i}": 3650 + i for i in range(16)}, r80=58500, r83=58500),
         "surge2": batt.put(G, **{f"r{60 + i}": 3655 + i for i in range(16)}, r80=58550, r83=58550), "fw": batt.put(G, r98=3022), "fw2": batt.put(G, r98=3023), "count": batt.put(G, r97=15),
         "fw+temp": batt.put(G, r98=3022, r100=75, r76=400), "swap": [*G[:50], *wire.serial_regs(plants.serial("BA", 41)), *G[55:]],
         "swap+temp": batt.put([*G[:50], *wire.serial_regs(plants.serial("BA", 41)), *G[55:]], r76=400, r77=400, r100=75),
         "swap+fw": batt.put([*G[:50], *wire.serial_regs(plants.serial("BA", 41)), *G[55:]], r98=3022),
         "T": batt.put(G, r76=0, r77=0, r78=0, r79=0, r103=0, r104=0), "X": [0] * 16 + G[16:], "Z": [0] * 60, "badser": [*G[:50], *[0x2020] * 5, *G[55:]]}
    out = {k: L(k, dev, "IR", 60, 60, batt.msg(dev, f), f) for k, f in F.items()}
    S = {"shortG": (60, G[:16]), "shortT": (76, [0, 0, 0, 0]), "shortT2": (60, G[:16] + [0, 0, 150, 150]), "shortSoc": (100, [G[40]]), "shortTemp1": (76, [0]), "tail": (110, G[50:])}
    out |= {k: L(k, dev, "IR", b, len(v), ps.reply(dev, "IR", b, v), v) for k, (b, v) in S.items()}
    out["crc"] = L("crc", dev, "IR", 60, 60, ps.reply(dev, "IR", 60, G, crc=0x1234), G, bad=True)
    out["crcT"] = L("crcT", dev, "IR", 60, 60, ps.reply(dev, "IR", 60, F["T"], crc=0x1234), F["T"], bad=True)
    out["err"] = L("err", dev, "IR", 60, 60, ps.pdu(wire.error_response(4, dev, 60, 60)), quiet=True)
    out["null"] = L("null", dev, "IR", 60, 60, ps.pdu(wire.null_response()), quiet=True)
    out["HR"] = L("HR", dev, "HR", 0, 60, ps.bank(dev, "HR", 0, 60, {k: k + 1 for k in range(60)}), quiet=True)
    return out


def other_letters():
    out = {}
    for dev, kind, base, n in ((0x11, "IR", 0, 60), (0x11, "HR", 0, 60), (0x11, "HR", 60, 60), (1, "IR", 60, 30)):
        v = [TAB[dev].get(kind, {}).get(base + i, 0) for i in range(n)]
        nm = f"{dev:x}{kind}{base}"
        out[nm] = L(nm, dev, kind, base, n, ps.reply(dev, kind, base, v), quiet=True)
        out[nm + "Z"] = L(nm + "Z", dev, kind, base, n, ps.reply(dev, kind, base, [0] * n), quiet=True)
        out[nm + "crc"] = L(nm + "crc", dev, kind, base, n, ps.reply(dev, kind, base, v, crc=0x4321), bad=True)
    out["write"] = L("write", 0x11, "HR", 20, 1, ps.pdu(wire.write_response(0x11, 20, 1)), quiet=True)
    out["writecrc"] = L("writecrc", 0x11, "HR", 20, 1, ps.pdu(wire.write_response(0x11, 20, 1, crc=7)), bad=True)
    out["hb"] = L("hb", 0, "", 0, 0, ps.pdu(wire.heartbeat(wire.ADAPTER, 1)), quiet=True)
    return out


def expected(p, lt, committed, heal):
    """Counter increments the documentation prescribes: a set of allowed {(counter, device): 1} alternatives."""
    if lt.bad:
        return [{(CRC, lt.dev): 1}]
    if lt.quiet or committed:
        return [{}]
    d = lt.dev
    if lt.n < 60:
        off = lt.base - 60
        temps = [lt.frame[i - off] for i in (16, 17, 18, 19) if 0 <= i - off < lt.n]
        return [{(REJ, d): 1}] if sum(v == 0 for v in temps) >= 2 else [{}]
    f = lt.frame
    if not any(f) or not batt.serial_ok(f) and not batt.impossible(f):
        return [{}]
    if batt.impossible(f):
        return [{(REJ, d): 1}]
    base = batt.held(p, d)
    if base is None or None in base or batt.impossible(base):
        return [{(COLD, d): 1}]
    ph, const, ser = batt.trips(base, f)
    if ser:
        r = [{(REJ, d): 1}]
    elif const:
        r = [{(HELD, d): 1}]
    elif len(ph) >= 2:
        r = [{(HELD, d): 1}] if heal and batt.surge(f, ph) else [{(REJ, d): 1}]
    elif ph:
        r = [{(HELD, d): 1}]
    else:
        r = []
    if batt.cohort(f):  # after an observation gap the corruption signature is refused rather than believed
        r.append({(REJ, d): 1})
    return r


def feed(t, p, lt, sec, heal, hist):
    """Apply one message to a copy of ``p``; returns the copy."""
    q = ps.clone(p)
    c0 = counts(p)
    q.update(lt.msg, received_at=ps.at(sec))
    t.add("transitions")
    done = q.register_block_updated_at.get((lt.dev, lt.kind, lt.base, lt.n)) == ps.at(sec)
    c1 = counts(q)
    delta = {k: c1.get(k, 0) - c0.get(k, 0) for k in set(c0) | set(c1) if c1.get(k, 0) != c0.get(k, 0)}
    want = expected(p, lt, done, heal)
    if delta not in want:
        t.violation(f"miscounted:{lt.name}", history=hist + [lt.name], device=lt.dev, accepted=done, counted=[f"{n}[{d:#x}]{v:+d}" for (n, d), v in delta.items()],
                    documented=[[f"{n}[{d:#x}]{v:+d}" for (n, d), v in w.items()] for w in want])
    t.outcome((lt.name, done, tuple(sorted(n for n, _ in delta))))
    return q


MODES = {"default": {}, "heal": {"splice_reject_heal_seconds": 60.0}, "quick-heal": {"splice_heal_seconds": 60.0, "splice_reject_heal_seconds": 0.0}}


def guard(t, shard, depth=3, dts=(30, 310), letters=None):
    """Every history of frames to a depth, from a cold and a warm plant, with both batteries."""
    for mode, start, first in shard:
        kw = MODES[mode]
        heal = "splice_reject_heal_seconds" in kw
        LA = battery_letters(A)
        LB = {k + "'": v for k, v in battery_letters(B).items() if k in ("G", "soc", "T", "crc", "X")}
        ALL = {**(LA if letters is None else {k: LA[k] for k in letters}), **LB, **{k: v for k, v in other_letters().items() if k in ("11IR0crc", "11IR0Z", "hb")}}
        p = Plant(capabilities=None if start == "unknown" else plants.caps(SPEC), **kw)
        sec = 0
        if start != "cold":
            for k in range(2):
                for lt in (LA["G"], LB["G'"]):
                    p = feed(t, p, lt, 30 * k, heal, [start])
            p.update(other_letters()["11IR0"].msg, received_at=ps.at(30))
            sec = 30
        frontier, seen = [(p, sec, [start])], set()
        for d in range(depth):
            nxt = []
            for p, sec, h in frontier:
                for k, lt in ALL.items():
                    if d == 0 and k != first:
                        continue
                    for dt in dts:
                        q = feed(t, p, lt, sec + dt, heal, h + [f"+{dt}"])
                        if t.full:
                            return
                        key = ps.canon(q, ps.at(sec + dt), SKIP)
                        if key in seen:
                            t.add("merged")
                            continue
                        seen.add(key)
                        nxt.append((q, sec + dt, h + [f"+{dt}", k]))
            frontier = nxt
            t.add("states", len(frontier))
        t.sample({"mode": mode, "start": start, "first": first}, 1)


def runs(t, shard):
    """Long runs of one frame, then another: each poll of the run counts once (holds are counted per event, never per log line)."""
    for mode, a, b, n, dt in shard:
        kw = MODES[mode]
        heal = "splice_reject_heal_seconds" in kw
        LA = battery_letters(A)
        p = Plant(capabilities=plants.caps(SPEC), **kw)
        for k in range(2):
            p = feed(t, p, LA["G"], 30 * k, heal, [])
        sec = 30
        for i, x in enumerate([a] * n + [b] * n + [a] * 2):
            sec += dt
            p = feed(t, p, LA[x], sec, heal, ["warm", f"{a}*{n} {b}*{n} every {dt}", i])
        t.add("states")
        if t.full:
            return


def singles(t, shard):
    """Every kind of message at every device, once on a fresh plant and once on a populated one, with the whole counter table compared; exports and copies."""
    for dev_kind in shard:
        for damaged in (False, True):
            for warm in (False, True):
                for known in (False, True):
                    dev, kind, base, n = dev_kind
                    v = [TAB.get(dev, {}).get(kind, {}).get(base + i, 0) for i in range(n)]
                    p = Plant(capabilities=plants.caps(SPEC) if known else None)
                    if warm:
                        for k in range(2):
                            p.update(ps.reply(dev, kind, base, v), received_at=ps.at(30 * k))
                    c0 = counts(p)
                    m = ps.reply(dev, kind, base, v, **({"crc": 0x1234} if damaged else {}))
                    for rep in range(3):
                        p.update(m, received_at=ps.at(100 + rep))
                        t.add("transitions")
                        c1 = counts(p)
                        delta = {k: c1.get(k, 0) - c0.get(k, 0) for k in set(c0) | set(c1) if c1.get(k, 0) != c0.get(k, 0)}
                        if damaged:
                            want = [{(CRC, dev): 1}]
                        elif 0x32 <= dev <= 0x37 and kind == "IR" and (base, n) == (60, 60) and not warm:
                            want = [{(COLD, dev): 1}] if rep == 0 and any(v) else [{}]
                        else:
                            want = [{}]
                        if delta not in want:
                            t.violation("miscounted-single", device=dev, block=(kind, base, n), damaged=damaged, populated=warm, topology_known=known, repetition=rep, counted=[f"{a}[{d:#x}]{x:+d}" for (a, d), x in delta.items()])
                        c0 = c1
                    t.add("states")
                    t.outcome((damaged, warm, known))


def copies(t, shard):
    """Redacted copies carry the counters and share none of them; exports leave them out; large counts stay exact."""
    LA = battery_letters(A)
    for first in shard:
        p = Plant(capabilities=plants.caps(SPEC))
        for k, x in enumerate((first, "G", "G", "soc", "X", "soc+temp", "crc", "G", "fw")):
            p = feed(t, p, LA[x], 30 * k, False, [first, k])
        p.record_retry(A)
        have = counts(p)
        if {n for n, _ in have} != set(NAMES):
            t.violation("not-all-counted", got=repr(have))
        for k, lt in LA.items():
            q = p.redact()
            if counts(q) != have:
                t.violation("redacted-copy-counters", got=repr(counts(q)), want=repr(have))
            for i in range(3):
                q.update(lt.msg, received_at=ps.at(400 + 30 * i))
            q.record_retry(A)
            t.add("transitions", 5)
            if counts(p) != have:
                t.violation("redacted-copy-shares-counters", frame=k, original=repr(counts(p)), before=repr(have))
            p2 = ps.clone(p)
            r = p2.redact()
            rc = counts(r)
            for i in range(3):
                p2.update(lt.msg, received_at=ps.at(400 + 30 * i))
            p2.record_retry(A)
            if counts(r) != rc:
                t.violation("original-shares-counters-with-redacted-copy", frame=k)
        d = p.model_dump()
        if any(x in d for x in NAMES):
            t.violation("counters-in-export", keys=[x for x in NAMES if x in d])
        for i in range(700):
            p.record_retry(A)
        if counts(p)[RETRY, A] != have[RETRY, A] + 700:
            t.violation("retry-count-inexact", got=counts(p)[RETRY, A])
        t.add("states")


# -- live ---------------------------------------------------------------------------
LIVE = {"gen2": SPEC, "hv": Spec("HYBRID_3PH", stacks=(2,)), "ems": plants.SPECS["ems"], "aio": Spec("ALL_IN_ONE", stacks=(2,)), "bare": Spec("POLAR"), "gateway": plants.SPECS["gateway"]}
LAT, T = 0.03, 0.4
KINDS = ("silent", "error", "crc", "late", "foreign", "silent+err", "err+silent")


def live(t, jobs):
    """The real client: re-sent requests and damaged replies on the wire against the counters."""
    for name, op, target, attempts, retries, delay in jobs:
        spec = LIVE[name]
        ab = plants.absent_script(spec)
        seen, sent = {}, {"crc": {}, "re": {}, "late": {}}
        armed = [False]
        dev = Device(**plants.tables(spec), latency=LAT)

        def script(i, r):
            if not armed[0] or r["kind"] == "heartbeat":
                return ab(i, r) if ab else None
            key = r["raw"]
            k = seen[key] = seen.get(key, -1) + 1
            if k:
                sent["re"][r["dev"]] = sent["re"].get(r["dev"], 0) + 1
            idx = list(seen).index(key)
            if target != "all" and idx != target or k >= len(attempts) or attempts[k] is None:
                return ab(i, r) if ab else None
            what = attempts[k]
            if what == "silent":
                return []
            if what == "error":
                return [(LAT, wire.error_response(r["fc"], r["dev"], r["base"], r["count"]))]
            if what == "late":
                sent["late"][r["dev"]] = sent["late"].get(r["dev"], 0) + 1
                return [(T + 0.05, dev.answer(r) or b"")]
            if what == "crc":
                sent["crc"][r["dev"]] = sent["crc"].get(r["dev"], 0) + 1
                return [(LAT, wire.read_response(r["fc"], r["dev"], r["base"], [7] * r["count"], crc=0x1111))]
            if what == "foreign":
                return [(LAT, wire.read_response(r["fc"], r["dev"], r["base"] + 1, [7] * 5))]
        dev.script = script
        rec = {}

        async def main(loop):
            c = client(tx_message_wait=0.02, tx_jitter=0)
            await c.connect()
            await c.detect(timeout=T, retries=1)
            rec["detect"] = counts(c.plant)
            if op == "rewatch":
                await c.load_config(timeout=T, retries=0)
                await c.refresh(timeout=T, retries=0)
                await c.refresh(timeout=T, retries=0)
            rec["before"] = counts(c.plant)
            armed[0] = True
            fn = c.load_config if op == "config" else c.refresh
            rec["out"] = (await outcome(fn(timeout=T, retries=retries, retry_delay=delay)))[0]
            armed[0] = False
            await __import__("asyncio").sleep(1.0)
            rec["after"] = counts(c.plant)
            await c.close()
            return True
        res, loop = vloop.run(main, dev.net, horizon=9000)
        t.add("states"); t.add("transitions", loop.steps)
        ctx = dict(plant=name, operation=op, request=target, attempts=attempts, retries=retries, retry_delay=delay)
        if res is not True:
            t.violation("stuck", result=repr(res), **ctx)
            continue
        if any(n != COLD for n, _ in rec["detect"]):
            t.violation("healthy-discovery-counts", counted=repr(rec["detect"]), **ctx)
        d = {k: rec["after"].get(k, 0) - rec["before"].get(k, 0) for k in set(rec["after"]) | set(rec["before"])}
        d = {k: v for k, v in d.items() if v and k[0] in (CRC, RETRY)}
        want = {**{(CRC, a): n for a, n in sent["crc"].items()}, **{(RETRY, a): n for a, n in sent["re"].items()}}
        if "late" in attempts and delay == 0 and d != want:
            # a retry answered by the previous attempt's late reply before its turn to transmit is consumed without being sent
            for k in set(d) | set(want):
                if k[0] == RETRY and want.get(k, 0) < d.get(k, 0) <= want.get(k, 0) + sent["late"].get(k[1], 0):
                    want[k] = d[k]
        if d != want:
            t.violation("live-miscounted", counted=[f"{a}[{x:#x}]={v}" for (a, x), v in sorted(d.items())], on_the_wire=[f"{a}[{x:#x}]={v}" for (a, x), v in sorted(want.items())], outcome=rec["out"], **ctx)
        t.outcome((op, rec["out"], len(d)))
        t.sample({**ctx, "outcome": rec["out"]}, 1)
        if t.full:
            return


def probes(t, jobs):
    """Discovery of a plant whose absent addresses stay silent, for every hint and retry count: expected silence is never counted."""
    for name, retries, pr in jobs:
        spec = LIVE[name]
        dev = Device(**plants.tables(spec), latency=LAT)
        rec = {}

        async def main(loop):
            c = client(tx_message_wait=0.02, tx_jitter=0)
            await c.connect()
            await c.detect(timeout=T, retries=retries, probe_timeout=0.2, probe_retries=pr)
            first = counts(c.plant)
            caps = c.plant.capabilities
            await c.detect(timeout=T, retries=retries, probe_timeout=0.2, probe_retries=pr, prior=caps)
            await c.probe_alive(0x11) if False else None
            rec["c"] = (first, counts(c.plant))
            await c.close()
            return True
        res, loop = vloop.run(main, dev.net, horizon=9000)
        t.add("states"); t.add("transitions", loop.steps)
        if res is not True:
            t.violation("stuck", plant=name, result=repr(res))
        elif any(n != COLD for x in rec["c"] for n, _ in x):
            t.violation("expected-silence-counted", plant=name, retries=retries, probe_retries=pr, counted=repr(rec["c"]))
        t.outcome((name, retries, pr))


def main():
    c = Check("P07", "model_checking")
    names = list(battery_letters(A))
    few = ["G", "soc", "soc+temp", "surge", "fw", "swap", "T", "X", "shortT", "crc"]
    firsts = names + ["G'", "soc'", "T'", "crc'", "X'", "11IR0crc", "11IR0Z", "hb"]
    ff = few + ["G'", "soc'", "T'", "crc'", "X'", "11IR0crc", "11IR0Z", "hb"]
    jobs = [[(m, s, f)] for m in MODES for s in ("warm", "cold", "unknown") for f in firsts if not (s == "unknown" and m != "default")]
    c.run(guard, jobs, depth=c.pick(2, 3))
    jobs = [[(m, s, f)] for m in ("default", "heal") for s in ("warm", "cold") for f in ff]
    c.run(guard, jobs, depth=c.pick(3, 4), letters=few, dts=c.pick((30, 310), (30,)))
    R = ["G", "soc", "soc2", "soc+temp", "surge", "surge2", "fw", "fw2", "fw+temp", "swap", "T", "X", "Z", "badser", "shortT", "crc"]
    c.run(runs, split([(m, a, b, n, dt) for m in MODES for a in R for b in R for n in c.pick((11,), (4, 11, 40)) for dt in c.pick((30,), (5, 30, 290, 310))], 48))
    blks = sorted({(d, k, b, n) for s in (SPEC, *plants.SPECS.values()) for d, k, b, n in plants.config_reads(s) + plants.poll_reads(s)} | {(d, "IR", 60, 60) for d in range(0x32, 0x38)} | {(d, "HR", 0, 60) for d in (0x32, 0x11, 0x31, 1)})
    c.run(singles, split(blks, 24))
    c.run(runs, split([("heal" if a == "surge" else "default", a, "G", n, 30) for a in ("soc+temp", "fw", "swap", "T", "X", "crc", "surge", "shortT") for n in c.pick((300,), (300, 3000))], 8))
    c.run(copies, split([k for k in names if k not in ("Z",)], 16))
    jobs = []
    for name, spec in LIVE.items():
        for op, blks in (("config", plants.config_reads(spec)), ("rewatch", plants.poll_reads(spec))):
            n = len(blks)
            for tgt in list(range(n if not c.quick else min(n, 3))) + ["all"]:
                for r in c.pick((0, 2), (0, 1, 2, 3)):
                    for ln in range(1, r + 2):
                        if not c.quick or ln in (1, r + 1):
                            for at in itertools.product(("silent", "error", "crc", "late", "foreign"), repeat=ln if not c.quick or ln < 3 else 1):
                                if c.quick and ln == 3:
                                    at = at * 3
                                if len(at) > 2 and not c.quick and tgt != 0 and len(set(at)) > 2:
                                    continue
                                jobs.append((name, op, tgt, at, r, 0.1 if len(jobs) % 5 else 0))
    c.run(live, split(jobs, 64))
    c.run(probes, split([(n, r, pr) for n in LIVE for r in (0, 1, 3) for pr in (0, 1, 2)], 16))
    c.assumptions += ["Counters of write commands' retries are not judged.", "A corruption-signature frame after an observation gap may count as refused."]
    c.finish({"states": c.total.n.get("states", 0), "transitions": c.total.n.get("transitions", 0), "traces_validated_against_impl": c.total.n.get("states", 0),
              "bounds": f"histories of {c.pick(2, 3)} frames over {len(firsts)} kinds and {c.pick(3, 4)} over {len(ff)}; {len(jobs)} live operations"})


if __name__ == "__main__":
    main()
