"""C07: every subset of failing requests in every multi-request operation and plant type; the report and the data must both be honest."""
import asyncio, itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop, plants
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, caches, outcome
from mc.plants import Spec
from givenergy_modbus import pdu as P
from givenergy_modbus.exceptions import RefreshPartiallySucceeded, RefreshFailed, RefreshError

LAT = 0.03
KINDS = ("silent", "error", "corrupt", "late", "flaky", "err-then-ok", "foreign")
FAILS = {"silent", "error", "corrupt", "late", "foreign"}

SPECS = {
    "gen1": Spec("HYBRID_GEN1", batts=(0x32,)),
    "hybrid2": plants.SPECS["hybrid2"],
    "gen3": plants.SPECS["gen3"],
    "ac": plants.SPECS["ac"],
    "ems": plants.SPECS["ems"],
    "gateway": plants.SPECS["gateway"],
    "aio": Spec("ALL_IN_ONE", stacks=(3,)),
    "hv3ph": Spec("HYBRID_3PH", stacks=(2,)),
    "bare": Spec("POLAR"),
    "ems0": Spec("EMS", managed=1),  # a poll of a single request
    "lv6": Spec("HYBRID_GEN2", batts=tuple(range(0x32, 0x38)), meters=(1, 2)),
}


def blocks(spec, op):
    return plants.poll_reads(spec) if op == "refresh" else plants.config_reads(spec)


def bump(banks, spec, op):
    """One register of every block of the operation moves on."""
    for dev, kind, base, n in blocks(spec, op):
        r = 60 if 0x32 <= dev <= 0x6F else 99 if 0x70 <= dev < 0x90 else 63 if dev == 0x31 else base + n - 1
        banks[dev][kind][r] = banks[dev][kind].get(r, 0) + 1


def snap(plant, blk):
    dev, kind, base, n = blk
    c = caches(plant).get(dev, {})
    return [c.get((kind, base + i)) for i in range(n)]


def key(r):
    return (r["dev"], {"read_hr": "HR", "read_ir": "IR"}.get(r["kind"]), r["base"], r["count"])


def corrupt(f):
    return f[:-1] + bytes([f[-1] ^ 0x40])


def poll(t, jobs):
    for name, op, bad, retries, cold in jobs:
        spec = SPECS[name]
        blks = blocks(spec, op)
        badmap = {blks[i]: k for i, k in bad}
        dev = Device(**plants.tables(spec), latency=LAT)
        armed = {"on": False, "seen": {}}
        T = 0.5

        def script(i, r):
            if not armed["on"] or r["kind"] == "heartbeat":
                return None
            k = key(r)
            armed["seen"][k] = n = armed["seen"].get(k, 0) + 1
            what = badmap.get(k)
            if what is None:
                return None
            good = dev.answer(r)
            err = w.error_response(r["fc"], r["dev"], r["base"], r["count"])
            if what == "silent": return []
            if what == "error": return [(LAT, err)]
            if what == "corrupt": return [(LAT, corrupt(good))]
            if what == "late": return []
            if what == "foreign":
                return [(LAT, w.read_response(r["fc"], r["dev"], r["base"], [7] * (r["count"] - 1))) if r["dev"] == 0x11 and False else (LAT, w.null_response())]
            if what == "flaky": return [] if n == 1 else None
            return [(LAT, err)] if n == 1 else None
        dev.script = script
        rec = {}

        async def main(loop):
            c = client(tx_message_wait=0.02, tx_jitter=0)
            c.plant.capabilities = plants.caps(spec)
            await c.connect()
            if not cold:
                await (c.refresh(timeout=T, retries=1) if op == "refresh" else c.load_config(timeout=T, retries=1))
                await asyncio.sleep(20)
            rec["before"] = {b: snap(c.plant, b) for b in blks}
            rec["whole"] = caches(c.plant)
            bump(dev.banks, spec, op)
            armed["on"] = True
            a = loop.time()
            o = await outcome(c.refresh(timeout=T, retries=retries, retry_delay=0.1) if op == "refresh" else c.load_config(timeout=T, retries=retries, retry_delay=0.1))
            rec["took"] = loop.time() - a
            rec["after"] = {b: snap(c.plant, b) for b in blks}
            rec["whole2"] = caches(c.plant)
            rec["same"] = o[0] == "ok" and o[1] is c.plant or isinstance(o[1], RefreshPartiallySucceeded) and o[1].plant is c.plant or isinstance(o[1], RefreshFailed)
            await c.close()
            return o
        res, loop = vloop.run(main, dev.net, horizon=3000)
        ctx = dict(plant=name, op=op, bad=[[list(blks[i]), k] for i, k in bad], retries=retries, cold=cold)
        t.add("states"); t.add("transitions", loop.steps)
        if isinstance(res, BaseException):
            t.violation("stuck", error=repr(res), **ctx); continue
        failing = [b for b in blks if badmap.get(b) in FAILS or (badmap.get(b) in ("flaky", "err-then-ok") and retries == 0)]
        k, v = res
        want = "ok" if not failing else "failed" if len(failing) == len(blks) else "partial"
        got = "ok" if k == "ok" else "partial" if isinstance(v, RefreshPartiallySucceeded) else "failed" if isinstance(v, RefreshFailed) else repr(v)[:100]
        t.outcome((name, op, got, len(failing)))
        if got != want:
            t.violation("report", want=want, got=got, **ctx); continue
        if not rec["same"]:
            t.violation("report-carries-other-plant", **ctx)
        if isinstance(v, RefreshError):
            named = sorted((f.device_address, "HR" if "Holding" in f.request_type else "IR", f.base_register, f.register_count) for f in v.failures)
            if named != sorted(failing) or len(v.cause.exceptions) != len(failing):
                t.violation("failures-misnamed", got=named, want=sorted(failing), **ctx)
        for b in blks:
            if b in failing:
                if rec["after"][b] != rec["before"][b]:
                    t.violation("failed-block-changed", block=b, before=rec["before"][b][:8], after=rec["after"][b][:8], **ctx); break
            else:
                truth = [dev.banks[b[0]][b[1]].get(b[2] + i, 0) for i in range(b[3])]
                held = cold and 0x32 <= b[0] <= 0x37  # the first reading of a pack is held back until a second one agrees
                if rec["after"][b] != truth and not (held and rec["after"][b] == rec["before"][b]):
                    t.violation("answered-block-not-applied", block=b, got=rec["after"][b][:8], want=truth[:8], **ctx); break
        cover = {(d, kd, bs + i) for d, kd, bs, n in blks for i in range(n)}
        other = [(d, q) for d, cch in rec["whole2"].items() for q, val in cch.items() if (d,) + q not in cover and rec["whole"].get(d, {}).get(q) != val]
        if other:
            t.violation("unrelated-registers-changed", which=other[:5], **ctx)
        bound = len(blks) * (retries + 1) * 0.05 + (retries + 1) * (T + 0.1) + 1
        if rec["took"] > bound:
            t.violation("too-slow", took=rec["took"], bound=bound, **ctx)
        t.sample({**ctx, "report": got, "failures": len(failing), "of": len(blks)}, 1)
        if t.full:
            return


WR = [(96, 1), (116, 60), (110, 9), (111, 30), (27, 1)]


def commands(t, jobs):
    for n, bad, retries, via in jobs:
        spec = SPECS["hybrid2"]
        dev = Device(**plants.tables(spec), latency=LAT)
        badmap = {WR[i][0]: k for i, k in bad}
        seen = {}

        def script(i, r):
            if r["kind"] != "write":
                return None
            seen[r["register"]] = m = seen.get(r["register"], 0) + 1
            what = badmap.get(r["register"])
            if what is None:
                return None
            err = w.write_response(r["dev"], r["register"], r["value"], error=True)
            if what in ("silent", "late"): return []
            if what == "error": return [(LAT, err)]
            if what == "corrupt": return [(LAT, corrupt(w.write_response(r["dev"], r["register"], r["value"])))]
            if what == "foreign": return [(LAT, w.write_response(r["dev"], r["register"] + 2, r["value"]))]
            if what == "flaky": return [] if m == 1 else None
            return [(LAT, err)] if m == 1 else None
        dev.script = script
        rec = {}

        async def main(loop):
            c = client(tx_message_wait=0.02, tx_jitter=0)
            c.plant.capabilities = plants.caps(spec)
            await c.connect()
            await c.load_config(timeout=1, retries=0)
            rec["before"] = caches(c.plant)[0x11]
            rq = [P.WriteHoldingRegisterRequest(register=r, value=v) for r, v in WR[:n]]
            f = {"one_shot": c.one_shot_command, "installer": c.installer_command}.get(via)
            o = await outcome(f(rq, timeout=0.5, retries=retries, retry_delay=0.1) if f else c.execute(rq, timeout=0.5, retries=retries, retry_delay=0.1))
            rec["done"] = loop.time()
            await asyncio.sleep(10)
            rec["after"] = caches(c.plant)[0x11]
            await c.close()
            return o
        res, loop = vloop.run(main, dev.net, horizon=3000)
        ctx = dict(writes=n, bad=bad, retries=retries, via=via)
        t.add("states"); t.add("transitions", loop.steps)
        if isinstance(res, BaseException):
            t.violation("stuck", error=repr(res), **ctx); continue
        failing = {WR[i][0] for i, k in bad if k in FAILS or retries == 0}
        t.outcome((via, res[0], len(failing)))
        if (res[0] == "ok") != (not failing):
            t.violation("command-report", outcome=res[0], failing=sorted(failing), **ctx)
        if res[0] not in ("ok", "timeout"):
            t.violation("command-failure-kind", outcome=res[0], **ctx)
        for r, v in WR[:n]:
            want = rec["before"].get(("HR", r)) if r in failing else v
            if rec["after"].get(("HR", r)) != want:
                t.violation("command-value", register=r, got=rec["after"].get(("HR", r)), want=want, **ctx)
        regs = {r for r, _ in WR[:n]} | {r + 2 for r, _ in WR[:n]}
        ch = {q for q in rec["after"] if rec["after"][q] != rec["before"].get(q) and q[1] not in regs}
        if ch:
            t.violation("command-touched-others", which=sorted(ch)[:5], **ctx)
        if t.full:
            return


def big(t, jobs):
    """Every plant of the family with the shipped pacing: an answering plant is never reported as failing, one silent device is named exactly."""
    for spec, op, silent, rnd in jobs:
        blks = blocks(spec, op)
        dev = Device(**plants.tables(spec), latency=LAT)
        dev.script = lambda i, r: [] if silent is not None and r["kind"] != "heartbeat" and key(r) == blks[silent] else None
        vloop.set_rand(rnd)

        async def main(loop):
            c = client()
            c.plant.capabilities = plants.caps(spec)
            await c.connect()
            o = await outcome(c.refresh() if op == "refresh" else c.load_config())
            got = {b: snap(c.plant, b) for b in blks}
            await c.close()
            return o, got
        try:
            res, loop = vloop.run(main, dev.net, horizon=3000)
        finally:
            vloop.set_rand(0.0)
        ctx = dict(plant=spec.key(), op=op, silent=silent, rnd=rnd)
        t.add("states"); t.add("transitions", loop.steps)
        if isinstance(res, BaseException):
            t.violation("stuck", error=repr(res), **ctx); continue
        (k, v), got = res
        if silent is None:
            if k != "ok":
                t.violation("answering-plant-reported-failing", outcome=k, error=repr(v)[:200], failures=[list(f) for f in getattr(v, "failures", [])][:4], **ctx); continue
        else:
            want = [blks[silent]]
            named = [(f.device_address, "HR" if "Holding" in f.request_type else "IR", f.base_register, f.register_count) for f in getattr(v, "failures", [])]
            if named != want or (len(blks) > 1) != isinstance(v, RefreshPartiallySucceeded):
                t.violation("silent-device-misreported", outcome=k, named=named[:5], want=want, **ctx)
        for i, b in enumerate(blks):
            if i != silent and not 0x32 <= b[0] <= 0x37 and got[b] != [dev.banks[b[0]][b[1]].get(b[2] + j, 0) for j in range(b[3])]:
                t.violation("block-missing", block=b, **ctx); break
        if t.full:
            return


def main():
    c = Check("C07", "model_checking")
    jobs = []
    for name, spec in SPECS.items():
        for op in ("refresh", "load_config"):
            n = len(blocks(spec, op))
            kmax = n if n <= c.pick(5, 8) else c.pick(1, 2)
            subs = [s for k in range(kmax + 1) for s in itertools.combinations(range(n), k)]
            subs += [tuple(x for x in range(n) if x not in s) for s in [q for k in range(2) for q in itertools.combinations(range(n), k)]]
            subs = list(dict.fromkeys(subs))
            for s in subs:
                for k in KINDS:
                    for retries in (0, 1):
                        if k == "late":
                            continue
                        jobs.append((name, op, tuple((i, k) for i in s), retries, False))
                        if not s:
                            break
                    jobs.append((name, op, tuple((i, k) for i in s), 0, True)) if k == "silent" else None
            # mixtures of kinds
            for a, b in itertools.combinations(range(n), 2):
                if n > c.pick(5, 12):
                    break
                for ka, kb in itertools.product(("silent", "error", "flaky", "corrupt"), repeat=2):
                    if ka != kb:
                        jobs.append((name, op, ((a, ka), (b, kb)), 1, False))
    c.total.info["polls"] = len(jobs)
    c.run(poll, split(jobs, 96))
    cj = []
    for n in range(1, 6):
        for k in range(n + 1):
            for s in itertools.combinations(range(n), k):
                for kinds in itertools.product(("silent", "error", "corrupt", "flaky", "err-then-ok", "foreign"), repeat=k) if k <= c.pick(2, 3) else [(x,) * k for x in ("silent", "error", "corrupt", "flaky")]:
                    for retries in (0, 1):
                        for via in ("one_shot", "installer", "execute"):
                            cj.append((n, tuple(zip(s, kinds)), retries, via))
    c.run(commands, split(cj, 64))
    fam = list({(s.model, s.batts, s.meters, s.bcu, s.stacks, s.managed): s for s in plants.family("small" if c.quick else "full")}.values())
    bj = [(s, op, None, r) for s in fam for op in (("refresh", "load_config") if not s.meters else ("refresh",)) for r in ((1.0,) if c.quick else (0.0, 1.0))]
    for s in fam:
        if len(blocks(s, "refresh")) > 14 and (not c.quick or s.meters in ((), (1, 8)) and s.model in ("HYBRID_3PH", "ALL_IN_ONE_HYBRID", "GATEWAY")):
            bj += [(s, "refresh", i, 1.0) for i in range(0, len(blocks(s, "refresh")), c.pick(3, 1))]
    if not c.quick:
        bj = bj[::max(1, len(bj) // 40000)]
    c.total.info["family"] = len(bj)
    c.run(big, split(bj, 96))
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
