"""C08: every plant of the bounded family; discovery, probes and polls only read, and polls read exactly the documented blocks."""
import asyncio, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop, plants
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, outcome
from mc.plants import Spec, HV, EMS


def key(r):
    return (r["dev"], {"read_hr": "HR", "read_ir": "IR", "read_mr": "MR", "write": "WRITE"}[r["kind"]], r["base"], r["count"])


def allowed_in_detect(spec):
    """Every read a discovery may make, from the documented probe table."""
    ok = {(0x11, "HR", 0, 60)} | {(m, "IR", 60, 30) for m in range(1, 9)}
    if spec.hv:
        ok |= {(0xA0, "IR", 60, 5)} | {(0x70 + i, "IR", 60, n) for i in range(0x20) for n in (5, 60)} | {(a, "IR", 60, 60) for a in range(0x50, 0x70)}
    elif not spec.ems:
        ok |= {(a, "IR", 60, 60) for a in range(0x32, 0x38)} | {(0x31, "IR", 60, 60)}
    else:
        ok |= {(0x11, "IR", 2040, 55)}
    return ok


async def phases(c, dev, spec, rec, discover):
    def mark(name, o):
        rec.append((name, o[0], [key(r) for _, _, r in dev.log[rec_n[0]:] if r["kind"] != "heartbeat"]))
        rec_n[0] = len(dev.log)
    rec_n = [len(dev.log)]
    if discover:
        mark("detect", await outcome(c.detect(timeout=0.4, retries=1, probe_timeout=0.2, probe_retries=0)))
        if c.plant.capabilities is None:
            return
        rec.append(("topo", plants.topo(c.plant.capabilities), []))
    else:
        c.plant.capabilities = plants.caps(spec)
    kw = dict(timeout=0.4, retries=0, retry_delay=0.1)
    mark("load_config", await outcome(c.load_config(**kw)))
    mark("refresh", await outcome(c.refresh(**kw)))
    mark("refresh", await outcome(c.refresh(**kw)))
    await asyncio.sleep(0.1)
    mark("refresh", await outcome(c.refresh(max_age=0.0, **kw)))
    mark("probe", await outcome(c.probe_alive(timeout=0.4)))


def sh(t, jobs):
    for spec, discover in jobs:
        dev = Device(**plants.tables(spec), latency=0.01)
        dev.script = plants.absent_script(spec)
        rec = []

        async def main(loop):
            c = client(tx_message_wait=0.01, tx_jitter=0)
            await c.connect()
            await phases(c, dev, spec, rec, discover)
            await c.close()
            return True
        res, loop = vloop.run(main, dev.net, horizon=3000)
        ctx = dict(plant=spec.key(), discover=discover)
        t.add("states"); t.add("transitions", len(dev.log))
        if res is not True:
            t.violation("stuck", error=repr(res), **ctx); continue
        if dev.bad:
            t.violation("malformed-frame", bad=dev.bad[:3], **ctx)
        eff = spec
        for name, o, reads in rec:
            wr = [k for k in reads if k[1] == "WRITE"]
            if wr:
                t.violation("wrote", phase=name, frames=wr[:5], **ctx)
            big = [k for k in reads if not 1 <= k[3] <= 60]
            if big:
                t.violation("oversized-read", phase=name, frames=big[:5], **ctx)
            if name == "detect":
                t.outcome((spec.model, len(reads)))
                extra = sorted(set(reads) - allowed_in_detect(spec))
                if extra:
                    t.violation("undocumented-probe", frames=extra[:5], **ctx)
                if o != "ok":
                    t.violation("detect-failed", outcome=o, **ctx)
            elif name == "probe":
                if reads != [(0x11, "HR", 0, 60)] or o != "ok":
                    t.violation("probe-reads", outcome=o, reads=reads, **ctx)
            elif name in ("load_config", "refresh"):
                want = plants.config_reads(eff) if name == "load_config" else plants.poll_reads(eff)
                t.outcome((spec.model, name, tuple(sorted(want))))
                if sorted(reads) != sorted(want):
                    t.violation("wrong-blocks", phase=name, missing=sorted(set(want) - set(reads)), extra=sorted(set(reads) - set(want)),
                                twice=sorted({k for k in reads if reads.count(k) > 1}), **ctx)
                if o != "ok":
                    t.violation("poll-failed", phase=name, outcome=o, **ctx)
        t.sample({**ctx, "phases": [(n, o, len(r)) for n, o, r in rec if n != "topo"]}, 1)
        if t.full:
            return


def faults(t, jobs):
    """Whatever goes wrong with any one request (or all), nothing but reads is ever sent."""
    for spec, what, at in jobs:
        dev = Device(**plants.tables(spec), latency=0.01)
        inner = plants.absent_script(spec)

        def script(i, r):
            if at is None or i == at:
                if what == "silent": return []
                if what == "error" and r["kind"] != "write": return [(0.01, w.error_response(r["fc"], r["dev"], r["base"], r["count"]))]
                if what == "zero" and r["kind"] != "write": return [(0.01, w.read_response(r["fc"], r["dev"], r["base"], [0] * r["count"]))]
                if what == "ffff" and r["kind"] != "write": return [(0.01, w.read_response(r["fc"], r["dev"], r["base"], [0xFFFF] * r["count"]))]
                if what == "eof": return [(0.01, lambda c: c.eof())]
            return inner(i, r) if inner else None
        dev.script = script
        rec = []

        async def main(loop):
            c = client(tx_message_wait=0.01, tx_jitter=0)
            await c.connect()
            await phases(c, dev, spec, rec, True)
            await c.close()
            return True
        res, loop = vloop.run(main, dev.net, horizon=3000)
        ctx = dict(plant=spec.key(), fault=what, at=at)
        t.add("states"); t.add("transitions", len(dev.log))
        if res is not True:
            t.violation("stuck", error=repr(res), **ctx); continue
        wr = [r for _, _, r in dev.log if r["kind"] == "write"]
        if wr or dev.bad:
            t.violation("wrote", frames=[(r["register"], r["value"]) for r in wr[:5]], bad=dev.bad[:3], **ctx)
        if any(not 1 <= r["count"] <= 60 for _, _, r in dev.log if r["kind"] != "heartbeat"):
            t.violation("oversized-read", **ctx)
        if t.full:
            return


def main():
    c = Check("C08", "model_checking")
    fam = plants.family("small" if c.quick else "full")
    jobs = [(s, True) for s in fam] + [(s, False) for s in fam if s.absent == "silent"]
    c.total.info["plants"] = len(fam)
    c.run(sh, split(jobs, 160))
    base = [plants.SPECS[n] for n in plants.SPECS] + [Spec(m) for m in plants.MODELS] + [Spec("HYBRID_HV_GEN3", stacks=(6,)), Spec("ALL_IN_ONE_HYBRID", stacks=(1, 2), meters=(2,))]
    fj = [(s, f, at) for s in base for f in ("silent", "error", "zero", "ffff", "eof") for at in [None] + list(range(c.pick(24, 60)))]
    c.run(faults, split(fj, 96))
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
