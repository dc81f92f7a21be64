"""D02: one fault at every reply of a discovery, and the connection lost at every event-loop step of it."""
import asyncio, os, sys
from dataclasses import replace
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop, plants
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, outcome
from mc.plants import Spec

KW = dict(timeout=0.6, retries=2, probe_timeout=0.3, probe_retries=1)
SP = {
    "lv": Spec("HYBRID_GEN2", batts=(0x32, 0x33), meters=(1,)),
    "lv-gap": Spec("HYBRID_GEN1", batts=(0x33, 0x35), meters=(2, 8), bcu=True),
    "acz": Spec("AC", batts=(0x32,), meters=(1,), absent="zero"),
    "gw": Spec("GATEWAY"),
    "gen3": Spec("HYBRID_GEN3", batts=(0x32, 0x34), bcu=True, absent="error"),
    "ems": Spec("EMS", meters=(1, 3), managed=2, absent="zero"),
    "aio": Spec("ALL_IN_ONE", stacks=(4,), meters=(1,)),
    "3ph": Spec("HYBRID_3PH", stacks=(2, 1), meters=(1,)),
    "hvg3": Spec("HYBRID_HV_GEN3", stacks=(3,)),
    "bare": Spec("POLAR"),
    "six": Spec("HYBRID_GEN4", batts=tuple(range(0x32, 0x38)), meters=(1,)),
}
MODES = ("cold", "again", "hinted")


def session(spec, mode, script, at_step=None, kw=KW):
    """(result, loop, dev, outcome, topology, connected, requests before, steps before)."""
    dev = Device(**plants.tables(spec), latency=0.02)
    inner = plants.absent_script(spec)
    st = {"n0": None, "step0": 0}

    def sc(i, r):
        if script is not None and st["n0"] is not None:
            x = script(i - st["n0"], r, dev)
            if x is not None:
                return x
        return inner(i, r)
    dev.script = sc
    out = {}

    async def main(loop):
        c = client(tx_message_wait=0.01, tx_jitter=0)
        await c.connect()
        if mode == "again":
            await c.detect(**KW)
            await c.refresh(timeout=0.6, retries=0)
            c.plant.capabilities = None
        prior = plants.caps(spec) if mode == "hinted" else None
        st["n0"], st["step0"] = dev.n, loop.steps
        if at_step is not None:
            loop.at_step[loop.steps + at_step[0]] = lambda: at_step[1](dev.net.conns[-1])
        out["o"] = await outcome(c.detect(prior=prior, **kw))
        out["steps"] = loop.steps - st["step0"]
        out["reqs"] = dev.n - st["n0"]
        out["caps"] = c.plant.capabilities
        out["connected"] = c.connected
        await c.close()
        return True
    res, loop = vloop.run(main, dev.net, horizon=5000)
    out["n"] = len(dev.log)
    return res, loop, out


def reply_of(dev, i, r, spec):
    x = plants.absent_script(spec)(i, r)
    if x is not None:
        return x[0][1]
    return dev.answer(r)


FAULTS = ["lost", "late0.35", "late0.7", "late1.4", "error", "dup", "dup-late", "trunc", "split", "crc", "val", "val2", "count", "dev+1", "dev^", "base", "fc", "noise", "noise-marker", "foreign-first"]


def damaged(a: bytes, how: str):
    b = bytearray(a)
    if how == "crc": b[-1] ^= 0x40
    elif how == "val": b[-10] ^= 0x01
    elif how == "val2": b[44] ^= 0xFF; b[45] ^= 0xFF
    elif how == "dev+1": b[26] = (b[26] + 1) & 0xFF
    elif how == "dev^": b[26] ^= 0x01
    elif how == "fc": b[27] ^= 0x07
    elif how == "base": b[39] ^= 0x20
    elif how == "count": b[41] ^= 0x01
    return bytes(b)


def events(how, a, r, dev):
    """What the device does instead of answering normally; None = this request gets no answer anyway."""
    if a is None:
        return None
    L = 0.02
    if how == "lost": return []
    if how.startswith("late"): return [(float(how[4:]), a)]
    if how == "error": return [(L, w.error_response(r["fc"], r["dev"], r["base"], r["count"]))]
    if how == "dup": return [(L, a), (L, a)]
    if how == "dup-late": return [(L, a), (0.5, a)]
    if how == "trunc": return [(L, a[:-7])]
    if how == "split": return [(L, a[:31]), (L + 0.004, a[31:])]
    if how == "noise": return [(L, b"\x00\xffGE\x13" * 3 + a)]
    if how == "noise-marker": return [(L, b"\x59\x59\x00"), (L + 0.0005, a)]
    if how == "foreign-first":
        other = w.read_response(r["fc"], (r["dev"] + 1) & 0xFF, r["base"], [7] * r["count"])
        bad = bytearray(other); bad[-1] ^= 1
        return [(L, bytes(bad)), (L + 0.001, a)]
    if how.startswith("byte"):
        _, pos, mask = how.split(":")
        b = bytearray(a)
        if int(pos) >= len(b): return None
        b[int(pos)] ^= int(mask)
        return [(L, bytes(b))]
    return [(L, damaged(a, how))]


def one(t, jobs):
    for name, mode, how, at in jobs:
        spec = SP[name]
        hit = []

        def script(k, r, dev):
            if k != at or r["kind"] not in ("read_hr", "read_ir"):
                return None
            ev = events(how, reply_of(dev, k, r, spec), r, dev)
            if ev is not None:
                hit.append((r["kind"], r["dev"], r["base"], r["count"]))
            return ev
        # Damage to the framing itself (length field, missing tail) also costs replies that follow within the
        # announced length - documented in framer.py - so those runs get the attempts that takes.
        framing = how == "trunc" or how.startswith(("byte:4:", "byte:5:"))
        res, loop, out = session(spec, mode, script, kw=dict(KW, retries=4, probe_retries=4) if framing else KW)
        if not hit:
            t.add("not-applicable"); continue
        t.add("states"); t.add("transitions", out["n"])
        ctx = dict(plant=name, mode=mode, fault=how, at=at, request=hit)
        if res is not True:
            t.violation("stuck", error=repr(res), **ctx); continue
        o = out["o"]
        if o[0] != "ok":
            t.violation("single-fault-fails-discovery", outcome=o[0], error=repr(o[1])[:300], **ctx); continue
        got, want = plants.topo(out["caps"]), plants.expected(spec)
        if got != want:
            t.violation("single-fault-changes-topology", diff={k: (got[k], want[k]) for k in want if got[k] != want[k]}, **ctx)
        t.outcome((name, how, out["reqs"]))
        t.sample({**ctx, "requests": out["reqs"]}, 1)
        if t.full:
            return


LOSSES = {"eof": lambda c: c.eof(), "reset": lambda c: c.reset(), "reset_clean": lambda c: c.reset_clean(), "timedout": lambda c: c.reset(OSError(110, "Connection timed out")),
          "pipe": lambda c: c.reset(BrokenPipeError(32, "Broken pipe"))}


def loss(t, jobs):
    for name, mode, kind, lo, step in jobs:
        spec = SP[name]
        res, loop, out = session(spec, mode, None)
        total = out["steps"]
        for k in range(lo, total + 1, step):
            res, loop, out = session(spec, mode, None, (k, LOSSES[kind]))
            t.add("states"); t.add("transitions", out["n"]); t.add("loss-points")
            ctx = dict(plant=name, mode=mode, loss=kind, step=k, of=total)
            if res is not True:
                t.violation("stuck", error=repr(res), **ctx); continue
            o = out["o"]
            if o[0] == "ok":
                # The last reply may already be in: then the complete topology is the truth.
                if plants.topo(out["caps"]) != plants.expected(spec):
                    t.violation("partial-plant-adopted", got=plants.topo(out["caps"]), **ctx)
                elif out["reqs"] and k < total - 12:
                    t.violation("loss-unnoticed", **ctx)
            else:
                if out["caps"] is not None:
                    t.violation("topology-adopted-after-failure", outcome=o[0], got=plants.topo(out["caps"]), **ctx)
                if o[0] not in ("lost", "comm"):
                    t.violation("wrong-failure", outcome=o[0], error=repr(o[1]), **ctx)
                if out["connected"]:
                    t.violation("still-connected", **ctx)
            t.outcome((name, mode, o[0]))
            if t.full:
                return


def patient(t, jobs):
    """Reads that discovery documents as patient keep their retries when probes are given none: one loss of the identity block or of the primary pack changes nothing."""
    for name, mode, how, retries, at in jobs:
        spec = SP[name]
        hit = []

        def script(k, r, dev):
            if k != at or hit or (r["kind"], r["dev"], r["base"]) not in (("read_hr", 0x11, 0), ("read_ir", 0x32, 60)):
                return None
            ev = events(how, reply_of(dev, k, r, spec), r, dev)
            if ev is not None:
                hit.append((r["kind"], r["dev"], r["base"], r["count"]))
            return ev
        res, loop, out = session(spec, mode, script, kw=dict(KW, probe_retries=0, retries=retries))
        if not hit:
            t.add("not-applicable"); continue
        t.add("states"); t.add("transitions", out["n"])
        ctx = dict(plant=name, mode=mode, fault=how, at=at, retries=retries, request=hit)
        if res is not True:
            t.violation("stuck", error=repr(res), **ctx); continue
        o = out["o"]
        if o[0] != "ok":
            t.violation("patient-read-not-retried", outcome=o[0], error=repr(o[1])[:300], **ctx); continue
        got, want = plants.topo(out["caps"]), plants.expected(spec)
        if got != want:
            t.violation("patient-read-not-retried", diff={k: (got[k], want[k]) for k in want if got[k] != want[k]}, **ctx)
        t.outcome((name, how, out["reqs"]))


def dead(t, jobs):
    """The device goes silent from the k-th request on, or answers every identity read with an error: discovery must fail, adopting nothing."""
    for name, mode, how, at in jobs:
        spec = SP[name]

        def script(k, r, dev):
            if k < at and how != "identity-error":
                return None
            if how == "silent":
                return []
            if how == "identity-error" and r["kind"] == "read_hr":
                return [(0.02, w.error_response(r["fc"], r["dev"], r["base"], r["count"]))]
            return None
        res, loop, out = session(spec, mode, script)
        t.add("states"); t.add("transitions", out["n"])
        ctx = dict(plant=name, mode=mode, fault=how, at=at)
        if res is not True:
            t.violation("stuck", error=repr(res), **ctx); continue
        o = out["o"]
        if o[0] == "ok" or out["caps"] is not None:
            t.violation("dead-device-discovered", outcome=o[0], **ctx)
        if out["connected"]:
            t.violation("still-connected", outcome=o[0], **ctx)


def main():
    c = Check("D02", "model_checking")
    names = list(SP)
    base = [(n, m) for n in names for m in MODES]
    width = {}
    for n, m in base:
        width[n, m] = session(SP[n], m, None)[2]["reqs"]
    jobs = [(n, m, f, at) for n, m in base for f in FAULTS for at in range(width[n, m])]
    if not c.quick:
        jobs += [(n, m, f"byte:{p}:{mask}", at) for n, m in base for at in range(width[n, m]) for p in range(0, 170) for mask in ((1, 0x80) if m == "cold" else (0x10,))]
    else:
        jobs += [(n, "cold", f"byte:{p}:1", at) for n in ("lv", "3ph") for at in range(width[n, "cold"]) for p in range(0, 42)]
    c.run(one, split(jobs, 256))
    c.run(patient, split([(n, m, f, r, at) for n, m in base for f in ("lost", "late0.7", "crc", "error", "fc") for r in (1, 2) for at in range(width[n, m])], 32))
    dj = [(n, m, "silent", 0) for n, m in base] + [(n, m, "identity-error", 0) for n, m in base]
    c.run(dead, split(dj, 16))
    kinds = list(LOSSES) if not c.quick else ["eof", "reset"]
    step = c.pick(16, 8)
    lj = [(n, m, k, lo, step) for n, m in base for k in kinds for lo in range(1, step + 1)]
    if c.quick:
        lj = [j for j in lj if j[2] == "eof" or j[1] == "cold"]
    c.run(loss, [(j,) for j in lj])
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
