"""D04: the liveness check over every prior connection history x every per-attempt outcome sequence x every crash step, and up/down histories of checks."""
import asyncio, itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop, plants
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, outcome
from mc.plants import Spec

T, L, GAP = 0.5, 0.02, 0.5
SPEC = Spec("HYBRID_GEN2", batts=(0x32,), meters=(1,))
KW = dict(timeout=0.4, retries=1, probe_timeout=0.2, probe_retries=0)
ID = ("read_hr", 0x11, 0, 60)
GOOD = {"ok", "dup", "split", "noise", "foreign", "slow"}
KINDS = ["ok", "silent", "error", "crc", "zero", "device", "base", "count", "fc", "other", "trunc", "late", "gap", "dup", "split", "noise", "foreign", "slow", "eof", "reset", "half-eof"]


def reply(dev, r, kind):
    """[(delay, what)] for one identity read."""
    a = dev.answer(r)
    if kind == "ok": return [(L, a)]
    if kind == "slow": return [(T - 0.05, a)]
    if kind == "late": return [(T + GAP + 0.1, a)]   # after the retry (if any) has gone out
    if kind == "gap": return [(T + 0.1, a)]          # inside the pause before a retry
    if kind == "silent": return []
    if kind == "error": return [(L, w.error_response(3, 0x11, 0, 60))]
    if kind == "crc": return [(L, a[:-1] + bytes([a[-1] ^ 0x40]))]
    if kind == "zero": return [(L, w.read_response(3, 0x11, 0, [0] * 60))]
    if kind == "device": return [(L, w.read_response(3, 0x32, 0, [7] * 60))]
    if kind == "base": return [(L, w.read_response(3, 0x11, 60, [7] * 60))]
    if kind == "count": return [(L, w.read_response(3, 0x11, 0, [0x2001] * 30))]
    if kind == "fc": return [(L, w.read_response(4, 0x11, 0, [7] * 60))]
    if kind == "other": return [(L, w.write_response(0x11, 20, 1))]
    if kind == "trunc": return [(L, a[:-9])]
    if kind == "dup": return [(L, a), (L + 0.01, a)]
    if kind == "split": return [(L, a[:50]), (L + 0.01, a[50:])]
    if kind == "noise": return [(L, b"\x00\xffGE\x13" * 3 + a)]
    if kind == "foreign": return [(L, w.read_response(4, 0x32, 60, [9] * 60)[:-1] + b"\0"), (L + 0.001, w.heartbeat()), (L + 0.002, a)]
    if kind == "eof": return [(L, lambda c: c.eof())]
    if kind == "reset": return [(L, lambda c: c.reset())]
    if kind == "half-eof": return [(L, a[:60]), (L + 0.001, lambda c: c.eof())]
    raise KeyError(kind)


PRIORS = ("fresh", "detected", "polled", "never", "closed", "lost", "dead-open", "failed-probe", "reconnected")


async def prepare(c, dev, prior):
    if prior == "never":
        return
    await c.connect()
    if prior in ("detected", "polled", "closed", "lost", "dead-open", "reconnected"):
        await c.detect(**KW)
    if prior == "polled":
        await c.load_config(timeout=0.4, retries=0)
        await c.refresh(timeout=0.4, retries=0)
    if prior == "closed":
        await c.close()
    if prior in ("lost", "reconnected"):
        dev.net.conns[-1].eof()
        await asyncio.sleep(0.1)
    if prior == "dead-open":
        dev.net.conns[-1].reset()   # noticed only while the probe is under way
    if prior == "failed-probe":
        dev.mute = True
        await c.probe_alive(timeout=0.2)
        dev.mute = False
    if prior == "reconnected":
        await c.connect()


def probe(t, prior, kinds, retries, at_step=None, idle=0.0):
    dev = Device(**plants.tables(SPEC), latency=L)
    inner = plants.absent_script(SPEC)
    st = {"k": None, "good": []}
    dev.mute = False

    def script(i, r):
        if dev.mute:
            return []
        if st["k"] is None or r["kind"] == "heartbeat":
            return inner(i, r)
        k = st["k"]; st["k"] += 1
        if (r["kind"], r.get("dev"), r.get("base"), r.get("count")) != ID:
            return []
        kind = kinds[k] if k < len(kinds) else "silent"
        if kind in GOOD:
            st["good"].append(kind)
        return reply(dev, r, kind)
    dev.script = script
    out = {}

    async def main(loop):
        c = client(tx_message_wait=0.01, tx_jitter=0)
        await prepare(c, dev, prior)
        await asyncio.sleep(idle)
        n0, t0, nc, st["k"] = len(dev.log), loop.time(), len(dev.net.conns), 0
        d0 = [len(x.delivered) for x in dev.net.conns]
        before = plants.topo(c.plant.capabilities) if c.plant.capabilities is not None else None
        up = c.connected
        s0 = loop.steps
        if at_step is not None:
            loop.at_step[s0 + at_step[0]] = lambda: at_step[1](dev.net.conns[-1])
        o = await outcome(c.probe_alive(timeout=T, retries=retries))
        out.update(o=o, up=up, steps=loop.steps - s0, dt=loop.time() - t0, connected=c.connected, sent=[(r["kind"], r.get("dev"), r.get("base"), r.get("count")) for _, _, r in dev.log[n0:] if r["kind"] != "heartbeat"],
                   conns=len(dev.net.conns) - nc, open=[x.closed_at is None for x in dev.net.conns], got=sum(len(x.delivered) for x in dev.net.conns) - sum(d0))
        out["caps_kept"] = before == (plants.topo(c.plant.capabilities) if c.plant.capabilities is not None else None)
        st["k"] = None
        # whatever was reported, the session goes on from it as documented
        dev.net.refuse = None
        await asyncio.sleep(2 if not out["connected"] else 0.0)
        if not c.connected:
            await c.connect()
        n1 = len(dev.net.conns)
        out["then"] = await outcome(c.detect(**KW))
        out["topo"] = None if c.plant.capabilities is None else plants.topo(c.plant.capabilities)
        out["reused"] = len(dev.net.conns) == n1
        await c.close()
        return True
    res, loop = vloop.run(main, dev.net, horizon=5000)
    t.add("states"); t.add("transitions", max(1, len(kinds)))
    ctx = dict(prior=prior, replies=kinds, retries=retries, idle=idle, **({"step": at_step[0], "fault": at_step[1].__name__} if at_step else {}))
    if res is not True:
        t.violation("stuck", error=repr(res), **ctx); return None
    o = out["o"]
    if o[0] != "ok" or not isinstance(o[1], bool):
        t.violation("raised", outcome=o[0], error=repr(o[1])[:300], **ctx); return out
    t.outcome((prior, kinds[:len(out["sent"])], o[1]))
    alive = o[1]
    if any(x != ID for x in out["sent"]) or len(out["sent"]) > retries + 1:
        t.violation("transmitted", sent=out["sent"], **ctx)
    if out["conns"]:
        t.violation("connected-by-itself", **ctx)
    if not out["caps_kept"]:
        t.violation("topology-touched", **ctx)
    # an answer can only have come if the device gave a genuine one (in time or late)
    seen = kinds[:len(out["sent"])]
    ends = [i for i, k in enumerate(seen) if k in ("eof", "reset", "half-eof")]
    live = seen[:ends[0]] if ends else seen
    possible = any(k in GOOD or (k in ("late", "gap") and i < retries) for i, k in enumerate(live))
    if prior in ("fresh", "failed-probe", "never") and "zero" in live:
        return out  # a first answer of all zeros: not judged
    if alive and not possible:
        t.violation("alive-without-answer", seen=seen, **ctx)
    if at_step is None and not alive and prior in ("fresh", "detected", "polled", "reconnected") and any(k in GOOD for k in (live[:live.index("trunc")] if "trunc" in live else live)):  # (a cut frame is documented to take the next with it)
        t.violation("answer-not-believed", seen=seen, **ctx)
    if alive and not (out["connected"] and out["open"] and out["open"][-1]) and at_step is None:
        t.violation("alive-but-closed", **ctx)
    if not alive and (out["connected"] or any(out["open"])):
        t.violation("dead-but-open", open=out["open"], connected=out["connected"], **ctx)
    bound = (retries + 1) * T + retries * GAP + 0.3
    if out["dt"] > bound and out["up"]:
        t.violation("slow", took=out["dt"], bound=bound, **ctx)
    if at_step is None and not ends and not alive and "zero" not in seen and prior in ("fresh", "detected", "polled", "reconnected") and len(out["sent"]) != retries + 1:
        t.violation("attempts", sent=len(out["sent"]), **ctx)
    if at_step is None and (out["then"][0] != "ok" or out["topo"] != plants.expected(SPEC) or not out["reused"]):
        t.violation("cannot-go-on", outcome=out["then"][0], error=repr(out["then"][1])[:300], topo=out["topo"], **ctx)
    t.sample({**ctx, "alive": alive}, 2)
    return out


def single(t, jobs):
    for prior, kinds, retries, idle in jobs:
        probe(t, prior, kinds, retries, idle=idle)
        if t.full:
            return


def crash(t, jobs):
    def eof(c): c.eof()
    def reset(c): c.reset()
    for prior, kinds, retries in jobs:
        base = probe(t, prior, kinds, retries)
        if base is None:
            continue
        for s in range(base["steps"] + 1):
            for f in (eof, reset):
                probe(t, prior, kinds, retries, at_step=(s, f))
        if t.full:
            return


def history(t, jobs):
    """Checks repeated while the plant comes and goes; a poll in between when it is up."""
    for seq, poll in jobs:
        dev = Device(**plants.tables(SPEC), latency=L)
        inner = plants.absent_script(SPEC)
        st = {"mode": "ok"}

        def script(i, r):
            if st["mode"] == "ok" or r["kind"] == "heartbeat":
                return inner(i, r)
            if st["mode"] == "idonly":
                return inner(i, r) if (r["kind"], r["dev"], r["base"], r["count"]) == ID else []
            return reply(dev, r, st["mode"]) if r["kind"] == "read_hr" and r["count"] == 60 and r["base"] == 0 else []
        dev.script = script
        got = []

        async def main(loop):
            c = client(tx_message_wait=0.01, tx_jitter=0)
            for mode in seq:
                st["mode"] = "ok"
                dev.net.refuse = ConnectionRefusedError("down") if mode == "refused" else None
                if not c.connected:
                    o = await outcome(c.connect())
                    if mode == "refused":
                        got.append(("refused", o[0], await c.probe_alive(timeout=T), c.connected))
                        continue
                elif mode == "refused":
                    mode = "silent"
                st["mode"] = mode
                a = await outcome(c.probe_alive(timeout=T))
                got.append((mode, a[0], a[1], c.connected))
                if poll and a[1] is True and mode == "ok":
                    d = await outcome(c.detect(**KW))
                    got.append(("detect", d[0], d[0] == "ok" and plants.topo(c.plant.capabilities) == plants.expected(SPEC), c.connected))
                    if poll == 2:
                        await outcome(c.refresh(timeout=0.3, retries=0))
                await asyncio.sleep(1)
            await c.close()
            return True
        res, loop = vloop.run(main, dev.net, horizon=5000)
        t.add("states"); t.add("transitions", len(seq))
        if res is not True:
            t.violation("stuck", error=repr(res), sequence=seq, polled=poll); continue
        for i, (mode, k, a, conn) in enumerate(got):
            if mode == "refused":
                ok = a is False and not conn
            elif mode == "detect":
                ok = k == "ok" and a and conn
            elif mode == "zero" and not any(m in ("ok", "idonly", "detect") for m, *_ in got[:i]):
                ok = k == "ok" and a is conn  # first answer ever: not judged
            else:
                ok = k == "ok" and a is (mode in ("ok", "idonly")) and conn is a
            if not ok:
                t.violation("history", sequence=seq, polled=poll, at=i, entry=(mode, k, repr(a)[:200], conn))
        t.outcome((seq, tuple(x[2] for x in got)))
        if t.full:
            return


def together(t, jobs):
    """A check while a poll or a second check is under way on the same client: it is still right, and neither hangs."""
    for other, off, kind in jobs:
        dev = Device(**plants.tables(SPEC), latency=L)
        inner = plants.absent_script(SPEC)
        st = {"on": False}

        def script(i, r):
            if st["on"] and kind != "ok" and r["kind"] != "heartbeat" and (kind == "dead" or (r["kind"], r["dev"], r["base"], r["count"]) == ID):
                return [] if kind in ("dead", "silent") else reply(dev, r, kind)
            return inner(i, r)
        dev.script = script
        out = {}

        async def main(loop):
            c = client(tx_message_wait=0.01, tx_jitter=0)
            await c.connect()
            await c.detect(**KW)
            st["on"] = True
            ops = {"refresh": lambda: c.refresh(timeout=0.3, retries=0), "config": lambda: c.load_config(timeout=0.3, retries=0), "probe": lambda: c.probe_alive(timeout=T)}
            x = asyncio.ensure_future(outcome(ops[other]()))
            await asyncio.sleep(off)
            t0 = loop.time()
            a = await outcome(c.probe_alive(timeout=T))
            out.update(a=a, dt=loop.time() - t0, other=await x)
            await c.close()
            return True
        res, loop = vloop.run(main, dev.net, horizon=5000)
        t.add("states"); t.add("transitions", 2)
        ctx = dict(other=other, offset=off, replies=kind)
        if res is not True:
            t.violation("stuck", error=repr(res), **ctx); continue
        a = out["a"]
        if a[0] == "cancelled" and other in ("config", "probe"):
            continue  # superseded by the other call's read of the same block (C01)
        if a[0] != "ok" or not isinstance(a[1], bool):
            t.violation("raised", outcome=a[0], error=repr(a[1])[:300], **ctx)
        elif a[1] and kind != "ok":
            t.violation("alive-without-answer", **ctx)
        elif not a[1] and kind == "ok" and other != "probe":
            t.violation("answer-not-believed", **ctx)
        t.outcome((other, kind, a[1]))


def main():
    c = Check("D04", "model_checking")
    jobs = []
    for prior in PRIORS:
        for n in (0, 1):
            if n and prior in ("never", "closed", "lost", "failed-probe"):
                continue  # nothing is transmitted
            jobs += [(prior, k, n, idle) for k in itertools.product(KINDS, repeat=n + 1) for idle in ((0.0, 400.0) if n == 0 else (0.0,))]
    if not c.quick:
        jobs += [(p, k, 2, 0.0) for p in ("fresh", "polled", "lost") for k in itertools.product(KINDS, repeat=3)]
    else:
        few = ["ok", "silent", "error", "crc", "gap", "late", "zero", "eof"]
        jobs += [("polled", k, 2, 0.0) for k in itertools.product(few, repeat=3)]
    c.run(single, split(jobs, 96))
    cj = [(p, k, len(k) - 1) for p in PRIORS for k in [("ok",), ("silent",), ("silent", "ok"), ("crc", "ok"), ("silent", "silent"), ("gap", "silent")]]
    if not c.quick:
        cj += [(p, k, 1) for p in ("fresh", "polled") for k in itertools.product(KINDS, repeat=2)]
    c.run(crash, split(cj, 64))
    modes = ("ok", "silent", "error", "zero", "eof", "refused", "idonly")
    c.run(history, split([(s, p) for n in range(1, c.pick(4, 6)) for s in itertools.product(modes, repeat=n) for p in (0, 1, 2)], 64))
    c.run(together, split([(o, off, k) for o in ("refresh", "config", "probe") for off in [x / 200 for x in range(0, 60)] for k in ("ok", "silent", "error", "crc", "zero", "dead")], 32))
    c.assumptions = ["A reply of all zeros to the very first identity read is not judged.", "A reply that arrives in the pause between two attempts may or may not be credited.",
                     "A check whose read is superseded by another caller's read of the same block is not judged.", "How long a check on a client that was never connected takes is not judged."]
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
