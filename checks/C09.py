"""C09: start, stop, cancel or break a recording at every event-loop step of a session; the recording must be complete and the session untouched."""
import asyncio, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop, plants
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, caches, outcome
from givenergy_modbus import pdu as P

GAP, LAT, T = 0.05, 0.03, 1.0


def rd(i, n=3):
    return P.ReadHoldingRegistersRequest(base_register=200 + i, register_count=n, device_address=0x11)


def mask(f):
    """Frame with the identifying fields and the check value blanked."""
    if len(f) < 20:
        return f[:8] + b"*" * 10 + f[18:]
    f = f[:8] + b"*" * 10 + f[18:-2] + b"**"
    return f[:28] + b"*" * 10 + f[38:] if len(f) > 42 else f


def pieces(data, cuts, gap):
    def go(conn):
        lo = 0
        for j, hi in enumerate(list(cuts) + [len(data)]):
            conn.loop.call_later(j * gap, conn.send, data[lo:hi])
            lo = hi
    return go


CUTS = {0: (), 1: (11,), 2: (30,), 3: (3, 20), 4: ()}


class Run:
    """One session; ``acts`` = {loop step: callable(run, loop)} injected on top."""

    def __init__(self, acts=None, shape="mixed"):
        self.acts = acts or {}
        self.rec = {"rx": [], "tx": []}
        self.calls = 0
        self.caps = []
        self.dev = Device(banks={0x11: {"HR": {200 + i: 100 + i for i in range(60)}, "IR": {}}}, latency=LAT)
        self.dev.script = self.script
        self.shape = shape

    def script(self, i, r):
        if r["kind"] == "heartbeat":
            return []
        if r["kind"] == "read_hr" and r["base"] == 203 and sum(q["base"] == 203 for _, _, q in self.dev.log if q["kind"] == "read_hr") == 1:
            return []  # one lost reply, so there is a retransmission
        a = self.dev.answer(r)
        return [(LAT, pieces(a, CUTS[r["base"] % 5] if r["kind"] != "write" else (), 0.0041))]

    def sink(self, mode):
        def go(direction, data):
            n = self.calls
            self.calls += 1
            self.rec[direction].append((self.loop.time(), bytes(data)))
            if mode == "raise" or mode == n:
                raise ValueError("sink failed")
        return go

    def start(self, mode, duration):
        def go(loop):
            async def cap():
                d = {"t0": loop.time(), "i0": {k: len(v) for k, v in self.rec.items()}}
                self.caps.append(d)
                try:
                    await self.c.capture_frames(self.sink(mode), duration=duration)
                    d["end"] = "ok"
                except RuntimeError as e:
                    d["end"] = "refused"
                except asyncio.CancelledError:
                    d["end"] = "cancelled"
                except BaseException as e:
                    d["end"] = repr(e)
                d["t1"] = loop.time()
                d["i1"] = {k: len(v) for k, v in self.rec.items()}
            self.tasks.append(asyncio.ensure_future(cap()))
        return go

    def cancel(self, i=-1):
        return lambda loop: self.tasks[i].cancel() if self.tasks else None

    def lose(self):
        return lambda loop: self.dev.net.conns[0].eof()

    async def main(self, loop):
        self.loop = loop
        self.tasks = []
        self.c = c = client(tx_message_wait=GAP, tx_jitter=0)
        await c.connect()
        self.k0 = loop.steps
        for k, fns in self.acts.items():
            loop.at_step[k] = lambda fns=fns: [f(loop) for f in fns]
        conn = self.dev.net.conns[0]
        for tm, f in ((0.017, w.heartbeat(w.ADAPTER, 3)), (0.1233, w.read_response(3, 0x11, 230, [1, 2])), (0.2377, w.heartbeat(w.ADAPTER, 9) + w.null_response()),
                      (0.9111, b"\x00\x01noise")) if self.shape == "mixed" else ():
            loop.call_later(tm, pieces(f, (len(f) // 2,), 0.0037))
        res = []
        for q in [[0, 1, 2], [3], [4, 5]]:
            res += [o[0] for o in await asyncio.gather(*[outcome(c.send_request_and_await_response(rd(i), timeout=T, retries=1, retry_delay=0.1)) for i in q])]
        res.append((await outcome(c.one_shot_command([P.WriteHoldingRegisterRequest(register=96, value=1)])))[0])
        self.k1 = loop.steps
        await asyncio.sleep(0.02)
        if not c.connected:
            await c.connect()
            res += [o[0] for o in await asyncio.gather(*[outcome(c.send_request_and_await_response(rd(i), timeout=T, retries=0)) for i in (10, 11)])]
        await asyncio.sleep(1)
        self.values = caches(c.plant)
        # whatever happened before, another recording can run now (once the longest one above has finished)
        await asyncio.gather(*self.tasks, return_exceptions=True)
        n0 = len(self.rec["tx"]), len(self.rec["rx"])
        self.start(None, 0.5)(loop)
        await asyncio.sleep(0.01)
        res.append((await outcome(c.send_request_and_await_response(rd(20), timeout=T, retries=0)))[0])
        await asyncio.gather(*self.tasks, return_exceptions=True)
        self.final = len(self.rec["tx"]) - n0[0], len(self.rec["rx"]) - n0[1]
        self.conn_ok = c.connected
        await c.close()
        return res

    def go(self):
        self.res, self.lp = vloop.run(self.main, self.dev.net, horizon=2000)
        return self


def truth(run):
    """Every frame exchanged: (first byte time, last byte time, bytes), per direction, over all connections in order."""
    tx = [(t, t, r["raw"]) for t, _, r in run.dev.log]
    rx = []
    for conn in run.dev.net.conns:
        buf, t0 = b"", None
        for t, data in conn.delivered:
            for b in data:
                if not buf:
                    t0 = t
                buf += bytes([b])
                if len(buf) >= 6 and buf[:4] == w.MARK and len(buf) == 6 + int.from_bytes(buf[4:6], "big"):
                    rx.append((t0, t, buf)); buf = b""
                elif len(buf) >= 4 and buf[:4] != w.MARK:
                    rx.append((t, t, buf[:1])); buf = buf[1:]  # noise
    return {"tx": tx, "rx": rx}


def judge(t, ctx, run, base, lost=False):
    t.add("states"); t.add("transitions", run.lp.steps)
    if isinstance(run.res, BaseException):
        t.violation("stuck", error=repr(run.res), **ctx); return
    if not lost:
        if run.res != base.res:
            t.violation("session-outcome-changed", got=run.res, want=base.res, **ctx)
        a = [(round(tm, 6), r["raw"].hex()) for tm, _, r in run.dev.log]
        if a[:len(a) - 1] != [(round(tm, 6), r["raw"].hex()) for tm, _, r in base.dev.log][:len(a) - 1] or len(a) != len(base.dev.log):
            t.violation("session-traffic-changed", **ctx)
        if run.values != base.values:
            t.violation("session-data-changed", **ctx)
    if not run.conn_ok:
        t.violation("connection-dropped", **ctx)
    if run.caps and run.caps[-1]["end"] != "ok" or run.final[0] < 1 or run.final[1] < 1:
        t.violation("no-recording-afterwards", caps=run.caps, final=run.final, **ctx)
    tr = truth(run)
    active = None
    for cap in run.caps:
        clash = active is not None and cap["t0"] < active["t1"] - 1e-9
        tie = active is not None and abs(cap["t0"] - active["t1"]) < 1e-9
        if cap["end"] == "refused":
            if not clash and not tie:
                t.violation("recording-refused", cap=cap, **ctx)
            continue
        if clash:
            t.violation("two-recordings-at-once", caps=run.caps, **ctx)
        active = cap
        if cap["end"] not in ("ok", "cancelled"):
            t.violation("recording-failed", how=cap["end"], **ctx); continue
        for d in ("tx", "rx"):
            got = b"".join(x for _, x in run.rec[d][cap["i0"][d]:cap["i1"][d]])
            fr = [f for a, b, f in tr[d] if len(f) > 1]
            must = [mask(f) for a, b, f in tr[d] if len(f) > 1 and a > cap["t0"] + 1e-9 and b < cap["t1"] - 1e-9]
            may = [mask(f) for a, b, f in tr[d] if len(f) > 1 and b >= cap["t0"] - 1e-9 and a <= cap["t1"] + 1e-9]
            i = got.find(w.MARK)
            i = len(got) if i < 0 else i
            out, rest, junk, cuts = [], got[i:], b"", 0
            while len(rest) >= 6:
                if rest[:4] != w.MARK:
                    j = rest.find(w.MARK, 1)
                    j = len(rest) if j < 0 else j
                    junk += rest[:j]; rest = rest[j:]; continue
                n = 6 + int.from_bytes(rest[4:6], "big")
                nx = rest.find(w.MARK, 1)
                if lost and 0 < nx < n:
                    cuts += 1; rest = rest[nx:]; continue  # the frame the old connection did not finish
                if len(rest) < n:
                    break
                out.append(mask(rest[:n])); rest = rest[n:]
            sent = [(tm, len(x)) for conn in run.dev.net.conns for tm, x in conn.delivered] if d == "rx" else [(a, len(f)) for a, _, f in tr[d]]
            lo, hi = sum(n for tm, n in sent if cap["t0"] + 1e-9 < tm < cap["t1"] - 1e-9), sum(n for tm, n in sent if cap["t0"] - 1e-9 <= tm <= cap["t1"] + 1e-9)
            if not lo <= len(got) <= hi:  # not even the tail of an unfinished frame is lost when the recording ends
                t.violation("byte-count", dir=d, recorded=len(got), exchanged=[lo, hi], cap=cap, **ctx)
            noise = [f for a, b, f in tr[d] if len(f) == 1 and a > cap["t0"] + 1e-9 and b < cap["t1"] - 1e-9]
            if lost and junk and w.MARK.startswith(junk):
                junk = b""  # the old connection ended inside a marker
            if any(x not in b"".join(f for _, _, f in tr[d] if len(f) == 1) for x in [junk] if x):
                t.violation("bytes-invented", dir=d, junk=junk, **ctx)
            if len(junk) + len(got[:i]) + len(rest) < len(noise):
                t.violation("noise-lost", dir=d, **ctx)
            if cuts > 1:
                t.violation("frames-cut", dir=d, **ctx)
            # out must be a run of `may` containing `must`
            def run_of(x, y):
                return any(y[k:k + len(x)] == x for k in range(len(y) - len(x) + 1))
            if not run_of(out, may) or not run_of(must, out):
                t.violation("recording-wrong", dir=d, missing=[f.hex() for f in must if f not in out][:3], extra=[f.hex() for f in out if f not in may][:3],
                            recorded=len(out), exchanged=len(must), cap=cap, **ctx)
    t.outcome((len(run.caps), tuple(c["end"] for c in run.caps), run.calls))
    t.sample({**ctx, "caps": run.caps, "tx_chunks": len(run.rec["tx"]), "rx_chunks": len(run.rec["rx"])}, 1)


BASE = None


def base():
    global BASE
    if BASE is None:
        BASE = Run().go()
    return BASE


def sh(t, jobs):
    b = base()
    for kind, k, arg in jobs:
        r = Run()
        if kind == "window":
            d, mode = arg
            r.acts = {k: [r.start(mode, d)]}
        elif kind == "cancel":
            k2, mode = arg
            r.acts = {k: [r.start(mode, 10)]}
            r.acts.setdefault(k2, []).append(r.cancel())
        elif kind == "second":
            k2, d = arg
            r.acts = {k: [r.start(None, d)]}
            r.acts.setdefault(k2, []).append(r.start(None, 0.05))
        elif kind == "lost":
            k2, d = arg
            r.acts = {k: [r.start(None, d)]}
            r.acts.setdefault(k2, []).append(r.lose())
        r.go()
        judge(t, dict(kind=kind, step=k, arg=arg), r, b, lost=kind == "lost")
        if t.full:
            return


def main():
    c = Check("C09", "model_checking")
    b = base()
    if isinstance(b.res, BaseException):
        c.total.violation("baseline", error=repr(b.res))
        c.finish({"states": 1, "transitions": 1, "traces_validated_against_impl": 1})
    ks = list(range(b.k0 + 1, b.k1 + 1))
    c.total.info["steps"] = len(ks)
    full = Run()
    full.acts = {ks[0]: [full.start(None, 10)]}
    full.go()
    jobs = [("window", k, (d, m)) for k in ks for d in (0.0, 0.004, 0.06, 0.3, 10) for m in (None, "raise")]
    jobs += [("window", ks[0], (10, i)) for i in range(full.calls + 2)] + [("window", k, (10, i)) for k in ks[::7] for i in range(0, full.calls, 3)]
    st = c.pick(5, 1)
    jobs += [("cancel", a, (z, m)) for a in ks[::st] for z in ks[::c.pick(2, 1)] if z >= a for m in ((None,) if c.quick else (None, "raise"))]
    jobs += [("second", a, (z, d)) for a in ks[::c.pick(10, 3)] for z in ks[::c.pick(2, 1)] if z >= a for d in (0.05, 0.3)]
    jobs += [("lost", a, (z, d)) for a in ks[::c.pick(8, 2)] for z in ks[::c.pick(2, 1)] if z >= a for d in (0.06, 10)]
    c.run(sh, split(jobs, 128))
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
