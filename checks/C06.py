"""C06: cancel every operation at every event-loop step; concurrent calls, a re-issued call, later calls and close() must be unaffected."""
import asyncio, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop, plants
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, caches, outcome
from givenergy_modbus import pdu as P

GAP, LAT, T, RD = 0.05, 0.03, 1.0, 0.3
SPEC = plants.SPECS["hybrid2"]


def rd(i, dev=0x11, n=2):
    return P.ReadHoldingRegistersRequest(base_register=60 * i, register_count=n, device_address=dev)


def wr(reg, val):
    return P.WriteHoldingRegisterRequest(register=reg, value=val)


def call(rq, retries=1, delay=RD):
    return lambda c: c.send_request_and_await_response(rq(), timeout=T, retries=retries, retry_delay=delay)


def values(resp):
    return tuple(resp.register_values)


# the operation that gets cancelled: name -> (callable, ok-result predicate on (client, result))
OPS = {
    "read": (call(lambda: rd(0)), lambda c, r: len(r.register_values) == 2),
    "read-flaky": (call(lambda: rd(20), retries=2), lambda c, r: len(r.register_values) == 2),      # 20: first answer lost
    "read-flaky0": (call(lambda: rd(20), retries=2, delay=0), lambda c, r: len(r.register_values) == 2),
    "read-error": (call(lambda: rd(21), retries=2), lambda c, r: len(r.register_values) == 2),      # 21: first answer is an error
    "write": (lambda c: c.one_shot_command([wr(96, 1), wr(116, 50), wr(110, 4)]), lambda c, r: r is None),
    "installer": (lambda c: c.installer_command([wr(96, 1)]), lambda c, r: r is None),
    "refresh": (lambda c: c.refresh(timeout=T, retries=1, retry_delay=RD), lambda c, r: r is c.plant),
    "load_config": (lambda c: c.load_config(timeout=T, retries=1, retry_delay=RD), lambda c, r: r is c.plant),
    "detect": (lambda c: c.detect(timeout=T, retries=1, probe_timeout=0.3, probe_retries=0), lambda c, r: plants.topo(r) == plants.expected(SPEC)),
    "probe_alive": (lambda c: c.probe_alive(timeout=T), lambda c, r: r is True),
    "execute": (lambda c: c.execute([rd(k) for k in range(4)], timeout=T, retries=1), lambda c, r: len(r) == 4),
    "burst": (lambda c: c.execute([rd(k, n=1) for k in range(24)], timeout=T, retries=1), lambda c, r: len(r) == 24),
    "capture": (lambda c: c.capture_frames(lambda d, b: None, duration=0.6), lambda c, r: r is None),
}

# calls of other users of the same client, all issued before the cancelled one (a) or after (b)
OTHERS = {
    "none": [],
    "read+write": [call(lambda: rd(9)), call(lambda: wr(27, 1))],
    "flaky": [call(lambda: rd(22), retries=2), call(lambda: rd(23), retries=1)],  # 22: first answer lost, 23: first is an error
}


def script(dev, seen):
    def go(i, r):
        if r["kind"] != "read_hr":
            return None
        k = (r["base"], r["count"])
        seen[k] = seen.get(k, 0) + 1
        if r["base"] in (1200, 1320) and seen[k] == 1:
            return []
        if r["base"] in (1260, 1380) and seen[k] == 1:
            return [(LAT, w.error_response(3, r["dev"], r["base"], r["count"]))]
        return None
    return go


def once(op, other, order, k, re_delay, second=None):
    """Cancel at loop step k; k None = dry run.  second: cancel the re-issued call too, this many steps later."""
    dev = Device(**plants.tables(SPEC), latency=LAT)
    seen = {}
    dev.script = script(dev, seen)
    rec = {"oth": {}}
    f, ok = OPS[op]

    async def main(loop):
        c = client(tx_message_wait=GAP, tx_jitter=0)
        if op != "detect":
            c.plant.capabilities = plants.caps(SPEC)
        await c.connect()
        rec["k0"] = loop.steps

        async def oth(i, g):
            rec["oth"][i] = await outcome(g(c)) + (loop.time(),)

        async def tgt():
            return await f(c)
        os_ = []
        if order == "before":
            os_ = [asyncio.ensure_future(oth(i, g)) for i, g in enumerate(OTHERS[other])]
        t = asyncio.ensure_future(tgt())
        if order == "after":
            os_ = [asyncio.ensure_future(oth(i, g)) for i, g in enumerate(OTHERS[other])]
        if k is None:
            o = await outcome(t)
            rec["first"] = o[0]
            rec["k1"] = loop.steps
            if os_:
                await asyncio.wait(os_)
            return "dry", o, ok(c, o[1]) if o[0] == "ok" else False
        box = {"target": t}

        def cancel():
            rec["cancel_t"] = loop.time()
            rec["was_done"] = box["target"].done()
            rec["on_wire"] = len(dev.log)
            box["target"].cancel()
        loop.at_step[k] = cancel
        o = await outcome(t)
        rec["first"] = o[0]
        rec["first_t"] = loop.time()
        if re_delay:
            await asyncio.sleep(re_delay)
        rec["re_wire"] = len(dev.log)
        if second is not None:
            t2 = asyncio.ensure_future(tgt())
            loop.at_step[loop.steps + second] = t2.cancel
            rec["second"] = (await outcome(t2))[0]
        rec["conn"] = c.connected
        if op == "detect" and not c.connected:
            return ("closed-by-cancel",)
        o = await outcome(asyncio.ensure_future(tgt()))
        good = o[0] == "ok" and ok(c, o[1])
        if os_:
            await asyncio.wait(os_, timeout=60)
            if not all(x.done() for x in os_):
                return ("other-caller-hangs",)
        later = await outcome(c.send_request_and_await_response(rd(3), timeout=T, retries=0))
        await asyncio.sleep(3)
        conn = c.connected
        cl = await outcome(c.close())
        return ("done", o[0], good, repr(o[1])[:200], later[0], conn, cl[0], c.connected)
    res, loop = vloop.run(main, dev.net, horizon=3000)
    return res, rec, dev, loop


def sh(t, jobs):
    for op, other, order, k, re_delay, second in jobs:
        res, rec, dev, loop = once(op, other, order, k, re_delay, second)
        ctx = dict(op=op, other=other, order=order, step=k, reissue_after=re_delay, second=second)
        t.add("states"); t.add("transitions", loop.steps)
        if isinstance(res, BaseException):
            t.violation("stuck", error=repr(res), **ctx); continue
        if res[0] != "done":
            t.violation(res[0], **ctx); continue
        _, o, good, err, later, conn, cl, conn2 = res
        t.outcome((op, other, order, rec["first"], o, tuple(x[0] for _, x in sorted(rec["oth"].items()))))
        if rec["first"] not in ("cancelled", "ok"):
            t.violation("cancelled-call-outcome", outcome=rec["first"], **ctx)
        if rec["first"] == "cancelled" and rec["first_t"] - rec["cancel_t"] > 1e-6:
            t.violation("cancellation-late", after=rec["first_t"] - rec["cancel_t"], **ctx)
        if not good:
            t.violation("reissued-call-failed", outcome=o, error=err, **ctx)
        if any(x[0] != "ok" for x in rec["oth"].values()) or len(rec["oth"]) != len(OTHERS[other]):
            t.violation("other-call-affected", outcomes={i: (x[0], repr(x[1])[:80]) for i, x in rec["oth"].items()}, **ctx)
        if later != "ok":
            t.violation("later-call-failed", outcome=later, **ctx)
        if not conn or not rec["conn"]:
            t.violation("disconnected-by-cancel", **ctx)
        if cl != "ok" or conn2:
            t.violation("close-failed", outcome=cl, **ctx)
        if dev.bad:
            t.violation("bad-frame-sent", bad=dev.bad[:3], **ctx)
        bad = [e for e in loop.errors if "never retrieved" not in str(e[0])]
        if bad:
            t.violation("loop-error", errors=bad[:3], **ctx)
        t.sample({**ctx, "cancelled_at_s": round(rec.get("cancel_t", 0) - 1000, 4), "first": rec["first"], "reissued": o, "frames": len(dev.log)}, 1)
        if t.full:
            return


def queued(t, jobs):
    """What a cancelled command still had in the queue is not written afterwards."""
    for nreads, k, how in jobs:
        dev = Device(**plants.tables(SPEC), latency=LAT)
        rec = {}

        async def main(loop):
            c = client(tx_message_wait=GAP, tx_jitter=0)
            c.plant.capabilities = plants.caps(SPEC)
            await c.connect()
            rec["k0"] = loop.steps
            ts = [asyncio.ensure_future(outcome(c.send_request_and_await_response(rd(i), timeout=T, retries=0))) for i in range(nreads)]
            t_ = asyncio.ensure_future(c.one_shot_command([wr(96, 1), wr(116, 50), wr(110, 4)]))

            def cancel():
                rec["t"] = loop.time()
                rec["n"] = sum(r["kind"] == "write" for _, _, r in dev.log)
                if not t_.done():
                    rec["hit"] = True
                    t_.cancel()
            if k is not None:
                loop.at_step[k] = cancel
            await outcome(t_)
            rec["k1"] = loop.steps
            r = await asyncio.gather(*ts)
            await asyncio.sleep(5)
            await c.close()
            return [o for o, _ in r]
        res, loop = vloop.run(main, dev.net, horizon=3000)
        if k is None:
            return rec["k0"], rec["k1"]
        t.add("states"); t.add("transitions", loop.steps)
        if isinstance(res, BaseException) or any(o != "ok" for o in res):
            t.violation("other-call-affected", reads=nreads, step=k, outcomes=repr(res)[:200]); continue
        after = [(round(tm - rec["t"], 4), r["register"]) for tm, _, r in dev.log if r["kind"] == "write"][rec.get("n", 0):]
        after = [x for x in after if x[0] > 0]  # the cancellation and the transmission fell on the same instant
        if rec.get("hit") and after:
            t.violation("written-after-cancel", reads=nreads, step=k, writes=after)


def superseded(t, jobs):
    """Several calls for the same range: cancelling an older one never takes the newest one's reply away."""
    for base, pre, delays, which, k in jobs:
        dev = Device(**plants.tables(SPEC), latency=LAT)
        dev.script = script(dev, {})
        rec = {}

        async def main(loop):
            c = client(tx_message_wait=GAP, tx_jitter=0)
            await c.connect()
            rec["k0"] = loop.steps
            ts = [asyncio.ensure_future(outcome(c.send_request_and_await_response(rd(i, n=1), timeout=T, retries=1))) for i in range(pre)]
            xs, os_ = [], []
            box = {}

            async def submit():
                for d in delays:
                    await asyncio.sleep(d)
                    xs.append(asyncio.ensure_future(c.send_request_and_await_response(rd(base), timeout=T, retries=0 if base == 9 else 2, retry_delay=RD)))
                    os_.append(asyncio.ensure_future(outcome(xs[-1])))
            sub = asyncio.ensure_future(submit())
            if k is not None:
                loop.at_step[k] = lambda: xs[which].cancel() if len(xs) > which else None
            await sub
            r = await asyncio.gather(*os_)
            rec["k1"] = loop.steps
            q = await asyncio.gather(*ts)
            z = await outcome(c.send_request_and_await_response(rd(base), timeout=T, retries=0))
            await c.close()
            return [o for o, _ in r], [o for o, _ in q], z[0], not c.expected_responses
        res, loop = vloop.run(main, dev.net, horizon=3000)
        if t is None:
            return rec["k0"], rec["k1"]
        t.add("states"); t.add("transitions", loop.steps)
        ctx = dict(range=base, before=pre, delays=delays, cancelled=which, step=k)
        if isinstance(res, BaseException):
            t.violation("stuck", error=repr(res), **ctx); continue
        if res[0][-1] != "ok":
            t.violation("newest-call-lost-its-reply", outcomes=res[0], **ctx)
        if any(o != "ok" for o in res[1]):
            t.violation("other-call-affected", outcomes=res[1], **ctx)
        if res[2] != "ok":
            t.violation("later-call-failed", outcome=res[2], **ctx)
        t.outcome(("superseded", tuple(res[0])))
        if t.full:
            return


LIFE = {
    "connect": lambda c: c.connect(),
    "connect-hang": lambda c: c.connect(),
    "reconnect": lambda c: c.connect(),
    "reconnect-stalled": lambda c: c.connect(),
    "close": lambda c: c.close(),
    "close-stalled": lambda c: c.close(),
    "reconnect-after-eof": lambda c: c.connect(),
}


def lifecycle(t, jobs):
    """connect()/close() themselves cancelled at every step (or after a while): the client can still connect and work."""
    for op, k, then in jobs:
        dev = Device(**plants.tables(SPEC), latency=LAT)
        rec = {}

        async def main(loop):
            c = client(tx_message_wait=GAP, tx_jitter=0)
            if op not in ("connect", "connect-hang"):
                await c.connect()
                await c.send_request_and_await_response(rd(1), timeout=T, retries=0)
                if "stalled" in op:
                    dev.net.conns[0].pause()
                    asyncio.ensure_future(outcome(c.send_request_and_await_response(rd(2), timeout=T, retries=0)))
                    await asyncio.sleep(0.2)
                if "eof" in op:
                    dev.net.conns[0].eof()
                    await asyncio.sleep(0.1)
            if op == "connect-hang":
                dev.net.refuse = "hang"
            rec["k0"] = loop.steps
            ta = asyncio.ensure_future(LIFE[op](c))
            if k is not None:
                if isinstance(k, int):
                    loop.at_step[k] = ta.cancel
                else:
                    loop.call_later(k, ta.cancel)
            o = await outcome(ta)
            rec["k1"] = loop.steps
            dev.net.refuse = None
            if then == "close":
                x = await outcome(c.close())
                if x[0] != "ok":
                    return ("close-failed", repr(x[1]))
            x = await outcome(c.connect())
            if x[0] != "ok" or not c.connected:
                return ("connect-failed", repr(x[1]))
            r = await asyncio.gather(*[outcome(c.send_request_and_await_response(rd(i), timeout=T, retries=0)) for i in (1, 2, 3)])
            await asyncio.sleep(15)
            if not c.connected or any(q[0] != "ok" for q in r):
                return ("session-broken", [q[0] for q in r], c.connected)
            x = await outcome(c.close())
            return ("done", o[0], x[0], c.connected)
        res, loop = vloop.run(main, dev.net, horizon=3000)
        if t is None:
            return rec["k0"], rec["k1"]
        t.add("states"); t.add("transitions", loop.steps)
        if isinstance(res, BaseException) or res[0] != "done" or res[2:] != ("ok", False):
            t.violation("lifecycle", op=op, step=k, then=then, got=repr(res)[:300])
        else:
            t.outcome(("life", op, res[1]))


def main():
    c = Check("C06", "model_checking")
    lj = []
    for op in LIFE:
        a, b = lifecycle(None, [(op, None, None)])
        lj += [(op, k, th) for th in (None, "close") for k in list(range(a + 1, b + 2)) + [0.1, 0.5, 1.5]]
    c.run(lifecycle, split(lj, 8))
    jobs = []
    for op in OPS:
        for other in OTHERS:
            for order in ("before", "after"):
                if other == "none" and order == "after":
                    continue
                res, rec, dev, loop = once(op, other, order, None, 0)
                if isinstance(res, BaseException) or not res[2]:
                    c.total.violation("uncancelled-run-failed", op=op, other=other, order=order, got=repr(res)[:300]); continue
                ks = range(rec["k0"] + 1, rec["k1"] + 1)
                c.total.info[f"{op}/{other}/{order}"] = len(ks)
                for k in ks:
                    for d in (0.0, 0.02) if c.quick else (0.0, 0.02, 0.35, 1.2):
                        jobs.append((op, other, order, k, d, None))
                    if other != "none" and (not c.quick or (k % 3 == 0 and order == "before")):
                        for s2 in (1, 4, 9) if c.quick else (1, 2, 3, 4, 5, 6, 8, 11, 15, 20):
                            jobs.append((op, other, order, k, 0.0, s2))
    c.run(sh, split(jobs, 128))
    qj = []
    for n in (0, 1, 3, 8, 19, 22):
        a, b = queued(None, [(n, None, None)])
        qj += [(n, k, None) for k in range(a + 1, b + 1)]
    c.run(queued, split(qj, 16))
    sj = []
    D = (0.0, 0.02, 0.06) if c.quick else (0.0, 0.005, 0.02, 0.06, 0.2, 0.9)
    for base in (9, 20, 21):  # answered; first answer lost; first answer an error
        for pre in (0, 1, 3, 21) if c.quick else (0, 1, 2, 3, 8, 19, 21):
            for dl in [(0.0, d) for d in D] + [(0.0, d, e) for d in D for e in D]:
                a, b = superseded(None, [(base, pre, dl, 0, None)])
                sj += [(base, pre, dl, wh, k) for wh in range(len(dl) - 1) for k in range(a + 1, b + 1)]
    c.run(superseded, split(sj, 64))
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0),
              "cancellation_points": n.get("states", 0)})


if __name__ == "__main__":
    main()
