"""C04: lose/close the connection at every instant of every operation, reconnect, and compare the new session with a fresh client's."""
import asyncio, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, caches, outcome, ConnectionLost, CommunicationError
from givenergy_modbus import pdu as P

GAP, LAT, T, RD = 0.05, 0.03, 1.0, 0.5


def rd(i, dev=0x11):
    return P.ReadHoldingRegistersRequest(base_register=60 * i, register_count=2, device_address=dev)


def wr(reg, val):
    return P.WriteHoldingRegisterRequest(register=reg, value=val)


def call(rq, retries=2, delay=RD):
    return lambda c: c.send_request_and_await_response(rq, timeout=T, retries=retries, retry_delay=delay)


# what is going on in the old session
OPS = {
    "idle": [],
    "reads": [call(rd(0)), call(rd(1)), call(rd(7))],
    "silent": [call(rd(20)), call(rd(0)), call(rd(21))],          # 20.. are never answered: callers sit in retries
    "silent-now": [call(rd(20), delay=0), call(rd(22), delay=0)],
    "writes": [lambda c: c.one_shot_command([wr(96, 1), wr(116, 50), wr(110, 4)]), call(rd(20))],
    "errors": [call(rd(30)), call(rd(31))],                        # answered with error replies
    "backlog": [call(rd(20 + k), retries=1) for k in range(26)],   # overflows the transmit queue
    "heartbeats": [call(rd(0)), call(rd(20))],
}
# how the session ends: (action on the connection, action by the user)
REP = w.read_response(3, 0x11, 420, [0xAAAA, 0xBBBB])
ENDS = {
    "eof": lambda conn: conn.eof(),
    "reset": lambda conn: conn.reset(),
    "etimedout": lambda conn: conn.reset(TimeoutError(110, "Connection timed out")),
    "clean": lambda conn: conn.reset_clean(),
    "stall": lambda conn: conn.pause(),
    "user": None,
    **{f"part{n}": (lambda n: lambda conn: (conn.send(REP[:n]), conn.eof()))(n) for n in (1, 3, 5, 8, 17, 18, 19, 30, len(REP) - 1)},
    "part40+user": "part40",
    "longhdr": lambda conn: (conn.send(w.MARK + b"\x01\x2c\x01\x02" + b"\x00" * 30), conn.eof()),
}
WAITS = [0.0, 0.2, 0.7, 3.0]


def script(dev):
    def go(i, r):
        if r["kind"] == "heartbeat":
            return []
        conn = r["conn"]
        if r["base"] == 2700:
            return []
        if r["kind"].startswith("read") and conn == 0:
            if 1200 <= r["base"] < 1800:
                return []
            if 1800 <= r["base"]:
                return [(LAT, w.error_response(r["fc"], r["dev"], r["base"], r["count"]))]
        if r["kind"].startswith("read"):
            return [(LAT, w.read_response(r["fc"], r["dev"], r["base"], [1000 * (conn + 1) + r["base"] // 60, conn + 1]))]
        return None
    return go


NEW = [rd(7), rd(0), rd(20), wr(96, 1), rd(1)]  # includes shapes the old session was waiting for


async def new_session(c, loop):
    """What a user does with the new connection; returns results and times relative to now."""
    t0 = loop.time()
    out = []

    async def one(i, r):
        o = await outcome(c.send_request_and_await_response(r, timeout=T, retries=1, retry_delay=RD))
        v = getattr(o[1], "register_values", None) if o[0] == "ok" else repr(o[1])
        out.append((i, o[0], list(v) if isinstance(v, (list, tuple)) else v, round(loop.time() - t0, 6)))
    await asyncio.gather(*[asyncio.ensure_future(one(i, r)) for i, r in enumerate(NEW)])
    return sorted(out)


def frames_of(dev, conn, t0):
    return [(round(t - t0, 6), r["raw"].hex()) for t, cx, r in dev.log if cx == conn]


def norm(out):
    """Drop the connection number from the values."""
    return [(i, k, [x % 1000 if j == 0 else None for j, x in enumerate(v)] if isinstance(v, list) else v, t) for i, k, v, t in out]


def reference():
    dev = Device(banks={0x11: {"HR": {}, "IR": {}}})
    dev.script = script(dev)

    # run as connection 1: open and drop a connection first on a different client
    async def main2(loop):
        z = client(tx_message_wait=GAP, tx_jitter=0)
        await z.connect(); await z.close()
        c = client(tx_message_wait=GAP, tx_jitter=0)
        await c.connect()
        t0 = loop.time()
        o = await new_session(c, loop)
        await c.close()
        return norm(o), frames_of(dev, 1, t0)
    res, loop = vloop.run(main2, dev.net, horizon=3000)
    assert not isinstance(res, BaseException), res
    return res


def once(op, end, wait, k):
    """One execution; k None = dry run measuring the number of loop iterations."""
    dev = Device(banks={0x11: {"HR": {}, "IR": {}}})
    dev.script = script(dev)
    rec = {"old": [], "k1": None}

    async def main(loop):
        c = client(tx_message_wait=GAP, tx_jitter=0)
        await c.connect()
        rec["k0"] = loop.steps

        async def one(i, f):
            o = await outcome(f(c))
            rec["old"].append((i, o, loop.time()))
        ts = [asyncio.ensure_future(one(i, f)) for i, f in enumerate(OPS[op])]
        if op == "heartbeats":
            conn = dev.net.conns[0]
            for n in range(6):
                loop.call_later(0.011 + 0.037 * n, conn.send, w.heartbeat(w.ADAPTER, 1))
        if k is None:
            await asyncio.wait(ts, timeout=20) if ts else await asyncio.sleep(0.2)
            rec["k1"] = loop.steps
            return None
        go = loop.create_future()

        def inject():
            conn = dev.net.conns[0]
            e = ENDS[end]
            if e == "part40":
                conn.send(REP[:30])
            elif e is not None:
                e(conn)
            if not go.done():
                go.set_result(None)
        loop.at_step[k] = inject
        await asyncio.wait([go], timeout=20)
        if not go.done():
            loop.at_step.clear()
            inject()
        rec["t_end"] = loop.time()
        if end in ("user", "part40+user"):
            o = await outcome(c.close())
            if o[0] != "ok":
                return ("close-failed", repr(o[1]))
        if wait:
            await asyncio.sleep(wait)
        o = await outcome(c.connect())
        if o[0] != "ok":
            return ("connect-failed", repr(o[1]))
        t0 = loop.time()
        if not c.connected:
            return ("not-connected", None)
        new = await new_session(c, loop)
        # old callers must all come to an end too
        if ts:
            await asyncio.wait(ts, timeout=60)
        if not all(t.done() for t in ts):
            return ("old-caller-hangs", [i for i, t in enumerate(ts) if not t.done()])
        await asyncio.sleep(2.5)
        ok = c.connected
        fr = frames_of(dev, 1, t0)
        again = await outcome(c.send_request_and_await_response(rd(3), timeout=T, retries=0))
        # the new session notices its own loss, as promptly as the first would have
        dev.net.conns[-1].send(w.heartbeat(w.ADAPTER, 7))
        loop.call_later(0.4, dev.net.conns[-1].eof)
        a = loop.time()
        x = await outcome(c.send_request_and_await_response(rd(45), timeout=T, retries=1, retry_delay=RD))
        rec["second"] = (x[0], round(loop.time() - a, 4), [r["type"] for _, cx, r in dev.log if cx == 1 and r["kind"] == "heartbeat"])
        o = await outcome(c.close())
        return ("done", new, fr, ok, again[0], o[0], c.connected)
    res, loop = vloop.run(main, dev.net, horizon=5000)
    return res, rec, dev, loop


REF = None


def sh(t, jobs):
    global REF
    if REF is None:
        REF = reference()
    ref_out, ref_frames = REF
    for op, end, wait, k in jobs:
        res, rec, dev, loop = once(op, end, wait, k)
        ctx = dict(op=op, end=end, wait=wait, step=k)
        t.add("states"); t.add("transitions", loop.steps)
        if isinstance(res, BaseException):
            t.violation("stuck", error=repr(res), **ctx); continue
        if res is None:
            continue
        if res[0] != "done":
            t.violation(res[0], detail=res[1], **ctx); continue
        _, new, fr, ok, again, closed, conn_after = res
        t.outcome((op, end, tuple(sorted(o[0] for _, o, _ in rec["old"]))))
        for i, o, at in rec["old"]:
            v = getattr(o[1], "register_values", None) if o[0] == "ok" else None
            if v and list(v)[1:] == [2]:
                t.violation("old-call-answered-by-new-session", caller=i, got=list(v), **ctx)
            elif o[0] == "cancelled" and at > rec["t_end"]:
                t.violation("old-call-cancelled-by-new-session", caller=i, after=at - rec["t_end"], **ctx)
        if norm(new) != ref_out:
            t.violation("new-session-differs", got=norm(new), want=ref_out, **ctx)
        elif any(isinstance(v, list) and v[1:] == [1] for _, _, v, _ in new):
            t.violation("old-reply-in-new-session", got=new, **ctx)
        if fr != ref_frames:
            t.violation("new-session-traffic-differs", got=fr, want=ref_frames, **ctx)
        if not ok or again != "ok":
            t.violation("new-session-dies", connected=ok, call=again, **ctx)
        if rec["second"] != ("lost", 0.4, [7]):
            t.violation("second-loss", got=rec["second"], **ctx)
        if closed != "ok" or conn_after:
            t.violation("close-failed", outcome=closed, **ctx)
        if dev.bad:
            t.violation("bad-frame-sent", bad=dev.bad[:3], **ctx)
        if len(dev.net.conns) != 2:
            t.violation("connection-count", n=len(dev.net.conns), **ctx)
        elif dev.net.conns[0].closed_at is None or dev.net.conns[1].closed_at is None:
            t.violation("socket-left-open", which=[cn.closed_at for cn in dev.net.conns], **ctx)
        if loop.errors:
            bad = [e for e in loop.errors if "never retrieved" not in str(e[0])]
            if bad:
                t.violation("loop-error", errors=bad[:3], **ctx)
        t.sample({**ctx, "old": [o[0] for _, o, _ in rec["old"]], "new": [(i, o) for i, o, _, _ in new], "frames": len(fr)}, 1)
        if t.full:
            return


def refused(t, seqs):
    """Failed connection attempts, in any order, never spoil the next successful one."""
    global REF
    if REF is None:
        REF = reference()
    for seq in seqs:
        dev = Device(banks={0x11: {"HR": {}, "IR": {}}})
        dev.script = script(dev)

        async def main(loop):
            z = client(); await z.connect(); await z.close()
            c = client(tx_message_wait=GAP, tx_jitter=0)
            for s in seq:
                dev.net.refuse = {"refused": ConnectionRefusedError(111, "refused"), "hang": "hang", "unreach": OSError(113, "no route"), "ok": None}[s]
                a = loop.time()
                o = await outcome(c.connect())
                if s == "ok":
                    if o[0] != "ok":
                        return ("connect-failed", repr(o[1]))
                elif o[0] != "comm":
                    return ("failure-kind", s, o[0], repr(o[1]))
                elif loop.time() - a > 2.001:
                    return ("failure-late", s, loop.time() - a)
                elif c.connected:
                    return ("connected-after-failure", s)
            dev.net.refuse = None
            o = await outcome(c.connect())
            if o[0] != "ok":
                return ("connect-failed", repr(o[1]))
            t0 = loop.time()
            n = len(dev.net.conns) - 1
            out = await new_session(c, loop)
            await c.close()
            return ("done", norm(out), frames_of(dev, n, t0))
        res, loop = vloop.run(main, dev.net, horizon=3000)
        t.add("states"); t.add("transitions", loop.steps)
        if isinstance(res, BaseException) or res[0] != "done":
            t.violation("after-failed-connect", seq=seq, got=repr(res)[:300]); continue
        if (res[1], res[2]) != REF:
            t.violation("session-after-failed-connect-differs", seq=seq, got=res[1], frames=res[2])


def main():
    import itertools
    c = Check("C04", "model_checking")
    jobs = []
    for op in OPS:
        res, rec, dev, loop = once(op, "eof", 0, None)
        if isinstance(res, BaseException):
            c.total.violation("stuck-before-loss", op=op, error=repr(res)); continue
        ks = range(rec["k0"] + 1, rec["k1"] + 1)
        c.total.info[op] = len(ks)
        for end in ENDS:
            for wait in WAITS if not c.quick else WAITS[:3:2] if end in ("eof", "user") else WAITS[:1]:
                jobs += [(op, end, wait, k) for k in ks]
    c.run(sh, split(jobs, 128))
    c.run(refused, split([s for n in range(c.pick(4, 6)) for s in itertools.product(("refused", "hang", "unreach", "ok"), repeat=n)], 16))
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
