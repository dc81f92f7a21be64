"""C05: every interleaving of senders, heartbeats and back-pressure; the wire must show whole frames, in order, spaced, each heartbeat answered once."""
import asyncio, itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, caches, outcome
from givenergy_modbus import pdu as P

T, RD = 1.0, 0.5
WREG = (96, 116, 110, 111, 112, 114, 27, 35, 36, 20, 29, 50)


def req(i):
    """The i-th sender's request and the fields its frame must carry."""
    k = i % 4
    if k == 0:
        return P.ReadHoldingRegistersRequest(base_register=60 * i, register_count=2, device_address=0x11), ("read_hr", 0x11, 60 * i, 2)
    if k == 1:
        return P.ReadInputRegistersRequest(base_register=60 * i, register_count=60, device_address=0x32), ("read_ir", 0x32, 60 * i, 60)
    if k == 2:
        return P.WriteHoldingRegisterRequest(register=WREG[i // 4], value=1), ("write", 0x11, WREG[i // 4], 1)
    return P.ReadMeterProductRegistersRequest(base_register=60 + i, register_count=9, device_address=1 + i % 8), ("read_mr", 1 + i % 8, 60 + i, 9)


def sig(r):
    return ("hb", r["type"]) if r["kind"] == "heartbeat" else (r["kind"], r["dev"], r["base"], r["count"])


def run(starts, beats, gap, jit, rnd, stall, silent=(), retries=0, at=None, ser=w.ADAPTER, chunked=0):
    """starts: call time per sender; beats: (time, type); stall: (pause, resume) or None; at: (loop step, action)."""
    vloop.set_rand(rnd)
    dev = Device(banks={a: {"HR": {}, "IR": {}, "MR": {}} for a in (0x11, 0x32, 1, 2, 3, 4, 5, 6, 7, 8)})
    sent_sig = {}
    dev.script = lambda i, r: [] if sig(r) in sent_sig and sent_sig[sig(r)] in silent else None
    rec = {"sub": [], "out": {}}

    async def main(loop):
        c = client(tx_message_wait=gap, tx_jitter=jit)
        await c.connect()
        conn = dev.net.conns[0]
        t0 = loop.time()
        rec["t0"] = t0

        def beat(typ):
            f = w.heartbeat(ser, typ)
            rec["sub"].append(("hb", typ))
            if chunked:
                conn.send(f[:chunked]); loop.call_soon(conn.send, f[chunked:])
            else:
                conn.send(f)
        rec["beat"] = beat
        for tm, typ in beats:
            loop.call_at(t0 + tm, beat, typ)
        if stall:
            loop.call_at(t0 + stall[0], conn.pause)
            loop.call_at(t0 + stall[1], conn.resume)

        async def sender(i, tm):
            rq, s = req(i)
            sent_sig[s] = i
            if tm:
                await asyncio.sleep(tm)
            rec["sub"].append(s)
            rec["out"][i] = await outcome(c.send_request_and_await_response(rq, timeout=T, retries=retries, retry_delay=RD))
        rec["k0"] = loop.steps
        ts = [asyncio.ensure_future(sender(i, tm)) for i, tm in enumerate(starts)]
        await asyncio.gather(*ts)
        rec["k1"] = loop.steps
        await asyncio.sleep(30)
        rec["connected"] = c.connected
        await c.close()
    try:
        res, loop = vloop.run(main, dev.net, horizon=2000, at_step=at(rec) if at else None)
    finally:
        vloop.set_rand(0.0)
    return res, rec, dev, loop


def judge(t, ctx, res, rec, dev, loop, gap, jit, rnd, stall, silent, retries, order=True):
    t.add("states"); t.add("transitions", loop.steps)
    if isinstance(res, BaseException):
        t.violation("stuck", error=repr(res), **ctx); return
    if dev.bad or any(s.buf for s in dev.split.values()):
        t.violation("broken-frame-on-the-wire", bad=dev.bad[:3], **ctx)
    if not rec["connected"]:
        t.violation("connection-dropped", **ctx)
    got = [sig(r) for _, _, r in dev.log]
    firsts, seen = [], set()
    for s in got:
        if s[0] == "hb" or s not in seen:
            firsts.append(s); seen.add(s)
    want = list(rec["sub"])
    if order and firsts != want:
        t.violation("order", got=firsts, want=want, **ctx)
    elif sorted(map(str, firsts)) != sorted(map(str, want)):
        t.violation("lost-or-extra-frame", got=firsts, want=want, **ctx)
    for i, o in rec["out"].items():
        s = req(i)[1]
        n = got.count(s)
        if i in silent:
            if n != retries + 1 or o[0] != "timeout":
                t.violation("retransmissions", sender=i, frames=n, outcome=o[0], **ctx)
        elif (n != 1 or o[0] != "ok") and stall is None:
            t.violation("sender-failed", sender=i, frames=n, outcome=o[0], **ctx)
    g = gap + jit * rnd
    times = [a for a, _, _ in dev.raw]
    for a, b in zip(times, times[1:]):
        if b - a < g - 1e-6:
            t.violation("gap-too-small", at=[a - rec["t0"], b - rec["t0"]], gap=g, **ctx); break
    # work-conserving: with frames waiting, the next one goes out as soon as the gap allows
    if stall is None and not silent:
        last = max(t2 for t2, _, _ in dev.log) - rec["t0"] if dev.log else 0
        bound = max([0.0] + list(ctx["starts"]) + [b[0] for b in ctx["beats"]]) + g * len(dev.log) + 0.01
        if last > bound:
            t.violation("needless-delay", last=last, bound=bound, **ctx)
    t.outcome((tuple(got), tuple(o[0] for _, o in sorted(rec["out"].items()))))
    t.sample({**ctx, "wire": [[round(a - rec["t0"], 4), list(sig(r))] for a, _, r in dev.log][:8]}, 1)


def sh(t, jobs):
    for starts, beats, gap, jit, rnd, stall, silent, retries in jobs:
        res, rec, dev, loop = run(starts, beats, gap, jit, rnd, stall, silent, retries)
        judge(t, dict(starts=starts, beats=beats, gap=gap, jitter=jit, rnd=rnd, stall=stall, silent=silent, retries=retries),
              res, rec, dev, loop, gap, jit, rnd, stall, silent, retries)
        if t.full:
            return


def idents(t, jobs):
    """Any identity: every adapter type, every serial byte value, every split of the request."""
    for typ, ser, cut in jobs:
        res, rec, dev, loop = run((0.0, 0.011), [(0.005, typ), (0.5, 255 - typ)], 0.02, 0, 0, None, ser=ser, chunked=cut)
        judge(t, dict(starts=(0.0, 0.011), beats=[(0.005, typ), (0.5, 255 - typ)], type=typ, serial=ser.hex(), cut=cut), res, rec, dev, loop, 0.02, 0, 0, None, (), 0)
        if t.full:
            return


def steps(t, jobs):
    """A heartbeat (or two, back to back) lands at one exact event-loop step of a busy session."""
    for starts, gap, silent, retries, k, n in jobs:
        def at(rec):
            def go():
                for q in range(n):
                    rec["beat"](40 + q)
            return {k: go}
        res, rec, dev, loop = run(starts, (), gap, 0.0, 0, None, silent, retries, at=at)
        judge(t, dict(starts=starts, beats=(), gap=gap, step=k, n=n, silent=silent, retries=retries), res, rec, dev, loop, gap, 0.0, 0, (1, 1), silent, retries, order=False)
        # everything but the heartbeats keeps its order
        got = [sig(r) for _, _, r in dev.log]
        order, seen = [], set()
        for s in got:
            if s[0] != "hb" and s not in seen:
                order.append(s); seen.add(s)
        want = [s for s in rec["sub"] if s[0] != "hb"]
        # (calls beyond the 20 the queue holds are not queued yet; a heartbeat may take the slot one of them was waiting for)
        if order != want and (len(starts) <= 20 or sorted(order) != sorted(want)):
            t.violation("order", got=order, want=want, step=k, starts=starts, gap=gap)
        if [s[1] for s in got if s[0] == "hb"] != [s[1] for s in rec["sub"] if s[0] == "hb"]:
            t.violation("heartbeat-answers", got=[s for s in got if s[0] == "hb"], step=k, starts=starts, gap=gap)
        if t.full:
            return


def main():
    c = Check("C05", "model_checking")
    S = (0.0, 0.003, 0.019, 0.271, 0.9) if c.quick else (0.0, 0.003, 0.019, 0.271, 0.9, 1.777)
    H = (0.0011, 0.0217, 0.2837) if c.quick else (0.0011, 0.0217, 0.2837, 0.9513)
    jobs = []
    for n in range(0, 5):
        for starts in itertools.product(S, repeat=n):
            if n == 4 and c.quick and sum(s != 0 for s in starts) > 2:
                continue
            for nb in range(0, 4 if n < 4 else 2):
                for hb in itertools.combinations_with_replacement(range(len(H)), nb):
                    beats = tuple((H[x] + 0.0001 * i, 3 * i + x) for i, x in enumerate(hb))
                    if not n and not nb:
                        continue
                    for gap, jit, rnd in ((0.02, 0.0, 0.0), (0.25, 0.1, 0.7)) + (() if c.quick else ((0.0, 0.1, 1.0), (0.25, 0.1, 0.0))):
                        if n == 4 and c.quick and gap == 0.25 and nb:
                            continue
                        jobs.append((starts, beats, gap, jit, rnd, None, (), 0))
    for n in (1, 2, 3):
        for starts in itertools.product(S[:3], repeat=n):
            for silent in [x for r in range(1, n + 1) for x in itertools.combinations(range(n), r)]:
                for retries in (1, 2):
                    jobs.append((starts, ((0.0011, 7), (1.61, 8)), 0.25, 0.1, 0.5, None, silent, retries))
    for n in (1, 2, 3, 4):
        for starts in itertools.product(S[:3], repeat=n):
            for p, r in itertools.product((0.0005, 0.0101, 0.0207, 0.2601), (0.05, 0.2503, 0.7, 3.0)):
                if r > p:
                    jobs.append((starts, ((0.0011, 7), (0.3, 9)), 0.02, 0.0, 0.0, (p, r), (), 0))
    # overflowing the transmit queue
    for n in (19, 20, 21, 25, 30, 33):
        for hb in (0.0011, 0.5, 1.003):
            jobs.append(((0.0,) * n, ((hb, 5),), 0.05, 0.0, 0.0, None, (), 0) if hb != 0.0011 else ((0.0,) * n, (), 0.05, 0.0, 0.0, None, (), 0))
    c.run(sh, split(jobs, 96))
    ids = [(typ, w.ADAPTER.encode(), 0) for typ in range(256)] + [(1, bytes([b]) + w.ADAPTER.encode()[1:], 0) for b in range(256)]
    ids += [(1, w.ADAPTER.encode()[:9] + bytes([b]), 0) for b in range(0, 256, c.pick(5, 1))] + [(2, w.ADAPTER.encode(), k) for k in range(1, 19)]
    c.run(idents, split(ids, 32))
    sj = []
    for starts, gap, silent, retries in (((0.0, 0.0, 0.0), 0.02, (), 0), ((0.0, 0.003, 0.271), 0.25, (1,), 1), ((0.0,) * 24, 0.05, (2, 5), 1), ((0.0, 0.5, 0.9), 0.0, (0,), 2)):
        res, rec, dev, loop = run(starts, (), gap, 0, 0, None, silent, retries)
        sj += [(starts, gap, silent, retries, k, n) for k in range(rec["k0"] + 1, rec["k1"] + 1) for n in (1, 2)]
    c.run(steps, split(sj, 64))
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
