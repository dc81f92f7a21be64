"""C02: every per-attempt outcome sequence of one request, compared with a small reference model."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, caches, outcome
from givenergy_modbus import pdu as P

T = 1.0          # per-attempt timeout
OUT = ["silent", "good", "good_late", "good_next", "error", "error_late", "foreign_base", "foreign_count", "foreign_dev", "foreign_fc",
       "corrupt", "dup", "null", "heartbeat", "edge", "err_then_good", "corrupt_then_good", "split"]


def req(kind):
    if kind == "hr":
        return P.ReadHoldingRegistersRequest(base_register=60, register_count=3, device_address=0x11), (3, 0x11, 60, 3)
    if kind == "ir":
        return P.ReadInputRegistersRequest(base_register=60, register_count=3, device_address=0x32), (4, 0x32, 60, 3)
    if kind == "mr":
        return P.ReadMeterProductRegistersRequest(base_register=60, register_count=3, device_address=0x01), (0x16, 0x01, 60, 3)
    return P.WriteHoldingRegisterRequest(register=96, value=1), (6, 0x11, 96, 1)


def reply(kind, sig, i):
    fc, dev, base, n = sig
    return w.write_response(dev, base, n) if fc == 6 else w.read_response(fc, dev, base, [i + 1, 7, 0])


def chunks(*parts):
    """Deliver the parts as separate reads, one event-loop turn apart."""
    def go(conn, i=0):
        conn.send(parts[i])
        if i + 1 < len(parts):
            conn.loop.call_soon(go, conn, i + 1)
    return go


def events(kind, sig, i, what, retry_delay):
    """Per-attempt offsets keep arrivals of different attempts from coinciding with each other or a deadline."""
    e, a = _events(kind, sig, i, what, retry_delay)
    off = 0.0 if what == "edge" else 0.00731 * (i + 1)
    return [(d + off, x) for d, x in e], [(d + off, x) for d, x in a]


def _events(kind, sig, i, what, retry_delay):
    """(delay, bytes) list and the arrivals relevant to the model: (delay, 'good'|'error')."""
    fc, dev, base, n = sig
    good = reply(kind, sig, i)
    err = w.write_response(dev, base, n, error=True) if fc == 6 else w.error_response(fc, dev, base, n)
    late = T + retry_delay / 2 if retry_delay else T + 0.1
    nxt = T + retry_delay + 0.3
    foreign = {"foreign_base": (fc, dev, base + 1, n), "foreign_count": (fc, dev, base, n + 1), "foreign_dev": (fc, dev + 1, base, n),
               "foreign_fc": ({3: 4, 4: 3, 0x16: 4, 6: 3}[fc], dev, base, n)}
    if what == "silent": return [], []
    if what == "good": return [(0.2, good)], [(0.2, "good")]
    if what == "split": return [(0.2, chunks(good[:11], good[11:30], good[30:]))], [(0.2, "good")]
    if what == "edge": return [(T - 0.001, good)], [(T - 0.001, "good")]
    if what == "good_late": return [(late, good)], [(late, "good")]
    if what == "good_next": return [(nxt, good)], [(nxt, "good")]
    if what == "error": return [(0.2, err)], [(0.2, "error")]
    if what == "error_late": return [(late, err)], [(late, "error")]
    if what == "dup": return [(0.2, good + good), (0.7, good)], [(0.2, "good"), (0.7, "good")]
    if what == "null": return [(0.2, w.null_response())], []
    if what == "heartbeat": return [(0.2, w.heartbeat(w.ADAPTER, 1))], []
    if what == "corrupt": return [(0.2, good[:-1] + bytes([good[-1] ^ 1]))], []
    if what == "corrupt_then_good": return [(0.2, good[:-1] + bytes([good[-1] ^ 1])), (0.3, good)], [(0.3, "good")]
    if what == "err_then_good": return [(0.2, err + good), (0.25, good)], [(0.2, "error"), (0.2, "good"), (0.25, "good")]
    f = foreign[what]
    if fc == 6:
        if what == "foreign_count":
            return [], []  # a write echo has no count
        b = w.write_response(f[1], f[2], 1) if what != "foreign_fc" else w.read_response(3, dev, base, [1])
    else:
        b = w.read_response(f[0], f[1], f[2], [5] * f[3])
    return [(0.2, b)], []


def model(seq, kind, sig, retries, retry_delay, gap):
    """Reference: (result, end time, send times) for a single caller, times relative to the call."""
    arrivals = []  # (time, kind)
    sends = []
    now = 0.0
    last_send = None
    for i in range(retries + 1):
        # enqueue at `now`; the producer sends no sooner than `gap` after the previous frame
        send_at = now if last_send is None else max(now, last_send + gap)
        # replies landing while the frame waits for its slot already answer it
        early = next((a for a in sorted(arrivals, key=lambda x: x[0]) if now <= a[0] < send_at), None)
        if early is not None:
            t, k, who = early
        else:
            sends.append(send_at)
            last_send = send_at
            arrivals += [(send_at + d, k, i) for d, k in events(kind, sig, i, seq[i] if i < len(seq) else "silent", retry_delay)[1]]
            hit = next((a for a in sorted(arrivals, key=lambda x: x[0]) if send_at <= a[0] < send_at + T), None)
            t, k, who = hit if hit else (send_at + T, "timeout", None)
        end = max(t, send_at)
        if k == "good":
            return "ok", end, sends, who, i
        arrivals = [a for a in arrivals if a[0] > t]
        now = end + (retry_delay if i < retries else 0)
        if retry_delay > 0:
            arrivals = [a for a in arrivals if a[0] > now]
    return "timeout", now, sends, None, retries


def sh(t, jobs):
    for kind, retries, retry_delay, seq in jobs:
        rq, sig = req(kind)
        gap = 0.05

        def script(i, r):
            if r["kind"] == "heartbeat":
                return []
            j = sum(1 for _, _, x in dev.log if x["kind"] != "heartbeat") - 1
            return events(kind, sig, j, seq[j] if j < len(seq) else "silent", retry_delay)[0]
        dev = Device(script=script)

        async def main(loop):
            c = client(tx_message_wait=gap, tx_jitter=0)
            await c.connect()
            t0 = loop.time()
            res = await outcome(c.send_request_and_await_response(rq, timeout=T, retries=retries, retry_delay=retry_delay))
            t1 = loop.time()
            n_at_return = len(dev.log)
            at_return = caches(c.plant)
            import asyncio
            await asyncio.sleep(10)
            await c.close()
            return (res[0], t1 - t0, t0, n_at_return, repr(res[1])[:120], getattr(res[1], "register_values", None), at_return,
                    dict(c.plant.retry_count))
        res, loop = vloop.run(main, dev.net, horizon=10000)
        t.add("states"); t.add("transitions", len(seq))
        ctx = dict(kind=kind, retries=retries, retry_delay=retry_delay, outcomes=list(seq))
        if isinstance(res, BaseException):
            t.violation("never-terminates", error=repr(res), **ctx); continue
        reqs = [(tt - res[2], r) for tt, _, r in dev.log if r["kind"] != "heartbeat"]
        has_hb = "heartbeat" in seq
        want, end, sends, who, consumed = model(seq, kind, sig, retries, retry_delay, gap)
        t.outcome((want, len(sends)))
        if dev.bad:
            t.violation("malformed-frame", bad=dev.bad, **ctx)
        if any((r["fc"], r["dev"], r["base"]) != sig[:3] or r["count"] != sig[3] for _, r in reqs):
            t.violation("wrong-request", sent=[r for _, r in reqs], **ctx)
        if len(reqs) > retries + 1:
            t.violation("too-many-transmissions", sent=len(reqs), **ctx)
        tol = 0.02 + (gap + 0.01) * (retries + 1) * has_hb
        if res[0] != want:
            t.violation("wrong-result", got=res[0], want=want, detail=res[4], at=res[1], model_end=end, **ctx)
        elif abs(res[1] - end) > tol:
            t.violation("wrong-time", got=res[1], want=end, result=want, **ctx)
        elif not has_hb and [round(x, 3) for x, _ in reqs] != [round(x, 3) for x in sends]:
            t.violation("wrong-transmissions", got=[x for x, _ in reqs], want=sends, **ctx)
        elif want == "ok" and kind != "wr" and res[5] != [who + 1, 7, 0]:
            t.violation("wrong-reply", got=res[5], want=who + 1, **ctx)
        elif want == "ok" and sig[0] in (3, 4) and res[6].get(sig[1], {}).get(("HR" if sig[0] == 3 else "IR", sig[2])) != who + 1:
            t.violation("returned-before-commit", got=res[6], want=who + 1, **ctx)
        elif res[7].get(sig[1], 0) != consumed:
            t.violation("retry-count", got=res[7], want=consumed, **ctx)
        bound = (retries + 1) * (T + gap) + retries * retry_delay + tol
        if res[1] > bound:
            t.violation("deadline-exceeded", took=res[1], bound=bound, **ctx)
        t.sample({**ctx, "result": res[0], "after_s": round(res[1], 3), "transmissions": len(reqs)})
        if t.full:
            return


def main():
    c = Check("C02", "model_checking")
    jobs = []
    for kind in ("ir", "hr", "mr", "wr"):
        for rd in (0.5, 0.0):
            for r in (0, 1):
                jobs += [(kind, r, rd, s) for s in itertools.product(OUT, repeat=r + 1)]
    for kind in c.pick(("ir", "wr"), ("ir", "hr", "wr")):
        for rd in (0.5, 0.0):
            jobs += [(kind, 2, rd, s) for s in itertools.product(OUT, repeat=3)]
    if not c.quick:
        small = ["silent", "good", "good_late", "good_next", "error", "error_late", "corrupt", "err_then_good"]
        for rd in (0.5, 0.0, 0.02):
            jobs += [("ir", 3, rd, s) for s in itertools.product(small, repeat=4)]
            jobs += [("wr", 4, rd, s) for s in itertools.product(small[:6], repeat=5)]
    c.run(sh, split(jobs, 64))
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
