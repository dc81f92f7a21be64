"""C03: connection loss at every event-loop instant of every kind of operation is reported promptly to every caller."""
import asyncio, itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, caches, outcome, CommunicationError, ConnectionLost
from mc import plants
from givenergy_modbus import pdu as P
from givenergy_modbus.exceptions import RefreshError

T, RD, GAP, LAT, RET = 1.0, 0.5, 0.02, 0.03, 1
# timeout, retry delay, frame gap, device latency, retries
CFGS = [(1.0, 0.5, 0.02, 0.03, 1), (1.0, 0.0, 0.25, 0.03, 2), (0.4, 0.7, 0.05, 0.2, 2), (2.0, 0.5, 0.25, 0.3, 0), (0.2, 0.1, 0.0, 0.19, 3),
        (0.5, 0.25, 0.1, 0.6, 1), (3.0, 1.0, 0.3, 1.0, 3), (1.0, 2.0, 0.01, 0.0, 2), (0.05, 0.0, 0.05, 0.04, 5), (1.5, 0.01, 0.35, 0.7, 1)]


def use(i):
    global T, RD, GAP, LAT, RET
    T, RD, GAP, LAT, RET = CFGS[i]


def rd(i, dev=0x11):
    return P.ReadInputRegistersRequest(base_register=60 * i, register_count=2, device_address=dev)


# -- operations: name -> (list of callers as async callables, device script or None) ----------------
def answered(i, r):
    return None


def silent(i, r):
    return []


def flaky(i, r):
    return None if i % 2 else []


async def _single(c):
    return await c.send_request_and_await_response(rd(0), timeout=T, retries=1, retry_delay=RD)


OPS = {
    "single": ([_single], answered),
    "single-silent": ([_single], silent),
    "three": ([lambda c, k=k: c.send_request_and_await_response(rd(k), timeout=T, retries=RET, retry_delay=RD) for k in range(3)], answered),
    "three-flaky": ([lambda c, k=k: c.send_request_and_await_response(rd(k), timeout=T, retries=1, retry_delay=RD) for k in range(3)], flaky),
    "gather": ([lambda c: c.execute([rd(k) for k in range(3)], timeout=T, retries=0)], silent),
    "write": ([lambda c: c.one_shot_command([P.WriteHoldingRegisterRequest(register=96, value=1), P.WriteHoldingRegisterRequest(register=116, value=50)])], silent),
    "refresh": ([lambda c: c.refresh(timeout=T, retries=1, retry_delay=RD)], answered),
    "refresh-flaky": ([lambda c: c.refresh(timeout=T, retries=1, retry_delay=RD)], flaky),
    "load_config": ([lambda c: c.load_config(timeout=T, retries=0, retry_delay=RD)], answered),
    "detect": ([lambda c: c.detect(timeout=T, retries=0, probe_timeout=0.3, probe_retries=0)], answered),
    "refresh+write": ([lambda c: c.refresh(timeout=T, retries=0), lambda c: c.one_shot_command([P.WriteHoldingRegisterRequest(register=96, value=1)])], answered),
    "backlog": ([lambda c, k=k: c.send_request_and_await_response(rd(k), timeout=T, retries=0) for k in range(24)], silent),
}

LOSS = {
    "eof": lambda conn: conn.eof(),
    "reset": lambda conn: conn.reset(ConnectionResetError(104, "Connection reset by peer")),
    "timedout": lambda conn: conn.reset(TimeoutError(110, "Connection timed out")),
    "unreach": lambda conn: conn.reset(OSError(113, "No route to host")),
    "closed": lambda conn: conn.reset_clean(),
    "stall": lambda conn: conn.pause(),
    "partial+eof": lambda conn: (conn.send(w.read_response(4, 0x11, 0, [1, 2])[:20]), conn.eof()),
    "stall+eof": lambda conn: (conn.pause(), conn.loop.call_later(0.3, conn.eof)),
    "stall+reset": lambda conn: (conn.pause(), conn.loop.call_later(0.3, conn.reset)),
}
DRAIN = 10.0


def is_lost(o):
    kind, e = o
    if kind == "lost":
        return True
    if isinstance(e, RefreshError):
        return any(isinstance(x, ConnectionLost) for x in e.cause.exceptions)
    return False


async def _lose(c, dev, how):
    dev.net.conns[-1].eof() if how == "eof" else dev.net.conns[-1].reset(ConnectionResetError(104, "reset"))
    await asyncio.sleep(0.01)


async def h_inplace(c, dev):
    await c.connect()


async def h_closed(c, dev):
    await c.close(); await c.connect()


async def h_lost(c, dev):
    await _lose(c, dev, "eof"); await c.connect()


async def h_lost_closed(c, dev):
    await _lose(c, dev, "reset"); await c.close(); await c.connect()


async def h_lost_busy(c, dev):
    """Lost with a request waiting for its reply, then reconnected in place twice."""
    t = asyncio.ensure_future(outcome(c.send_request_and_await_response(rd(9), timeout=3, retries=2)))
    await asyncio.sleep(0.001)
    await _lose(c, dev, "reset"); await t
    await c.connect(); await c.connect()


async def h_refused(c, dev):
    """Lost, then a connection attempt that is refused, then one that works."""
    await _lose(c, dev, "eof")
    dev.net.refuse = ConnectionRefusedError(111, "refused")
    await outcome(c.connect())
    dev.net.refuse = None
    await c.connect()


# how the connection the loss hits came about
HIST = {"fresh": None, "inplace": h_inplace, "closed": h_closed, "lost": h_lost, "lost-closed": h_lost_closed, "lost-busy": h_lost_busy, "refused": h_refused}


def build(op, hist="fresh"):
    callers, script = OPS[op]
    plant_kind = "hybrid2"
    dev = Device(**plants.tables(plant_kind), script=script, latency=LAT)
    rec = {"out": [], "loss_at": None}

    async def main(loop):
        c = client(tx_message_wait=GAP, tx_jitter=0)
        if op not in ("detect",):
            c.plant.capabilities = plants.caps(plant_kind)
        await c.connect()
        if HIST[hist]:
            await HIST[hist](c, dev)
            dev.n = 0
        rec["t0_steps"] = loop.steps
        rec["client"] = c

        async def one(k, f):
            a = loop.time()
            try:
                o = await outcome(f(c))
            finally:
                pass
            rec["out"].append((k, a, loop.time(), o, rec["loss_at"], c.connected))
        ts = [asyncio.ensure_future(one(k, f)) for k, f in enumerate(callers)]
        await asyncio.gather(*ts)
        rec["steps_done"] = loop.steps
        if rec["loss_at"] is None:
            return "no-loss"
        await asyncio.sleep(0.4)  # a delayed EOF/reset has landed by now
        rec["connected_after"] = c.connected
        a = loop.time()
        o = await outcome(c.send_request_and_await_response(rd(7), timeout=T, retries=1, retry_delay=RD))
        rec["later"] = (o, loop.time() - a)
        a = loop.time()
        o = await outcome(c.close())
        rec["close"] = (o, loop.time() - a)
        return "done"
    return dev, rec, main


def base_ends(op, cfg, hist="fresh", memo={}):
    """End time and outcome of each caller when nothing goes wrong with the connection."""
    use(cfg)
    if (op, cfg, hist) not in memo:
        dev, rec, main = build(op, hist)
        res, loop = vloop.run(main, dev.net, horizon=3000)
        memo[op, cfg, hist] = {r[0]: (r[2], r[3][0]) for r in rec["out"]}, res, rec.get("t0_steps"), rec.get("steps_done")
    return memo[op, cfg, hist]


def sh(t, jobs):
    for cfg, op, hist, loss, k in jobs:
        use(cfg)
        dev, rec, main = build(op, hist)

        def inject():
            conn = dev.net.conns[-1]
            rec["loss_at"] = conn.loop.time()
            rec["was_connected"] = rec["client"].connected
            LOSS[loss](conn)
        res, loop = vloop.run(main, dev.net, horizon=3000, at_step={k: inject})
        t.add("states"); t.add("transitions", loop.steps)
        ctx = dict(cfg=cfg, op=op, history=hist, loss=loss, step=k)
        if isinstance(res, BaseException):
            t.violation("stuck", error=repr(res), finished=[r[0] for r in rec["out"]], **ctx); continue
        if res == "no-loss":
            t.add("after_end"); continue
        L = rec["loss_at"] + (0.3 if loss.startswith("stall+") else 0)  # when the connection really went
        stall = loss == "stall"
        allow = (DRAIN + 0.2 + GAP + LAT + T) if stall else 0.01
        if loss.startswith("stall") and op == "detect":
            allow += 2.0  # detect closes the dead connection before raising; a stalled peer costs connect_timeout
        for kk, a, b, o, lost, conn in rec["out"]:
            t.outcome((op, loss, o[0]))
            if lost is None and o[0] == "ok":
                continue
            if lost is None or b < L - 1e-6 and not stall:
                # ended before the loss: an honest timeout/partial result
                continue
            if o[0] == "ok":
                # only a caller whose last reply had already arrived may still succeed, exactly when it
                # would have anyway (while a stall lasts, replies to frames already out still flow)
                end, how = base_ends(op, cfg, hist)[0].get(kk, (None, None))
                if not stall and (b > L + allow or how != "ok" or (not loss.startswith("stall+") and b != end)):
                    t.violation("success-after-loss", caller=kk, at=b - L, **ctx)
                continue
            if stall and not is_lost(o):
                # while the peer only refuses writes, replies to frames already out may simply time out first
                if o[0] in ("timeout", "comm") or isinstance(o[1], RefreshError):
                    if b - L <= DRAIN + 2 * T + RD + 1:
                        continue
            if abs(b - L) < 1e-6 and abs(base_ends(op, cfg, hist)[0][kk][0] - b) < 1e-6 and base_ends(op, cfg, hist)[0][kk][1] == o[0]:
                continue  # it was ending at this very instant anyway
            if not is_lost(o):
                t.violation("loss-not-named", caller=kk, outcome=o[0], error=repr(o[1])[:200], after=b - L, **ctx)
            elif b > L + allow + RD:
                t.violation("loss-reported-late", caller=kk, after=b - L, allowed=allow + RD, **ctx)
        if not stall and rec["connected_after"]:
            t.violation("still-connected", **ctx)
        o, dt = rec["later"]
        if not stall and rec["was_connected"] and (o[0] != "lost" or dt > 0.001):
            t.violation("later-call-not-refused", outcome=o[0], took=dt, **ctx)
        if stall and not (o[0] == "lost" and dt <= DRAIN + 0.3 + GAP + LAT or o[0] == "ok"):
            t.violation("stall-not-detected", outcome=o[0], took=dt, **ctx)
        o, dt = rec["close"]
        if o[0] != "ok" or dt > (2.01 if loss.startswith("stall") else 0.01):
            t.violation("close-failed", outcome=o[0], error=repr(o[1])[:200], took=dt, **ctx)
        if rec["client"].connected:
            t.violation("connected-after-close", **ctx)
        t.sample({**ctx, "outcomes": [r[3][0] for r in rec["out"]], "reported_after_s": [round(r[2] - L, 4) for r in rec["out"]]}, 1)
        if t.full:
            return


def main():
    c = Check("C03", "model_checking")
    jobs = []
    for cfg in range(5 if c.quick else len(CFGS)):
        for op in OPS:
            ends, res, lo, hi = base_ends(op, cfg)
            if isinstance(res, BaseException):
                c.total.violation("stuck-without-loss", op=op, cfg=cfg, error=repr(res)); continue
            c.total.info[f"{op}/{cfg}"] = hi - lo
            jobs += [(cfg, op, "fresh", loss, k) for loss in LOSS for k in range(lo + 1, hi + 1)]
    for hist in HIST:
        if hist == "fresh":
            continue
        for cfg in c.pick((0,), (0, 1, 4)):
            for op in OPS if not c.quick else ("single-silent", "three", "refresh", "write", "backlog", "detect"):
                ends, res, lo, hi = base_ends(op, cfg, hist)
                if isinstance(res, BaseException):
                    c.total.violation("stuck-without-loss", op=op, cfg=cfg, history=hist, error=repr(res)); continue
                jobs += [(cfg, op, hist, loss, k) for loss in LOSS for k in range(lo + 1, hi + 1, c.pick(3, 1))]
    c.run(sh, split(jobs, 128))
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0),
              "crash_points": n.get("states", 0)})


if __name__ == "__main__":
    main()
