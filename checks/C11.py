"""C11: the one-call refresh and the watch loop against the steps they are documented to compose, for every failing request, tick and cancellation point."""
import asyncio, os, sys, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop, plants, ps
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, caches, outcome
from mc.plants import Spec
from givenergy_modbus import pdu as P

LAT, T = 0.03, 0.4
SPECS = {"gen1": Spec("HYBRID_GEN1", batts=(0x32, 0x33), meters=(1,)), "ems": plants.SPECS["ems"], "hv": Spec("HYBRID_3PH", stacks=(2,)), "aio": Spec("ALL_IN_ONE", stacks=(2,)), "gateway": plants.SPECS["gateway"],
         "bare": Spec("POLAR"), "gen3": plants.SPECS["gen3"]}
KINDS = ("silent", "error", "eof")


def device(name, bad):
    """``bad``: {index of the request on the wire: how it goes wrong}."""
    spec = SPECS[name]
    dev = Device(**plants.tables(spec), latency=LAT)
    ab = plants.absent_script(spec)

    def script(i, r):
        k = bad.get(i)
        if k == "silent":
            return []
        if k == "error":
            return [(LAT, w.error_response(r["fc"], r["dev"], r["base"], r["count"]))]
        if k == "eof":
            return [(LAT, lambda conn: conn.eof())]
        return ab(i, r) if ab else None
    dev.script = script
    return dev


def log(dev, t0):
    return [(round(t - t0, 6), cx, r["raw"].hex()) for t, cx, r in dev.log]


def brief(o, plant):
    k, v = o
    return (k, type(v).__name__ if k != "ok" else v is plant, [tuple(f.__dict__.values()) if hasattr(f, "__dict__") else tuple(f) for f in getattr(v, "failures", None) or []])


def image(c):
    return ps.canon(c.plant, vloop.VDatetime.now(vloop._dtmod.timezone.utc))


async def composed(c, full, known, retries):
    """What the documentation says the one call does."""
    if not known:
        await c.detect(timeout=T, retries=retries)
    if full:
        await c.load_config(timeout=T, retries=retries, retry_delay=0.1)
    await c.refresh(timeout=T, retries=retries, retry_delay=0.1)
    return c.plant


def run_once(name, bad, full, known, retries, legacy, again=True):
    dev = device(name, bad)
    rec = {}

    async def main(loop):
        c = client(tx_message_wait=0.02, tx_jitter=0)
        if known:
            c.plant.capabilities = plants.caps(SPECS[name])
        await c.connect()
        t0 = loop.time()
        o = await outcome(c.refresh_plant(full, timeout=T, retries=retries, retry_delay=0.1) if legacy else composed(c, full, known, retries))
        rec["out"] = brief(o, c.plant)
        rec["took"] = round(loop.time() - t0, 6)
        rec["log"] = log(dev, t0)
        rec["plant"] = image(c)
        rec["caps"] = None if c.plant.capabilities is None else plants.topo(c.plant.capabilities)
        rec["connected"] = c.connected
        if not c.connected:
            await c.connect()
        o = await outcome(c.refresh_plant(False, timeout=T, retries=retries, retry_delay=0.1) if legacy else composed(c, False, c.plant.capabilities is not None, retries))
        rec["again"] = brief(o, c.plant)
        rec["log2"] = log(dev, t0)
        await c.close()
        return True
    res, loop = vloop.run(main, dev.net, horizon=9000)
    return res, rec, loop, dev


def one_call(t, jobs):
    for name, bad, full, known, retries in jobs:
        ctx = dict(plant=name, bad=bad, full=full, topology_known=known, retries=retries)
        a = run_once(name, dict(bad), full, known, retries, True)
        b = run_once(name, dict(bad), full, known, retries, False)
        t.add("states"); t.add("transitions", a[2].steps + b[2].steps)
        if a[0] is not True or b[0] is not True:
            t.violation("stuck", legacy=repr(a[0]), composed=repr(b[0]), **ctx); continue
        for k in b[1]:
            if a[1][k] != b[1][k]:
                t.violation("differs:" + k, got=repr(a[1][k])[:300], want=repr(b[1][k])[:300], **ctx)
                break
        t.outcome((name, a[1]["out"][0], a[1]["again"][0]))
        t.sample({**ctx, "outcome": a[1]["out"][0], "frames": len(a[1]["log"])}, 1)
        if t.full:
            return


PERIOD, TICKS = 7.0, 3


class Boom(Exception):
    pass


def watch_once(name, bad, passive, handler, known=False, cancel=None, ticks=TICKS, bad_at=None):
    """One watch session; ``bad`` counts requests from the start of the watch, ``cancel`` is a loop step."""
    dev = device(name, bad)
    rec = {"calls": [], "frames_at_call": []}

    async def main(loop):
        c = client(tx_message_wait=0.02, tx_jitter=0)
        if known:
            c.plant.capabilities = plants.caps(SPECS[name])
        t0 = rec["t0"] = loop.time()

        def h():
            rec["calls"].append(round(loop.time() - t0, 6))
            rec["frames_at_call"].append(len(dev.log))
            if handler == len(rec["calls"]):
                raise Boom("handler")
        rec["k0"] = loop.steps
        task = asyncio.ensure_future(outcome(c.watch_plant(h if handler is not None else None, refresh_period=PERIOD, timeout=T, retries=0, retry_delay=0.1, passive=passive)))
        if cancel is not None:
            loop.at_step[cancel] = lambda: rec.setdefault("tc", (round(loop.time() - t0, 6), len(dev.log))) and task.cancel()
        await asyncio.wait([task], timeout=ticks * (PERIOD + 6))
        rec["k1"] = loop.steps
        rec["log"] = [(round(t - t0, 6), (r["dev"], r["kind"], r.get("base"), r.get("count"))) for t, _, r in dev.log]
        if not task.done():
            task.cancel()
            rec["out"] = ("running",)
            await asyncio.gather(task, return_exceptions=True)
        else:
            o = task.result()
            rec["out"] = (o[0], type(o[1]).__name__, round(loop.time() - t0, 6))
        n0 = len(dev.log)
        await asyncio.sleep(2 * PERIOD)
        rec["after"] = len(dev.log) - n0
        bad.clear()
        rec["connected"] = c.connected
        if not c.connected:
            o = await outcome(c.connect())
            if o[0] != "ok":
                rec["reuse"] = "connect " + o[0]
                return True
        o = await outcome(c.refresh_plant(False, timeout=T, retries=1, retry_delay=0.1))
        rec["reuse"] = o[0]
        await c.close()
        return True
    res, loop = vloop.run(main, dev.net, horizon=9000)
    return res, rec, loop


BASE = {}


def base(name, known):
    if (name, known) not in BASE:
        BASE[name, known] = watch_once(name, {}, False, 0, known)
    return BASE[name, known]


def watch(t, jobs):
    for name, kind, passive, handler, known, cancel in jobs:
        idx, what = kind or (None, None)
        spec = SPECS[name]
        polls = sorted(plants.poll_reads(spec))
        res, rec, loop = watch_once(name, {idx: what} if kind else {}, passive, handler, known, cancel)
        ctx = dict(plant=name, fails=kind, passive=passive, handler=handler, topology_known=known, cancel_step=cancel)
        t.add("states"); t.add("transitions", loop.steps)
        if res is not True:
            t.violation("stuck", error=repr(res), **ctx); continue
        b = base(name, known)[1]
        calls = rec["calls"]
        # the first round is the full one, each later round a plain poll; work out where the first failure falls
        first = b["frames_at_call"][0]
        reads = [x for _, x in rec["log"]]
        if any(x[1] == "write" for x in reads):
            t.violation("wrote", **ctx)
        for at, n in zip(calls, rec["frames_at_call"]):  # called as soon as the round is answered (or, when passive, once a period)
            if not passive and not 0 <= at - rec["log"][n - 1][0] <= LAT + 0.5 or passive and at == calls[0] and not 0 <= at - rec["log"][n - 1][0] <= LAT + 0.5:
                t.violation("handler-late", at=at, last_frame=rec["log"][n - 1], **ctx); break
        if rec["after"]:
            t.violation("still-polling-after-the-end", frames=rec["after"], **ctx)
        if rec["reuse"] != "ok":
            t.violation("client-unusable-afterwards", outcome=rec["reuse"], **ctx)
        if cancel is not None:
            if rec["out"][0] != "cancelled":
                t.violation("cancel-not-honoured", outcome=rec["out"], **ctx)
            if any(x > rec["tc"][0] for x in calls):
                t.violation("handler-after-cancel", calls=calls, **ctx)
            t.outcome((name, "cancel", len(calls)))
            continue
        fatal = None
        if kind and idx < len(b["log"]) and not (passive and idx >= first):
            k = b["log"][idx][1]
            isprobe = not known and idx < first and idx not in range(first - len(plants.config_reads(spec)) - len(polls), first)
            if not isprobe or what == "eof":
                fatal = idx
        if kind and not known and idx < first and fatal is None:
            continue  # discovery's own reading of a lost probe is D02's business
        if handler and fatal is not None and len(b["frames_at_call"]) >= handler and b["frames_at_call"][handler - 1] <= fatal:
            fatal = None  # the handler fails first
        want_calls = b["calls"]
        if fatal is not None:
            want_calls = [c for c, f in zip(b["calls"], b["frames_at_call"]) if f <= fatal]
        elif handler:
            want_calls = b["calls"][:handler]
        if handler is None:
            want_calls = []
        n = len(want_calls)
        if passive and fatal is None:
            ok = all(abs(c - (calls[0] + i * PERIOD)) < 1e-6 for i, c in enumerate(calls)) and (not want_calls or calls and abs(calls[0] - want_calls[0]) < 1e-6) and (len(calls) >= TICKS or handler) and (not handler or len(calls) == handler)
            if handler is None:
                ok = calls == []
            if not ok:
                t.violation("passive-handler-calls", calls=calls, **ctx)
            if len(reads) != first:
                t.violation("passive-watch-polled", frames=len(reads), full_round=first, **ctx)
        else:
            if calls != want_calls:
                t.violation("handler-calls", got=calls, want=want_calls, **ctx)
            rounds = [f for f in b["frames_at_call"]]
            for lo, hi in zip(rounds, rounds[1:]):
                if sorted((d, "IR" if kd == "read_ir" else "HR", bs, n) for d, kd, bs, n in reads[lo:hi]) != polls and len(reads) >= hi:
                    t.violation("round-is-not-one-poll", got=reads[lo:hi][:5], want=polls[:5], **ctx); break
            for c1, c2 in zip(calls, calls[1:]):
                if not PERIOD <= c2 - c1 <= PERIOD + 0.06 * len(polls) + 1:
                    t.violation("period", calls=calls, **ctx); break
        if fatal is not None:
            if rec["out"][0] in ("running", "ok", "cancelled"):
                t.violation("failure-swallowed", outcome=rec["out"], **ctx)
            if what == "eof" and rec["connected"]:
                t.violation("loss-not-noticed", **ctx)
        elif handler:
            if rec["out"][:2] != ("exc:Boom", "Boom"):
                t.violation("handler-error-swallowed", outcome=rec["out"], **ctx)
        elif rec["out"][0] != "running":
            t.violation("stopped-by-itself", outcome=rec["out"], **ctx)
        t.outcome((name, rec["out"][0], len(calls), passive))
        t.sample({**ctx, "calls": calls, "outcome": rec["out"][0]}, 1)
        if t.full:
            return


def main():
    warnings.simplefilter("ignore")
    c = Check("C11", "model_checking")
    jobs = []
    for name in SPECS:
        for known in (True, False):
            for full in (True, False):
                n = len(run_once(name, {}, full, known, 0, False)[1]["log"])
                for retries in c.pick((0,), (0, 1)):
                    jobs.append((name, (), full, known, retries))
                    for i in range(0, n + 2):
                        for k in KINDS:
                            if c.quick and not known and i % 2 and k != "eof":
                                continue
                            jobs.append((name, ((i, k),), full, known, retries))
                if known and n <= c.pick(6, 14):
                    jobs += [(name, ((i, a), (j, b)), full, known, 0) for i in range(n) for j in range(i + 1, n) for a in KINDS for b in KINDS]
    c.run(one_call, split(jobs, 128))
    jobs = []
    for name in SPECS if not c.quick else ("gen1", "ems", "hv"):
        for known in (True, False):
            res, rec, loop = base(name, known)
            if res is not True or rec["out"] != ("running",) or len(rec["calls"]) < TICKS:
                c.total.violation("watch-baseline", plant=name, topology_known=known, outcome=rec.get("out"), calls=rec["calls"], error=repr(res)); continue
            c.total.info[f"{name}/{known}"] = {"calls": rec["calls"], "frames": rec["frames_at_call"]}
            for passive in (False, True):
                for h in (None, 0, 1, 2, 3):
                    jobs.append((name, None, passive, h, known, None))
                for i in range(rec["frames_at_call"][2]):
                    for k in KINDS:
                        for h in c.pick((0,), (0, 2)):
                            jobs.append((name, (i, k), passive, h, known, None))
            ks = range(rec["k0"] + 1, rec["k1"])
            jobs += [(name, None, False, 0, known, k) for k in ks[::c.pick(7 if known else 29, 1)]]
    c.run(watch, split(jobs, 128))
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
