"""C01: up to three overlapping callers x every bounded device behaviour; each gets its own reply or an honest failure."""
import asyncio, itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop, explore
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, caches, outcome
from givenergy_modbus import pdu as P

T, RD, GAP = 1.0, 0.5, 0.01
CLS = {3: P.ReadHoldingRegistersRequest, 4: P.ReadInputRegistersRequest, 0x16: P.ReadMeterProductRegistersRequest}
RSP = {3: P.ReadHoldingRegistersResponse, 4: P.ReadInputRegistersResponse, 0x16: P.ReadMeterProductRegistersResponse, 6: P.WriteHoldingRegisterResponse}
# (fc, device, base, count-or-value); neighbours of A differing in exactly one dimension
A = (4, 0x32, 60, 2)
SHAPES = {"A": A, "base": (4, 0x32, 61, 2), "count": (4, 0x32, 60, 3), "dev": (4, 0x33, 60, 2), "fc": (3, 0x32, 60, 2), "mr": (0x16, 0x32, 60, 2),
          "W": (6, 0x11, 60, 2), "W2": (6, 0x11, 61, 2), "Wdev": (6, 0x32, 60, 2), "HRinv": (3, 0x11, 60, 2),
          "end": (4, 0x32, 59, 3), "prod": (4, 0x32, 40, 3), "low": (4, 0x32, 0x13C, 2), "devbase": (4, 0x31, 61, 2)}


def mkreq(s):
    fc, dev, base, n = s
    if fc == 6:
        return P.WriteHoldingRegisterRequest(register={60: 96, 61: 116}[base], value=n, device_address=dev)
    return CLS[fc](base_register=base, register_count=n, device_address=dev)


def wsig(s):
    """Shape as seen on the wire (write registers remapped to writable ones)."""
    fc, dev, base, n = s
    return (fc, dev, {60: 96, 61: 116}[base] if fc == 6 else base, n)


# what the device does with one request: list of (delay, kind)
MENU = [
    ("prompt", [(0.10, "good")]),
    ("slow", [(0.61, "good")]),
    ("drop", []),
    ("late", [(T + 0.23, "good")]),
    ("later", [(T + RD + 0.17, "good")]),
    ("error", [(0.13, "error")]),
    ("twice", [(0.11, "good"), (0.29, "good")]),
    ("crossed", [(0.12, "crossed"), (0.63, "good")]),
    ("bad-then-good", [(0.12, "corrupt"), (0.37, "good")]),
]


def scenario(plan, retries):
    """plan: [(shape name, start time)]."""
    def run(ch):
        sent = []   # (time, wire shape, frame)
        deliv = []  # (time, kind, shape, uid)
        uid = [0]

        def bytes_for(kind, s):
            fc, dev, base, n = s
            uid[0] += 1
            u = uid[0]
            if kind == "error":
                return u, (w.write_response(dev, base, n, error=True) if fc == 6 else w.error_response(fc, dev, base, n))
            f = w.write_response(dev, base, n) if fc == 6 else w.read_response(fc, dev, base, [u] + [7] * (n - 1))
            if kind == "corrupt":
                f = f[:-2] + bytes([f[-2] ^ 0x5A, f[-1]])
            return u, f

        def script(i, r):
            s = (r["fc"], r["dev"], r["base"], r["count"])
            sent.append((r["t"], s))
            name, ev = MENU[ch.choose(f"reply to request {len(sent)} {s}", len(MENU))]
            out = []
            for k, (d, kind) in enumerate(ev):
                tgt = s
                if kind == "crossed":  # a reply to one of the other shapes in play, unasked
                    others = [x for x in shapes if x != s] or [(4, 0x34, 60, 2)]
                    tgt, kind = others[0], "good"
                def go(conn, kind=kind, tgt=tgt):
                    u, f = bytes_for(kind, tgt)
                    deliv.append((conn.loop.time(), kind, tgt, u))
                    conn.send(f)
                out.append((d + 0.0031 * len(sent), go))
            return out
        shapes = [wsig(SHAPES[n]) for n, _ in plan]
        dev = Device(script=script)
        results = []

        async def main(loop):
            c = client(tx_message_wait=GAP, tx_jitter=0)
            await c.connect()
            t0 = loop.time()

            async def caller(k, name, start):
                await asyncio.sleep(start)
                a = loop.time()
                o = await outcome(c.send_request_and_await_response(mkreq(SHAPES[name]), timeout=T, retries=retries, retry_delay=RD))
                results.append((k, name, a, loop.time(), o, caches(c.plant)))
            await asyncio.gather(*[asyncio.ensure_future(caller(k, n, s)) for k, (n, s) in enumerate(plan)], return_exceptions=True)
            await asyncio.sleep(5)
            await c.close()
            return "done"
        res, loop = vloop.run(main, dev.net, horizon=5000)
        return {"res": repr(res) if isinstance(res, BaseException) else res, "results": sorted(results, key=lambda r: r[0]), "sent": sent,
                "deliv": deliv, "bad": dev.bad}
    return run


class Rec(dict):
    def __repr__(self):
        return repr([(k, n, a, b, o[0]) for k, n, a, b, o, _ in self["results"]]) + repr(self["sent"]) + repr(self["deliv"])


def judge(t, plan, retries, ch, r):
    ctx = dict(plan=plan, retries=retries, schedule=ch.deviations(), trace=[(l, MENU[c][0]) for l, c in ch.trace()])
    if r["res"] != "done" or len(r["results"]) != len(plan):
        t.violation("stuck", outcome=r["res"], finished=len(r["results"]), **ctx); return
    if r["bad"]:
        t.violation("malformed", bad=r["bad"], **ctx)
    names = [n for n, _ in plan]
    used = []
    for k, name, a, b, (kind, val), cc in r["results"]:
        s = wsig(SHAPES[name])
        mine = [d for d in r["deliv"] if d[2] == s and d[1] == "good"]
        newer_same = [x for x in r["results"] if x[1] == name and (x[2], x[0]) > (a, k)]
        if kind == "ok":
            got = (type(val), val.device_address) + ((val.register, val.value) if s[0] == 6 else (val.base_register, val.register_count))
            if got != (RSP[s[0]], s[1], s[2], s[3]) or val.error:
                t.violation("foreign-reply", caller=name, got=repr(got), want=s, **ctx)
            hits = [d for d in mine if a <= d[0] <= b]
            if not hits:
                t.violation("reply-from-nowhere", caller=name, window=[a, b], delivered=mine, **ctx)
            if s[0] != 6:
                u = val.register_values[0]
                src = [d for d in mine if d[3] == u]
                if not src or src[0][0] < a - 1e-9 or src[0][0] > b + 1e-9:
                    t.violation("stale-reply", caller=name, uid=u, window=[a, b], delivered=mine, **ctx)
                elif s[0] in (3, 4) and cc.get(s[1], {}).get(("HR" if s[0] == 3 else "IR", s[2])) not in [d[3] if d[2][2] == s[2] else 7 for d in r["deliv"] if d[1] == "good" and d[2][:2] == s[:2] and d[2][2] <= s[2] < d[2][2] + d[2][3] and src[0][0] <= d[0] <= b + 1e-9]:
                    t.violation("returned-before-commit", caller=name, uid=u, **ctx)
                used.append((name, u))
        elif kind == "timeout":
            # transmissions of this caller (shared with same-shaped callers): the first good reply in a window must have completed it
            if newer_same:
                continue
            older = [x for x in r["results"] if x[1] == name and x[0] != k]
            sends = [x[0] for x in r["sent"] if x[1] == s and a - 1e-9 <= x[0] <= b]
            if older:
                # transmissions cannot be told apart: the newest caller's own first transmission opens its window
                sends = sends[:1]
            errs = [d for d in r["deliv"] if d[2] == s and d[1] == "error"]
            for st in sends:
                e = min([d[0] for d in errs if st <= d[0]] + [st + T])
                hit = [d for d in mine if st + 1e-9 < d[0] < min(st + T, e) - 1e-6]
                if hit:
                    t.violation("answered-but-timed-out", caller=name, index=k, sent=st, reply=hit[0], window=[a, b], **ctx)
            if len([x for x in r["sent"] if x[1] == s]) == 0:
                t.violation("never-sent", caller=name, **ctx)
            bound = (retries + 1) * (T + 0.1) + retries * RD + 0.5
            if b - a > bound:
                t.violation("late-timeout", took=b - a, **ctx)
        elif kind == "cancelled":
            if not newer_same:
                t.violation("cancelled-without-successor", caller=name, index=k, **ctx)
        else:
            t.violation("wrong-failure", caller=name, kind=kind, error=repr(val), **ctx)
    if len(set(used)) != len(used):
        t.violation("one-reply-two-callers", used=used, **ctx)
    t.outcome(tuple((n, o[0]) for _, n, _, _, o, _ in r["results"]))


def sh(t, jobs, bound):
    for plan, retries, shard in jobs:
        run = scenario(plan, retries)

        def on(ch, r):
            t.add("states"); t.add("transitions", len(ch.points))
            t.n["max_choice_points"] = max(t.n.get("max_choice_points", 0), len(ch.points))
            judge(t, plan, retries, ch, r)
        explore.explore(lambda ch: Rec(run(ch)), bound, t, on, shard)
        t.add("scenarios")
        if t.full:
            return


def main():
    c = Check("C01", "model_checking")
    names = [n for n in SHAPES if n != "A"]
    jobs = []
    starts = [0.0, 0.15, 0.7, 1.25]
    for n in names:
        for st in starts:
            jobs.append(([("A", 0.0), (n, st)], 1))
    for st in (0.0, 0.05, 0.15, 0.7, 1.05, 1.25, 1.45, 1.6, 2.2):
        jobs.append(([("A", 0.0), ("A", st)], 1))
        jobs.append(([("W", 0.0), ("W", st)], 1))
        jobs.append(([("A", 0.0), ("A", st)], 2))
    jobs += [([("W", 0.0), ("HRinv", 0.0)], 1), ([("W", 0.0), ("W2", 0.1)], 1), ([("W", 0.0), ("Wdev", 0.1)], 1)]
    c.run(sh, [[(p, r, (0, 1))] for p, r in jobs], bound=c.pick(3, 4))
    three = [([("A", 0.0), (x, 0.0), (y, s)], 1) for x, y in (("base", "dev"), ("count", "fc"), ("A", "base"), ("mr", "W"), ("A", "A")) for s in (0.0, 0.3, 1.25)]
    c.run(sh, [[(p, r, (i, 4))] for p, r in three for i in range(4)], bound=c.pick(2, 3))
    n = c.total.n
    c.assumptions.append(f"device misbehaviours per execution bounded at {c.pick(3, 4)} (pairs), {c.pick(2, 3)} (triples) deviations from prompt replies")
    c.total.sample({"plan": jobs[0][0], "menu": [m[0] for m in MENU]})
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0), "schedules": n.get("states", 0)})


if __name__ == "__main__":
    main()
