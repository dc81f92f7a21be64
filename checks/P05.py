"""P05: reported ages equal the time since the last accepted reply; a poll with a maximum age skips exactly the fresh blocks."""
import os, sys, itertools
from datetime import datetime, timedelta, timezone
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, plants, ps, batt, vloop
from mc.report import Check, split
from mc.cl import Plant, client, Device, outcome
from mc.plants import Spec
from givenergy_modbus.model.register import HR, IR

CLS = {"HR": HR, "IR": IR}


def letters():
    spec = plants.SPECS["hybrid2"]
    b = plants.banks(spec)
    L = {}

    def add(n, dev, kind, base, vals, accept):
        vals = list(vals)
        L[n] = ("read", ps.reply(dev, kind, base, vals), (dev, kind, base, len(vals)), tuple(vals), accept)

    def tab(dev, kind, base, n):
        return [b[dev][kind].get(base + i, 0) for i in range(n)]
    hr, ir = tab(0x11, "HR", 0, 60), tab(0x11, "IR", 0, 60)
    ir2 = [v + 1 for v in ir]
    add("ir", 0x11, "IR", 0, ir, "zero-rule")
    add("ir'", 0x11, "IR", 0, ir2, "zero-rule")
    add("irZ", 0x11, "IR", 0, [0] * 60, "zero-rule")
    add("ir180", 0x11, "IR", 180, tab(0x11, "IR", 180, 60), "zero-rule")
    add("ir-short", 0x11, "IR", 5, [71, 72, 73], "yes")
    add("ir-over", 0x11, "IR", 30, [v % 50 + 1 for v in range(60)], "zero-rule")
    add("hr", 0x11, "HR", 0, hr, "zero-rule")
    add("hr-short", 0x11, "HR", 5, [81, 82, 83], "yes")
    bad = list(hr)
    bad[13:18] = [0x2020] * 5
    add("hr-badserial", 0x11, "HR", 0, bad, "no")
    add("ir31", 0x31, "IR", 0, ir, "zero-rule")
    add("meter", 0x01, "IR", 60, tab(0x01, "IR", 60, 30), "yes")
    sus = [{28: 0x4C32, 30: 0xA119, 31: 0x34EA, 32: 0xE77F, 33: 0xD475, 35: 0x4500, 41: 0xC0A8, 43: 0xC0A8, 51: 0x8018}.get(i, 3) for i in range(60)]
    add("ir-suspicious", 0x11, "IR", 0, sus, "no")
    add("bat", 0x32, "IR", 60, batt.frame(0x32), "battery")
    add("bat'", 0x32, "IR", 60, batt.frame(0x32, 1), "battery")
    add("bat-bad", 0x32, "IR", 60, batt.put(batt.frame(0x32), r76=400, r77=400, r100=5), "battery")
    add("bat-step", 0x32, "IR", 60, batt.put(batt.frame(0x32), r100=90), "battery")
    L["crc"] = ("x", ps.pdu(wire.read_response(4, 0x11, 0, ir2, crc=0x1111)))
    L["err"] = ("x", ps.pdu(wire.error_response(4, 0x11, 0, 60)))
    L["null"] = ("x", ps.pdu(wire.null_response()))
    L["echo"] = ("x", ps.pdu(wire.write_response(0x11, 5, 1234)))
    L["absent"] = ("absent", (0x11, "IR", 0, 60))
    L["forget"] = ("forget", (0x11, "IR", 0, 60))
    return L


class Ref:
    """What the plant should report."""

    def __init__(self):
        self.stamp, self.since, self.content, self.present = {}, {}, {}, {}

    def copy(self):
        r = Ref()
        r.stamp, r.since, r.content, r.present = map(dict, (self.stamp, self.since, self.content, self.present))
        return r

    def commit(self, blk, vals, when):
        self.stamp[blk] = when
        self.present[blk] = True
        if self.content.get(blk) != vals:
            self.content[blk], self.since[blk] = vals, when


BLOCKS = [(0x11, "IR", 0, 60), (0x11, "IR", 180, 60), (0x11, "IR", 5, 3), (0x11, "IR", 30, 60), (0x11, "HR", 0, 60), (0x11, "HR", 5, 3), (0x31, "IR", 0, 60), (0x01, "IR", 60, 30), (0x32, "IR", 60, 60),
          (0x33, "IR", 60, 60), (0x11, "IR", 0, 1), (0x11, "HR", 5, 1)]
PROBE = [(0x11, "IR", r) for r in (0, 4, 5, 7, 8, 29, 30, 59, 60, 89, 90, 179, 180, 239, 240)] + [(0x11, "HR", r) for r in (0, 5, 7, 8, 59, 60)] + [(0x31, "IR", 5), (0x01, "IR", 60), (0x01, "IR", 89), (0x01, "IR", 90),
                                                                                                                                       (0x32, "IR", 59), (0x32, "IR", 60), (0x32, "IR", 119), (0x33, "IR", 60)]


def audit(t, p, r, now, tr):
    def bad(what, **d):
        t.violation(what, at=now, **d, **tr)

    nd = ps.at(now)
    for blk in BLOCKS:
        want = None if blk not in r.stamp else now - r.stamp[blk]
        got = p.block_age(*blk, now=nd)
        if got != want:
            return bad("block-age", block=blk, got=got, want=want)
        want = None if blk not in r.since else now - r.since[blk]
        got = p.content_unchanged_seconds(*blk, now=nd)
        if got != want:
            return bad("unchanged-seconds", block=blk, got=got, want=want)
        got = p.block_present(*blk)
        if got is not r.present.get(blk):
            return bad("presence", block=blk, got=got, want=r.present.get(blk))
    regs = ps.regs(p)
    for dev, kind, i in PROBE:
        cov = [s for (d, k, b, n), s in r.stamp.items() if d == dev and k == kind and b <= i < b + n]
        want = now - max(cov) if cov else None
        got = p.register_age(dev, CLS[kind](i), now=nd)
        if (dev, kind, i) not in regs and cov:
            continue  # forgotten through another window: no value, so no age to be wrong about
        if got != want:
            return bad("register-age", register=(dev, kind, i), got=got, want=want)
    want = ps.at(max(r.stamp.values())) if r.stamp else None
    if p.last_updated_at != want:
        return bad("last-updated", got=str(p.last_updated_at), want=str(want))


STYLES = ("aware", "naive", "offset")


def when(s, style):
    if style == "naive":
        return ps.at(s).replace(tzinfo=None)
    if style == "offset":
        return ps.at(s).astimezone(timezone(timedelta(hours=5, minutes=30)))
    return ps.at(s)


def histories(t, shard, depth=3, dts=(0, 30)):
    firsts, style = shard
    L = letters()
    names = list(L)

    def rec(p, r, d, now, h):
        t.add("states")
        for i, k in enumerate(names):
            if d == 0 and i not in firsts:
                continue
            for dt in (dts if d else (0,)):
                q, s, at = ps.clone(p), r.copy(), now + dt
                x = L[k]
                tr = dict(history=h + [f"+{dt} {k}"], style=style)
                before = ps.regs(q)
                if x[0] == "absent":
                    q.mark_absent(*x[1])
                    s.present[x[1]] = False
                elif x[0] == "forget":
                    q.invalidate_presence(*x[1])
                    for m in (s.stamp, s.since, s.content, s.present):
                        m.pop(x[1], None)
                else:
                    b0 = batt.held(q)
                    q.update(x[1], received_at=when(at, style))
                    after = ps.regs(q)
                    if x[0] == "read":
                        _, _, blk, vals, acc = x
                        if acc == "battery":
                            # accepted exactly when the plant now serves this frame; a repeat of the held frame is ordinary movement
                            ok = batt.held(q) == list(vals) and (b0 is None or b0 != list(vals) or not any(batt.trips(b0, list(vals))))
                        elif acc == "zero-rule":
                            dev, kind, base, n = blk
                            ok = any(vals) or not any(before.get((dev, kind, base + j)) for j in range(n))
                        else:
                            ok = acc == "yes"
                        if ok:
                            s.commit(blk, vals, at)
                        t.outcome((k, ok))
                t.add("transitions")
                for later in (0, 17):
                    audit(t, q, s, at + later, tr)
                if t.full:
                    return
                if d + 1 < depth:
                    rec(q, s, d + 1, at, h + [f"+{dt} {k}"])
    rec(Plant(capabilities=plants.caps("hybrid2")), Ref(), 0, 0, [])
    t.sample({"letters": names, "style": style})


# -- polls with a maximum age ------------------------------------------------------
SCENES = {**plants.SPECS, "plain": Spec("HYBRID_GEN1")}


def live(t, shard):
    for name, max_age, seq, which in shard:
        spec = SCENES[name]
        tab = plants.banks(spec)
        polls = plants.poll_reads(spec)
        st = {"mode": None}
        accepted = {}

        def script(i, r):
            if not r["kind"].startswith("read"):
                return None
            blk = (r["dev"], Device.KIND[r["kind"]], r["base"], r["count"])
            if st["mode"] and blk in st["bad"]:
                if st["mode"] == "silent":
                    return []
                if st["mode"] == "zero":
                    return [(0.02, wire.read_response(r["fc"], r["dev"], r["base"], [0] * r["count"]))]
                if st["mode"] == "error":
                    return [(0.02, wire.error_response(r["fc"], r["dev"], r["base"], r["count"]))]
                if st["mode"] == "corrupt":
                    return [(0.02, wire.read_response(r["fc"], r["dev"], r["base"], [5] * r["count"], crc=0x0101))]
            st.setdefault("ok", []).append((blk, st["loop"].time()))
            return None
        dev = Device(tab, script=script, latency=0.02)
        bad = {polls[i % len(polls)] for i in which}

        async def main(loop):
            st["loop"], st["bad"] = loop, bad
            c = client(tx_message_wait=0.01, tx_jitter=0.0)
            c.plant.capabilities = plants.caps(spec)
            await c.connect()
            await c.refresh()
            await loop_sleep(1)
            await c.refresh()  # batteries are believed on the second look
            out = []
            for gap, mode in seq:
                await loop_sleep(gap)
                if mode == "fanout":  # somebody else's polls answered on our connection
                    for j, (d, k, b, n) in enumerate(polls):
                        if (d, k, b, n) in bad:
                            st["loop"].net.conns[-1].send(wire.read_response(ps.FC[k], d, b, [tab[d][k].get(b + i, 0) for i in range(n)]))
                    await loop_sleep(0.5)
                    continue
                if mode == "fanout-part":  # only part of the block: not fresh
                    for j, (d, k, b, n) in enumerate(polls):
                        if (d, k, b, n) in bad:
                            st["loop"].net.conns[-1].send(wire.read_response(ps.FC[k], d, b, [tab[d][k].get(b + i, 0) for i in range(5)]))
                    await loop_sleep(0.5)
                    continue
                ages = {blk: c.plant.block_age(*blk) for blk in polls}
                st["mode"] = mode
                n0 = len(dev.log)
                o = await outcome(c.refresh(timeout=0.5, retries=0, max_age=max_age))
                st["mode"] = None
                sent = [(r["dev"], Device.KIND[r["kind"]], r["base"], r["count"]) for _, _, r in dev.log[n0:] if r["kind"].startswith("read")]
                t1 = loop.time()
                out.append((ages, sent, o[0], t1))
                await loop_sleep(0.5)
            await c.close()
            return out
        import asyncio
        loop_sleep = asyncio.sleep
        # independent account of what was last accepted when
        res, loop = vloop.run(main, dev.net, horizon=90000)
        last = {}
        t.add("live")
        if not isinstance(res, list):
            t.violation("live-stuck", scene=name, seq=seq, got=repr(res))
            continue
        for k, (ages, sent, o, t1) in enumerate(res):
            t.add("transitions")
            want = [b for b in polls if ages[b] is None or max_age is None or ages[b] > max_age]
            if sorted(sent) != sorted(want):
                t.violation("skip", scene=name, max_age=max_age, seq=seq, poll=k, extra=sorted(set(sent) - set(want)), missing=sorted(set(want) - set(sent)))
                break
            t.outcome((o, len(sent) == len(polls), len(sent) == 0))
        # ages themselves against the script's own account
        mode_seq = [m for g, m in seq]
        age_ok(t, name, max_age, seq, res, polls, bad)


def age_ok(t, name, max_age, seq, res, polls, bad):
    """Replay the sequence on a plain clock: every reported age must be within the poll's own duration of the account."""
    last = {b: 0.0 for b in polls}
    now, k = 0.0, 0
    for gap, mode in seq:
        now += gap
        if mode in ("fanout", "fanout-part"):
            if mode == "fanout":
                for b in bad:
                    last[b] = now
            now += 0.5
            continue
        ages, sent, o, _ = res[k]
        k += 1
        slack = 0.1 * len(polls) + 4
        for b in polls:
            if ages[b] is None or not (now - last[b] - slack <= ages[b] <= now - last[b] + slack * (k + 1)):
                t.violation("live-age", scene=name, max_age=max_age, seq=seq, poll=k - 1, block=b, got=ages[b], about=now - last[b])
                return
        for b in sent:
            if not (mode in ("silent", "error", "corrupt") and b in bad or mode == "zero" and b in bad and b[3] >= 60):
                last[b] = now
        now += 0.5


def main():
    c = Check("P05", "model_checking")
    L = list(letters())
    sh = [(f, st) for st in (STYLES[:1] if c.quick else STYLES) for f in split(range(len(L)), len(L))]
    c.run(histories, sh, depth=c.pick(2, 3), dts=(0, 30))
    if c.quick:
        c.run(histories, [(f, st) for st in STYLES[1:] for f in split(range(len(L)), len(L))], depth=2, dts=(30,))
        keep = [i for i, n in enumerate(L) if n in ("ir", "irZ", "ir-short", "bat", "bat-bad", "forget", "echo")]
        c.run(histories, [((i,), "aware") for i in keep], depth=3, dts=(30,))
    lv = []
    seqs = [[(40, None)], [(40, "silent"), (40, None)], [(40, "zero"), (40, None)], [(40, "error"), (40, None)], [(40, "corrupt"), (40, None)], [(40, "fanout"), (10, None)], [(40, "fanout-part"), (10, None)],
            [(40, "fanout"), (40, None), (10, None)], [(10, None), (10, None), (60, None)], [(200, "zero"), (20, "zero"), (20, None)], [(200, "silent"), (20, None), (100, None)]]
    for name in SCENES:
        n = len(plants.poll_reads(SCENES[name]))
        for ma in c.pick((25.0, None), (0.0, 5.0, 25.0, 45.0, 130.0, None)):
            for s in seqs:
                for w in [(0,), tuple(range(n))] + [(i,) for i in range(1, n)][: c.pick(2, 20)]:
                    lv.append((name, ma, s, w))
    # polls landing just inside and just outside the maximum age of each block
    for name in SCENES:
        for ma in c.pick((25.0,), (5.0, 25.0, 45.0)):
            for j in c.pick((-1.1, -0.5, -0.2, 0.0, 0.3, 0.8), [x / 10 for x in range(-15, 16)]):
                lv.append((name, ma, [(ma - 0.5 + j, None), (ma - 0.5 + j, None)], (0,)))
    c.run(live, split(lv, 32))
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("transitions", 0), "live_runs": n.get("live", 0), "letters": len(L)})


if __name__ == "__main__":
    main()
