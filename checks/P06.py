"""P06: identity (inverter and dongle serial) comes only from good replies of the inverter's own addresses / the dongle."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, plants, ps, fr, vloop
from mc.report import Check, split
from mc.cl import Plant, client, Device, outcome
from mc.plants import Spec

OWN = (0x11, 0x31)
INV2, REG1, REG2, DONGLE2, DONGLE3 = "SA9999G111", "SA1234G567", "SB4321G765", "WG7654G321", "WH1111G222"
HEX = [a for a in range(256) if a not in OWN]


def ident(p):
    """(envelope serial, authoritative serial, dongle serial) as a consumer reads them."""
    return (p.inverter_serial_number, p.inverter_serial, p.data_adapter_serial_number)


# A letter: name, message, envelope rule, dongle rule, register rule
#   env:  "set:<serial>" must become it; "keep"; "any:<serial>" may become it (either is documented)
#   don:  same for the dongle serial
#   hr:   None, or {(dev): serial text the reply would put in HR(13-17)} (accepted only if it is a serial)
def L_read(n, dev, kind, base, vals, ser, ad=wire.ADAPTER, hr=None, **kw):
    env_ = f"set:{ser}" if dev in OWN else "keep"
    return dict(n=n, pdu=ps.reply(dev, kind, base, vals, ser=ser, adapter=ad, **kw), env=env_, don=f"set:{ad}", hr=hr)


def bad(raw, at):
    b = bytearray(raw)
    b[at] ^= 0x04
    return bytes(b)


def own_serial(dev):
    """The serial a device puts in its own envelope."""
    if dev in OWN:
        return wire.INVERTER
    return plants.serial("ZZ", dev)


def alphabet(big=True):
    t0 = plants.inverter_tables(plants.SPECS["hybrid2"])["HR"]
    hr = [t0.get(i, 0) for i in range(60)]
    hr2 = list(hr)
    hr2[13:18] = wire.serial_regs(REG2)
    hrbad = list(hr)
    hrbad[13:18] = [0x2020] * 5
    hrshort = list(hr)
    hrshort[15] = 0
    L = []

    def add(x):
        L.append(x)
    for dev in (0x11, 0x31):
        for ser in (wire.INVERTER, INV2):
            add(L_read(f"IR@{dev:#x} {ser}", dev, "IR", 0, range(1, 61), ser))
        add(L_read(f"HR(0,60)@{dev:#x} {REG2}", dev, "HR", 0, hr2, wire.INVERTER, hr=(dev, REG2)))
        add(L_read(f"HR(13,5)@{dev:#x} {REG1}", dev, "HR", 13, wire.serial_regs(REG1), wire.INVERTER, DONGLE2, hr=(dev, REG1)))
        add(dict(n=f"write echo@{dev:#x}", pdu=ps.pdu(wire.write_response(dev, 20, 1, wire.ADAPTER, INV2)), env=f"set:{INV2}", don=f"set:{wire.ADAPTER}", hr=None))
        add(dict(n=f"damaged IR@{dev:#x}", pdu=ps.pdu(bad(wire.read_response(4, dev, 0, [1, 2, 3], DONGLE3, "SC8888G222"), 30)), env="keep", don="keep", hr=None))
        add(dict(n=f"damaged HR identity@{dev:#x}", pdu=ps.pdu(bad(wire.read_response(3, dev, 13, wire.serial_regs(REG2), DONGLE3, "SC8888G222"), -9)), env="keep", don="keep", hr=None))
        add(dict(n=f"damaged write echo@{dev:#x}", pdu=ps.pdu(bad(wire.write_response(dev, 20, 1, DONGLE3, "SC8888G222"), 31)), env="keep", don="keep", hr=None))
        for fc in (3, 4, 0x16):
            add(dict(n=f"error fc{fc}@{dev:#x}", pdu=ps.pdu(wire.error_response(fc, dev, 0, 60, wire.ADAPTER, "SD8888G222")), env="keep", don=f"any:{wire.ADAPTER}", hr=None))
        add(dict(n=f"write error@{dev:#x}", pdu=ps.pdu(wire.write_response(dev, 20, 1, wire.ADAPTER, "SD8888G222", error=True)), env="keep", don=f"any:{wire.ADAPTER}", hr=None))
    add(L_read("HR bad serial block@0x11", 0x11, "HR", 0, hrbad, wire.INVERTER, hr=(0x11, None)))
    add(L_read("HR holed serial block@0x11", 0x11, "HR", 0, hrshort, wire.INVERTER, hr=(0x11, None)))
    add(L_read("IR zero@0x11", 0x11, "IR", 0, [0] * 60, wire.INVERTER))
    # a reply reused for another device: right range, other address (a damaged address byte, valid CRC or not)
    for dev in (0x32, 0x33, 0x01, 0x50, 0x70, 0xA0, 0x12, 0x10, 0x00, 0x30, 0x91, 0xFF):
        add(L_read(f"IR@{dev:#x}", dev, "IR", 60, range(1, 31), own_serial(dev)))
    for dev in (0x32, 0x01, 0x12, 0x00):
        add(L_read(f"HR(0,60) with a serial@{dev:#x}", dev, "HR", 0, hr2, own_serial(dev)))
        add(dict(n=f"write echo@{dev:#x}", pdu=ps.pdu(wire.write_response(dev, 20, 1, wire.ADAPTER, own_serial(dev))), env="keep", don=f"set:{wire.ADAPTER}", hr=None))
        add(dict(n=f"error@{dev:#x}", pdu=ps.pdu(wire.error_response(4, dev, 60, 60, wire.ADAPTER, own_serial(dev))), env="keep", don=f"any:{wire.ADAPTER}", hr=None))
    add(dict(n="damaged battery", pdu=ps.pdu(bad(wire.read_response(4, 0x32, 60, range(1, 61), DONGLE3, "BA8888G222"), -11)), env="keep", don="keep", hr=None))
    add(dict(n="MR@0x01", pdu=ps.reply(1, "MR", 60, range(1, 10), ser=own_serial(1)), env="keep", don=f"any:{wire.ADAPTER}", hr=None))
    b32 = plants.battery_regs(0x32)
    add(L_read("battery@0x32", 0x32, "IR", 60, [b32[60 + i] for i in range(60)], b"BA2100G011"))
    add(dict(n="null", pdu=ps.pdu(wire.null_response(DONGLE3)), env="keep", don=f"any:{DONGLE3}", hr=None))
    add(dict(n="heartbeat", pdu=ps.pdu(wire.heartbeat(DONGLE3)), env="keep", don=f"any:{DONGLE3}", hr=None))
    lan = fr.feed(fr.ClientFramer(), wire.lan_config(DONGLE3))
    if len(lan) == 1 and fr.is_msg(lan[0]):
        add(dict(n="lan config", pdu=lan[0], env="keep", don=f"any:{DONGLE3}", hr=None))
    return L


def allowed(rule, old):
    if rule == "keep":
        return {old}
    how, v = rule.split(":", 1)
    return {v} if how == "set" else {old, v}


def judge(t, x, st, after, cap_addr, trace):
    """st = (envelope, dongle, {addr: register serial}); returns the next reference state or None after a violation."""
    env_, don, regs = st
    e2, auth, d2 = after
    if e2 not in allowed(x["env"], env_):
        t.violation("inverter-serial", rule=x["env"], before=env_, after=e2, message=x["n"], trace=trace)
        return None
    if d2 not in allowed(x["don"], don):
        t.violation("dongle-serial", rule=x["don"], before=don, after=d2, message=x["n"], trace=trace)
        return None
    if x["hr"] and x["hr"][1]:
        cands = [{**regs, x["hr"][0]: x["hr"][1]}]
    elif x["hr"]:                       # an unreadable serial block: refused, or stored and then passed over
        cands = [regs, {**regs, x["hr"][0]: None}]
    else:
        cands = [regs]
    wants = []
    for r in cands:
        w = next((r[a] for a in dict.fromkeys((cap_addr, 0x11)) if a in OWN and r.get(a)), None) or e2
        if auth == w:
            regs2 = r
            break
        wants.append(w)
    else:
        t.violation("authoritative-serial", want=wants, got=auth, message=x["n"], trace=trace)
        return None
    return (e2, d2, regs2)


def fresh(scene, known):
    p = Plant(capabilities=None if scene == "none" else plants.caps("hybrid2"))
    cap = 0x11
    if scene == "legacy":
        p.capabilities.inverter_address = 0x31
        cap = 0x31
    if scene == "legacy32":
        p.capabilities.inverter_address = 0x32
        cap = 0x32
    st = ("", "", {})
    if known:
        p.update(ps.reply(0x11, "IR", 0, range(1, 61)), received_at=ps.at(0))
        st = (wire.INVERTER, wire.ADAPTER, {})
    return p, cap, st


def histories(t, shard, depth):
    scene, known, firsts = shard
    L = alphabet()
    base, cap, st0 = fresh(scene, known)

    def rec(p, st, d, names):
        t.add("states")
        for i, x in enumerate(L):
            if d == 0 and i not in firsts:
                continue
            q = ps.clone(p)
            q.update(x["pdu"], received_at=ps.at(30 + 30 * d))
            t.add("transitions")
            nst = judge(t, x, st, ident(q), cap, [scene, known] + names + [x["n"]])
            t.outcome((x["n"], st[:2], None if nst is None else nst[:2]))
            if t.full:
                return
            if nst is not None and d + 1 < depth:
                rec(q, nst, d + 1, names + [x["n"]])
    rec(base, st0, 0, [])
    t.sample({"scene": scene, "known": known, "letters": len(L), "first": [L[i]["n"] for i in firsts][:3]})


# -- every device address, kind and window carrying somebody's serial -----------------
def sweep(t, shard):
    devs, crcbad = shard
    for scene in ("none", "hybrid2", "legacy", "legacy32"):
        base, cap, st = fresh(scene, True)
        for dev in devs:
            for kind, wins in (("HR", ((0, 60), (13, 5), (60, 60), (4096, 3))), ("IR", ((0, 60), (60, 60), (110, 5), (60, 30), (2040, 55)))):
                for b, n in wins:
                    vals = [(7 * b + i) % 997 + 1 for i in range(n)]
                    hr = None
                    if kind == "HR" and b <= 13 and b + n >= 18:
                        vals[13 - b:18 - b] = wire.serial_regs(REG2)
                        hr = (dev, REG2) if dev in OWN else None
                    raw = wire.read_response(ps.FC[kind], dev, b, vals, DONGLE2, INV2)
                    n_ = f"{kind}({b},{n})@{dev:#x}"
                    if crcbad:
                        for at in (27, 30, 40, -1):
                            m = fr.feed(fr.ClientFramer(), bad(raw, at))
                            if len(m) != 1 or not fr.is_msg(m[0]):
                                continue
                            x = dict(n=n_ + f" damaged at {at}", pdu=m[0], env="keep", don="keep", hr=None)
                            p = ps.clone(base)
                            p.update(x["pdu"], received_at=ps.at(30))
                            judge(t, x, st, ident(p), cap, [scene])
                            t.add("transitions"); t.add("frames")
                    else:
                        p = ps.clone(base)
                        x = dict(n=n_, pdu=ps.pdu(raw), env=f"set:{INV2}" if dev in OWN else "keep", don=f"set:{DONGLE2}", hr=hr)
                        if kind == "HR" and dev not in OWN and hr is None and cap == dev:
                            x["hr"] = None
                        p.update(x["pdu"], received_at=ps.at(30))
                        judge(t, x, st, ident(p), cap, [scene])
                        t.add("transitions"); t.add("frames")
            for wr in (wire.write_response(dev, 20, 3, DONGLE2, INV2), wire.write_response(dev, 20, 3, DONGLE2, INV2, error=True), wire.error_response(3, dev, 0, 60, DONGLE2, INV2)):
                err = wr[27] & 0x80
                p = ps.clone(base)
                raw = bad(wr, -3) if crcbad else wr
                x = dict(n=f"{'error ' if err else ''}fc{wr[27] & 0x7f}@{dev:#x}" + (" damaged" if crcbad else ""), pdu=ps.pdu(raw), hr=None,
                         env=f"set:{INV2}" if dev in OWN and not err and not crcbad else "keep", don="keep" if crcbad and not err else f"any:{DONGLE2}" if err else f"set:{DONGLE2}")
                p.update(x["pdu"], received_at=ps.at(30))
                judge(t, x, st, ident(p), cap, [scene])
                t.add("transitions"); t.add("frames")


# -- sessions: detection, load and polls of plants whose every device signs with its own serial --------
EXTRA = ("none", "foreign", "damaged", "error", "damaged-serial")


def session(t, jobs):
    for name, extra, at in jobs:
        spec = plants.SPECS[name]
        b = plants.banks(spec)
        dev = Device(b, serials={a: own_serial(a) for a in b}, latency=0.02)
        absent = plants.absent_script(spec)

        def script(i, r):
            x = absent(i, r)
            if i != at or extra == "none" or r["kind"] not in ("read_hr", "read_ir"):
                return x
            a = x[0][1] if x else dev.answer(r)
            if extra == "foreign":
                y = wire.read_response(r["fc"], 0x32, r["base"], [3] * r["count"], wire.ADAPTER, "BA8888G222")
            elif extra == "error":
                y = wire.error_response(r["fc"], 0x11, r["base"], r["count"], wire.ADAPTER, "SD8888G222")
            elif extra == "damaged":
                y = bad(wire.read_response(r["fc"], 0x11, r["base"], [3] * r["count"], DONGLE3, "SC8888G222"), -5)
            else:
                if a is None:
                    return x
                y = bytearray(a); y[30] ^= 0x0C; y = bytes(y)
            return [(0.01, y)] + ([(0.02, a)] if a is not None else [])
        dev.script = script
        seen = []

        async def main(loop):
            c = client(tx_message_wait=0.01, tx_jitter=0)
            await c.connect()
            for step in ("detect", "load", "refresh", "refresh"):
                if step == "detect":
                    o = await outcome(c.detect(timeout=0.4, retries=2, probe_timeout=0.3, probe_retries=2))
                elif step == "load":
                    o = await outcome(c.load_config(timeout=0.4, retries=2, retry_delay=0.05))
                else:
                    o = await outcome(c.refresh(timeout=0.4, retries=2, retry_delay=0.05))
                seen.append((step, o[0], ident(c.plant)))
                if o[0] != "ok":
                    break
            await c.close()
            return True
        wrong = set()

        res, loop = vloop.run(main, dev.net, horizon=5000)
        t.add("states"); t.add("transitions", len(dev.log)); t.add("sessions")
        ctx = dict(plant=name, extra=extra, at=at)
        if res is not True:
            t.violation("stuck", error=repr(res), **ctx)
            continue
        want = (wire.INVERTER, wire.INVERTER, wire.ADAPTER)
        for step, o, i in seen:
            if o == "ok" and i != want:
                t.violation("session-identity", step=step, got=i, want=want, **ctx)
                break
        t.outcome((name, extra, tuple(o for _, o, _ in seen)))
        if len(seen) < 4:
            t.add("cut-short")
        if t.full:
            return


def main():
    c = Check("P06", "model_checking")
    n = len(alphabet())
    scenes = ("none", "hybrid2", "legacy", "legacy32")
    c.run(histories, [(s, k, f) for s in scenes for k in (False, True) for f in split(range(n), c.pick(2, 16))], depth=c.pick(2, 3))
    if c.quick:
        c.run(histories, [("hybrid2", False, [i]) for i in range(0, n, 6)], depth=3)
    c.run(sweep, [(d, bad_) for d in split(range(256), 16) for bad_ in (False, True)])
    jobs = []
    for s in plants.SPECS:
        N = len(plants.config_reads(plants.SPECS[s])) + 2 * len(plants.poll_reads(plants.SPECS[s])) + 45
        for e in EXTRA:
            jobs += [(s, e, a) for a in ([0] if e == "none" else range(0, N, c.pick(5, 1)))]
    c.run(session, split(jobs, c.pick(16, 64)))
    c.assumptions += ["serials in the alphabet are distinct per source, so the source of an adopted serial is observable",
                      "whether an error reply, a null message or a broadcast updates the dongle serial is left open (documents say any accepted reply); it never reaches the inverter's"]
    m = c.total.n
    c.finish({"states": m.get("states", 0) + m.get("frames", 0), "transitions": m.get("transitions", 0), "traces_validated_against_impl": m.get("transitions", 0),
              "letters": n, "history_depth": c.pick(2, 3), "sessions": m.get("sessions", 0)})


if __name__ == "__main__":
    main()
