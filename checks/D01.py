"""D01: every plant of the bounded family, every device type code, every presence corner case, every hardware change between two discoveries."""
import asyncio, os, sys
from dataclasses import replace
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop, plants
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, outcome
from mc.plants import Spec

FAST = dict(timeout=0.4, retries=1, probe_timeout=0.2, probe_retries=0)


def discover(dev, between=None, kw=FAST, tx=0.01, again=None, marks=None):
    """One session; returns [(outcome, topology or None)] for one discovery, or two with ``between`` run in the middle."""
    out = []

    async def main(loop):
        c = client(tx_message_wait=tx, tx_jitter=0)
        await c.connect()
        for k in range(2 if between else 1):
            if k:
                await between(c)
            n0 = len(dev.log)
            o = await outcome(c.detect(**kw))
            caps = c.plant.capabilities
            out.append((o, None if caps is None else plants.topo(caps)))
            if o[0] == "ok" and o[1] is not caps:
                out.append((("returned-other-object", None), None))
            if marks is not None:
                marks.append(plants.marks_of(c.plant, dev, n0))
        await c.close()
        return True
    res, loop = vloop.run(main, dev.net, horizon=5000)
    return res, out


def judge(t, res, o, topo, want, ctx):
    if res is not True:
        t.violation("stuck", error=repr(res), **ctx)
    elif o[0] != "ok":
        t.violation("discovery-failed", outcome=o[0], error=repr(o[1]), **ctx)
    elif topo != want:
        t.violation("wrong-topology", diff={k: (None if topo is None else topo.get(k), want[k]) for k in want if topo is None or topo.get(k) != want[k]}, **ctx)


def cold(t, jobs):
    for spec, lat, dflt in jobs:
        dev = Device(**plants.tables(spec), latency=lat)
        dev.script = plants.absent_script(spec)
        marks = []
        res, out = discover(dev, kw={} if dflt else FAST, tx=0.25 if dflt else 0.01, marks=marks)
        t.add("states"); t.add("transitions", len(dev.log))
        ctx = dict(plant=spec.key(), latency=lat, default_timing=dflt)
        want = plants.expected(spec)
        for o, topo in out or [(("none", None), None)]:
            judge(t, res, o, topo, want, ctx)
            if topo == want and marks:
                plants.marked(t, marks[0], topo, ctx)
        t.outcome(repr(sorted(want.items(), key=str)))
        t.sample({**ctx, "requests": len(dev.log), "found": want}, 1)
        if t.full:
            return


# -- history: hardware changes between two discoveries of one session -----------------------------
def groups():
    S = Spec
    lv = [S("HYBRID_GEN2"), S("HYBRID_GEN2", batts=(0x32,)), S("HYBRID_GEN2", batts=(0x33,), meters=(2,)), S("HYBRID_GEN2", batts=(0x32, 0x33, 0x35), meters=(1, 2), bcu=True),
          S("HYBRID_GEN2", meters=(1,), bcu=True)]
    hv = [S("HYBRID_3PH"), S("HYBRID_3PH", stacks=(2, 3), meters=(1,)), S("HYBRID_3PH", stacks=(2,)), S("HYBRID_3PH", stacks=(1, 1)), S("HYBRID_3PH", stacks=(3, 2))]
    aio = [S("ALL_IN_ONE"), S("ALL_IN_ONE", stacks=(4,)), S("ALL_IN_ONE", stacks=(2,), meters=(1,))]
    ems = [S("EMS", meters=(1, 2), managed=2), S("EMS", meters=(2,), managed=1), S("EMS", meters=tuple(range(1, 9)), managed=4), S("EMS")]
    mix = [lv[3], hv[1], aio[1], ems[0], S("AC", batts=(0x32,)), S("GATEWAY"), S("HYBRID_GEN3", batts=(0x32,)), S("HYBRID_GEN3_OLD", batts=(0x32,))]
    return [lv, hv, aio, ems, mix]


def settled(a, b):
    """False when hardware that served a 60-register block now answers it with zeros.

    That is bit for bit a firmware dropout, whose data the library must keep (P02), so
    presence cannot be re-judged from it.
    """
    ba, bb = plants.banks(a), plants.banks(b)
    return not [d for d in ba if d not in bb and (0x31 <= d <= 0x37 or d >= 0x50)]


def history(t, jobs):
    for a, b, absent, poll in jobs:
        a, b = replace(a, absent=absent), replace(b, absent=absent)
        if absent == "zero" and not settled(a, b):
            continue
        dev = Device(**plants.tables(a), latency=0.01)
        dev.script = plants.absent_script(a)

        async def between(c):
            if poll:
                await outcome(c.refresh(timeout=0.4, retries=0))
                await outcome(c.refresh(timeout=0.4, retries=0))
            dev.banks = plants.banks(b)
            dev.script = plants.absent_script(b)
            if poll:
                await outcome(c.refresh(timeout=0.2, retries=0))
        marks = []
        res, out = discover(dev, between, marks=marks)
        ctx = dict(first=a.key(), then=b.key(), polled=poll)
        t.add("states"); t.add("transitions", len(dev.log))
        for (o, topo), want in zip(out, (plants.expected(a), plants.expected(b))):
            judge(t, res, o, topo, want, ctx)
        for (o, topo), want, m in zip(out, (plants.expected(a), plants.expected(b)), marks):
            if topo == want:
                plants.marked(t, m, topo, ctx)
        if len(out) != 2 and res is True:
            t.violation("wrong-topology", error="second discovery missing", **ctx)
        if t.full:
            return


# -- device type codes ----------------------------------------------------------------------------
FAMILY = {"2": "HYBRID", "3": "AC", "4": "HYBRID_3PH", "5": "EMS", "6": "AC_3PH", "7": "GATEWAY", "8": "ALL_IN_ONE"}
SPECIFIC = {"21": "POLAR", "41": "AIO_COMMERCIAL", "51": "EMS_COMMERCIAL", "81": "HYBRID_HV_GEN3", "82": "ALL_IN_ONE_HYBRID", "83": "HYBRID_GEN4"}


def model_of(dtc: int, fw: int):
    """The documented model for a device type code and firmware version (None: unknown)."""
    s = f"{dtc:04x}"
    if s[:2] == "20":
        return "HYBRID_GEN3" if 300 <= fw <= 399 else "HYBRID_GEN2" if 800 <= fw <= 999 else "HYBRID_GEN1"
    return SPECIFIC.get(s[:2]) or FAMILY.get(s[0])


FWS = (0, 1, 99, 299, 300, 302, 303, 399, 400, 449, 799, 800, 899, 900, 999, 1000, 3000, 65535)


def codes(t, jobs):
    from givenergy_modbus.model.inverter import resolve_model
    for dtcs, fws in jobs:
        for d in dtcs:
            for fw in fws:
                try:
                    got = resolve_model(d, fw).name
                except Exception:  # noqa: BLE001
                    got = None
                t.add("codes")
                if got != model_of(d, fw):
                    t.violation("wrong-model", dtc=f"{d:04x}", firmware=fw, got=got, expected=model_of(d, fw))
        if t.full:
            return


def codes_live(t, jobs):
    for d, fw in jobs:
        tab = plants.inverter_tables(Spec("HYBRID_GEN2"))
        tab["HR"][0], tab["HR"][21] = d, fw
        dev = Device(banks={0x11: tab}, latency=0.01)
        res, out = discover(dev)
        t.add("states"); t.add("transitions", len(dev.log))
        want = model_of(d, fw)
        ctx = dict(dtc=f"{d:04x}", firmware=fw, expected=want)
        if res is not True:
            t.violation("stuck", error=repr(res), **ctx)
        elif want is None:
            if out[0][0][0] == "ok" or out[0][1] is not None:
                t.violation("invented-model", got=out[0][1], **ctx)
        elif out[0][0][0] != "ok" or out[0][1]["device_type"] != want or (out[0][1]["arm_firmware_version"] or 0) != fw:
            t.violation("wrong-model", outcome=out[0][0][0], got=out[0][1], **ctx)
        t.outcome(want)
        if t.full:
            return


# -- presence corner cases ------------------------------------------------------------------------
def chars(s: bytes):
    s = s.ljust(10, b"\0")
    return [(s[i] << 8) | s[i + 1] for i in range(0, 10, 2)]


def presence_cases():
    """(name, spec, edit(banks), expected overrides) — one peripheral in a borderline state."""
    out = []
    lv = Spec("HYBRID_GEN2", batts=(0x32, 0x33), meters=(1,))
    good = [b"BG2127G123", b"ABCDEFGHIJ", b"0123456789", b"CE2344G001", b"A1B2C3D4E5"]
    bad = [b"", b" " * 10, b"BA2127G12", b"BA2127G1 2", b"BA2127-123", b"BA2127G12\n", b"\0BA2127G12"]
    for a in (0x32, 0x33):
        for s, ok in [(x, True) for x in good] + [(x, False) for x in bad]:
            def ed(b, a=a, s=s):
                for i, x in enumerate(chars(s)):
                    b[a]["IR"][110 + i] = x
            out.append((f"battery {a:02x} serial {s!r}", lv, ed, {} if ok else {"lv_battery_addresses": [x for x in (0x32, 0x33) if x != a]}))
    for m in range(1, 9):
        for v, ok in ((1, True), (2300, True), (4000, True), (0, False)):
            def ed(b, m=m, v=v):
                b[m] = {"IR": {60: v}}
            out.append((f"meter {m} v1={v}", replace(lv, meters=()), ed, {"meter_addresses": [m] if ok else []}))
    for reg in range(60, 64):
        for v in (1, 255, 65535):
            def ed(b, reg=reg, v=v):
                b[0x31] = {"IR": {reg: v}}
            out.append((f"lv bcu IR{reg}={v}", lv, ed, {"lv_bcu_address": 0x31}))

    def edz(b):
        b[0x31] = {"IR": {}}
    out.append(("lv bcu all zero", lv, edz, {"lv_bcu_address": None}))
    for model, stacks, key in (("ALL_IN_ONE", (4,), "aio_battery_module_addresses"), ("HYBRID_3PH", (2, 2), "hv_bmu_addresses"), ("HYBRID_HV_GEN3", (4,), "hv_bmu_addresses")):
        for k in range(4):
            for s in (b"", b" " * 10):
                def ed(b, k=k, s=s):
                    for i, x in enumerate(chars(s)):
                        b[0x50 + k]["IR"][114 + i] = x
                out.append((f"{model} module {k} serial {s!r}", Spec(model, stacks=stacks), ed, {key: [0x50 + i for i in range(4) if i != k]}))

            def eda(b, k=k):
                del b[0x50 + k]
            out.append((f"{model} module {k} silent", Spec(model, stacks=stacks), eda, {key: [0x50 + i for i in range(4) if i != k]}))
    # a BCU the BMS announces but which does not answer: neither invented nor hiding its neighbours
    for silent in range(3):
        def edb(b, silent=silent):
            del b[0x70 + silent]
        out.append((f"silent BCU {silent} of 3", Spec("HYBRID_3PH", stacks=(2, 2, 2)), edb, {"bcu_stacks": [(i, 2) for i in range(3) if i != silent], "hv_bmu_addresses": [0x50, 0x51, 0x52, 0x53]}))

    def edbms(b):
        del b[0xA0]
    out.append(("silent BMS", Spec("HYBRID_3PH", stacks=(2, 2)), edbms, {"bcu_stacks": [], "hv_bmu_addresses": []}))
    # HV / EMS plants: LV hardware addresses belong to nobody and must not be reported
    for model in ("HYBRID_3PH", "ALL_IN_ONE", "EMS"):
        def edlv(b):
            for a in (0x32, 0x33):
                b[a] = {"IR": plants.battery_regs(a)}
            b[0x31] = {"IR": {60: 1, 61: 1, 62: 1, 63: 1}}
        out.append((f"LV addresses answering on {model}", Spec(model), edlv, {}))
    # LV plants: HV addresses
    def edhv(b):
        b[0xA0] = {"IR": {60: 1, 61: 1}}
        b[0x70] = {"IR": plants.bcu_regs(0, 1)}
        b[0x50] = {"IR": plants.module_regs(0x50)}
    out.append(("HV addresses answering on HYBRID_GEN2", lv, edhv, {}))
    return out


def presence(t, idxs):
    cases = presence_cases()
    for i in idxs:
        name, spec, ed, over = cases[i]
        b = plants.banks(spec)
        ed(b)
        dev = Device(banks=b, latency=0.01)
        marks = []
        res, out = discover(dev, marks=marks)
        t.add("states"); t.add("transitions", len(dev.log))
        for o, topo in out or [(("none", None), None)]:
            judge(t, res, o, topo, {**plants.expected(spec), **over}, dict(case=name))
            if topo == {**plants.expected(spec), **over}:
                plants.marked(t, marks[0], topo, dict(case=name), emptied=False)


# -- a peer client's traffic ----------------------------------------------------------------------
PEER = {"lv": Spec("HYBRID_GEN2", batts=(0x32, 0x34), meters=(1,), bcu=True), "lv0": Spec("HYBRID_GEN2", batts=(0x33,)), "none": Spec("AC"), "hv": Spec("HYBRID_3PH", stacks=(2, 1), meters=(1,)), "aio": Spec("ALL_IN_ONE", stacks=(3,)), "ems": Spec("EMS", meters=(1, 2), managed=2)}


def peer_replies(spec):
    """Answers a peer client can have asked for: any block of an attached device, and the inverter's own data under its legacy address 0x32."""
    b, out = plants.banks(spec), []
    inv = b[0x11]
    for d, tab in sorted(b.items()):
        for kind, base, n in (("IR", 0, 60), ("HR", 0, 60), ("IR", 60, 6), ("IR", 60, 60), ("IR", 110, 5), ("IR", 110, 3), ("IR", 119, 1), ("HR", 60, 60)):
            src = tab if base >= 60 else inv
            regs = src.get(kind, {})
            if not any(base + i in regs for i in range(n)):
                continue
            out.append((d, kind, base, n, [regs.get(base + i, 0) for i in range(n)]))
    for kind in ("HR", "IR"):
        out.append((0x32, kind, 0, 60, [inv[kind].get(i, 0) for i in range(60)]))
    uniq = {x[:4]: x for x in out}
    return [uniq[k] for k in sorted(uniq)]


def peer(t, jobs):
    for name, absent, which, at in jobs:
        spec = replace(PEER[name], absent=absent)
        stray = [peer_replies(spec)[i] for i in which]
        raw = b"".join(w.read_response(3 if k == "HR" else 4, d, base, vals) for d, k, base, n, vals in stray)
        dev = Device(**plants.tables(spec), latency=0.01)
        inner = plants.absent_script(spec)

        def script(i, r):
            x = inner(i, r)
            if r["kind"] == "heartbeat" or i != at:
                return x
            if x is None:
                a = dev.answer(r)
                x = [(0.01, a)] if a is not None else []
            return [(0.004, raw)] + x
        dev.script = script
        out, marks = [], []

        async def main(loop):
            c = client(tx_message_wait=0.01, tx_jitter=0)
            await c.connect()
            if at == -1:
                dev.net.conns[-1].send(raw)
                await asyncio.sleep(0.05)
            o = await outcome(c.detect(**FAST))
            caps = c.plant.capabilities
            out.append((o, None if caps is None else plants.topo(caps)))
            marks.append(plants.marks_of(c.plant, dev))
            await c.close()
            return True
        res, loop = vloop.run(main, dev.net, horizon=5000)
        t.add("states"); t.add("transitions", len(dev.log))
        ctx = dict(plant=spec.key(), peer=[s[:4] for s in stray], before_request=at)
        for o, topo in out or [(("none", None), None)]:
            judge(t, res, o, topo, plants.expected(spec), ctx)
            if topo == plants.expected(spec) and not any(s[1:4] == ("IR", 110, 5) for s in stray):
                plants.marked(t, marks[0], topo, ctx, emptied=False)  # (a serial a peer read vouches for its pack before the pack's own block is in)
        t.outcome((name, tuple(s[:4] for s in stray)))
        if t.full:
            return


def peer_jobs(quick):
    out = []
    for name in PEER:
        n = len(peer_replies(PEER[name]))
        for ab in ("silent", "zero", "error"):
            out += [(name, ab, (i,), at) for i in range(n) for at in [-1, *range(0, 40 if quick else 60)]]
            if not quick:
                out += [(name, ab, (i, j), at) for i in range(n) for j in range(n) if i != j for at in (-1, 0, 3, 12)]
            else:
                out += [(name, ab, (i, j), -1) for i in range(n) for j in range(n) if i < j] if ab == "silent" else []
    return out


def fewest(t, jobs):
    """A register set that holds no firmware version still names its model and its devices."""
    from givenergy_modbus.model.plant import Plant
    from mc import ps
    for d in jobs:
        p = Plant()
        for base, vals in ((0, [d]), (1, [5] * 20)):
            p.update(ps.reply(0x11, "HR", base, vals))
        want = model_of(d, 0)
        t.add("states"); t.add("transitions", 2)
        try:
            q = Plant.from_caches(p.register_caches)
            got = q.capabilities.device_type.name if q.capabilities else None
        except (ValueError, KeyError):
            got = None
        if got != want:
            t.violation("wrong-model", dtc=f"{d:04x}", firmware="absent", got=got, expected=want)


def main():
    c = Check("D01", "model_checking")
    fam = plants.family("small" if c.quick else "full")
    jobs = [(s, 0.01, False) for s in fam]
    base = [plants.SPECS[n] for n in plants.SPECS] + [Spec(m) for m in plants.MODELS] + [s for g in groups() for s in g]
    jobs += [(replace(s, absent=a), lat, False) for s in base for a in ("silent", "zero", "error") for lat in (0.001, 0.1, 0.19)]
    jobs += [(replace(s, absent=a), lat, True) for s in base for a in ("silent", "zero", "error") for lat in (0.05, 0.45)]
    c.run(cold, split(jobs, 160))
    hj = [(a, b, ab, p) for g in groups() for a in g for b in g for ab in ("silent", "error", "zero") for p in (False, True)]
    if not c.quick:
        ext = [Spec("HYBRID_GEN2", batts=bs, meters=m, bcu=u) for bs in plants.subsets((0x32, 0x33, 0x37)) for m in ((), (1,), (8,)) for u in (False, True)]
        ext2 = [Spec("HYBRID_HV_GEN3", stacks=s) for s in ((), (1,), (2,), (4,), (1, 1), (1, 2), (2, 1), (2, 2), (1, 1, 1))]
        hj += [(a, b, ab, p) for g in (ext, ext2) for a in g for b in g for ab in ("silent", "error", "zero") for p in (False, True)]
    c.run(history, split(hj, 64))
    c.run(codes, [(([d for d in range(65536) if d % 16 == k], FWS),) for k in range(16)] + [(([0x2000, 0x2001, 0x20FF, 0x2101, 0x3001, 0x8001], range(k, 65536, 8)),) for k in range(8)])
    lj = [((p << 8) | lo, fw) for p in range(256) for lo in (1, 0xFF) for fw in ((0, 302, 449, 850) if c.quick else FWS)]
    c.run(codes_live, split(lj, 48))
    c.run(presence, split(range(len(presence_cases())), 16))
    c.run(peer, split(peer_jobs(c.quick), 64))
    c.run(fewest, split([(p << 8) | lo for p in range(256) for lo in (1, 0xFF)], 8))
    n = c.total.n
    c.total.info["plants"] = len(fam)
    c.assumptions = ["Every attached device answers every request within the configured timeout; absent addresses are silent, answer zeros, or answer an error.",
                     "A device type code whose first digit is 2-8 is a known family; others must not be reported as any model.",
                     "Hardware removed between two discoveries does not answer its 60-register block with zeros (indistinguishable from a dropout, P02)."]
    c.finish({"states": n.get("states", 0) + n.get("codes", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
