"""W01: every register x model x command path, every batch over an alphabet of writes, and discovery histories, against the documented write set."""
import asyncio, itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop, plants, regs
from mc.report import Check, split
from mc.cl import client, Device, Plant, outcome
from mc.plants import Spec
from givenergy_modbus.pdu import WriteHoldingRegisterRequest as WR, ReadHoldingRegistersRequest as RH
from givenergy_modbus.exceptions import InvalidPduState

UND = "undetected"
MODELS = [UND] + list(plants.MODELS)


def spec_of(m):
    return Spec(m, batts=(0x32,) if m not in plants.HV | plants.EMS else (), stacks=(1,) if m in plants.HV else ())


def plant_of(m):
    return Plant() if m == UND else Plant(capabilities=plants.caps(spec_of(m)))


def safe_of(m):
    return regs.model_safe(None if m == UND else m)


def drive(coro):
    """Outcome of a coroutine that must not wait for anything: ok | the exception."""
    try:
        coro.send(None)
    except StopIteration:
        return "ok"
    except Exception as e:
        return e
    coro.close()
    return "suspended"


def build(reg, val, inst):
    try:
        return WR(reg, val, installer=True) if inst else WR(reg, val)
    except ValueError as e:
        return e


def allowed(m, path, reg, val, inst):
    if not (isinstance(val, int) and 0 <= val <= 0xFFFF):
        return False
    if inst:
        return path == "installer" and reg in regs.INSTALLER
    return reg in safe_of(m)


def dry(t, jobs):
    """Every register number, dry run, both paths, both flags (client not connected: nothing can be sent)."""
    for m, path, inst, vals in jobs:
        c = client(plant=plant_of(m))
        fn = c.one_shot_command if path == "plain" else c.installer_command
        for reg in range(-2, 65540):
            for v in vals:
                r = build(reg, v, inst)
                res = r if isinstance(r, ValueError) else drive(fn([r], dry_run=True))
                ok = allowed(m, path, reg, v, inst)
                t.add("transitions")
                if (res == "ok") != ok:
                    t.violation("unsafe-accepted" if res == "ok" else "safe-refused", model=m, path=path, installer=inst, register=reg, value=v, result=repr(res)[:200])
                elif not ok and not isinstance(res, (InvalidPduState, ValueError)):
                    t.violation("wrong-refusal", model=m, register=reg, result=repr(res)[:200])
                if t.full:
                    return
        t.add("states")
        t.outcome((m, path, inst))


def gate2(t, jobs):
    """The last gate: no unsafe write encodes, whoever submits it."""
    for lo, hi, inst in jobs:
        ok_set = regs.INSTALLER if inst else regs.GLOBAL
        for reg in range(lo, hi):
            for v in (0, 1, 100, 65535, -1, 65536):
                r = build(reg, v, inst)
                if isinstance(r, ValueError):
                    continue
                t.add("transitions")
                try:
                    fr = r.encode()
                except Exception as e:
                    if reg in ok_set and 0 <= v <= 65535:
                        t.violation("safe-unencodable", register=reg, value=v, error=repr(e)[:200])
                    continue
                if reg not in ok_set or not 0 <= v <= 65535:
                    t.violation("unsafe-encodes", register=reg, value=v, installer=inst, frame=fr.hex())
                else:
                    p = wire.parse_outgoing(fr)
                    if (p["kind"], p["register"], p["value"]) != ("write", reg, v):
                        t.violation("encodes-another-write", register=reg, value=v, frame=fr.hex())


def values(t, jobs):
    """Every 16-bit value and beyond, on one register per path."""
    for m, path, reg, inst, lo, hi in jobs:
        c = client(plant=plant_of(m))
        fn = c.one_shot_command if path == "plain" else c.installer_command
        for v in range(lo, hi):
            r = build(reg, v, inst)
            res = r if isinstance(r, ValueError) else drive(fn([r], dry_run=True))
            t.add("transitions")
            if (res == "ok") != (0 <= v <= 0xFFFF):
                t.violation("value-gate", model=m, path=path, register=reg, value=v, result=repr(res)[:200])
                if t.full:
                    return
    for v in (True, False, 1.0, 1.5, "1", b"1", None, [1]):
        r = build(20, v, False)
        if not isinstance(r, ValueError):
            res = drive(client().one_shot_command([r], dry_run=True))
            if res == "ok":
                t.violation("value-type", value=repr(v))


def live(t, jobs):
    """Sessions that submit batch after batch; the dongle's log is the truth about what was written."""
    for m, path, batches in jobs:
        s = spec_of(m) if m != UND else Spec("HYBRID_GEN2")
        dev = Device(**plants.tables(s), latency=0.01)
        bad = []

        async def main(loop):
            c = client(plant=plant_of(m), tx_message_wait=0, tx_jitter=0)
            await c.connect()
            for b in batches:
                pl, dryrun = b
                rs = []
                for reg, val, inst in pl:
                    r = RH(base_register=0, register_count=2, device_address=0x11) if reg == "read" else build(reg, val, inst)
                    rs.append(r)
                if any(isinstance(r, ValueError) for r in rs):
                    continue
                n0 = len(dev.log)
                fn = c.one_shot_command if path == "plain" else c.installer_command
                o = await outcome(fn(rs, timeout=1.0, dry_run=dryrun))
                await asyncio.sleep(0.05)
                sent = [(r["register"], r["value"]) for _, _, r in dev.log[n0:] if r["kind"] == "write"]
                any_sent = len(dev.log) - n0
                ok = all(reg == "read" or allowed(m, path, reg, val, inst) for reg, val, inst in pl)
                want = [(reg, val) for reg, val, inst in pl if reg != "read"]
                t.add("states"); t.add("transitions", max(1, any_sent))
                ctx = dict(model=m, path=path, batch=pl, dry_run=dryrun, outcome=o[0], error=repr(o[1])[:200], sent=sent)
                if not ok:
                    if o[0] == "ok":
                        t.violation("unsafe-batch-accepted", **ctx)
                    if any_sent:
                        t.violation("refused-batch-transmitted", **ctx)
                    if not isinstance(o[1], InvalidPduState):
                        t.violation("wrong-refusal", **ctx)
                elif dryrun:
                    if o[0] != "ok" or any_sent:
                        t.violation("dry-run", **ctx)
                else:
                    dup = len(set(pl)) != len(pl) or len({r for r, _ in want}) != len(want)
                    if not dup and (o[0] != "ok" or sorted(sent) != sorted(want)):
                        t.violation("safe-batch-not-written", **ctx)
                    if any(x not in want for x in sent):
                        t.violation("wrote-something-else", **ctx)
                t.outcome((path, ok, dryrun, o[0]))
                if not c.connected:
                    bad.append(pl); break
                if t.full:
                    break
            await c.close()
            return True
        res, loop = vloop.run(main, dev.net, horizon=1e6, max_steps=10**8)
        if res is not True or bad:
            t.violation("session", model=m, error=repr(res), after=bad)
        for _, _, r in dev.log:
            if r["kind"] == "write":
                lim = safe_of(m) | (regs.INSTALLER if path == "installer" else frozenset())
                if r["register"] not in lim or r["dev"] != 0x11:
                    t.violation("undocumented-write", model=m, write=(r["dev"], r["register"], r["value"]))
        if dev.bad:
            t.violation("bad-bytes", model=m, bad=dev.bad[:2])


def histories(t, jobs):
    """The write set follows discovery: none -> A -> (failed discovery) -> B."""
    from givenergy_modbus.exceptions import PlantTopologyMismatch  # noqa: F401
    probe = sorted(regs.GLOBAL | {0, 1, 21, 63, 162, 1016, 5004})
    for a, b, kind in jobs:
        sa, sb = spec_of(a), spec_of(b)
        dev = Device(**plants.tables(sa), latency=0.01)
        dev.script = plants.absent_script(sa)

        async def main(loop):
            c = client(tx_message_wait=0.01, tx_jitter=0)
            await c.connect()

            def check(m, when):
                caps = c.plant.capabilities
                if (caps is None) != (m == UND) or (caps is not None and caps.device_type.name != plants.Spec(m).model_name):
                    return t.violation("topology", when=when, got=repr(caps)[:200], want=m)
                for reg in probe:
                    for path in ("plain", "installer"):
                        fn = c.one_shot_command if path == "plain" else c.installer_command
                        for inst in (False, True):
                            res = drive(fn([build(reg, 1, inst)], dry_run=True))
                            t.add("transitions")
                            if (res == "ok") != allowed(m, path, reg, 1, inst):
                                t.violation("stale-write-set", when=when, history=(a, b, kind), register=reg, path=path, installer=inst, result=repr(res)[:160])
            check(UND, "before discovery")
            D = dict(timeout=0.4, retries=1, probe_timeout=0.2, probe_retries=0)
            await c.detect(**D)
            check(a, "after first discovery")
            dev.banks, dev.script = plants.banks(sb), plants.absent_script(sb)
            if kind == "reconnect":
                await c.close()
                check(a, "after close")
                await c.connect()
                check(a, "after reconnect")
            if kind == "failed":
                old = dev.script
                dev.script = lambda i, r: []
                o = await outcome(c.detect(**D))
                if o[0] == "ok":
                    t.violation("silent-discovery-ok")
                cur = c.plant.capabilities
                check(a if cur is not None else UND, "after failed discovery")
                dev.script = old
                await c.close(); await c.connect()
            if kind == "hinted":
                o = await outcome(c.detect(prior=plants.caps(sa), **D))
                check(UND if c.plant.capabilities is None else b, "after hinted discovery")
            await c.detect(**D)
            check(b, "after second discovery")
            await c.close()
            return True
        res, loop = vloop.run(main, dev.net, horizon=1e5)
        t.add("states")
        if res is not True:
            t.violation("stuck", history=(a, b, kind), error=repr(res))
        w = [r for _, _, r in dev.log if r["kind"] == "write"]
        if w:
            t.violation("write-during-discovery", writes=len(w))
        if t.full:
            return


def mixed(t, jobs):
    """Two submissions racing at every relative offset: the unsafe one never reaches the wire, the safe one does."""
    for m, off, gap in jobs:
        good = sorted(safe_of(m))[:2]
        badr = next(r for r in (20, 96, 2040, 1112, 313) if r not in safe_of(m))
        dev = Device(**plants.tables(spec_of(m) if m != UND else Spec("HYBRID_GEN2")), latency=0.03)

        async def main(loop):
            c = client(plant=plant_of(m), tx_message_wait=gap, tx_jitter=0)
            await c.connect()

            async def later(d, rs):
                await asyncio.sleep(d)
                return await outcome(c.one_shot_command(rs))
            tasks = [asyncio.ensure_future(later(0.1, [WR(good[0], 1), WR(good[1], 2)])),
                     asyncio.ensure_future(later(0.1 + off, [WR(good[0] if good[0] != badr else good[1], 3), WR(badr, 3)])),
                     asyncio.ensure_future(later(0.1 + off / 2, [WR(5004, 1, installer=True)]))]
            rs = await asyncio.gather(*tasks)
            await asyncio.sleep(2)
            await c.close()
            return [r[0] for r in rs]
        res, loop = vloop.run(main, dev.net, horizon=5000)
        t.add("states"); t.add("transitions", len(dev.log))
        w = sorted((r["register"], r["value"]) for _, _, r in dev.log if r["kind"] == "write")
        if not isinstance(res, list) or res[0] != "ok" or res[1] == "ok" or res[2] == "ok" or w != sorted([(good[0], 1), (good[1], 2)]):
            t.violation("race", model=m, offset=off, outcomes=repr(res), writes=w, unsafe=badr)


def alphabet(m):
    s = safe_of(m)
    other = next(r for r in (1112, 96, 2040) if r not in s)
    a, b = (20, 29) if 20 in s else (2040, 2046)
    return [(a, 1, False), (b, 3, False), (other, 1, False), (0, 1, False), (308, 5, True), (a, 1, True), (308, 5, False), (a, -1, False), (b, 65536, False), ("read", 0, False), (5004, 1, True)]


def main():
    c = Check("W01", "model_checking")
    c.run(dry, [[(m, p, i, (1,) if c.quick else (0, 1, 65535, -1, 65536))] for m in MODELS for p in ("plain", "installer") for i in (False, True)])
    c.run(gate2, split([(lo, min(lo + 2048, 65540), i) for lo in range(-2, 65540, 2048) for i in (False, True)], 16))
    c.run(values, split([(m, p, r, i, lo, lo + 16640) for m, p, r, i in ((UND, "plain", 20, False), ("EMS", "plain", 2071, False), ("HYBRID_3PH", "installer", 1063, True), ("AC", "installer", 313, False))
                         for lo in range(-512, 66048, 16640)], 16))
    near = sorted({r + d for r in regs.GLOBAL | regs.INSTALLER for d in (-1, 0, 1)})
    jobs = []
    for m in MODELS:
        al = alphabet(m)
        good = [(r, 1, False) for r in sorted(safe_of(m))]
        long = [good[:n] for n in range(4, 25)] + [good[:k] + [u] + good[k:n] for n in range(3, 24) for k in range(n + 1) for u in (al[2], al[10], (good[0][0], 65536, False))]
        for p in ("plain", "installer"):
            jobs.append([(m, p, [(b, d) for b in long for d in (False, True)])])
            jobs.append([(m, p, [([(r, 1, i)], False) for r in near for i in (False, True)])])
            bs = [list(x) for n in (1, 2, 3) for x in itertools.product(al, repeat=n)]
            if not c.quick:
                bs += [list(x) for x in itertools.product(al[:8], repeat=4)]
            for part in split(bs, 2 if c.quick else 4):
                jobs.append([(m, p, [(b, d) for b in part for d in (False, True)])])
    c.run(live, jobs)
    ms = [x for x in plants.MODELS if x != "HYBRID_GEN3_OLD"] if not c.quick else ["HYBRID_GEN2", "AC", "HYBRID_3PH", "AC_3PH", "EMS", "GATEWAY", "ALL_IN_ONE"]
    c.run(histories, split([(a, b, k) for a in ms for b in ms for k in ("again", "reconnect", "failed", "hinted")], 64))
    c.run(mixed, split([(m, o * 0.01, g) for m in MODELS for o in range(0, 40 if c.quick else 120) for g in (0.0, 0.05, 0.25)], 64))
    c.assumptions = ["The documented write set per model is the table in mc/regs.py, transcribed from the register documentation.",
                     "Batches are up to three writes (four in the thorough tier) over an alphabet of eleven: safe, model-unsafe, globally unsafe, installer-flagged, out-of-range, read; and up to 24 safe writes with one unsafe at every position."]
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
