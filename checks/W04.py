"""W04: every slot x operation x minute, and pairs of operations, written through the model's helper and read back on the model."""
import asyncio, os, sys
from datetime import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop, plants, regs, fr
from mc.report import Check, split
from mc.cl import client, Device, Plant, outcome
from mc.helpers import MIN, TimeSlot, commands, hm
from mc.plants import Spec
from givenergy_modbus.model.register_cache import RegisterCache
from givenergy_modbus.model.register import HR, IR
from givenergy_modbus.pdu import WriteHoldingRegisterResponse as WResp

ZERO = TimeSlot(time(0), time(0))


def spec_of(m):
    return Spec(m, stacks=(1,) if m in plants.HV else ())


def names(m):
    """Slot attribute -> (register pair, setter, start setter, end setter, resetter)."""
    out = {}
    k = regs.slot_kind(m)
    for d, pairs in regs.SLOTS[k].items():
        for i, p in enumerate(pairs, 1):
            out[f"{d}_slot_{i}"] = (p, d, i)
    return out


def fresh(m, fill=None):
    s = spec_of(m)
    tab = plants.inverter_tables(s)
    for n, (p, _, _) in enumerate(names(m).values()):
        if fill is not None:
            tab["HR"][p[0]], tab["HR"][p[1]] = fill
        else:
            tab["HR"].setdefault(p[0], 600 + n), tab["HR"].setdefault(p[1], 700 + n)
    cache = RegisterCache({**{HR(k): v for k, v in tab["HR"].items()}, **{IR(k): v for k, v in tab["IR"].items()}})
    return Plant(capabilities=plants.caps(s), register_caches={0x11: cache})


def obj(p, m):
    return p.ems if m in plants.EMS else p.inverter


def helper(o, m, d, i, op, a, b):
    """The writes for one operation, through the helpers the model object offers."""
    ems = m in plants.EMS
    base = f"set_ems_{d}_slot" if ems else f"set_{d}_slot"
    if op == "set":
        return getattr(o, base)(i, TimeSlot(a, b))
    if op == "start":
        return getattr(o, base + "_start")(i, a)
    if op == "end":
        return getattr(o, base + "_end")(i, b)
    if op == "clear":
        return getattr(o, base)(i, None)
    if op == "clear-ends":
        return getattr(o, base + "_start")(i, None) + getattr(o, base + "_end")(i, None)
    if op == "reset":
        return getattr(o, base)(i, None) if ems else getattr(o, f"reset_{d}_slot")(i)
    if op == "alias":  # the short EMS name for export slots
        return o.set_export_slot(i, TimeSlot(a, b))


def ops_for(m, d):
    return ["set", "start", "end", "clear", "clear-ends", "reset"] + (["alias"] if d == "export" else [])


def after(cur, op, a, b):
    if op in ("set", "alias"):
        return TimeSlot(a, b)
    if op == "start":
        return TimeSlot(a, cur.end)
    if op == "end":
        return TimeSlot(cur.start, b)
    return ZERO


def apply(p, writes):
    """The dongle acknowledges each write; the plant absorbs the acknowledgements."""
    for w in writes:
        p.update(WResp(register=w.register, value=w.value, device_address=w.device_address, inverter_serial_number=wire.INVERTER, data_adapter_serial_number=wire.ADAPTER))


def dump(o):
    return o.model_dump()


def every_minute(t, jobs):
    for m, lo, hi, fill in jobs:
        p = fresh(m, fill)
        ns = names(m)
        for k in range(lo, hi):
            want = {}
            o = obj(p, m)
            for n, (attr, (pair, d, i)) in enumerate(ns.items()):
                a, b = MIN[(k + 67 * n) % 1440], MIN[(k * 7 + 101 * n + 13) % 1440]
                apply(p, helper(o, m, d, i, "set", a, b))
                want[attr] = TimeSlot(a, b)
            o2 = obj(p, m)
            t.add("states"); t.add("transitions", len(ns))
            for attr, w in want.items():
                if getattr(o2, attr) != w:
                    t.violation("slot-read-back", model=m, slot=attr, wrote=repr(w), read=repr(getattr(o2, attr)))
            if t.full:
                return


def frames(t, jobs):
    """One operation (or two) on one slot; everything else on the model stays as it was."""
    T = [(time(1, 30), time(4, 45)), (time(0, 0), time(23, 59)), (time(23, 59), time(0, 0)), (time(0, 1), time(0, 59)), (time(12, 0), time(12, 0)), (time(0, 0), time(0, 0))]
    for m, seqs in jobs:
        ns = names(m)
        for seq in seqs:
            p = fresh(m)
            before = dump(obj(p, m))
            want = dict(before)
            for attr, op, ti in seq:
                pair, d, i = ns[attr]
                a, b = T[ti]
                want[attr] = after(want[attr], op, a, b)
                apply(p, helper(obj(p, m), m, d, i, op, a, b))
                t.add("transitions")
            got = dump(obj(p, m))
            t.add("states")
            t.outcome((m, tuple(x[1] for x in seq)))
            bad = [k for k in set(got) | set(want) if got.get(k) != want.get(k) or (k in got) != (k in want)]
            if bad:
                t.violation("wrong-slot" if any(b in ns for b in bad) else "setting-changed", model=m, ops=repr(seq), fields={b: (repr(want.get(b)), repr(got.get(b))) for b in bad[:5]})
                if t.full:
                    return


def starts(t, jobs):
    """From every kind of prior contents (zeros, the unset marker, garbage), a set reads back exactly and a clear reads as cleared."""
    for m in jobs:
        for fill in ((0, 0), (60, 60), (9999, 9999), (60, 700), (65535, 0)):
            for attr, (pair, d, i) in names(m).items():
                for op in ("set", "clear", "reset"):
                    p = fresh(m, fill)
                    before = dump(obj(p, m))
                    apply(p, helper(obj(p, m), m, d, i, op, time(5, 6), time(17, 8)))
                    got = dump(obj(p, m))
                    w = TimeSlot(time(5, 6), time(17, 8)) if op == "set" else ZERO
                    t.add("states"); t.add("transitions")
                    bad = [k for k in got if k != attr and got[k] != before[k]]
                    if bad or got[attr] != w:
                        t.violation("slot-from-unset", model=m, slot=attr, op=op, prior=fill, read=repr(got[attr]), others=bad[:4])


def module_slots(t, jobs):
    """Pause and smart-load slots (module helpers, not gated to a model) against the model's reading of the same registers."""
    for lo, hi in jobs:
        for k in range(lo, hi):
            p = fresh("ALL_IN_ONE")
            for r in list(range(554, 574)) + [319, 320]:
                p.register_caches[0x11][HR(r)] = 60
            want = {}
            for i in range(1, 11):
                a, b = MIN[(k + 67 * i) % 1440], MIN[(k * 7 + 101 * i) % 1440]
                apply(p, commands.set_smart_load_slot(i, TimeSlot(a, b)))
                want[f"smart_load_slot_{i}"] = TimeSlot(a, b)
            a, b = [(MIN[k], MIN[(k * 11 + 5) % 1440]), (MIN[k], time(0, 0)), (time(0, 0), MIN[k]), (MIN[k], MIN[k])][k % 4]
            apply(p, commands.set_pause_slot(TimeSlot(a, b)))
            want["battery_pause_slot_1"] = TimeSlot(a, b)
            o = p.inverter
            t.add("states"); t.add("transitions", 11)
            for n, w in want.items():
                if getattr(o, n) != w:
                    t.violation("slot-read-back", slot=n, wrote=repr(w), read=repr(getattr(o, n)))


def reprs(t, jobs):
    """HHMM text and numbers to slot, every minute; anything that is no time is refused."""
    for lo, hi in jobs:
        for v in range(lo, hi):
            ok = 0 <= v < 2400 and v % 100 < 60
            for s in (v, f"{v:04d}"):
                if v < 0 and isinstance(s, str):
                    continue
                try:
                    x = TimeSlot.from_repr(s, 1234)
                except ValueError:
                    x = None
                w = TimeSlot(time(v // 100, v % 100), time(12, 34)) if ok else None
                t.add("transitions")
                if x != w:
                    t.violation("from-repr", value=s, got=repr(x))


def live(t, jobs):
    """The whole journey on the real client: discover, load, command, reload, read."""
    for m, quick in jobs:
        s = spec_of(m)
        dev = Device(**plants.tables(s), latency=0.01)
        dev.script = plants.absent_script(s)
        ns = names(m)

        async def main(loop):
            c = client(tx_message_wait=0.01, tx_jitter=0)
            await c.connect()
            await c.detect(timeout=0.4, retries=1, probe_timeout=0.2, probe_retries=0)
            await c.load_config(timeout=0.5)
            want = dump(obj(c.plant, m))
            for n, (attr, (pair, d, i)) in enumerate(ns.items()):
                for op in ops_for(m, d):
                    a, b = MIN[(n * 171 + 7 * len(op)) % 1440], MIN[(n * 311 + 13 * len(op)) % 1440]
                    w = helper(obj(c.plant, m), m, d, i, op, a, b)
                    n0 = len(dev.log)
                    o = await outcome(c.one_shot_command(w))
                    want[attr] = after(want[attr], op, a, b)
                    t.add("states"); t.add("transitions", len(dev.log) - n0)
                    for when in ("after acknowledgement", "after reload"):
                        got = dump(obj(c.plant, m))
                        bad = [k for k in got if got[k] != want.get(k)]
                        if o[0] != "ok" or bad:
                            t.violation("journey", model=m, slot=attr, op=op, when=when, outcome=o[0], error=repr(o[1])[:200], fields={b_: (repr(want.get(b_)), repr(got[b_])) for b_ in bad[:4]})
                        if when == "after acknowledgement":
                            if quick and op not in ("set", "clear"):
                                break
                            await c.load_config(timeout=0.5)
                    if t.full:
                        break
            await c.close()
            return True
        res, loop = vloop.run(main, dev.net, horizon=1e6, max_steps=10**8)
        if res is not True:
            t.violation("session", model=m, error=repr(res))


def main():
    c = Check("W04", "model_checking")
    ms = ["HYBRID_GEN1", "HYBRID_GEN3_OLD", "HYBRID_GEN3", "AC", "HYBRID_3PH", "AC_3PH", "EMS", "ALL_IN_ONE", "HYBRID_HV_GEN3", "HYBRID_GEN4", "GATEWAY", "ALL_IN_ONE_HYBRID"] if c.quick else list(plants.MODELS)
    step = 120
    c.run(every_minute, [[(m, x, x + step, f)] for m in (ms if not c.quick else ["HYBRID_GEN1", "HYBRID_3PH", "EMS", "ALL_IN_ONE"]) for x in range(0, 1440, step) for f in ([None] if c.quick else [None, (60, 60)])])
    jobs = []
    for m in ms:
        ns = names(m)
        one = [[(a, op, ti)] for a, (_, d, _) in ns.items() for op in ops_for(m, d) for ti in range(6)]
        al = [(a, op, ti) for a, (_, d, _) in ns.items() for op, ti in ((("set", 0), ("clear", 0)) if c.quick else (("set", 0), ("start", 1), ("end", 2), ("clear", 0)))]
        two = [[x, y] for x in al for y in al]
        if c.quick and m not in ("HYBRID_GEN1", "HYBRID_3PH", "EMS", "ALL_IN_ONE"):
            two = []
        jobs += [[(m, part)] for part in split(one + two, 8 if c.quick else 24)]
    c.run(frames, jobs)
    c.run(starts, [[m] for m in ms])
    c.run(module_slots, split([(x, x + 60) for x in range(0, 1440, 60)], 12) if not c.quick else split([(x, x + 30) for x in range(0, 1440, 240)], 6))
    c.run(reprs, split([(x, x + 1000) for x in range(0, 66000, 1000)], 8))
    c.run(live, [[(m, c.quick)] for m in ms])
    c.assumptions = ["A cleared slot holds 00:00-00:00 (the documented disabled slot); the raw value 60 is the inverter's own unset marker and reads as absent."]
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
