"""W03: every installer-tier helper over its whole argument domain, and its writes on every command path of every model."""
import asyncio, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop, plants, regs, helpers as H
from mc.report import Check, split
from mc.cl import client, Device, Plant, outcome
from mc.helpers import ODD, call, commands, integral, WR
from mc.plants import Spec
from givenergy_modbus.exceptions import InvalidPduState

DESTRUCTIVE = {"reset_energy_totals": 162, "three_phase_factory_reset": 1016, "enable_black_start": 5003, "restore_factory_defaults": 5004}
_N = ["v_ac_low_limit_trip", "v_ac_high_limit_trip", "f_ac_low_limit_trip", "f_ac_high_limit_trip", "t_ac_low_voltage_trip", "t_ac_high_voltage_trip", "t_ac_low_freq_trip", "t_ac_high_freq_trip",
      "v_ac_low_limit_reconnect", "v_ac_high_limit_reconnect", "f_ac_low_limit_reconnect", "f_ac_high_limit_reconnect", "t_ac_low_voltage_reconnect", "t_ac_high_voltage_reconnect",
      "t_ac_low_freq_reconnect", "t_ac_high_freq_reconnect", "v_ac_low_limit_grid", "v_ac_high_limit_grid", "f_ac_low_limit_grid", "f_ac_high_limit_grid", "v_ac_10min_protect"]
GRID = {"set_" + n: (63 + i,) + {"v": (10, 0, 5000), "f": (100, 4000, 7000), "t": (100, 0, 65535)}[n[0]] for i, n in enumerate(_N)}
BOOL = {"set_anti_islanding_detection": 115, "set_grid_import_limit_enabled": 102, "set_enable_plant_mode": 300, "set_enable_micro_grid": 332, "set_enable_ev_charger": 333,
        "set_enable_generator": 343, "set_enable_smart_load": 540, "set_enable_export_limit_3ph": 1103, "set_enable_import_limit_3ph": 1131,
        "set_peak_shaving_export_limit_enabled": 20000, "set_peak_shaving_enabled": 20002}
NUM = {"set_battery_nominal_power": (308, 0, 65535), "set_battery_nominal_current": (309, 0, 65535), "set_battery_max_charge_pct": (310, 20, 100), "set_ev_charger_soc_limit": (336, 0, 100),
       "set_generator_start_soc": (344, 0, 100), "set_generator_stop_soc": (345, 0, 100), "set_smart_load_control_soc": (541, 50, 100), "set_general_load_control_soc": (543, 50, 100),
       "set_generator_control_soc": (544, 10, 90)}
NOT_CONFIRMED = [{}, {"confirm": False}, {"confirm": None}, {"confirm": 0}, {"confirm": ""}, {"confirm": []}]


def usable(w):
    """What a caller could get onto the wire from emitted writes: a value the frame refuses counts as refused."""
    if w is None:
        return None
    for r, v, i, d in w:
        if not 0 <= v <= 0xFFFF:
            return None
    return w


def judge(t, name, want, got, **ctx):
    t.add("transitions")
    g = usable(got)
    w = None if want is None else [(want[0], want[1], True, 0x11)]
    if g != w:
        t.violation("installer-helper", helper=name, emitted=got, documented=want, **ctx)
        return
    t.outcome((name, w is None))


def exact(v, scale):
    """The scaled integer a decimal argument means, or None if it is not one."""
    from fractions import Fraction
    if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v or v in (float("inf"), float("-inf")):
        return None
    s = round(v * scale) if abs(v) < 1e12 else int(v) * scale
    return s if abs(Fraction(v) * scale - s) < Fraction(1, 10**4) else None  # documented tolerance: four decimals after scaling


def helpers_(t, jobs):
    for name, lo, hi, edge in jobs:
        fn = getattr(commands, name)
        if name in DESTRUCTIVE:
            for kw in NOT_CONFIRMED:
                judge(t, name, None, call(fn, **kw), args=repr(kw))
            judge(t, name, (DESTRUCTIVE[name], 1), call(fn, confirm=True))
            judge(t, name, None, call(fn, True), args="positional")
        elif name in BOOL:
            for v in (True, False):
                judge(t, name, (BOOL[name], int(v)), call(fn, v), args=v)
        elif name in NUM:
            reg, a, b = NUM[name]
            for v in list(range(lo, hi)) + ((ODD + [float(x) for x in range(-5, 110)] + [x + 0.5 for x in range(-5, 110)]) if edge else []):
                i = integral(v)
                judge(t, name, None if i is None or not a <= i <= b else (reg, i), call(fn, v), args=repr(v))
        elif name == "set_export_power_rate":
            for k in range(-3000, 5000):
                v = k / 10
                judge(t, name, (1063, k) if 0 <= k <= 1000 else None, call(fn, v), args=v)
                if k % 10 == 0:
                    judge(t, name, (1063, k) if 0 <= k <= 1000 else None, call(fn, k // 10), args=k // 10)
                w = k / 10 + 0.03  # finer than the register resolves: refused, or rounded to the nearest step
                got = usable(call(fn, w))
                if got is not None and (got != [(1063, k, True, 0x11)] or not 0 <= k <= 1000):
                    t.violation("installer-helper", helper=name, args=w, emitted=got)
            for v in [float("nan"), float("inf"), -float("inf"), 1e300, "50", None, 100.0001 * 2]:
                judge(t, name, None, call(fn, v), args=repr(v))
        else:
            reg, scale, a, b = GRID[name]
            for k in range(lo, hi):
                v = k / scale
                if edge and k % 500 == 0:
                    for kw in NOT_CONFIRMED:
                        judge(t, name, None, call(fn, v, **kw), args=repr((v, kw)))
                judge(t, name, (reg, k) if a <= k <= b else None, call(fn, v, confirm=True), args=v)
                if k % scale == 0:
                    judge(t, name, (reg, k) if a <= k <= b else None, call(fn, k // scale, confirm=True), args=k // scale)
                for d in (0.5, 0.1, 0.001):
                    judge(t, name, None, call(fn, (k + d) / scale, confirm=True), args=(k + d) / scale)
            if edge:
                for v in [x for x in ODD if not (isinstance(x, float) and exact(x, scale) is not None)]:
                    judge(t, name, None, call(fn, v, confirm=True), args=repr(v))
                    judge(t, name, None, call(fn, v), args=repr(v))
        t.add("states")


def emitted():
    """(name, write) for one accepted call of every installer helper, lowest and highest value."""
    out = []
    for n, r in DESTRUCTIVE.items():
        out.append((n, lambda n=n: getattr(commands, n)(confirm=True)))
    for n in BOOL:
        for v in (True, False):
            out.append((n, lambda n=n, v=v: getattr(commands, n)(v)))
    for n, (r, a, b) in NUM.items():
        for v in (a, b):
            out.append((n, lambda n=n, v=v: getattr(commands, n)(v)))
    out.append(("set_export_power_rate", lambda: commands.set_export_power_rate(12.5)))
    for n, (r, s, a, b) in GRID.items():
        for v in (a, b):
            out.append((n, lambda n=n, v=v, s=s: getattr(commands, n)(v / s, confirm=True)))
    return out


def paths(t, jobs):
    """Ordinary path refuses every one of them (dry and live, alone and in a batch with a safe write); the installer path sends exactly it."""
    for m, quick in jobs:
        s = Spec(m, stacks=(1,) if m in plants.HV else ()) if m else Spec("HYBRID_GEN2")
        dev = Device(**plants.tables(s), latency=0.01)
        reg0 = 2040 if m in plants.EMS else 20

        async def main(loop):
            c = client(plant=Plant(capabilities=plants.caps(s)) if m else Plant(), tx_message_wait=0, tx_jitter=0)
            await c.connect()
            for name, mk in emitted():
                rs = mk()
                want = [(r.register, r.value) for r in rs]
                for tag, fn, batch, ok in (("ordinary", c.one_shot_command, rs, False), ("ordinary+safe", c.one_shot_command, [WR(reg0, 1)] + mk(), False),
                                           ("safe+ordinary", c.one_shot_command, mk() + [WR(reg0, 1)], False),
                                           ("unflagged", c.one_shot_command, [WR(*w) for w in want], False), ("unflagged-installer", c.installer_command, [WR(*w) for w in want], False),
                                           ("installer", c.installer_command, mk(), True), ("installer+safe", c.installer_command, mk() + [WR(reg0, 1)], True)):
                    for dry in (True, False):
                        n0 = len(dev.log)
                        o = await outcome(fn(batch, timeout=1.0, dry_run=dry))
                        await asyncio.sleep(0.02)
                        sent = [(r["register"], r["value"]) for _, _, r in dev.log[n0:] if r["kind"] == "write"]
                        exp = sorted((r.register, r.value) for r in batch) if ok and not dry else []
                        t.add("states"); t.add("transitions", len(dev.log) - n0 + 1)
                        if (o[0] == "ok") != ok or sorted(sent) != exp or len(dev.log) - n0 != len(sent):
                            t.violation("command-path", model=m, helper=name, path=tag, dry_run=dry, outcome=o[0], error=repr(o[1])[:200], sent=sent, expected=exp)
                        elif not ok and not isinstance(o[1], InvalidPduState):
                            t.violation("wrong-refusal", model=m, helper=name, path=tag, error=repr(o[1])[:200])
                # the direct path (execute) still has the frame-level gate: an unflagged installer write never encodes
                for w in want:
                    n0 = len(dev.log)
                    o = await outcome(c.execute([WR(*w)], timeout=0.3, retries=0))
                    if o[0] == "ok" or len(dev.log) != n0:
                        t.violation("unflagged-executed", model=m, helper=name, outcome=o[0])
                if not c.connected:
                    await c.connect()
                if t.full:
                    break
            await c.close()
            return True
        res, loop = vloop.run(main, dev.net, horizon=1e6, max_steps=10**8)
        if res is not True:
            t.violation("session", model=m, error=repr(res))
        if dev.bad:
            t.violation("bad-bytes", model=m, bad=dev.bad[:2])


def main():
    c = Check("W03", "model_checking")
    jobs = []
    for n in list(DESTRUCTIVE) + list(BOOL) + ["set_export_power_rate"]:
        jobs.append((n, 0, 0, True))
    for n in NUM:
        lo, hi = c.pick((-300, 66000), (-70000, 140000))
        jobs.append((n, lo, hi, True))
    for n, (_, s, a, b) in GRID.items():
        lo, hi = (-1000, 8000) if n[4] != "t" else (-1000, 67000)
        if not c.quick:
            lo, hi = -20000, 140000
        step = 12000
        jobs += [(n, x, min(hi, x + step), x == lo) for x in range(lo, hi, step)]
    c.run(helpers_, [[j] for j in jobs])
    c.run(paths, [[(m, c.quick)] for m in [None] + list(plants.MODELS)])
    c.assumptions = ["Ranges and registers are transcribed from the helpers' documentation into checks/W03.py.",
                     "An emitted value outside 16 bits counts as refused: no submission path can send it (checked by W01).",
                     "A truthy confirm other than True is not judged."]
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("transitions", 0)})


if __name__ == "__main__":
    main()
