"""T03: sentinel seeding and register identification recover the exact register and scale behind any linear reading."""
import os, sys, itertools, tempfile
from fractions import Fraction as Q
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, plants, ps, models, vloop
from mc import wire as w
from mc.report import Check, split
from givenergy_modbus.testing.identify import identify, sentinel_devices, Candidate
import givenergy_modbus.testing.mock_plant as mp
from givenergy_modbus.model.register import HR, IR, MR
from givenergy_modbus.model.register_cache import RegisterCache
import json

DEN = {1.0: 1, 0.1: 10, 0.01: 100, 0.001: 1000}
CLS = {"HR": HR, "IR": IR, "MR": MR}


def shows(raw, s):
    """The ways a reading ``raw * scale`` is shown as a float."""
    d = DEN[s]
    return {raw / d, raw * s, round(raw / d, 3), float(f"{raw / d:.3f}")}


def close(a, b):
    return abs(a - b) < 1e-9


def two(t, shard, ks=(1000,)):
    """Every address and scale, two passes: exactly that register."""
    for lo, hi in shard:
        for a in range(lo, hi):
            for s in DEN:
                for k in ks:
                    if a + k > 65535:
                        continue
                    for d1, d2 in zip(sorted(shows(a, s)), sorted(shows(a + k, s))) if a % 16 else itertools.product(shows(a, s), shows(a + k, s)):
                        r = identify(d1, d2, k=k)
                        t.n["transitions"] = t.n.get("transitions", 0) + 1
                        if len(r) != 1 or r[0].address != a or not close(r[0].scale, s):
                            t.violation("two-pass", address=a, scale=s, k=k, shown=(d1, d2), got=repr(r))
                            if t.full:
                                return
        t.add("states", hi - lo)
        t.outcome(("two", lo // 4096))


def rounded(t, shard):
    """The second pass shown with fewer digits: the scale is snapped, so the register is still found exactly."""
    for lo, hi in shard:
        for a in range(lo, hi):
            for s, k in ((s, k) for s in DEN for k in (1000, 1024, 4000)):
                if a + k > 65535:
                    continue
                d1, x = a / DEN[s], (a + k) / DEN[s]
                for d2 in {round(x, n) for n in (0, 1, 2)}:
                    if d2 <= d1 or abs(d2 - x) * 4 > k * 0.001:
                        continue  # beyond a quarter of the tolerance on the scale
                    r = identify(d1, d2, k=k)
                    t.n["transitions"] = t.n.get("transitions", 0) + 1
                    if len(r) != 1 or r[0].address != a or not close(r[0].scale, s):
                        t.violation("rounded-second-pass", address=a, scale=s, k=k, shown=(d1, d2), got=repr(r))
                        if t.full:
                            return
        t.add("states", hi - lo)
        t.outcome(("rounded", lo // 4096))


def expect_single(a, s, rng, tol=0):
    """Registers that show this value; with ``tol`` also those within the documented tolerance of it."""
    out = set()
    for s2, d2 in DEN.items():
        v = Q(a, DEN[s]) * d2
        n = round(v)
        if abs(v - n) <= tol and 0 <= n <= 65535 and (rng is None or n in rng):
            out.add((n, s2))
    return out


def one(t, shard):
    """Every address and scale, one pass: every register that could show this value, once each, and no other."""
    for lo, hi in shard:
        for a in range(lo, hi):
            for s in DEN:
                for rng in (None, range(0, 240), range(a, a + 1), range(a + 1, 65536), range(0, 65536, 2)):
                    for d in sorted(shows(a, s))[:1 if rng is not None else 4]:
                        r = identify(d, reg_range=rng)
                        t.n["transitions"] = t.n.get("transitions", 0) + 1
                        got = [(c.address, round(c.scale, 6)) for c in r]
                        if len(set(got)) != len(got) or not expect_single(a, s, rng) <= set(got) <= expect_single(a, s, rng, Q(1, 1000)):
                            t.violation("single-pass", address=a, scale=s, shown=d, within=repr(rng), got=repr(got), want=sorted(expect_single(a, s, rng)))
                            if t.full:
                                return
        t.add("states", hi - lo)
        t.outcome(("one", lo // 4096))


def refuse(t, shard):
    """Readings that belong to no register are not identified; the filter and arguments are honoured."""
    for a in shard:
        for k in (100, 1000):
            for s in DEN:
                d1, d2 = a / DEN[s], (a + k) / DEN[s]
                bad = {"same": (d1, d1), "falling": (d2, d1), "half": (d1 + .5 / DEN[s], d2 + .5 / DEN[s]), "scale2": (2 * d1, 2 * d2), "scale.5": (d1 * .5 if s == 1.0 else 5 * a, d2 * .5 if s == 1.0 else 5 * (a + k)), "negative": (-d1 - 1 / DEN[s], -d1 - 1 / DEN[s] + k / DEN[s]),
                       "beyond": ((65536 + a) / DEN[s], (65536 + a + k) / DEN[s])}
                for n, (x, y) in bad.items():
                    if n == "scale2" and s == 0.001:
                        continue  # a scale of 0.002 is within the documented tolerance of 0.001
                    r = identify(x, y, k=k)
                    t.add("transitions")
                    if r:
                        t.violation("identified-nonsense", kind=n, address=a, scale=s, k=k, shown=(x, y), got=repr(r))
                for rng, ok in ((range(a, a + 1), True), (range(a + 1, 65536), False), (range(0, a), False), (range(0, 65536), True)):
                    r = identify(d1, d2, k=k, reg_range=rng)
                    t.add("transitions")
                    if bool(r) != ok:
                        t.violation("range-filter", address=a, scale=s, within=repr(rng), got=repr(r))
        for k in (0, -1, -1000):
            for args in ((a / 10,), (a / 10, (a + 5) / 10)):
                try:
                    r = identify(*args, k=k)
                    t.violation("bad-offset-accepted", k=k, got=repr(r))
                except ValueError:
                    pass
        t.add("states")
        if t.full:
            return
    t.outcome("refuse")


def cc(devs):
    return {d: {(type(k).__name__, k._idx): v for k, v in dict(c).items()} for d, c in devs.items()}


def overlay(t, shard):
    """Every overlay: seeded registers hold address + offset, everything else is the base's, and the base is never touched."""
    for spec, off in shard:
        base = {0x11: RegisterCache({HR(i): i + 7 for i in range(5)} | {IR(i): 3 for i in range(4)}), 0x32: RegisterCache({IR(60): 1})}
        before = cc(base)
        real = [(d, CLS[k], r) for d, k, r in spec]
        legal = all(0 <= a + off <= 65535 for _, _, r in spec for a in r)
        t.add("states"); t.add("transitions")
        try:
            out = sentinel_devices(base, real, offset=off)
        except ValueError:
            if legal:
                t.violation("overlay-refused", spec=repr(spec), offset=off)
            if cc(base) != before:
                t.violation("refused-overlay-changed-base", spec=repr(spec), offset=off)
            t.outcome("refused")
            continue
        if not legal:
            t.violation("impossible-overlay-accepted", spec=repr(spec), offset=off)
            continue
        want = {d: dict(x) for d, x in before.items()}
        for d, k, r in spec:
            want.setdefault(d, {}).update({(k, a): a + off for a in r})
        if cc(out) != want:
            t.violation("overlay-wrong", spec=repr(spec), offset=off)
        if cc(base) != before:
            t.violation("overlay-changed-base", spec=repr(spec), offset=off)
        for d in out:
            out[d][HR(9999)] = 1
        if cc(base) != before:
            t.violation("overlay-shares-base", spec=repr(spec), offset=off)
        t.outcome("ok")
        if t.full:
            return


LINEAR = ("uint16", "int16", "deci", "centi", "milli")


def attributes(t, shard):
    """Every linear attribute of every device model, read from two sentinel overlays: the register it is documented to come from."""
    spec = json.load(open(os.path.join(os.path.dirname(os.path.abspath(models.__file__)), "regspec.json")))["models"]
    for model, k in shard:
        lin = {}
        for name, row in spec[model].items():
            if row[0] in LINEAR and row[1] in (None, *LINEAR) and len(row[2].split()) == 1:
                lin[name] = row[2]
        regs = sorted({(r[:2], int(r[2:])) for row in spec[model].values() for r in row[2].split()})
        vals = []
        for off in (0, k):
            sp = [(0x11, CLS[kd], range(a, a + 1)) for kd, a in regs]
            dev = sentinel_devices({}, sp, offset=off)[0x11]
            try:
                obj = models.MODELS[model](dev)
            except Exception as e:
                t.info[f"{model}/{off}"] = f"not constructible from sentinels: {type(e).__name__}"
                obj = None
            vals.append(obj)
        if None in vals:
            continue
        n = 0
        for name, r in lin.items():
            try:
                d1, d2 = (getattr(o, name) for o in vals)
            except Exception:
                continue
            if type(d1) not in (int, float) or type(d2) not in (int, float):
                continue
            n += 1
            got = identify(d1, d2, k=k)
            t.add("transitions")
            if len(got) != 1 or got[0].address != int(r[2:]):
                t.violation("attribute-misidentified", model=model, attribute=name, register=r, k=k, shown=(d1, d2), got=repr(got))
        t.info[f"{model}/k={k}"] = n
        t.add("states")
        t.outcome((model, n > 0))


def served(t, shard, dirname=None):
    """An overlay served from a capture: the mock holds the capture's registers with the overlay on top."""
    for spec, off in shard:
        out = [w.read_response(3, 0x11, 0, list(range(100, 160))), w.read_response(4, 0x11, 0, list(range(1, 61))), w.read_response(4, 1, 60, list(range(30)))]
        path = os.path.join(dirname, f"s{os.getpid()}.log")
        with open(path, "w") as f:
            f.write("".join(f"2026-01-01T00:00:0{i} rx {x.hex()}\n" for i, x in enumerate(out)))
        base = mp.plant_from_capture(path)
        want = cc(base.register_caches)
        real = [(d, CLS[k], r) for d, k, r in spec]
        for d, k, r in spec:
            want.setdefault(d, {}).update({(k, a): a + off for a in r})
        t.add("states"); t.add("transitions")
        if not all(0 <= a + off <= 65535 for _, _, r in spec for a in r):
            try:
                mp.MockPlant.from_sentinels(path, spec=real, offset=off)
                t.violation("impossible-mock-built", spec=repr(spec), offset=off)
            except ValueError:
                pass
            continue
        m = mp.MockPlant.from_sentinels(path, spec=real, offset=off)
        if cc(m.devices) != want:
            t.violation("mock-overlay-wrong", spec=repr(spec), offset=off)
        if (m.inverter_serial, m.adapter_serial) != (base.inverter_serial_number, base.data_adapter_serial_number):
            t.violation("mock-header", spec=repr(spec))
        t.outcome(len(want))


def main():
    c = Check("T03", "model_checking")
    step = 512
    c.run(two, [[(a, a + step)] for a in range(0, 65536, step)], ks=c.pick((1000,), (1, 10, 100, 256, 1000, 1024, 4096)))
    if c.quick:
        c.run(two, [[(a, a + 64)] for a in list(range(0, 4096, 64)) + [60000, 64500]], ks=(1, 100))
    c.run(one, [[(a, a + step)] for a in range(0, 65536, step)] if not c.quick else [[(a, a + 128)] for a in list(range(0, 8192, 256)) + [32700, 65000, 65408]])
    c.run(rounded, [[(a, a + step)] for a in range(0, 65536, step * c.pick(8, 1))])
    c.run(refuse, split(list(range(0, 4000, c.pick(37, 1))) + [64000, 65000], 16))
    parts = [(d, k, r) for d in (0x11, 0x32, 0x50) for k in ("HR", "IR", "MR") for r in (range(0, 3), range(2, 6), range(0), range(65530, 65536), range(60, 62), range(0, 9, 4))]
    offs = (0, 1, 5, 6, 1000, -1, -2, 65530, 65533, 65536, 70000)
    jobs = [([p], o) for p in parts for o in offs] + [([p, q], o) for p in parts[::c.pick(3, 1)] for q in parts[::c.pick(5, 1)] for o in (0, 1, 1000, -1)] + [([], 0), ([], 70000)]
    c.run(overlay, split(jobs, 32))
    c.run(attributes, split([(m, k) for m in models.CLASS for k in (1, 10, 100, 1000)], 16))
    with tempfile.TemporaryDirectory(prefix="t03-") as d:
        c.run(served, split(jobs[::c.pick(11, 3)], 16), dirname=d)
    n = c.total.n
    c.assumptions += ["Readings within the identification tolerance of two scales at once (scale errors below 0.001) are not judged."]
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
