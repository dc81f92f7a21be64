"""Bounded family of plants: what hardware is attached, what its registers hold, what the documents say about it.

Everything here is written from the published register map and the documentation, not
from givenergy_modbus code; only PlantCapabilities/Model are imported (to restore a
topology onto a plant, as a consumer would).
"""
from __future__ import annotations

import itertools
from dataclasses import dataclass, replace

from . import wire

# name -> (device type code in HR0, ARM firmware in HR21)
MODELS = {
    "HYBRID_GEN1": (0x2001, 449), "HYBRID_GEN2": (0x2001, 920), "HYBRID_GEN3": (0x2001, 312), "HYBRID_GEN3_OLD": (0x2001, 302),
    "POLAR": (0x2101, 700), "AC": (0x3001, 577), "HYBRID_3PH": (0x4001, 610), "AIO_COMMERCIAL": (0x4101, 610),
    "EMS": (0x5001, 1020), "EMS_COMMERCIAL": (0x5101, 1020), "AC_3PH": (0x6001, 610), "GATEWAY": (0x7001, 9),
    "ALL_IN_ONE": (0x8001, 612), "HYBRID_HV_GEN3": (0x8102, 308), "ALL_IN_ONE_HYBRID": (0x8201, 100), "HYBRID_GEN4": (0x8301, 200),
}
HV = {"HYBRID_3PH", "AC_3PH", "ALL_IN_ONE", "HYBRID_HV_GEN3", "ALL_IN_ONE_HYBRID"}
EMS = {"EMS", "EMS_COMMERCIAL"}
THREE = {"HYBRID_3PH", "AC_3PH", "AIO_COMMERCIAL", "ALL_IN_ONE_HYBRID"}
AC_BLOCK = {"AC", "AC_3PH", "ALL_IN_ONE"}
EXTENDED = {"HYBRID_GEN4", "ALL_IN_ONE", "ALL_IN_ONE_HYBRID", "HYBRID_HV_GEN3", "HYBRID_GEN3"}
GATEWAY = {"GATEWAY"}


@dataclass(frozen=True)
class Spec:
    """One plant: model plus attached hardware."""
    model: str = "HYBRID_GEN2"
    batts: tuple = ()       # LV battery addresses 0x32..0x37
    meters: tuple = ()      # meter addresses 1..8
    bcu: bool = False       # LV BCU page at 0x31 populated
    stacks: tuple = ()      # HV: module count per BCU
    absent: str = "silent"  # how absent addresses behave: silent | zero | error
    managed: int = 0        # EMS: managed inverters

    @property
    def model_name(self):
        return "HYBRID_GEN3" if self.model == "HYBRID_GEN3_OLD" else self.model

    @property
    def hv(self):
        return self.model in HV

    @property
    def ems(self):
        return self.model in EMS

    @property
    def modules(self):
        """(address, stack index) of every HV/AIO battery module that is physically there."""
        if not self.hv:
            return ()
        if self.model == "ALL_IN_ONE":
            return tuple((0x50 + i, 0) for i in range(min(self.stacks[0] if self.stacks else 0, 4)))
        out, a = [], 0x50
        for s, n in enumerate(self.stacks):
            for _ in range(n):
                if a >= 0x70:
                    break
                out.append((a, s))
                a += 1
        return tuple(out)

    def key(self):
        return (f"{self.model}/b{','.join('%x' % b for b in self.batts)}/m{','.join(map(str, self.meters))}/"
                f"{'bcu/' if self.bcu else ''}s{','.join(map(str, self.stacks))}/{self.absent}/{self.managed}")


def serial(kind: str, n: int) -> str:
    """A distinct, plausible serial: two letters, four digits, letter, three digits."""
    return f"{kind}{2100 + n:04d}G{(n * 37 + 11) % 1000:03d}"


INV_SERIAL = wire.INVERTER


def battery_regs(dev: int, t: int = 0, ser: str | None = None) -> dict:
    """IR(60-119) of an LV pack; ``t`` nudges the readings the way one healthy poll to the next does."""
    k = dev - 0x32
    v = {60 + i: 3300 + 3 * k + i + t for i in range(16)}
    v.update({76 + i: 180 + k + i + t for i in range(4)})
    vs = sum(3300 + 3 * k + i + t for i in range(16))
    v.update({80: vs & 0xFFFF, 81: 230 + k, 82: 0, 83: vs & 0xFFFF, 84: 0, 85: 16000 + k, 86: 0, 87: 16000, 88: 0, 89: 9000 + 10 * k + t,
              90: 0, 91: 0, 92: 0x0E10, 93: 0x0100, 94: 0, 95: 100 + k, 96: 12 + k, 97: 16, 98: 3010 + k, 99: 0, 100: 55 + k, 101: 0, 102: 16000,
              103: 190 + k + t, 104: 175 + k + t, 105: 0, 106: 0, 107: 0, 108: 0, 109: 0, 115: 8, 116: 0, 117: 0, 118: 0, 119: 0})
    for i, x in enumerate(wire.serial_regs(ser or serial("BA", k))):
        v[110 + i] = x
    return v


def module_regs(dev: int, ser: str | None = None) -> dict:
    k = dev - 0x50
    v = {60 + i: 3250 + 2 * k + i for i in range(24)}
    v.update({84 + i: 0 for i in range(6)})
    v.update({90 + i: 200 + k + i for i in range(24)})
    for i, x in enumerate(wire.serial_regs(ser or serial("HX", k))):
        v[114 + i] = x
    v[119] = 0
    return v


def bcu_regs(idx: int, modules: int) -> dict:
    v = {60 + i: 0 for i in range(60)}
    v.update({60: 0x4842, 61: 0x3000 + idx, 62: 0x0102, 63: 0x0304, 64: modules, 65: 24, 67: modules * 24, 68: modules * 12, 70: 2, 73: 3000 + idx,
              74: 2990 + idx, 76: 10, 80: (60 << 8) | 58, 81: 99, 83: 1234 + idx, 85: 2345 + idx, 98: 520, 99: 300 + idx, 100: 15})
    for i, x in enumerate(wire.serial_regs(serial("HB", idx))):
        v[138 + i] = x
    return v


def meter_regs(a: int) -> dict:
    v = {60 + i: 10 + a + i for i in range(29)}
    v.update({60: 2300 + a, 61: 2310 + a, 62: 2320 + a, 84: 5000, 89: 0})
    return v


def _fill(d, kind, lo, hi, salt):
    for r in range(lo, hi):
        d.setdefault(kind, {})[r] = (r * 13 + salt * 7) % 97 + 1


def slots(d, regs):
    for n, r in enumerate(regs):
        d["HR"][r] = (n % 24) * 100 + (n * 7) % 60


def inverter_tables(spec: Spec) -> dict:
    dtc, fw = MODELS[spec.model]
    d: dict = {"HR": {}, "IR": {}}
    _fill(d, "HR", 0, 60, 1)
    h = d["HR"]
    h[0], h[21], h[19] = dtc, fw, fw
    for i, x in enumerate(wire.serial_regs(serial("BG", 90))):
        h[8 + i] = x
    for i, x in enumerate(wire.serial_regs(INV_SERIAL)):
        h[13 + i] = x
    h.update({7: 1, 18: 3022, 35: 26, 36: 1, 37: 2, 38: 3, 39: 4, 40: 5})
    if not spec.ems:
        _fill(d, "HR", 60, 180, 2)
        _fill(d, "IR", 0, 60, 3)
        _fill(d, "IR", 120, 240, 4)
        slots(d, [31, 32, 44, 45, 56, 57, 94, 95])
    if spec.model in THREE:
        _fill(d, "HR", 1000, 1125, 5)
        _fill(d, "IR", 1000, 1414, 6)
        slots(d, [1113, 1114, 1115, 1116, 1118, 1119, 1120, 1121])
    if spec.model in EXTENDED:
        _fill(d, "HR", 240, 300, 7)
        slots(d, [x for b in (246, 276) for k in range(8) for x in (b + 3 * k, b + 3 * k + 1)])
    if spec.model in AC_BLOCK:
        _fill(d, "HR", 300, 360, 8)
        slots(d, [319, 320])
    if spec.ems:
        _fill(d, "HR", 2040, 2076, 9)
        slots(d, [2044 + 3 * k + o for k in range(9) for o in (0, 1)])
        _fill(d, "IR", 2040, 2095, 10)
        d["IR"][2044] = spec.managed
        d["IR"][2045] = 0
        for m in range(4):
            if m < spec.managed:
                for i, x in enumerate(wire.serial_regs(serial("CE", m))):
                    d["IR"][2066 + 5 * m + i] = x
            else:
                for i in range(5):
                    d["IR"][2066 + 5 * m + i] = 0
    if spec.model in GATEWAY:
        _fill(d, "IR", 1600, 1860, 11)
    return d


def banks(spec: Spec) -> dict:
    b = {0x11: inverter_tables(spec)}
    if not spec.hv and not spec.ems:
        for a in spec.batts:
            b[a] = {"IR": battery_regs(a)}
        if spec.bcu:
            b[0x31] = {"IR": {60: 0, 61: 0, 62: 167, 63: 167}}
    if spec.hv and spec.stacks:
        b[0xA0] = {"IR": {60: 1, 61: len(spec.stacks), 62: 0, 63: 0, 64: 0}}
        for i, n in enumerate(spec.stacks):
            b[0x70 + i] = {"IR": bcu_regs(i, n)}
        for a, _ in spec.modules:
            b[a] = {"IR": module_regs(a)}
    for m in spec.meters:
        b[m] = {"IR": meter_regs(m), "MR": {60: 0x4D00 + m, 61: 0x3132, 62: 0x4142, 63: 0x4344, 64: 1, 65: 2, 66: 3, 67: m, 68: 9600}}
    return b


def tables(spec) -> dict:
    """Device(**tables(spec)) keyword arguments."""
    return {"banks": banks(SPECS[spec] if isinstance(spec, str) else spec)}


def expected(spec: Spec) -> dict:
    """The topology a correct discovery reports."""
    fw = MODELS[spec.model][1]
    lv = not spec.hv and not spec.ems
    mods = [a for a, _ in spec.modules]
    return {"device_type": spec.model_name, "inverter_address": 0x11, "meter_addresses": sorted(spec.meters),
            "lv_battery_addresses": sorted(spec.batts) if lv else [], "bcu_stacks": [(i, n) for i, n in enumerate(spec.stacks)] if spec.hv else [],
            "aio_battery_module_addresses": mods if spec.model == "ALL_IN_ONE" else [],
            "hv_bmu_addresses": mods if spec.hv and spec.model != "ALL_IN_ONE" else [],
            "lv_bcu_address": 0x31 if (lv and spec.bcu) else None, "arm_firmware_version": fw}


def topo(caps) -> dict:
    """A PlantCapabilities as the same plain dict ``expected`` produces."""
    return {"device_type": caps.device_type.name, "inverter_address": caps.inverter_address, "meter_addresses": list(caps.meter_addresses),
            "lv_battery_addresses": list(caps.lv_battery_addresses), "bcu_stacks": [tuple(x) for x in caps.bcu_stacks],
            "aio_battery_module_addresses": list(caps.aio_battery_module_addresses), "hv_bmu_addresses": list(caps.hv_bmu_addresses),
            "lv_bcu_address": caps.lv_bcu_address, "arm_firmware_version": caps.arm_firmware_version}


def caps(spec):
    from givenergy_modbus.model.inverter import Model
    from givenergy_modbus.model.plant import PlantCapabilities
    spec = SPECS[spec] if isinstance(spec, str) else spec
    e = expected(spec)
    return PlantCapabilities(**{**e, "device_type": Model[e["device_type"]]})


def config_reads(spec: Spec) -> list:
    """(dev, kind, base, count) a configuration load must make."""
    r = [(0x11, "HR", 0, 60)]
    if not spec.ems:
        r += [(0x11, "HR", 60, 60), (0x11, "HR", 120, 60), (0x11, "IR", 120, 60)]
    if spec.model in THREE:
        r += [(0x11, "HR", 1000, 60), (0x11, "HR", 1060, 60), (0x11, "HR", 1120, 5)]
    if spec.model in EXTENDED:
        r += [(0x11, "HR", 240, 60)]
    if spec.model in AC_BLOCK:
        r += [(0x11, "HR", 300, 60)]
    if spec.ems:
        r += [(0x11, "HR", 2040, 36)]
    return r


def poll_reads(spec: Spec) -> list:
    """(dev, kind, base, count) a refresh must make."""
    r = []
    if not spec.ems:
        r += [(0x11, "IR", 0, 60), (0x11, "IR", 180, 60)]
    if spec.model in THREE:
        r += [(0x11, "IR", b, min(60, 1414 - b)) for b in range(1000, 1414, 60)]
    if spec.ems:
        r += [(0x11, "IR", 2040, 55)]
    if spec.model in GATEWAY:
        r += [(0x11, "IR", b, min(60, 1860 - b)) for b in range(1600, 1860, 60)]
    e = expected(spec)
    r += [(a, "IR", 60, 60) for a in e["lv_battery_addresses"]]
    if e["lv_bcu_address"] is not None:
        r += [(0x31, "IR", 60, 60)]
    r += [(a, "IR", 60, 30) for a in e["meter_addresses"]]
    r += [(0x70 + i, "IR", 60, 60) for i, _ in e["bcu_stacks"]]
    r += [(a, "IR", 60, 60) for a in e["aio_battery_module_addresses"] + e["hv_bmu_addresses"]]
    return r


def absent_script(spec: Spec, inner=None):
    """Device script giving absent addresses the spec's behaviour (zero ACK or error reply)."""
    present = set(banks(spec))

    def script(i, r):
        if inner is not None:
            x = inner(i, r)
            if x is not None:
                return x
        if spec.absent == "silent" or r["kind"] in ("heartbeat", "write") or r["dev"] in present:
            return None
        if spec.absent == "zero":
            return [(0.03, wire.read_response(r["fc"], r["dev"], r["base"], [0] * r["count"]))]
        return [(0.03, wire.error_response(r["fc"], r["dev"], r["base"], r["count"]))]
    return script


SPECS = {
    "hybrid2": Spec("HYBRID_GEN2", batts=(0x32, 0x33), meters=(1,)),
    "ac": Spec("AC", batts=(0x32,), meters=(1, 2)),
    "ems": Spec("EMS", meters=(1, 3), managed=2),
    "aio": Spec("ALL_IN_ONE", stacks=(4,), meters=(1,)),
    "hv3ph": Spec("HYBRID_3PH", stacks=(2, 3), meters=(1,)),
    "gateway": Spec("GATEWAY"),
    "gen3": Spec("HYBRID_GEN3", batts=(0x32, 0x34), bcu=True),
}


def subsets(xs, kmax=None):
    xs = list(xs)
    for k in range(0, (len(xs) if kmax is None else kmax) + 1):
        yield from itertools.combinations(xs, k)


def family(level: str = "small"):
    """The bounded plant family. small: a few hundred; full: every battery and meter subset on every model."""
    out = []
    lv_models = [m for m in MODELS if m not in HV and m not in EMS]
    if level == "small":
        bs = [(), (0x32,), (0x32, 0x33), (0x32, 0x34), (0x33,), (0x37,), tuple(range(0x32, 0x38))]
        ms = [(), (1,), (2,), (1, 8), tuple(range(1, 9))]
        st = [(), (1,), (4,), (6,), (2, 3), (0,), (1, 0, 2), (16, 16)]
    else:
        bs = list(subsets(range(0x32, 0x38)))
        ms = list(subsets(range(1, 9), 2)) + [tuple(range(1, 9))] + list(itertools.combinations(range(1, 9), 7))
        st = [()] + [(a,) for a in range(0, 9)] + [(a, b) for a in range(0, 7) for b in range(0, 7)] + [(1, 2, 3), (16, 16), (17, 16), (10, 10, 10, 2), (1, 0, 2)]
    for absent in ("silent", "zero", "error"):
        for m in lv_models:
            for b in bs:
                for mt in (ms if level == "small" or m in ("HYBRID_GEN1", "AC", "GATEWAY") else ms[:12]):
                    for bcu in (False, True):
                        out.append(Spec(m, batts=b, meters=mt, bcu=bcu, absent=absent))
        for m in sorted(HV):
            for s in st:
                if m == "ALL_IN_ONE" and len(s) > 1:
                    continue
                for mt in ms if level == "small" else ms[:12]:
                    out.append(Spec(m, meters=mt, stacks=s, absent=absent))
        for m in sorted(EMS):
            for mt in ms:
                for k in range(5):
                    out.append(Spec(m, meters=mt, managed=k, absent=absent))
    return out


KIND = {"read_hr": "HR", "read_ir": "IR"}


def asked(dev, since=0):
    return {(r["dev"], KIND[r["kind"]], r["base"], r["count"]) for _, _, r in dev.log[since:] if r["kind"] in KIND}


def marks_of(plant, dev, since=0):
    """What the plant holds of every block the client asked for since ``since``: (presence mark, any non-zero register held for that device)."""
    return {b: (plant.block_present(*b), any(plant.register_caches.get(b[0], {}).values())) for b in asked(dev, since)}


def found(topo):
    out = {0x11}
    for k, v in topo.items():
        if "address" in k:
            out |= set(v) if isinstance(v, (list, tuple)) else {v}
    out |= {0x70 + st[0] for st in topo["bcu_stacks"]}
    return out


def marked(t, marks, topo, ctx, emptied=True):
    """Every block discovery asked for is marked present when it belongs to a device found, absent otherwise - with none of its registers kept (``emptied``: it is not there at all)."""
    f = found(topo)
    bad = [(hex(b[0]), *b[1:], m) for b, m in sorted(marks.items()) if b[0] != 0xA0 and (m[0] is not (b[0] in f) or (emptied and m[1] and b[0] not in f))]
    if bad:
        t.violation("presence-mark-wrong", blocks=bad[:6], **ctx)
