"""P01: a reply changes exactly the registers it covers on its own device, or nothing at all."""
import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, plants, ps, fr
from mc.report import Check, split
from mc.cl import Plant
from mc.plants import Spec

SERIAL = {"HR": set(range(13, 18)), "IR": set(range(110, 119)) | set(range(138, 143))}
MARKERS = {28: 0x4C32, 30: 0xA119, 31: 0x34EA, 32: 0xE77F, 33: 0xD475, 35: 0x4500, 41: 0xC0A8, 43: 0xC0A8, 51: 0x8018}
SCENES = ("none", "hybrid2", "hv3ph", "ems", "aio", "gen3", "gateway")


def new_plant(scene, populated):
    p = Plant(capabilities=None if scene == "none" else plants.caps(scene))
    if populated:
        spec = plants.SPECS["hybrid2" if scene == "none" else scene]
        for dev, t in plants.banks(spec).items():
            for kind, regs in t.items():
                if kind == "MR":
                    continue
                for base in sorted({r // 60 * 60 for r in regs}):
                    vals = [regs.get(base + i, 0) for i in range(60)]
                    for s in (0, 30, 60):  # a battery needs a second look before it is believed
                        p.update(ps.reply(dev, kind, base, vals, ser=wire.INVERTER), received_at=ps.at(s))
    return p


def frame_regs(x):
    """What the message would store if accepted: {(dev, kind, reg): value} (None: nothing, whatever happens)."""
    k = x["k"]
    if k in ("err", "null", "crc", "suspicious", "hb", "other", "werr", "w0"):
        return None
    if k == "write":
        return {(x["at"], "HR", x["reg"]): x["val"]}
    return {(x["dev"], x["kind"], x["base"] + i): v for i, v in enumerate(x["vals"])}


def must_accept(x, before):
    """Replies the documentation gives the plant no reason to refuse."""
    if x["k"] == "write":
        return True
    if x["k"] != "read" or x["kind"] == "MR":
        return False
    inc = frame_regs(x)
    if len(x["vals"]) >= 60 and not any(x["vals"]) and any(before.get(r) for r in inc):
        return False
    if 0x32 <= x["dev"] <= 0x37 and x["kind"] == "IR":
        if len(x["vals"]) >= 60 or {x["base"] + i for i in range(len(x["vals"]))} & set(range(76, 80)):
            return False
    if any(r[2] in SERIAL[x["kind"]] for r in inc):
        return bool(x.get("goodserial"))
    return True


def judge(t, x, before, after, trace):
    inc = frame_regs(x)
    diff = {k for k in set(before) | set(after) if before.get(k, "absent") != after.get(k, "absent")}
    if inc is None:
        if diff:
            t.violation("refused-changed", what=x["n"], changed=sorted(diff)[:6], trace=trace)
        return "ignored"
    merged = {**before, **inc}
    if after == merged:
        return "same" if merged == before else "stored"
    if diff:
        outside = sorted(k for k in diff if k not in inc)
        t.violation("outside" if outside else "wrong-value", what=x["n"], outside=outside[:6],
                    wrong=[(k, after.get(k), inc[k]) for k in sorted(inc) if after.get(k) != inc[k]][:6], trace=trace)
        return "bad"
    if must_accept(x, before):
        t.violation("not-stored", what=x["n"], trace=trace)
    return "refused"


def step(t, p, x, sec, trace):
    before = ps.regs(p)
    p.update(x["pdu"], received_at=ps.at(sec))
    o = judge(t, x, before, ps.regs(p), trace)
    t.add("transitions")
    t.outcome((x["k"], o))
    return o


def R(dev, kind, base, vals, n=None, **kw):
    vals = list(vals)
    return {"k": "read", "dev": dev, "kind": kind, "base": base, "vals": vals, "n": n or f"{kind}@{dev:#x}({base},{len(vals)})",
            "pdu": ps.reply(dev, kind, base, vals), **kw}


# -- one reply into a plant: every device, kind and window -----------------------
WINDOWS = sorted({(b, c) for b in (0, 1, 5, 13, 17, 59, 60, 61, 75, 100, 110, 114, 119, 120, 138, 180, 240, 300, 1000, 1060, 1120, 1600, 2040, 4096, 0x5959, 65535 - 59, 65530, 65535)
                  for c in (1, 2, 5, 30, 59, 60) if b + c <= 65536})
PATTERNS = {
    "distinct": lambda b, c: [(b * 7 + i * 3 + 1) & 0x7FFF for i in range(c)],
    "zero": lambda b, c: [0] * c,
    "ones": lambda b, c: [0xFFFF] * c,
    "high": lambda b, c: [0x8000] * c,
    "ascii": lambda b, c: [0x4142] * c,
    "one-hot": lambda b, c: [1] + [0] * (c - 1),
}


def sweep(t, shard, patterns=()):
    scene, populated, devs = shard
    base = new_plant(scene, populated)
    before = ps.regs(base)
    for dev in devs:
        for kind in ("HR", "IR", "MR"):
            for (b, c) in WINDOWS:
                for pn in patterns:
                    vals = PATTERNS[pn](b, c)
                    x = R(dev, kind, b, vals, n=f"{kind}@{dev:#x}({b},{c}) {pn}")
                    p = ps.clone(base)
                    p.update(x["pdu"], received_at=ps.at(90))
                    t.outcome((kind, judge(t, x, before, ps.regs(p), f"{scene} populated={populated}")))
                    t.add("transitions")
                    t.add("frames")
        if ps.regs(base) != before:
            t.violation("shared-state", what=f"a copy's update reached another plant, device {dev:#x}")
            return


def writes(t, shard):
    scene, populated, regs = shard
    base = new_plant(scene, populated)
    before = ps.regs(base)
    for dev in (0x11, 0x31, 0x32):
        at = 0x11 if scene != "none" else dev
        for reg in regs:
            for val in (0, 1, 0xFFFF, 1234):
                x = {"k": "write" if reg else "w0", "at": at, "reg": reg, "val": val, "n": f"write@{dev:#x} {reg}={val}", "pdu": ps.pdu(wire.write_response(dev, reg, val))}
                p = ps.clone(base)
                p.update(x["pdu"], received_at=ps.at(90))
                t.outcome((x["k"], judge(t, x, before, ps.regs(p), f"{scene} populated={populated}")))
                t.add("transitions")
                t.add("echoes")


# -- histories --------------------------------------------------------------------
def good(dev, kind, base, count, v, spec):
    tab = plants.banks(spec)[dev][kind]
    vals = [tab.get(base + i, 0) for i in range(count)]
    if dev in range(0x32, 0x38) and kind == "IR":
        tab = plants.battery_regs(dev, v)
        vals = [tab[base + i] for i in range(count)]
    else:
        free = [i for i in range(count) if (base + i) not in SERIAL[kind]]
        for i in free[:3] + free[-2:]:
            vals[i] = (vals[i] + v) & 0xFFFF
    return R(dev, kind, base, vals, n=f"{kind}@{dev:#x}({base},{count}) v{v}", goodserial=True)


def alphabet(scene):
    spec = plants.SPECS["hybrid2" if scene == "none" else scene]
    b = plants.banks(spec)
    L = []
    for v in (0, 1):
        L.append(good(0x11, "HR", 0, 60, v, spec))
        for dev in sorted(b):
            if dev != 0x11:
                L.append(good(dev, "IR", 60, 60 if dev > 8 else 30, v, spec))
    if "IR" in b[0x11]:
        r = min(b[0x11]["IR"])
        L += [good(0x11, "IR", r, 60, 0, spec), good(0x11, "IR", r, 60, 1, spec), R(0x11, "IR", r, [0] * 60, n="IR zero")]
        L += [R(0x11, "IR", r + 5, [801, 802, 803]), R(0x31, "IR", r + 5, [811, 812, 813]), R(0x11, "HR", r + 5, [821, 822, 823])]
    L += [R(0x11, "HR", 20, [7, 8]), R(0x11, "HR", 0, [0] * 60, n="HR zero"), R(0x31, "HR", 20, [17, 18]), R(0x99, "HR", 20, [27, 28]), R(0x00, "IR", 60, [37, 38]),
          R(0x32, "IR", 65, [3301, 3302]), R(0x32, "HR", 65, [41, 42]), R(0x33, "IR", 65, [3311, 3312]), R(0x01, "IR", 65, [51, 52]), R(0x01, "HR", 65, [61]), R(0x70, "IR", 65, [71, 72]),
          R(0x50, "IR", 65, [81, 82]), R(0x31, "IR", 62, [5, 0]), R(0x01, "MR", 60, [0x4D31] * 9)]
    bad = [0x4242] * 60
    bad[13:18] = [0x2020] * 5
    L.append(R(0x11, "HR", 0, bad, n="HR bad serial"))
    z = plants.battery_regs(0x32)
    L.append(R(0x32, "IR", 60, [0 if i < 16 else z[60 + i] for i in range(60)], n="battery impossible"))
    L.append(R(0x32, "IR", 60, [0] * 60, n="battery zero"))
    L.append(R(0x32, "IR", 60, [plants.battery_regs(0x33)[60 + i] for i in range(60)], n="battery 0x33's data"))
    sus = [MARKERS.get(i, 3) for i in range(60)]
    F = ps.pdu
    N = [("crc", "crc HR", F(wire.read_response(3, 0x11, 20, [901, 902], crc=0x1111))), ("crc", "crc write", None),
         ("err", "error IR", F(wire.error_response(4, 0x11, 0, 60))), ("err", "error HR", F(wire.error_response(3, 0x32, 60, 60))), ("null", "null", F(wire.null_response())),
         ("suspicious", "suspicious IR", F(wire.read_response(4, 0x11, 0, sus))), ("suspicious", "suspicious battery", F(wire.read_response(4, 0x32, 60, sus))),
         ("werr", "write error", F(wire.write_response(0x11, 20, 5, error=True))), ("w0", "write reg 0", F(wire.write_response(0x11, 0, 5))), ("hb", "heartbeat", F(wire.heartbeat())),
         ("other", "lan", None)]
    raw = bytearray(wire.write_response(0x11, 20, 999))
    raw[-1] ^= 0x40
    for k, n, m in N:
        if n == "crc write":
            m = F(bytes(raw))
        elif n == "lan":
            m = F(wire.lan_config())
        if fr.is_msg(m):
            L.append({"k": k, "n": n, "pdu": m})
    for dev, reg, val in ((0x11, 20, 1), (0x11, 25, 1313), (0x31, 20, 0), (0x11, 4500, 9)):
        L.append({"k": "write", "at": 0x11 if scene != "none" else dev, "reg": reg, "val": val, "n": f"write@{dev:#x} {reg}={val}", "pdu": F(wire.write_response(dev, reg, val))})
    return L


def histories(t, shard, depth=3, last=None):
    scene, populated, firsts = shard
    L = alphabet(scene)
    base = new_plant(scene, populated)

    def rec(p, d, names):
        t.add("states")
        for i, x in enumerate(L):
            if d == 0 and i not in firsts:
                continue
            q = ps.clone(p)
            tr = [scene, populated] + names + [x["n"]]
            step(t, q, x, 90 + 30 * d, tr)
            if t.full:
                return
            if d + 1 < depth:
                rec(q, d + 1, names + [x["n"]])
    before = ps.regs(base)
    rec(base, 0, [])
    if ps.regs(base) != before:
        t.violation("shared-state", what="history on copies reached the original")
    t.sample({"scene": scene, "alphabet": [x["n"] for x in L][:8], "first": [L[i]["n"] for i in firsts][:3]})


def main():
    c = Check("P01", "model_checking")
    pats = c.pick(("distinct", "zero", "ascii"), tuple(PATTERNS))
    every = sorted({0, 1, 2, 8, 9, 0x10, 0x11, 0x12, 0x20, 0x31, 0x32, 0x33, 0x37, 0x38, 0x50, 0x53, 0x6F, 0x70, 0x71, 0x8F, 0x90, 0x99, 0xA0, 0xFE, 0xFF})
    devs = c.pick(every, list(range(256)))
    scenes = c.pick(("none", "hybrid2", "hv3ph"), SCENES)
    c.run(sweep, [(s, pop, d) for s in scenes for pop in (False, True) for d in split(every, 6)], patterns=pats)
    if not c.quick:
        c.run(sweep, [("hybrid2", True, d) for d in split([d for d in devs if d not in every], 64)], patterns=("distinct", "zero"))
    regs = list(range(0, 65536, c.pick(37, 7)))
    if 0 not in regs:
        regs.append(0)
    c.run(writes, [(s, pop, r) for s in ("none", "hybrid2", "ems") for pop in (False, True) for r in split(regs + [1, 96, 65535], 8)])
    depth = 3
    hs = c.pick(("none", "hybrid2"), SCENES)
    sh = []
    for s in hs:
        n = len(alphabet(s))
        for pop in (False, True):
            sh += [(s, pop, f) for f in split(range(n), 16)]
    if c.quick:
        c.run(histories, [x for x in sh if not x[1] and x[0] == "hybrid2"], depth=3)
        c.run(histories, [x for x in sh if x[1] or x[0] == "none"], depth=2)
    else:
        c.run(histories, sh, depth=depth)
    c.assumptions += ["a reply reaches the plant as the message the real decoder makes of its wire bytes",
                      "acceptance is required only where the documentation gives no ground for refusal (serial coherence, all-zero, battery guards are P02-P04)"]
    n = c.total.n
    c.finish({"states": n.get("states", 0) + n.get("frames", 0) + n.get("echoes", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("transitions", 0), "history_depth": depth, "scenes": list(scenes)})


if __name__ == "__main__":
    main()
