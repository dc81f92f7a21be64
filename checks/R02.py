"""R02: a redacted plant holds and exports no serial number, keeps every other reading, and is independent of the original.

Explicit enumeration of plants (every serial-bearing field of every kind of device, every serial shape)
and explicit-state exploration of histories before and after redaction: at every state the real redacted
plant is compared with an independently redacted image, everything reachable from it is scanned for the
original's serials, and neither plant may be moved by anything done to the other.
"""
import itertools
import json
import os
import re
import sys
from datetime import datetime

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mc import models, plants, ps, report, wire  # noqa: E402
from mc.plants import Spec  # noqa: E402
from mc.view import diff, texts, view  # noqa: E402
from givenergy_modbus.model.plant import Plant  # noqa: E402
from givenergy_modbus.model.register import HR  # noqa: E402
from givenergy_modbus.model.register_cache import RegisterCache, parse_compact, to_compact  # noqa: E402

SHAPES = ("std", "ems", "lower", "high", "done")
STD, EMS = re.compile(r"([A-Z]{2}\d{4}[A-Z])(\d{3})"), re.compile(r"([A-Z]{3}\d{4})(\d{3})")


def clean(s):
    """The documented share-safe form of a recognised serial."""
    m = STD.fullmatch(s.upper()) or EMS.fullmatch(s.upper())
    return m.group(1) + "000"


def number(kind, n, shape):
    d, u = 2100 + n % 100 + 100 * (n // 100 % 30), (n * 37 + 11) % 999 + 1
    if shape == "ems":
        return f"{kind}Q{d:04d}{u:03d}"
    if shape == "high":
        return f"{kind}{9900 + n % 100:04d}Z{999 - n % 97:03d}"
    if shape == "done":
        return f"{kind}{d:04d}G000"
    s = f"{kind}{d:04d}G{u:03d}"
    return s.lower() if shape == "lower" else s


class Scene:
    """A plant with every serial-bearing field filled."""

    def __init__(self, spec, shape, header="std", legacy=False, v2=False, direct=0):
        self.spec, self.n, self.shape = spec, 0, shape
        self.regs = {d: {(k, r): v for k, tab in kinds.items() for r, v in tab.items()} for d, kinds in plants.banks(spec).items()}
        self.groups = []  # (cache key, kind, base, serial)
        self.caps = plants.caps(spec)
        if legacy:
            self.regs[0x31] = dict(self.regs[0x11])
            self.caps = type(self.caps).from_dict({**self.caps.to_dict(), "inverter_address": "0x31"})
        for d in sorted(self.regs):
            if d in (0x11, 0x31) and ("HR", 0) in self.regs[d]:
                self.put(d, "HR", 8, "HC")
                self.put(d, "HR", 13, "SA")
                if spec.ems:
                    for m in range(spec.managed):
                        self.put(d, "IR", 2066 + 5 * m, "CE")
                if spec.model in plants.GATEWAY:
                    for b in ((1627, 1841, 1848, 1855) if v2 else (1627, 1841, 1846, 1851)):
                        self.put(d, "IR", b, "GW")
            elif 0x32 <= d <= 0x37:
                self.put(d, "IR", 110, "BA")
            elif 0x50 <= d < 0x70:
                self.put(d, "IR", 114, "HX")
            elif 0x70 <= d < 0xA0:
                self.put(d, "IR", 138, "HB")
                for k in range(1, 8):  # 114 of this address holds the controller's own readings
                    self.put(d, "IR", 114 + 120 * k, "HM")
            elif d < 9:
                self.regs[d].update({("MR", 60): 0x4D00 + 0x31 + d, ("MR", 61): 0x5A32})
        self.direct = []
        for i in range(direct):
            c = {(k, r): v for k, tab in plants.banks(Spec("HYBRID_GEN2" if i % 2 else "AC"))[0x11].items() for r, v in tab.items()}
            self.direct.append(c)
            self.put(("direct", i), "HR", 8, "HC")
            # the first matches a managed inverter, the others are on their own
            own = next((s for (w, k, b, s) in self.groups if w == 0x11 and b == 2066 + 5 * i), None)
            self.put(("direct", i), "HR", 13, "SA", own if i == 0 else None)
        self.header = {"std": "ZZ2222G222", "ems": "ZZQ2222222", "none": "", "odd": "X-17/rev b", "done": "ZZ2222G000"}[header]
        self.dongle = {"std": "WO3333G333", "ems": "WOQ3333333", "none": "", "odd": "dongle 99", "done": "WO3333G000"}[header]

    def put(self, where, kind, base, prefix, ser=None):
        self.n += 1
        ser = ser or number(prefix, self.n + 7 * len(prefix), self.shape)
        tab = self.direct[where[1]] if isinstance(where, tuple) else self.regs[where]
        for i, v in enumerate(wire.serial_regs(ser)):
            tab[(kind, base + i)] = v
        self.groups.append((where, kind, base, ser))

    def plant(self):
        p = Plant(register_caches={d: models.cache(r) for d, r in self.regs.items()}, capabilities=self.caps.model_copy(deep=True), inverter_serial_number=self.header,
                  data_adapter_serial_number=self.dongle)
        for c in self.direct:
            p.add_direct_source({0x11: models.cache(c)})
        return p

    def serials(self):
        return [s for _, _, _, s in self.groups] + [s for s in (self.header, self.dongle) if s]


def plain(c):
    return {(type(k).__name__, k._idx): v for k, v in c.items()}


GROUPS = [("HR", 8), ("HR", 13), ("IR", 110), ("IR", 138), *[("IR", 114 + 120 * k) for k in range(8)], ("IR", 1627), ("IR", 1841), ("IR", 1846), ("IR", 1848), ("IR", 1851), ("IR", 1855),
          *[("IR", 2066 + 5 * m) for m in range(4)]]


def redacted_regs(regs):
    """Independent redaction of a register table."""
    out = dict(regs)
    for kind, base in GROUPS:
        ws = [regs.get((kind, base + i)) for i in range(5)]
        if any(w is None for w in ws):
            continue
        text = b"".join(w.to_bytes(2, "big") for w in ws).decode("latin1").replace("\0", "").upper()
        if STD.fullmatch(text) or EMS.fullmatch(text):
            if clean(text) != text:
                for i, v in enumerate(wire.serial_regs(clean(text))):
                    out[(kind, base + i)] = v
    for i in (60, 61):
        if out.get(("MR", i)) is not None:
            out[("MR", i)] = 0
    return out


def header_of(s):
    return clean(s) if STD.fullmatch(s) or EMS.fullmatch(s) else ""


def swap(tree, serials):
    """The tree with every serial replaced by its share-safe form."""
    pairs = [(s.upper(), clean(s)) for s in serials if STD.fullmatch(s.upper()) or EMS.fullmatch(s.upper())]

    def go(x):
        if isinstance(x, str):
            for a, b in pairs:
                x = x.replace(a, b)
            return x
        if isinstance(x, dict):
            return {go(k): go(v) for k, v in x.items()}
        if isinstance(x, list):
            return [go(v) for v in x]
        return x
    return go(tree)


def memory(x, seen=None):
    """Every text and every run of register words reachable from an object, as bytes."""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    if isinstance(x, str):
        yield x.encode("latin1", "replace")
        return
    if isinstance(x, (bytes, bytearray)):
        yield bytes(x)
        return
    if x is None or isinstance(x, (int, float, datetime)):
        return
    seen.add(id(x))
    if isinstance(x, RegisterCache):
        yield from table(plain(x))
        return
    if isinstance(x, dict):
        for k, v in x.items():
            yield from memory(k, seen)
            yield from memory(v, seen)
        return
    if isinstance(x, (list, tuple, set, frozenset)):
        xs = list(x)
        if len(xs) >= 5 and all(isinstance(v, int) for v in xs):
            yield b"".join((v & 0xFFFF).to_bytes(2, "big") for v in xs)
        for v in xs:
            yield from memory(v, seen)
        return
    yield from memory(dict(getattr(x, "__dict__", {}) or {}), seen)
    yield from memory(dict(getattr(x, "__pydantic_private__", None) or {}), seen)


def table(regs):
    for kind in ("HR", "IR", "MR"):
        run, last = [], None
        for (k, n), v in sorted(regs.items()):
            if k != kind or v is None:
                continue
            if last is not None and n != last + 1:
                yield b"".join(run)
                run = []
            run.append((v & 0xFFFF).to_bytes(2, "big"))
            last = n
        yield b"".join(run)


def leaks(chunks, serials):
    live = [s.upper().encode("latin1") for s in serials if not (re.fullmatch(r".*000", s) and (STD.fullmatch(s) or EMS.fullmatch(s)))]
    out = set()
    for ch in chunks:
        up = ch.upper()
        for s in live:
            if s in up:
                out.add(s.decode("latin1"))
    return sorted(out)


NOW = ps.at(100000)


def state(p):
    return (ps.canon(p, NOW), None if p.capabilities is None else repr(p.capabilities), p.inverter_serial_number, p.data_adapter_serial_number)


def check(t, p, serials, what, memo=None):
    """Redact a plant as it stands and judge the result. Returns the redacted plant."""
    t.add("states")
    before = state(p)
    try:
        q = p.redact()
    except Exception as x:
        t.violation("redact-raises", what=what, error=repr(x)[:300])
        return None
    if state(p) != before:
        t.violation("original-changed", what=what)
    want = {d: redacted_regs(plain(c)) for d, c in p.register_caches.items()}
    got = {d: plain(c) for d, c in q.register_caches.items()}
    if got != want:
        bad = {d: {repr(k): (v, got.get(d, {}).get(k)) for k, v in r.items() if got.get(d, {}).get(k) != v} for d, r in want.items()}
        t.violation("registers", what=what, expected_got={d: r for d, r in bad.items() if r} or "more registers than the original")
    heads = (header_of(p.inverter_serial_number), header_of(p.data_adapter_serial_number))
    if (q.inverter_serial_number, q.data_adapter_serial_number) != heads:
        t.violation("header", what=what, original=(p.inverter_serial_number, p.data_adapter_serial_number), got=(q.inverter_serial_number, q.data_adapter_serial_number), expected=heads)
    for n in ("register_block_updated_at", "register_block_present", *sorted(ps.COUNTERS)):
        if getattr(q, n) != getattr(p, n):
            t.violation("bookkeeping", what=what, field=n, got=repr(getattr(q, n))[:200], expected=repr(getattr(p, n))[:200])
    if plants.topo(q.capabilities) != plants.topo(p.capabilities):
        t.violation("topology", what=what, got=plants.topo(q.capabilities))
    # everything a consumer can read is the original's with the serials replaced
    key = repr((sorted(want.items()), heads, what[0]))
    if memo is None or key not in memo:
        if memo is not None:
            memo.add(key)
        t.add("views")
        a, b = view(p), view(q)
        odd = [s for s in (p.inverter_serial_number, p.data_adapter_serial_number) if s and not header_of(s)]
        if not any(s in x for s in odd for x in texts(a)):
            d = diff(swap(a, serials), b)
            if d:
                t.violation("readings", what=what, expected_vs_redacted=d)
        out = list(memory(q))
        exports = {"view": [x.encode("latin1", "replace") for x in texts(b)], "memory": out, "repr": [repr(q).encode("latin1", "replace"), str(q).encode("latin1", "replace")],
                   "dump": list(memory(q.model_dump())), "python dump": [repr(q.model_dump()).encode("latin1", "replace")]}
        try:
            text = to_compact(q.register_caches)
            exports["compact"] = [ch for c in parse_compact(text).values() for ch in table(plain(c))] + [bytes.fromhex(ln.split(" ")[1]) for ln in text.splitlines() if ln]
            exports["json"] = [ch for c in q.register_caches.values() for ch in table(plain(RegisterCache.from_json(c.json())))] + [c.json().encode() for c in q.register_caches.values()]
        except Exception as x:
            t.violation("export-raises", what=what, error=repr(x)[:300])
        exports["devices"] = [ch for r in q.devices for ch in memory(r)] + [ch for i in q.inverters for ch in memory(i)]
        for n, chunks in exports.items():
            found = leaks(chunks, serials)
            if found:
                t.violation("leak", what=what, where=n, serials=found[:6], of=len(found))
    return q


def scenes(t, shard, heads):
    for s in shard:
        for shape in SHAPES:
            for header in heads:
                sc = Scene(s, shape, header)
                q = check(t, sc.plant(), sc.serials(), (s.key(), shape, header))
                if q is not None and header == "std":
                    again = q.redact()
                    if {d: plain(c) for d, c in again.register_caches.items()} != {d: plain(c) for d, c in q.register_caches.items()} or again.inverter_serial_number != q.inverter_serial_number:
                        t.violation("not-stable", what=(s.key(), shape))
                t.outcome((s.model, shape, header))
        if t.full:
            return


def direct(t, shard):
    for managed, n, shape in shard:
        sc = Scene(Spec("EMS", managed=managed, meters=(1,)), shape, direct=n)
        p = sc.plant()
        q = check(t, p, sc.serials(), ("direct", managed, n, shape))
        if q is None:
            continue
        rows = lambda x: sorted((i.data_source, i.is_blinded, i.p_inverter_out, i.battery_soc) for i in x.inverters)  # noqa: E731
        if rows(p) != rows(q):
            t.violation("sources", what=("direct", managed, n, shape), got=rows(q), expected=rows(p))
        p.add_direct_source({0x11: models.cache(sc.direct[0])} if sc.direct else {0x11: models.cache(sc.regs[0x11])})
        check(t, p, sc.serials(), ("direct more", managed, n, shape))


def single(t, shard):
    """One cache at a time: every serial field of the map x serial texts x what surrounds it, including fields that hold ordinary data."""
    for kind, base in shard:
        for shape in SHAPES:
            for fill in (None, 0, 1, 0xFFFF, 0x3030, 0x4142):
                ser = number("QA", base % 89, shape)
                regs = {} if fill is None else {(kind, r): fill for r in range(max(0, base - 6), base + 12)}
                regs.update({(kind, base + i): v for i, v in enumerate(wire.serial_regs(ser))})
                regs.update({("HR", 0): 0x2001, ("IR", 5): 7})
                one(t, regs, (kind, base, shape, fill), [ser])
        for ser in ("A" * 10, "0" * 10, "AA0000A00A", "AAAA000000", "AA000AA000", "1A2114G567", "SA2114G56", "SA2114G5678"[:10] + "", "SA 114G567", "AB", "\0" * 10, "\xff" * 10, "SA2114\xb2567"):
            regs = {(kind, base + i): v for i, v in enumerate(wire.serial_regs(ser.ljust(10, "\0")))}
            one(t, {**regs, ("HR", 0): 1}, (kind, base, "odd", ser), [])
        for i in range(5):
            for v in (None, "absent"):
                regs = {(kind, base + k): w for k, w in enumerate(wire.serial_regs("SA2114G567"))}
                if v is None:
                    regs[(kind, base + i)] = None
                else:
                    del regs[(kind, base + i)]
                one(t, regs, (kind, base, "part", i, v), [], judge=False)


def meters(t, shard):
    """The meter identifier is blanked whatever it holds, whole or in part, and nothing is added."""
    for a, b, n in shard:
        regs = {("MR", 59): 0x1111, ("MR", 62): 0x2222, ("HR", 60): 0x4D31, ("IR", 61): 0x4D31, **{("MR", 60 + i): v for i, v in enumerate((a, b)) if v != "absent"}, **({("MR", 0): n} if n is not None else {})}
        one(t, regs, ("meter", a, b, n), [])


def one(t, regs, what, serials, judge=True):
    t.add("states")
    c = models.cache(regs)
    try:
        r = c.redact_serials()
    except Exception as x:
        t.violation("redact-raises", what=what, error=repr(x)[:300])
        return
    if plain(c) != regs:
        t.violation("original-changed", what=what)
    if judge and plain(r) != redacted_regs(regs):
        w = redacted_regs(regs)
        t.violation("registers", what=what, expected_got={repr(k): (v, plain(r).get(k)) for k, v in w.items() if plain(r).get(k) != v} or sorted(map(repr, set(plain(r)) - set(w))))
    if not judge and set(plain(r)) != set(regs):
        t.violation("registers", what=what, got=sorted(map(repr, plain(r))))
    found = leaks(table(plain(r)), serials)
    if found:
        t.violation("leak", what=what, serials=found)
    r[HR(4321)] = 5
    if plain(c) != regs or not isinstance(r, RegisterCache):
        t.violation("shared", what=what)


# -- histories: what has happened to the plant before, what happens to either afterwards --------------

BAD = bytes.fromhex("00")


def _battery(dev, n, ser):
    tab = plants.battery_regs(dev, t=n, ser=ser)
    return [tab[60 + i] for i in range(60)]


def ops_for(sc):
    """name -> op(plant, step); each is something the client or a consumer does to a plant."""
    spec = sc.spec
    ser = {(w, b): s for w, _, b, s in sc.groups}
    out = {
        "poll": lambda p, n: p.update(ps.reply(0x11, "IR", 0, [3 + n + i % 50 for i in range(60)]), received_at=ps.at(10 * n)),
        "identity": lambda p, n: p.update(ps.reply(0x11, "HR", 0, [p.register_caches[0x11].get(HR(i)) or 0 if i < 13 or i > 17 else wire.serial_regs("XN2345G%03d" % (101 + n))[i - 13] for i in range(60)],
                                                   ser="XM2346G%03d" % (101 + n), adapter="XD2347G%03d" % (101 + n)), received_at=ps.at(10 * n)),
        "bad crc": lambda p, n: p.update(ps.reply(0x11, "IR", 0, [9] * 60, crc=0x1234), received_at=ps.at(10 * n)),
        "retry": lambda p, n: p.record_retry(0x11),
        "absent": lambda p, n: p.mark_absent(0x37, "IR", 60, 60),
        "forget": lambda p, n: p.invalidate_presence(0x11, "IR", 0, 60),
        "register": lambda p, n: p.register_caches[0x11].__setitem__(HR(4000), n),
        "new device": lambda p, n: p.update(ps.reply(0x08, "IR", 60, [1 + n] * 30), received_at=ps.at(10 * n)),
        "direct": lambda p, n: p.add_direct_source({0x11: models.cache({("HR", 0): 0x2001, ("HR", 21): 449, **{("HR", 13 + i): v for i, v in enumerate(wire.serial_regs("XS2348G%03d" % (101 + n)))}})}),
        "topology": lambda p, n: p.capabilities.meter_addresses.append(9 + n),
        "name": lambda p, n: setattr(p, "inverter_serial_number", "XQ2349G%03d" % (101 + n)),
    }
    if spec.batts:
        a = spec.batts[0]
        out["battery"] = lambda p, n: p.update(ps.reply(a, "IR", 60, _battery(a, n, ser[(a, 110)])), received_at=ps.at(10 * n))
        out["battery jump"] = lambda p, n: p.update(ps.reply(a, "IR", 60, [v + (700 if 0 < i < 9 else 0) for i, v in enumerate(_battery(a, n, ser[(a, 110)]))]), received_at=ps.at(10 * n))
        out["pack swapped"] = lambda p, n: p.update(ps.reply(a, "IR", 60, _battery(a, n, "XB2350G%03d" % 321)), received_at=ps.at(10 * n))
        out["new pack"] = lambda p, n: p.update(ps.reply(0x36, "IR", 60, _battery(0x36, n, "XP2351G%03d" % 321)), received_at=ps.at(10 * n))
        out["zeros"] = lambda p, n: p.update(ps.reply(a, "IR", 60, [0] * 60), received_at=ps.at(10 * n))
    return out


EXTRA = ["XN2345G", "XM2346G", "XD2347G", "XS2348G", "XQ2349G", "XB2350G", "XP2351G"]


def histories(t, shard, depth, after):
    name, shape, first = shard
    spec = {"lv": Spec("HYBRID_GEN2", batts=(0x32, 0x33), meters=(1,), bcu=True), "hv": Spec("HYBRID_3PH", stacks=(2, 1), meters=(2,)), "aio": Spec("ALL_IN_ONE", stacks=(2,)),
            "ems": Spec("EMS", managed=3, meters=(1,)), "gw": Spec("GATEWAY", batts=(0x32,))}[name]
    sc = Scene(spec, shape, direct=2 if name == "ems" else 0)
    ops = ops_for(sc)
    if first is not None and first not in ops:
        return
    extra = [s + "%03d" % k for s in EXTRA for k in [*range(101, 101 + 12), 321]]
    memo = set()
    pres = [()] if first is None else [(first, *r) for k in range(depth) for r in itertools.product(ops, repeat=k)]
    for pre in pres:
        p0 = sc.plant()
        for n, o in enumerate(pre):
            ops[o](p0, n)
        what = (name, shape, pre)
        if check(t, p0, sc.serials() + extra, what, memo) is None:
            continue
        if len(pre) > after[0]:
            continue
        for post in itertools.product(ops, repeat=after[1]):
            for side in ("redacted", "original"):
                p = ps.clone(p0)
                q = p.redact()
                still, mover = (p, q) if side == "redacted" else (q, p)
                s = state(still)
                t.add("transitions", len(post))
                for n, o in enumerate(post):
                    try:
                        ops[o](mover, len(pre) + n)
                    except Exception as x:
                        t.violation("update-raises", what=what, moved=side, ops=post, error=repr(x)[:300])
                        break
                if state(still) != s:
                    t.violation("shared", what=what, moved=side, ops=post)
                    return
        if t.full:
            return


def main():
    c = report.Check("R02", "model_checking")
    fam = [s for s in plants.family(c.pick("small", "full")) if s.absent == "silent" and sum(s.stacks) <= 32]
    if c.quick:
        fam = fam[::11] + list(plants.SPECS.values())
    heads = c.pick(("std", "odd"), ("std", "none", "odd"))
    if not c.quick:
        fam = [s for s in fam if s.meters in ((), (1,), (1, 8), tuple(range(1, 9)))]
    c.run(scenes, report.split(fam, 64), heads=heads)
    c.run(scenes, report.split(list(plants.SPECS.values()), 8), heads=("std", "ems", "none", "odd", "done"))
    c.run(direct, report.split([(m, n, s) for m in range(5) for n in range(4) for s in SHAPES], 16))
    c.run(single, [[g] for g in GROUPS])
    mv = ("absent", None, 0, 1, 0x4D31, 0xFFFF)
    c.run(meters, [list(itertools.product(mv, mv, (None, 5)))])
    names = ("lv", "hv", "aio", "ems", "gw")
    opn = list(ops_for(Scene(Spec("HYBRID_GEN2", batts=(0x32,)), "std")))
    c.run(histories, [(n, sh, o) for n in names for sh in c.pick(("std",), ("std", "ems")) for o in (None, *opn)], depth=c.pick(2, 3), after=c.pick((1, 1), (1, 2)))
    c.assumptions += ["HR/IR fields holding something that is not a serial, or only part of one, are documented to be left as they are; two serials that share their share-safe form are not judged apart."]
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0), "whole_plant_views": n.get("views", 0)})


if __name__ == "__main__":
    main()
