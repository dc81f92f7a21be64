"""M02: every reading is the documented conversion of its own registers and of nothing else.

Explicit enumeration of register contents for every device model; at each state the whole
public reading surface of the real model is compared with an independent decoder driven by
the pinned register map.
"""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mc import decode, fills, models, report  # noqa: E402

NAMES = list(models.MODELS)


def compare(t, model, regs, what):
    t.add("states")
    if t.full:
        return
    try:
        obj = models.MODELS[model](models.cache(regs))
        got = models.read_all(obj)
    except Exception as e:  # reading never raises is M01's claim; here it only means no value came back
        t.violation(f"{model}:no-reading", what=what, error=repr(e)[:300])
        return
    exp = decode.DECODE[model](regs)
    for k, e in exp.items():
        if k not in got:
            t.violation(f"{model}.{k}:gone", what=what)
        elif not decode.agrees(e, got[k]):
            spec = decode.MODELS.get(model, {}).get(k)
            t.violation(f"{model}.{k}", what=what, expected=repr(e), got=repr(got[k]), definition=repr(spec),
                        raw={f"{a}{b}": regs.get((a, b)) for a, b in (spec[2] if spec else ())}, hr0=regs.get(("HR", 0)), hr21=regs.get(("HR", 21)))
    t.add("values", len(exp))


def sweep_uniform(t, shard, vals):
    """All registers hold v: every single-word reading at every raw value."""
    model, part, of = shard
    for v in vals[part::of]:
        compare(t, model, fills.identity(fills.uniform(model, v), 0x2001, 449), ("uniform", v))
        if t.full:
            return


def sweep_stripes(t, shard, corners):
    model, part, of = shard
    for a, b in list(itertools.product(corners, repeat=2))[part::of]:
        if a != b:
            compare(t, model, fills.identity(fills.striped(model, a, b), 0x2001, 449), ("striped", a, b))


def sweep_single(t, shard, vals, nbases):
    """One register changed, dropped, or alone: only its own readings may move."""
    model, part, of = shard
    rr = fills.regs(model)[part::of]
    for name, base in itertools.islice(fills.bases(model), nbases):
        base = fills.identity(base, 0x2001, 449) if name != "empty" else base
        for r in rr:
            for v in (None, *vals):
                if base.get(r) != v:
                    compare(t, model, fills.changed(base, r, v), (name, r, v))
        if t.full:
            return


def sweep_patterns(t, shard):
    model, dtcs = shard
    for k, m, c in fills.PATTERNS:
        base = fills.pattern(model, k, m, c)
        if ("HR", 0) in base:
            for dtc in dtcs:
                for fw in fills.FW:
                    compare(t, model, fills.identity(base, dtc, fw), ("pattern", k, m, dtc, fw))
        else:
            compare(t, model, base, ("pattern", k, m))


def sweep_identity(t, shard, lows, fws):
    """Every device type code x firmware: rated power, capacity, field identity, energy routing, slots."""
    base = fills.pattern("inverter", 31, 4099, 3)
    base3 = fills.pattern("threephase", 31, 4099, 3)
    keep = {("HR", 55), *fills.SMALL_IDENTITY}
    small = {r: v for r, v in base.items() if r in keep}
    small3 = {r: v for r, v in base3.items() if r in keep}
    for hi in shard:
        for lo in lows:
            for fw in fws:
                compare(t, "inverter", fills.identity({**small, ("HR", 0): 0, ("HR", 21): 0}, hi << 8 | lo, fw), ("dtc", hi << 8 | lo, fw))
                if lo < 2:
                    compare(t, "threephase", fills.identity({**small3, ("HR", 0): 0, ("HR", 21): 0}, hi << 8 | lo, fw), ("dtc3", hi << 8 | lo, fw))


def sweep_clock(t, shard):
    part, of, model = shard
    for i, c in enumerate(fills.clock()):
        if i % of == part:
            compare(t, model, {("HR", 35 + k): v for k, v in enumerate(c)}, ("clock", c))


LETTERS = (0x4247, 0x3132, 0x0000, 0x2020, 0x6162, 0xFFFF, 0xDFC0, 0x4100, 0x0042, 0xB2B3)
TEXTS = [("battery", "IR", 110, 5), ("bmu", "IR", 114, 5), ("aio", "IR", 114, 5), ("inverter", "HR", 13, 5), ("meterproduct", "MR", 60, 4),
         ("bcu", "IR", 138, 5), ("gateway1", "IR", 1600, 4), ("ems", "IR", 2066, 5)]


def sweep_text(t, shard, letters):
    """Serial and text fields over an alphabet of byte shapes: letters, blanks, zero bytes, garbage, accented bytes."""
    (model, kind, base, n), first = shard
    for w in itertools.product(letters, repeat=n - 1):
        compare(t, model, {(kind, base + i): v for i, v in enumerate((first, *w))}, ("text", first, w))


# decimal places each documented numeric scaling resolves
PLACES = {"pf_signed": 4, "pf": 4, "milli": 3, "centi": 2, "deci": 1, "uint16": 0, "int16": 0, "uint32": 0, "int32": 0, "duint8": 0, "bitfield": 0, "negate": 0}


def meta(t, shard):
    """Freshness metadata: the registers named for a reading are the ones it is decoded from."""
    for model, cls in models.CLASS.items():
        get = getattr(cls, "registers_of", None)
        if get is None:
            continue
        for a, d in decode.MODELS[model].items():
            t.add("states")
            rr = tuple((r.reg_type, r.index) for r in cls.registers_of(a))
            if rr != d[2]:
                t.violation(f"{model}.{a}:registers", expected=d[2], got=rr)
            conv = d[1] or d[0]
            conv = conv[0] if isinstance(conv, (list, tuple)) else conv
            if cls.precision_of(a) != PLACES.get(conv):
                t.violation(f"{model}.{a}:precision", expected=PLACES.get(conv), got=cls.precision_of(a))
        for a in ("no_such_reading", "is_valid", "model_dump"):
            if cls.registers_of(a) != () or cls.precision_of(a) is not None:
                t.violation(f"{model}.{a}:registers", expected="nothing", got=cls.registers_of(a))


def main():
    c = report.Check("M02", "model_checking")
    parts = c.pick(2, 8)
    vals = c.pick(sorted(set(fills.edges()) | set(range(0, 65536, 61))), list(range(65536)))
    sh = [(m, i, n) for m in NAMES for n in ((8 if m in fills.BIG else parts),) for i in range(n)]
    c.run(meta, [0])
    c.run(sweep_uniform, sh, vals=vals)
    c.run(sweep_stripes, sh, corners=c.pick(fills.CORNERS, fills.edges()[::2]))
    c.run(sweep_single, [(m, i, n) for m in NAMES for n in ((24 if m in fills.BIG else 2),) for i in range(n)],
          vals=c.pick((0xFFFF, 1234), (0, 1, 60, 0x7FFF, 0x8000, 0xFFFF, 2359, 1234)), nbases=c.pick(2, 5))
    dt = [0x2001, 0x2101, 0x3001, 0x4001, 0x4101, 0x5001, 0x5101, 0x6001, 0x7001, 0x8001, 0x8102, 0x8201, 0x8301, 0x2003, 0x8003, 0x3002]
    c.run(sweep_patterns, [(m, dd) for m in NAMES for dd in ([dt] if m not in fills.BIG else [[x] for x in dt])])
    his = list(range(256))
    lows = c.pick((0, 1, 2, 3, 4, 5, 6, 7, 0xFF), tuple(range(256)))
    fws = c.pick((0, 302, 303, 449, 577, 899, 912, 65535, None), fills.FW)
    c.run(sweep_identity, report.split(his, 64), lows=lows, fws=fws)
    c.run(sweep_clock, [(i, 8, m) for i in range(8) for m in c.pick(("inverter",), fills.BIG)])
    letters = c.pick(LETTERS[:7], LETTERS)
    c.run(sweep_text, [(x, f) for x in TEXTS for f in LETTERS], letters=letters)
    c.assumptions += [
        "The register map (which words, scaling and declared range each reading has) is pinned from the documented tables in mc/regspec.json; conversions are re-implemented.",
        "Serial fields of blanks shorter than the field, and meter serials with accented bytes, are left open.",
    ]
    c.finish({"states": c.total.n.get("states", 0), "transitions": c.total.n.get("values", 0),
              "traces_validated_against_impl": c.total.n.get("states", 0), "readings_compared": c.total.n.get("values", 0),
              "models": len(NAMES), "raw_values_per_single_word_reading": len(vals)})


if __name__ == "__main__":
    main()
