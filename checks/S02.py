"""S02: saving register data and loading it back yields exactly the same registers and values.

Explicit enumeration of register layouts (every subset of cells around the block boundaries, every
16-bit value, every presence / unset / value state), of device combinations, and of every way the
compact text may be re-wrapped, re-ordered and commented; the real save / load pair is compared with
the saved mapping itself, and every decoded reading with the one before.
"""
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mc import env, models, plants, report  # noqa: E402,F401
from givenergy_modbus.model.register import HR, IR, MR  # noqa: E402
from givenergy_modbus.model.register_cache import RegisterCache, parse_compact, to_compact  # noqa: E402

CLS = {"HR": HR, "IR": IR, "MR": MR}
CORNERS = (0, 1, 0xFFFF, 0x8000, 0x00FF, 0xFF00, 0x7FFF, 0x000A, 0xA000, 0x0A0B, 60, 0x3039)


def mk(regs):
    return RegisterCache({CLS[k](n): v for (k, n), v in regs.items()})


def plain(cache):
    return {(type(r).__name__, r._idx): v for r, v in dict(cache).items()}


def exact(a, b):
    return a == b and all(type(a[k]) is type(b[k]) for k in a)


def via_json(t, regs, what):
    t.add("states")
    if t.full:
        return
    c = mk(regs)
    try:
        text = c.json()
        back = RegisterCache.from_json(text)
        again = back.json()
    except Exception as x:
        t.violation("json-raises", what=what, registers=regs, error=repr(x)[:300])
        return
    if not isinstance(text, str) or not isinstance(json.loads(text), dict):
        t.violation("json-form", what=what, text=str(text)[:300])
    got = plain(back)
    if not exact(got, regs) or not isinstance(back, RegisterCache):
        t.violation("json", what=what, lost={k: v for k, v in regs.items() if k not in got or got[k] != v}, gained={k: v for k, v in got.items() if k not in regs or regs[k] != v}, text=text[:300])
    elif json.loads(again) != json.loads(text):
        t.violation("json-again", what=what, text=text[:300], again=again[:300])
    if not exact(plain(c), regs):
        t.violation("json-changes", what=what)
    back[CLS["HR"](7)] = 12345
    if ("HR", 7) in plain(c) and regs.get(("HR", 7)) != plain(c)[("HR", 7)]:
        t.violation("json-shared", what=what)


def known(devs):
    """What the compact form can carry: devices with at least one set register, without the unset ones."""
    out = {d: {k: v for k, v in r.items() if v is not None} for d, r in devs.items()}
    return {d: r for d, r in out.items() if r}


def via_compact(t, devs, what):
    t.add("states")
    if t.full:
        return None
    caches = {d: mk(r) for d, r in devs.items()}
    try:
        text = to_compact(caches)
    except Exception as x:
        t.violation("compact-raises", what=what, error=repr(x)[:300])
        return None
    load(t, text, known(devs), what)
    if {d: plain(c) for d, c in caches.items()} != devs:
        t.violation("compact-changes", what=what)
    return text


def load(t, text, devs, what):
    t.add("transitions")
    try:
        back = parse_compact(text)
        got = {d: plain(c) for d, c in back.items()}
        again = to_compact(back)
    except Exception as x:
        t.violation("parse-raises", what=what, error=repr(x)[:300], text=text[:300])
        return
    if got != devs or any(not isinstance(c, RegisterCache) for c in back.values()) or any(type(v) is not int for r in got.values() for v in r.values()):
        lost = {d: {k: v for k, v in r.items() if got.get(d, {}).get(k) != v} for d, r in devs.items()}
        gain = {d: {k: v for k, v in r.items() if devs.get(d, {}).get(k) != v} for d, r in got.items()}
        t.violation("compact", what=what, lost={d: r for d, r in lost.items() if r}, gained={d: r for d, r in gain.items() if r}, text=text[:300])
        return
    if {d: plain(c) for d, c in parse_compact(again).items()} != devs:
        t.violation("compact-again", what=what, text=again[:300])


CELLS = [("HR", 0), ("HR", 1), ("HR", 2), ("HR", 58), ("HR", 59), ("HR", 60), ("HR", 61), ("HR", 119), ("HR", 120), ("IR", 0), ("IR", 59), ("IR", 60), ("MR", 59), ("MR", 60),
         ("HR", 65535), ("IR", 20039)]


def layouts(t, shard, width):
    """Every subset of the boundary cells."""
    lo, hi = shard
    cells = CELLS[:width - 2] + CELLS[-2:]
    for mask in range(lo, hi):
        regs = {c: CORNERS[(i + mask) % len(CORNERS)] for i, c in enumerate(cells) if mask >> i & 1}
        via_json(t, regs, ("layout", mask))
        via_compact(t, {0x32: regs}, ("layout", mask))
        # the same registers entered in the opposite order
        rev = dict(reversed(list(regs.items())))
        via_compact(t, {0x11: rev, 0x32: regs}, ("layout both ways", mask))
        t.outcome(bin(mask).count("1"))


def blocks(t, shard):
    """Every contiguous run (base, count) around the first two block boundaries."""
    for base in shard:
        for count in range(1, 131):
            kind = ("IR", "HR", "MR")[(base + count) % 3]
            regs = {(kind, base + i): (base * 131 + i * 257) & 0xFFFF for i in range(count)}
            via_compact(t, {0x32: regs}, ("run", base, count))
            if count % 10 == 1:
                via_json(t, regs, ("run", base, count))


def values(t, shard):
    """Every 16-bit value, at both ends and in the middle of a row; every pair of corner values."""
    lo, hi = shard
    for v in range(lo, hi):
        regs = {("HR", 59): v, ("HR", 60): v, ("HR", 61): v ^ 0xFFFF, ("HR", 62): v, ("IR", 0): v, ("MR", 119): v}
        via_json(t, regs, ("value", v))
        via_compact(t, {0x11: regs}, ("value", v))


def addresses(t, shard):
    """Every device address, alone and next to its neighbours."""
    for d in shard:
        devs = {d: {("HR", 0): d, ("IR", 60): 1}}
        via_compact(t, devs, ("device", d))
        for e in range(256):
            if e != d:
                via_compact(t, {**devs, e: {("HR", 0): e ^ 0xFF, ("IR", 59): 7}}, ("devices", d, e))


def unset(t, shard):
    """Every cell absent, unset, zero or full, over several devices."""
    first, n = shard
    cells = [("HR", 58), ("HR", 59), ("HR", 60), ("HR", 61), ("IR", 60), ("MR", 60)][:n]
    for rest in itertools.product(("absent", None, 0, 0xFFFF), repeat=n - 1):
        regs = {c: v for c, v in zip(cells, (first, *rest)) if v != "absent"}
        via_json(t, regs, ("unset", first, rest))
        via_compact(t, {0x31: regs}, ("unset", first, rest))
        via_compact(t, {0x30: {}, 0x31: regs, 0x32: {("HR", 5): None}, 0x33: dict(reversed(list(regs.items())))}, ("unset devices", first, rest))


# -- the compact text as people paste it ------------------------------------------------------

def rewraps(text):
    """Every reflow of the text at a fixed width, breaking anywhere or at the blank before the hex."""
    rows = text.splitlines()
    heads = max((r.index(" ") for r in rows if " " in r and not r.startswith("#")), default=0)
    longest = max(map(len, rows), default=0)
    for w in range(heads, longest + 1):
        yield ("wrap", w), "\n".join(r[i:i + w] if not r.startswith("#") else r for r in rows for i in (range(0, len(r), w) if not r.startswith("#") else (0,))) + "\n"
    for w in range(4, longest + 1):
        out = []
        for r in rows:
            if r.startswith("#") or " " not in r:
                out.append(r)
                continue
            head, body = r.split(" ", 1)
            out.append(head)
            out += [body[i:i + w] for i in range(0, len(body), w)]
        yield ("word wrap", w), "\n".join(out) + "\n"
        yield ("word wrap padded", w), "".join(f"   {x} \r\n" for x in out)


def wraps(t, shard):
    for name, devs in shard:
        text = via_compact(t, devs, name)
        if text is None:
            return
        for how, tx in rewraps(text):
            load(t, tx, known(devs), (name, how))
            if t.full:
                return


NOISE = ["# 192.168.1.5:8899 2024-06-17", "Probing HR 0..59 on device 0x32", ".. HR(60,60) timed out", "", "   ", "#", "Done.", "0x32:HR(0,60", "HR(0,1): 0007", "0x32:XR(0,1) 0007",
         "0x32:HR(600,2) 0007", "0x33:IR(600,1) 00070", "0x33:IR(600,1) 00zz"]


def orders(t, shard):
    """Every order of the rows, every place for every kind of surrounding text, repeats and splits into several dumps."""
    for name, devs in shard:
        text = to_compact({d: mk(r) for d, r in devs.items()})
        rows = text.splitlines()
        want = known(devs)
        perms = itertools.permutations(rows) if len(rows) <= 6 else [rows[i:] + rows[:i] for i in range(len(rows))] + [rows[::-1]]
        for p in perms:
            load(t, "\n".join(p) + "\n", want, (name, "order"))
            load(t, "\r\n".join(p), want, (name, "order, no final newline"))
        for at in range(len(rows) + 1):
            for x in NOISE:
                load(t, "\n".join([*rows[:at], x, *rows[at:]]), want, (name, "noise", at, x))
        load(t, text.upper().replace("0X", "0x"), want, (name, "upper case"))
        load(t, text + text, want, (name, "repeated"))
        for x in NOISE[:7]:
            for y in NOISE[:7]:
                load(t, "\n".join(z for r in rows for z in (x, r, y)), want, (name, "noise around", x, y))
        legacy = []
        for r in rows:
            dev, rest = r.split(":", 1)
            head, body = rest.split(" ")
            legacy.append((dev, f"{head}: {body}"))
        for p in (itertools.permutations(legacy) if len(legacy) <= 4 else [legacy, legacy[::-1]]):
            load(t, "\n".join(f"# {x.split('(')[0]} probe @ device {d} (192.168.1.5)\n{x}" for d, x in p), want, (name, "legacy"))
        by = {}
        for d, x in legacy:
            by.setdefault(d, []).append(x)
        load(t, "\n".join(f"# HR probe @ device {d}\n" + "\n".join(xs) for d, xs in by.items()), want, (name, "legacy sections"))
        for w in range(16, 260, 7):
            load(t, "\n".join(f"# HR probe @ device {d}\n" + "\n".join(x[i:i + w] for x in xs for i in range(0, len(x), w)) for d, xs in by.items()), want, (name, "legacy wrap", w))


BAD = {"XR(0)": 1, "hello": 1, "HR(x)": 1, "HR(0": "q", "HR(900)": -1, "HR(901)": 65536, "HR(902)": 1.5, "HR(903)": True, "HR(904)": "evil", "HR(905)": [1], "IR(906)": "", "()": 3, "HR()": 3}


def tampered(t, shard):
    """One unreadable entry anywhere in the saved form costs nothing else."""
    for regs in shard:
        items = [(f"{k}({n})", v) for (k, n), v in regs.items()]
        for name, v in BAD.items():
            for at in range(len(items) + 1):
                t.add("transitions")
                d = dict([*items[:at], (name, v), *items[at:]])
                try:
                    got = plain(RegisterCache.from_json(json.dumps(d)))
                except Exception as x:
                    t.violation("damaged-raises", entry=(name, v), error=repr(x)[:300])
                    continue
                if not exact(got, regs):
                    t.violation("damaged", entry=(name, v), got=got, expected=regs)
        for form in ("{}({})", "{}:{}"):
            t.add("transitions")
            got = plain(RegisterCache.from_json(json.dumps({form.format(k, n): v for (k, n), v in regs.items()})))
            if not exact(got, regs):
                t.violation("key-form", form=form, got=got, expected=regs)


def of_plant(spec):
    return {d: {(k, r): v for k, tab in kinds.items() for r, v in tab.items()} for d, kinds in plants.banks(spec).items()}


def readings(t, shard):
    """A whole plant's data through either form: same registers, same readings from every model."""
    for s in shard:
        devs = of_plant(s)
        via_compact(t, devs, s.key())
        back = parse_compact(to_compact({d: mk(r) for d, r in devs.items()}))
        for d, r in devs.items():
            via_json(t, r, (s.key(), d))
            src = mk(r)
            for how, c in (("json", RegisterCache.from_json(mk(r).json())), ("compact", back.get(d, RegisterCache()))):
                for m in sorted(models.MODELS):
                    if m in ("inverter", "threephase", "ems", "gateway1", "gateway2", "gateway") and d != 0x11 or m in ("battery", "bcu", "bmu", "lvbcu", "aio", "meter", "meterproduct") and d == 0x11:
                        continue
                    t.add("readings")
                    try:
                        a, b = models.read_all(models.MODELS[m](src)), models.read_all(models.MODELS[m](c))
                    except Exception as x:
                        t.violation("reading-raises", plant=s.key(), device=d, model=m, how=how, error=repr(x)[:300])
                        continue
                    if repr(a) != repr(b):
                        t.violation("reading", plant=s.key(), device=d, model=m, how=how, differs=[k for k in a if repr(a[k]) != repr(b.get(k))][:10])


def main():
    c = report.Check("S02", "model_checking")
    w = c.pick(12, 16)
    n = 1 << w
    c.run(layouts, [(i * n // 64, (i + 1) * n // 64) for i in range(64)], width=w)
    c.run(blocks, [[b] for b in c.pick((0, 1, 30, 58, 59, 60, 61, 1000, 65400), (*range(0, 122), 1000, 1020, 2039, 2040, *range(65380, 65406, 2)))])
    step = c.pick(16, 1)
    c.run(values, [(v, min(v + 1024 // step, 65536)) for v in range(0, 65536, 1024)])
    c.run(addresses, report.split(list(c.pick((0, 1, 0x0A, 0x10, 0x11, 0x31, 0x32, 0x70, 0xA0, 0xFF), range(256))), 32))
    c.run(unset, [(f, c.pick(5, 6)) for f in ("absent", None, 0, 0xFFFF)])
    texts = [("three", {0x11: {("HR", i): i * 1111 & 0xFFFF for i in range(60)}, 0x32: {("IR", 60 + i): 0xABCD ^ i for i in range(60)}, 0x01: {("MR", 60 + i): i for i in range(9)}}),
             ("short", {0x11: {("HR", 0): 1, ("HR", 1): 2, ("HR", 60): 3}, 0xA0: {("IR", 65535): 0xFFFF}}),
             ("digits", {0x10: {("HR", 100 + i): 0x1234 for i in range(5)}, 0x11: {("HR", 100): 0x0000}}),
             ("letters", {0xAB: {("IR", 120 + i): 0xABCD for i in range(30)}, 0xCD: {("MR", 0): 0xDEAD}})]
    texts += [(k, of_plant(s)) for k, s in plants.SPECS.items()][:c.pick(1, 7)]
    c.run(wraps, [[x] for x in texts])
    c.run(orders, [[x] for x in texts])
    c.run(tampered, [[{("HR", 1): 2, ("IR", 3): 4, ("MR", 5): None, ("HR", 0): 0}], [{("HR", 1): 65535}], [{}]])
    fam = {repr(sorted((d, sorted(r.items())) for d, r in of_plant(s).items())): s for s in plants.family(c.pick("small", "full")) if s.absent == "silent"}
    fam = list(fam.values())
    c.run(readings, report.split(fam[::7] + list(plants.SPECS.values()) if c.quick else fam, 64))
    c.assumptions += ["The compact form carries no unset (None) registers and no device without a set register (documented); text is re-wrapped only after a row's range, as the parser's documentation promises."]
    m = c.total.n
    c.finish({"states": m.get("states", 0), "transitions": m.get("transitions", 0), "traces_validated_against_impl": m.get("states", 0) + m.get("transitions", 0), "models_read": m.get("readings", 0)})


if __name__ == "__main__":
    main()
