"""R03: the capture scanner flags exactly the captures that still carry a serial, wherever it sits and however the capture's lines cut it."""
import contextlib, io, itertools, os, re, runpy, shutil, sys, tempfile
from pathlib import Path
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, plants
from mc import wire as w
from mc.report import Check, split
from checks import R01

G = runpy.run_path(os.path.join(env.REPO, "scripts", "scan_capture_serials.py"), run_name="scanner")
scan = G["scan"]

# the three documented shapes, matched at every byte position (no use of the scanner's own expressions)
UP, DG = frozenset(range(65, 91)), frozenset(range(48, 58))
SHAPE = {"full": [UP] * 2 + [DG] * 4 + [UP] + [DG] * 3, "tail": [DG] * 4 + [UP] + [DG] * 3, "nul": [UP] * 2 + [DG | {0}] * 4 + [UP] + [DG] * 3}


def live(data):
    """Every (kind, text) in data that the documentation calls an un-redacted serial."""
    out = set()
    for kind, sh in SHAPE.items():
        n = len(sh)
        for i in range(len(data) - n + 1):
            s = data[i:i + n]
            if all(c in a for c, a in zip(s, sh)) and s[-3:] != b"000" and (kind != "nul" or 0 in s):
                out.add((kind, s))
    return out


def path():
    return os.path.join(os.environ["R03_SCRATCH"], f"{os.getpid()}.log")


def look(text, p=None):
    p = p or path()
    with open(p, "w", encoding="utf-8", errors="surrogateescape", newline="") as f:
        f.write(text)
    return scan(Path(p))


def named(s, hits):
    a, b = s.decode("latin1"), repr(s.decode("latin1"))[1:-1]
    return any(a in h or b in h for h in hits)


def judge(t, what, text, want, **ctx):
    """want: the set of serial texts that have to be reported (empty: the capture is clean)."""
    t.add("states"); t.add("transitions")
    hits = look(text)
    if bool(hits) != bool(want):
        t.violation(("missed:" if want else "false-alarm:") + what, hits=hits, want=sorted(want), text=text[:600], **ctx)
    else:
        gone = [s for s in want if not named(s, hits)]
        if gone:
            t.violation("not-named:" + what, hits=hits, missing=gone, text=text[:600], **ctx)


FMT = {"cli": lambda i, d, h: f"2026-01-02T03:04:{i % 60:02d}.000001+00:00 {d} {h}\n", "ha": lambda i, d, h: f"{d}: {h}\n", "crlf": lambda i, d, h: f"2026-01-02T03:04:{i % 60:02d}.000001+00:00 {d} {h}\r\n",
       "caps": lambda i, d, h: f"2026-01-02T03:04:{i % 60:02d}.000001+00:00 {d} {h.upper()}\n", "ha-sp": lambda i, d, h: f"{d}:   {h}\n"}


def lines(fmt, data, cuts=(), d="rx", between=""):
    c, out = [0, *cuts, len(data)], ""
    for i, (a, b) in enumerate(zip(c, c[1:])):
        out += (between if i else "") + FMT[fmt](i, d, data[a:b].hex())
    return out


RED = "WF1234G000"
IRED = "SA1234G000"


def carriers(s):
    """Frames carrying the ten bytes (or eight: a tail) ``s`` in every place a frame has one, everything else redacted."""
    ten = s if len(s) == 10 else b"\0\0" + s
    words = [int.from_bytes(ten[i:i + 2], "big") for i in range(0, 10, 2)]
    out = {"hb": w.heartbeat(ten, 3), "adapter": w.read_response(3, 0x11, 0, [1] * 3, ten, IRED), "inverter": w.read_response(4, 0x32, 60, [2] * 3, RED, ten), "write": w.write_response(0x11, 20, 9, RED, ten),
           "err": w.error_response(3, 0x11, 0, 60, RED, ten), "lan": w.lan_config(ten), "req": w.read_request(3, 0x11, 0, 60, ten)}
    for at in (0, 7, 55):
        v = [i + 1 for i in range(60)]
        v[at:at + 5] = words
        out[f"data{at}"] = w.read_response(4, 0x55, 60, v, RED, IRED)
    # a serial whose halves sit apart: only its tail is contiguous
    v = [0] * 60
    v[50:51] = words[:1]; v[55:59] = words[1:]
    out["split"] = w.read_response(4, 0x55, 60, v, RED, IRED)
    return out


CASES = {"full": b"HY2336G705", "unit": b"AA0000A001", "tail": b"2336G705", "nul1": b"SA\x00234G567", "nul2": b"SA\x00\x0034G567", "nulend": b"SA123\x00G567", "nul4": b"SA\0\0\0\0G567", "red": b"HY2336G000", "rtail": b"2336G000", "rnul": b"SA\x00\x0034G000"}


def sh_cuts(t, jobs):
    for case, fmt in jobs:
        s = CASES[case]
        for name, f in carriers(s).items():
            want = {x for _, x in live(f)}
            if case[0] != "r" and name != "split" and not want:
                raise AssertionError("carrier lost the serial")
            if name == "split":
                want = {s[-8:]} if case in ("full", "unit", "tail") else set()
            if case[0] == "r":
                want = set()
            near = {max(1, f.find(s[-3:]) + k) for k in range(-12, 8)}
            for c in [()] + [(a,) for a in range(1, len(f))] + [(a, b) for a in sorted(near) for b in sorted(near) if a < b < len(f)]:
                judge(t, "cut", lines(fmt, f, c, "tx" if name == "req" else "rx"), want, case=case, frame=name, cuts=c, fmt=fmt)
        t.outcome((case, fmt))


def sh_between(t, jobs):
    """Other lines between the two halves of a cut serial: nothing the device sent in between, so it is still there."""
    noise = {"": "", "comment": "# note\n", "blank": "\n", "prose": "Detected model HYBRID\n", "badhex": "2026-01-02T03:04:05+00:00 rx zz\n", "latin": "caf\udce9 \udcff\n", "odd": "2026-01-02T03:04:05+00:00 rx 595\n", "event": "2026-01-02T03:04:05+00:00 connected\n",
             "tx-cli": FMT["cli"](3, "tx", w.read_request(4, 0x11, 0, 60, RED).hex()), "tx-ha": FMT["ha"](3, "tx", w.read_request(4, 0x11, 0, 60, RED).hex())}
    for case, n in jobs:
        s = CASES[case]
        for name, f in carriers(s).items():
            want = {x for _, x in live(f)} if case[0] != "r" else set()
            if name in ("req", "split"):
                continue
            for a in range(1, len(f)):
                for fmt in ("cli", "ha"):
                    judge(t, "between", noise[n] + lines(fmt, f, (a,), "rx", noise[n]) + noise[n], want, case=case, frame=name, cut=a, between=n, fmt=fmt)


def sh_shape(t, jobs):
    """One character of a serial (or two) replaced by each class of other character."""
    sub = [0, 1, 47, 48, 57, 58, 64, 65, 90, 91, 97, 122, 0x2D, 0x20, 0xFF, 0x59]
    for base, at in jobs:
        s = bytearray(base)
        for vals in itertools.product(sub, repeat=len(at)):
            for i, v in zip(at, vals):
                s[i] = v
            f = w.read_response(4, 0x55, 60, [1, 2] + [int.from_bytes(s[i:i + 2], "big") for i in range(0, 10, 2)] + [3], RED, IRED)
            L = live(f)
            want = {x for k, x in L if k == "full"} or {x for k, x in L if k == "nul"} | {x for k, x in L if k == "tail"}
            judge(t, "shape", lines("cli", f), want, base=base, serial=bytes(s))


def sh_all(t, jobs):
    """Many serials in one capture: each one is named."""
    for kind, part in jobs:
        ss = {"unit": [b"SA1234G%03d" % i for i in range(1, 1000)], "prefix": [bytes([65 + i // 26, 65 + i % 26]) + b"1234G567" for i in range(676)], "letter": [b"SA1234%c567" % (65 + i) for i in range(26)],
              "date": [b"SA%04dG567" % i for i in range(part * 1000, part * 1000 + 1000)], "tailunit": [b"1234G%03d" % i for i in range(1, 1000)], "shared": [x for i in range(26) for x in (b"HY%04d%c%d05" % (2300 + i, 65 + i, i % 10), b"%04d%c%d05" % (1100 + i, 65 + i, i % 10))], "shared4": [x for i in range(20) for x in (b"CE2336G7%02d" % i, b"%04dG7%02d" % (2000 + i, i))], "nul": [b"SA" + bytes(0 if m >> k & 1 else 49 + k for k in range(4)) + b"G%03d" % u for m in range(1, 16) for u in (1, 10, 100, 567, 999)]}[kind]
        text = "".join(lines("cli", w.read_response(4, 0x55, 60, [int.from_bytes((s if len(s) == 10 else b"\0\0" + s)[i:i + 2], "big") for i in range(0, 10, 2)], RED, IRED)) for s in ss)
        judge(t, "all", text, set(ss), kind=kind)
        if kind in ("prefix", "date", "letter"):
            judge(t, "all-redacted", "".join(lines("ha", w.read_response(4, 0x55, 60, [int.from_bytes((x[:-3] + b"000")[i:i + 2], "big") for i in range(0, 10, 2)], RED, IRED)) for x in ss), set(), kind=kind)


def sh_pairs(t, jobs):
    """Two serials side by side, a live and a redacted one in either order, and a serial with its own tail elsewhere."""
    gap = {"0": b"", "nul": b"\0\0", "x": b"\x01\x02"}
    for a, b in jobs:
        for g in gap.values():
            raw = CASES[a] + g + CASES[b]
            raw += b"\0" * (len(raw) % 2)
            f = w.read_response(4, 0x55, 60, [int.from_bytes(raw[i:i + 2], "big") for i in range(0, len(raw), 2)], RED, IRED)
            want = {CASES[x] for x in (a, b) if x[0] != "r"}
            judge(t, "pair", lines("cli", f), want, a=a, b=b, gap=g)
            judge(t, "pair-lines", "".join(lines("ha", x) for k in (a, b) for x in [carriers(CASES[k])["data7"]]), want, a=a, b=b)
            judge(t, "pair-dirs", lines("cli", carriers(CASES[a])["data7"]) + lines("cli", carriers(CASES[b])["req"], d="tx"), want, a=a, b=b)


def sh_main(t, jobs):
    """The command: exit status and report over every list of files."""
    texts = {"clean": lines("cli", carriers(CASES["red"])["data7"]), "leak": lines("cli", carriers(CASES["full"])["data7"]), "tail": lines("ha", carriers(CASES["tail"])["data0"]), "empty": "", "gone": None}
    for combo in jobs:
        files = []
        for i, k in enumerate(combo):
            p = os.path.join(os.environ["R03_SCRATCH"], f"{os.getpid()}-{i}-{k}.txt")
            if os.path.exists(p):
                os.unlink(p)
            if texts[k] is not None:
                with open(p, "w") as f:
                    f.write(texts[k])
            files.append(p)
        old, out = sys.argv, io.StringIO()
        sys.argv = ["scan", *files]
        try:
            with contextlib.redirect_stdout(out):
                rc = G["main"]()
        finally:
            sys.argv = old
        t.add("states"); t.add("transitions", len(combo))
        want = 2 if all(k == "gone" for k in combo) else 1 if {"leak", "tail"} & set(combo) else 0
        t.outcome((combo, rc))
        if rc != want:
            t.violation("exit-status", files=combo, got=rc, want=want, out=out.getvalue())
        o = out.getvalue().splitlines()
        for p, k in zip(files, combo):
            if k != "gone" and any(p in x and x.startswith("LEAK") for x in o) != (k in ("leak", "tail")):
                t.violation("report", files=combo, file=k, out=o)


def sh_session(t, jobs):
    for spec, size in jobs:
        dev, rec, res, lp = R01.session(spec, size)
        t.add("states"); t.add("transitions", lp.steps)
        if isinstance(res, BaseException) or any(k != "ok" for k in res[0]):
            t.violation("session-failed", result=repr(res)[:300], plant=spec.key()); continue
        raw = b"".join(x for conn in dev.net.conns for _, x in conn.delivered)
        step = size or 61
        cuts = lambda b: tuple(range(step, len(b), step))
        judge(t, "redacted-recording", lines("cli", rec["rx"], cuts(rec["rx"])) + lines("cli", rec["tx"], cuts(rec["tx"]), "tx"), set(), plant=spec.key())
        judge(t, "raw-recording", lines("ha", raw, cuts(raw)), {s for k, s in live(raw) if k == "full"}, plant=spec.key())
        t.outcome(spec.key())


def main():
    c = Check("R03", "model_checking")
    os.environ["R03_SCRATCH"] = d = tempfile.mkdtemp(prefix="r03-")
    try:
        c.run(sh_cuts, split([(k, f) for k in CASES for f in (FMT if not c.quick else ("cli", "ha"))] + [(k, f) for k in ("full", "red") for f in FMT], 40))
        ns = ("", "comment", "blank", "prose", "badhex", "latin", "odd", "event", "tx-cli", "tx-ha")
        c.run(sh_between, split([(k, n) for k in CASES for n in ns], 48))
        bases = [b"HY2336G705", b"HY2336G000", b"\0\x002336G705", b"SA\x00\x0034G567"]
        c.run(sh_shape, split([(b, at) for b in bases for n in (1, 2) for at in itertools.combinations(range(10), n)], 64))
        c.run(sh_all, split([("unit", 0), ("prefix", 0), ("letter", 0), ("tailunit", 0), ("nul", 0), ("shared", 0), ("shared4", 0)] + [("date", i) for i in range(10)], 15))
        c.run(sh_pairs, split(list(itertools.product(CASES, repeat=2)), 16))
        c.run(sh_main, split([x for n in range(1, c.pick(4, 6)) for x in itertools.product(("clean", "leak", "tail", "empty", "gone"), repeat=n)], 16))
        specs = list(plants.SPECS.values()) if c.quick else plants.family("small")[::9]
        c.run(sh_session, split([(s, z) for s in specs for z in (None, 7)], 64))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.assumptions = ["Serial-shaped matches that overlap one another are not judged (only the text planted, or a non-overlapping one)."]
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
