"""T02: reading a capture back gives the plant that produced it, in either line format, however the stream was cut, rotated or decorated."""
import asyncio, os, sys, itertools, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, plants, ps, batt, vloop, fr
from mc import wire as w
from mc.report import Check, split
from mc.cl import Plant, Device, client, caches, outcome
from mc.plants import Spec
import givenergy_modbus.testing.mock_plant as mp
from givenergy_modbus import pdu as P

vloop.patch_clock()


def scratch():
    return os.environ["T02_SCRATCH"]


def write(name, text):
    p = os.path.join(scratch(), f"{name}-{os.getpid()}.log")
    with open(p, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    return p


def image(p):
    return (caches(p), p.inverter_serial_number, p.data_adapter_serial_number)


def reference(frames):
    """The plant after receiving these frames, through the client's own decoder."""
    p = Plant()
    f = fr.ClientFramer()
    for x in frames:
        for m in fr.feed(f, x):
            if fr.is_msg(m):
                p.update(m)
    return p


def frames():
    A, G = 0x32, batt.frame(0x32)
    B = plants.banks(plants.SPECS["hybrid2"])

    def blk(d, k, b, n):
        return w.read_response(ps.FC[k], d, b, [B[d].get(k, {}).get(b + i, 0) for i in range(n)])
    return {"hr": blk(0x11, "HR", 0, 60), "ir": blk(0x11, "IR", 0, 60), "b": w.read_response(4, A, 60, G), "b1": w.read_response(4, A, 60, batt.frame(A, 1)),
            "m": blk(1, "IR", 60, 30), "mr": w.read_response(0x16, 1, 60, [1, 2, 3]), "short": w.read_response(4, 0x11, 200, [5, 0xFFFF, 0x5959, 0x0001 + 1]), "w": w.write_response(0x11, 20, 9),
            "err": w.error_response(4, 0x11, 60, 60), "null": w.null_response(), "hb": w.heartbeat(), "lan": w.lan_config(), "crc": w.read_response(3, 0x11, 0, [9] * 60, crc=0x1111),
            "hr2": w.read_response(3, 0x11, 0, [1, 2, 3]), "ser2": w.read_response(4, 0x11, 230, [1], adapter="WF9999G999", inverter="SA9999G999")}


F = frames()
TX = w.read_request(3, 0x11, 0, 60)


def ts(i):
    return f"2026-01-02T03:{i // 60:02d}:{i % 60:02d}.{(i * 7919) % 1000000:06d}"


def line(fmt, i, b):
    h = b.hex()
    return {"ts": f"{ts(i)} rx {h}", "ts:": f"{ts(i)} rx: {h}", "bare": f"rx: {h}", "bare2": f"rx {h}", "upper": f"{ts(i)}+00:00 RX {h.upper()}", "indent": f"   rx:   {h}  ", "tab": f"{ts(i)}\trx\t{h}"}[fmt]


def deco(kind, i):
    """Lines that must not change the outcome."""
    t = ts(i)
    return {"tx": [f"{t} tx {TX.hex()}"], "txbare": [f"tx: {F['short'].hex()}"], "blank": ["", "   "], "text": ["# capture of a plant", "connected to 10.0.0.1", "rx"], "badhex": [f"{t} rx zz{F['hr'].hex()}", "rx: 123"],
            "other": [f"{t} info {F['short'].hex()}", f"{t} rxx {F['short'].hex()}"], "": []}[kind]


def check(t, what, paths, frs, **ctx):
    want = image(reference(frs))
    try:
        got = image(mp.plant_from_capture(*paths))
    except Exception as e:
        got = repr(e)
    t.add("states"); t.add("transitions", len(frs))
    if got != want:
        d = got if isinstance(got, str) else [(hex(a), k, got[0].get(a, {}).get(k), want[0].get(a, {}).get(k)) for a in set(got[0]) | set(want[0]) for k in set(got[0].get(a, {})) | set(want[0].get(a, {})) if got[0].get(a, {}).get(k) != want[0].get(a, {}).get(k)][:4] or (got[1:], want[1:])
        t.violation(what, differing=d, **ctx)
        return False
    t.outcome((what, len(frs)))
    return True


def cutting(t, shard, names=()):
    """Every cutting of the stream into lines, in every line format, with other lines in between."""
    frs = [F[n] for n in names]
    raw = b"".join(frs)
    for cuts, fmt, dec, eol in shard:
        p = [0, *cuts, len(raw)]
        lines = []
        for i, (a, b) in enumerate(zip(p, p[1:])):
            lines += deco(dec, i)
            lines.append(line(fmt, i, raw[a:b]))
        lines += deco(dec, len(p))
        path = write("cut", eol.join(lines) + eol)
        if not check(t, "cut-capture", [path], frs, frames=names, cuts=cuts, format=fmt, between=dec, newline=repr(eol)) and t.full:
            return


def sequences(t, shard):
    """Every sequence of frame kinds to a depth, one line per frame."""
    for seq in shard:
        frs = [F[n] for n in seq]
        path = write("seq", "\n".join(line("ts", i, f) for i, f in enumerate(frs)))
        if not check(t, "sequence", [path], frs, frames=seq) and t.full:
            return


def ordering(t, shard, names=()):
    """Lines in any order within and across files: the stream is put back in time order; undated lines keep the order written."""
    frs = [F[n] for n in names]
    raw = b"".join(frs)
    k = len(raw) // 5
    parts = [raw[i * k:(i + 1) * k] for i in range(4)] + [raw[4 * k:]]
    for perm, where, dated in shard:
        if dated:
            files = [[], []]
            for i in perm:
                files[where[i]].append(line("ts", i, parts[i]))
            exp = frs
        else:
            files = [[line("bare", i, parts[i]) for i in range(5) if not where[i]], [line("bare", i, parts[i]) for i in range(5) if where[i]]]
            if where != tuple(sorted(where)):
                continue
            exp = frs
        paths = [write(f"{9 - j}o{j}", "\n".join(f) + "\n") for j, f in enumerate(files) if f]
        if not check(t, "reordered", paths, exp, order=perm, files=where, dated=dated) and t.full:
            return
    # equal stamps keep the order written
    path = write("same", "\n".join(f"{ts(1)} rx {x.hex()}" for x in parts))
    check(t, "equal-stamps", [path], frs)


def noise(t, shard, names=()):
    """Bytes that are no frame between frames, and a cut-off end at every byte."""
    frs = [F[n] for n in names]
    for kind, arg in shard:
        if kind == "between":
            raw = arg + arg.join(frs) + arg
            path = write("noise", line("ts", 0, raw))
            check(t, "noise-between", [path], frs, noise=arg)
        else:
            raw = b"".join(frs)[:arg]
            whole, n = [], 0
            for f in frs:
                n += len(f)
                if n <= arg:
                    whole.append(f)
            path = write("cutoff", line("ts", 0, raw) + "\n")
            if whole:
                check(t, "cut-off", [path], whole, length=arg)
        if t.full:
            return


def empty(t, shard):
    """A capture in which nothing can be read is refused, never served as an empty plant."""
    for label, text in shard:
        path = write("none", text)
        try:
            p = mp.plant_from_capture(path)
            t.violation("unreadable-capture-accepted", capture=label, devices=sorted(p.register_caches))
        except ValueError:
            pass
        except Exception as e:
            t.violation("unreadable-capture-crashed", capture=label, error=repr(e))
        try:
            m = mp.MockPlant.from_capture(path)
            t.violation("unreadable-capture-served", capture=label)
        except ValueError:
            pass
        except Exception as e:
            t.violation("unreadable-capture-crashed", capture=label, error=repr(e))
        t.add("states"); t.add("transitions", 2)
        t.outcome(label)


def empties():
    h = F["hr"].hex()
    yield "empty", ""
    yield "blank", "\n\n  \n"
    yield "only tx", f"{ts(1)} tx {h}\ntx: {h}\n"
    yield "wrong direction word", f"{ts(1)} recv {h}\n"
    yield "bare hex", h + "\n"
    yield "direction last", f"{h} rx\n"
    yield "noise", f"{ts(1)} rx 00112233445566778899\n"
    yield "half a frame", f"{ts(1)} rx {h[:len(h) // 4 * 2]}\n"
    yield "not hex", f"{ts(1)} rx hello\n"
    yield "json", '{"rx": "' + h + '"}\n'


# -- a live session written down and read back -------------------------------------------
def live(t, shard):
    """The recording of a whole session of every plant, in each format, read back gives the same (redacted) plant."""
    for i, spec in shard:
        dev = Device(**plants.tables(spec), latency=0.02, script=plants.absent_script(spec))
        log, rec = [], {}

        async def main(loop):
            c = client(tx_message_wait=0.01, tx_jitter=0)
            await c.connect()
            task = asyncio.ensure_future(c.capture_frames(lambda d, b: log.append((loop.time(), d, bytes(b))), duration=3000))
            await asyncio.sleep(0)
            await c.detect(timeout=0.5, retries=0, probe_timeout=0.1, probe_retries=0)
            await c.load_config(timeout=0.5, retries=0)
            for _ in range(2):
                await c.refresh(timeout=0.5, retries=0)
                await asyncio.sleep(5)
            task.cancel()
            await asyncio.gather(task, return_exceptions=True)
            r = c.plant.redact()
            rec["want"] = {a: x for a, x in caches(r).items() if x}
            rec["topo"] = plants.topo(c.plant.capabilities)
            await c.close()
            return True
        res, loop = vloop.run(main, dev.net, horizon=90000)
        t.add("states"); t.add("transitions", loop.steps)
        if res is not True:
            t.violation("session-failed", plant=repr(spec), result=repr(res)); continue
        for fmt in ("ts", "bare"):
            text = "".join((f"{vloop.vdt(at).isoformat(timespec='microseconds')} {d} {b.hex()}\n" if fmt == "ts" else f"{d}: {b.hex()}\n") for at, d, b in log)
            path = write("live", text)
            before = open(path, "rb").read()
            p = mp.plant_from_capture(path)
            got = {a: x for a, x in caches(p).items() if x}
            if got != rec["want"]:
                bad = [(hex(a), k, got.get(a, {}).get(k), rec["want"].get(a, {}).get(k)) for a in set(got) | set(rec["want"]) for k in set(got.get(a, {})) | set(rec["want"].get(a, {})) if got.get(a, {}).get(k) != rec["want"].get(a, {}).get(k)]
                t.violation("recording-read-back", plant=repr(spec), format=fmt, differing=bad[:4])
            q = Plant.from_caches(p.register_caches)
            if q.capabilities is None or plants.topo(q.capabilities) != rec["topo"]:
                t.violation("recording-other-plant", plant=repr(spec), format=fmt, got=None if q.capabilities is None else plants.topo(q.capabilities), want=rec["topo"])
            m = mp.MockPlant.from_capture(path)
            if open(path, "rb").read() != before:
                t.violation("capture-file-changed", plant=repr(spec))
            distinct(t, p, m, plant=repr(spec))
        t.outcome((spec.model, len(log)))
        t.sample({"plant": repr(spec), "frames": len(log)}, 1)
        if t.full:
            return


# -- serials of replayed instances --------------------------------------------------------
def text_of(c, kind, regs):
    v = [c.get((kind, r)) for r in regs]
    if None in v:
        return None
    return b"".join(x.to_bytes(2, "big") for x in v)


def shown(b):
    s = b.decode("latin1").replace("\0", "").strip().upper() if b is not None else ""
    return s or None


def distinct(t, p, m, **ctx):
    """Served registers equal the capture's, except that colliding serials of like devices become distinct."""
    a = {d: dict(c) for d, c in caches(p).items()}
    b = {d: {(type(k).__name__, k._idx): v for k, v in dict(c).items()} for d, c in m.devices.items()}
    groups = {"packs": [(d, tuple(range(110, 115))) for d in sorted(a) if (0x32 if 0x11 in a or 0x31 in a else 0x33) <= d <= 0x37], "modules": [(d, tuple(range(114, 119))) for d in sorted(a) if 0x50 <= d <= 0x6F],
              "managed": [(0x11, tuple(range(2066 + 5 * k, 2071 + 5 * k))) for k in range(4)] if 0x11 in a else []}
    own = set()
    for g, members in groups.items():
        have = [(d, r, text_of(a.get(d, {}), "IR", r)) for d, r in members]
        pop = [(d, r, shown(x), x) for d, r, x in have if shown(x)]
        now = [shown(text_of(b.get(d, {}), "IR", r)) for d, r, _, _ in pop]
        if len({s for _, _, s, _ in pop}) == len(pop):
            continue  # nothing collides: everything must be untouched (checked below)
        for d, r, _, _ in pop:
            own |= {(d, ("IR", x)) for x in r}
        if len(set(now)) != len(now):
            t.violation("serials-still-collide", group=g, before=[s for _, _, s, _ in pop], after=now, **ctx)
        for (d, r, s, raw), n in zip(pop, now):
            if n is None or len(n) != len(s) or n[:-2] != s[:-2]:
                t.violation("serial-prefix-lost", group=g, device=hex(d), before=s, after=n, **ctx)
    ch = [(hex(d), k, a.get(d, {}).get(k), b.get(d, {}).get(k)) for d in set(a) | set(b) for k in set(a.get(d, {})) | set(b.get(d, {})) if a.get(d, {}).get(k) != b.get(d, {}).get(k) and (d, k) not in own]
    if ch:
        t.violation("served-register-changed", differing=ch[:4], **ctx)
    if p.inverter_serial_number and m.inverter_serial != p.inverter_serial_number or m.adapter_serial != p.data_adapter_serial_number:
        t.violation("served-header-serial", **ctx)


SYM = {"a": "BA2150G000", "b": "BA2150G001", "c": "CE9999Z000", "33": "BA2150G033", "1": "BA2150G001", "02": "BA2150G002", "-": None}


def collisions(t, shard):
    """Every pattern of equal, different and missing serials over the instances of a kind."""
    for kind, pattern, base in shard:
        out = []
        B = plants.banks(plants.SPECS["hybrid2"])
        if base:
            out += [w.read_response(3, 0x11, 0, [B[0x11]["HR"][i] for i in range(60)])]
        if kind == "packs":
            start = 0x32
            for k, s in enumerate(pattern):
                if SYM[s] is None:
                    continue
                f = batt.frame(start + k, serial=SYM[s])
                out += [w.read_response(4, start + k, 60, f)] * 2
        elif kind == "modules":
            for k, s in enumerate(pattern):
                tab = plants.module_regs(0x50 + k)
                for i, x in enumerate(w.serial_regs(SYM[s]) if SYM[s] else [0] * 5):
                    tab[114 + i] = x
                out.append(w.read_response(4, 0x50 + k, 60, [tab[60 + i] for i in range(60)]))
        else:
            v = [7] * 20
            for k, s in enumerate(pattern):
                v[5 * k:5 * k + 5] = w.serial_regs(SYM[s]) if SYM[s] else [0x2020 if len(pattern) % 2 else 0] * 5
            out.append(w.read_response(4, 0x11, 2066, v[:5 * len(pattern)]))
        if not out:
            continue
        path = write("coll", "".join(line("ts", i, x) + "\n" for i, x in enumerate(out)))
        p = mp.plant_from_capture(path)
        m = mp.MockPlant.from_capture(path)
        distinct(t, p, m, kind=kind, pattern=pattern, inverter=base)
        t.add("states"); t.add("transitions", len(out))
        t.outcome((kind, len(set(pattern))))
        if t.full:
            return


def main():
    c = Check("T02", "model_checking")
    with tempfile.TemporaryDirectory(prefix="t02-") as d:
        os.environ["T02_SCRATCH"] = d
        run(c)


def run(c):
    fmts = ("ts", "ts:", "bare", "bare2", "upper", "indent", "tab")
    decs = ("", "tx", "txbare", "blank", "text", "badhex", "other")
    names = ("hr2", "short", "err", "w")
    n = sum(len(F[x]) for x in names)
    jobs = [((i,), f, d, "\n") for i in range(1, n) for f in fmts for d in c.pick(("", "tx"), decs)]
    jobs += [((i, j), f, d, "\n") for i in range(1, n, c.pick(5, 1)) for j in range(i + 1, n, c.pick(7, 2)) for f, d in (("ts", "tx"), ("bare", "txbare"))]
    jobs += [(tuple(range(1, n)), f, d, e) for f in fmts for d in decs for e in ("\n", "\r\n")]
    jobs += [((40, 90), f, d, e) for f in fmts for d in decs for e in ("\n", "\r\n")]
    c.run(cutting, split(jobs, 48), names=names)
    k = list(F)
    seqs = [s for r in range(1, c.pick(3, 4)) for s in itertools.product(k, repeat=r)]
    seqs += [("hr", "b", "b", x, y) for x in k for y in k]
    c.run(sequences, split(seqs, 48))
    on = ("hr", "short", "w", "b", "hr2", "b1")
    perms = list(itertools.permutations(range(5)))
    jobs = [(p, wh, True) for p in perms for wh in (itertools.product((0, 1), repeat=5) if not c.quick else ((0, 0, 0, 0, 0), (0, 1, 0, 1, 0), (1, 1, 0, 0, 1)))]
    jobs += [(perms[0], wh, False) for wh in itertools.product((0, 1), repeat=5)]
    c.run(ordering, split(jobs, 32), names=on)
    nz = [b"", b"\0", b"Y", b"YY", b"\x59\x59\0", b"\x00\x01", b"\x59\x59\x00\x01\x00\x05", b"\x59\x59\x00\x01\x00\x0b\x01", b"\x59\x59\x00\x01\x00\x00", b"noise", bytes(range(256))]
    c.run(noise, split([("between", x) for x in nz] + [("cut", i) for i in range(1, sum(len(F[x]) for x in on) + 1)], 16), names=on)
    c.run(empty, split(list(empties()), 2))
    fam = list(enumerate(plants.family("small")))
    c.run(live, split([x for x in fam if x[0] % c.pick(3, 1) == 0], 64))
    jobs = [(kind, p, b) for kind, mx in (("packs", 6), ("modules", 6), ("managed", 4)) for r in range(1, mx + 1) for p in itertools.product(("a", "b", "33", "-") if r > 4 else ("a", "b", "c", "33", "02", "-"), repeat=r) for b in (True, False)
            if r <= c.pick(3, 6) or kind == "managed" and (not c.quick or p[0] in "ab-")]
    for kind, mx in (("packs", 6), ("modules", 32)):
        for r in range(1, mx + 1):
            jobs += [(kind, tuple(f(i) for i in range(r)), b) for b in (True, False) for f in (lambda i: "a", lambda i: "ab"[i % 2], lambda i: "a-"[i % 2], lambda i: "a" if i in (0, r - 1) else "-")]
    c.run(collisions, split(jobs, 64))
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
