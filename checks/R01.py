"""R01: every frame kind x serial position x serial shape, every chunking and every noise context through the real FrameRedactor, plus whole recorded sessions of the real client.

Oracle: an independent byte-level redactor written from the documented wire layout and
the documented serial registers.
"""
import asyncio, itertools, os, re, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop, plants, fr
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, caches, outcome, Plant
from givenergy_modbus.client.client import FrameRedactor
from givenergy_modbus.framer import ClientFramer, ServerFramer
from givenergy_modbus import pdu as P

# where a serial can be: (register type, first register); five registers each
GROUPS = ([("HR", 8), ("HR", 13), ("IR", 110), ("IR", 138)] + [("IR", 114 + 120 * k) for k in range(8)]
          + [("IR", 1627), ("IR", 1841), ("IR", 1846), ("IR", 1848), ("IR", 1851), ("IR", 1855)] + [("IR", 2066 + 5 * m) for m in range(4)])
FC = {"HR": 3, "IR": 4, "MR": 0x16}
STD, EMS_ = re.compile(rb"[A-Z]{2}\d{4}[A-Z]\d{3}"), re.compile(rb"[A-Z]{3}\d{7}")
SHAPES = ["SA1234G567", "AA0000A001", "ZZ9999Z999", "HC2414G321", "EMS2231456", "AAA0000001", "ZZZ9999999", "WF9999A010"]
ODD = [b"SA1234\x00567", b"\x00" * 10, b"sa1234g567", b"SA12345678", b"1234567890", b"AB\xff\xfe34G567", b"SA1234G56\x00", b" A1234G567"]


def red(s: bytes):
    """Documented redaction of a recognised serial, else None."""
    if STD.fullmatch(s) or EMS_.fullmatch(s):
        return s[:-3] + b"000"
    return None


def expect(f: bytes, groups=(), keep_crc=False):
    """The redacted form of frame ``f``: envelope serials, then the given payload serial registers, check recomputed."""
    f = bytearray(f)

    def env_(lo):
        s = bytes(f[lo:lo + 10])
        r = red(s)
        f[lo:lo + 10] = r if r is not None else b"*" * 10
    env_(8)
    if f[7] == 2 and len(f) > 36:
        env_(28)
    if groups:
        base = int.from_bytes(f[38:40], "big")
        for g, n in groups:
            lo = 42 + 2 * (g - base)
            s = bytes(f[lo:lo + 2 * n])
            if n == 2:
                f[lo:lo + 4] = b"\0\0\0\0"
            elif red(s) is not None:
                f[lo:lo + 10] = red(s)
    if f[7] == 2 and not keep_crc:
        f[-2:] = struct.pack("<H", w.crc16(bytes(f[26:-2])))
    return bytes(f)


def one(f, direction="rx"):
    r = FrameRedactor(direction)
    return r.feed(f) + r.flush()


def check(t, what, got, want, leaks=(), **ctx):
    t.add("states"); t.add("transitions", len(want))
    for x in leaks:
        if x in got:
            t.violation("leak:" + what, leaked=x, got=got, **ctx)
    if got != want:
        t.violation("altered:" + what, got=got, want=want, **ctx)


def seq(n, salt=1):
    return [(i * 7 + salt) % 250 + 1 for i in range(n)]


def put(vals, base, g, s):
    b = s.encode() if isinstance(s, str) else s
    for i in range(5):
        vals[g - base + i] = int.from_bytes(b[2 * i:2 * i + 2], "big")


# ---- one frame ------------------------------------------------------------------------
def sh_payload(t, jobs):
    """(kind, first register): a read whose window holds the serial, at every offset and window size."""
    for kind, g, s, size in jobs:
        for off in range(0, size - 4):
            base = g - off
            if base < 0:
                continue
            vals = seq(size)
            put(vals, base, g, s)
            inside = [(x, 5) for k, x in GROUPS if k == kind and x >= base and x + 5 <= base + size]
            for dev in (0x11, 0x32) if off == 0 else (0x11,):
                f = w.read_response(FC[kind], dev, base, vals)
                check(t, "payload", one(f), expect(f, inside), [s.encode(), b"WF1234G567", b"SA1234G567"], kind=kind, reg=g, base=base, count=size, serial=s)
        if t.full:
            return


def sh_pairs(t, jobs):
    """Two different serials in one window (adjacent EMS serials, inverter and legacy serial, ...)."""
    for kind, a, b, s1, s2 in jobs:
        base = a
        size = b + 5 - a
        vals = seq(size)
        put(vals, base, a, s1); put(vals, base, b, s2)
        f = w.read_response(FC[kind], 0x11, base, vals)
        check(t, "pair", one(f), expect(f, [(a, 5), (b, 5)]), [s1.encode(), s2.encode()], kind=kind, a=a, b=b)


def sh_env(t, jobs):
    for s1, s2 in jobs:
        s1, s2 = (x.encode() if isinstance(x, str) else x for x in (s1, s2))
        L = [x for x in (s1, s2) if x != red(x) and x.strip(b"\0")]
        fs = {"hb": w.heartbeat(s1, 3), "null": w.transparent(struct.pack(">BB", 0x32, 0) + s2 + b"\0" * 124, s1),
              "err": w.error_response(3, 0x11, 0, 60, s1, s2), "err_ir": w.error_response(4, 0x70, 60, 60, s1, s2), "err_mr": w.error_response(0x16, 1, 60, 9, s1, s2),
              "wr": w.write_response(0x11, 96, 7, s1, s2), "wr_err": w.write_response(0x11, 96, 7, s1, s2, error=True)}
        for fc in (3, 4, 0x16):
            for n in (1, 2, 60):
                fs[f"read{fc}/{n}"] = w.read_response(fc, 0x11, 120 if fc != 0x16 else 70, seq(n), s1, s2)
        for k, f in fs.items():
            check(t, "envelope-rx", one(f), expect(f), [x for x in L if not (k == "hb" and x == s2)], frame=k, adapter=s1, inverter=s2)
        for n in (1, 2, 60):
            for fc in (3, 4):
                for bad in (0, 0xFFFF, 0x1234):
                    f = w.read_response(fc, 0x11, 120, seq(n), s1, s2, crc=bad)
                    check(t, "damaged", one(f), expect(f, keep_crc=True), L, adapter=s1, inverter=s2, crc=bad)
        f = w.write_response(0x11, 96, 7, s1, s2)[:-2] + b"\x12\x34"
        check(t, "damaged-write", one(f), expect(f, keep_crc=True), L)
        for text in (b",192.168.1.7,255.255.255.0,192.168.1.1\r\n\r\n", b",10.0.0.1,255.0.0.0,10.0.0.254\r\n\r\n"):
            f = w.lan_config(s1, text)
            want = bytearray(expect(f[:20], keep_crc=True)[:18] + f[18:])
            want[25:-2] = re.sub(rb"\d", b"0", bytes(want[25:-2]))
            check(t, "lan", one(f), bytes(want), [x for x in L if x == s1] + [text[1:10]], adapter=s1)
        tx = {"hb": w.heartbeat(s1, 2), "wr": w.write_request(0x11, 96, 7, s1)}
        for fc in (3, 4, 0x16):
            tx[f"read{fc}"] = w.read_request(fc, 0x32, 60, 60, s1)
        for k, f in tx.items():
            want = bytearray(f)
            want[8:18] = red(s1) if red(s1) is not None else b"*" * 10
            check(t, "envelope-tx", one(f, "tx"), bytes(want), [x for x in L if x == s1], frame=k, adapter=s1)


def sh_meter(t, jobs):
    for base, n in jobs:
        for v in ((0x5A31, 0x3233), (1, 2), (0xFFFF, 0xFFFF)):
            vals = seq(n)
            for r in (60, 61):
                if base <= r < base + n:
                    vals[r - base] = v[r - 60]
            f = w.read_response(0x16, 1, base, vals)
            want = bytearray(expect(f))
            for r in (60, 61):
                if base <= r < base + n:
                    want[42 + 2 * (r - base):44 + 2 * (r - base)] = b"\0\0"
            want[-2:] = struct.pack("<H", w.crc16(bytes(want[26:-2])))
            check(t, "meter", one(f), bytes(want), base=base, count=n)


def sh_values(t, jobs):
    """Ordinary values everywhere are untouched: every register window, three value patterns."""
    for kind, base in jobs:
        for n in (1, 60):
            for pat in (seq(n, 3), [0xFFFF] * n, [0] * n, [0x4141 + i for i in range(n)]):
                f = w.read_response(FC[kind], 0x11, base, pat)
                inside = []
                if kind == "MR":
                    continue
                check(t, "values", one(f), expect(f, inside), kind=kind, base=base, count=n)


# ---- streams --------------------------------------------------------------------------
def frames():
    A, I = w.ADAPTER, w.INVERTER
    v = seq(60); put(v, 60, 110, "BA2100G011")
    h = seq(20); put(h, 0, 8, "HC1234G567"); put(h, 0, 13, "SA1234G567")
    return {"hb": (w.heartbeat(A, 3), []), "ir": (w.read_response(4, 0x32, 60, v), [(110, 5)]), "hr": (w.read_response(3, 0x11, 0, h), [(8, 5), (13, 5)]),
            "err": (w.error_response(3, 0x11, 0, 60), []), "wr": (w.write_response(0x11, 96, 7), []), "null": (w.null_response(), []),
            "mr": (w.read_response(0x16, 1, 60, [0x5A31, 0x3233, 3]), [(60, 2)]),
            "tricky": (w.read_response(4, 0x33, 0x5959, [0x5959, 0x0001, 0x5900, 0x0159, 0x5959]), [])}


M = w.MARK
NOISE = {"": b"", "b": b"\x00", "g": b"garbage\xff", "mp": M[:1], "m3": M[:3], "mark": M, "m4": M + b"\x00", "hb-cut": w.heartbeat("AB0000G000", 1)[:8], "cut15": M + b"\x00\x20\x01\x02" + b"AB0000G",
         "cut17": M + b"\x00\x20\x01\x02" + b"AB0000G00", "long": M + b"\xff\xff\x01\x02", "len301": M + b"\x01\x2d\x01\x02" + b"x" * 12, "uid": M + b"\x00\x1e\x05\x02" + b"x" * 12,
         "fid": M + b"\x00\x1e\x01\x07" + b"x" * 12, "fid18": M + b"\x00\x1e\x01\x07" + b"x" * 18, "uidlong": M + b"\x01\x00\x02\x01" + b"y" * 20, "mm": M + M}
LEAKS = [b"WF1234G567", b"SA1234G567", b"HC1234G567", b"BA2100G011", b"Z123", b"WO1234G567"]


def chunked(data, cuts, direction="rx"):
    r, out, lo = FrameRedactor(direction), b"", 0
    for hi in list(cuts) + [len(data)]:
        out += r.feed(data[lo:hi]); lo = hi
    return out + r.flush()


def decoded(data, server=False):
    return [fr.fp(m) for m in fr.feed(ServerFramer() if server else ClientFramer(), data)]


def strip(fp):
    """A decoded message with its identifying fields removed."""
    return (fp[0], tuple((k, v) for k, v in fp[1] if k not in ("data_adapter_serial_number", "inverter_serial_number", "check", "raw_frame", "ip", "netmask", "gateway"))) if fp[0] != "error" else fp


def sh_stream(t, jobs, depth):
    F = frames()
    for names in jobs:
        raw, want, skipped = b"", b"", False
        for n in names:
            if n in F:
                f, g = F[n]
                raw += f; want += expect(f, g)
            else:
                raw += NOISE[n[1:]]; want += NOISE[n[1:]]
        frames_in = sum(1 for n in names if n in F)
        marked = any(w.MARK[:3] in NOISE[n[1:]] for n in names if n not in F)
        live = None
        L = len(raw)
        if depth == 1:
            cuts = [()] + [(a,) for a in range(1, L)]
        elif depth == 2:
            cuts = itertools.combinations(range(1, L), 2)
        else:
            cuts = [tuple(range(k, L, k)) for k in range(1, depth)]
        for c in cuts:
            got = chunked(raw, c)
            t.add("states"); t.add("transitions", len(c) + 1)
            if live is None or marked:
                # how a marker-bearing fragment is resynchronised may depend on the chunking: judge against the client's own decoder, fed alike
                live, k, lo = [], ClientFramer(), 0
                for hi in list(c) + [L]:
                    live += fr.feed(k, raw[lo:hi]); lo = hi
                ok = sum(1 for m in live if fr.is_msg(m)) == frames_in and [m.raw_frame for m in live if fr.is_msg(m)] == [F[n][0] for n in names if n in F]
            if ok:
                if got != want:
                    t.violation("stream-altered", frames=names, cuts=c, got=got, want=want)
                for s in LEAKS:
                    if s in got:
                        t.violation("stream-leak", frames=names, cuts=c, serial=s)
                t.add("whole")
            else:
                # the noise takes a frame with it: judge what the client itself decoded
                if len(got) != L:
                    t.violation("stream-length", frames=names, cuts=c)
                for m in live:
                    if fr.is_msg(m) and m.raw_frame in got and any(x in m.raw_frame for x in LEAKS):
                        t.violation("stream-frame-unredacted", frames=names, cuts=c)
        t.outcome(names)
        if t.full:
            return


def sh_tx(t, jobs):
    F = [w.heartbeat("WF1234G567", 2), w.read_request(3, 0x11, 0, 60, "WF1234G567"), w.write_request(0x11, 96, 1, "WO1234G567"), w.read_request(0x16, 1, 60, 9, "SA1234G567")]
    for combo in jobs:
        raw = b"".join(F[i] for i in combo)
        want = b"".join(F[i][:15] + b"000" + F[i][18:] for i in combo)
        for c in [()] + list(itertools.combinations(range(1, len(raw)), 2)):
            check(t, "tx-stream", chunked(raw, c, "tx"), want, LEAKS, frames=combo, cuts=c)


# ---- whole sessions -------------------------------------------------------------------
SER = re.compile(rb"[A-Z]{2}\d{4}[A-Z](?!000)\d{3}|[A-Z]{3}\d{4}(?!000)\d{3}")


def session(spec, size, inner=None):
    """Detect, load and poll one plant while recording everything; the device sends its bytes in ``size``-byte pieces."""
    dev = Device(**plants.tables(spec), latency=0.01)

    def script(i, r):
        if r["kind"] == "heartbeat":
            return []
        a = plants.absent_script(spec)(i, r)
        data = a[0][1] if a else dev.answer(r)
        if data is None:
            return []
        if size is None:
            return [(0.01, data)]

        def go(conn):
            for j in range(0, len(data), size):
                conn.loop.call_later(0.00001 * j, conn.send, data[j:j + size])
        return [(0.01, go)]
    dev.script = script
    rec = {"rx": b"", "tx": b""}

    async def main(loop):
        c = client(tx_message_wait=0.01, tx_jitter=0)
        await c.connect()
        def sink(d, b):
            rec[d] += bytes(b)
        cap = asyncio.ensure_future(c.capture_frames(sink, duration=100000))
        await asyncio.sleep(0.001)
        dev.net.conns[0].send(w.lan_config() + w.heartbeat(w.ADAPTER, 1))
        o = [await outcome(c.detect(retries=0, probe_retries=0)), await outcome(c.load_config(retries=0)), await outcome(c.refresh(retries=0))]
        for m in spec.meters:
            o.append(await outcome(c.send_request_and_await_response(P.ReadMeterProductRegistersRequest(base_register=60, register_count=9, device_address=m), timeout=1, retries=0)))
        cap.cancel()
        await asyncio.gather(cap, return_exceptions=True)
        live = c.plant
        await c.close()
        return [x[0] for x in o], live
    res, lp = vloop.run(main, dev.net, horizon=200000)
    return dev, rec, res, lp


def sh_session(t, jobs):
    for spec, size in jobs:
        dev, rec, res, lp = session(spec, size)
        ctx = dict(plant=spec.key(), piece=size)
        t.add("states"); t.add("transitions", lp.steps)
        if isinstance(res, BaseException) or any(k != "ok" for k in res[0]):
            t.violation("session-failed", result=repr(res)[:300], **ctx); continue
        live = res[1]
        for d in rec:
            m = SER.search(rec[d])
            if m:
                t.violation("recording-leaks", dir=d, serial=m.group(), **ctx)
        if spec.meters:
            for mtr in spec.meters:
                if struct.pack(">HH", 0x4D00 + mtr, 0x3132) in rec["rx"]:
                    t.violation("recording-leaks-meter", meter=mtr, **ctx)
        sent = [b"".join(x for _, x in conn.delivered) for conn in dev.net.conns]
        if len(rec["rx"]) != len(b"".join(sent)):
            t.violation("recording-incomplete", **ctx)
        a, b = [strip(x) for x in decoded(b"".join(sent))], [strip(x) for x in decoded(rec["rx"])]
        if [x[0] for x in a] != [x[0] for x in b]:
            t.violation("recording-decodes-differently", **ctx)
        # replayed into a plant: the readings of the live one, serials aside
        p = Plant()
        p.capabilities = live.capabilities
        for m in fr.feed(ClientFramer(), rec["rx"]):
            if fr.is_msg(m):
                p.update(m)
        lc, rc = caches(live), caches(p)
        ser = {(k, g + i) for k, g in GROUPS for i in range(5)} | {("MR", 60), ("MR", 61)}
        x, y = ({a: {k: v for k, v in c.items() if k not in ser} for a, c in z.items() if c} for z in (lc, rc))
        if x != y:
            t.violation("replay-differs", diff=[(a, k, x.get(a, {}).get(k), y.get(a, {}).get(k)) for a in set(x) | set(y) for k in set(x.get(a, {})) | set(y.get(a, {})) if x.get(a, {}).get(k) != y.get(a, {}).get(k)][:5], **ctx)
        t.outcome(ctx["plant"])


def main():
    c = Check("R01", "model_checking")
    jobs = [(k, g, s, n) for k, g in GROUPS for s in SHAPES for n in c.pick((5, 6, 60), (5, 6, 7, 8, 9, 10, 20, 30, 59, 60))]
    c.run(sh_payload, split(jobs, 64))
    pairs = [(k, a, b, "SA1234G567", s) for k, a in GROUPS for k2, b in GROUPS if k == k2 and a + 5 <= b <= a + 55 for s in SHAPES]
    c.run(sh_pairs, split(pairs, 16))
    c.run(sh_env, split([(a, b) for a in SHAPES + ODD for b in SHAPES + ODD], 32))
    c.run(sh_meter, split([(b, n) for b in range(1, 62) for n in range(1, 61)], 16))
    c.run(sh_values, split([(k, b) for k in ("HR", "IR") for b in list(range(0, 2200, 1 if not c.quick else 5)) + [5000, 65476]], 32))
    F, N = list(frames()), ["~" + n for n in NOISE]
    st = [(a, b) for a in F for b in F] + [(n, a) for n in N for a in F] + [(a, n, b) for a in F for n in N for b in (F if not c.quick else F[:3])] + [(n, m, a) for n in N for m in N for a in F[:3]]
    if not c.quick:
        st += [(n, a, m, b) for n in N for m in N for a in F[:3] for b in F[:3]]
    c.run(sh_stream, split(st, 96), depth=1)
    st2 = [(n, a) for n in (N if not c.quick else N[::2]) for a in ("hb", "wr", "mr")] + [("hb", "mr"), ("mr", "hb"), ("wr", "hb")]
    if not c.quick:
        st2 += [(a, n, b) for a in ("hb", "wr", "mr") for n in N for b in ("hb", "wr", "mr", "err")] + [("hb", "ir"), ("hr", "hb")]
    c.run(sh_stream, split(st2, 96), depth=2)
    c.run(sh_stream, split([x for x in st if len(x) == c.pick(3, 3)] + [(a, b, d) for a in F for b in F for d in F], 64), depth=c.pick(12, 40))
    c.run(sh_tx, split([x for n in (1, 2) for x in itertools.product(range(4), repeat=n)], 16))
    specs = list(plants.SPECS.values())
    if not c.quick:
        specs = plants.family("small")[::9]
    c.run(sh_session, split([(s, z) for s in specs for z in c.pick((None, 1, 7, 100), (None, 7))], 64))
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
