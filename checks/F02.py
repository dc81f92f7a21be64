"""F02: resynchronisation after every single disturbance; no exception, bounded memory, no loss outside the damage."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, fr
from mc.report import Check, split, deadline
from mc.fr import ClientFramer, ServerFramer, feed, is_msg, retained

w = wire
# The longest span a corrupted header may legitimately claim: 6 + 300 bytes.
SPAN = 306


def reference(server=False):
    """A stream of distinct well-formed frames; enough of them after the damage zone to see recovery."""
    out = []
    for i in range(6):
        if server:
            out += [w.read_request(3 + i % 2, 0x11 + i, 60 * i, 60), w.heartbeat("WF1234G56%d" % i, i + 1), w.write_request(0x11, 27, i)]
        else:
            out += [w.heartbeat("WF1234G56%d" % i, i + 1), w.read_response(4, 0x32 + i, 60, [0x1000 + i, 0x5900 + i]),
                    w.write_response(0x11, 20 + i, i), w.error_response(3, 0x31, 60 * i, 60),
                    w.read_response(3, 0x11, 10 * i, [i, i + 1, i + 2])]
    while sum(map(len, out)) < 1400:
        i = len(out)
        out.append(w.read_request(4, i & 0x7F, i, 5) if server else w.read_response(4, 0x40, 2 * i, [i, i ^ 0x5A5A]))
    return out


def run_stream(t, mk, frames, lo, hi, damaged, delta, tag, chunks=(None,)):
    """Frames occupy [start,end) in the original; bytes [lo,hi) were replaced so later bytes shift by delta."""
    spans, pos = [], 0
    for f in frames:
        spans.append((pos, pos + len(f), f)); pos += len(f)
    before = [f for s, e, f in spans if e <= lo]
    dmg_end = hi + delta  # end of the disturbance in the damaged stream
    after = [f for s, e, f in spans if s >= hi and s + delta >= dmg_end + SPAN]
    index = {f: i for i, f in enumerate(frames)}
    for ch in chunks:
        fr_ = mk()
        got, peak = [], 0
        try:
            step = ch or len(damaged)
            for i in range(0, len(damaged), step):
                got += [m for m in feed(fr_, damaged[i:i + step])]
                peak = max(peak, retained(fr_) - (0 if ch else 0))
        except Exception as e:
            t.violation("raised", tag=tag, error=repr(e), hex=damaged.hex(), chunk=ch)
            continue
        t.add("transitions", (len(damaged) + step - 1) // step)
        raws = [bytes(m.raw_frame) for m in got if is_msg(m)]
        ids = [index[r] for r in raws if r in index]
        t.outcome((len(raws), len(got) - len(raws)))
        if ids != sorted(set(ids)):
            t.violation("duplicate-or-reordered", tag=tag, ids=ids, chunk=ch, hex=damaged.hex())
        want = {index[f] for f in before} | {index[f] for f in after}
        if tag == "sub" and damaged.count(w.MARK) <= len(frames):
            # a single damaged byte that neither touches a length field (unless it makes it implausible)
            # nor forges a marker costs only the frame it hit
            s0, e0, f0 = next(x for x in spans if x[0] <= lo < x[1])
            off = lo - s0
            if off not in (4, 5) or (off == 4 and damaged[lo] >= 2):
                want = set(index.values()) - {index[f0]}
        miss = sorted(want - set(ids))
        if miss:
            t.violation("lost", tag=tag, missing=miss, before=len(before), chunk=ch, lo=lo, hi=hi, hex=damaged.hex())
        if peak > SPAN:
            t.violation("unbounded", tag=tag, retained=peak, chunk=ch)
        extra = [r for r in raws if r not in index and r not in damaged]
        if extra:
            t.violation("message-not-in-stream", tag=tag, hex=damaged.hex())
    t.add("states")


HEADER_ALPH = bytes([0x00, 0x01, 0x02, 0x59, 0x0D, 0x26, 0x7F, 0x80, 0xFF])


def damages(total, tier, zone, n_boundaries):
    """(tag, lo, hi, replacement) over positions in the damage zone."""
    a, b = zone
    for p in range(a, b):
        for v in (range(256) if tier else (0, 1, 2, 0x59, 0x7F, 0x80, 0xFF, 0x14, 0x2C)):
            yield ("sub", p, p + 1, bytes([v]))
        for ln in list(range(1, 25)) + [40, 60]:
            yield ("del", p, p + ln, b"")
        for ins in (b"\x59", b"\x59\x59", b"\x59\x59\x00", w.MARK, w.MARK + b"\x01\x2c\x01\x02", w.MARK + b"\x00\x00\x01\x01",
                    w.MARK + b"\x00\x0c\x00\x02", b"\x00", b"\xff" * 7, w.MARK * 2, w.MARK * 5, b"Y" * 9, b"\x00" * 400, b"\xff" * 700,
                    w.MARK + b"\xff\xff\x01\x02"):
            yield ("ins", p, p, ins)
    bs = n_boundaries
    for i, j in itertools.product(range(len(bs)), repeat=2):
        if i < j <= i + 3:  # duplicated / partially repeated spans
            yield ("dup", bs[j], bs[j], ("copy", bs[i], bs[j]))


def shard(t, jobs, server, tier):
    frames = reference(server)
    mk = ServerFramer if server else ClientFramer
    data = b"".join(frames)
    for tag, lo, hi, rep in jobs:
        if isinstance(rep, tuple):
            continue
        dam = data[:lo] + rep + data[hi:]
        if dam == data:
            continue
        with deadline(60, tag):
            run_stream(t, mk, frames, lo, hi, dam, len(rep) - (hi - lo), tag, (None, 7, 61) if tier else (None, 23))
        if t.full:
            return


def shard_replay(t, jobs):
    """Exact repetition of whole frames: every copy is a well-formed frame, delivered once per copy."""
    frames = reference()
    for k, (i, j) in jobs:
        seq = frames[:k] + frames[i:j] + frames[k:]
        got = [bytes(m.raw_frame) for m in feed(ClientFramer(), b"".join(seq)) if is_msg(m)]
        t.add("states"); t.add("transitions")
        if got != seq:
            t.violation("repeat", at=k, span=[i, j])


def shard_noise(t, prefixes, depth, alph):
    """Every short marker-free byte string between two frames costs neither neighbour; every string never raises."""
    A, B, C = w.heartbeat("WF1234G567", 1), w.read_response(4, 0x32, 60, [0x1234]), w.heartbeat("WF1234G568", 2)
    tail = [w.heartbeat("WF12349%03d" % i, 1) for i in range(40)]
    for pre in prefixes:
        for rest in itertools.product(alph, repeat=depth - len(pre)):
            s = bytes(pre + rest)
            d = A + s + B + C
            f = ClientFramer()
            try:
                got = [bytes(m.raw_frame) for m in feed(f, d) if is_msg(m)]
            except Exception as e:
                t.violation("raised", tag="noise", error=repr(e), hex=d.hex()); continue
            t.add("states"); t.add("transitions")
            if (A + s + B).find(w.MARK, 1) == len(A) + len(s):
                if got != [A, B, C]:
                    t.violation("noise-cost-a-frame", noise=s.hex(), got=[g.hex() for g in got])
            elif got[:1] != [A] and len(s) > 3:
                t.violation("noise-cost-a-frame", noise=s.hex(), got=[g.hex() for g in got])
            t.outcome(len(got))
        if t.full:
            return


def shard_cut(t, shard):
    """A frame cut short within its first 17 bytes, or a marker with an implausible header, costs no neighbour, wherever reads end."""
    A, B, C = w.heartbeat("WF1234G567", 1), w.read_response(4, 0x32, 60, [0x1234]), w.heartbeat("WF1234G568", 2)
    for label, junk in shard:
        d = A + junk + B + C + B
        # reads ending at every one and two places around the disturbance, and single bytes
        around = range(len(A) - 2, len(A) + len(junk) + 24)
        cuts = [()] + [(i,) for i in around] + [(i, j) for i in around for j in around if i < j] + [tuple(range(1, len(d)))]
        for cut in cuts:
            f, got = ClientFramer(), []
            p = [0, *cut, len(d)]
            try:
                for a, b in zip(p, p[1:]):
                    got += [bytes(m.raw_frame) for m in feed(f, d[a:b]) if is_msg(m)]
            except Exception as e:
                t.violation("raised", tag=label, error=repr(e), hex=d.hex()); break
            t.add("transitions")
            if got != [A, B, C, B]:
                t.violation("cut-short-frame-cost-a-frame", kind=label, junk=junk.hex(), cuts=cut if len(cut) < 3 else "bytes", got=[g.hex()[:40] for g in got])
                break
        t.add("states")
        t.outcome(label)
        if t.full:
            return


def cuts():
    X = {"hb": w.heartbeat("WF9999G999", 3), "read": w.read_response(4, 0x33, 60, [1, 2, 3]), "write": w.write_response(0x11, 20, 1), "error": w.error_response(4, 0x11, 60, 60), "null": w.null_response(), "lan": w.lan_config(), "request": w.read_request(3, 0x11, 0, 60)}
    for n, x in X.items():
        for k in range(1, 18):
            yield n, x[:k]
    for a, b in itertools.product(("hb", "read"), repeat=2):
        for k in (4, 8, 14, 16, 17):
            for j in (6, 13, 17):
                yield f"{a}+{b}", X[a][:k] + X[b][:j]
    for ln in (0, 1, 12, 13, 100, 158, 300, 301, 0x0200, 0xFFFF):
        for u in (0, 1, 2, 7, 0x59, 0xFF):
            for fid in (0, 1, 2, 3, 0xFF):
                if ln > 300 or u > 1 or fid not in (1, 2):
                    for fill in (b"", b"\0" * 12, b"\x33" * 40):
                        yield "implausible", w.MARK + ln.to_bytes(2, "big") + bytes([u, fid]) + fill


def shard_stream_noise(t, pats):
    """Endless marker-free garbage in small reads never accumulates."""
    for pat, step in pats:
        f = ClientFramer()
        with deadline(60, "garbage"):
            for i in range(0, 3000, step):
                out = feed(f, (pat * (step // len(pat) + 2))[:step])
                t.add("transitions")
                if retained(f) > SPAN:
                    t.violation("unbounded", tag="garbage", pattern=pat.hex(), step=step, retained=retained(f)); break
            g = w.heartbeat("WF1234G567", 1)
            got = []
            for x in (b"\xff" * 8, g, g):
                got += [bytes(m.raw_frame) for m in feed(f, x) if is_msg(m)]
            if w.MARK not in pat * 3 and got != [g, g]:
                t.violation("no-recovery-after-garbage", pattern=pat.hex(), step=step)
        t.add("states")


def main():
    c = Check("F02", "model_checking")
    tier = not c.quick
    for server in (False, True):
        frames = reference(server)
        bs = [0]
        for f in frames:
            bs.append(bs[-1] + len(f))
        zone = (bs[2] - 20, bs[7] + 20) if not server else (bs[2] - 20, bs[4] + 20)
        jobs = list(damages(bs[-1], tier, zone, bs[:12]))
        c.run(shard, split(jobs, 64), server=server, tier=tier)
        # two separate substitutions (header bytes x header bytes) around one frame boundary
        if not server:
            h = range(bs[3], bs[3] + 8)
            data = b"".join(frames)
            two = []
            for p, q in itertools.combinations(range(bs[3], bs[3] + (8 if not tier else 22)), 2):
                for v, x in itertools.product(HEADER_ALPH, repeat=2):
                    r = bytearray(data[p:q + 1]); r[0] = v; r[-1] = x
                    two.append(("sub2", p, q + 1, bytes(r)))
            c.run(shard, split(two, 64), server=False, tier=False)
    nf = len(reference())
    c.run(shard_replay, split([(k, (i, j)) for k in range(0, nf + 1, 1) for i in range(0, 10) for j in range(i + 1, min(i + 4, 11))], 16))
    alph = (0x59, 0x00, 0x01, 0x02, 0xFF)
    for depth in range(1, c.pick(7, 9)):
        c.run(shard_noise, split(list(itertools.product(alph, repeat=min(depth, 3))), 64), depth=depth, alph=alph)
    c.run(shard_cut, split(list(cuts()), 64))
    pats = [(bytes(p), s) for n in (1, 2, 3) for p in itertools.product((0x59, 0x00, 0x01, 0xFF), repeat=n) for s in (1, 7, 18, 100, 1000)]
    c.run(shard_stream_noise, split(pats, 32))
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0),
              "traces_validated_against_impl": n.get("states", 0),
              "samples": ["one byte substituted / 1-60 bytes deleted / marker-like insertions at every offset of 6+ frames",
                          "every byte string over {59,00,01,02,ff} up to the depth bound between two frames"]})


if __name__ == "__main__":
    main()
