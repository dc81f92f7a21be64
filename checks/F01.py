"""F01: every split of every stream yields the same messages, each as soon as it is complete."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, fr
from mc.report import Check, split, deadline
from mc.fr import ClientFramer, feed, fp, state, clone, is_msg

FRAMES = fr.frames()
NOISE = {
    "n59": b"\x59", "n5959": b"\x59\x59", "n595900": b"\x59\x59\x00", "nff": b"\xff" * 3,
    "n25": bytes(range(100, 125)), "n58": b"\x00\x01\x59\x58\x00\x01",
    "mark": wire.MARK, "badlen": wire.MARK + b"\xff\xff\x01\x02", "baduid": wire.MARK + b"\x00\x0d\x07\x01",
    "badfid": wire.MARK + b"\x00\x0d\x01\x09",
    "unk": wire.mbap(2, b"WF1234G567" + b"\0" * 7 + b"\x8a\x32\x07" + b"Z" * 14),
    "short": wire.mbap(2, b"WF1234G567" + b"\0" * 7 + b"\x8a\x32"),
    "half": FRAMES["hr2"][:30], "tail": FRAMES["hr2"][30:], "half60": FRAMES["ir60"][:40],
    # frames cut short just before the next one starts: the next marker decides, wherever a read ended
    **{f"cut-{k}{n}": FRAMES[k][:n] for k in ("hb", "ir1", "err") for n in (8, 14, 15, 16, 17, 18)},
}
ALL = {**FRAMES, **NOISE}


def clean(seq):
    """Marker occurrences are exactly the starts of well-formed frames."""
    return all(s in FRAMES or s in ("n59", "n5959", "n595900", "nff", "n25", "n58", "tail") for s in seq)


def expected(seq):
    """(end position, raw frame) of the well-formed frames; None if a marker occurs elsewhere."""
    data = b"".join(ALL[s] for s in seq)
    pos, starts, ends = 0, [], []
    for s in seq:
        if s in FRAMES:
            starts.append(pos); ends.append((pos + len(ALL[s]), ALL[s]))
        pos += len(ALL[s])
    i = data.find(wire.MARK); found = []
    while i >= 0:
        found.append(i); i = data.find(wire.MARK, i + 1)
    return ends if found == starts else None


def check_stream(t, seq, data, exp):
    n = len(data)
    # level[i]: state key -> (framer, delivered tuple, path)
    level = [dict() for _ in range(n + 1)]
    f0 = ClientFramer()
    level[0][(state(f0), ())] = (f0, (), ())
    for i in range(n):
        for (sk, _), (f, deliv, path) in list(level[i].items()):
            for j in range(i + 1, n + 1):
                g = clone(f)
                out = tuple(fp(m) for m in feed(g, data[i:j]) if is_msg(m))
                t.add("transitions")
                d2 = deliv + out
                k = (state(g), d2)
                if k not in level[j]:
                    level[j][k] = (g, d2, path + (j,))
                    t.add("states")
        if len(level[i]) > 64:
            t.violation("state-blowup", stream=list(seq), at=i, states=len(level[i]))
            return
    finals = {}
    for (sk, d), (_, _, path) in level[n].items():
        finals.setdefault(d, path)
    t.outcome(tuple(len(d) for d in finals))
    if len(finals) > 1:
        t.violation("split-dependent", stream=list(seq), hex=data.hex(),
                    deliveries=[{"cuts": list(p), "messages": [m[0] for m in d]} for d, p in finals.items()][:3])
    if exp is not None:
        for i in range(n + 1):
            want = [raw for e, raw in exp if e <= i]
            for (_, d), (_, _, path) in level[i].items():
                got = [dict(m[1])["raw_frame"] for m in d]
                if got != [repr(r) for r in want]:
                    t.violation("late-or-lost", stream=list(seq), hex=data.hex(), cuts=list(path), at=i,
                                got=got, want=[r.hex() for r in want])
                    return


def shard(t, seqs):
    for seq in seqs:
        data = b"".join(ALL[s] for s in seq)
        exp = expected(seq) if clean(seq) else None
        with deadline(300, repr(seq)):
            check_stream(t, seq, data, exp)
        t.add("streams")
        t.sample({"stream": list(seq), "bytes": len(data)})
        if t.full:
            return


def isolation(t, pairs):
    """Two decoders fed alternately, byte by byte and at every relative offset, do not influence each other."""
    for a, b in pairs:
        da, db = ALL[a] + FRAMES["hb"], ALL[b] + FRAMES["ir1"]
        solo = [tuple(fp(m) for m in feed(ClientFramer(), d) if is_msg(m)) for d in (da, db)]
        for off in range(0, min(len(da), 50)):
            fa, fb = ClientFramer(), ClientFramer()
            got = ([], [])
            for i in range(max(len(da), len(db) + off)):
                if i < len(da):
                    got[0].extend(fp(m) for m in feed(fa, da[i:i + 1]) if is_msg(m))
                if 0 <= i - off < len(db):
                    got[1].extend(fp(m) for m in feed(fb, db[i - off:i - off + 1]) if is_msg(m))
            t.add("transitions", len(da) + len(db)); t.add("interleavings")
            if [tuple(g) for g in got] != solo:
                t.violation("decoders-share-state", streams=[a, b], offset=off)
                return


def main():
    c = Check("F01", "model_checking")
    short = [s for s in ALL if len(ALL[s]) < 60 and not s.startswith("cut-")]
    seqs = [(s,) for s in ALL] + [p for p in itertools.product(short, repeat=2)]
    core3 = ["hb", "ir1", "err", "badcrc", "n59", "n595900", "n58", "mark", "badlen", "half", "tail"]
    third = ["hb2", "hr2"]
    cuts = [k for k in NOISE if k.startswith("cut-")]
    seqs += [(k, x) for k in cuts for x in ("hb", "ir1", "null")] + [(k, j, "hb2") for k in cuts for j in (cuts if not c.quick else ("cut-hb16", "cut-hb17", "cut-ir117"))]
    seqs += [p + (x,) for p in itertools.product(core3, repeat=2) for x in c.pick(third[:1], third)]
    seqs += [(a, b) for a in ("null", "lan", "ir60") for b in ("hb", "ir1")] + [(b, a) for a in ("null", "lan", "ir60") for b in ("hb", "ir1", "n59")]
    if not c.quick:
        seqs += list(itertools.product([s for s in short if len(ALL[s]) < 50], repeat=3))
    seqs = sorted(set(seqs), key=lambda s: (len(b"".join(ALL[x] for x in s)), s), reverse=True)
    c.run(shard, split(seqs, 64))
    c.run(isolation, split(list(itertools.product([s for s in short if len(ALL[s]) < 50], repeat=2)), 16))
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0),
              "traces_validated_against_impl": n.get("streams", 0), "streams": n.get("streams", 0),
              "rule": "all 2^(n-1) splits of each stream, merged by decoder state at each byte position"})


if __name__ == "__main__":
    main()
