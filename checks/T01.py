"""T01: a mock plant serves exactly the registers it was given, to any client, however the traffic is cut, pipelined or interleaved."""
import asyncio, os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, plants, ps, batt, vloop, srv, fr
from mc import wire as w
from mc.report import Check, split
from mc.cl import Plant, client, caches, outcome
from mc.plants import Spec
from givenergy_modbus import framer
import givenergy_modbus.testing.mock_plant as mp
from givenergy_modbus.model.register import HR, IR, MR
from givenergy_modbus.model.register_cache import RegisterCache

vloop.patch_clock()
CLS = {"HR": HR, "IR": IR, "MR": MR}
FC = {"HR": 3, "IR": 4, "MR": 0x16}
SER, ADA = "SA4321G765", "WF4321G765"


def seed(banks):
    return {d: RegisterCache({CLS[k](r): v for k, t in ks.items() for r, v in t.items()}) for d, ks in banks.items()}


def mock(banks, **kw):
    kw.setdefault("inverter_serial", SER)
    kw.setdefault("adapter_serial", ADA)
    return mp.MockPlant(seed(banks), **kw)


def want(banks, req):
    """The bytes a request must be answered with; b"" for silence."""
    if req[0] == "write":
        _, dev, reg, val = req
        return w.write_response(dev, reg, val, ADA, SER)
    _, kind, dev, base, count = req
    if dev not in banks:
        return b""
    t = banks[dev].get(kind, {})
    if any(base + i not in t for i in range(count)):
        return w.error_response(FC[kind], dev, base, count, ADA, SER)
    return w.read_response(FC[kind], dev, base, [t[base + i] for i in range(count)], ADA, SER)


def enc(req):
    if req[0] == "write":
        return w.write_request(*req[1:])
    return w.read_request(FC[req[1]], *req[2:])


def converse(m, feeds, lat=0.01, chop=None, idle=1.0):
    """Drive raw connections: feeds[i] is [(time, bytes | None=close)]; returns what each received."""
    net = srv.Net(lat, chop)
    got = [b""] * len(feeds)

    async def main(loop):
        host, port = await m.start("10.0.0.1", 0)

        async def one(i, plan):
            r, wr = await asyncio.open_connection(host, port)
            t0 = loop.time()

            async def rd():
                while True:
                    b = await r.read(4096)
                    if not b:
                        return
                    got[i] += b
            task = asyncio.ensure_future(rd())
            for at, b in plan:
                await asyncio.sleep(max(0, t0 + at - loop.time()))
                if b is None:
                    wr.close()
                else:
                    wr.write(b)
            await asyncio.sleep(idle)
            task.cancel()
            wr.close()
        await asyncio.gather(*(one(i, p) for i, p in enumerate(feeds)))
        await m.aclose()
        return True
    res, loop = vloop.run(main, net, horizon=100000, max_steps=4000000)
    return res, got, loop


def same(t, what, got, exp, **ctx):
    if got == exp:
        return True
    i = next((k for k in range(min(len(got), len(exp))) if got[k] != exp[k]), min(len(got), len(exp)))
    t.violation(what, at=i, got=got[max(0, i - 8):i + 40], want=exp[max(0, i - 8):i + 40], lengths=(len(got), len(exp)), **ctx)
    return False


VALS = (0, 1, 0x00FF, 0x0100, 0x7FFF, 0x8000, 0xFFFF, 0x5959, 0x0001, 0x1234)
HOLES = {0x11: {"HR": {r: VALS[r % 10] for r in list(range(0, 60)) + list(range(61, 130)) + [200, 4095, 65535]}, "IR": {r: (r * 257) & 0xFFFF for r in list(range(0, 120)) + [65534, 65535]}},
         0x32: {"IR": {r: r for r in range(60, 120)}}, 0x01: {"IR": {r: 7 for r in range(60, 90)}, "MR": {r: r for r in range(60, 69)}}, 0x00: {"HR": {0: 5}}, 0xFF: {"IR": {0: 9}}, 0x50: {}}


def ranges(t, shard):
    """Every device, bank, base and count around the seeded ranges: the exact reply, error or silence."""
    m_banks = HOLES
    reqs = list(shard)
    exp = b"".join(want(m_banks, r) for r in reqs)
    plan = [(0.01 * i, enc(r)) for i, r in enumerate(reqs)]
    res, (got,), loop = converse(mock(m_banks), [plan])
    t.add("states", len(reqs)); t.add("transitions", loop.steps)
    if res is not True:
        t.violation("stuck", result=repr(res)); return
    if got == exp:
        t.outcome(("ranges", len(exp) > 0))
        return
    for r in reqs:  # find the one
        res, (g,), loop = converse(mock(m_banks), [[(0, enc(r))]])
        if not same(t, "wrong-reply", g, want(m_banks, r), request=r):
            return
    same(t, "wrong-replies-in-sequence", got, exp, first=reqs[:3])


def order(t, shard, ops=()):
    """Every sequence of operations, pipelined in one segment or one at a time, with writes in between: state never changes."""
    for seq in shard:
        m = mock(HOLES)
        before = caches_of(m)
        raw = b"".join(enc(ops[i]) for i in seq)
        exp = b"".join(want(HOLES, ops[i]) for i in seq)
        for plan in ([(0, raw)], [(0.02 * k, enc(ops[i])) for k, i in enumerate(seq)]):
            res, (got,), loop = converse(m, [plan])
            t.add("transitions", loop.steps)
            if res is not True:
                t.violation("stuck", operations=[ops[i] for i in seq], result=repr(res)); return
            same(t, "wrong-replies", got, exp, operations=[ops[i] for i in seq], pipelined=len(plan) == 1)
        if caches_of(m) != before:
            t.violation("state-changed-by-serving", operations=[ops[i] for i in seq])
        t.add("states")
        t.outcome(len(exp))
        if t.full:
            return


def caches_of(m):
    return {d: {(type(k).__name__, k._idx): v for k, v in dict(c).items()} for d, c in m.devices.items()}


def cuts(t, shard, ops=()):
    """One connection's byte stream cut at every one or two places, with noise between frames."""
    for noise, places in shard:
        raw = noise.join([b"", *[enc(o) for o in ops]]) + noise
        exp = b"".join(want(HOLES, o) for o in ops)
        p = [0, *places, len(raw)]
        plan = [(0.01 * k, raw[a:b]) for k, (a, b) in enumerate(zip(p, p[1:])) if a < b]
        res, (got,), loop = converse(mock(HOLES), [plan])
        t.add("states"); t.add("transitions", loop.steps)
        if res is not True:
            t.violation("stuck", cuts=places, noise=noise, result=repr(res)); return
        same(t, "wrong-replies-cut", got, exp, cuts=places, noise=noise)
        t.outcome((len(noise), len(plan)))
        if t.full:
            return


def many(t, shard, ops=()):
    """Several connections, every interleaving of their pieces, one of them closing mid-frame."""
    for plan in shard:
        n = max(i for i, _ in plan) + 1
        mine = [[ops[(3 * i + k) % len(ops)] for k in range(2)] for i in range(n)]
        raws = [b"".join(enc(o) for o in mine[i]) for i in range(n)]
        third = [len(r) // 3 + 1 for r in raws]
        pos = [0] * n
        feeds = [[] for _ in range(n)]
        dropped = set()
        for k, (i, act) in enumerate(plan):
            at = 0.015 * k
            if act == "drop":
                feeds[i].append((at, None)); dropped.add(i)
            elif i not in dropped:
                feeds[i].append((at, raws[i][pos[i]:pos[i] + third[i]])); pos[i] += third[i]
        res, got, loop = converse(mock(HOLES), feeds)
        t.add("states"); t.add("transitions", loop.steps)
        if res is not True:
            t.violation("stuck", plan=plan, result=repr(res)); return
        for i in range(n):
            exp = b""
            used = 0
            for o in mine[i]:
                used += len(enc(o))
                if used <= pos[i]:
                    exp += want(HOLES, o)
            if i in dropped:
                if not exp.startswith(got[i]):
                    t.violation("closed-connection-wrong-bytes", plan=plan, connection=i)
            else:
                same(t, "wrong-replies-concurrent", got[i], exp, plan=plan, connection=i)
        t.outcome((n, len(dropped)))
        if t.full:
            return


# -- a real client against the mock -------------------------------------------------
def filled(banks):
    """Seed with whole 60-register blocks wherever a block holds anything."""
    out = {}
    for d, ks in banks.items():
        out[d] = {}
        for k, tab in ks.items():
            if not tab:
                continue
            o = out[d][k] = {}
            for b in {r // 60 for r in tab}:
                o.update({r: tab.get(r, 0) for r in range(b * 60, b * 60 + 60)})
    return out


def plant_of(t, shard, chops=(None,)):
    """Discovery, configuration and two polls of a mock of every plant in the family give that plant, its registers and nothing else."""
    for i, spec in shard:
        B = filled(plants.banks(spec))
        for d in B:
            if "MR" in B[d]:
                B[d]["MR"] = {r: v for r, v in B[d]["MR"].items()}
        for how in ("devices", "spec"):
            for chop in chops:
                if how == "spec" and chop:
                    continue
                ctx = dict(plant=repr(spec), built=how, pieces=chop)
                try:
                    if how == "devices":
                        m = mock(B)
                    else:
                        sp = {d: {(CLS[k], b * 60): [tab[r] for r in range(b * 60, b * 60 + 60)] for k, tab in ks.items() if k != "MR" for b in sorted({r // 60 for r in tab})} for d, ks in B.items()}
                        m = mp.MockPlant.from_spec(sp, inverter_serial=SER, adapter_serial=ADA)
                        for d in B:
                            if "MR" in B[d]:
                                for r, v in B[d]["MR"].items():
                                    m.devices[d][MR(r)] = v
                except ValueError as e:
                    t.violation("healthy-plant-refused", error=str(e)[:200], **ctx)
                    continue
                before = caches_of(m)
                net = srv.Net(0.01, None if chop is None else (lambda side, data: [data[k:k + chop] for k in range(0, len(data), chop)]), gap=0.00005)
                rec = {}

                async def main(loop):
                    host, port = await m.start()
                    c = mp_client(host, port)
                    await c.connect()
                    await c.detect(timeout=0.5, retries=0, probe_timeout=0.1, probe_retries=0)
                    rec["topo"] = plants.topo(c.plant.capabilities)
                    await c.load_config(timeout=0.5, retries=0)
                    await c.refresh(timeout=0.5, retries=0)
                    await c.refresh(timeout=0.5, retries=0)
                    rec["caches"] = caches(c.plant)
                    rec["ser"] = (c.plant.inverter_serial_number, c.plant.data_adapter_serial_number)
                    await c.close()
                    await m.aclose()
                    return True
                res, loop = vloop.run(main, net, horizon=9000, max_steps=3000000)
                t.add("states"); t.add("transitions", loop.steps)
                if res is not True:
                    t.violation("client-failed", result=repr(res), **ctx); continue
                if rec["topo"] != plants.expected(spec):
                    t.violation("other-plant-found", got=rec["topo"], want=plants.expected(spec), **ctx); continue
                if rec["ser"] != (SER, ADA):
                    t.violation("serials", got=rec["ser"], **ctx)
                got = rec["caches"]
                bad = [(hex(d), k, v, B.get(d, {}).get(k[0], {}).get(k[1])) for d, c in got.items() for k, v in c.items() if B.get(d, {}).get(k[0], {}).get(k[1]) != v]
                if bad:
                    t.violation("register-differs", differing=bad[:5], **ctx)
                need = [(d, k, b + j) for d, k, b, n in plants.config_reads(spec) + plants.poll_reads(spec) for j in range(n) if (k, b + j) not in got.get(d, {}) and any(B.get(d, {}).get(k, {}).get(b + x) for x in range(n))]
                if need:
                    t.violation("register-missing", missing=need[:5], **ctx)
                if caches_of(m) != before:
                    t.violation("state-changed-by-client", **ctx)
                t.outcome((how, chop, len(got)))
        t.sample({"plant": repr(spec)}, 1)
        if t.full:
            return


def mp_client(host, port):
    from givenergy_modbus.client.client import Client
    return Client(host, port, connect_timeout=2.0, tx_message_wait=0.01, tx_jitter=0)


# -- specs that a client could not read -------------------------------------------------
def committed(spec):
    """Reference: would a client polling every bank twice hold every value? (through the wire and the real plant)"""
    p = Plant()
    for rep in range(2):
        for d, bs in spec.items():
            for (k, b), v in bs.items():
                p.update(ps.reply(d, k, b, v), received_at=ps.at(30 * rep))
    return all(p.register_caches.get(d, {}).get(CLS[k](b + i)) == x for d, bs in spec.items() for (k, b), v in bs.items() for i, x in enumerate(v))


def build(t, shard):
    for label, spec, verify in shard:
        real = {d: {(CLS[k], b): v for (k, b), v in bs.items()} for d, bs in spec.items()}
        legal = all(type(x) is int and 0 <= x <= 0xFFFF for bs in spec.values() for v in bs.values() for x in v)
        if not legal:
            ok = False
        elif not verify:
            ok = True
        elif any(k == "MR" for bs in spec.values() for k, _ in bs):
            ok = False
        else:
            ok = committed(spec)
        try:
            m = mp.MockPlant.from_spec(real, verify=verify)
            got = True
        except ValueError:
            got, m = False, None
        except Exception as e:
            got, m = repr(e), None
        t.add("states"); t.add("transitions")
        t.outcome((label, got))
        if got != ok:
            t.violation("spec-" + ("refused" if ok else "accepted" if got is True else "crashed"), spec=label, verify=verify, result=got)
        elif m is not None:
            exp = {d: {(k, b + i): x for (k, b), v in bs.items() for i, x in enumerate(v)} for d, bs in spec.items()}
            if caches_of(m) != exp:
                t.violation("spec-misplaced", spec=label)
        if t.full:
            return


def specs():
    A = 0x32
    G = batt.frame(A)
    fr_ = {"G": G, "X": [0] * 16 + G[16:], "T": batt.put(G, r76=0, r77=0, r78=0, r79=0, r103=0, r104=0), "Z": [0] * 60, "badser": [*G[:50], *[0x2020] * 5, *G[55:]], "hot": batt.put(G, r76=900),
           "one-zero-temp": batt.put(G, r76=0), "two-zero-temps": batt.put(G, r76=0, r77=0), "three": batt.put(G, r79=0, r77=0, r78=0), "soc200": batt.put(G, r100=200), "cells0-nofw": batt.put([0] * 16 + G[16:], r98=0, r88=0, r89=0)}
    for k, f in fr_.items():
        yield "batt:" + k, {A: {("IR", 60): f}}
        yield "inv+batt:" + k, {0x11: {("IR", 0): list(range(60)), ("HR", 0): [1] * 60}, A: {("IR", 60): f}}
        yield "batt33:" + k, {A: {("IR", 60): G}, 0x33: {("IR", 60): f}}
        yield "short:" + k, {A: {("IR", 60): f[:30]}}
        yield "split:" + k, {A: {("IR", 60): f[:30], ("IR", 90): f[30:]}}
        yield "module:" + k, {0x50: {("IR", 60): f}}
        yield "as-holding:" + k, {A: {("HR", 60): f}}
    for n, v in {"-1": [-1], "65536": [65536], "float": [2.0], "text": ["5"], "none": [None], "max": [65535], "zero": [0], "1.5": [1.5], "-40000": [1, 2, -40000], "big-last": [0] * 59 + [1 << 20]}.items():
        for d in (0x11, A, 0x01, 0x70, 0xA0):
            for k in ("HR", "IR", "MR"):
                yield f"value {n} {d:x}{k}", {d: {(k, 100): v}}
    for d in (0x11, 0x31, 0x01, 0x32, 0x37, 0x38, 0x50, 0x70, 0xA0, 0x00):
        for k, b, v in (("HR", 0, [3] * 60), ("IR", 0, [0] * 60), ("IR", 0, [5]), ("IR", 60, [9] * 60), ("IR", 120, [4] * 12), ("HR", 65500, [1] * 20), ("HR", 13, wire.serial_regs("??????????")), ("HR", 13, wire.serial_regs("SA1111G222")), ("IR", 110, [0] * 5), ("MR", 60, [1] * 9)):
            yield f"block {d:x}{k}{b}x{len(v)}", {d: {(k, b): v}}
    sus = [0x1000 + i for i in range(60)]
    yield "plain", {0x11: {("IR", 0): sus}}
    yield "overlap", {0x11: {("IR", 0): [1] * 60, ("IR", 30): [2] * 10}}
    yield "empty", {}
    yield "empty-device", {0x11: {}}


def main():
    c = Check("T01", "model_checking")
    reqs = []
    for dev in (0x11, 0x32, 0x01, 0x00, 0xFF, 0x50, 0x33, 0x12):
        for kind in ("HR", "IR", "MR"):
            bases = sorted({x for r in (*HOLES.get(dev, {}).get(kind, {0: 0}), 0, 60, 65535) for x in ((r - 1, r, r + 1) if not c.quick else (r,)) if 0 <= x <= 65535})
            for b in bases:
                for n in c.pick((1, 2, 59, 60), range(1, 61)):
                    if b + n <= 65536:
                        reqs.append(("read", kind, dev, b, n))
    c.run(ranges, [reqs[i:i + 400] for i in range(0, len(reqs), 400)])
    ops = [("read", "HR", 0x11, 0, 60), ("read", "IR", 0x11, 59, 3), ("read", "HR", 0x11, 58, 4), ("read", "IR", 0x33, 60, 60), ("write", 0x11, 20, 1), ("write", 0x11, 20, 0xFFFF), ("write", 0x33, 1112, 0x5959), ("write", 0x11, 1112, 7), ("read", "HR", 0x11, 1112, 1),
           ("read", "MR", 0x01, 60, 9), ("write", 0x11, 96, 3), ("read", "HR", 0x11, 20, 1), ("read", "IR", 0x32, 60, 60)]
    seqs = [s for n in range(1, c.pick(3, 4) + 1) for s in itertools.product(range(len(ops)), repeat=n) if n < 4 or s[0] <= 6]
    c.run(order, split(seqs, 64), ops=ops)
    co = [ops[0], ops[3], ops[4], ops[1]]
    noises = (b"", b"\x00\x01", b"YY", b"\x59", b"\x01\x59\x59", b"Y" * 50)
    jobs = []
    for nz in noises:
        n = len(nz.join([b"", *[enc(o) for o in co]]) + nz)
        jobs += [(nz, ())] + [(nz, (i,)) for i in range(1, n)]
        if nz in (b"", b"\x01\x59\x59"):
            jobs += [(nz, (i, j)) for i in range(1, n, c.pick(3, 1)) for j in range(i + 1, n, c.pick(4, 1))]
        jobs.append((nz, tuple(range(1, n))))
    c.run(cuts, split(jobs, 64), ops=co)
    plans = []
    for n, drops in ((2, 0), (2, 1), (3, 0), (3, 1)):
        items = [(i, "piece") for i in range(n) for _ in range(3)]
        if drops:
            items = [x for x in items if x[0]] + [(0, "piece"), (0, "drop")]
        seen = sorted(set(itertools.permutations(items))) if len(items) <= 6 else None
        if seen is None:
            seen, stack = [], [((), tuple(sorted(items)))]
            while stack:
                done, left = stack.pop()
                if not left:
                    seen.append(done); continue
                for x in sorted(set(left)):
                    l2 = list(left); l2.remove(x)
                    stack.append((done + (x,), tuple(l2)))
        plans += [list(x) for x in seen]
    if c.quick:
        plans = [p for k, p in enumerate(plans) if len(p) <= 6 or k % 3 == 0]
    c.run(many, split(plans, 64), ops=ops)
    fam = list(enumerate(plants.family("small")))
    if c.quick:
        fam = [(i, s) for i, s in fam if i % 3 == 0]
    c.run(plant_of, split(fam, 64), chops=c.pick((None,), (None, 1, 7)))
    c.run(build, split([(n, s, v) for n, s in specs() for v in (True, False)], 16))
    c.assumptions += ["Writes to registers outside the library's writable set are not judged (the server-side decoder ignores them)."]
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0),
              "bounds": f"{len(reqs)} reads, {len(seqs)} operation sequences, {len(jobs)} cuttings, {len(plans)} interleavings, {len(fam)} plants"})


if __name__ == "__main__":
    main()
