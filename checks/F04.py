"""F04: every small corruption of a reply is without effect on plant state and on waiting callers."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, fr
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, caches, outcome, Plant
from mc import vloop
from mc.fr import ClientFramer, feed, is_msg
from givenergy_modbus import pdu as P

REPLIES = {
    "ir@bat": w.read_response(4, 0x32, 60, [0x1234, 0x00FF]),
    "ir@inv": w.read_response(4, 0x11, 60, [0x0001, 0x8000]),
    "hr@inv": w.read_response(3, 0x11, 96, [1, 2]),
    "hr1": w.read_response(3, 0x31, 60, [0xFFFF]),
    "mr": w.read_response(0x16, 0x01, 60, [5, 6]),
    "err-ir": w.error_response(4, 0x11, 60, 2),
    "err-hr": w.error_response(3, 0x11, 96, 2),
    "wr": w.write_response(0x11, 96, 1),
    "err-wr": w.write_response(0x11, 96, 1, error=True),
}
BIG = {"ir60": w.read_response(4, 0x32, 60, [(i * 977) & 0xFFFF for i in range(60)]),
       "hr60": w.read_response(3, 0x11, 0, [(i * 31337) & 0xFFFF for i in range(60)])}
FIRST = 26  # protected region: device address up to and including the check value


def snap(p):
    return (caches(p), p.inverter_serial_number, p.data_adapter_serial_number, dict(p.register_block_updated_at),
            dict(p.register_block_present), p.last_updated_at)


def seeded():
    """Cold plant and a warm one that already holds data wherever the damaged reply could land."""
    cold = Plant()
    warm = Plant()
    for f in (w.read_response(3, 0x11, 0, list(range(1, 61)), inverter="CE1234G567"), w.read_response(4, 0x11, 60, [9, 9]),
              w.read_response(3, 0x11, 60, list(range(100, 160)), inverter="CE1234G567"), w.read_response(4, 0x32, 0, [3, 4])):
        for m in feed(ClientFramer(), f):
            warm.update(m)
    return cold, warm


def apply(t, plants, base, frame, flips, tag):
    b = bytearray(frame)
    for pos, mask in flips:
        b[pos] ^= mask
    b = bytes(b)
    if b[FIRST:] == frame[FIRST:]:
        return
    msgs = [m for m in feed(ClientFramer(), b) if is_msg(m)]
    t.add("states")
    for p, s in zip(plants, base):
        for m in msgs:
            p.update(m)
            t.add("transitions")
        if msgs and snap(p) != s:
            t.violation("state-changed", reply=tag, flips=[[p_, k] for p_, k in flips], frame=b.hex(), decoded=[repr(m)[:200] for m in msgs])
            raise StopIteration
    t.outcome((tag, type(msgs[0]).__name__ if msgs else None, getattr(msgs[0], "error", None) if msgs else None))


def guarded(t, tag, frame, gen):
    plants = seeded()
    base = [snap(p) for p in plants]
    for flips in gen:
        try:
            apply(t, plants, base, frame, flips, tag)
        except StopIteration:
            plants = seeded()
            base = [snap(p) for p in plants]
        if t.full:
            return


def bits(frame):
    return [(i, 1 << k) for i in range(FIRST, len(frame)) for k in range(8)]


def comb(fl):
    """Merge flips on the same byte."""
    d = {}
    for p, m in fl:
        d[p] = d.get(p, 0) ^ m
    return list(d.items())


def sh_two(t, jobs):
    for tag, i, n in jobs:
        f = REPLIES.get(tag) or BIG[tag]
        bs = bits(f)
        guarded(t, tag, f, (comb(x) for j, x in enumerate(itertools.combinations(bs, 2)) if j % n == i))


def sh_one(t, tags):
    for tag in tags:
        f = REPLIES.get(tag) or BIG[tag]
        guarded(t, tag, f, ([x] for x in bits(f)))


def sh_burst(t, jobs, width):
    for tag in jobs:
        f = REPLIES.get(tag) or BIG[tag]
        nb = (len(f) - FIRST) * 8
        def gen():
            for L in range(3, width + 1):
                for mid in range(1 << (L - 2)):
                    pat = (1 << (L - 1)) | (mid << 1) | 1
                    for pos in range(nb - L + 1):
                        d = {}
                        for k in range(L):
                            if pat >> k & 1:
                                b = pos + k
                                d[FIRST + b // 8] = d.get(FIRST + b // 8, 0) ^ (0x80 >> (b % 8))
                        yield list(d.items())
        guarded(t, tag, f, gen())


def sh_tail(t, tags):
    """Zero-filled tails (the damage seen in the field) and wholly replaced check values."""
    for tag in tags:
        f = REPLIES.get(tag) or BIG[tag]
        def gen():
            for k in range(1, len(f) - FIRST):
                yield [(i, f[i]) for i in range(len(f) - k, len(f)) if f[i]]
            good = int.from_bytes(f[-2:], "big")
            for v in range(0x10000):
                if v != good:
                    yield [(len(f) - 2, (v >> 8) ^ f[-2]), (len(f) - 1, (v & 0xFF) ^ f[-1])]
        guarded(t, tag, f, (x for x in gen() if x))


def req_for(tag):
    if tag == "wr":
        return P.WriteHoldingRegisterRequest(register=96, value=1)
    f = REPLIES[tag]
    fc, dev, base, cnt = f[27], f[26], int.from_bytes(f[38:40], "big"), int.from_bytes(f[40:42], "big")
    cls = {3: P.ReadHoldingRegistersRequest, 4: P.ReadInputRegistersRequest, 0x16: P.ReadMeterProductRegistersRequest}[fc]
    return cls(base_register=base, register_count=cnt, device_address=dev)


def sh_client(t, jobs):
    """A waiting caller is not answered by the damaged reply; the retried good reply does answer it."""
    for tag, pos, mask in jobs:
        bad = bytearray(REPLIES[tag]); bad[pos] ^= mask; bad = bytes(bad)
        tag = GOOD.get(tag, tag)
        f = REPLIES[tag]
        for retries in (0, 1, 2):
            def script(i, r):
                if retries == 2:  # the undamaged reply follows the damaged one within the timeout
                    return [(0.1, bad), (0.3, f)]
                return [(0.1, bad)] if i == 0 else [(0.1, f)]
            dev = Device(script=script)

            async def main(loop):
                c = client(tx_message_wait=0.01, tx_jitter=0)
                await c.connect()
                t0 = loop.time()
                res = await outcome(c.send_request_and_await_response(req_for(tag), timeout=1.0, retries=retries % 2))
                took = loop.time() - t0
                cc = caches(c.plant)
                await c.close()
                return res[0], cc, getattr(res[1], "register_values", getattr(res[1], "value", None)), c.plant.inverter_serial_number, took
            res, loop = vloop.run(main, dev.net, horizon=loop_h)
            t.add("states"); t.add("transitions", 2)
            if isinstance(res, BaseException):
                t.violation("stuck", tag=tag, pos=pos, mask=mask, error=repr(res)); continue
            if retries == 0 and not (res[0] == "timeout" and not any(res[1].values())):
                t.violation("answered-by-corrupt-reply", tag=tag, pos=pos, mask=mask, frame=bad.hex(), got=res)
            if retries == 0 and res[4] < 0.99:
                t.violation("corrupt-reply-ended-the-wait", tag=tag, pos=pos, mask=mask, frame=bad.hex(), got=res)
            if retries == 2 and res[0] != "ok":
                t.violation("corrupt-reply-consumed-the-wait", tag=tag, pos=pos, mask=mask, frame=bad.hex(), got=res)
            if retries == 1 and res[0] != "ok":
                t.violation("good-retry-not-accepted", tag=tag, pos=pos, mask=mask, frame=bad.hex(), got=res)
            t.outcome((retries, res[0]))
        if t.full:
            return


loop_h = 5000.0
GOOD = {"err-ir": "ir@inv", "err-hr": "hr@inv", "err-wr": "wr"}


def main():
    c = Check("F04", "model_checking")
    tier = not c.quick
    c.run(sh_one, [[x] for x in list(REPLIES) + list(BIG)])
    two = [(tag, i, 8) for tag in REPLIES for i in range(8)]
    if tier:
        two += [(tag, i, 64) for tag in BIG for i in range(64)]
    c.run(sh_two, [[x] for x in two])
    c.run(sh_burst, [[x] for x in REPLIES], width=c.pick(7, 12))
    c.run(sh_tail, [[x] for x in list(REPLIES) + list(BIG)])
    jobs = [(tag, p, m) for tag in ("ir@bat", "ir@inv", "hr@inv", "mr", "wr", "err-ir", "err-hr", "err-wr") for p, m in bits(REPLIES[tag])]
    c.run(sh_client, split(jobs, 64))
    n = c.total.n
    c.total.sample({"reply": "ir@bat", "frame": REPLIES["ir@bat"], "flip": "bit 0 of byte 27 (function code 4 -> 5)"})
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
