"""C10: two clients in one process, every pair of sessions at every relative offset; each must behave exactly as it does alone."""
import asyncio, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, wire, vloop, plants, ps, view
from mc import wire as w
from mc.report import Check, split
from mc.cl import client, Device, caches, outcome, Client
from mc.plants import Spec
from givenergy_modbus import pdu as P
from givenergy_modbus.client import commands

GAP, LAT, T = 0.05, 0.03, 0.6
WHO = {"a": ("SA1234G567", "WF1234G567", 0), "b": ("CE2109G812", "WJ2017G044", 500)}
START = 1000.0


class Router:
    def __init__(self, nets):
        self.nets = nets

    async def open(self, loop, factory, host, port):
        return await self.nets[host].open(loop, factory, host, port)


def rd(i, n=3, dev=0x11):
    return P.ReadHoldingRegistersRequest(base_register=200 + i, register_count=n, device_address=dev)


def ri(base, n=60, dev=0x11):
    return P.ReadInputRegistersRequest(base_register=base, register_count=n, device_address=dev)


class Side:
    """One client with its plant and session."""

    def __init__(self, name, host):
        self.name, self.host = name, host
        self.ser, self.ada, self.salt = WHO[host]
        spec = SESSIONS[name][1]
        b = plants.banks(spec)
        for i, x in enumerate(w.serial_regs(self.ser)):
            b[0x11]["HR"][13 + i] = x
        for r in range(200, 212):
            b[0x11]["HR"][r] = r + self.salt
        self.dev = Device(banks=b, latency=LAT + (0.0007 if host == "b" else 0), serials={a: self.ser for a in b})
        self.dev.adapter = self.ada
        ab = plants.absent_script(spec)
        self.dev.script = lambda i, r: SESSIONS[name][2](self, i, r) if SESSIONS[name][2] else ab(i, r) if ab else None
        self.rec, self.out = [], []

    async def call(self, label, aw):
        o = await outcome(aw)
        v = getattr(o[1], "register_values", None) if o[0] == "ok" else None
        self.out.append((label, o[0], list(v) if isinstance(v, (list, tuple)) else None, round(self.loop.time() - self.t0, 6)))
        return o

    async def go(self, loop, delay):
        self.loop = loop
        if delay:
            await asyncio.sleep(delay)
        self.t0 = loop.time()
        self.c = Client(self.host, 8899, connect_timeout=2.0, tx_message_wait=GAP, tx_jitter=0)
        await self.c.connect()
        await SESSIONS[self.name][0](self, self.c)
        now = vloop.VDatetime.now(vloop._dtmod.timezone.utc)
        self.end = (round(loop.time() - self.t0, 6), rounded(ps.canon(self.c.plant, now)), view.view(self.c.plant), self.c.connected)
        await self.c.close()

    def trace(self):
        return {"calls": self.out, "sent": [(round(t - self.t0, 6), cx, r["raw"].hex()) for t, cx, r in self.dev.log], "recorded": self.rec, "end": self.end[0], "plant": self.end[1], "readings": self.end[2],
                "connected": self.end[3], "conns": len(self.dev.net.conns), "bad": self.dev.bad}

    def at(self, s, f, *a):
        self.loop.call_at(self.t0 + s, f, *a)

    @property
    def conn(self):
        return self.dev.net.conns[-1]

    def reply(self, base, vals, **kw):
        return w.read_response(3, 0x11, base, vals, self.ada, self.ser, **kw)


def rounded(x):
    if isinstance(x, tuple):
        return tuple(rounded(y) for y in x)
    return round(x, 5) if isinstance(x, float) else x


async def discover(s, c):
    await s.call("detect", c.detect(timeout=T, retries=1, probe_timeout=0.2, probe_retries=0))
    await s.call("config", c.load_config(timeout=T, retries=0))
    await s.call("refresh", c.refresh(timeout=T, retries=0))
    await s.call("fresh", c.refresh(timeout=T, retries=0, max_age=1.0))


async def reads(s, c):
    def one(i, **kw):
        return s.call(i, c.send_request_and_await_response(rd(i), timeout=T, retries=kw.get("retries", 1), retry_delay=0.1))
    await asyncio.gather(one(0), one(1), one(2), one(3))
    a = asyncio.ensure_future(one(4))
    await asyncio.sleep(0.01)
    await asyncio.gather(a, one(4), one(5))


def reads_script(s, i, r):
    if r["kind"].startswith("read") and r["base"] == 202:
        return []
    if r["kind"].startswith("read") and r["base"] == 203:
        return [(LAT, w.error_response(r["fc"], r["dev"], r["base"], r["count"], s.ada, s.ser))]
    return None


async def writes(s, c):
    c.plant.capabilities = plants.caps(SESSIONS["writes"][1])
    await s.call("cmd", c.one_shot_command([P.WriteHoldingRegisterRequest(register=96, value=1), P.WriteHoldingRegisterRequest(register=116, value=50 + s.salt // 100)]))
    await s.call("unsafe", c.one_shot_command([P.WriteHoldingRegisterRequest(register=5, value=1)]))
    await s.call("target", c.one_shot_command(commands.set_charge_target(77 + s.salt // 100)))
    await s.call("echo", c.send_request_and_await_response(rd(0), timeout=T, retries=0))


async def lossy(s, c):
    s.at(0.23, lambda: s.conn.eof())
    await asyncio.gather(*[s.call(i, c.send_request_and_await_response(rd(i), timeout=T, retries=1, retry_delay=0.1)) for i in range(7)])
    await s.call("again", c.connect())
    await asyncio.gather(*[s.call(i, c.send_request_and_await_response(rd(i), timeout=T, retries=1, retry_delay=0.1)) for i in (0, 6, 7)])


async def noise(s, c):
    f = s.reply(207, [1 + s.salt, 2])
    for t, x in ((0.0131, f[:20]), (0.0571, f[20:]), (0.0821, s.reply(200, [9, 9, 9], crc=0x1234)), (0.1011, b"\x59\x59\x00\x00" * 3), (0.1213, w.heartbeat(s.ada, 3)[:9]),
                 (0.1631, w.heartbeat(s.ada, 3)[9:]), (0.2123, w.null_response() + f + w.heartbeat(s.ada, 5)), (0.3333, w.lan_config(s.ada) if hasattr(w, "lan_config") else f)):
        s.at(t, lambda x=x: s.conn.send(x))
    await asyncio.gather(*[s.call(i, c.send_request_and_await_response(rd(i), timeout=T, retries=1, retry_delay=0.1)) for i in range(4)])
    await asyncio.sleep(0.3)


async def recording(s, c):
    def cap(d):
        return s.call("capture", c.capture_frames(lambda k, b: s.rec.append((round(s.loop.time() - s.t0, 6), k, bytes(b).hex())), duration=d))
    a = asyncio.ensure_future(cap(0.3))
    await s.call(0, c.send_request_and_await_response(rd(0), timeout=T, retries=0))
    await s.call("second", c.capture_frames(lambda k, b: None, duration=0.1))
    await s.call(1, c.send_request_and_await_response(rd(1), timeout=T, retries=0))
    await a
    b = asyncio.ensure_future(cap(5))
    await s.call(2, c.send_request_and_await_response(rd(2), timeout=T, retries=0))
    b.cancel()
    await asyncio.gather(b, return_exceptions=True)


async def closing(s, c):
    ts = [asyncio.ensure_future(s.call(i, c.send_request_and_await_response(rd(i), timeout=T, retries=1, retry_delay=0.1))) for i in (2, 8, 9)]
    await asyncio.sleep(0.13)
    ts[1].cancel()
    await asyncio.sleep(0.05)
    await s.call("close", c.close())
    await s.call("connect", c.connect())
    await asyncio.gather(*[s.call(i, c.send_request_and_await_response(rd(i), timeout=T, retries=1, retry_delay=0.1)) for i in (2, 0)])
    await asyncio.gather(*ts, return_exceptions=True)


async def batteries(s, c):
    c.plant.capabilities = plants.caps(SESSIONS["batteries"][1])
    for k in range(4):
        await s.call("poll", c.refresh(timeout=T, retries=0))
        t = s.dev.banks[0x32]["IR"]
        if k == 1:
            t[100] = 91 if s.salt else 20  # a step: held until repeated
        if k == 2:
            t[64] += 900
        await asyncio.sleep(0.2)


SESSIONS = {
    "discover": (discover, Spec("HYBRID_GEN2", batts=(0x32, 0x33), meters=(1,)), None),
    "discover-hv": (discover, Spec("HYBRID_3PH", stacks=(2,)), None),
    "reads": (reads, Spec("HYBRID_GEN1"), reads_script),
    "writes": (writes, Spec("HYBRID_GEN1"), None),
    "lossy": (lossy, Spec("HYBRID_GEN1"), None),
    "noise": (noise, Spec("HYBRID_GEN1"), None),
    "recording": (recording, Spec("HYBRID_GEN1"), reads_script),
    "closing": (closing, Spec("HYBRID_GEN1"), reads_script),
    "batteries": (batteries, Spec("HYBRID_GEN1", batts=(0x32,)), None),
}


def together(pairs):
    """Run [(session, host, delay)] in one process; returns the sides and the loop."""
    sides = [Side(n, h) for n, h, _ in pairs]

    async def main(loop):
        await asyncio.gather(*[s.go(loop, d) for s, (_, _, d) in zip(sides, pairs)])
        return True
    loop_net = Router({s.host: s.dev.net for s in sides})
    res, loop = vloop.run(main, loop_net, horizon=9000)
    return res, sides, loop


ALONE = {}


def alone(name, host):
    if (name, host) not in ALONE:
        res, (s,), loop = together([(name, host, 0)])
        assert res is True, (name, res)
        ALONE[name, host] = s.trace(), sorted({round(t - s.t0, 6) for t, _, _ in s.dev.log} | {round(t - s.t0, 6) for cn in s.dev.net.conns for t, _ in cn.delivered} | {s.end[0]})
    return ALONE[name, host]


def compare(t, what, got, want, **ctx):
    for k in want:
        if got[k] != want[k]:
            d = view.diff(got[k], want[k]) if isinstance(want[k], dict) else [(i, a, b) for i, (a, b) in enumerate(zip(got[k], want[k])) if a != b][:2] if isinstance(want[k], (list, tuple)) else (got[k], want[k])
            t.violation("not-independent:" + k, side=what, diff=repr(d)[:600], **ctx)
            return


def offsets(x, n):
    ev = alone(x, "a")[1]
    o = [0.0] + [e + d for e in ev for d in (-0.0003, 0.0003) if e + d > 0]
    step = max(1, len(o) // n)
    return o[::step]


def sh(t, jobs):
    for x, y, off in jobs:
        res, sides, loop = together([(x, "a", 0), (y, "b", off)])
        t.add("states"); t.add("transitions", loop.steps)
        ctx = dict(first=x, second=y, offset=off)
        if res is not True:
            t.violation("stuck", error=repr(res), **ctx); continue
        for s in sides:
            compare(t, s.name, s.trace(), alone(s.name, s.host)[0], **ctx)
        t.outcome((x, y, tuple(o[1] for s in sides for o in s.out)))
        t.sample({**ctx, "calls": [len(s.out) for s in sides], "frames": [len(s.dev.log) for s in sides]}, 1)
        if t.full:
            return


def main():
    c = Check("C10", "model_checking")
    n = c.pick(36, 400)
    jobs = [(x, y, o) for x in SESSIONS for y in SESSIONS for o in offsets(x, n)]
    for x in SESSIONS:  # the sessions do what they are meant to do
        c.total.info[x] = [o[1] for o in alone(x, "a")[0]["calls"]]
    c.run(sh, split(jobs, 128))
    n = c.total.n
    c.finish({"states": n.get("states", 0), "transitions": n.get("transitions", 0), "traces_validated_against_impl": n.get("states", 0)})


if __name__ == "__main__":
    main()
