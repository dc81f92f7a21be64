from dev import *

import givenergy_modbus.testing.mock_plant as mp
from givenergy_modbus.model.register import HR, IR, MR
from givenergy_modbus.model.register_cache import RegisterCache
def mock(banks):
    K = {"HR": HR, "IR": IR, "MR": MR}
    return mp.MockPlant({d: RegisterCache({K[k](r): v for k, t in b.items() for r, v in t.items()}) for d, b in banks.items()}, inverter_serial="SA4321G765", adapter_serial="WF4321G765")
async def talk(m, *conns, wait=0.3):
    """conns: lists of byte pieces, sent round-robin; returns what each received."""
    host, port = await m.start("127.0.0.1", 0)
    cs = [await asyncio.open_connection(host, port) for _ in conns]
    for k in range(max(len(c) for c in conns)):
        for (r, wr), c in zip(cs, conns):
            if k < len(c):
                wr.write(c[k]); await wr.drain()
                await asyncio.sleep(0.05)
    out = []
    for r, wr in cs:
        b = b""
        try:
            while True:
                x = await asyncio.wait_for(r.read(4096), wait)
                if not x:
                    break
                b += x
        except asyncio.TimeoutError:
            pass
        out.append(b)
        wr.close()
    await m.aclose()
    return out
def rr(fc, dev, base, vals): return wire.read_response(fc, dev, base, vals, "WF4321G765", "SA4321G765")

m = mock({0x11: {"HR": {0: 1, 1: 2}}})
q = wire.read_request(3, 0x11, 0, 2)
a, b = asyncio.run(talk(m, [q[:10], q[10:]], [q[:10], q[10:]]))
w = rr(3, 0x11, 0, [1, 2])
if (a, b) != (w, w):
    fail(f"two clients got {a!r} and {b!r}")
