from dev import *

import tempfile, givenergy_modbus.testing.mock_plant as mp
from givenergy_modbus.model.register import HR, IR, MR
def cap(*files):
    with tempfile.TemporaryDirectory() as d:
        ps = []
        for i, t in enumerate(files):
            ps.append(os.path.join(d, f"{9 - i}.log"))
            open(ps[-1], "w").write(t)
        return mp.plant_from_capture(*ps), mp.MockPlant.from_capture(*ps)

f = wire.read_response(3, 0x11, 0, list(range(60))), wire.write_response(0x11, 20, 1)
p, _ = cap("".join(f"2026-01-01T00:00:0{i} rx {x.hex()}\n" for i, x in enumerate(f)))
if p.register_caches[0x11][HR(20)] != 1:
    fail("the register written during the capture reads back with its old value")
