from dev import *

import tempfile, givenergy_modbus.testing.mock_plant as mp
from givenergy_modbus.model.register import HR, IR, MR
def cap(*files):
    with tempfile.TemporaryDirectory() as d:
        ps = []
        for i, t in enumerate(files):
            ps.append(os.path.join(d, f"{9 - i}.log"))
            open(ps[-1], "w").write(t)
        return mp.plant_from_capture(*ps), mp.MockPlant.from_capture(*ps)

fr = [wire.read_response(3, 0x11, 0, [1] * 60)]
for a in range(0x32, 0x38):
    fr += [wire.read_response(4, a, 110, wire.serial_regs("BA2150G000"))]
_, m = cap("".join(f"rx: {x.hex()}\n" for x in fr))
s = [tuple(m.devices[a][IR(110 + i)] for i in range(5)) for a in range(0x32, 0x38) if a in m.devices]
if len(s) == 6 and (len(set(s)) != 6 or tuple(wire.serial_regs("BA2150G000")) in s):
    fail(f"packs are served with {s}")
if len(s) != 6:
    fail("packs lost")
