from dev import *

import tempfile, givenergy_modbus.testing.mock_plant as mp
from givenergy_modbus.model.register import HR, IR, MR
def cap(*files):
    with tempfile.TemporaryDirectory() as d:
        ps = []
        for i, t in enumerate(files):
            ps.append(os.path.join(d, f"{9 - i}.log"))
            open(ps[-1], "w").write(t)
        return mp.plant_from_capture(*ps), mp.MockPlant.from_capture(*ps)

_, m = cap("rx: " + wire.read_response(4, 0x11, 2066, wire.serial_regs("CE2150G000") * 4).hex() + "\n")
s = [tuple(m.devices[0x11][IR(2066 + 5 * k + i)] for i in range(5)) for k in range(4)]
if len(set(s)) != 4 or tuple(wire.serial_regs("CE2150G000")) in s:
    fail(f"managed inverters are served with {s}")
