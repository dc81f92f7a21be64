from dev import *

import tempfile, givenergy_modbus.testing.mock_plant as mp
from givenergy_modbus.model.register import HR, IR, MR
def cap(*files):
    with tempfile.TemporaryDirectory() as d:
        ps = []
        for i, t in enumerate(files):
            ps.append(os.path.join(d, f"{9 - i}.log"))
            open(ps[-1], "w").write(t)
        return mp.plant_from_capture(*ps), mp.MockPlant.from_capture(*ps)

f = wire.read_response(3, 0x11, 0, [1, 2, 3]), wire.read_response(3, 0x11, 0, [4, 5, 6])
p, _ = cap(*[f"rx: {x.hex()}\n" for x in f])
if [p.register_caches[0x11][HR(i)] for i in range(3)] != [4, 5, 6]:
    fail("an earlier file's values replaced a later one's")
