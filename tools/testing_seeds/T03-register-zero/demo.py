from dev import *

from givenergy_modbus.testing.identify import identify
got = sorted((c.address, round(c.scale, 3)) for c in identify(0))
if got != [(0, 0.001), (0, 0.01), (0, 0.1), (0, 1.0)]:
    fail(f"a reading of 0 could be {got}")
