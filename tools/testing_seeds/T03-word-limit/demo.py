from dev import *

from givenergy_modbus.testing.identify import sentinel_devices
from givenergy_modbus.model.register import IR
try:
    sentinel_devices({}, [(0x11, IR, range(65534, 65536))], offset=1)
    fail("a sentinel no register can hold was accepted")
except ValueError:
    pass
