from dev import *

from givenergy_modbus.testing.identify import identify
if identify(24.0, 124.0, k=1000, reg_range=range(0, 240)) or not identify(23.9, 123.9, k=1000, reg_range=range(0, 240)):
    fail("the register range is not honoured")
if identify(24.1, 124.1, k=1000, reg_range=range(0, 240, 2)):
    fail("a stepped register range is not honoured")
