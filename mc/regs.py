"""Documented write surface, transcribed from the register documentation (independent of the code's own tables)."""
from . import plants

EXT_C = [(b, b + 1) for b in range(246, 269, 3)]
EXT_D = [(b, b + 1) for b in range(276, 299, 3)]
SLOTS = {
    "single": {"charge": [(94, 95), (31, 32)], "discharge": [(56, 57), (44, 45)]},
    "extended": {"charge": [(94, 95), (31, 32)] + EXT_C, "discharge": [(56, 57), (44, 45)] + EXT_D},
    "three": {"charge": [(1113, 1114), (1115, 1116)] + EXT_C, "discharge": [(1118, 1119), (1120, 1121)] + EXT_D},
    "ems": {"charge": [(2053, 2054), (2056, 2057), (2059, 2060)], "discharge": [(2044, 2045), (2047, 2048), (2050, 2051)],
            "export": [(2062, 2063), (2065, 2066), (2068, 2069)]},
}
SINGLE = frozenset([20, 27, 29, 31, 32, 35, 36, 37, 38, 39, 40, 44, 45, 50, 56, 57, 59, 94, 95, 96, 110, 111, 112, 114, 116, 163, 166]
                   + [r for p in EXT_C + EXT_D for r in p])
THREE = frozenset(SINGLE - {94, 95, 31, 32, 56, 57, 44, 45, 96, 110, 116}
                  | {1078, 1109, 1111, 1112, 1113, 1114, 1115, 1116, 1118, 1119, 1120, 1121, 1122, 1123})
EMS = frozenset({2040} | set(range(2044, 2072)))
AC = frozenset({311, 313, 314, 317})
# every register any ordinary (non-installer) write may carry, whatever the model
GLOBAL = frozenset(SINGLE | THREE | EMS | AC | {104, 172, 199, 299, 331, 318, 319, 320, 1005, 1108, 1110, 5010, 5014} | set(range(554, 574)))
INSTALLER = frozenset(
    list(range(63, 84)) + [101, 102, 115, 162, 174, 201, 300, 302, 303, 305, 306, 307, 308, 309, 310, 312, 315, 316]
    + list(range(321, 331)) + list(range(332, 352)) + list(range(540, 549)) + [552, 553]
    + [1016, 1048, 1063, 1077] + list(range(1081, 1088)) + [1102, 1103] + list(range(1125, 1132)) + [1144, 1149, 1156] + list(range(1158, 1166))
    + [4001, 5002, 5003, 5004, 5005, 5006, 5007, 5008, 5009, 5011, 5012, 20000, 20001, 20002, 20003, 20020, 20021, 20050, 20051])


def model_safe(name):
    """Registers an ordinary command may write on a model (None: nothing discovered yet)."""
    if name is None:
        return SINGLE
    name = "HYBRID_GEN3" if name == "HYBRID_GEN3_OLD" else name
    if name in plants.EMS:
        return EMS
    if name in plants.THREE:
        return THREE
    return SINGLE | AC if name in plants.AC_BLOCK else SINGLE


def slot_kind(spec_model):
    if spec_model in plants.EMS:
        return "ems"
    if spec_model in plants.THREE:
        return "three"
    return "extended" if spec_model in plants.EXTENDED else "single"
