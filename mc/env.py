"""Import givenergy_modbus from /repo's working tree, and nothing else."""
import logging
import os
import sys
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import givenergy_modbus  # noqa: E402

assert os.path.realpath(givenergy_modbus.__file__).startswith(os.path.realpath(REPO) + os.sep), givenergy_modbus.__file__
