#!/usr/bin/env python3
"""mut.py FILE.py [--tests]: for each mutant {id: {checks, edits}} run the checks (and tests) against a scratch copy."""
import sys, os, shutil, importlib.util, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import sh, scratch, V
from concurrent.futures import ThreadPoolExecutor
spec = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = [a for a in sys.argv[2:] if not a.startswith("-")]


def go(i):
    b = m.BUGS[i]
    d = scratch("mut-" + i)
    for f, a, c in b["edits"]:
        p = f"{d}/givenergy_modbus/{f}"
        s = open(p).read()
        if s.count(a) != 1:
            return i, f"EDIT-FAILS {f} {s.count(a)}"
        open(p, "w").write(s.replace(a, c))
    out = []
    if "--tests" in sys.argv:
        rt, ot = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=30 --hypothesis-seed=0 tests 2>&1 | tail -4", cwd=d)
        out.append("tests " + ("ok" if "passed" in ot and not re.search(r"\d+ (failed|error)", ot) else "KILL " + ot.strip().splitlines()[0][:150]))
    for c in b["checks"]:
        rc, oc = sh(f"/opt/venv/bin/python checks/{c}.py" + (" --tier thorough" if "--thorough" in sys.argv else ""), cwd=V, env={"VERIF_REPO": d})
        L = oc.strip().splitlines()
        out.append(f"{c}:{'CAUGHT ' + (L[1][:110] if len(L) > 1 else '') if rc == 1 and 'VIOLATION' in oc else 'missed' if rc == 0 else 'rc%d %s' % (rc, oc[-200:])}")
    shutil.rmtree(d, ignore_errors=True)
    return i, " | ".join(out)


with ThreadPoolExecutor(2) as ex:
    for i, o in ex.map(go, only or list(m.BUGS)):
        print(i, "=>", o, flush=True)
