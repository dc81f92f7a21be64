#!/usr/bin/env python3
"""Make and try planted bugs: seed.py make FILE.py | seed.py try ID... [--tier T]  (scratch copies of /repo under /tmp, removed afterwards)."""
import importlib.util, json, os, shutil, subprocess, sys
V = "/verif"; S = V + "/seeded"


def sh(c, cwd=None, env=None, t=1200):
    p = subprocess.run(c, shell=isinstance(c, str), cwd=cwd, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def scratch(i):
    d = f"/tmp/seed-{i}"
    shutil.rmtree(d, ignore_errors=True)
    sh(["cp", "-a", "/repo", d])
    return d


def make(path):
    spec = importlib.util.spec_from_file_location("m", path)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    ids = []
    for i, b in m.BUGS.items():
        d = scratch(i)
        for f, a, c in b["edits"]:
            p = f"{d}/givenergy_modbus/{f}"
            s = open(p).read()
            assert s.count(a) == 1, (i, f, s.count(a), a)
            open(p, "w").write(s.replace(a, c))
        o = f"{S}/{i}"
        os.makedirs(o, exist_ok=True)
        rc, diff = sh("git diff", cwd=d)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(o + "/demo.sh", 0o755)
        open(o + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        for x in ("wire.py", "dev.py"):
            shutil.copy(f"{V}/tools/seedlib/{x}", o)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        shutil.rmtree(d)
        ids.append(i)
    return ids


def tryit(i, tier="quick", check=True):
    meta = json.load(open(f"{S}/{i}/meta.json"))
    r0, o0 = sh(f"{S}/{i}/demo.sh", cwd="/repo", t=300)
    d = scratch(i)
    rc, o = sh(f"git apply {S}/{i}/patch.diff", cwd=d)
    if rc:
        return i, "PATCH-FAILS " + o[-300:]
    r1, o1 = sh(f"{S}/{i}/demo.sh", cwd=d, t=300)
    rt, ot = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=30 --hypothesis-seed=0 tests 2>&1 | tail -5", cwd=d)
    import re
    ok = "passed" in ot and not re.search(r"\d+ (failed|error)", ot)
    msg = f"demo {r0}/{r1} tests {'ok' if ok else ot[-400:]}"
    if r0: msg += " CLEAN-DEMO: " + o0[-300:]
    if check:
        rc, oc = sh(f"/opt/venv/bin/python checks/{meta['property']}.py --tier {tier}", cwd=V, env={"VERIF_REPO": d})
        hit = rc == 1 and f"VIOLATION property={meta['property']}" in oc
        msg += f" check {meta['property']} {'CAUGHT' if hit else 'MISSED rc=%d' % rc} " + (oc.strip().splitlines()[1][:150] if hit and len(oc.strip().splitlines()) > 1 else oc[-200:])
    shutil.rmtree(d, ignore_errors=True)
    good = r0 == 0 and r1 != 0 and ok
    return i, ("OK   " if good else "BAD  ") + msg


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make":
        ids = make(a[1])
    else:
        ids = [x for x in a[1:] if not x.startswith("-")] or sorted(os.listdir(S))
    tier = "thorough" if "--thorough" in a else "quick"
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        for i, m in ex.map(lambda x: tryit(x, tier, "--nocheck" not in a), ids):
            print(i, m, flush=True)
