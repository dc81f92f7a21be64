#!/usr/bin/env python3
"""Systematic source mutants: automut.py gen N OUT [file...] | tests IN OUT | checks IN OUT  (scratch copies only).

gen: every N-th operator/condition/constant/statement mutant; tests: keep those the existing tests pass; checks: run the related checks until one objects.
"""
import ast, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
REPO = "/repo"
REL = {
    "framer.py": "F01 F02 F04 R01 T01", "client/client.py": "C05 C02 C01 C09 C06 C04 C03 C07 C08 C11 C10 P07 R01 D03 D01 D02 W01 P05", "client/commands.py": "W03 W02 W01 W04",
    "model/plant.py": "S01 P05 P06 P01 M03 P02 P07 R02 S03 D01 D03 P03 P04 D02 M01", "model/battery_splice.py": "P02 P04 P03 P07 P01", "model/register.py": "M02 M01 S02 R02", "model/register_cache.py": "S02 R02 S03 M01",
    "model/manifest.py": "C08 W01 M03 D01 M02 C11", "model/devices.py": "M03 M01", "pdu/base.py": "F03 F04 F02 F01 C01", "pdu/transparent.py": "F03 F04 F02 C01", "pdu/read_registers.py": "F03 F04 C01 P01 T01",
    "pdu/write_registers.py": "F03 F04 W01 T01", "pdu/heartbeat.py": "F03 C05", "pdu/lan_config.py": "F03 R01", "pdu/null.py": "F03 F04", "codec.py": "F03 F02 M02", "testing/mock_plant.py": "T01 T02 T03", "testing/identify.py": "T03",
}
DEF = "M02 M01 M03 S02 D01 W01 W02 S01"
SKIPCALL = re.compile(r"^(_?logger|logging|warnings|log)\b")


def mutants(path):
    src = open(f"{REPO}/givenergy_modbus/{path}").read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
    out = []

    def put(n, new, what):
        a, z = pos(n)
        out.append((n.lineno, what, a, z, new))
    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}

    def walk(n, infunc):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in ("__repr__", "__str__", "__rich__"):
                return
            infunc = True
            for x in n.body:
                walk(x, True)
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                walk(d, True)
            return
        if isinstance(n, ast.Call) and SKIPCALL.match(seg(n.func)):
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                walk(n.value, infunc)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            put(n, f"{l} {CMP[type(n.ops[0])]} {r}", "cmp")
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                put(n, "(False)", "cmpF")
        if isinstance(n, ast.Compare) and len(n.ops) > 1:
            put(n, "(True)", "chainT")
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [seg(v) for j, v in enumerate(n.values) if j != i]
                put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({x})" for x in rest) + ")", f"drop{i}")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(" + seg(n.operand) + ")", "not")
        if isinstance(n, ast.Constant) and type(n.value) is int and infunc:
            put(n, str(n.value + 1), "inc")
            if n.value > 1:
                put(n, str(n.value - 1), "dec")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, (ast.JoinedStr,)):
            op = "-" if isinstance(n.op, ast.Add) else "+"
            put(n, f"({seg(n.left)} {op} {seg(n.right)})", "arith")
        if infunc and isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and SKIPCALL.match(seg(n.value.func))):
            put(n, "pass", "del")
        if infunc and isinstance(n, (ast.Continue, ast.Break)):
            put(n, "pass", "del")
        if isinstance(n, ast.If) and infunc:
            t = n.test
            put(t, "(False)", "ifF")
        for c in ast.iter_child_nodes(n):
            walk(c, infunc)
    walk(ast.parse(src), False)
    res = []
    for ln, what, a, z, new in out:
        try:
            m = (b[:a] + new.encode() + b[z:]).decode()
            ast.parse(m)
        except SyntaxError:
            continue
        res.append(dict(file=path, line=ln, what=what, a=a, z=z, new=new, old=b[a:z].decode()[:100], src=lines[ln - 1].strip()[:110]))
    return res


def slot(i):
    d = f"/tmp/am-{i}"
    if not os.path.isdir(d):
        subprocess.run(["cp", "-a", REPO, d], check=True)
        shutil.rmtree(d + "/.git", ignore_errors=True)
    return d


def apply(d, m):
    p = f"{d}/givenergy_modbus/{m['file']}"
    b = open(f"{REPO}/givenergy_modbus/{m['file']}", "rb").read()
    a, z = m["a"], m["z"]
    base = os.environ.get("BASE")  # the commit the mutant was generated from
    if base:
        o = subprocess.run(["git", "-C", REPO, "show", f"{base}:givenergy_modbus/{m['file']}"], capture_output=True).stdout
        for k in range(200, 20, -20):
            ctx = o[max(0, a - k):z + k]
            if b.count(ctx) == 1:
                a2 = b.index(ctx) + a - max(0, a - k)
                break
        else:
            raise SystemExit(f"cannot place {m}")
        a, z = a2, a2 + z - a
    open(p, "wb").write(b[:a] + m["new"].encode() + b[z:])


def restore(d, m):
    shutil.copy(f"{REPO}/givenergy_modbus/{m['file']}", f"{d}/givenergy_modbus/{m['file']}")


def run(c, cwd, env=None, t=900):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def main():
    cmd = sys.argv[1]
    if cmd == "gen":
        n, out, files = int(sys.argv[2]), sys.argv[3], sys.argv[4:]
        ms = []
        for f in files:
            x = mutants(f)
            ms += x[::n]
            print(f, len(x), len(x[::n]))
        json.dump(ms, open(out, "w"), indent=0)
        print(len(ms))
        return
    txt = open(sys.argv[2]).read()
    ms = json.loads(txt) if txt.lstrip()[:1] == "[" else [json.loads(x) for x in txt.splitlines()]
    out = sys.argv[3]
    import queue, threading
    W = int(os.environ.get("W", "8" if cmd == "tests" else "2"))
    slots = queue.Queue()
    for i in range(W):
        slots.put(f"{os.environ.get('TAG', '')}{cmd}{i}")
    lock = threading.Lock()
    f = open(out, "w")

    def one(m):
        s = slots.get()
        d = slot(s)
        try:
            apply(d, m)
            if cmd == "tests":
                rc, o = run("timeout 200 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=30 --hypothesis-seed=0 tests 2>&1 | tail -3", d, t=260)
                if "passed" in o and not re.search(r"\d+ (failed|error)", o):
                    with lock:
                        f.write(json.dumps(m) + "\n"); f.flush()
            else:
                r, hit = [], None
                for c in (m.get("checks") or REL.get(m["file"], DEF)).split():
                    rc, o = run(f"timeout 400 /opt/venv/bin/python checks/{c}.py --tier quick", "/verif", {"VERIF_REPO": d, "VERIF_EVIDENCE": "/tmp/am-ev"}, t=420)
                    if rc == 1 and "VIOLATION" in o:
                        hit = c
                        k = o[o.index("VIOLATION"):].splitlines()
                        m["how"] = o.strip().splitlines()[-2:][0][:160]
                        break
                    if rc != 0:
                        r.append(f"{c}:rc{rc}")
                m["hit"], m["odd"] = hit, r
                with lock:
                    f.write(json.dumps(m) + "\n"); f.flush()
                    print(hit or "MISSED", r, m["file"], m["line"], m["what"], "|", m["src"], "|", m["new"][:60], flush=True)
        finally:
            restore(d, m)
            slots.put(s)
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(one, ms))
    for i in range(W):
        shutil.rmtree(f"/tmp/am-{os.environ.get('TAG', '')}{cmd}{i}", ignore_errors=True)


if __name__ == "__main__":
    main()
