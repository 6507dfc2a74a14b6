"""Systematic mutation of the library: which small changes does no check see?

usage: mutate.py list | mutate.py run [-j N] [--files sub,..] [--out FILE] [--every K]

Every mutant replaces one syntax element of a library file in a scratch copy
of /repo; the checks of the properties anchored in that file run against the
copy until one of them reports a violation.  What survives every check is put
to the repository's tests and written to the report.
"""
import ast
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys

REPO = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "HamiltonianPy/"
CHECKS = {
    H + "quantumoperator/particlesystem.py": "C03 C04 C29 C06 C02 C01 C28 C07",
    H + "quantumoperator/matrixrepr.py": "C01 C02 C30",
    H + "quantumoperator/factory.py": "C02 C10 C30",
    H + "quantumoperator/quantumstate.py": "C06 C29 C32 C28 C07",
    H + "quantumoperator/spinsystem.py": "C08 C10 C09 C29 C06 C28 C07",
    H + "quantumoperator/constant.py": "C08 C02 C03 C06",
    H + "hilbertspace.py": "C05 C28 C29",
    H + "indextable.py": "C07 C29 C28",
    H + "bond.py": "C18 C29 C32 C28",
    H + "lattice/lattice.py": "C12 C14 C13 C17 C31 C32 C16 C28 C29",
    H + "lattice/_lattice_database.py": "C16 C15 C12 C28 C29",
    H + "lattice/__init__.py": "C16 C15",
    H + "polygon.py": "C24 C31 C28",
    H + "line2d.py": "C23 C31 C29 C24 C28",
    H + "rotation3d.py": "C22 C32 C28",
    H + "lanczos.py": "C19 C20 C28 C32 C33",
    H + "averages.py": "C11 C28",
    H + "GreenFunction/_GFSolver.py": "C20 C21 C33 C28",
    H + "tools/TotalSpin.py": "C11",
    H + "tools/BrillouinZone.py": "C31",
    H + "tools/Octahedron.py": "C31",
    H + "tools/PandC.py": "C25",
    H + "tools/runtimeenv.py": "C26",
    H + "tools/colorprint.py": "C27",
    H + "tools/Draw2DLattice.py": "C31",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
CMPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
        ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "*"),
       ast.Pow: ("**", "*"), ast.Mod: ("%", "//"), ast.LShift: ("<<", ">>"), ast.RShift: (">>", "<<"),
       ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&")}


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    raw = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def put(a, b, new, what, line):
        out.append((a, b, new, what, line, fn[0]))

    def between(l, r, old, new, n):
        a, b = pos(l)[1], pos(r)[0]
        seg = raw[a:b].decode()
        k = seg.find(old)
        if k >= 0:
            put(a + k, a + k + len(old), new, "%s -> %s" % (old, new), n.lineno)

    def skip_call(n):
        s = ast.get_source_segment(src, n) or ""
        return s.startswith(("logger.", "logging.", "parser."))

    fn = [""]

    def walk(n):
        if isinstance(n, ast.FunctionDef):
            if n.name == "show" and "quantumoperator" in path or n.name == "color_demo":
                return
            old, fn[0] = fn[0], n.name
            for c in ast.iter_child_nodes(n):
                walk(c)
            fn[0] = old
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and getattr(n.test.left, "id", "") == "__name__":
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and skip_call(n.value):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("__all__", "logger"):
            return
        if isinstance(n, ast.Assert):
            a, b = pos(n)
            put(a, b, "pass", "assert dropped", n.lineno)
        if isinstance(n, ast.Compare):
            items = [n.left] + n.comparators
            for i, op in enumerate(n.ops):
                between(items[i], items[i + 1], CMPS[type(op)], CMP[type(op)], n)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            old, new = BIN[type(n.op)]
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                between(n.left, n.right, old, new, n)
        if isinstance(n, ast.BoolOp):
            old, new = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            for x, y in zip(n.values, n.values[1:]):
                between(x, y, old, new, n)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, b = pos(n)
            c, d = pos(n.operand)
            put(a, b, "(" + raw[c:d].decode() + ")", "unary dropped", n.lineno)
        if isinstance(n, ast.Constant):
            a, b = pos(n)
            v = n.value
            if v is True or v is False:
                put(a, b, str(not v), "%s -> %s" % (v, not v), n.lineno)
            elif isinstance(v, int):
                put(a, b, str(v + 1), "%d -> %d" % (v, v + 1), n.lineno)
            elif isinstance(v, float):
                put(a, b, repr(v * 1.01 if v else 0.01), "float changed", n.lineno)
        if isinstance(n, (ast.If, ast.IfExp)):
            a, b = pos(n.test)
            t = raw[a:b].decode()
            put(a, b, "(True or (%s))" % t, "condition true", n.lineno)
            put(a, b, "(False and (%s))" % t, "condition false", n.lineno)
        if isinstance(n, (ast.AugAssign, ast.Expr)) or isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            a, b = pos(n)
            put(a, b, "pass", "statement dropped", n.lineno)
        if isinstance(n, ast.AugAssign):
            a, b = pos(n)
            s = raw[a:b].decode()
            for o, w in (("+=", "-="), ("*=", "/="), ("/=", "*="), ("-=", "+="), ("^=", "|=")):
                if o in s:
                    put(a, b, s.replace(o, w, 1), "%s -> %s" % (o, w), n.lineno)
                    break
        if isinstance(n, ast.Call) and len(n.args) + len(n.keywords) > 1:
            for k in n.keywords:
                if k.arg is None:
                    continue
                a, b = pos(k)
                e = b
                tail = raw[e:e + 40].decode(errors="ignore")
                j = len(tail) - len(tail.lstrip())
                if tail[j:j + 1] == ",":
                    e += j + 1
                put(a, e, "", "argument %s dropped" % k.arg, k.value.lineno)
            if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                (a, b), (c, d) = pos(n.args[0]), pos(n.args[1])
                if getattr(n.func, "id", "") != "isinstance":
                    put(a, d, raw[c:d].decode() + raw[b:c].decode() + raw[a:b].decode(), "arguments swapped", n.lineno)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            a, b = pos(n.slice) if n.slice.lower or n.slice.step or n.slice.upper else (None, None)
            if a is not None:
                c = pos(n.value)[1]
                e = pos(n)[1]
                put(c, e, "[:]", "slice dropped", n.lineno)
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.BoolOp):
            pass
        if isinstance(n, (ast.Break, ast.Continue)):
            a, b = pos(n)
            put(a, b, "pass", "break dropped", n.lineno)
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Call) and getattr(n.value.func, "attr", "") == "array" and any(
                k.arg == "copy" for k in n.value.keywords):
            pass
        for c in ast.iter_child_nodes(n):
            walk(c)

    walk(tree)
    res = []
    seen = set()
    for a, b, new, what, line, f in out:
        t = raw[:a] + new.encode() + raw[b:]
        if t in seen or t == raw:
            continue
        seen.add(t)
        try:
            compile(t, path, "exec")
        except (SyntaxError, ValueError):
            continue
        res.append({"path": path, "line": line, "fn": f, "what": what, "a": a, "b": b, "new": new,
                    "text": lines[line - 1].strip()[:100]})
    return res


FIRST = {"tolatex": "C29", "__repr__": "C29", "__str__": "C29", "__lt__": "C06", "__gt__": "C06", "__le__": "C06", "__ge__": "C06",
         "__eq__": "C06", "__ne__": "C06", "__hash__": "C06", "normalize": "C04", "matrix_repr": "C01", "Schwinger": "C09",
         "check_compatibility": "C02", "neighbor_distance": "C13", "bonds": "C14", "KPath": "C17", "show": "C31", "ShowFirstBZ": "C31",
         "ShowPolygon": "C31", "ShowLocationRelation": "C31", "ShowLine": "C31", "set_float_point_precision": "C32", "set_threshold": "C32",
         "Heisenberg": "C10", "HeisenbergFactory": "C10", "IsingFactory": "C10", "TwoSpinTermFactory": "C10", "special_cluster": "C15",
         "lattice_generator": "C15", "TotalSpin": "C11", "__mul__": "C03", "__rmul__": "C03", "getIndex": "C07"}


def order(m):
    cs = CHECKS[m["path"]].split()
    f = FIRST.get(m["fn"])
    if f in cs:
        cs.remove(f)
        cs.insert(0, f)
    return cs


def apply(m, root):
    raw = open(os.path.join(REPO, m["path"]), "rb").read()
    open(os.path.join(root, m["path"]), "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])


def work(m):
    k = mp.current_process()._identity[0]
    root = "/tmp/mut/w%d" % k
    if not os.path.isdir(root):
        subprocess.run(["cp", "-a", REPO, root], check=True)
    apply(m, root)
    env = dict(os.environ, HPY_REPO=root, PYTHONDONTWRITEBYTECODE="1")
    m["by"] = None
    try:
        for c in order(m):
            try:
                r = subprocess.run([sys.executable, V + "/harness/check.py", c], env=env, capture_output=True, text=True, timeout=400)
                rc, txt = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, txt = 99, ""
            if rc == 1 and "VIOLATION property=" in txt:
                m["by"] = c
                break
            if rc:
                m.setdefault("odd", []).append((c, rc))
        if m["by"] is None:
            r = subprocess.run("cd %s && PYTHONPATH=%s timeout 200 /opt/venv/bin/python -m pytest -q -x HamiltonianPy/tests 2>&1 | tail -3" % (root, root),
                               shell=True, env=env, capture_output=True, text=True)
            m["tests"] = r.stdout.strip().splitlines()[-1:] 
    finally:
        shutil.copy2(os.path.join(REPO, m["path"]), os.path.join(root, m["path"]))
    return m


def main():
    argv = sys.argv[1:]
    opt = lambda o, d: argv[argv.index(o) + 1] if o in argv else d
    files = [f for f in CHECKS if any(x in f for x in opt("--files", "").split(","))]
    ms = [m for f in files for m in mutants(f)]
    every, first = int(opt("--every", "1")), int(opt("--from", "0"))
    ms = ms[first::every]
    if argv[0] == "list":
        from collections import Counter
        for f, n in Counter(m["path"] for m in ms).items():
            print(n, f)
        print(len(ms))
        return
    out = opt("--out", "/tmp/mut/report.jsonl")
    done = set()
    if os.path.exists(out):
        done = {(d["path"], d["a"], d["new"]) for d in map(json.loads, open(out))}
    ms = [m for m in ms if (m["path"], m["a"], m["new"]) not in done]
    with mp.Pool(int(opt("-j", "4"))) as p, open(out, "a") as f:
        for i, m in enumerate(p.imap_unordered(work, ms)):
            f.write(json.dumps(m) + "\n")
            f.flush()
            if m["by"] is None:
                print("%d/%d" % (i, len(ms)), m["path"], m["line"], m["what"], "|", m["text"], m.get("odd", ""), m.get("tests"), flush=True)


if __name__ == "__main__":
    main()
