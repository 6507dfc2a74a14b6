#!/usr/bin/env python3
"""Validate planted changes and store the good ones under /verif/seeded.

usage: mkseed.py [-j N] [--only ID,ID] [--recheck] [--checks]
Each definition in tools/seed_defs*.py is applied to a scratch copy of /repo;
it is kept when (a) only original lines change, (b) the baseline tests pass,
(c) its demonstration passes on /repo and fails with the change. Whether the
property's quick check reports it is printed and stored in tools/seeds.json;
it plays no part in keeping it."""
import argparse, glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))

DEMO_SH = """#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken (cwd: /repo)
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
export NUMBA_CACHE_DIR="$work/numba" MPLCONFIGDIR="$work/mpl" MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" SCRATCH="$work"
/opt/venv/bin/python "$here/demo.py"
"""


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "seed_defs*.py"))):
        spec = importlib.util.spec_from_file_location("m", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.SEEDS
    assert len({s["id"] for s in out}) == len(out), "duplicate ids"
    return out


def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout


def tests(copy, tmp):
    xml = os.path.join(tmp, "junit.xml")
    rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                  "--timeout=300", "-p", "randomly", "--randomly-seed=1",
                  "--randomly-dont-reorganize", "--rootdir=" + copy,
                  "-o", "junit_family=xunit2", "--junitxml=" + xml,
                  "-c", "HamiltonianPy/tests/pytest.ini", "HamiltonianPy/tests"],
                 cwd=copy, env={"PYTHONPATH": copy, "MPLBACKEND": "Agg",
                                "PYTHONHASHSEED": "0",
                                "PYTHONDONTWRITEBYTECODE": "1",
                                "NUMBA_CACHE_DIR": tmp + "/numba",
                                "MPLCONFIGDIR": tmp + "/mpl"})
    return rc == 0, out[-1500:]


def original_lines(rel, olds):
    rc, out = sh(["git", "-C", "/repo", "show", "0ee5910:" + rel])
    return rc == 0 and all(o in out for o in olds)


def run(s, args):
    sid = s["id"]
    res = {"id": sid, "property": s["property"]}
    tmp = tempfile.mkdtemp(prefix="seed_%s_" % sid, dir="/tmp")
    try:
        copy = os.path.join(tmp, "repo")
        sh(["cp", "-a", "/repo", copy])
        for rel, old, new in s["edits"]:
            p = os.path.join(copy, rel)
            t = open(p).read()
            if t.count(old) < 1:
                return dict(res, status="edit not found: %r" % old[:60])
            if t.count(old) > 1 and not s.get("all"):
                return dict(res, status="edit ambiguous: %r" % old[:60])
            t = t.replace(old, new)
            open(p, "w").write(t)
            rc, base = sh(["git", "-C", "/repo", "show", "0ee5910:" + rel])
            if old not in base:
                return dict(res, status="not original: %r" % old[:60])
        rc, diff = sh(["git", "-C", copy, "diff"])
        if not diff.strip():
            return dict(res, status="empty diff")
        d = os.path.join(tmp, "seed")
        os.mkdir(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        if not args.checks:
            rc0, o0 = sh(["bash", d + "/demo.sh"], cwd="/repo", timeout=300)
            if rc0 != 0:
                return dict(res, status="demo fails unchanged", out=o0[-800:])
            rc1, o1 = sh(["bash", d + "/demo.sh"], cwd=copy, timeout=300)
            if rc1 == 0:
                return dict(res, status="demo passes with the change")
            ok, out = tests(copy, tmp)
            if not ok:
                return dict(res, status="tests notice it", out=out[-600:])
            res["demo"] = o1.strip().splitlines()[-1][:150] if o1.strip() else ""
        cmd = [PY, "harness/check.py", s["property"]]
        rc, out = sh(cmd, cwd=VERIF, env={"HPY_REPO": copy, "VERIF_SEED": "1",
                     "HPY_EVID": tmp, "PYTHONDONTWRITEBYTECODE": "1"})
        caught = rc == 1 and ("VIOLATION property=%s" % s["property"]) in out
        res["caught"] = caught
        res["rc"] = rc
        if not caught:
            res["out"] = out[-600:]
        res["status"] = "kept"
        dst = os.path.join(VERIF, "seeded", sid)
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(d, dst)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("--only")
    ap.add_argument("--checks", action="store_true")
    ap.add_argument("--all", action="store_true")
    args = ap.parse_args()
    db = os.path.join(HERE, "seeds.json")
    known = json.load(open(db)) if os.path.exists(db) else {}
    defs = load()
    if args.only:
        want = args.only.split(",")
        defs = [s for s in defs if any(s["id"].startswith(w) or
                                       s["property"] == w for w in want)]
    elif not args.all:
        defs = [s for s in defs if s["id"] not in known]
    os.makedirs(os.path.join(VERIF, "seeded"), exist_ok=True)
    with ThreadPoolExecutor(args.j) as ex:
        for r in ex.map(lambda s: run(s, args), defs):
            print(r["id"], r["status"],
                  "" if "caught" not in r else
                  ("CAUGHT" if r["caught"] else "MISSED"), flush=True)
            if r.get("out"):
                print("   ", r["out"].replace("\n", "\n    "))
            if r["status"] == "kept":
                known[r["id"]] = {"property": r["property"],
                                  "caught": r["caught"]}
                json.dump(dict(sorted(known.items())), open(db, "w"), indent=1)


main()
