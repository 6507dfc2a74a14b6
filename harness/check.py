#!/usr/bin/env python3
"""check.py <PROPERTY>: decide one property on /repo's working tree.

1. TLC explores the design configurations of the property's specification
   exhaustively (invariants; they also generate behaviours to replay);
2. a driver replays the generated behaviours and seeded random programs on the
   real code and records every public call with its projected outcome;
3. TLC checks every recorded trace against the same specification.
Exit 0: held; 1: VIOLATION; 2: machinery failure."""
import collections, concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, HERE)
from registry import REG                                             # noqa: E402

PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()


BROKEN = []       # failures of the code outside recorded calls
FAIL = []         # machinery failures; reported unless a violation was seen


def die(msg):
    print("ERROR", msg)
    sys.exit(2)


def tlc(work, module, cfg, env, workers, timeout, heap="3g"):
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss32m", "-Xmx" + heap,
           "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta,
           "-config", cfg, module + ".tla"]
    out = os.path.join(meta, "out.txt")
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT,
                             env=dict(os.environ, **env), start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = -9
    txt = open(out, errors="replace").read()
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
    gen, dis = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    ok = rc == 0 and "No error has been found" in txt
    return {"rc": rc, "ok": ok, "txt": txt, "generated": gen, "distinct": dis}


def run_design(work, d, tier):
    cfg = d["cfg"]
    if tier == "thorough" and d.get("cfg_thorough"):
        cfg = d["cfg_thorough"]
    gen = os.path.join(work, "gen_%s.ndjson" % cfg)
    r = tlc(work, d["module"], cfg + ".cfg", {"GENOUT": gen}, d.get("workers", 1),
            d.get("timeout", 300 if tier == "quick" else 3000), d.get("heap", "3g"))
    lines = []
    for ln in r["txt"].splitlines():
        if ln.startswith('"GEN '):
            lines.append(json.loads(ln)[4:])
        elif ln.startswith("GEN "):
            lines.append(ln[4:])
    r["gen"] = lines
    r["cfgname"] = cfg
    return r


def run_driver(work, prop, reg, seed, tier, genfile):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(NUMBA_CACHE_DIR=os.path.join(work, "numba"), PYTHONDONTWRITEBYTECODE="1",
               MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(work, "mpl"),
               PYTHONHASHSEED="0", PYTHONPATH=HERE, HOME=work,
               OMP_NUM_THREADS="2", MKL_NUM_THREADS="2")
    if os.environ.get("HPY_REPO"):
        env["PYTHONPATH"] = os.environ["HPY_REPO"] + ":" + HERE
    out = os.path.join(work, "traces")
    os.makedirs(out)
    cwd = os.path.join(work, "cwd")
    os.makedirs(cwd)
    start, crashes = 0, 0
    limit = 400 if tier == "quick" else 3000
    t_end = time.time() + limit
    while True:
        log = os.path.join(work, "driver.log")
        with open(log, "w") as f:
            p = subprocess.Popen(
                [PY, "-X", "faulthandler", os.path.join(HERE, reg["driver"] + ".py"),
                 "--out", out, "--prop", prop, "--seed", str(seed), "--tier", tier,
                 "--start", str(start), "--gen", genfile],
                cwd=cwd, stdout=f, stderr=subprocess.STDOUT, env=env,
                start_new_session=True)
            # a call stuck in compiled code does not see the alarm: watch it
            pend = os.path.join(out, "pending.json")
            last, stamp = None, time.time()
            rc = None
            while rc is None:
                try:
                    rc = p.wait(0.5)
                except subprocess.TimeoutExpired:
                    try:
                        st = os.stat(pend)
                        cur = (st.st_mtime_ns, st.st_size)
                    except OSError:
                        cur = None
                    if cur != last:
                        last, stamp = cur, time.time()
                    if time.time() - stamp > 75 or time.time() > t_end:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        rc = -999
        txt = open(log, errors="replace").read()
        if rc == 0 and "DRIVER-DONE" in txt:
            return out, int(txt.split("DRIVER-DONE")[1].split()[0])
        if rc == 9 and "CODE-FAIL " in txt:
            ev = {"a": "Import", "r": dict(json.loads(txt.split("CODE-FAIL ")[1].splitlines()[0]), t="err")}
            BROKEN.append(("driver", {"sid": start, "ev": [ev]}, 1, ev, ["code-fails"]))
            return out, start
        try:
            pd = json.loads(open(pend).read())
        except Exception:
            pd = None
        # a Python-level failure of the driver itself is machinery, not a verdict
        if rc in (1, 2, 7, 8) or pd is None or "rec" not in pd:
            print(txt[-3000:])
            FAIL.append("driver failed rc=%s" % rc)
            return out, start
        if time.time() > t_end and rc == -999 and time.time() - stamp <= 75:
            print(txt[-2000:])
            FAIL.append("driver exceeded its time budget")
            return out, start
        with open(os.path.join(out, "trace_%s.ndjson" % pd["module"]), "a") as f:
            f.write(json.dumps(pd["rec"], separators=(",", ":")) + "\n")
        start = pd["i"] + 1
        crashes += 1
        if crashes > 3:
            return out, start


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    reg = REG[prop]
    work = tempfile.mkdtemp(prefix="hpy_%s_" % prop)
    try:
        rc = run(prop, tier, seed, reg, work)
    finally:
        if os.environ.get("HPY_KEEP"):
            print("KEPT", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, reg, work):
    # -- 1. design runs, in parallel
    designs = reg.get("design", [])
    genfile = os.path.join(work, "gen.ndjson")
    states = trans = 0
    dinfo = []
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda d: run_design(work, d, tier), designs))
    with open(genfile, "w") as f:
        for d, r in zip(designs, res):
            if not r["ok"]:
                print(r["txt"][-4000:])
                die("design run %s failed (rc=%s)" % (r["cfgname"], r["rc"]))
            if r["distinct"] < d.get("min_states", 1):
                die("design run %s is vacuous: %d states" % (r["cfgname"], r["distinct"]))
            if len(r["gen"]) < d.get("min_gen", 0):
                die("design run %s generated %d behaviours" % (r["cfgname"], len(r["gen"])))
            for ln in r["gen"]:
                f.write(ln + "\n")
            states += r["distinct"]
            trans += r["generated"]
            dinfo.append({"spec": d["module"], "config": r["cfgname"], "states": r["distinct"],
                          "transitions": r["generated"], "generated_behaviours": len(r["gen"])})
    t1 = time.time()
    # -- 2. driver
    out, nsess = run_driver(work, prop, reg, seed, tier, genfile)
    t2 = time.time()
    # -- 3. trace validation
    rejects = []
    events = 0
    acts = collections.Counter()
    outcomes = collections.Counter()
    distinct = set()
    samples = []
    ntr = ignored = 0
    tinfo = []
    for path in sorted(glob.glob(os.path.join(out, "trace_*.ndjson"))):
        mod = os.path.basename(path)[6:-7]
        recs = [json.loads(x) for x in open(path)]
        ntr += len(recs)
        expect = 0
        for r in recs:
            expect += len(r["ev"]) + 1
            events += len(r["ev"])
            for e in r["ev"]:
                acts[mod + "." + e["a"]] += 1
                outcomes[e["r"].get("e", "value") if e["r"]["t"] == "err" else "value"] += 1
                distinct.add(hashlib.md5(json.dumps(e, sort_keys=True).encode()).digest())
        if recs:
            pick = recs[len(recs) // 2]
            s = json.dumps(pick)
            samples.append(pick if len(s) < 3000 else {"sid": pick["sid"], "excerpt": s[:2500]})
        r = tlc(work, mod, mod + ".cfg", {"TRACE": path}, 8,
                420 if tier == "quick" else 3000, "8g")
        seen = set()
        at = []
        if not r["ok"]:
            ks = re.findall(r"^/\\ k = (\d+)$", r["txt"], re.M)
            ss = re.findall(r"^/\\ s = (\d+)$", r["txt"], re.M)
            at = [(ss[-1], ks[-1])] if ss and ks else []
        if at and r["rc"] > 0 and "Error:" in r["txt"]:
            # the specification cannot even be evaluated on what the code answered
            key = (int(at[-1][0]), int(at[-1][1]))
            rec = recs[key[0] - 1]
            if key[1] <= len(rec["ev"]):
                print(r["txt"][-3000:])
                seen.add(key)
                rejects.append((mod, rec, key[1], rec["ev"][key[1] - 1], ["not-a-value-of-the-model"]))
        if not r["ok"] and not seen:
            print(r["txt"][-5000:])
            FAIL.append("trace run %s failed (rc=%s)" % (mod, r["rc"]))
        if r["ok"] and r["distinct"] != expect:
            print(r["txt"][-3000:])
            FAIL.append("trace run %s visited %d of %d positions" % (mod, r["distinct"], expect))
        states += r["distinct"]
        trans += r["generated"]
        tinfo.append({"spec": mod, "sessions": len(recs), "positions": expect})
        for m in re.finditer(r'REJECT (\d+) (\d+) (\{[^}\n]*\})', r["txt"]):
            key = (int(m.group(1)), int(m.group(2)))
            if key in seen:
                continue
            seen.add(key)
            rec = recs[key[0] - 1]
            ev = rec["ev"][key[1] - 1]
            if mod + "." + ev["a"] in reg["ignore"]:
                ignored += 1          # history for this property, judged by another check
                continue
            rejects.append((mod, rec, key[1], ev, sorted(re.findall(r'[\w-]+', m.group(3)))))
        if r["txt"].count("REJECT ") and not seen:
            FAIL.append("unparsable rejection")
    rejects += BROKEN
    t3 = time.time()
    if ntr == 0 or events < reg.get("min_events", 1):
        FAIL.append("driver recorded %d events" % events)
    # -- 4. known findings
    known = []
    kf = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(kf):
        known = [json.loads(x) for x in open(kf) if x.strip()]
    known = [k for k in known if k.get("property") == prop and k.get("status") == "known"]
    fresh, hit = [], set()
    for rj in rejects:
        for i, k in enumerate(known):
            if matches(k["match"], rj):
                hit.add(i)
                break
        else:
            fresh.append(rj)
    for i in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[i]["what"]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans,
                       "traces_validated_against_impl": ntr,
                       "events_validated": events, "distinct_events": len(distinct),
                       "events_by_action": dict(acts), "outcomes": dict(outcomes),
                       "design_runs": dinfo, "trace_runs": tinfo,
                       "rejected_events": len(rejects), "judged_by_other_checks": ignored, "samples": samples,
                       "timing_s": {"design": round(t1 - T0, 1), "driver": round(t2 - t1, 1),
                                    "trace": round(t3 - t2, 1)}},
          "assumptions": reg.get("assumptions", []),
          "wall_s": round(time.time() - T0, 2), "violations": len(fresh)}
    if FAIL and not fresh:
        die("; ".join(FAIL))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not fresh:
        print("OK property=%s states=%d traces=%d events=%d wall=%.1fs" %
              (prop, states, ntr, events, time.time() - T0))
        return 0
    rp = os.path.join(VERIF, "replay")
    os.makedirs(rp, exist_ok=True)
    path = os.path.join(rp, "%s.json" % prop)
    with open(path, "w") as f:
        json.dump([{"spec": m, "step": k, "violated": c, "event": e,
                    "session": rec} for m, rec, k, e, c in fresh[:20]], f, indent=1)
    byc = collections.Counter(c for *_, cs in fresh for c in cs)
    print("rejected events: %d; clauses: %s" % (len(fresh), dict(byc)))
    m, rec, k, e, c = fresh[0]
    print("first: spec=%s session=%s step=%d violated=%s event=%s" %
          (m, rec["sid"], k, c, json.dumps(e)[:900]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def matches(pat, rj):
    mod, rec, k, ev, cl = rj
    if pat.get("spec") not in (None, mod):
        return False
    if not set(cl) <= set(pat.get("clauses", cl)):
        return False
    for f, v in pat.get("event", {}).items():
        if ev.get(f) != v:
            return False
    for f, v in pat.get("session", {}).items():
        if rec.get(f) != v:
            return False
    return True


if __name__ == "__main__":
    main()
