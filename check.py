#!/usr/bin/env python3
"""check.py ID [quick|thorough]  decides one property; check.py --replay FILE re-runs a reported counterexample; check.py --setup builds."""
import glob, json, os, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib
from props import PROPS

V = sxlib.VERIF
EVID = os.environ.get("SX_EVIDENCE", os.path.join(V, "evidence"))
NOT_CONFIRMED = ("DONE", "ASSUME", "DIVERGED")


def build_run(run, thorough):
    hf = ["-DSX_THOROUGH=%d" % thorough] + run.get("hflags", [])
    return sxlib.build(run["h"], run.get("src", []), hflags=hf)


def known():
    out = {}
    f = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(f):
        for l in open(f):
            if l.strip():
                j = json.loads(l)
                if j.get("status") == "open":
                    out[j["id"]] = j
    return out


def crosscheck(d, limit):
    """put a sample of the discharged queries to cvc5 as well"""
    n = agree = 0
    bad = []
    def one(f):
        want = f.rsplit(".", 2)[1]
        try:
            r = subprocess.run(["cvc5", "--tlimit=8000", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=20)
        except subprocess.TimeoutExpired:
            return None
        a = r.stdout.strip().splitlines()
        a = a[0] if a else ""
        return (f, want, a) if a in ("sat", "unsat") else None
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, sorted(glob.glob(d + "/*.smt2"))[:limit]):
            if r:
                n += 1
                if r[1] == r[2]:
                    agree += 1
                else:
                    bad.append(r)
    return n, agree, bad


def do_run(pid, run, tier, seed, jobs):
    th = tier == "thorough"
    t0 = time.time()
    eng, nat = build_run(run, th)
    tb = time.time() - t0
    entry = "sx_main_" + run["e"]
    limit = run.get("tt", run.get("t", 60) * 8) if th else run.get("t", 60)
    smt = tempfile.mkdtemp(prefix="sxq")
    try:
        args = ["--validate", str(run.get("validate", 3 if not th else 8)), "--seed", str(seed), "--smt-dump", smt, "--smt-dump-max", "2" if not th else "12"] + run.get("args", []) + (run.get("targs", []) if th else [])
        if run.get("finding"):
            args += ["--max-viol", "1"]
        # when the run has a witness goal the clock belongs to it, not to the build
        res = sxlib.explore(eng, entry, limit, jobs=run.get("jobs", jobs), args=args)
        qn, qa, qbad = crosscheck(smt, 3 if not th else 24)
    finally:
        shutil.rmtree(smt, ignore_errors=True)
    exe = sxlib.native(nat, entry)
    viols = []
    for v in res["violations"]:
        if sum(x["confirmed"] for x in viols) >= 4:
            break
        vg = v["kind"] in ("memory",)
        st = sxlib.replay(exe, v["values"], timeout=12 if v["kind"] == "nontermination" else 60, valgrind=vg)
        if st[0] in NOT_CONFIRMED and vg:
            st2 = sxlib.replay(sxlib.native(nat, entry, asan=True), v["values"], timeout=60)
            if st2[0] not in NOT_CONFIRMED:
                st = st2
        v["replay"] = st[:2]
        v["confirmed"] = st[0] not in NOT_CONFIRMED
        viols.append(v)
    ok = bad = 0
    mism = []
    for p in res["paths_sample"][: (24 if not th else 80)]:
        st = sxlib.replay(exe, p["values"], timeout=60)
        if st[0] == "DONE" and st[2] == p["obs"]:
            ok += 1
        else:
            bad += 1
            mism.append({"values": p["values"][:40], "native": st[:2], "native_obs": st[2][:20], "encoding_obs": p["obs"][:20]})
    return dict(run=run, res=res, viols=viols, validated=ok, mismatched=bad, mism=mism, q=(qn, qa, qbad), build_s=tb, wall=time.time() - t0, limit=limit)


def save_replay(pid, run, tier, v, n):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (pid, n))
    json.dump({"property": pid, "harness": run["h"], "entry": run["e"], "tier": tier, "kind": v["kind"], "msg": v["msg"], "stack": v.get("stack"), "values": v["values"], "native": v["replay"]}, open(p, "w"), indent=1)
    return p


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = PROPS[pid]
    os.makedirs(EVID, exist_ok=True)
    ev = os.path.join(EVID, pid + ".json")
    if os.path.exists(ev):
        os.unlink(ev)
    kf = known()
    runs = [r for r in prop["runs"] if tier == "thorough" or not r.get("thorough_only")]
    sel = os.environ.get("SX_ONLY")
    if sel:
        runs = [r for r in runs if r["e"] in sel.split(",")]
    par = prop.get("par", 4)
    jobs = max(2, sxlib.JOBS * 2 // min(par, len(runs)))
    # compile once, one after the other (each compile is parallel itself)
    for r in runs:
        build_run(r, tier == "thorough")
    sxlib.engine()
    with ThreadPoolExecutor(par) as ex:
        outs = list(ex.map(lambda r: do_run(pid, r, tier, seed, jobs), runs))
    rc, nrep, nviol, lines = 0, 0, 0, []
    err = []
    tot = {}
    funcs, covers, samples, why, perrun, assume = set(), {}, [], [], [], []
    for o in outs:
        r, res = o["run"], o["res"]
        s = res["stats"]
        for k, v in s.items():
            tot[k] = max(tot.get(k, 0), v) if k.startswith("max_") else tot.get(k, 0) + v
        funcs |= res["funcs"]
        for v in o["viols"]:
            if not v["confirmed"] and v["kind"] == "nontermination":   # long, but it ends
                res["why"].add("a path was cut off: " + v["msg"])
                continue
            if not v["confirmed"]:
                err.append("%s: a counterexample did not reproduce on the compiled code: %s %s, native: %s at %s values %s" % (r["e"], v["kind"], v["msg"], v["replay"], v.get("stack", "")[:300], v["values"][:30]))
                continue
            if r.get("finding") in kf:
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, kf[r["finding"]]["what"]))
                continue
            nviol += 1
            p = save_replay(pid, r, tier, v, nrep)
            nrep += 1
            lines.append("  %s: %s: %s  [native run: %s]\n    at %s\n    values %s" % (r["e"], v["kind"], v["msg"], " ".join(v["replay"]), v.get("stack", "")[:400], " ".join("%s=%d" % tuple(x) for x in v["values"][:24])))
            lines.append("VIOLATION property=%s replay=%s" % (pid, p))
            rc = 1
        complete = not res["why"] and not s.get("pending")
        if not complete:
            why.append("%s: %s" % (r["e"], "; ".join(sorted(res["why"]))[:300]))
        if o["mismatched"]:
            err.append("%s: %d sampled paths behave differently in the compiled code: %s" % (r["e"], o["mismatched"], json.dumps(o["mism"][:2])[:900]))
        if o["q"][2]:
            err.append("%s: cvc5 disagrees with z3: %s" % (r["e"], o["q"][2][:2]))
        if not r.get("finding"):
            if complete and not s.get("asserts") and not o["viols"]:
                err.append("%s: vacuous: no assertion was reached" % r["e"])
            miss = [c for c in r.get("cover", []) if not res["cover"].get(c)]
            if complete and miss and not o["viols"]:
                err.append("%s: vacuous: never reached %s" % (r["e"], miss))
            if not s.get("paths") and not o["viols"]:
                err.append("%s: no path was completed (%s) %s" % (r["e"], sorted(res["why"]), res["err"][-300:]))
        perrun.append({"entry": r["e"], "harness": r["h"], "bounds": (r["bound_t"] if tier == "thorough" and "bound_t" in r else r["bound"]), "complete_within_bounds": complete, "time_limit_s": o["limit"], "paths": s.get("paths", 0), "forks": s.get("forks", 0), "instructions": s.get("instrs", 0),
                       "assertions": s.get("asserts", 0), "assertions_on_symbolic_values": s.get("asserts_sym", 0), "queries": s.get("z3_calls", 0), "unsat": s.get("z3_unsat", 0), "sat": s.get("z3_sat", 0), "unknown": s.get("z3_unknown", 0), "answered_from_models_or_cache": s.get("model_hits", 0) + s.get("cache_hits", 0),
                       "solver_s": round(s.get("z3_time", 0), 2), "wall_s": round(o["wall"], 1), "paths_replayed_equal": o["validated"], "cvc5_agreed": o["q"][1], "covered": {k: v for k, v in list(res["cover"].items())[:30]}})
        assume += r.get("assume", [])
        for p in res["paths_sample"][:2]:
            samples.append({"entry": r["e"], "inputs": p["values"][:16], "observed": p["obs"][:12], "path_conditions": p["cons"]})
    fl = sorted(funcs)
    cov = {"states": int(tot.get("paths", 0) + tot.get("forks", 0)), "transitions": int(tot.get("instrs", 0)), "traces_validated_against_impl": sum(o["validated"] for o in outs), "samples": samples[:12],
           "exhaustive": not why, "incomplete": why[:20], "paths": int(tot.get("paths", 0)), "queries_discharged": int(tot.get("z3_unsat", 0) + tot.get("z3_sat", 0)), "queries_unknown": int(tot.get("z3_unknown", 0)), "assertions_checked": int(tot.get("asserts", 0)),
           "assertions_on_symbolic_values": int(tot.get("asserts_sym", 0)), "solver_time_s": round(tot.get("z3_time", 0), 2), "slowest_query_s": round(tot.get("max_query", 0), 3), "cvc5_cross_checked": sum(o["q"][0] for o in outs), "cvc5_agreed": sum(o["q"][1] for o in outs),
           "functions_encoded_count": len(fl), "functions_encoded": [f[:110] for f in fl[:150]], "runs": perrun, "outside_the_bounds": prop.get("outside", ""),
           "explanation": "states = completed paths plus fork points of the symbolic execution of the functions listed, compiled by clang from /repo's current source; transitions = LLVM instructions executed symbolically; every value within the bounds of each run is covered by the solver's verdicts"}
    out = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": nviol,
           "assumptions": sorted(set(assume + prop.get("assumptions", []) + ["LLVM IR produced by clang 18 -O1-level cleanup stands for the code gcc/clang compile in the project's build", "libstdc++/libc parts outside headers are replaced by the models in rt/rt.cpp and engine/extern.inc; sampled paths are replayed natively against the real libraries", "allocation never fails"]))}
    txt = json.dumps(out, indent=1)
    if len(txt) > 60000:
        cov["functions_encoded"] = cov["functions_encoded"][:40]
        cov["samples"] = cov["samples"][:4]
        txt = json.dumps(out, indent=1)
    open(ev, "w").write(txt)
    for l in dict.fromkeys(lines):
        print(l)
    for w in why:
        print("INCOMPLETE " + w)
    for e in err:
        print("ERROR " + e)
    print("%s %s: %d paths, %d assertions, %d queries (%.1fs solver), %d paths replayed, %.1fs%s" % (pid, tier, tot.get("paths", 0), tot.get("asserts", 0), tot.get("z3_calls", 0), tot.get("z3_time", 0), sum(o["validated"] for o in outs), time.time() - t0, "" if not rc else " VIOLATED"))
    if os.environ.get("SX_V"):
        for r in perrun:
            print("   %-24s paths %d asserts %d/%d q %d %.1fs solver, wall %.1fs %s cover %s" % (r["entry"], r["paths"], r["assertions"], r["assertions_on_symbolic_values"], r["queries"], r["solver_s"], r["wall_s"], "" if r["complete_within_bounds"] else "INCOMPLETE", r["covered"]))
    if rc:
        return 1
    return 2 if err else 0


def setup():
    sxlib.engine()
    seen = set()
    for pid, p in PROPS.items():
        for r in p["runs"]:
            if r.get("thorough_only"):
                continue
            try:
                eng, nat = build_run(r, False)
                if "sx_main_" + r["e"] not in seen:
                    sxlib.native(nat, "sx_main_" + r["e"])
            except sxlib.BuildError as e:
                print("setup: %s %s: %s" % (pid, r["e"], e))
    return 0


def replay_file(p):
    j = json.load(open(p))
    run = next(r for pr in PROPS.values() for r in pr["runs"] if r["h"] == j["harness"] and r["e"] == j["entry"])
    eng, nat = build_run(run, j["tier"] == "thorough")
    st = sxlib.replay(sxlib.native(nat, "sx_main_" + run["e"]), j["values"], valgrind=j["kind"] == "memory")
    print(st)
    return 0 if st[0] in NOT_CONFIRMED else 1


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            sys.exit(setup())
        if sys.argv[1] == "--replay":
            sys.exit(replay_file(sys.argv[2]))
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(sys.argv[1], tier))
    except sxlib.BuildError as e:
        print("ERROR cannot build: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
