#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] | --replay FILE | --all
Decides one property by symbolic execution of /repo's current code.  Exit 0: held on everything explored;
exit 1 with a VIOLATION line: a counterexample that the real code reproduces; exit 2: no verdict."""
import json, os, sys, time, subprocess, resource, threading
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import VERIF, BUILD, Builder, BuildError
from props import PROPS, TRUST

KNOWN = os.path.join(VERIF, "known_findings.json")
REPLAYS = os.path.join(VERIF, "replays")


def say(*a):
    print(*a, flush=True)


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))


def run_job(mod, job, tier, seed, budget):
    params = dict(job.get("p", {}))
    if tier == "thorough":
        params.update(job.get("tp", {}))
    out = os.path.join(BUILD, "out", "%s-%d-%d.json" % (job["fn"], os.getpid(), id(job)))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    mt = min(budget, job.get("time", 240) if tier == "quick" else job.get("ttime", 1500))
    cmd = [vlib.ENGINE, mod, "-f", job["fn"], "-o", out, "--max-time", str(mt), "--query-timeout", str(job.get("qt", 20000 if tier == "quick" else 120000)),
           "--seed", str(seed), "--samples", str(job.get("samples", 4)), "--max-steps", str(job.get("steps", 20000000))]
    for k, v in params.items():
        cmd += ["-p", "%s=%d" % (k, v)]
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limit, timeout=mt + 120, env=vlib.ENV)
        err = r.stdout.decode(errors="replace")[-500:]
    except subprocess.TimeoutExpired:
        err = "engine exceeded its time limit"
    try:
        res = json.load(open(out))
        os.unlink(out)
    except Exception:
        res = {"crashed": err or "no output"}
    res["params"] = params
    res["wall_total"] = time.time() - t
    return res


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    only = None
    if "--only" in a:
        i = a.index("--only"); only = a[i + 1].split(","); del a[i:i + 2]
    pid = a[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = PROPS[pid]
    jobs = [j for j in spec["jobs"] if (tier == "thorough" or not j.get("thorough_only")) and (not only or j["fn"] in only)]
    total = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "5400"))
    try:
        vlib.build_engine()
        b = Builder()
        files = sorted({j.get("file", spec["file"]) for j in jobs})
        mods = {f: b.link_ir(os.path.join(VERIF, "harness", f)) for f in files}
    except BuildError as e:
        say("BUILD-ERROR", e)
        return 2
    tb = time.time() - t0
    nat = {}
    natlock = threading.Lock()

    def native(f):
        with natlock:
            if f not in nat:
                nat[f] = b.link_native(os.path.join(VERIF, "harness", f))
            return nat[f]
    results = [None] * len(jobs)
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("cost", 1))
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        def go(i):
            left = total - (time.time() - t0)
            results[i] = run_job(mods[jobs[i].get("file", spec["file"])], jobs[i], tier, seed, max(left, 20))
        list(ex.map(go, order))
    known = [k for k in json.load(open(KNOWN)) if k["status"] == "known" and k["property"] == pid] if os.path.exists(KNOWN) else []
    os.makedirs(REPLAYS, exist_ok=True)
    for f in os.listdir(REPLAYS):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(REPLAYS, f))
    viol, knownhit, undecided, vacuous, crashed = [], [], [], [], []
    validated = disagree = 0
    disag = []
    nrep = 0
    tn = time.time()

    def do_replay(job, params, vals, head):
        nonlocal nrep
        with natlock:
            nrep += 1
            p = os.path.join(REPLAYS, "%s-%s-%d.txt" % (pid, job["fn"], nrep))
        with open(p, "w") as f:
            f.write(vlib.replay_text(job["fn"], params, vals, head + ["property %s" % pid, "harness file %s" % job.get("file", spec["file"])]))
        return p, vlib.replay_native(native(job.get("file", spec["file"])), job["fn"], p)
    work = []
    for job, r in zip(jobs, results):
        if "crashed" in r:
            crashed.append((job["fn"], r["crashed"]))
            continue
        for v in r["violations"]:
            work.append((job, r, "viol", v))
        for s in r["samples"]:
            work.append((job, r, "sample", s))
        miss = [l for l in job.get("reach", []) if not r["reached"].get(l)]
        if miss and not r["violations"]:
            vacuous.append((job["fn"], miss, r["errors"][:3]))
        if r["engine_errors"] or r["incomplete"] or r["timed_out"] or r["abandoned"]:
            undecided.append("%s: %d paths undecided (engine limits %d, solver unknown %d, time limit %d, not explored %d) %s" % (job["fn"], r["paths_engine_error"] + r["abandoned"], r["engine_errors"], r["incomplete"], r["timed_out"], r["abandoned"], "; ".join(r["errors"][:3])))
    try:
        for f in files:
            if work:
                native(f)
    except BuildError as e:
        say("BUILD-ERROR", e)
        return 2

    def handle(w):
        job, r, kind, v = w
        if kind == "viol":
            desc = "%s: %s [%s] in %s" % (v["kind"], v["msg"], job["fn"], v["loc"])
            return w, desc, do_replay(job, r["params"], v["vals"], [desc, "stack " + v["stack"]])
        return w, None, do_replay(job, r["params"], v["vals"], ["sampled path, expected to pass", "trail " + " ".join(v["trail"])])
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        outs = list(ex.map(handle, work))
    for (job, r, kind, v), desc, (path, (verdict, detail, reached)) in outs:
        if kind == "viol":
            kn = [k for k in known if k["fn"] == job["fn"] and k["msg"] == v["msg"] and k.get("loc", v["loc"]) == v["loc"]]
            if verdict != "fail":
                undecided.append("counterexample not reproduced natively (%s %s): %s (%s)" % (verdict, detail, desc, path))
            elif kn:
                knownhit.append((kn[0], path))
            else:
                viol.append((desc, detail, path))
        else:
            if verdict == "ok" and reached == v["trail"]:
                validated += 1
                os.unlink(path)
            elif verdict == "fail":
                viol.append(("real execution of a sampled path failed [%s]" % job["fn"], detail, path))
            else:
                disagree += 1
                disag.append("%s: %s %s, engine trail %s native trail %s (%s)" % (job["fn"], verdict, detail, v["trail"], reached, path))
    tn = time.time() - tn
    funcs = set()
    for r in results:
        for f in r.get("functions", []):
            if not f.startswith(("std::", "__", "sym_", "vfs_", "_GLOBAL", "void std::", "bool std::", "operator")) and "std::" not in f.split("(")[0]:
                funcs.add(f)
    S = lambda k: int(sum(r.get(k, 0) for r in results))
    asserts = {}
    for r in results:
        for k, n in r.get("asserts", {}).items():
            asserts[k] = asserts.get(k, 0) + n
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": S("paths_done") + S("paths_violation"), "transitions": S("instructions"), "traces_validated_against_impl": validated,
            "samples": [{"harness": j["fn"], "inputs": dict(s["vals"][:24]), "reached": s["trail"][:12]} for j, r in zip(jobs, results) if "samples" in r for s in r["samples"][:1]][:12] or ["none"],
            "explanation": "states = symbolic paths explored to completion (each stands for every input satisfying its path condition); transitions = IR instructions interpreted; traces_validated = sampled path models re-executed natively with the same outcome",
            "harnesses": [{"fn": j["fn"], "bounds": j.get("bounds", ""), "params": r.get("params"), "paths": int(r.get("paths_done", 0)), "paths_outside_assumptions": int(r.get("paths_assumed_away", 0)), "queries": int(r.get("queries", 0)), "solver_s": round(r.get("solver_time", 0), 3), "wall_s": round(r.get("wall", 0), 2), "reached": r.get("reached"), "asserts": r.get("asserts")} for j, r in zip(jobs, results)],
            "assertion_evaluations": asserts,
            "queries": {"discharged": S("queries"), "sat": S("queries_sat"), "unsat": S("queries_unsat"), "unknown": S("queries_unknown"), "cache_hits": S("query_cache_hits") + S("query_model_hits")},
            "solver_s": round(sum(r.get("solver_time", 0) for r in results), 3), "max_query_s": round(max([r.get("max_query", 0) for r in results] or [0]), 3),
            "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs),
            "undecided": undecided, "disagreements": disag, "bounds": spec.get("bounds", ""), "outside_bounds": spec.get("outside", ""),
            "build_s": round(tb, 1), "native_replay_s": round(tn, 1),
        },
        "assumptions": spec.get("assumptions", []) + TRUST,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", "." + pid + ".json")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    say("%s tier=%s paths=%d queries=%d solver=%.1fs build=%.1fs native=%.1fs wall=%.1fs functions=%d validated=%d" % (pid, tier, ev["coverage"]["states"], S("queries"), ev["coverage"]["solver_s"], tb, tn, time.time() - t0, len(funcs), validated))
    if os.environ.get("VERIF_VERBOSE"):
        for j, r in zip(jobs, results):
            say("  %-28s paths %5d viol %d queries %5d solver %6.1f wall %6.1f reached %s" % (j["fn"], r.get("paths_done", -1), len(r.get("violations", [])), r.get("queries", 0), r.get("solver_time", 0), r.get("wall", 0), r.get("reached")))
    for u in undecided:
        say("UNDECIDED", u)
    for d in disag:
        say("DISAGREEMENT", d)
    seen = set()
    for k, path in knownhit:
        if k["id"] not in seen:
            seen.add(k["id"])
            say("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    for desc, detail, path in viol:
        say("  violated: %s -- native replay: %s" % (desc, detail))
    for desc, detail, path in viol:
        say("VIOLATION property=%s replay=%s" % (pid, path))
    if viol:
        return 1
    if crashed:
        say("ENGINE-ERROR", crashed)
        return 2
    if vacuous:
        say("NO-VERDICT: harness points not reached:", vacuous)
        return 2
    return 0


def replay(path):
    fn = f = None
    for l in open(path):
        if l.startswith("fn "):
            fn = l.split()[1]
        if l.startswith("# harness file "):
            f = l.split()[3]
    b = Builder()
    exe = b.link_native(os.path.join(VERIF, "harness", f))
    v, d, r = vlib.replay_native(exe, fn, os.path.abspath(path))
    say(v, d, r)
    return 0 if v == "ok" else 1


if __name__ == "__main__":
    sys.exit(main())
