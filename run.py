#!/opt/venv/bin/python
"""
Runner of the checks:   run.py <ID> [--tier quick|thorough] [--case NAME] [--replay FILE]

Exit status 0: the property held on everything explored.  1: a counterexample was found, replayed
against the unmodified code in a fresh interpreter, and is reported as VIOLATION.
"""
import os
import sys

_ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMPI_MCA_ess_singleton_isolated": "1",
    "OMPI_ALLOW_RUN_AS_ROOT": "1",
    "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "TZ": "UTC",
}
PY = "/opt/venv/bin/python"
if any(os.environ.get(k) != v for k, v in _ENV.items()) or "PYTHONPATH" in os.environ:
    e = dict(os.environ)
    e.update(_ENV)
    e.pop("PYTHONPATH", None)
    os.execve(PY, [PY] + sys.argv, e)

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import argparse            # noqa: E402
import importlib           # noqa: E402
import json                # noqa: E402
import multiprocessing     # noqa: E402
import re                  # noqa: E402
import resource            # noqa: E402
import shutil              # noqa: E402
import subprocess          # noqa: E402
import tempfile            # noqa: E402
import time                # noqa: E402
import traceback           # noqa: E402
import warnings            # noqa: E402
from concurrent.futures import ProcessPoolExecutor, as_completed   # noqa: E402
from concurrent.futures.process import BrokenProcessPool           # noqa: E402

warnings.simplefilter("ignore")

# ply would rewrite the tracked parsetab.py when the grammar changed
import ply.yacc            # noqa: E402
ply.yacc.LRGeneratedTable.write_table = lambda self, *a, **k: None
ply.yacc.LRGeneratedTable.pickle_table = lambda self, *a, **k: None

BUDGET = {"quick": 200, "thorough": 780}
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))


def load(pid):
    import pysym.harness as H
    H.preload()
    return importlib.import_module("checks." + pid.lower())


def run_case(args):
    """Worker: explores one case.  Returns a result dictionary"""
    pid, name, tier, deadline = args
    import pysym.harness as H
    try:
        return H.explore_case(load(pid), name, tier, deadline)
    except BaseException as e:      # noqa
        return {"case": name, "status": "error", "what": "%s: %s" % (type(e).__name__, e),
                "trace": traceback.format_exc()[-2000:], "stats": {}, "functions": []}


def known_findings(pid):
    """case name -> description, for the findings listed for this property"""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def replay_file(pid, path):
    import pysym.harness as H
    with open(path) as f:
        rec = json.load(f)
    mod = load(pid)
    r = H.concrete_run(mod, rec["case"], rec.get("tier", "quick"), rec["model"])
    if r[0] == "violated":
        print("REPRODUCED property=%s case=%s: %s" % (pid, rec["case"], r[1]))
        return 1
    print("not reproduced (%s): %s" % (r[0], r[1]))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--case", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.id.upper()
    if a.replay:
        sys.exit(replay_file(pid, a.replay))
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in BUDGET:
        tier = "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    os.environ["VERIF_SCRATCH"] = scratch
    try:
        code = check(pid, tier, a, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def check(pid, tier, a, t0, scratch):
    mod = load(pid)
    names = [c[0] for c in mod.cases(tier)]
    assert len(set(names)) == len(names), "duplicate case names"
    if a.case:
        names = [n for n in names if re.search(a.case, n)]
    deadline = t0 + BUDGET[tier]
    known = known_findings(pid)
    results, violation, knownhits = [], None, []
    ctx = multiprocessing.get_context("fork")
    pool = ProcessPoolExecutor(max_workers=min(a.jobs, max(1, len(names))), mp_context=ctx)
    futs = {pool.submit(run_case, (pid, n, tier, deadline)): n for n in names}
    try:
        for f in as_completed(futs):
            try:
                r = f.result()
            except BrokenProcessPool:
                r = {"case": futs[f], "status": "error", "what": "worker process died",
                     "stats": {}, "functions": []}
            results.append(r)
            if a.v:
                print("  %-50s %-12s %6.2fs %s" % (r["case"], r["status"], r.get("wall", 0),
                                                    r.get("what", "")), flush=True)
                if r["status"] == "error" and r.get("trace"):
                    print(r["trace"])
            if r["status"] == "violated":
                if r["case"] in known:
                    knownhits.append(r["case"])
                    print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[r["case"]],
                                                                   r["what"][:200]))
                    continue
                conf, path = confirm(pid, r, tier)
                r["confirmed"] = conf
                if conf:
                    violation = (r, path)
                    break
                r["status"] = "inconclusive"
                r["what"] = "counterexample not reproduced: " + r["what"]
    finally:
        for f in futs:
            f.cancel()
        if violation:
            for p in list((pool._processes or {}).values()):
                p.kill()
        pool.shutdown(wait=not violation, cancel_futures=True)
    write_evidence(pid, mod, tier, names, results, violation, time.time() - t0, knownhits)
    bad = [r for r in results if r["status"] in ("error", "inconclusive")]
    for r in bad:
        print("INCONCLUSIVE property=%s case=%s %s" % (pid, r["case"], r.get("what", "")[:300]))
    if violation:
        r, path = violation
        print("counterexample: case=%s %s" % (r["case"], r["what"]))
        print("inputs: %s" % json.dumps(r["model"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    n = sum(1 for r in results if r["status"] == "ok")
    print("OK property=%s tier=%s cases=%d/%d paths=%d queries=%d solver=%.1fs wall=%.1fs" % (
        pid, tier, n, len(names), sum(r["stats"].get("completed", 0) for r in results),
        sum(r["stats"].get("queries", 0) for r in results),
        sum(r["stats"].get("solver_s", 0) for r in results), time.time() - t0))
    return 0


def confirm(pid, r, tier):
    """replay in a fresh interpreter against the unmodified code"""
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.=-]", "_", r["case"])[:80]))
    with open(path, "w") as f:
        json.dump({"property": pid, "case": r["case"], "tier": tier, "model": r["model"],
                   "what": r["what"],
                   "how": "python %s %s --replay %s" % (os.path.join(HERE, "run.py"), pid, path)},
                  f, indent=1)
    p = subprocess.run([PY, os.path.join(HERE, "run.py"), pid, "--replay", path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode == 1, path


def write_evidence(pid, mod, tier, names, results, violation, wall, knownhits):
    os.makedirs(EVID, exist_ok=True)
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = round(tot.get(k, 0) + v, 3) if k != "max_depth" else max(tot.get(k, 0), v)
    funcs = sorted(set(f for r in results for f in r["functions"]))
    samples = []
    for r in results:
        for w in r.get("witnesses", [])[:1]:
            samples.append({"case": r["case"], "model": w})
    if len(samples) > 6:
        samples = samples[:: max(1, len(samples) // 6)][:6]
    meta = mod.META
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking", "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
        "assumptions": list(meta.get("assumptions", [])),
        "coverage": {
            "states": int(tot.get("completed", 0)),
            "transitions": int(tot.get("decisions", 0)),
            "traces_validated_against_impl": int(sum(r.get("validated", 0) for r in results)),
            "samples": samples,
            "exhaustive": False,
            "what": "paths of the real code completed under symbolic execution (states), branch/"
                    "value decisions taken by the solver (transitions), path witnesses re-run on "
                    "the unmodified code (traces_validated_against_impl)",
            "functions_encoded": funcs,
            "bounds": meta["bounds"][tier] if isinstance(meta["bounds"], dict) else meta["bounds"],
            "outside_the_bounds": meta.get("outside", ""),
            "cases": len(names),
            "cases_decided": sum(1 for r in results if r["status"] in ("ok", "violated")),
            "paths_cut_by_assumptions": int(tot.get("cut", 0)),
            "solver_queries": int(tot.get("queries", 0)),
            "solver_seconds": round(tot.get("solver_s", 0), 2),
            "assertions": int(tot.get("asserts", 0)),
            "assertions_needing_the_solver": int(tot.get("nontrivial_asserts", 0)),
            "values_pinned_by_conversions": int(tot.get("concretized", 0)),
            "counterexamples_not_reproduced": int(tot.get("spurious", 0)),
            "witnesses_failing_concretely": sum(r.get("mismatch", 0) for r in results),
            "max_path_depth": int(tot.get("max_depth", 0)),
            "inconclusive": [{"case": r["case"], "why": r.get("what", "")[:300]} for r in results
                             if r["status"] in ("error", "inconclusive")],
            "known_findings_hit": knownhits,
            "peak_rss_mb": resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss // 1024,
        },
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
