#!/opt/venv/bin/python
"""Decide one property:  check.py C01   (VERIF_TIER=quick|thorough, VERIF_SEED=n)

1. dv/: deductive part. Parses the current source of /repo, generates the proof obligations of every function under contract
   and discharges them (term normaliser + z3); see DESIGN.md.
2. rt/: runtime contracts on the real code: bounded stand-in for functions out of reach of (1), replay of failed obligations.
Exit 0: held. Exit 1 + VIOLATION line: broken. Exit 2: error of the check itself.
"""
import json, os, sys, time, traceback
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
import warnings; warnings.simplefilter("ignore")
import numpy, scipy, scipy.sparse, scipy.sparse.linalg, scipy.optimize, scipy.special, scipy.linalg  # noqa
sys.pycache_prefix = "/nonexistent-pycache"      # never read stale bytecode of the code under test
sys.path.insert(0, REPO)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, f"{prop}.replay.json")
    if os.path.exists(replay):
        os.remove(replay)
    import importlib
    from rt.core import Ctx
    # ---- deductive part
    dv_res = None
    try:
        from dv import driver
        dv_res = driver.decide(prop, REPO, tier, budget=240 if tier == "quick" else 1500)
    except ImportError as e:
        if "dv" not in str(e):
            raise
    # ---- runtime contracts on the real code
    ctx = Ctx(prop, seed, tier, 420 if tier == "quick" else 2400)
    try:
        mod = importlib.import_module("rt." + prop.lower())
        mod.run(ctx)
    except Exception as e:
        tb = traceback.format_exc()
        last = [l for l in tb.splitlines() if l.strip().startswith("File ")]
        if any(REPO + "/" in l for l in last):
            ctx.violations.append({"contract": "preparing inputs through the library", "inputs": "", "what": f"{type(e).__name__}: {e}", "kind": "exception", "trace": tb[-3000:]})
        else:
            raise
    import exact_diag
    if not os.path.abspath(exact_diag.__file__).startswith(os.path.abspath(REPO) + "/"):
        print("check error: exact_diag was not imported from", REPO)
        return 2
    viol, nofail = None, False
    failed = [o for o in (dv_res or {}).get("obligations", []) if o["status"] == "refuted"]
    opened = [o for o in (dv_res or {}).get("obligations", []) if o["status"] == "not_discharged"]
    undecided = [o for o in (dv_res or {}).get("obligations", []) if o["status"] == "undecided"]
    if ctx.violations:
        viol = {"property": prop, "failed_obligations": failed + opened, "undecided_obligations": undecided, "failing_inputs_on_the_real_code": ctx.violations}
    elif failed:
        viol = {"property": prop, "failed_obligations": failed + opened, "undecided_obligations": undecided, "failing_inputs_on_the_real_code": []}
        nofail = not any(o.get("replayed") for o in failed)
    elif opened:
        viol = {"property": prop, "failed_obligations": opened, "undecided_obligations": undecided, "failing_inputs_on_the_real_code": []}
        nofail = True
    # ---- evidence
    cov = {"evaluations": ctx.n, "distinct_nontrivial": len(ctx.distinct), "rule": "one evaluation = one contract evaluated on the real code for one generated input; distinct = different (contract, input) pairs",
           "samples": ctx.samples[:12], "evaluations_per_contract": ctx.by_fn, "runtime_budget_exhausted": ctx.stopped and not ctx.violations}
    level = "exploration"
    assumptions = ["runtime contracts are bounded: they hold for the generated inputs only"]
    if dv_res and dv_res["obligations"]:
        obs = dv_res["obligations"]; ok = [o for o in obs if o["status"] == "proved"]
        cov.update({"obligations": len(obs), "discharged": len(ok), "checker_cmd": f"/opt/venv/bin/python check.py {prop}", "trusted_base": dv_res["trusted_base"],
                    "functions_under_contract": dv_res["functions"], "obligation_list": [{k: o[k] for k in ("name", "function", "status", "backend", "solver_s") if k in o} | ({"why": o.get("why", "")[:300]} if o["status"] != "proved" else {}) for o in obs],
                    "solver_s": round(sum(o.get("solver_s", 0) for o in obs), 3), "bounded_functions": dv_res["bounded"], "vacuity_checks": dv_res.get("vacuity", {}), "source_functions_executed_symbolically": dv_res.get("executed_source", []), "callee_contracts_assumed_at_call_sites": dv_res.get("callee_contracts_used", []), "contract_replays_on_real_code": dv_res.get("evaluations", 0)})
        assumptions = dv_res["assumptions"] + assumptions
        level = dv_res.get("level", "proof")
        if undecided:
            assumptions.append("undecided on this run, covered only by the bounded runtime contracts: " + "; ".join(o["name"] for o in undecided))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(ctx.violations) + len(failed) + len(opened)}
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    kf = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(kf):
        for line in open(kf):
            if line.startswith(f"known: property={prop} "):
                print("KNOWN-FINDING: property=" + prop + " " + line.split(" ", 2)[2].strip())
    if ctx.n == 0 and not viol:
        print("check error: no contract was evaluated")
        return 2
    if viol:
        with open(replay, "w") as f:
            json.dump(viol, f, indent=1, default=str)
        for v in ctx.violations:
            print(f"  {v['contract']}: {v['what'][:300]}")
        for o in failed + opened:
            print(f"  obligation {o['name']}: {o.get('why', '')[:300]}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(replay, ROOT)}" + (" no-failing-input-found" if nofail else ""))
        return 1
    print(f"{prop}: held ({cov.get('discharged', 0)}/{cov.get('obligations', 0)} obligations discharged, {ctx.n} runtime contract evaluations, {ev['wall_s']} s)")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
