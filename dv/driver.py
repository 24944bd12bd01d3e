"""Run all contracts of one property (each in its own process) and collect the obligations."""
import importlib, multiprocessing as mp, os, signal, sys, time, traceback
from . import contract as K

TRUSTED = ["dv/interp.py, dv/sym.py, dv/symnp.py: semantics of the Python/numpy/scipy subset used (cross-checked on every run against CPython on sampled inputs)",
           "dv/expr.py: normaliser (exact rational/polynomial/exponential/indexed-sum rewriting)", "z3 4.x for linear/nonlinear arithmetic side conditions, cvc5 1.1.2 for those z3 leaves open", "dv/groups.py: multiplication tables of the finite groups (associativity and generation checked on every run)", "dv/spectral.py: eigh/eigsh/expm as assumed library contracts, sum rules from orthonormality/completeness", "dv/worklist.py: one arbitrary iteration of a loop over worklists with the lists havocked under the invariant of the contract", "Lean 4 kernel with Mathlib (lemma files in lean/)", "dv/files.py: file system, pickle, savemat/loadmat as assumed contracts", "dv/roots.py: bracketing root finders as assumed contracts (the sign change is an obligation)", "dv/select.py: laws of basis selections (composition of order-preserving selections)"]
ASSUME = ["machine floating point treated as exact real/complex arithmetic, machine integers as mathematical integers",
          "numpy/scipy functions behave as specified in dv/symnp.py (assumed contracts on dependencies)"]


def _alarm(*a):
    raise K.Timeout()


def _one(args):
    prop, i, repo, limit, nsample = args
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    e = K.CONTRACTS[prop][i]
    try:
        return K.verify(prop, e, repo, nsample=nsample)
    except K.Timeout:
        return {"contract": e[0], "functions": list(e[1]), "obligations": [{"name": f"{prop}:{e[0]}", "function": e[1][0] if e[1] else "", "status": "undecided", "why": "time limit", "backend": "", "solver_s": 0.}], "used": [], "stubbed": [], "evaluations": 0, "failures": [], "samples": 0, "notes": []}
    except BaseException as ex:
        return {"contract": e[0], "functions": list(e[1]), "obligations": [{"name": f"{prop}:{e[0]}", "function": e[1][0] if e[1] else "", "status": "undecided", "why": f"engine error {type(ex).__name__}: {ex} " + traceback.format_exc()[-600:], "backend": "", "solver_s": 0.}], "used": [], "stubbed": [], "evaluations": 0, "failures": [], "samples": 0, "notes": []}
    finally:
        signal.alarm(0)


def load(prop):
    path = os.path.join(os.path.dirname(__file__), "contracts", prop.lower() + ".py")
    if not os.path.exists(path):
        return []
    importlib.import_module("dv.contracts." + prop.lower())
    return K.CONTRACTS.get(prop, [])


def run_all(prop, repo, tier="quick", budget=240, only=None):
    cs = load(prop)
    jobs = [(prop, i, repo, cs[i][3].get("limit", 120 if tier == "quick" else 600), cs[i][3].get("samples", 10) * (1 if tier == "quick" else 5)) for i in range(len(cs)) if not only or cs[i][0] in only]
    if not jobs:
        return []
    ctx = mp.get_context("fork")
    with ctx.Pool(min(6, len(jobs)), maxtasksperchild=1) as pool:
        rs = [pool.apply_async(_one, (j,)) for j in jobs]
        out, t0 = [], time.time()
        for j, r in zip(jobs, rs):
            try:
                out.append(r.get(timeout=max(1, budget - (time.time() - t0))))
            except mp.TimeoutError:
                e = cs[j[1]]
                out.append({"contract": e[0], "functions": list(e[1]), "obligations": [{"name": f"{prop}:{e[0]}", "function": e[1][0] if e[1] else "", "status": "undecided", "why": "time budget of the check", "backend": "", "solver_s": 0.}], "used": [], "stubbed": [], "evaluations": 0, "failures": [], "samples": 0, "notes": []})
        pool.terminate()
    return out


def decide(prop, repo, tier, budget):
    res = run_all(prop, repo, tier, budget)
    obs = [o for r in res for o in r["obligations"]]
    fns = sorted({f for r in res for f in r["used"]})
    proved_fns = sorted({f for r in res if r["obligations"] and all(o["status"] == "proved" for o in r["obligations"]) for f in r["functions"]})
    bounded = sorted({f for r in res if not (r["obligations"] and all(o["status"] == "proved" for o in r["obligations"])) for f in r["functions"]} - set(proved_fns))
    stub = sorted({f for r in res for f in r["stubbed"]})
    notes = sorted({n for r in res for n in r["notes"]})
    return {"obligations": obs, "trusted_base": TRUSTED, "functions": [{"function": f, "contract": "proved"} for f in proved_fns], "executed_source": fns,
            "bounded": bounded, "callee_contracts_used": stub, "assumptions": ASSUME + notes, "vacuity": {r["contract"]: {"inputs satisfying the preconditions": r["samples"], "obligations": len(r["obligations"])} for r in res},
            "failures": [f for r in res for f in r["failures"]], "evaluations": sum(r["evaluations"] for r in res), "level": "proof"}


if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    prop = sys.argv[1]
    t0 = time.time()
    for r in run_all(prop, repo, os.environ.get("VERIF_TIER", "quick"), 3000, sys.argv[2:]):
        print("##", r["contract"], r.get("wall_s"), "s", "samples", r["samples"], "used", r["used"], "stubbed", r["stubbed"])
        for o in r["obligations"]:
            print("   ", o["status"].upper() if o["status"] != "proved" else "proved", o["name"].split(":", 2)[-1], o["why"] if o["status"] != "proved" else "", o["solver_s"])
        for f in r["failures"][:1]:
            print("    FAIL", f["what"], str(f["inputs"])[:300])
    print("total", round(time.time() - t0, 1))
