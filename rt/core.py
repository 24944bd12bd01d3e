"""Runtime-contract layer: executes contracts (pre/post/invariant predicates) on the REAL code of /repo.

Used (a) as the bounded stand-in for functions outside the deductive engine's reach,
(b) to replay counterexamples of failed obligations, (c) as CPython cross-check of proved contracts.
"""
import hashlib, json, os, random, signal, sys, time, traceback, warnings
import numpy as np

CASE_CPU_S = 150


class Hang(Exception):
    """the code under contract did not return within CASE_CPU_S seconds of CPU time (usual cases take well below 10 s)"""


def _alarm(*_):
    raise Hang(f"no result after {CASE_CPU_S} s of CPU time")


class Broken(Exception):
    """raised when a contract predicate is false on the real code"""


def need(cond, msg="contract predicate false"):
    if not cond:
        raise Broken(msg)


def close(a, b, tol=1e-8, msg=""):
    a = dense(a)
    b = dense(b)
    if a.shape != b.shape:
        raise Broken(f"{msg}: shape {a.shape} != expected {b.shape}")
    if a.size == 0:
        return
    if not np.all(np.isfinite(a) == np.isfinite(b)):
        raise Broken(f"{msg}: non-finite entries differ")
    f = np.isfinite(b)
    if not np.array_equal(np.nan_to_num(a[~f]), np.nan_to_num(b[~f])):
        raise Broken(f"{msg}: non-finite entries differ")
    scale = 1.0 + (np.max(np.abs(b[f])) if np.any(f) else 0.0)
    err = np.max(np.abs(a[f] - b[f])) if np.any(f) else 0.0
    if not err <= tol * scale:
        raise Broken(f"{msg}: differs from the specification by {err:.3g} (scale {scale:.3g})")


def dense(a):
    if hasattr(a, "toarray"):
        a = a.toarray()
    return np.asarray(a)


def short(x, n=400):
    with np.printoptions(threshold=80, precision=17):
        s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    def __init__(self, prop, seed, tier, budget):
        self.prop = prop
        self.seed = int(seed)
        self.tier = tier
        self.budget = budget
        self.t0 = time.time()
        self.rng = np.random.default_rng([self.seed, int(prop[1:])])
        self.n = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.by_fn = {}
        self.stopped = False

    def left(self):
        return self.budget - (time.time() - self.t0)

    def thorough(self):
        return self.tier == "thorough"

    def reps(self, quick, thorough):
        return thorough if self.thorough() else quick

    def case(self, name, inputs, fn, nontrivial=True):
        """run one contract evaluation on the real code"""
        if len(self.violations) >= 3 or self.left() < 0:
            self.stopped = True
            return False
        self.n += 1
        desc = short(inputs, 2000)
        if nontrivial:
            self.distinct.add(hashlib.md5((name + desc).encode()).hexdigest())
        self.by_fn[name] = self.by_fn.get(name, 0) + 1
        if self.by_fn[name] == 1 and len(self.samples) < 40:
            self.samples.append({"contract": name, "inputs": desc[:300]})
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                old = sys.stdout
                sys.stdout = open(os.devnull, "w")
                signal.signal(signal.SIGPROF, _alarm)
                signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
                try:
                    with np.errstate(all="ignore"):
                        fn()
                finally:
                    signal.setitimer(signal.ITIMER_PROF, 0)
                    sys.stdout.close()
                    sys.stdout = old
            return True
        except Broken as e:
            self.violations.append({"contract": name, "inputs": desc, "what": str(e), "kind": "postcondition"})
        except Exception as e:
            if isinstance(e, MemoryError):
                raise
            self.violations.append({"contract": name, "inputs": desc, "what": f"{type(e).__name__}: {e}",
                                    "kind": "exception", "trace": traceback.format_exc()[-3000:]})
        return False


def expect_raise(fn, msg):
    try:
        fn()
    except Broken:
        raise
    except Exception:
        return
    raise Broken(msg)


def rand_unitary(rng, n, real=False):
    a = rng.normal(size=(n, n))
    if not real:
        a = a + 1j * rng.normal(size=(n, n))
    q, _ = np.linalg.qr(a)
    return q


def rand_herm(rng, n, real=False):
    a = rng.normal(size=(n, n))
    if not real:
        a = a + 1j * rng.normal(size=(n, n))
    return a + a.conj().T
