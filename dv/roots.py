"""Bracketing root finders as assumed library contracts: for a continuous f with f(a) <= 0 <= f(b) (or the reverse), which becomes an
obligation of the caller, the returned number is a root of f between a and b"""
from . import expr as X, sym as S, symnp
from .expr import E, Unsupported, cand, cor, le, eq

PRE = []            # conditions the callers have to establish


class Result:
    def __init__(self, root):
        self.root, self.converged, self.x = root, True, root


def num(x):
    a = S.toarr(x)
    if any(not X.iszero(S.size(q) - 1) for q in a.axes):
        raise Unsupported("root finder on an array")
    return S.numv(a(*[0] * a.ndim))


def solve(f, a, b):
    a, b = num(a), num(b)
    mk = lambda e: S.mkscalar(e, "f", py="float")
    fa, fb = num(f(mk(a))), num(f(mk(b)))
    PRE.append(cor(cand(le(fa, 0), le(0, fb)), cand(le(0, fa), le(fb, 0))))
    r = X.sym(f"_root{len(PRE)}", "real")
    X.push_hyps([eq(num(f(mk(r))), 0), le(a, r), le(r, b)] if X.implied(le(a, b)) else [eq(num(f(mk(r))), 0)])
    return mk(r)


def root_scalar(f, args=(), method=None, bracket=None, **kw):
    if bracket is None or args or set(kw) - {"xtol", "rtol", "maxiter"} or method not in (None, "brentq", "brenth", "bisect", "ridder", "toms748"):
        raise Unsupported("root finder without bracket")
    a, b = bracket
    return Result(solve(f, a, b))


def brent(f, a, b, args=(), **kw):
    if args or set(kw) - {"xtol", "rtol", "maxiter"}:
        raise Unsupported("root finder options")
    return solve(f, a, b)


symnp.TABLE["scipy.optimize.root_scalar"] = root_scalar
for nm in ("brentq", "brenth", "bisect", "ridder", "toms748"):
    symnp.TABLE["scipy.optimize." + nm] = brent
symnp.ALWAYS.update(k for k in symnp.TABLE if k.startswith("scipy.optimize."))
