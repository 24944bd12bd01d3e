"""Selections of basis states as operators: the matrix with one unit entry per row picking, in basis order, the states with mask(k).

Laws used (get_subspace_projs through its contract, proved under C16):
  S(m) D S(m)^T                 = R(m, d)   the diagonal d restricted to the states of m, in order
  get_subspace_projs(R(m,d), v) = [Q(m, d == v)]   the selection of those restricted states with d == v, in order
  Q(m, q) S(m)                  = S(m and q)
The last one is the composition of two order-preserving injections; it is part of the trusted base (checked numerically on samples).
"""
import numpy as np
from . import expr as X, sym as S, numeric as N, ops
from .expr import E, Unsupported, cand, cnot, eq, le, lt, TRUE


def ssum(lo, hi, f):
    v = X.fresh_int()
    return X.sum_over(E(f(E(v))), v, E(lo), E(hi))


class Sel(ops.Foreign):
    __array_priority__ = 1e10
    __array_ufunc__ = None
    sparse = "csr"

    def __init__(self, kind, n, mask=None, d=None, q=None, tag=None):
        self.kind, self.n, self.mask, self.d, self.q, self.tag = kind, E(n), mask, d, q, tag

    def conj(self, *a):
        return self
    conjugate = conj

    def transpose(self, *a, **k):
        if self.kind in ("D", "R"):
            return self
        t = {"S": "S'", "S'": "S", "DS'": "SD", "SD": "DS'"}.get(self.kind)
        if t is None:
            raise Unsupported("transpose of a selection")
        return Sel(t, self.n, self.mask, self.d)
    T = property(transpose)
    getH = transpose
    H = property(transpose)

    @property
    def shape(self):
        if self.kind == "D":
            d = S.mkscalar(self.n, "i", py="int")
            return (d, d)
        raise Unsupported("shape of a selection")

    def __add__(self, o):
        raise Unsupported("sum of selections")
    __radd__ = __sub__ = __rsub__ = __add__

    def __neg__(self):
        raise Unsupported("sum of selections")

    def same_as(self, o):
        k = E(X.fresh_int("k"))
        rng = [le(0, k), lt(k, self.n)]
        a, b = self.mask(k), o.mask(k)
        return not X.feasible(rng + [a, cnot(b)]) and not X.feasible(rng + [b, cnot(a)])

    def dot(self, o):
        if ops.isscalar(o):
            if X.iszero(E(o) - 1):
                return self
            raise Unsupported("multiple of a selection")
        if not isinstance(o, Sel):
            raise Unsupported("product of a selection with another matrix")
        k = (self.kind, o.kind)
        if k == ("D", "S'"):
            return Sel("DS'", self.n, o.mask, self.d)
        if k == ("S", "D"):
            return Sel("SD", self.n, self.mask, o.d)
        if k == ("S", "DS'") and self.same_as(o) or k == ("SD", "S'") and self.same_as(o):
            return Sel("R", self.n, self.mask, (o if k[0] == "S" else self).d)
        if k == ("Q", "S") and self.same_as(o):
            m, q = o.mask, self.q
            return Sel("S", self.n, lambda j: cand(m(j), q(j)))
        raise Unsupported("product of selections")
    __mul__ = __matmul__ = dot

    def __rmul__(self, o):
        if ops.isscalar(o):
            return self.dot(o)
        raise Unsupported("product of selections")

    # ---- loops
    def placeholder(self, tag):
        if self.kind != "S":
            raise Unsupported("placeholder of a selection")
        return Sel("S", self.n, lambda k: X.pred("mask:" + tag, [E(k)]), tag=tag)

    def close(self, tag, x0, vals, v, n):
        """mask after the loop: the initial one and, for every iteration, the condition of the path that was taken"""
        if not isinstance(x0, Sel) or x0.kind != "S":
            raise Unsupported("selection in a loop")
        k = E(X.fresh_int("k"))
        p = X.pred("mask:" + tag, [k])
        step = None
        for c, x in vals:
            if not isinstance(x, Sel) or x.kind != "S":
                raise Unsupported("selection in a loop")
            m = x.mask(k)
            parts = [y for y in (m.subs if m.op == "and" else (m,)) if y.key != p.key]
            if len(parts) == len(m.subs if m.op == "and" else (m,)) or any("mask:" + tag in y.key for y in parts):
                raise Unsupported("selection in a loop")
            cc = cand(*c) if isinstance(c, (list, tuple)) else c
            t = X.cor(cnot(cc), cand(*parts))
            step = t if step is None else cand(step, t)
        fk = next(iter(k.free()))

        def mask(j):
            j = E(j)
            bad = ssum(0, n, lambda i: X.indicator(cnot(step.subst({fk: j, v: i}))))
            return cand(x0.mask(j), eq(bad, 0))
        return Sel("S", self.n, mask)

    def equals(self, o):
        if self.kind == "Q":                # a selection from all states is one of the full basis
            k = E(X.fresh_int("k"))
            if not X.feasible([le(0, k), lt(k, self.n), cnot(self.mask(k))]):
                return Sel("S", self.n, self.q).equals(o)
        if self.kind != "S" or not X.iszero(self.n - o.n):
            return "not a selection of basis states"
        k = E(X.fresh_int("k"))
        rng = [le(0, k), lt(k, self.n)]
        a, b = self.mask(k), o.mask(k)
        if a.key == b.key or not X.feasible(rng + [a, cnot(b)]) and not X.feasible(rng + [b, cnot(a)]):
            return None
        return f"selection {str(a)[:300]} is not {str(b)[:300]}"

    def dense(self, env):
        if self.kind not in "SQ":
            raise Unsupported("dense form")
        n = int(round(N.val(self.n, env).real))
        if self.kind == "Q":
            rows, q = [k for k in range(n) if N.cond(self.mask(E(k)), env)], self.q
            r = [[float(k == j) for j in rows] for k in rows if N.cond(q(E(k)), env)]
            return np.array(r).reshape(len(r), len(rows))
        idx = [k for k in range(n) if N.cond(self.mask(E(k)), env)]
        r = np.zeros((len(idx), n))
        r[np.arange(len(idx)), idx] = 1
        return r


def mode(D):
    def f(I):
        ops.MODE.update(kind="group", n=E(D), one=Sel("S", D, lambda k: TRUE))
    return f
