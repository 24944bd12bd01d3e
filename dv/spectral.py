"""assumed contracts of the eigensolvers and of the matrix exponential, as rewrite rules for sums.

eigh(A)    : real w(k) in ascending order and columns v(.,k), k < n, with  sum_j A(i,j) v(j,k) = w(k) v(i,k)  and
             sum_i conj(v(i,k)) v(i,l) = [k == l]
eigsh(A,m) : real w(k) and columns v(.,k), k < m, in no particular order, with the eigenvalue equation and columns of length one
expm(A)    : for A(i,j) = sum_k u(i,k) d(k) conj(u(j,k)) with orthonormal columns u (declared by the contract) it is
             sum_k u(i,k) exp(d(k)) conj(u(j,k))
"""
from . import expr as X, sym as S, symnp
from .expr import E, Expr, NIL, eq, le, lt, cand, cor, cnot, Unsupported



def ssum(lo, hi, f):
    v = X.fresh_int()
    return X.sum_over(E(f(E(v))), v, lo, hi)


ORTHO = {}      # name of a family of columns -> (number of rows, orthogonal or only normalised)


def split(k, var):
    """factors with and without the bound variable, or None if it occurs in a condition other than its range"""
    return [(a, p) for a, p in k[0] if var in X.afree(a)], [(a, p) for a, p in k[0] if var not in X.afree(a)]


def full_range(k, var, n):
    """the term is summed over exactly 0 <= var < n: returns the remaining conditions"""
    mine = [c for c in k[3] if var in c.free()]
    v = E(var)
    d = X.hyp_depth()
    try:
        if not X.implied(cand(*mine), [le(0, v), lt(v, n)]) or not X.implied(cand(le(0, v), lt(v, n)), mine):
            return None
    finally:
        X.pop_to(d)
    return k[3] - set(mine)


def eig_rule(lead, others, a0, w, v, n):
    """sum_j g(i,j) v(j,c) -> (w(c) v(i,c) - sum_j others(i,j) v(j,c)) / a0, where g is the leading matrix of A = a0 g + others"""
    def rule(k, co):
        for var in sorted(k[2], key=lambda a: a.key):
            mine, rest = split(k, var)
            if len(mine) != 2 or any(p != 1 for _, p in mine) or k[1]:
                continue
            for (g, _), (u, _) in (mine, mine[::-1]):
                if g.kind != "fn" or u.kind != "fn" or g.name != lead or u.name != v or len(g.args) != 2:
                    continue
                if not X.iszero(g.args[1] - E(var)) or not X.iszero(u.args[0] - E(var)) or var in g.args[0].free() | u.args[1].free():
                    continue
                left = full_range(k, var, n)
                if left is None:
                    continue
                i, c = g.args[0], u.args[1]
                r = (w(c) * X.fn(v, [i, c], *u.props) - ssum(E(0), n, lambda j: others(i, j) * X.fn(v, [j, c], *u.props))) * X.inv(a0)
                return r * Expr({(tuple(rest), (), k[2] - {var}, left): co})
        return None
    return rule


def gram_rule(v, n, ortho):
    """sum_i conj(v(i,c)) v(i,e) -> [c == e]"""
    def rule(k, co):
        for var in sorted(k[2], key=lambda a: a.key):
            mine, rest = split(k, var)
            if k[1]:
                continue
            if len(mine) == 1 and mine[0][1] == 2 and mine[0][0].real:
                a = b = mine[0][0]
            elif len(mine) == 2 and all(p == 1 for _, p in mine):
                (a, _), (b, _) = mine
            else:
                continue
            if a.kind != "fn" or b.kind != "fn" or {a.name, b.name} != ({v} if a.real else {v, v + "~"}):
                continue
            if not all(X.iszero(z.args[0] - E(var)) and var not in z.args[1].free() for z in (a, b)):
                continue
            left = full_range(k, var, n)
            if left is None:
                continue
            same = X.iszero(a.args[1] - b.args[1])
            if not same and not ortho:
                continue
            r = E(1) if same else X.ite(eq(a.args[1], b.args[1]), 1, 0)
            return r * Expr({(tuple(rest), (), k[2] - {var}, left): co})
        return None
    return rule


def decompose(f, n):
    """A(i,j) = a0 g(i,j) + others(i,j)"""
    i, j = E(X.fresh_int("i")), E(X.fresh_int("j"))
    d = X.hyp_depth()
    X.push_hyps([le(0, i), lt(i, n), le(0, j), lt(j, n)])
    try:
        a = X.simplify(S.numv(f((i, j))))
    finally:
        X.pop_to(d)
    for k, co in sorted(a.d.items(), key=lambda t: X.skey(t[0])):
        at = [x for x, p in k[0] if x.kind == "fn" and len(x.args) == 2 and p == 1 and X.iszero(x.args[0] - i) and X.iszero(x.args[1] - j)]
        if len(at) == 1 and not k[1] and not k[2] and not k[3]:
            fac = Expr({(tuple((x, p) for x, p in k[0] if x is not at[0]), (), NIL, NIL): co})
            if fac.free() & (i.free() | j.free()):
                continue
            rest = a - Expr({k: co})
            fi, fj = next(iter(i.free())), next(iter(j.free()))
            return at[0].name, fac, lambda x, y: X.subst(rest, {fi: E(x), fj: E(y)})
    raise Unsupported("eigensolver: matrix without a leading entry")


def solve(A, m, tag, srt, ortho):
    if S.foreign(A):
        raise Unsupported("eigensolver of an operator")
    A = S.toarr(A)
    if A.ndim != 2:
        raise Unsupported("eigensolver")
    n = S.size(A.axes[0])
    if not S.ax_same(A.axes[0], A.axes[1]):
        raise Unsupported("eigensolver: not square")
    f = A.snap()
    # the solvers look at one triangle only: the matrix must be Hermitian
    i, j = E(X.fresh_int("i")), E(X.fresh_int("j"))
    d = X.hyp_depth()
    X.push_hyps([le(0, i), lt(i, n), le(0, j), lt(j, n)])
    try:
        herm = X.iszero(S.numv(f((i, j))) - X.conj(S.numv(f((j, i)))))
    finally:
        X.pop_to(d)
    if not herm:
        raise Unsupported("eigensolver: matrix not known to be Hermitian")
    lead, a0, others = decompose(f, n)
    t = f"{tag}{next(X._ids)}"
    wn, vn = t + "w", t + "v"
    vp = () if A.dt == "c" else ("real",)
    w = lambda k: X.fn(wn, [E(k)], "real", *(("sorted",) if srt else ()))
    X.SUM_RULES.append(eig_rule(lead, others, a0, w, vn, n))
    X.SUM_RULES.append(gram_rule(vn, n, ortho))
    ax = S.plain(n if m is None else E(m))
    return (S.Arr([ax], lambda ix: w(ix[0]), "f"), S.Arr([S.plain(n), ax], lambda ix: X.fn(vn, [E(ix[0]), E(ix[1])], *vp), "c" if A.dt == "c" else "f"))


def symbolic(a):
    return isinstance(a, S.Arr)


@symnp.reg("np.linalg.eigh")
def eigh(a, UPLO="L"):
    return solve(a, None, "eigh", True, True)


@symnp.reg("np.linalg.eigvalsh")
def eigvalsh(a, UPLO="L"):
    return solve(a, None, "eigh", True, True)[0]


@symnp.reg("scipy.linalg.eigh")
def seigh(a, **kw):
    if kw:
        raise Unsupported("scipy.linalg.eigh options")
    return solve(a, None, "eigh", True, True)


@symnp.reg("scipy.sparse.linalg.eigsh")
def eigsh(A, k=6, M=None, sigma=None, which="LM", v0=None, ncv=None, maxiter=None, tol=0, return_eigenvectors=True, **kw):
    if M is not None or sigma is not None or kw or not return_eigenvectors:
        raise Unsupported("eigsh options")
    return solve(A, S.numv(k), "eigsh", False, False)


def orthonormal(name, n):
    """declared by a contract: the columns of this array are orthonormal"""
    ORTHO[name] = n
    X.SUM_RULES.append(gram_rule(name, n, True))


@symnp.reg("scipy.sparse.linalg.expm")
def expm(A):
    sparse = A.sparse if isinstance(A, S.Arr) else None
    A = S.toarr(A)
    n = S.size(A.axes[0])
    f = A.snap()
    i, j = E(X.fresh_int("i")), E(X.fresh_int("j"))
    d = X.hyp_depth()
    X.push_hyps([le(0, i), lt(i, n), le(0, j), lt(j, n)])
    try:
        a = X.simplify(S.numv(f((i, j))))
    finally:
        X.pop_to(d)
    fi, fj = next(iter(i.free())), next(iter(j.free()))
    D, var, cond, nm = E(0), None, None, None
    for k, co in a.d.items():
        if len(k[2]) != 1 or k[1]:
            raise Unsupported("expm: no spectral form")
        v1 = next(iter(k[2]))
        us = [x for x, p in k[0] if x.kind == "fn" and x.name.rstrip("~") in ORTHO and p == 1]
        if len(us) != 2 or (var is not None and (v1 is not var or k[3] != cond)):
            raise Unsupported("expm: no spectral form")
        u = {x.name.endswith("~"): x for x in us}
        if len(u) != 2 or u[False].name + "~" != u[True].name or not X.iszero(u[False].args[0] - i) or not X.iszero(u[True].args[0] - j) or not all(X.iszero(x.args[1] - E(v1)) for x in us):
            raise Unsupported("expm: no spectral form")
        if full_range(k, v1, ORTHO[u[False].name]):
            raise Unsupported("expm: no spectral form")
        var, cond, nm, pr = v1, k[3], u[False].name, u[False].props
        rest = Expr({(tuple((x, p) for x, p in k[0] if x not in us), (), NIL, NIL): co})
        if rest.free() & {fi, fj}:
            raise Unsupported("expm: no spectral form")
        D = D + rest
    if var is None or not X.iszero(ORTHO[nm] - n):
        raise Unsupported("expm: no spectral form")

    def ent(ix):
        x, y = E(ix[0]), E(ix[1])
        return ssum(E(0), n, lambda k: X.fn(nm, [x, k], *pr) * X.exp(X.subst(D, {var: k})) * X.conj(X.fn(nm, [y, k], *pr)))
    return S.Arr(A.axes, S.memo(ent), A.dt, sparse)


symnp.TABLE["scipy.linalg.expm"] = expm
