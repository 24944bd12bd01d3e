"""C21: the chemical potential solver (fermi_gas.fg_mu) over the assumed contract of bracketing root finders and the contract of
fg_density (proved under C17; between the occupations of the band edges: lean/Fermi.lean)"""
from ..contract import *
from ..expr import exp
from .. import roots
P = "C21"
F = "fermi_gas."


def nF(b, mu, e):
    return 1 / (exp(b * (e - mu)) + 1)


def occ(b, mu, n, dim):
    k = 2 * np.pi * np.arange(int(n)) / n
    e = -2 * np.cos(k) if dim == "1d" else -2 * (np.cos(k)[:, None] + np.cos(k)[None, :])
    return np.mean(1 / (np.exp(b * (e - mu)) + 1))


def density_stub(c, dim):
    W = 2 if dim == "1d" else 4

    def dens(I, fn, loc):
        b, mu, n = (roots.num(loc[k]) for k in ("beta", "mu", "nsites"))
        if loc["dim"] != dim:
            raise Unsupported("another dimension")
        D = X.fn("Dens", [b, mu, n], "real", "nonneg")
        X.push_hyps([le(nF(b, mu, W), D), le(D, nF(b, mu, -W))])
        return S.mkscalar(D, "f")
    c.stubs[F + "fg_density"] = dens


for dim in ("1d", "2d"):
    for form in ("numbers", "one-element arrays"):
        @contract(P, F + "fg_mu", F + "fg_density", name=f"the density of the returned chemical potential is the requested one, {dim}, {form}")
        def _mu(c, dim=dim, form=form):
            n = c.dim("n", 2, 7)
            one = form != "numbers"
            if one:
                b, d = c.arr("b", (1,), "f", ("pos", "nz"), sample=lambda r, s, sh: r.uniform(.05, 6., sh))(0), c.arr("d", (1,), "f", sample=lambda r, s, sh: r.uniform(.02, .98, sh))(0)
            else:
                b, d = c.real("b", .05, 6., "pos", "nz"), c.real("d", .02, .98)
            c.requires(lt(0, d), lt(d, 1))
            density_stub(c, dim)
            c.facts += [lt(1, exp(b)), lt(exp(-b), 1)]
            c.setup.append(lambda I: X.INVAX.__setitem__(0, True))
            if form == "numbers" and dim == "1d":
                c.lean("the mean occupation lies between the occupations of the band edges", "Fermi.lean", "mean_occupation_bounds")
                c.lean("the tight-binding energies lie in the band", "Fermi.lean", "band")

            def run(call, v):
                if call.symbolic:
                    roots.PRE.clear()
                mu = call(F + "fg_mu", v.b, v.d, v.n, dim)
                if call.symbolic:
                    pre = cand(*roots.PRE)
                    return roots.num(call(F + "fg_density", v.b, mu, v.n, dim)), pre
                return call(F + "fg_density", v.b, mu, v.n, dim), mu
            c.calls(run)
            at = lambda v: (float(np.ravel(v.b)[0]), float(np.ravel(v.d)[0]))
            c.ensures_cond("the search interval contains a solution", lambda r, v, symbolic: r[1] if symbolic else np.size(r[1]) == 1 and np.isfinite(np.ravel(r[1])[0]))
            c.ensures_cond("it gives back the density", lambda r, v, symbolic: eq(r[0], d) if symbolic else
                           abs(float(np.ravel(r[0])[0]) - at(v)[1]) < 1e-8 and abs(occ(at(v)[0], float(np.ravel(r[1])[0]), v.n, dim) - at(v)[1]) < 1e-8)


for form in ("beta array", "density array", "both arrays"):
    for nd in (1, 2):
        @contract(P, F + "fg_mu", name=f"{form} of shape {('(m,)', '(2, 3)')[nd - 1]} entry by entry")
        def _arr(c, form=form, nd=nd):
            n = c.dim("n", 2, 6)
            sh = (c.dim("m", 2, 4),) if nd == 1 else (2, 3)
            pos = lambda lo, hi: (lambda r, s, q: r.uniform(lo, hi, q))
            ab, ad = form != "density array", form != "beta array"
            b = c.arr("b", sh, "f", ("pos", "nz"), sample=pos(.1, 5.)) if ab else c.real("b", .1, 5., "pos", "nz")
            d = c.arr("d", sh, "f", sample=pos(.03, .97)) if ad else c.real("d", .03, .97)

            def mus(I, fn, loc):
                one = all(X.iszero(S.size(a) - 1) for k in ("beta", "density") for a in S.toarr(loc[k]).axes)
                if not one:
                    return NotImplemented
                if loc["dim"] != "1d":
                    raise Unsupported("another dimension")
                return S.mkscalar(X.fn("Mu", [roots.num(loc[k]) for k in ("beta", "density", "nsites")], "real"), "f", py="float")
            c.stubs[F + "fg_mu"] = mus

            def numeric(rng, syms, fns, vals):
                def mu(b, d, n):
                    lo, hi = -1e3, 1e3
                    for _ in range(200):
                        m = (lo + hi) / 2
                        with np.errstate(over="ignore"):
                            lo, hi = (m, hi) if occ(b, m, n, "1d") < d else (lo, m)
                    return (lo + hi) / 2
                fns["Mu"] = mu
                mu.raw = True
            c.fixup.append(numeric)
            c.calls(lambda call, v: call(F + "fg_mu", v.b, v.d, v.n, "1d"))
            at = lambda a, q, ix: a(*ix) if q else a
            c.ensures("the solution of each entry", sh, lambda *ix: X.fn("Mu", [at(b, ab, ix), at(d, ad, ix), n], "real"))


@contract(P, F + "fg_mu", name="sizes that do not match are rejected")
def _size(c):
    m, k = c.dim("m", 2, 4), c.dim("k", 2, 4)
    c.requires(cnot(eq(m, k)))
    c.arr("b", (m,), "f", ("pos", "nz"), sample=lambda r, s, sh: r.uniform(.1, 2.5, sh)), c.arr("d", (k,), sample=lambda r, s, sh: r.uniform(.1, .9, sh))
    c.calls(lambda call, v: call(F + "fg_mu", v.b, v.d, 5, "1d"))
    c.raises(TRUE)
