"""C18: imaginary-time Green's function transforms (greens_fns)"""
from ..contract import *
from ..expr import exp, inv, cos, sin
P = "C18"
G = "greens_fns."


def trapz(n, x, y):
    """trapezoidal integral of samples y(k) at x(k), k = 0..n-1"""
    return ssum(0, n - 1, lambda k: (x(k + 1) - x(k)) * (y(k + 1) + y(k)) * HALF)


def nonzero_w(c, w):
    pass


@contract(P, G + "get_grnfn_imagfrq_spectralfn")
def imagfrq_transform(c):
    M, n = c.dim("M"), c.dim("n", 2)
    wn, w, A = c.arr("wn", (M,)), c.arr("w", (n,)), c.arr("A", (n,), "c")
    c.calls(lambda call, v: call(G + "get_grnfn_imagfrq_spectralfn", v.wn, v.w, v.A))
    c.ensures("trapezoidal integral of A/(i wn - w)/2pi", (M,), lambda m: trapz(n, w, lambda k: A(k) / (Iu * wn(m) - w(k))) / (2 * PI))


def kern(fmt, beta, tau, w):
    return exp(-tau * w) / (1 + (1 if fmt == "fermion" else -1) * exp(-beta * w))


for fmt in ("fermion", "boson"):
    @contract(P, G + "get_grnfn_imagtime_spectralfn", name=f"imagtime_transform_{fmt}")
    def _t(c, fmt=fmt):
        M, n = c.dim("M"), c.dim("n", 2)
        tau, w, A, beta = c.arr("tau", (M,)), c.arr("w", (n,)), c.arr("A", (n,), "c"), c.pos("beta")
        c.calls(lambda call, v: call(G + "get_grnfn_imagtime_spectralfn", v.tau, v.beta, v.w, v.A, format=fmt))
        c.ensures("minus trapezoidal integral of A exp(-tau w)/(1 +- exp(-beta w))/2pi", (M,), lambda m: -trapz(n, w, lambda k: A(k) * kern(fmt, beta, tau(m), w(k))) / (2 * PI))

    @contract(P, G + "get_grnfn_imagtime_spectralfn_kernel", G + "get_grnfn_imagtime_spectralfn", name=f"imagtime_kernel_{fmt}")
    def _k(c, fmt=fmt):
        M, n = c.dim("M"), c.dim("n", 2)
        tau, w, A, beta = c.arr("tau", (M,)), c.arr("w", (n,)), c.arr("A", (n,), "c"), c.pos("beta")
        c.calls(lambda call, v: call(G + "get_grnfn_imagtime_spectralfn_kernel", v.tau, v.beta, v.w, format=fmt).dot(v.A))
        c.ensures("kernel times samples equals the trapezoidal transform", (M,), lambda m: -trapz(n, w, lambda k: A(k) * kern(fmt, beta, tau(m), w(k))) / (2 * PI))


@contract(P, G + "get_grnfn_imagtime_spectralfn", name="imagtime_transform_bad_format")
def _tb(c):
    M, n = c.dim("M"), c.dim("n", 2)
    c.arr("tau", (M,)), c.arr("w", (n,)), c.arr("A", (n,), "c"), c.pos("beta")
    c.calls(lambda call, v: call(G + "get_grnfn_imagtime_spectralfn", v.tau, v.beta, v.w, v.A, format="anyon"))
    c.raises(TRUE)


@contract(P, G + "get_grnfn_imagfrq_spectralfn_kernel")
def imagfrq_kernel(c):
    M, n = c.dim("M"), c.dim("n", 2)
    wn, w, A = c.arr("wn", (M,)), c.arr("w", (n,)), c.arr("A", (n,), "c")
    c.calls(lambda call, v: call(G + "get_grnfn_imagfrq_spectralfn_kernel", v.wn, v.w).dot(v.A))
    c.ensures("kernel times samples equals the trapezoidal transform", (M,), lambda m: trapz(n, w, lambda k: A(k) / (Iu * wn(m) - w(k))) / (2 * PI))


@contract(P, G + "grnfn_imagfrq_ft")
def matsubara_sum(c):
    M, n = c.dim("M"), c.dim("n", 1)
    tau, wn, g, beta = c.arr("tau", (M,)), c.arr("wn", (n,)), c.arr("g", (n,), "c"), c.pos("beta")
    c.calls(lambda call, v: call(G + "grnfn_imagfrq_ft", v.tau, v.wn, v.g, v.beta))
    c.ensures("Matsubara sum over beta", (M,), lambda m: ssum(0, n, lambda k: g(k) * exp(-Iu * wn(k) * tau(m))) / beta)


@contract(P, G + "get_noninteracting_gfn_tau")
def noninteracting_tau(c):
    M = c.dim("M")
    tau, ek, beta = c.arr("tau", (M,)), c.real("ek"), c.pos("beta")
    c.calls(lambda call, v: call(G + "get_noninteracting_gfn_tau", v.tau, v.ek, v.beta))
    nf = 1 / (1 + exp(beta * ek))
    c.ensures("closed form (tau != 0)", (M,), lambda m: ite(eq(tau(m), 0), 0, ite(lt(0, tau(m)), -exp(-ek * tau(m)) * (1 - nf), exp(-ek * tau(m)) * nf)))


@contract(P, G + "get_noninteracting_gfn_tau")
def antiperiodic(c):
    M = c.dim("M")
    beta = c.pos("beta", 1., 2.)
    tau, ek = c.arr("tau", (M,), "f", ("pos",), sample=lambda r, s, sh: r.uniform(.05, .95, size=sh)), c.real("ek")
    m = X.sym("mm", "int", "real")
    c.setup.append(lambda I: None)
    c.calls(lambda call, v: call(G + "get_noninteracting_gfn_tau", v.tau, v.ek, v.beta) + call(G + "get_noninteracting_gfn_tau", v.tau - v.beta, v.ek, v.beta))
    c.ensures("G(tau - beta) = -G(tau) for 0 < tau < beta", (M,), lambda m: ite(lt(tau(m), beta), 0, -exp(-ek * tau(m)) * (1 - 1 / (1 + exp(beta * ek))) * ite(eq(tau(m), beta), 1, 1 + exp(ek * beta))))


def matsubara(c, fmt):
    """declares beta, mx; returns number of frequencies and the j-th one"""
    beta, mx = c.pos("beta", .4, 3), c.pos("mx", 1., 20)
    if fmt == "fermion":
        L = -X.floor(HALF - mx * beta / (2 * PI))          # number of k >= 0 with (2k+1) pi/beta < mx
        n, W = 2 * L, lambda j: (2 * j + 1 - 2 * L) * PI / beta
    else:
        L = -X.floor(1 - mx * beta / (2 * PI))             # number of k >= 1 with 2k pi/beta < mx
        n, W = 2 * L + 1, lambda j: (2 * j - 2 * L) * PI / beta
    return beta, mx, L, n, W


for fmt in ("fermion", "boson"):
    @contract(P, G + "get_matsubara_frqs", name=f"matsubara_{fmt}")
    def _m(c, fmt=fmt):
        beta, mx, L, n, W = matsubara(c, fmt)
        c.setup.append(linear_sort(W, n))
        c.calls(lambda call, v: call(G + "get_matsubara_frqs", v.beta, v.mx, fmt))
        c.ensures("all odd/even multiples of pi/beta below the cutoff, sorted", (n,), W)
        k = X.sym("kk", "int", "real")
        lo = 0 if fmt == "fermion" else 1
        c.lemma("frequency k listed iff it is below the cutoff", lambda: [le(lo, k)],
                lambda: (lambda a, b: cor(cand(a, b), cand(cnot(a), cnot(b))))(lt(k, L + lo), lt((2 * k + (1 if fmt == "fermion" else 0)) * PI, mx * beta)))


@contract(P, G + "get_matsubara_frqs")
def matsubara_bad_format(c):
    c.pos("beta")
    c.calls(lambda call, v: call(G + "get_matsubara_frqs", v.beta, 30, "anyon"))
    c.raises(TRUE)


@contract(P, G + "get_noninteracting_gfn_imagfrq", G + "get_matsubara_frqs")
def noninteracting_frq(c):
    beta, mx, L, n, W = matsubara(c, "fermion")
    ek = c.real("ek")
    c.setup.append(linear_sort(W, n))
    c.calls(lambda call, v: call(G + "get_noninteracting_gfn_imagfrq", v.mx, v.ek, v.beta))
    c.ensures("frequencies", (n,), W, get=lambda r: r[1])
    c.ensures("1/(i w - e)", (n,), lambda j: 1 / (Iu * W(j) - ek), get=lambda r: r[0])


@contract(P, G + "get_noninteracting_spectral_fn")
def lorentzian(c):
    M = c.dim("M")
    w, ek, eta = c.arr("w", (M,)), c.real("ek"), c.pos("eta")
    c.calls(lambda call, v: call(G + "get_noninteracting_spectral_fn", v.w, v.ek, v.eta))
    c.ensures("2 eta/(eta^2 + (w - e)^2)", (M,), lambda m: 2 * eta / (eta ** 2 + (w(m) - ek) ** 2))


@contract(P, G + "chi_hydro")
def chi_finite_gamma(c):
    M = c.dim("M")
    w, k, chi, d0, d2, g = c.arr("w", (M,)), c.pos("k"), c.real("chi"), c.pos("d0"), c.pos("d2"), c.pos("gamma")
    c.calls(lambda call, v: call(G + "chi_hydro", v.w, v.k, v.chi, v.d0, v.d2, v.gamma))
    D = d0 * k ** 2 + d2 * k ** 4
    c.ensures("chi0/(1 - i w/D - w^2/(gamma D))", (M,), lambda m: chi / (1 - Iu * w(m) / D - w(m) ** 2 / (g * D)))


@contract(P, G + "chi_hydro")
def chi_diffusive(c):
    M = c.dim("M")
    w, k, chi, d0, d2 = c.arr("w", (M,)), c.pos("k"), c.real("chi"), c.pos("d0"), c.pos("d2")
    c.calls(lambda call, v: call(G + "chi_hydro", v.w, v.k, v.chi, v.d0, v.d2))
    c.ensures("chi0/(1 - i w/D)", (M,), lambda m: chi / (1 - Iu * w(m) / (d0 * k ** 2 + d2 * k ** 4)))


@contract(P, G + "chi_hydro")
def chi_default_d2(c):
    M = c.dim("M")
    w, k, chi, d0 = c.arr("w", (M,)), c.pos("k"), c.real("chi"), c.pos("d0")
    c.calls(lambda call, v: call(G + "chi_hydro", v.w, v.k, v.chi, v.d0))
    c.ensures("chi0/(1 - i w/(d0 k^2))", (M,), lambda m: chi / (1 - Iu * w(m) / (d0 * k ** 2)))


@contract(P, G + "field_snap_off_w")
def field(c):
    M = c.dim("M")
    w, ho, eta = c.arr("w", (M,)), c.real("ho"), c.pos("eta")
    c.calls(lambda call, v: call(G + "field_snap_off_w", v.w, v.ho, v.eta))
    c.ensures("ho/(i w + eta)", (M,), lambda m: ho / (Iu * w(m) + eta))


@contract(P, G + "phi_t")
def phi(c):
    M, n = c.dim("M"), c.dim("n", 2)
    t, w, chi = c.arr("t", (M,)), c.arr("w", (n,)), c.arr("chi", (n,), "c")
    c.calls(lambda call, v: call(G + "phi_t", v.t, v.w, v.chi))
    c.ensures("trapezoidal Fourier integral /2pi", (M,), lambda m: trapz(n, w, lambda k: chi(k) * exp(-Iu * w(k) * t(m))) / (2 * PI))


@contract(P, G + "obs_kt")
def obs(c):
    M, n = c.dim("M"), c.dim("n", 2)
    t, w, chi, h = c.arr("t", (M,)), c.arr("w", (n,)), c.arr("chi", (n,), "c"), c.arr("h", (n,), "c")
    c.calls(lambda call, v: call(G + "obs_kt", v.t, v.w, v.chi, v.h))
    c.ensures("trapezoidal Fourier integral of chi times field /2pi", (M,), lambda m: trapz(n, w, lambda k: chi(k) * h(k) * exp(-Iu * w(k) * t(m))) / (2 * PI))


@contract(P, G + "grnfn_imagtime_ft")
def imagtime_ft(c):
    """samples outside [0, beta] are ignored (alternative 1: path on which every sample is inside)"""
    from ..symnp import consecutive
    M, n = c.dim("M"), c.dim("n", 2, 6)
    beta = c.pos("beta", .5, 2)
    wn, g = c.arr("wn", (M,)), c.arr("g", (n,), "c")
    tau = c.arr("tau", (n,), sample=lambda r, s, sh: (np.sort(r.uniform(-.5, 2.5, size=sh)) if r.uniform() < .7 else r.uniform(0, s["beta"], size=sh)))
    inside = lambda q: cand(le(0, tau(q)), le(tau(q), beta))
    c.calls(lambda call, v: call(G + "grnfn_imagtime_ft", v.wn, v.tau, v.g, v.beta))
    y = lambda m: lambda k: g(k) * exp(Iu * wn(m) * tau(k))
    c.ensures("trapezoidal integral over the samples in [0, beta]", (M,), [lambda m: trapz(n, tau, y(m)),
              lambda m: consecutive(n, inside, lambda i, j: (y(m)(i) + y(m)(j)) * (tau(j) - tau(i)) * HALF)])
