"""C17: ideal Fermi gas (fermi_gas)"""
from ..contract import *
from ..expr import exp, inv, cos, sin
P = "C17"
F = "fermi_gas."


def nF(b, mu, e):
    return 1 / (exp(b * (e - mu)) + 1)


FORMS = {"numbers": (0, 0, 0), "energies": (0, 0, 1), "all arrays": (1, 1, 1), "mu array": (0, 1, 0), "beta array": (1, 0, 1)}
for form, (ab, am, ae) in FORMS.items():
    @contract(P, F + "fermi", F + "fermi_derivatives", name="fermi " + form)
    def _f(c, ab=ab, am=am, ae=ae):
        n = c.dim("n")
        mk = lambda nm, a: c.arr(nm, (n,)) if a else (lambda s: (lambda i: s))(c.real(nm))
        b, mu, e = (c.arr("b", (n,), "f", ("nonneg",), sample=lambda r, s, sh: r.uniform(0, 2, sh)) if ab else (lambda s: (lambda i: s))(c.real("b", 0, 3, "nonneg"))), mk("mu", am), mk("e", ae)
        sh = (n,) if ab or am or ae else (1,)
        c.calls(lambda call, v: (call(F + "fermi", v.b, v.mu, v.e),) + tuple(call(F + "fermi_derivatives", v.b, v.mu, v.e)))
        c.ensures("1/(exp(b (e - mu)) + 1)", sh, lambda i: nF(b(i), mu(i), e(i)), get=lambda r: r[0])
        g = lambda i: exp(b(i) * (e(i) - mu(i)))
        S_ = [X.sym(s, "real") for s in ("sb", "smu", "se")]
        f = nF(*S_)
        at = lambda x, i: X.subst(x, {next(iter(s.d))[0][0][0]: y(i) for s, y in zip(S_, (b, mu, e))})
        for k, (nm, s) in enumerate((("mu", S_[1]), ("energy", S_[2]), ("beta", S_[0]))):
            d = deriv(f, s)
            c.ensures("derivative with respect to " + nm, sh, lambda i, d=d: at(d, i), get=lambda r, k=k: r[k + 1])


for ae in (0, 1):
    @contract(P, F + "fermi", name=f"fermi at T=0 {'array' if ae else 'number'}")
    def _f0(c, ae=ae):
        n = c.dim("n")
        b = c.real("b", 0, 1, "ext", "pos", sample=lambda r, s: np.inf)
        mu, e = c.real("mu"), (c.arr("e", (n,)) if ae else (lambda s: (lambda i: s))(c.real("e")))
        c.requires(X.pred("isinf", [b]))
        c.calls(lambda call, v: call(F + "fermi", v.b, v.mu, v.e))
        if ae == 0:
            c.requires(cnot(eq(e(0), mu)))
        # at e = mu only a value in [0, 1] is promised: the difference is multiplied by [e != mu]
        c.ensures("step function", (n,) if ae else (1,), [lambda i: ite(lt(e(i), mu), 1, ite(lt(mu, e(i)), 0, x)) for x in (1, HALF, 0)] + [lambda i: ite(le(e(i), mu), 1, 0)])


# ---------------------------------------------------------------- momenta
def grid(n):
    """j-th of the n balanced momenta, in ascending order"""
    h = X.floor(n * HALF)
    return lambda j: 2 * PI / n * (j - h)


@contract(P, F + "get_allowed_kvects")
def momenta_balanced(c):
    nx, ny = c.dim("nx", 1, 7), c.dim("ny", 1, 7)
    c.setup.append(linear_sort(grid(nx), nx))
    c.setup.append(linear_sort(grid(ny), ny))
    c.calls(lambda call, v: call(F + "get_allowed_kvects", v.nx, v.ny))
    c.ensures("kx grid", (ny, nx), lambda i, j: grid(nx)(j), get=lambda r: r[0])
    c.ensures("ky grid", (ny, nx), lambda i, j: grid(ny)(i), get=lambda r: r[1])
    c.ensures("kx spacing", (), lambda: 2 * PI / nx, get=lambda r: r[2])
    c.ensures("ky spacing", (), lambda: 2 * PI / ny, get=lambda r: r[3])
    j = X.sym("jj", "int", "real")
    c.lemma("within [-pi, pi)", lambda: [le(0, j), lt(j, nx)], lambda: cand(le(-PI, grid(nx)(j)), lt(grid(nx)(j), PI)))


@contract(P, F + "get_allowed_kvects")
def momenta_positive(c):
    nx, ny = c.dim("nx", 1, 7), c.dim("ny", 1, 7)
    c.calls(lambda call, v: call(F + "get_allowed_kvects", v.nx, v.ny, "positive"))
    c.ensures("kx grid", (ny, nx), lambda i, j: 2 * PI * j / nx, get=lambda r: r[0])
    c.ensures("ky grid", (ny, nx), lambda i, j: 2 * PI * i / ny, get=lambda r: r[1])


@contract(P, F + "get_allowed_kvects")
def momenta_bad_mode(c):
    c.dim("nx", 1, 7), c.dim("ny", 1, 7)
    c.calls(lambda call, v: call(F + "get_allowed_kvects", v.nx, v.ny, "other"))
    c.raises(TRUE)


# ---------------------------------------------------------------- Green's functions
def disp(dim, kx, ky=None):
    return -2 * cos(kx) if dim == "1d" else -2 * (cos(kx) + cos(ky))


def theta(t):
    return ite(le(0, t), 1, 0)


def gk(kind, b, mu, e, t):
    u, f = exp(-Iu * (e - mu) * t), nF(b, mu, e)
    return {"greater": lambda: -Iu * u * (1 - f), "lesser": lambda: Iu * u * f, "retarded": lambda: -Iu * theta(t) * u, "advanced": lambda: Iu * theta(-t) * u,
            "time-ordered": lambda: ite(lt(0, t), -Iu * u * (1 - f), Iu * u * f)}[kind]()


def dgk(kind, b, mu, e, t):
    """derivative with respect to mu"""
    u, f = exp(-Iu * (e - mu) * t), nF(b, mu, e)
    d = b * f * (1 - f)
    return {"greater": lambda: t * u * (1 - f) + Iu * u * d, "lesser": lambda: -t * u * f + Iu * u * d, "retarded": lambda: t * theta(t) * u, "advanced": lambda: -t * theta(-t) * u}[kind]()


KINDS = ("greater", "lesser", "retarded", "advanced", "time-ordered")
for kind in KINDS:
    for dim in ("1d", "2d"):
        for form in ("numbers", "arrays"):
            @contract(P, F + "fg_kspace_gfns", F + "fermi", F + "fermi_derivatives", name=f"k-space {kind} {dim} {form}")
            def _g(c, kind=kind, dim=dim, form=form):
                n = c.dim("n", 1 if dim == "1d" else 3, 5)
                k = c.arr("k", (n,) if dim == "1d" else (n, 2))
                if form == "numbers":
                    b, mu, t = [(lambda s: (lambda i: s))(c.real(x)) for x in ("b", "mu", "t")]
                else:
                    b, mu, t = [c.arr(x, (n,)) for x in ("b", "mu", "t")]
                if kind == "time-ordered":
                    if form == "arrays":
                        t0, sg = t, None
                        c.get("t")
                    else:
                        c.requires(cnot(eq(t(0), 0)))
                e = lambda i: disp(dim, k(i)) if dim == "1d" else disp(dim, k(i, 0), k(i, 1))
                c.calls(lambda call, v: call(F + "fg_kspace_gfns", v.b, v.mu, v.k, v.t, kind, dim))
                want = lambda i: gk(kind, b(i), mu(i), e(i), t(i))
                if kind == "time-ordered" and form == "arrays":      # only away from t = 0
                    w0 = want
                    fz = lambda i: -Iu * exp(-Iu * (e(i) - mu(i)) * t(i)) * (1 - 2 * nF(b(i), mu(i), e(i)))
                    c.ensures("Green's function (t != 0)", (n,), [w0, lambda i: ite(eq(t(i), 0), fz(i), w0(i))], get=lambda r: r[0])
                else:
                    c.ensures("Green's function", (n,), want, get=lambda r: r[0])
                if kind != "time-ordered":
                    c.ensures("derivative with respect to mu", (n,), lambda i: dgk(kind, b(i), mu(i), e(i), t(i)), get=lambda r: r[1])


@contract(P, F + "fg_kspace_gfns", name="k-space, one momentum")
def _one(c):
    b, mu, t = c.real("b"), c.real("mu"), c.real("t")
    k = c.arr("k", (2,))
    q = c.real("q")
    c.calls(lambda call, v: (call(F + "fg_kspace_gfns", v.b, v.mu, v.k, v.t, "greater", "2d")[0], call(F + "fg_kspace_gfns", v.b, v.mu, v.q, v.t, "lesser", "1d")[0]))
    c.ensures("2d", (1,), lambda i: gk("greater", b, mu, disp("2d", k(0), k(1)), t), get=lambda r: r[0])
    c.ensures("1d", (1,), lambda i: gk("lesser", b, mu, disp("1d", q), t), get=lambda r: r[1])


for bad in (("other", "1d"), ("greater", "3d")):
    @contract(P, F + "fg_kspace_gfns", name=f"k-space, inadmissible {bad}")
    def _bad(c, bad=bad):
        n = c.dim("n", 3)
        c.arr("k", (n,)), c.real("b"), c.real("mu")
        c.calls(lambda call, v: call(F + "fg_kspace_gfns", v.b, v.mu, v.k, 0., *bad))
        c.raises(TRUE)


# ---------------------------------------------------------------- lattice sums
def spacing_stub(I, fn, loc):
    """get_energy_spacing is only used for a warning: three arbitrary numbers, a function of the energies"""
    es = S.toarr(loc["es"])
    k = "x".join(str(S.size(a)) for a in es.axes)
    return tuple(S.mkscalar(X.sym(f"spacing{i}:{k}", "real"), "f") for i in range(3))


def lattice_mean(dim, n, f):
    """mean over the allowed momenta of f(energy, kx, ky)"""
    g = grid(n)
    if dim == "1d":
        return ssum(0, n, lambda j: f(disp("1d", g(j)), g(j), E(0))) / n
    return ssum(0, n, lambda i: ssum(0, n, lambda j: f(disp("2d", g(j), g(i)), g(j), g(i)))) / (n * n)


def lattice(c, lo=2):
    n = c.dim("n", lo, 6)
    c.setup.append(linear_sort(grid(E(1)), E(1)))
    c.setup.append(linear_sort(grid(n), n))
    c.stubs[F + "get_energy_spacing"] = spacing_stub
    return n


for kind in KINDS:
    for dim in ("1d", "2d"):
        @contract(P, F + "fg_realspace_gfn", F + "fg_kspace_gfns", F + "get_allowed_kvects", name=f"real-space {kind} {dim}")
        def _r(c, kind=kind, dim=dim):
            n = lattice(c)
            b, mu, t = c.pos("b"), c.real("mu"), c.real("t")
            rx, ry = c.integer("rx"), c.integer("ry")
            if kind == "time-ordered":
                c.requires(cnot(eq(t, 0)))
            c.calls(lambda call, v: call(F + "fg_realspace_gfn", v.b, v.mu, (v.rx, v.ry), v.t, v.n, dim, kind))
            ph = lambda kx, ky: exp(Iu * kx * rx) * (exp(Iu * ky * ry) if dim == "2d" else 1)
            c.ensures("Fourier transform of the k-space function", (), lambda: lattice_mean(dim, n, lambda e, kx, ky: ph(kx, ky) * gk(kind, b, mu, e, t)), get=lambda r: r[0])
            if kind != "time-ordered":
                c.ensures("its derivative with respect to mu", (), lambda: lattice_mean(dim, n, lambda e, kx, ky: ph(kx, ky) * dgk(kind, b, mu, e, t)), get=lambda r: r[1])


def realspace_form(c, form):
    m = c.dim("m", 2, 4)
    mk = lambda nm, a, pr=(), sm=None: c.arr(nm, (m,), "f", pr, sample=sm) if a else (lambda s: (lambda i: s))(c.real(nm, .1, 2.5, *pr) if pr else c.real(nm))
    ab, am = {"beta array": (1, 0), "mu array": (0, 1), "both arrays": (1, 1)}[form]
    return m, mk("b", ab, ("pos", "nz"), lambda r, s, sh: r.uniform(.1, 2.5, sh)), mk("mu", am)


for form in ("beta array", "mu array", "both arrays"):
    for kind in ("greater", "lesser"):
        @contract(P, F + "fg_realspace_gfn", F + "fg_kspace_gfns", F + "get_allowed_kvects", name=f"real-space {kind} {form}")
        def _ra(c, kind=kind, form=form):
            n = lattice(c)
            m, b, mu = realspace_form(c, form)
            t = c.real("t")
            rx = c.integer("rx")
            c.calls(lambda call, v: call(F + "fg_realspace_gfn", v.b, v.mu, (v.rx, 0), v.t, v.n, "1d", kind))
            c.ensures("entry by entry", (m,), lambda i: lattice_mean("1d", n, lambda e, kx, ky: exp(Iu * kx * rx) * gk(kind, b(i), mu(i), e, t)), get=lambda r: r[0])
            c.ensures("its derivative with respect to mu", (m,), lambda i: lattice_mean("1d", n, lambda e, kx, ky: exp(Iu * kx * rx) * dgk(kind, b(i), mu(i), e, t)), get=lambda r: r[1])


@contract(P, F + "fg_realspace_gfn", name="real-space size mismatch")
def _rm(c):
    lattice(c)
    m, k = c.dim("m", 2, 4), c.dim("k", 2, 4)
    c.requires(cnot(eq(m, k)))
    c.arr("b", (m,), "f", ("pos", "nz"), sample=lambda r, s, sh: r.uniform(.1, 2.5, sh)), c.arr("mu", (k,))
    c.calls(lambda call, v: call(F + "fg_realspace_gfn", v.b, v.mu, (0, 0), 0., v.n, "1d", "lesser"))
    c.raises(TRUE)


for dim in ("1d", "2d"):
    @contract(P, F + "fg_density", F + "fg_compressibility", F + "fg_realspace_gfn", name=f"density and compressibility {dim}")
    def _d(c, dim=dim):
        n = lattice(c)
        b, mu = c.pos("b"), c.real("mu")
        c.calls(lambda call, v: (call(F + "fg_density", v.b, v.mu, v.n, dim), call(F + "fg_compressibility", v.b, v.mu, v.n, dim)))
        c.ensures("mean occupation", (), lambda: lattice_mean(dim, n, lambda e, kx, ky: nF(b, mu, e)), get=lambda r: r[0])
        c.ensures("compressibility is dn/dmu", (), lambda: lattice_mean(dim, n, lambda e, kx, ky: b * nF(b, mu, e) * (1 - nF(b, mu, e))), get=lambda r: r[1])

    for at in ("origin", "other"):
        @contract(P, F + "fg_corr", F + "fg_realspace_gfn", name=f"density correlations {dim} {at}")
        def _c(c, dim=dim, at=at):
            n = lattice(c)
            b, mu = c.pos("b"), c.real("mu")
            rx, ry = c.integer("rx"), c.integer("ry")
            if at == "other":
                c.requires(cnot(eq(rx, 0) if dim == "1d" else cand(eq(rx, 0), eq(ry, 0))))
            c.calls(lambda call, v: call(F + "fg_corr", v.b, v.mu, (v.rx, v.ry) if at == "other" else (0, v.ry if dim == "1d" else 0), v.n, dim))
            den = lattice_mean(dim, n, lambda e, kx, ky: nF(b, mu, e))
            g = lambda s: lattice_mean(dim, n, lambda e, kx, ky: exp(s * Iu * kx * rx) * (exp(s * Iu * ky * ry) if dim == "2d" else 1) * nF(b, mu, e))
            c.ensures("Wick: delta <n> - |<c_i^dag c_j>|^2", (), lambda: den - den ** 2 if at == "origin" else -g(1) * g(-1))


# ---------------------------------------------------------------- two species
for dim in ("1d", "2d"):
    def two(c, dim, at=None):
        n = lattice(c)
        b, mu, md = c.pos("b"), c.real("mu"), c.real("md")
        rx, ry = c.integer("rx"), c.integer("ry")
        if at == "other":
            c.requires(cnot(eq(rx, 0) if dim == "1d" else cand(eq(rx, 0), eq(ry, 0))))
        den = lambda m: lattice_mean(dim, n, lambda e, kx, ky: nF(b, m, e))
        g = lambda m, s: lattice_mean(dim, n, lambda e, kx, ky: exp(s * Iu * kx * rx) * (exp(s * Iu * ky * ry) if dim == "2d" else 1) * nF(b, m, e))
        cor = lambda m: den(m) - den(m) ** 2 if at == "origin" else -g(m, 1) * g(m, -1)
        r = (lambda v: (v.rx, v.ry)) if at == "other" else (lambda v: (0, v.ry if dim == "1d" else 0))
        return n, b, mu, md, den, g, cor, r

    @contract(P, F + "fg_singles", F + "fg_doubles", F + "fg_density", name=f"singles and doubles {dim}")
    def _sd(c, dim=dim):
        n, b, mu, md, den, g, cor, r = two(c, dim)
        c.calls(lambda call, v: (call(F + "fg_singles", v.b, v.mu, v.md, v.n, dim), call(F + "fg_doubles", v.b, v.mu, v.md, v.n, dim)))
        c.ensures("<n_up + n_dn - 2 n_up n_dn>", (), lambda: den(mu) + den(md) - 2 * den(mu) * den(md), get=lambda r: r[0])
        c.ensures("<n_up n_dn>", (), lambda: den(mu) * den(md), get=lambda r: r[1])

    for at in ("origin", "other"):
        @contract(P, F + "fg_sz_corr", F + "fg_sx_corr", name=f"spin correlations {dim} {at}")
        def _sc(c, dim=dim, at=at):
            n, b, mu, md, den, g, cor, r = two(c, dim, at)
            c.calls(lambda call, v: tuple(call(F + f, v.b, v.mu, v.md, r(v), v.n, dim) for f in ("fg_sz_corr", "fg_sx_corr")))
            nu, nd = den(mu), den(md)
            uu_, ddn = cor(mu) + nu ** 2, cor(md) + nd ** 2
            c.ensures("<(n_u - n_d)(n_u' - n_d')>_c", (), lambda: uu_ + ddn - 2 * nu * nd - (nu - nd) ** 2, get=lambda r: r[0])
            if at == "origin":
                c.ensures("4 <Sx Sx'>", (), lambda: nu * (1 - nd) + nd * (1 - nu), get=lambda r: r[1])
            else:
                c.ensures("4 <Sx Sx'>", (), lambda: -(g(mu, 1) * g(md, -1) + g(mu, -1) * g(md, 1)), get=lambda r: r[1])

    @contract(P, F + "fg_singles_corr", F + "fg_doubles_corr", name=f"singles and doubles correlations {dim}")
    def _tc(c, dim=dim):
        """callee contracts: fg_density, fg_corr (proved above) as opaque functions of (beta, mu, separation, n)"""
        n, b, mu, md = c.dim("n", 2, 6), c.pos("b"), c.real("mu"), c.real("md")
        rx, ry = c.integer("rx", 0, 1), c.integer("ry", 0, 1)
        num = lambda x: S.numv(S.toarr(x)(*[0] * S.toarr(x).ndim))
        one = lambda x: all(X.iszero(S.size(a) - 1) for a in S.toarr(x).axes)

        def dens(I, fn, loc):
            if not one(loc["beta"]) or not one(loc["mu"]) or loc["dim"] != dim:
                return NotImplemented
            return S.mkscalar(X.fn("Dens", [num(loc["beta"]), num(loc["mu"]), num(loc["nsites"])], "real", "nonneg"), "f")

        def corr(I, fn, loc):
            if not one(loc["beta"]) or not one(loc["mu"]) or loc["dim"] != dim:
                return NotImplemented
            r = [num(x) for x in loc["corr_index"]]
            return S.mkscalar(X.fn("Corr", [num(loc["beta"]), num(loc["mu"]), r[0], r[1] if dim == "2d" else E(0), num(loc["nsites"])], "real"), "f")
        c.stubs[F + "fg_density"], c.stubs[F + "fg_corr"] = dens, corr

        def numeric(rng, syms, fns, vals):
            def occ(b, mu, n):
                k = 2 * np.pi * np.arange(int(n)) / n
                e = -2 * np.cos(k) if dim == "1d" else -2 * (np.cos(k)[:, None] + np.cos(k)[None, :])
                return k, 1 / (np.exp(b * (e - mu)) + 1)
            fns["Dens"] = lambda b, mu, n: occ(b, mu, n)[1].mean()

            def cor(b, mu, x, y, n):
                k, f = occ(b, mu, n)
                ph = np.exp(1j * k * x) if dim == "1d" else np.exp(1j * (k[:, None] * x + k[None, :] * y))
                g = abs((ph * f).mean())
                return (g if x == 0 and y == 0 else 0) - g ** 2
            fns["Corr"] = cor
            for f in ("Dens", "Corr"):
                fns[f].raw = True
        c.fixup.append(numeric)
        c.calls(lambda call, v: tuple(call(F + f, v.b, v.mu, v.md, (v.rx, v.ry), v.n, dim) for f in ("fg_singles_corr", "fg_doubles_corr")))
        D = lambda m: X.fn("Dens", [b, m, n], "real", "nonneg")
        C = lambda m: X.fn("Corr", [b, m, rx, ry if dim == "2d" else E(0), n], "real")
        cu, cd, nu, nd = C(mu), C(md), D(mu), D(md)
        # Wick's theorem for two independent species: <n_u n_u'> = cu + nu^2, <n_d n_d'> = cd + nd^2
        uu_, ddn = cu + nu ** 2, cd + nd ** 2
        dd = uu_ * ddn
        ss = uu_ + ddn + 2 * nu * nd + 4 * dd - 2 * (2 * uu_ * nd + 2 * ddn * nu)
        c.ensures("<s s'> - <s>^2", (), lambda: ss - (nu + nd - 2 * nu * nd) ** 2, get=lambda r: r[0])
        c.ensures("<d d'> - <d>^2", (), lambda: dd - (nu * nd) ** 2, get=lambda r: r[1])


# ---------------------------------------------------------------- density response
for dim in ("1d", "2d"):
    for omega in ("static", "finite"):
        @contract(P, F + "fg_density_response", F + "fg_magnetic_response", F + "fermi", F + "fermi_derivatives", name=f"response {dim} {omega}")
        def _resp(c, dim=dim, omega=omega):
            n = lattice(c)
            b, mu, w, eta = c.pos("b"), c.real("mu"), c.real("w"), c.pos("eta")
            q = c.arr("q", (2,))
            gr = grid(n)
            def chi(e, eq_):
                diff = nF(b, mu, e) - nF(b, mu, eq_)
                # degenerate pairs contribute the limit -df/dmu
                den = e - eq_ if omega == "static" else w + e - eq_ + Iu * eta
                close = cand(eq(X.absv(e - eq_), 0), eq(X.absv(den), 0))
                return ite(close, -b * nF(b, mu, e) * (1 - nF(b, mu, e)), diff / den)
            def mean():
                if dim == "1d":
                    return ssum(0, n, lambda j: chi(disp("1d", gr(j)), disp("1d", gr(j) + q(0)))) / n
                return ssum(0, n, lambda i: ssum(0, n, lambda j: chi(disp("2d", gr(j), gr(i)), disp("2d", gr(j) + q(0), gr(i) + q(1))))) / (n * n)
            args = (lambda v: (v.b, v.mu, v.q, v.w, v.eta, v.n, dim)) if omega == "finite" else (lambda v: (v.b, v.mu, v.q, 0., 0., v.n, dim))
            c.calls(lambda call, v: tuple(call(F + "fg_density_response", *args(v))) + tuple(call(F + "fg_magnetic_response", *args(v))))
            for k, what in enumerate(("real part", "imaginary part", "magnetic real part", "magnetic imaginary part")):
                c.ensures(what, (), lambda k=k: X.re(mean()) if k % 2 == 0 else X.im(mean()), get=lambda r, k=k: r[k])


@contract(P, F + "get_dos", name="density of states")
def _dos(c):
    n, m = c.dim("n", 1, 9), c.dim("m", 1, 4)
    e = c.arr("e", (n,), sample=lambda r, s, sh: r.integers(-4, 9, sh) / 4)
    g = c.arr("g", (m + 1,), sample=lambda r, s, sh: np.cumsum(r.integers(1, 4, sh)) / 4 - 1)
    c.calls(lambda call, v: call(F + "get_dos", v.e, v.g))
    inb = lambda i, x: cand(le(g(i), x), cor(lt(x, g(i + 1)), cand(eq(E(i), m - 1), eq(x, g(i + 1)))))
    c.ensures("fraction of the energies in each bin per unit energy", (m,), lambda i: ssum(0, n, lambda k: X.indicator(inb(i, e(k)))) / (g(i + 1) - g(i)) / n)
