"""C17 ideal Fermi gas on a lattice"""
import numpy as np
from rt.core import *
from exact_diag import fermi_gas as F


def f0(b, mu, e):
    x = b * (e - mu)
    return .5 * (1 - np.tanh(x / 2))


def fT(b, mu, e):
    if b == np.inf:
        return np.where(e < mu, 1., np.where(e > mu, 0., np.nan))
    return f0(b, mu, e)


def grid(n):
    return np.array([2 * np.pi * j / n for j in range(n)])


def disp(k, dim):
    return -2 * np.cos(k) if dim == "1d" else -2 * (np.cos(k[:, 0]) + np.cos(k[:, 1]))


def kpts(n, dim):
    q = grid(n)
    return q if dim == "1d" else np.array([[a, b] for a in q for b in q])


def gk(kind, b, mu, e, t):
    u = np.exp(-1j * (e - mu) * t); f = fT(b, mu, e)
    th = lambda z: np.where(np.asarray(z) >= 0, 1., 0.)
    return {"greater": -1j * u * (1 - f), "lesser": 1j * u * f, "retarded": -1j * th(t) * u, "advanced": 1j * th(-np.asarray(t)) * u,
            "time-ordered": -1j * u * (th(t) * (1 - f) - th(-np.asarray(t)) * f)}[kind]


def dgk(kind, b, mu, e, t):
    u = np.exp(-1j * (e - mu) * t); f = f0(b, mu, e); d = b * f * (1 - f)
    th = lambda z: np.where(np.asarray(z) >= 0, 1., 0.)
    return {"greater": t * u * (1 - f) + 1j * u * d, "lesser": -t * u * f + 1j * u * d, "retarded": th(t) * t * u, "advanced": -th(-np.asarray(t)) * t * u}[kind]


def gr(kind, b, mu, r, t, n, dim):
    k = kpts(n, dim); e = disp(k, dim)
    ph = np.exp(1j * k * r[0]) if dim == "1d" else np.exp(1j * (k[:, 0] * r[0] + k[:, 1] * r[1]))
    return np.mean(ph * gk(kind, b, mu, e, t)), (np.mean(ph * dgk(kind, b, mu, e, t)) if kind != "time-ordered" and b != np.inf else None)


KINDS = ("greater", "lesser", "retarded", "advanced", "time-ordered")


def run(ctx):
    r = ctx.rng
    for k in range(ctx.reps(80, 400)):
        b = [0., .3, 1., 4.7, 60., np.inf, float(np.exp(r.normal()))][k % 7]; mu = float(r.normal() * 2); e = r.normal(size=[1, 4, (2, 3)][k % 3]) * 3
        if k % 10 == 7:
            e = e + 900. * np.sign(e)
        if k % 9 == 4:      # very cold and close to the chemical potential
            b = [np.inf, 2e4, 1e7][k // 9 % 3]; e = mu + e * [1e-9, 1e-4, 1e-7][k // 9 % 3]
        def chk(b=b, mu=mu, e=e):
            E = fT(b, mu, e)
            close(F.fermi(b, mu, e), E, 1e-10, "Fermi function")
            close(F.fermi(b, mu, float(e.ravel()[0])), E.ravel()[:1], 1e-10, "Fermi function of a number")
            bs = np.array([b, 1.3])
            close(F.fermi(bs[:, None], mu, e.ravel()[None, :]), np.array([fT(bb, mu, e.ravel()) for bb in bs]), 1e-10, "broadcast beta")
            mus = np.array([mu, mu + .7, mu - 2.1])
            close(F.fermi(b, mus[:, None], e.ravel()[None, :]), np.array([fT(b, mm, e.ravel()) for mm in mus]), 1e-10, "broadcast mu")
            if b == np.inf:
                q = F.fermi(b, mu, np.array([mu, mu - 1, mu + 1])); need(0 <= q[0] <= 1, "Fermi level occupation"); close(q[1:], [1., 0.], 1e-12, "step")
            else:
                f = f0(b, mu, e)
                a1, a2, a3 = F.fermi_derivatives(b, mu, e)
                close(a1, b * f * (1 - f), 1e-10, "df/dmu"); close(a2, -b * f * (1 - f), 1e-10, "df/de"); close(a3, -(e - mu) * f * (1 - f), 1e-10, "df/dbeta")
                a = F.fermi_derivatives(bs[:, None] if b else 2., mu, e.ravel()[None, :])
                ff = np.array([f0(bb, mu, e.ravel()) for bb in (bs if b else [2.])]); bb = (bs if b else np.array([2.]))[:, None]
                close(a[0], bb * ff * (1 - ff), 1e-10, "broadcast df/dmu"); close(a[2], -(e.ravel() - mu) * ff * (1 - ff), 1e-10, "broadcast df/dbeta")
        ctx.case("fermi", (b, mu, e), chk)
    for nx in list(range(1, 14)) + [20, 49, 100]:
        ny = int(r.integers(1, 9))
        def chk(nx=nx, ny=ny):
            for mode in ("balanced", "positive"):
                a = F.get_allowed_kvects(nx, ny, mode)
                need(a[0].shape == (ny, nx) == a[1].shape, "grid shape"); close([a[2], a[3]], [2 * np.pi / nx, 2 * np.pi / ny], 1e-12, "spacing")
                need(np.all(a[0] == a[0][0]) and np.all(a[1] == a[1][:, :1]), "grid is a product")
                for v, n in ((a[0][0], nx), (a[1][:, 0], ny)):
                    m = v * n / (2 * np.pi); need(np.allclose(m, np.round(m), atol=1e-9), "multiples of 2 pi / n")
                    m = np.round(m).astype(int); need(sorted(z % n for z in m) == list(range(n)), "each momentum once")
                    need(np.all(np.diff(v) > 0), "sorted")
                    if mode == "balanced":
                        need(np.all(v >= -np.pi - 1e-9) and np.all(v < np.pi), "balanced range"); need(np.sum(v < 1e-9 - np.pi) == (n % 2 == 0), "Brillouin zone edge")
                    else:
                        need(np.array_equal(m, np.arange(n)), "positive range")
            close(F.get_allowed_kvects(nx, ny)[0], F.get_allowed_kvects(nx, ny, "balanced")[0], 0, "default")
            expect_raise(lambda: F.get_allowed_kvects(nx, ny, "other"), "unknown mode accepted")
        ctx.case("momenta", (nx, ny), chk)
    for k in range(ctx.reps(60, 400)):
        dim = ("1d", "2d")[k % 2]; b = [.4, 1., 3., np.inf, 0.][k % 5]; mu = float(r.normal() * 1.5); t = float(r.normal() * 2)
        if k % 6 == 0:
            t = 0.
        ks = r.uniform(-4, 4, 5) if dim == "1d" else r.uniform(-4, 4, (5, 2))
        def chk(dim=dim, b=b, mu=mu, t=t, ks=ks):
            e = disp(ks, dim); out = {}
            for kind in KINDS:
                if kind == "time-ordered" and t == 0:
                    continue
                g, d = F.fg_kspace_gfns(b, mu, ks, t, kind, dim); out[kind] = g
                close(g, gk(kind, b, mu, e, t), 1e-9, kind)
                if kind != "time-ordered" and b != np.inf:
                    close(d, dgk(kind, b, mu, e, t), 1e-9, "mu derivative of " + kind)
                g1, _ = F.fg_kspace_gfns(b, mu, ks[0] if dim == "2d" else float(ks[0]), t, kind, dim); close(g1, g[:1], 1e-10, "single momentum")
                ts = np.array([t, 1.1, -.4, .2, -1.]); close(F.fg_kspace_gfns(b, mu, ks, ts, kind, dim)[0], gk(kind, b, mu, e, ts), 1e-9, "several times") if t else None
                ms = np.linspace(-1, 1, 5) + .123
                close(F.fg_kspace_gfns(b, ms, ks, t, kind, dim)[0], np.array([gk(kind, b, ms[i], e[i:i + 1], t)[0] for i in range(5)]), 1e-9, "several chemical potentials")
            close(out["greater"] - out["lesser"], -1j * np.exp(-1j * (e - mu) * t), 1e-9, "anticommutator")
            close(F.fg_kspace_gfns(b, mu, ks, dim=dim)[0], gk("greater", b, mu, e, 0.), 1e-9, "defaults")
            expect_raise(lambda: F.fg_kspace_gfns(b, mu, ks, t, "other", dim), "unknown type accepted")
            expect_raise(lambda: F.fg_kspace_gfns(b, mu, ks, t, "lesser", "3d"), "unknown dimension accepted")
        ctx.case("momentum space", (dim, b, mu, t, ks), chk)
    for k in range(ctx.reps(60, 400)):
        dim = ("1d", "2d")[k % 2]; n = int(r.integers(2, 9)); b = [.4, 1., 3., np.inf, 0., 7.7][k % 6]; mu = float(r.normal() * 1.2); mu2 = float(r.normal() * 1.2)
        t = float(r.normal()); cr = [int(r.integers(0, n)) * (1 if r.random() < .5 else -1), int(r.integers(-n + 1, n))]
        if k % 4 == 0:
            cr = [0, 0]
        kw = dict(nsites=n, dim=dim)
        def chk(dim=dim, n=n, b=b, mu=mu, mu2=mu2, t=t, cr=cr, kw=kw):
            for kind in KINDS:
                g, d = F.fg_realspace_gfn(b, mu, cr, t, type=kind, **kw); E, dE = gr(kind, b, mu, cr, t, n, dim)
                close(g, E, 1e-9, "real space " + kind)
                if dE is not None:
                    close(d, dE, 1e-9, "mu derivative, real space " + kind)
            L = lambda m, rr: gr("lesser", b, m, rr, 0., n, dim)
            n1 = (L(mu, [0, 0])[0] / 1j).real; n2 = (L(mu2, [0, 0])[0] / 1j).real
            G1 = L(mu, cr)[0] / 1j; G2 = L(mu2, cr)[0] / 1j
            z = (cr[0] == 0) and (dim == "1d" or cr[1] == 0)
            c1 = z * n1 - abs(G1) ** 2; c2 = z * n2 - abs(G2) ** 2
            close(F.fg_density(b, mu, **kw), n1, 1e-9, "density")
            if b != np.inf:
                close(F.fg_compressibility(b, mu, **kw), (L(mu, [0, 0])[1] / 1j).real, 1e-9, "compressibility")
            close(F.fg_corr(b, mu, cr, **kw), c1, 1e-9, "density correlator")
            close(np.ravel(F.fg_singles(b, mu, mu2, **kw)), [n1 + n2 - 2 * n1 * n2], 1e-9, "singles"); close(np.ravel(F.fg_doubles(b, mu, mu2, **kw)), [n1 * n2], 1e-9, "doubles")
            dd = (c1 + n1 ** 2) * (c2 + n2 ** 2) - n1 ** 2 * n2 ** 2     # <d d>_c
            nd1 = c1 * n2; nd2 = c2 * n1                                  # <n d>_c
            close(F.fg_doubles_corr(b, mu, mu2, cr, **kw), dd, 1e-9, "doubles correlator")
            close(F.fg_singles_corr(b, mu, mu2, cr, **kw), c1 + c2 + 4 * dd - 4 * nd1 - 4 * nd2, 1e-9, "singles correlator")
            close(F.fg_sz_corr(b, mu, mu2, cr, **kw), c1 + c2, 1e-9, "sz correlator")
            close(F.fg_sx_corr(b, mu, mu2, cr, **kw), z * (n1 + n2) - 2 * (G1 * np.conj(G2)).real, 1e-9, "sx correlator")
        ctx.case("real space", (dim, n, b, mu, mu2, t, cr), chk)
        bs = np.array([.3, 1.2, 5., .7]) if b != np.inf else np.array([1., np.inf, 2., 3.]); ms = r.normal(size=4)
        def chk2(dim=dim, n=n, bs=bs, ms=ms, cr=cr, kw=kw, t=t, mu=mu, b=b):
            fns = [(lambda bb, m: F.fg_realspace_gfn(bb, m, cr, t, type="greater", **kw)[0], "gfn"), (lambda bb, m: F.fg_density(bb, m, **kw), "density"), (lambda bb, m: F.fg_corr(bb, m, cr, **kw), "corr"),
                   (lambda bb, m: F.fg_singles(bb, m, .3, **kw), "singles"), (lambda bb, m: F.fg_doubles(bb, m, .3, **kw), "doubles"), (lambda bb, m: F.fg_singles_corr(bb, m, .3, cr, **kw), "singles corr"),
                   (lambda bb, m: F.fg_doubles_corr(bb, .3, m, cr, **kw), "doubles corr"), (lambda bb, m: F.fg_sz_corr(bb, m, .2, cr, **kw), "sz"), (lambda bb, m: F.fg_sx_corr(bb, m, .2, cr, **kw), "sx")]
            if not np.any(bs == np.inf):
                fns.append((lambda bb, m: F.fg_compressibility(bb, m, **kw), "compressibility"))
                fns.append((lambda bb, m: F.fg_density_response(bb, m, [.4, .3], .2, .1, n, dim)[0], "response")); fns.append((lambda bb, m: F.fg_density_response(bb, m, [.4, .3], .2, .1, n, dim)[1], "response imag"))
            for fn, nm in fns:
                one = np.array([np.ravel(fn(float(bs[i]), float(ms[i])))[0] for i in range(4)])
                close(fn(bs, ms), one, 1e-9, nm + ": arrays differ from numbers")
                close(fn(bs.reshape(2, 2), ms.reshape(2, 2)), one.reshape(2, 2), 1e-9, nm + ": 2d arrays")
                close(fn(bs, float(ms[0])), np.array([np.ravel(fn(float(x), float(ms[0])))[0] for x in bs]), 1e-9, nm + ": beta array")
                close(fn(float(bs[0]), ms), np.array([np.ravel(fn(float(bs[0]), float(x)))[0] for x in ms]), 1e-9, nm + ": mu array")
            expect_raise(lambda: F.fg_density(bs, ms[:3], **kw), "arrays of different size accepted")
        if k % 3 == 0:
            ctx.case("array arguments", (dim, n, bs, ms, cr), chk2)
    for k in range(ctx.reps(60, 300)):
        dim = ("1d", "2d")[k % 2]; n = int(r.integers(2, 9)); b = [.4, 1., 3., 0., 7.7][k % 5]; mu = float(r.normal() * 1.2)
        q = r.normal(size=2) * 2 if k % 3 else 2 * np.pi / n * r.integers(0, n, 2)
        if k % 7 == 0:
            q = np.zeros(2)
        w, eta = ((0., 0.), (float(r.normal()), .2), (0., .3), (float(r.normal()), .01))[k % 4]
        def chk(dim=dim, n=n, b=b, mu=mu, q=q, w=w, eta=eta):
            kk = kpts(n, dim); e = disp(kk, dim); e2 = disp(kk + (q[0] if dim == "1d" else q), dim)
            den = w + e - e2 + 1j * eta; f = f0(b, mu, e)
            deg = (np.abs(e - e2) < 1e-9) & (np.abs(den) < 1e-9)
            if np.any((np.abs(den) < 1e-6) & ~deg):
                return
            tm = np.where(deg, -b * f * (1 - f), (f - f0(b, mu, e2)) / np.where(deg, 1, den))
            E = np.mean(tm)
            for fn in (F.fg_density_response, F.fg_magnetic_response):
                a, c = fn(b, mu, q if dim == "2d" else q[:1], w, eta, n, dim); close([a, c], [E.real, E.imag], 1e-7, "density response")
            a, c = F.fg_density_response(b, mu, q, omega=w, eta=eta, nsites=n, dim=dim); close([a, c], [E.real, E.imag], 1e-7, "density response")
        ctx.case("density response", (dim, n, b, mu, q, w, eta), chk)
    for k in range(ctx.reps(10, 40)):
        es = np.round(r.normal(size=(3, 5)) * 2, 1); ed = np.array([-9., -2., -.55, .35, 1.15, 9.])
        def chk(es=es, ed=ed):
            c = np.array([np.sum((es >= a) & ((es < bb) if i < 4 else (es <= bb))) for i, (a, bb) in enumerate(zip(ed[:-1], ed[1:]))])
            close(F.get_dos(es, ed), c / np.diff(ed) / es.size, 1e-9, "density of states")
        ctx.case("density of states", (es, ed), chk)
