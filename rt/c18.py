"""C18 imaginary-time Green's functions"""
import numpy as np, warnings
from rt.core import *
from exact_diag import greens_fns as G


def trap(f, x):
    f = np.asarray(f); x = np.asarray(x, float)
    s = 0
    for i in range(len(x) - 1):
        s = s + (f[i] + f[i + 1]) / 2 * (x[i + 1] - x[i])
    return s


def run(ctx):
    r = ctx.rng
    for k in range(ctx.reps(80, 400)):
        fmt = ("fermion", "boson")[k % 2]
        beta = float(np.exp(r.normal())) if k % 3 else [1, 2, 1., .5, 7, 2 * np.pi][k % 6]
        u = np.pi / beta
        nmax = int(r.integers(0, 30)); off = 1 if fmt == "fermion" else 0
        cut = u * (2 * nmax + off + float(r.uniform(.05, 1.95)))  # strictly between consecutive frequencies
        if k % 16 == 0:
            cut = u * (off * .5 + .01)   # only (possibly) zero below the cutoff
            nmax = -1 if off else 0
        if k % 7 == 0:
            cut = float(cut)
        def chk(beta=beta, cut=cut, nmax=nmax, fmt=fmt, off=off, u=u):
            w = G.get_matsubara_frqs(beta, cut, format=fmt)
            n = [m for m in range(-4 * nmax - 10, 4 * nmax + 10) if m % 2 == off and abs(m * u) < cut]
            close(w, u * np.array(n, float), 1e-9, "Matsubara frequencies")
            close(w, -w[::-1], 1e-12, "symmetric")
        ctx.case("Matsubara frequencies", (beta, cut, fmt), chk)
        def chkd(beta=beta, fmt=fmt, off=off, u=u):
            if abs((30 / u - off) / 2 - round((30 / u - off) / 2)) < 1e-6:
                return
            w = G.get_matsubara_frqs(beta, format=fmt)
            n = [m for m in range(-int(40 / u) - 4, int(40 / u) + 4) if m % 2 == off and abs(m * u) < 30]
            close(w, u * np.array(n, float), 1e-9, "default cutoff")
            if off:
                close(G.get_matsubara_frqs(beta), w, 1e-12, "default statistics")
        ctx.case("Matsubara default cutoff", (beta, fmt), chkd)
    def bad():
        expect_raise(lambda: G.get_matsubara_frqs(1., 10, format="anyon"), "unknown statistics accepted")
    ctx.case("unknown format", None, bad)
    for k in range(ctx.reps(60, 300)):
        n = int(r.integers(2, 12)); om = np.sort(r.normal(size=n) * 3) if k % 2 else np.linspace(-3.3, 4.1, n)
        if k % 5 == 4:
            om = om[::-1].copy()
        if n < 3 and k % 3 == 0:
            pass
        A = r.random(n) if k % 3 else r.normal(size=n)
        beta = float(np.exp(r.normal() * .5))
        m = int(r.integers(1, 6)); taus = np.sort(r.random(m)) * beta; fmt = ("fermion", "boson")[k % 2]
        wn = G.get_matsubara_frqs(beta, np.pi / beta * 6.5, "fermion")
        if k % 4 == 0:
            wn = r.normal(size=int(r.integers(1, 5))) + .1
        s = 1 if fmt == "fermion" else -1
        def chk(om=om, A=A, beta=beta, taus=taus, fmt=fmt, wn=wn, s=s, n=n):
            gt = G.get_grnfn_imagtime_spectralfn(taus, beta, om, A, format=fmt)
            E = np.array([-trap(A * np.exp(-om * t) / (1 + s * np.exp(-beta * om)), om) / (2 * np.pi) for t in taus])
            close(gt, E, 1e-9, "imaginary time from spectral function")
            K = G.get_grnfn_imagtime_spectralfn_kernel(taus, beta, om, format=fmt)
            need(K.shape == (len(taus), n), "kernel shape"); close(K @ A, E, 1e-9, "imaginary time kernel")
            gw = G.get_grnfn_imagfrq_spectralfn(wn, om, A)
            E = np.array([trap(A / (1j * w - om), om) / (2 * np.pi) for w in wn])
            close(gw, E, 1e-9, "imaginary frequency from spectral function")
            K = G.get_grnfn_imagfrq_spectralfn_kernel(wn, om)
            need(K.shape == (len(wn), n), "kernel shape"); close(K @ A, E, 1e-9, "imaginary frequency kernel")
            if fmt == "fermion":
                close(G.get_grnfn_imagtime_spectralfn(taus, beta, om, A), gt, 1e-12, "default format")
                close(G.get_grnfn_imagtime_spectralfn_kernel(taus, beta, om) @ A, gt, 1e-12, "default format")
        ctx.case("spectral transforms", (om, A, beta, taus, fmt), chk)
    for k in range(ctx.reps(60, 300)):
        beta = float(np.exp(r.normal() * .5)) if k % 3 else [2 / 3, 1 / 3, 1., 5 / 7, 2.][k % 5]
        nt = int(r.integers(2, 10)); taus = np.linspace(0, beta, nt) if k % 2 else np.sort(np.concatenate(([0, beta], r.random(nt) * beta)))
        if k % 4 == 3:
            taus = np.sort(np.concatenate((taus, [-.4 * beta, -.01, beta + .2, 1.7 * beta])))
        if k % 8 == 5:
            taus = np.sort(r.random(nt + 2)) * beta
        if k % 8 == 6:      # barely outside
            d = [3e-3, 4e-4, 1e-5][k // 8 % 3]; taus = np.sort(np.concatenate((taus, [[-d], [beta + d], [-d, beta + d]][k // 24 % 3])))
        g = r.normal(size=len(taus)) + (1j * r.normal(size=len(taus)) if k % 5 == 0 else 0)
        wn = G.get_matsubara_frqs(beta, np.pi / beta * 4.5, ("fermion", "boson")[k % 2])
        gw = r.normal(size=len(wn)) + 1j * r.normal(size=len(wn)); t2 = r.uniform(-beta, beta, int(r.integers(1, 5)))
        def chk(beta=beta, taus=taus, g=g, wn=wn, gw=gw, t2=t2):
            keep = (taus >= -1e-12) & (taus <= beta + 1e-12)
            E = np.array([trap(g[keep] * np.exp(1j * w * taus[keep]), taus[keep]) for w in wn])
            t0, g0 = taus.copy(), g.copy()
            close(G.grnfn_imagtime_ft(wn, taus, g, beta), E, 1e-9, "time to frequency")
            need(np.array_equal(t0, taus) and np.array_equal(g0, g), "input modified")
            E = np.array([sum(gw[i] * np.exp(-1j * wn[i] * t) for i in range(len(wn))) / beta for t in t2])
            close(G.grnfn_imagfrq_ft(t2, wn, gw, beta), E, 1e-9, "frequency to time")
        ctx.case("Fourier transforms", (beta, taus, g, t2), chk)
    for k in range(ctx.reps(50, 300)):
        beta = float(np.exp(r.normal() * .7)); e = float(r.normal() * 2); t = np.concatenate((r.uniform(.01, .99, 4) * beta, -r.uniform(.01, .99, 4) * beta))
        eta = float(np.exp(r.normal())); om = r.normal(size=5) * 3
        def chk(beta=beta, e=e, t=t, eta=eta, om=om):
            g = G.get_noninteracting_gfn_tau(t, e, beta); f = 1 / (1 + np.exp(beta * e))
            close(g, np.where(t > 0, -np.exp(-e * t) * (1 - f), np.exp(-e * t) * f), 1e-9, "noninteracting G(tau)")
            tm = t[t < 0]
            close(G.get_noninteracting_gfn_tau(tm + beta, e, beta), -G.get_noninteracting_gfn_tau(tm, e, beta), 1e-9, "antiperiodic")
            gw, w = G.get_noninteracting_gfn_imagfrq(np.pi / beta * 10.3, e, beta)
            close(w, np.pi / beta * np.arange(-9, 10, 2.), 1e-9, "frequencies"); close(gw, 1 / (1j * w - e), 1e-9, "noninteracting G(iw)")
            close(G.get_noninteracting_spectral_fn(om, e, eta), 2 * eta / (eta ** 2 + (om - e) ** 2), 1e-9, "spectral function")
            es = np.array([[e], [e + 1.]])
            close(G.get_noninteracting_gfn_tau(t[None, :], es, beta)[0], g, 1e-12, "array energies")
        ctx.case("noninteracting", (beta, e, t, eta, om), chk)
    for k in range(ctx.reps(50, 300)):
        ws = r.normal(size=int(r.integers(2, 8))) * 2; q = float(r.uniform(.2, 2)); c0, d0, d2, gm = [float(z) for z in np.exp(r.normal(size=4))]
        if k % 3 == 0:
            d2 = 0.
        ts = r.normal(size=int(r.integers(1, 5))) * 2; ho = float(r.normal()); eta = float(np.exp(r.normal()))
        wg = np.sort(ws)
        ch = r.normal(size=len(ws)) + 1j * r.normal(size=len(ws)); fw = r.normal(size=len(ws)) + 1j * r.normal(size=len(ws))
        def chk(ws=ws, q=q, c0=c0, d0=d0, d2=d2, gm=gm, ts=ts, ho=ho, eta=eta, wg=wg, ch=ch, fw=fw):
            D = d0 * q ** 2 + d2 * q ** 4
            close(G.chi_hydro(ws, q, c0, d0, d2, gm), c0 / (1 - 1j * ws / D - ws ** 2 / (gm * D)), 1e-9, "finite relaxation")
            close(G.chi_hydro(ws, q, c0, d0, d2), c0 / (1 - 1j * ws / D), 1e-9, "diffusive")
            close(G.chi_hydro(ws, q, c0, d0), c0 / (1 - 1j * ws / (d0 * q ** 2)), 1e-9, "default k^4 coefficient")
            close(G.chi_hydro(ws, q, c0, d0, d2, 1e14), G.chi_hydro(ws, q, c0, d0, d2, np.inf), 1e-6, "limit of infinite relaxation rate")
            close(G.field_snap_off_w(ws, ho, eta), ho / (1j * ws + eta), 1e-9, "field"); close(G.field_snap_off_w(ws, ho), ho / (1j * ws + .1), 1e-9, "field default")
            close(G.phi_t(ts, wg, ch), [trap(ch * np.exp(-1j * wg * t), wg) / (2 * np.pi) for t in ts], 1e-9, "response in time")
            close(G.obs_kt(ts, wg, ch, fw), [trap(ch * fw * np.exp(-1j * wg * t), wg) / (2 * np.pi) for t in ts], 1e-9, "observable in time")
        ctx.case("hydrodynamics", (ws, q, c0, d0, d2, gm, ts, ho, eta), chk)
