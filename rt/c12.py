"""C12 thermal weights and averages"""
import numpy as np, scipy.sparse as sp, scipy.linalg as sl
from rt.core import *
from rt import geo
from exact_diag.ed_fermions import fermions
from exact_diag.ed_spins import spinSystem


def spectrum(r, n, k):
    """sorted energies with chosen ground degeneracy"""
    g = [1, 1, 2, 3, n][k % 5]; g = min(max(g, 1), n)
    e = np.sort(np.concatenate((np.zeros(g), r.uniform(.05, 4, n - g))))
    if k % 3 == 1 and n - g >= 2:
        e[-1] = e[-2]
    if k % 4 < 2:         # degenerate only up to the rounding error of a diagonalisation
        e[:g] = 8e-16 * np.arange(g)
    return e, g


def avg(e, a, T, g):
    if T == 0:
        return np.mean(a[:g])
    w = np.exp(-(e - e[0]) / T)
    return np.sum(w * a) / np.sum(w)


def run(ctx):
    r = ctx.rng; M = fermions(geo.chain(2), 0, 1., nspecies=1); S = spinSystem(geo.chain(2))
    for k in range(ctx.reps(120, 600)):
        n = [1, 2, 3, 5, 8][k % 5]; e, g = spectrum(r, n, k // 2); sh = [0., 1., -2.5, 8.][k % 4] if k % 6 else float(r.normal() * 20)
        E = e + sh
        Ts = [0., .01, .3, 1., 5., 200.] if k % 2 else [2., 0, .7, 0., 13.]
        if k % 7 == 0:
            Ts = [3, 0, 1]
        m = M if k % 2 else S
        def chk(E=E, e=e, g=g, Ts=Ts, m=m, n=n):
            E0 = E.copy()
            for T in Ts:
                for t in (T, np.array([T]), np.array(T)):
                    w, z = m.get_thermal_weights(E, t, use_energies_offset=True)
                    ex = np.exp(-e / T) if T else np.r_[np.ones(g), np.zeros(n - g)]
                    close(w, ex, 1e-8, f"weights at T={T}"); close(z, ex.sum(), 1e-8, f"partition function at T={T}")
                if T and abs(E).max() / T < 600:
                    for kw in ({}, {"use_energies_offset": False}):
                        w, z = m.get_thermal_weights(E, T, **kw); ex = np.exp(-E / T)
                        close(w / ex, np.ones(n), 1e-9, "weights without offset"); close(z / ex.sum(), 1., 1e-9, "partition function without offset")
                w, z = m.get_thermal_weights(e.tolist(), T); ex = np.exp(-e / T) if T else np.r_[np.ones(g), np.zeros(n - g)]
                close(w, ex, 1e-9, "weights, ground state energy zero"); close(z, ex.sum(), 1e-9, "partition function, ground state energy zero")
            w, z = m.get_thermal_weights(E, Ts, use_energies_offset=True)
            for i, T in enumerate(Ts):
                ex = np.exp(-e / T) if T else np.r_[np.ones(g), np.zeros(n - g)]
                close(w[:, i], ex, 1e-8, "weights, temperatures together"); close(z[i], ex.sum(), 1e-8, "partition functions together")
            need(np.array_equal(E, E0), "energies modified")
        ctx.case("weights", (E, g, Ts), chk)
        real = bool(k % 3 == 0); V = rand_unitary(r, n, real); O = rand_herm(r, n, real)
        if k % 8 == 5:
            O = np.diag(r.normal(size=n))
        d = n + int(r.integers(0, 3))
        if k % 4 == 3:   # eigenvectors of a truncated subspace: fewer columns than rows
            V = np.linalg.qr(r.normal(size=(d, n)) + 1j * r.normal(size=(d, n)))[0]; O = rand_herm(r, d)
        def chk2(E=E, e=e, g=g, Ts=Ts, m=m, V=V, O=O, k=k):
            a = np.array([(V[:, i].conj() @ O @ V[:, i]).real for i in range(len(e))])
            op = sp.csr_matrix(O) if k % 2 else O
            ex = np.array([avg(e, a, T, g) for T in Ts])
            close(np.ravel(m.get_exp_vals_thermal(V, op, E, np.array(Ts))), ex, 1e-8, "temperatures together")
            p = r.permutation(len(Ts)); close(np.ravel(m.get_exp_vals_thermal(V, op, E, np.array(Ts)[p])), ex[p], 1e-8, "temperatures reordered")
            for T, x in zip(Ts, ex):
                close(np.ravel(m.get_exp_vals_thermal(V, op, E, T)), [x], 1e-8, f"single temperature {T}")
                close(np.ravel(m.get_exp_vals_thermal(V, op, E, [T])), [x], 1e-8, f"one-element temperature array {T}")
                close(np.ravel(m.get_exp_vals_thermal(V, op, E + 3.25, T)), [x], 1e-8, "energy shift")
            close(np.ravel(m.get_exp_vals_thermal(V, op, E, 1e-4)), [avg(e, a, 1e-4, g)], 1e-7, "low temperature limit")
            close(np.ravel(m.get_exp_vals_thermal(V, op, E, 1e-4)), np.ravel(m.get_exp_vals_thermal(V, op, E, 0)), 1e-7, "low temperature limit")
            close(np.ravel(m.get_exp_vals_thermal(V, op, E, 1e9)), [np.mean(a)], 1e-6, "high temperature limit")
        ctx.case("thermal averages", (E, g, Ts, V, O), chk2)
        H = rand_herm(r, n, real) * .7; b = [0, 0., .3, 1., 2.2, -.5][k % 6]
        def chk3(H=H, b=b, m=m, k=k):
            w = np.sum(np.exp(-b * np.linalg.eigvalsh(H)))
            for h in (sp.csr_matrix(H), sp.csc_matrix(H), H):
                close(m.get_partition_fn_hamiltonian(h, b) / w, 1., 1e-9, "trace of exp(-beta H)")
        ctx.case("partition function from H", (H, b), chk3)
    # many states, wide spectra (weights underflow to zero), small energies and temperatures
    for k in range(ctx.reps(24, 100)):
        n = (3, 8, 80, 200)[k % 4]; g = (1, 2, 4, 3)[k // 2 % 4]; g = min(g, n - 1); sc = (1., 1e-7, 1e4)[k % 3]
        e = sc * np.sort(np.r_[np.zeros(g), r.uniform(.3, 4, n - g)]); e[-1] = 3000 * sc if k % 2 else e[-1]
        V = rand_unitary(r, n, bool(k % 2)); O = rand_herm(r, n); sh = (0., -7.)[k % 2] * sc; m = M if k % 2 else S
        def chkx(n=n, g=g, sc=sc, e=e, V=V, O=O, sh=sh, m=m):
            a = np.einsum("ij,ik,kj->j", V.conj(), O, V).real
            for T in (0, .02 * sc, 1. * sc, 2.5 * sc, 1e7 * sc):
                w, z = m.get_thermal_weights(e + sh, T, use_energies_offset=True)
                ex = np.exp(-e / T) if T else np.r_[np.ones(g), np.zeros(n - g)]
                close(w, ex, 1e-7, f"weights at T={T}"); close(z, ex.sum(), 1e-7, f"partition function at T={T}")
                close(np.ravel(m.get_exp_vals_thermal(V, O, e + sh, T)), [avg(e, a, T, g)], 1e-7, f"average at T={T}")
        ctx.case("extreme spectra", (e, g, sh, V, O), chkx)
    # models: degenerate ground states produced by the library itself
    for nm, mod in (("ising ring", spinSystem(geo.chain(4, True), jz=-1., hx=0.)), ("heisenberg 3", spinSystem(geo.chain(3, True), jx=1., jy=1., jz=1.)), ("free fermions", fermions(geo.chain(4, True), 0, 1., nspecies=1)),
                    ("hubbard 2", fermions(geo.chain(2), 3., 1.))):
        def chk4(mod=mod):
            H = mod.createH(); H = H.tocsr(); E, V = mod.diagH(H); Hd = dense(H); e = np.linalg.eigvalsh(Hd)
            O = rand_herm(r, H.shape[0], True)
            for T in (.2, 1., 4.):
                rho = sl.expm(-(Hd - e[0] * np.eye(len(e))) / T); x = np.trace(rho @ O).real / np.trace(rho).real
                close(np.ravel(mod.get_exp_vals_thermal(V, sp.csr_matrix(O), E, T)), [x], 1e-8, "density matrix average")
                close(mod.get_partition_fn_hamiltonian(H, 1 / T), np.sum(np.exp(-e / T)), 1e-8, "partition function")
        ctx.case("library models", nm, chk4)
    # site-resolved thermal quantities
    for k in range(ctx.reps(10, 40)):
        ns = 2 + k % 2; sps = 1 + k % 2; mod = fermions(geo.chain(ns), 1.3 if sps == 2 else 0, 1., nspecies=sps, mus=.3)
        H = mod.createH(); E, V = mod.diagH(H)
        if k % 3 == 0:   # any orthonormal eigenvectors of some other Hermitian matrix
            V = rand_unitary(r, H.shape[0]); E = np.sort(r.normal(size=H.shape[0]))
        fmt = ("boson", "fermion")[k % 2]
        def chk5(mod=mod, E=E, V=V, ns=ns, sps=sps, k=k):
            Ts = [.4, 2., 0.]; s1 = k % sps
            g = int(np.sum(np.abs(E - E[0]) < 1e-12))
            if 0 in Ts and np.any((np.abs(E - E[0]) < 1e-10) & (np.abs(E - E[0]) > 1e-14)):
                Ts = [.4, 2.]
            v, st = mod.get_thermal_exp_sites(V, E, mod.n_op, s1, Ts, format="boson")
            need(list(st) == list(range(ns)) and v.shape == (ns, len(Ts)), "sites")
            for i in range(ns):
                O = dense(mod.get_single_site_op(i, s1, mod.n_op, format="boson")); a = np.einsum("ij,ik,kj->j", V.conj(), O, V).real
                for j, T in enumerate(Ts):
                    close(v[i, j], avg(E, a, T, g), 1e-8, "site average")
            v, st = mod.get_thermal_exp_sites(V, E, mod.n_op, s1, Ts, sites=[ns - 1], format="boson"); need(list(st) == [ns - 1] and v.shape[0] == 1, "selected sites")
            O = dense(mod.get_single_site_op(ns - 1, s1, mod.n_op, format="boson")); a = np.einsum("ij,ik,kj->j", V.conj(), O, V).real
            close(v[0], [avg(E, a, T, g) for T in Ts], 1e-8, "selected sites")
            v, i1, i2 = mod.get_thermal_corr_sites(V, E, 0, sps - 1, mod.n_op, mod.n_op, Ts, format="boson")
            need(sorted(zip(map(int, i1), map(int, i2))) == sorted((a, b) for a in range(ns) for b in range(a + 1)), "default pairs")
            for q in range(len(i1)):
                O = dense(mod.get_single_site_op(i1[q], 0, mod.n_op, format="boson") @ mod.get_single_site_op(i2[q], sps - 1, mod.n_op, format="boson")); a = np.einsum("ij,ik,kj->j", V.conj(), O, V).real
                close(v[q], [avg(E, a, T, g) for T in Ts], 1e-8, "pair average")
            v, i1, i2 = mod.get_thermal_corr_sites(V, E, 0, 0, mod.cdag_op, mod.c_op, Ts, sites1=[0, 1], sites2=[1, 1], format="fermion")
            for q in range(2):
                O = dense(mod.get_single_site_op(i1[q], 0, mod.cdag_op, format="fermion") @ mod.get_single_site_op(i2[q], 0, mod.c_op, format="fermion")); a = np.einsum("ij,ik,kj->j", V.conj(), O, V).real
                close(v[q], [avg(E, a, T, g) for T in Ts], 1e-8, "hopping average")
        ctx.case("site-resolved thermal averages", (ns, sps, k), chk5)
