"""C15 response functions and conductivities"""
import numpy as np, scipy.sparse as sp
from rt.core import *
from rt import geo
from exact_diag.ed_fermions import fermions


def lor(x, eta):
    return eta / np.pi / (eta ** 2 + x ** 2)


def ret(A, B, E, T, w, eta, f):
    e = E - E[0]; n = len(E); s = 0.; Z = np.sum(np.exp(-e / T)) if T else 1.
    for a in range(n):
        for b in range(n):
            if T:
                c = np.exp(-e[a] / T) + f * np.exp(-e[b] / T)
            else:
                c = (a == 0) + f * (b == 0)
            s += (A[a, b] * B[b, a]).real * c * lor(w - (e[b] - e[a]), eta)
    return np.pi / Z * s


def cond(J, E, T, w, eta, N):
    e = E - E[0]; n = len(E); s = 0.; Z = np.sum(np.exp(-e / T)) if T else 1.
    for a in range(n):        # a = n (initial), b = m
        for b in range(n):
            d = e[b] - e[a]
            if T:
                s += np.abs(J[b, a]) ** 2 * (np.exp(-e[a] / T) - np.exp(-e[b] / T)) * lor(w - d, eta) / w
            elif a == 0 and d > 1e-12:
                s += np.abs(J[b, a]) ** 2 * lor(abs(w) - d, eta) / d
    return np.pi / Z / N * s


def integ(J, E, T, N):
    e = E - E[0]; n = len(E); s = 0.; Z = np.sum(np.exp(-e / T)) if T else 1.
    for a in range(n):
        for b in range(n):
            d = e[b] - e[a]
            if abs(d) < 1e-9:
                continue
            if T:
                s += np.abs(J[b, a]) ** 2 * (np.exp(-e[a] / T) - np.exp(-e[b] / T)) / d
            elif a == 0 or b == 0:
                s += np.abs(J[b, a]) ** 2 / abs(d)
    return np.pi / Z / N * s


def run(ctx):
    r = ctx.rng
    Ms = [fermions(geo.chain(n), 0, 1., nspecies=1) for n in (2, 3, 5)]
    for k in range(ctx.reps(110, 500)):
        m = Ms[k % 3]; N = m.geometry.nsites; n = int(r.integers(1, 7)); E = np.sort(r.uniform(0, 3, n)) + [0, 4., -6.][k % 3]
        if k % 6 == 1 and n > 3:
            E[2] = E[1]; E[-1] = E[-2]
        if k % 6 == 3 and n > 2:
            E[1:] += 15.
        A = r.normal(size=(n, n)) + 1j * r.normal(size=(n, n)); B = r.normal(size=(n, n)) + 1j * r.normal(size=(n, n))
        if k % 4 == 0:
            B = A.conj().T
        T = [1., .3, 0., 5., .02, 60.][k % 6]
        if k % 5 == 0:
            T = [0, 1, 2][k % 3]
        ws = [float(z) for z in r.normal(size=3) * 3] + [1e-3]; eta = float(np.exp(r.normal() - 1))
        def chk(m=m, A=A, B=B, E=E, T=T, ws=ws, eta=eta):
            A0, B0, E0 = A.copy(), B.copy(), E.copy()
            for f, s in (("boson", -1), ("fermion", 1)):
                fn = m.get_response_fn_retarded(A, B, E, T, format=f); sh = m.get_response_fn_retarded(A, B, E + 2.5, T, format=f)
                for w in ws + [0.]:
                    x = ret(A, B, E, T, w, eta, s); close(fn(w, eta), x, 1e-9, f"retarded response, {f}, T={T}"); close(sh(w, eta), x, 1e-8, "energy shift")
                    close(fn(w, 2 * eta), ret(A, B, E, T, w, 2 * eta, s), 1e-9, "broadening")
            for q in (2e-6, 1e5):
                close(m.get_response_fn_retarded(q * A, B / q, E, T)(.4, eta), ret(A, B, E, T, .4, eta, -1), 1e-8, "weak and strong operators"); close(m.get_response_fn_retarded(q * A, q * B, E, T)(.4, eta) / q ** 2, ret(A, B, E, T, .4, eta, -1), 1e-8, "weak or strong operators")
                close(m.get_response_fn_retarded(A, B, q * E, q * T)(q * .4, q * eta) * q, ret(A, B, E, T, .4, eta, -1), 1e-7, "units of energy")
            close(m.get_response_fn_retarded(A, B, E, T)(.4, eta), ret(A, B, E, T, .4, eta, -1), 1e-9, "default statistics")
            if not T:
                for f, s in (("boson", -1), ("fermion", 1)):
                    if len(E) == 1 or E[1] - E[0] > .3:
                        close(m.get_response_fn_retarded(A, B, E, 0., format=f)(.7, eta), m.get_response_fn_retarded(A, B, E, 1e-3, format=f)(.7, eta), 1e-6, "zero temperature limit")
            expect_raise(lambda: m.get_response_fn_retarded(A, B, E, T, format="other"), "unknown statistics accepted")
            need(np.array_equal(A, A0) and np.array_equal(B, B0) and np.array_equal(E, E0), "input modified")
        if T or n == 1 or E[1] > E[0] + 1e-6:
            ctx.case("retarded response", (A, B, E, T, ws, eta), chk)
        J = A + A.conj().T if k % 3 else A
        if k % 7 == 0:
            J = J * (r.random((n, n)) < .5)
        def chk2(m=m, J=J, E=E, T=T, ws=ws, eta=eta, N=N):
            fn = m.get_optical_cond_fn(J, E, T); sh = m.get_optical_cond_fn(J, E - 7.5, T)
            for w in ws:
                if w == 0:
                    continue
                x = cond(J, E, T, w, eta, N); close(fn(w, eta), x, 1e-9, f"optical conductivity T={T}"); close(sh(w, eta), x, 1e-7, "energy shift")
            for q in (3e-6, 4e5):       # quadratic in the current
                close(m.get_optical_cond_fn(q * J, E, T)(ws[0], eta) / q ** 2, cond(J, E, T, ws[0], eta, N), 1e-8, "weak or strong current")
                if T or np.allclose(J, J.conj().T):
                    close(m.integrate_conductivity(q * J, E, T) / q ** 2, integ(J, E, T, N), 1e-8, "weak or strong current")
            for q in (1e-3, 300.):      # units of energy
                if E.size == 1 or np.min(np.diff(E)) > 1e-4:
                    close(m.get_optical_cond_fn(J, q * E, q * T)(q * ws[0], q * eta) * q * q, cond(J, E, T, ws[0], eta, N), 1e-7, "units of energy")
                    if T or np.allclose(J, J.conj().T):
                        close(m.integrate_conductivity(J, q * E, q * T) * q, integ(J, E, T, N), 1e-7, "units of energy")
            if T or np.allclose(J, J.conj().T):
                x = integ(J, E, T, N); close(m.integrate_conductivity(J, E, T), x, 1e-9, f"integrated conductivity T={T}"); close(m.integrate_conductivity(J, E + 3.5, T), x, 1e-8, "energy shift")
                if len(E) == 1 or E[1] - E[0] > .3:
                    if not T:
                        close(m.integrate_conductivity(J, E, 0.), m.integrate_conductivity(J, E, 1e-3), 1e-6, "zero temperature limit")
        if T or n == 1 or E[1] > E[0] + 1e-6:
            ctx.case("conductivity", (J, E, T, ws, eta, N), chk2)
    # rings: degenerate up to rounding; low temperatures
    for nm, m, q in (("ring 6", fermions(geo.chain(6, True), 0, 1., nspecies=1), 3), ("ring 5 twisted", fermions(geo.chain(5, True, .6), 0, 1., nspecies=1), 2), ("open 5", fermions(geo.chain(5), 0, 1., nspecies=1), 2), ("ring 6 two", fermions(geo.chain(6, True), 0, 1., nspecies=1), 2)):
        def chk3(m=m, q=q):
            P = m.get_subspace_projs(m.get_sum_op(m.n_op, 0, format="boson"), eig_vals=[q])[0][0]
            E, V = m.diagH(m.createH(projector=P)); J = m.get_matrix_elems(V, P @ m.get_current_op((1, 0)) @ P.conj().T); N = m.geometry.nsites
            for T in (1., .1, .003):
                close(m.integrate_conductivity(J, E, T), integ(J, E, T, N), 1e-8, "integrated conductivity"); close(m.get_optical_cond_fn(J, E, T)(-1.3, .2), cond(J, E, T, -1.3, .2, N), 1e-8, "optical conductivity")
                close(m.get_response_fn_retarded(J, J, E, T)(-1.3, .2), ret(J, J, E, T, -1.3, .2, -1), 1e-8, "response")
        ctx.case("models", nm, chk3)
