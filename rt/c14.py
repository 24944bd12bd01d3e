"""C14 expectation values, overlaps and time evolution"""
import numpy as np, scipy.sparse as sp, scipy.linalg as sl
from rt.core import *
from rt import geo
from exact_diag.ed_fermions import fermions
from exact_diag.ed_spins import spinSystem


def states(r, d, n, real):
    v = r.normal(size=(d, n))
    return v if real else v + 1j * r.normal(size=(d, n))


def run(ctx):
    r = ctx.rng; M = fermions(geo.chain(2), 0, 1., nspecies=1); S = spinSystem(geo.chain(2))
    SP = (sp.csr_matrix, sp.csc_matrix, sp.coo_matrix)
    for k in range(ctx.reps(120, 600)):
        d = int(r.integers(1, 8)); n = int(r.integers(1, 5)); n2 = int(r.integers(1, 5)); real = k % 4 == 0
        A = states(r, d, n, real); B = states(r, d, n2, k % 3 == 0); O = rand_herm(r, d, k % 5 == 0)
        if k % 6 == 5:
            O = states(r, d, d, False)
        m = M if k % 2 else S; q = int(r.integers(0, d + 1)); P = np.linalg.qr(states(r, d, max(q, 1), k % 2))[0].conj().T
        P2 = states(r, 2, d, False)
        def chk(d=d, n=n, n2=n2, A=A, B=B, O=O, m=m, P=P, P2=P2, k=k):
            Os = sp.csr_matrix(O); E = np.array([(A[:, i].conj() @ O @ A[:, i]).real for i in range(n)])
            N = np.array([(A[:, i].conj() @ A[:, i]).real for i in range(n)]); G = np.array([[A[:, i].conj() @ B[:, j] for j in range(n2)] for i in range(n)])
            A0, B0, O0 = A.copy(), B.copy(), O.copy()
            for op in (Os, O):
                close(np.ravel(m.get_exp_vals(A, op)), E, 1e-9, "expectation values"); close(np.ravel(m.get_exp_vals(A[:, 0], op)), E[:1], 1e-9, "expectation value of one state")
            for f in SP:
                close(np.ravel(dense(m.get_exp_vals(f(A), Os))), E, 1e-9, "expectation values, sparse states"); close(np.ravel(dense(m.get_norms(f(A)))), N, 1e-9, "norms, sparse states")
            close(np.ravel(m.get_norms(A)), N, 1e-9, "norms"); close(np.ravel(m.get_norms(A[:, 0])), N[:1], 1e-9, "norm of one state")
            sq = np.squeeze(G)
            close(m.get_overlaps(A, B), sq, 1e-9, "overlaps")
            close(np.reshape(m.get_overlaps(A[:, 0], B), (n2,)), G[0], 1e-9, "overlaps of one state"); close(np.reshape(m.get_overlaps(A, B[:, 0]), (n,)), G[:, 0], 1e-9, "overlaps with one state")
            close(np.reshape(m.get_overlaps(A[:, 0], B[:, 0]), ()), G[0, 0], 1e-9, "overlap of two states")
            for f in SP[:2]:
                for g in SP[:2]:
                    close(np.reshape(ovl(m.get_overlaps(f(A), g(B))), (n, n2)), G, 1e-9, "overlaps, sparse states")
                close(np.reshape(ovl(m.get_overlaps(f(A), B)), (n, n2)), G, 1e-9, "overlaps, sparse and dense"); close(np.reshape(ovl(m.get_overlaps(A, f(B))), (n, n2)), G, 1e-9, "overlaps, dense and sparse")
            close(m.get_matrix_elems(A, Os), A.conj().T @ O @ A, 1e-9, "matrix elements"); close(m.get_matrix_elems(A, O), A.conj().T @ O @ A, 1e-9, "matrix elements, dense operator")
            for pr in (P, P2):
                W = np.array([np.sum(np.abs(pr @ A[:, i]) ** 2) for i in range(n)])
                for z in (pr, sp.csr_matrix(pr)):
                    close(np.reshape(m.get_subspace_overlaps(A, z), (n,)), W, 1e-9, "subspace weights"); close(np.reshape(m.get_subspace_overlaps(A[:, 0], [z]), ()), W[0], 1e-9, "subspace weight of one state")
            W = np.array([[np.sum(np.abs(pr @ A[:, i]) ** 2) for i in range(n)] for pr in (P, P2, np.eye(d))])
            close(m.get_subspace_overlaps(A, [sp.csr_matrix(P), sp.csr_matrix(P2), sp.eye(d)]), np.squeeze(W), 1e-9, "several subspaces")
            need(np.array_equal(A, A0) and np.array_equal(B, B0) and np.array_equal(O, O0), "input modified")
        ctx.case("expectation values and overlaps", (A, B, O), chk)
    for k in range(ctx.reps(120, 600)):
        d = int(r.integers(1, 8)); n = int(r.integers(1, 4)); nt = int(r.integers(1, 5)); V = rand_unitary(r, d, k % 3 == 0); e = np.sort(r.normal(size=d) * 3)
        q = d if k % 3 else int(r.integers(1, d + 1))
        psi = states(r, d, n, k % 4 == 0); ts = r.normal(size=nt) * 2
        if k % 5 == 0:
            ts[0] = 0.
        if k % 6 == 1:       # energies far from zero
            e = e + (3000., -2500.)[k % 4 == 1]
        m = M if k % 2 else S
        def chk(d=d, n=n, nt=nt, V=V[:, :q], e=e[:q], psi=psi, ts=ts, m=m, q=q):
            def U(t):
                return (V * np.exp(-1j * e * t)) @ V.conj().T
            p0, t0 = psi.copy(), ts.copy()
            t, ev = m.quench_time_evolve(psi, V, e, ts); ref = np.stack([U(x) @ psi for x in ts], axis=1)
            close(np.ravel(t), ts, 1e-12, "times"); need(ev.size == ref.size, "number of evolved states"); close(np.reshape(ev, ref.shape), ref, 1e-9, "evolved states")
            t, ev1 = m.quench_time_evolve(psi[:, 0], V, e, ts); need(ev1.size == d * nt, "one state"); close(np.reshape(ev1, (d, nt)), ref[:, :, 0], 1e-9, "one initial state")
            for tt in (0., 0, float(ts[0]), 3):
                t, ev2 = m.quench_time_evolve(psi, V, e, tt); close(np.ravel(t), [tt], 1e-12, "single time"); close(np.reshape(ev2, (d, n)), U(tt) @ psi, 1e-9, "single time")
            t, ev3 = m.quench_time_evolve(psi[:, 0], V, e, .7); t, ev4 = m.quench_time_evolve(np.reshape(ev3, (d,)), V, e, -1.9)
            close(np.reshape(ev4, (d,)), U(.7 - 1.9) @ psi[:, 0], 1e-9, "composition of evolutions")
            if q == d:
                close(np.sum(np.abs(np.reshape(ev, ref.shape)) ** 2, 0), np.tile(np.sum(np.abs(psi) ** 2, 0), (nt, 1)), 1e-9, "norm conservation")
            need(np.array_equal(p0, psi) and np.array_equal(t0, ts), "input modified")
        ctx.case("time evolution", (V, e, q, psi, ts), chk)
    for k in range(ctx.reps(16, 60)):
        ns = 2 + k % 2; sps = 1 + (k // 2) % 2; m = fermions(geo.chain(ns), 0, 1., nspecies=sps); D = m.nstates
        psi = states(r, D, 3, k % 3 == 0); psi = psi / np.linalg.norm(psi, axis=0); s = int(r.integers(sps)); s2 = int(r.integers(sps)); H2 = rand_herm(r, 2)
        Pn = m.get_subspace_projs(m.get_sum_op(m.n_op, 0, format="boson"), eig_vals=[1])[0][0]
        Q = sp.csr_matrix(np.linalg.qr(states(r, D, 3, False))[0].conj().T)
        eigT = np.linalg.eigh(rand_herm(r, D))
        def chk(m=m, ns=ns, sps=sps, D=D, psi=psi, s=s, s2=s2, H2=H2, Pn=Pn, Q=Q, eigT=eigT):
            ops = {"n": (m.n_op, "boson"), "herm": (sp.csr_matrix(H2), "boson"), "cdag": (m.cdag_op, "fermion"), "def": (m.c_op, None)}
            for nm, (op, fmt) in ops.items():
                kw = {} if fmt is None else {"format": fmt}; ff = fmt or "fermion"
                v, st = m.get_exp_vals_sites(psi, op, s, **kw); need(list(st) == list(range(ns)) and v.shape == (ns, 3), "sites")
                for i in range(ns):
                    O = dense(m.get_single_site_op(i, s, op, format=ff)); close(v[i], np.einsum("ij,ik,kj->j", psi.conj(), O, psi).real, 1e-9, "site expectation values")
                v1, st = m.get_exp_vals_sites(psi[:, 1], op, s, sites=[ns - 1, 0], **kw); need(list(st) == [ns - 1, 0], "chosen sites"); close(v1[:, 0], [v[ns - 1, 1], v[0, 1]], 1e-9, "chosen sites")
                for P in (Pn, Q):
                    ph = dense(P) @ psi
                    v, st = m.get_exp_vals_sites(ph, op, s, projector=P, **kw)
                    for i in range(ns):
                        O = dense(P) @ dense(m.get_single_site_op(i, s, op, format=ff)) @ dense(P).conj().T; close(v[i], np.einsum("ij,ik,kj->j", ph.conj(), O, ph).real, 1e-9, "projected site expectation values")
            for o1, o2, fmt in ((m.n_op, m.n_op, "boson"), (m.cdag_op, m.c_op, "fermion"), (m.c_op, m.cdag_op, None), (sp.csr_matrix(H2), m.n_op, "boson")):
                kw = {} if fmt is None else {"format": fmt}; ff = fmt or "fermion"
                two = lambda i, j: dense(m.get_single_site_op(i, s, o1, format=ff) @ m.get_single_site_op(j, s2, o2, format=ff))
                v, i1, i2 = m.get_corr_sites(psi, s, s2, o1, o2, **kw)
                need(sorted(zip(map(int, i1), map(int, i2))) == sorted((a, b) for a in range(ns) for b in range(a + 1)), "default pairs")
                for q in range(len(i1)):
                    close(v[q], np.einsum("ij,ik,kj->j", psi.conj(), two(i1[q], i2[q]), psi).real, 1e-9, "correlators")
                tv, t1, t2 = m.get_thermal_corr_sites(eigT[1], eigT[0], s, s2, o1, o2, [.7, 2.], **kw)
                need(sorted(zip(map(int, t1), map(int, t2))) == sorted((a, b) for a in range(ns) for b in range(a + 1)), "default pairs, thermal")
                for q in range(len(t1)):
                    mel = np.einsum("ij,ik,kj->j", eigT[1].conj(), two(t1[q], t2[q]), eigT[1]).real
                    close(tv[q], [np.sum(np.exp(-eigT[0] / T) * mel) / np.sum(np.exp(-eigT[0] / T)) for T in (.7, 2.)], 1e-9, "thermal correlators")
                a, b = [0, ns - 1, 0], [ns - 1, 0, 0]
                v, i1, i2 = m.get_corr_sites(psi[:, 0], s, s2, o1, o2, sites1=a, sites2=b, **kw); need(list(i1) == a and list(i2) == b, "chosen pairs")
                close(v[:, 0], [(psi[:, 0].conj() @ two(x, y) @ psi[:, 0]).real for x, y in zip(a, b)], 1e-9, "chosen pairs")
                for P in (Pn, Q):
                    ph = dense(P) @ psi; v, i1, i2 = m.get_corr_sites(ph, s, s2, o1, o2, projector=P, **kw)
                    for q in range(len(i1)):
                        O = dense(P) @ two(i1[q], i2[q]) @ dense(P).conj().T; close(v[q], np.einsum("ij,ik,kj->j", ph.conj(), O, ph).real, 1e-9, "projected correlators")
        ctx.case("site-resolved values", (ns, sps, psi, s, s2), chk)


def ovl(x):
    x = x.item() if isinstance(x, np.ndarray) and x.dtype == object else x
    return dense(x)
