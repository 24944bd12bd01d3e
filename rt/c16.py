"""C16 quantum-number projectors and basis labels"""
import numpy as np, scipy.sparse as sp, itertools
from rt.core import *
from rt import geo
from exact_diag.ed_fermions import fermions
from exact_diag.ed_spins import spinSystem
from exact_diag.ed_geometry import Geometry


def bits(L):
    return np.array(list(itertools.product((0, 1), repeat=L))).reshape(2 ** L, L)


def selects(P, idx, dim, what):
    P = dense(P); E = np.zeros((len(idx), dim)); E[np.arange(len(idx)), idx] = 1
    close(P, E, 1e-12, what)


def run(ctx):
    r = ctx.rng; M = fermions(geo.chain(2), 0, 1., nspecies=1); S = spinSystem(geo.chain(2))
    for k in range(ctx.reps(80, 400)):
        d = int(r.integers(1, 20)); v = r.integers(-2, 3, d).astype(float) if k % 3 else r.choice([.5, -.5, 1.25, 0, 1e-3], d)
        if k % 7 == 1:       # eigenvalues that are no short decimals, and different ones that are close to each other
            v = r.choice([1 / 3, -np.pi, np.sqrt(2), 1e-9 / 3, 2e5 / 7], d)
        elif k % 7 == 2:
            v = r.choice([1., 1. + 3e-7, 1. - 2e-11, 0., 1e-9, -1e-12, 1e6, 1e6 + .5], d)
        if k % 4 == 3:
            v = v + 1j * r.integers(0, 2, d)
        m = M if k % 2 else S; vals = [v[0], 99., v[-1]] if k % 5 else None
        def chk(d=d, v=v, m=m, vals=vals):
            op = sp.csr_matrix(np.diag(v)) if d > 1 else sp.csr_matrix([[v[0]]])
            P, ev = m.get_subspace_projs(op, eig_vals=vals)
            want = list(np.unique(v)) if vals is None else vals
            need(len(P) == len(want) == len(np.ravel(ev)), "number of projectors"); need(np.array_equal(np.ravel(ev), want), "eigenvalues")
            for p, x in zip(P, want):
                selects(p, np.nonzero(v == x)[0], d, f"projector onto {x}")
            P, ev = m.get_subspace_projs(op, eig_vals=v[0]); need(len(P) == 1, "single eigenvalue"); selects(P[0], np.nonzero(v == v[0])[0], d, "single eigenvalue")
            P, ev = m.get_subspace_projs(op)
            close(sum(dense(p).T @ dense(p) for p in P), np.eye(d), 1e-12, "default projectors resolve the identity")
        ctx.case("diagonal operator", (v, vals), chk)
    shapes = [(1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2), (3, 2), (1, 3), (2, 3)] + ([(6, 1), (4, 2), (3, 3), (2, 4)] if ctx.thorough() else [(5, 1)])
    for ns, sps in shapes:
        L = ns * sps; b = bits(L); dim = 2 ** L; g = geo.chain(ns) if ns > 1 else Geometry.createNonPeriodicGeometry([0], [0])
        opts = list(itertools.product([None] + list(range(ns + 1)), repeat=sps))
        if len(opts) > 40:
            opts = [opts[i] for i in r.permutation(len(opts))[:40]] + [(None,) * sps, (1,) + (None,) * (sps - 1), (None,) * (sps - 1) + (1,)]
        for o in opts:
            def chk(ns=ns, sps=sps, b=b, dim=dim, g=g, o=o):
                m = fermions(g, 0, 1., ns=np.array(o, dtype=object) if None in o else (np.array(o) if sum(o) % 2 else list(o)), nspecies=sps)
                occ = b.reshape(dim, sps, ns).sum(2)
                idx = [i for i in range(dim) if all(q is None or occ[i, s] == q for s, q in enumerate(o))]
                selects(m.n_projector, idx, dim, f"number projector {o}")
                for s in range(sps):
                    N = dense(m.n_projector @ m.get_sum_op(m.n_op, s, format="boson") @ m.n_projector.conj().T); close(N, np.diag(occ[idx, s].astype(float)) if idx else np.zeros((0, 0)), 1e-12, "projected number operator")
            ctx.case("number projector", (ns, sps, o), chk)
        def chk2(ns=ns, sps=sps, b=b, dim=dim, g=g, L=L):
            m = fermions(g, 0, 1., nspecies=sps)
            selects(m.n_projector, list(range(dim)), dim, "no constraint")
            lab, txt = m.get_state_vects(); close(lab, b.astype(float), 1e-12, "fermion labels")
            for s in range(sps):
                for i in range(ns):
                    close(np.diag(dense(m.get_single_site_op(i, s, m.n_op, format="boson"))), dense(lab)[:, s * ns + i], 1e-12, "labels and number operators")
            need(txt.split() == [f"{i}{chr(97 + s)}" for s in range(sps) for i in range(ns)], "mode names")
            P, _ = m.get_subspace_projs(m.get_sum_op(m.n_op, 0, format="boson"), eig_vals=[1]); lab, _ = m.get_state_vects(projector=P[0])
            close(lab, b[b.reshape(dim, sps, ns).sum(2)[:, 0] == 1].astype(float), 1e-12, "projected labels")
            expect_raise(lambda: fermions(g, 0, 1., ns=[1] * (sps + 1), nspecies=sps), "wrong number of particle numbers accepted")
        ctx.case("fermion labels", (ns, sps), chk2)
    for n in range(1, ctx.reps(9, 12)):
        def chk3(n=n):
            g = geo.chain(n) if n > 1 else Geometry.createNonPeriodicGeometry([0], [0]); m = spinSystem(g); b = bits(n); up = 1 - b
            close(m.get_state_vects(), up.astype(float), 1e-12, "spin labels"); close(np.ravel(m.get_state_parity()), up.sum(1) % 2, 1e-12, "parity")
            if n <= 7:
                for i in range(n):
                    close(np.diag(dense(m.get_single_site_op(i, 0, m.sz, format="boson"))).real, up[:, i] - .5, 1e-12, "labels and sz")
            st, names = m.find_special_states(n, 1); st = dense(st); need(list(names) == ["AllUp", "AllDn", "AFM1", "AFM2", "AllPlus", "AllMinus", "SymmExc"], "names of the states")
            def basis(c):
                v = np.zeros(2 ** n); v[int("".join(str(1 - x) for x in c), 2)] = 1; return v
            close(st[:, 0], basis([1] * n), 1e-12, "all up"); close(st[:, 1], basis([0] * n), 1e-12, "all down")
            if n > 1:
                a = basis([(i + 1) % 2 for i in range(n)]); c = basis([i % 2 for i in range(n)])
                need((np.allclose(st[:, 2], a) and np.allclose(st[:, 3], c)) or (np.allclose(st[:, 2], c) and np.allclose(st[:, 3], a)), "antiferromagnetic states")
            for x in (range(1, n + 1) if n <= 6 else ()):
                if n % x == 0:
                    for flag in (False, True):
                        s2 = dense(m.find_special_states(x, n // x, number_left2right_top2bottom=flag)[0])
                        if n > 1 and (not flag or x % 2):
                            close(s2, st, 1e-12, "states of an x by y lattice")
                        else:
                            close(s2[:, :4], st[:, [0, 1, 0, 1]], 1e-12, "ferromagnetic states in place of antiferromagnetic ones"); close(s2[:, 4:], st[:, 4:], 1e-12, "states of an x by y lattice")
            close(st[:, 4], np.ones(2 ** n) / np.sqrt(2 ** n), 1e-12, "plus state"); close(st[:, 5], np.prod(2 * up - 1, 1) / np.sqrt(2 ** n), 1e-12, "minus state")
            close(st[:, 6], (up.sum(1) == 1) / np.sqrt(n), 1e-12, "symmetric excitation"); close(np.sum(np.abs(st) ** 2, 0), np.ones(7), 1e-12, "normalised")
        ctx.case("spin labels", n, chk3)
