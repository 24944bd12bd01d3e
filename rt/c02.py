import numpy as np, scipy.sparse as sp
from rt.core import *
from rt import ref, geo
from exact_diag.ed_geometry import Geometry
from exact_diag.ed_fermions import fermions


def hubbard(cs, ns, nsp, t, U, V, mu, pot):
    """t[i,j,s], U[i], V[i,j,s], mu[s], pot[i,s]; returns the five terms"""
    dim = cs[0].shape[0]
    Z = sp.csr_matrix((dim, dim))
    n = [c.T @ c for c in cs]
    K = Z.astype(complex)
    u, v, m, p = Z, Z, Z, Z
    for s in range(nsp):
        for i in range(ns):
            m = m - mu[s] * n[s * ns + i]
            p = p + pot[i, s] * n[s * ns + i]
            for j in range(i):
                if t[i, j, s] != 0:
                    K = K - t[i, j, s] * cs[s * ns + i].T @ cs[s * ns + j] - np.conj(t[i, j, s]) * cs[s * ns + j].T @ cs[s * ns + i]
            for j in range(i + 1):
                v = v + V[i, j, s] * n[s * ns + i] @ n[s * ns + j]
    if nsp > 1:
        for i in range(ns):
            u = u + U[i] * n[i] @ n[ns + i]
    return [a.toarray() for a in (K, u, v, m, p)]


def run(ctx):
    r = ctx.rng
    geoms = geo.fermion_geoms(r, ctx.thorough())
    lad = {}
    for name, g in geoms:
        ns = g.nsites
        adj = np.array(g.adjacency_mat); ph = np.array(g.phase_mat)
        for nsp in (1, 2, 3):
            if ns * nsp > (8 if not ctx.thorough() else 10):
                continue
            L = ns * nsp
            if L not in lad:
                lad[L] = ref.ladder_sparse(L)
            cs = lad[L]
            nvar = ctx.reps(7, 14) if L <= 6 else ctx.reps(4, 8)
            for var in range(nvar):
                # --- choose a form for each parameter
                tk = [0, 1, 2, 3, 1, 4, 0][var % 7]
                if tk == 0:
                    tv = float(np.round(r.normal(), 3)); tin = tv; t = np.stack([tv * adj * ph] * nsp, 2)
                elif tk == 1:
                    tv = np.round(r.normal(size=nsp), 3); tin = tv if var % 2 else list(tv); t = np.stack([tv[s] * adj * ph for s in range(nsp)], 2)
                elif tk == 2:
                    t = np.stack([rand_herm(r, ns) for _ in range(nsp)], 2); tin = t
                elif tk == 3:
                    tin = 0; t = np.zeros((ns, ns, nsp))
                else:
                    t = np.stack([rand_herm(r, ns, True) * (r.random((ns, ns)) < .7) for _ in range(nsp)], 2)
                    t = t + t.transpose(1, 0, 2); tin = t
                    if nsp == 1 and ns > 1 and var % 2:
                        tin = t[:, :, 0]
                if nsp != 2:
                    U = np.zeros(ns); Uin = 0
                elif var % 3 == 0:
                    Uin = float(r.normal()); U = Uin * np.ones(ns)
                elif var % 3 == 1:
                    U = r.normal(size=ns) * (r.random(ns) < .7); Uin = U
                else:
                    U = r.normal(size=ns); Uin = list(U)
                vk = (var + 1) % 4
                if vk == 0:
                    Vin = -1.25; V = np.stack([Vin * adj] * nsp, 2)
                elif vk == 1:
                    w = r.normal(size=nsp); Vin = w; V = np.stack([w[s] * adj for s in range(nsp)], 2)
                elif vk == 2:
                    V = r.normal(size=(ns, ns, nsp)); V = V + V.transpose(1, 0, 2); Vin = V
                else:
                    Vin = 0; V = np.zeros((ns, ns, nsp))
                mk = (var + 2) % 4
                if mk == 0:
                    min_ = 0.8; mu = .8 * np.ones(nsp)
                elif mk == 1:
                    mu = r.normal(size=nsp); min_ = mu
                elif mk == 2:
                    mu = r.normal(size=nsp) * (np.arange(nsp) != 0); min_ = list(mu)
                else:
                    mu = np.zeros(nsp); min_ = 0
                pk = (var + 3) % 4
                if pk == 0:
                    pin = -.6; pot = pin * np.ones((ns, nsp))
                elif pk == 1:
                    w = r.normal(size=nsp); pin = w; pot = np.ones((ns, 1)) * w[None, :]
                elif pk == 2:
                    pot = r.normal(size=(ns, nsp)) * (r.random((ns, nsp)) < .8); pin = pot
                    if nsp == 1 and ns > 1:
                        pin = pot[:, 0] if var % 2 else pot
                else:
                    pin = 0; pot = np.zeros((ns, nsp))

                def chk(g=g, ns=ns, nsp=nsp, cs=cs, t=t, tin=tin, U=U, Uin=Uin, V=V, Vin=Vin, mu=mu, min_=min_, pot=pot, pin=pin, var=var):
                    f = fermions(g, Uin, tin, mus=min_, potentials=pin, us_same_species=Vin, nspecies=nsp)
                    close(f.ts, t, 1e-12, "hopping matrix")
                    close(f.us_interspecies, U, 1e-12, "interaction"); close(f.us_same_species, V, 1e-12, "same species interaction")
                    close(f.mus, mu, 1e-12, "mus"); close(f.potentials, pot, 1e-12, "potentials")
                    K, u, v, m, p = hubbard(cs, ns, nsp, t, U, V, mu, pot)
                    H = f.createH()
                    close(H, K + u + v + m + p, 1e-10, "Hamiltonian")
                    close(f.get_kinetic_op(direction_vect=None), K, 1e-10, "kinetic term")
                    close(f.get_u_interspecies_op(f.us_interspecies), u, 1e-10, "interaction term")
                    close(f.get_u_samespecies_op(f.us_same_species), v, 1e-10, "same-species term")
                    close(f.get_chemical_pot_op(f.mus), m, 1e-10, "chemical potential term")
                    close(f.get_potential_op(f.potentials), p, 1e-10, "potential term")
                    Hd = dense(H)
                    close(Hd, Hd.conj().T, 1e-10, "Hermiticity")
                    for s in range(nsp):
                        N = sum(cs[s * ns + i].T @ cs[s * ns + i] for i in range(ns)).toarray()
                        close(Hd @ N, N @ Hd, 1e-9, "number conservation")
                    # projections: number sectors, random rows, non-square isometries, complex
                    dim = Hd.shape[0]
                    q = rand_unitary(r, dim)[:max(1, dim // 3)]
                    sel = np.eye(dim)[np.sort(r.permutation(dim)[:max(1, dim // 2)])]
                    for P in (sp.csr_matrix(q), sp.csr_matrix(sel)):
                        Pd = P.toarray()
                        close(f.createH(projector=P), Pd @ Hd @ Pd.conj().T, 1e-9, "projected Hamiltonian")
                        for fn, a, x in ((f.get_u_interspecies_op, f.us_interspecies, u), (f.get_u_samespecies_op, f.us_same_species, v),
                                         (f.get_chemical_pot_op, f.mus, m), (f.get_potential_op, f.potentials, p)):
                            close(fn(a, projector=P), Pd @ x @ Pd.conj().T, 1e-9, "projected term")
                            close(fn(a, P), Pd @ x @ Pd.conj().T, 1e-9, "projected term")
                        close(f.get_kinetic_op(projector=P, direction_vect=None), Pd @ K @ Pd.conj().T, 1e-9, "projected kinetic")
                    # number projector built in the constructor
                    # current
                    X = np.array(g.xdist_mat); Y = np.array(g.ydist_mat)
                    for d in (np.array([[1], [0]]), np.array([0, 1]), np.array([.6, -.8]), [[1.0], [2.0]]):
                        dv = np.asarray(d).reshape(2)
                        J = sp.csr_matrix(Hd.shape, dtype=complex)
                        for s in range(nsp):
                            for i in range(ns):
                                for j in range(ns):
                                    if t[i, j, s] != 0:
                                        J = J + 1j * t[i, j, s] * (X[i, j] * dv[0] + Y[i, j] * dv[1]) * cs[s * ns + i].T @ cs[s * ns + j]
                        got = f.get_current_op(d)
                        if sp.issparse(got):
                            close(got, J, 1e-9, "current operator")
                        else:
                            need(got == 0 and abs(J).max() < 1e-12, "current operator not a matrix")
                    # directional kinetic energy: hopping weighted by the extent along the direction
                    d = np.array([1, 0])
                    w = np.sqrt((d[0] * X) ** 2 + (d[1] * Y) ** 2)
                    Kx = hubbard(cs, ns, nsp, t * w[:, :, None], U, V, mu, pot)[0]
                    close(f.get_kinetic_op(), Kx, 1e-9, "kinetic energy along x")
                ctx.case("Hubbard Hamiltonian", (name, nsp, var, tin, Uin, Vin, min_, pin), chk)
    # current is the time derivative of the dipole moment on open lattices
    for name, g in geoms:
        ns = g.nsites
        if ns < 2 or ns > 4 or "ring" in name:
            continue
        def chkJ(g=g, ns=ns):
            f = fermions(g, 0.7, 1.1, nspecies=1 if ns > 3 else 2) if ns <= 3 else fermions(g, 0, 1.1, nspecies=1)
            nsp = f.nspecies
            cs = ref.ladder(ns * nsp)
            for d in ([1, 0], [0, 1], [.3, .9]):
                D = sum((g.xlocs[i] * d[0] + g.ylocs[i] * d[1]) * cs[s * ns + i].T @ cs[s * ns + i] for s in range(nsp) for i in range(ns))
                Hd = dense(f.createH())
                J = f.get_current_op(np.array(d))
                J = dense(J) if sp.issparse(J) else np.zeros_like(Hd)
                com = 1j * (Hd @ D - D @ Hd)
                need(np.allclose(J, com, atol=1e-8) or np.allclose(J, -com, atol=1e-8), "current is not the commutator of H with the dipole moment")
        ctx.case("current continuity", name, chkJ)
    # invalid parameter sizes are rejected
    g = geo.chain(3)
    def chkbad():
        for kw in (dict(ts=np.ones(5)), dict(us_interspecies=np.ones(5)), dict(us_same_species=np.ones(7)), dict(mus=np.ones(4)), dict(potentials=np.ones(5)),
                   dict(ts=np.ones((2, 2, 2))), dict(us_same_species=np.ones((2, 3, 2))), dict(potentials=np.ones((2, 3)))):
            a = dict(us_interspecies=0, ts=1.); a.update(kw)
            expect_raise(lambda: fermions(g, a.pop("us_interspecies"), a.pop("ts"), **a), f"parameter of wrong size accepted {kw}")
    ctx.case("parameter sizes", "wrong sizes", chkbad)
    # weak and strong parameters, imaginary hopping, and parameters changed after a Hamiltonian was built
    for k in range(ctx.reps(18, 60)):
        ns, nsp = ((3, 2), (2, 2), (4, 1), (2, 3))[k % 4]; g = geo.chain(ns, ns > 2); L = ns * nsp; sc = (1e-13, 3e-8, 1., 1e-3, 2e9)[k % 5]
        cs = lad.setdefault(L, ref.ladder_sparse(L)) if L in lad else ref.ladder_sparse(L)
        t = np.stack([rand_herm(r, ns) for _ in range(nsp)], 2); t = 1j * t.imag if k % 3 == 0 else t
        U = r.normal(size=ns) * (nsp == 2); V = r.normal(size=(ns, ns, nsp)); V = V + V.transpose(1, 0, 2); mu = r.normal(size=nsp); pot = r.normal(size=(ns, nsp))
        only = k // 2 % 6     # one term, or all with very different sizes
        f5 = [sc if only in (i, 5) else 0. for i in range(5)]
        def chks(g=g, ns=ns, nsp=nsp, cs=cs, t=t, U=U, V=V, mu=mu, pot=pot, sc=sc, f5=f5):
            f = fermions(g, f5[0] * U, f5[1] * t, us_same_species=f5[2] * V, mus=f5[3] * mu, potentials=f5[4] * pot, nspecies=nsp)
            K, u, v, m, p_ = hubbard(cs, ns, nsp, f5[1] * t, f5[0] * U, f5[2] * V, f5[3] * mu, f5[4] * pot); dim = K.shape[0]
            close(dense(f.createH()) / sc, (K + u + v + m + p_) / sc, 1e-9, "Hamiltonian in units of its largest parameter")
            close(dense(f.createH(projector=sp.eye(dim, format="csr")[::2])) / sc, (K + u + v + m + p_)[::2, ::2] / sc, 1e-9, "projected Hamiltonian in units of its largest parameter")
            X = np.array(g.xdist_mat); J = sum((1j * f5[1] * t[i, j, s] * X[i, j] * (cs[s * ns + i].T @ cs[s * ns + j]) for s in range(nsp) for i in range(ns) for j in range(ns)), sp.csr_matrix((dim, dim), dtype=complex))
            got = f.get_current_op((1, 0)); close((dense(got) if sp.issparse(got) else got * np.ones((dim, dim))) / sc, dense(J) / sc, 1e-9, "current in units of the hopping")
            f.mus = -2 * f.mus; f.potentials = 3 * f.potentials; f.us_interspecies = f.us_interspecies + sc * (nsp == 2); f.ts = 2 * f.ts
            K, u, v, m, p_ = hubbard(cs, ns, nsp, f.ts, f.us_interspecies, f.us_same_species, f.mus, f.potentials)
            close(dense(f.createH()) / sc, (K + u + v + m + p_) / sc, 1e-9, "Hamiltonian after the parameters were changed")
        ctx.case("weak and strong parameters", (ns, nsp, f5, t, U, V, mu, pot), chks)
