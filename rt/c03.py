import numpy as np, scipy.sparse as sp
from rt.core import *
from rt import ref, geo
from exact_diag.ed_geometry import Geometry
from exact_diag.ed_spins import spinSystem


def spin_mats(s):
    m = s - np.arange(int(round(2 * s)) + 1)
    d = len(m)
    p = np.zeros((d, d))
    for i in range(d):
        for j in range(d):
            if i == j - 1:      # raises m_j to m_i = m_j + 1
                p[i, j] = np.sqrt(s * (s + 1) - m[j] * (m[j] + 1))
    return np.diag(m), p, p.T, .5 * (p + p.T), (p - p.T) / 2j


def run(ctx):
    r = ctx.rng
    g1 = Geometry.createNonPeriodicGeometry([0], [0])
    for twos in list(range(1, 14)) + ([20, 31, 50] if ctx.thorough() else [21]):
        s = twos / 2
        def chk(s=s, twos=twos):
            S = spinSystem(g1, spin=s)
            z, p, m, x, y = spin_mats(s)
            for got, want, nm in ((S.sz, z, "Sz"), (S.splus, p, "S+"), (S.sminus, m, "S-"), (S.sx, x, "Sx"), (S.sy, y, "Sy"),
                                  (S.get_sz(s), z, "Sz"), (S.get_splus(s), p, "S+"), (S.get_sminus(s), m, "S-"), (S.get_sx(s), x, "Sx"), (S.get_sy(s), y, "Sy")):
                close(got, want, 1e-12, nm)
            X, Y, Z = (dense(a) for a in (S.sx, S.sy, S.sz))
            close(X @ Y - Y @ X, 1j * Z, 1e-11, "[Sx,Sy]=iSz"); close(Y @ Z - Z @ Y, 1j * X, 1e-11, "[Sy,Sz]"); close(Z @ X - X @ Z, 1j * Y, 1e-11, "[Sz,Sx]")
            close(X @ X + Y @ Y + Z @ Z, s * (s + 1) * np.eye(twos + 1), 1e-11, "total spin")
            need(S.nbasis == twos + 1 and S.nstates == twos + 1, "local dimension")
        ctx.case("spin matrices", s, chk)
    geoms = geo.fermion_geoms(r, ctx.thorough())
    for name, g in geoms:
        ns = g.nsites
        for spin in (.5, 1, 1.5, 2):
            b = int(2 * spin + 1)
            if b ** ns > (260 if not ctx.thorough() else 1100):
                continue
            z, p, m, x, y = spin_mats(spin)
            adj = np.array(g.adjacency_mat); ph = np.array(g.phase_mat)
            E = {a: [ref.embed(o, i, ns, b, False) for i in range(ns)] for a, o in zip("xyz", (x, y, z))}
            for var in range(ctx.reps(6, 16)):
                ins = []; js = []; hs = []
                for a in range(3):
                    k = (var + a) % 5
                    if k == 0:
                        v = float(np.round(r.normal(), 3)); ins.append(v); js.append(v * adj * ph)
                    elif k == 1:
                        j = r.normal(size=(ns, ns)); j = j + j.T; ins.append(j); js.append(j)
                    elif k == 2 and ns > 2:
                        v = r.normal(size=ns); ins.append(v)
                        j = np.zeros((ns, ns))
                        for i in range(ns):
                            j[i, (i + 1) % ns] += v[i]; j[(i + 1) % ns, i] += v[i]
                        js.append(j)
                    elif k == 3:
                        ins.append(0); js.append(np.zeros((ns, ns)))
                    else:
                        j = r.normal(size=(ns, ns)) * (r.random((ns, ns)) < .5); j = np.tril(j, -1) + np.tril(j, -1).T; ins.append(j); js.append(j)
                for a in range(3):
                    k = (var + 2 * a) % 3
                    if k == 0:
                        v = float(np.round(r.normal(), 3)); ins.append(v); hs.append(v * np.ones(ns))
                    elif k == 1:
                        v = r.normal(size=ns) * (r.random(ns) < .7); ins.append(v); hs.append(v)
                    else:
                        ins.append(0); hs.append(np.zeros(ns))
                ryd = var % 4 == 3

                def chkH(g=g, ns=ns, spin=spin, b=b, E=E, ins=ins, js=js, hs=hs, ryd=ryd):
                    S = spinSystem(g, *ins, use_ryd_detunes=ryd, spin=spin)
                    H = np.zeros((b ** ns, b ** ns), complex)
                    hz = hs[2] - (np.sum(js[2], 1) if ryd else 0)
                    for a, h in zip("xyz", (hs[0], hs[1], hz)):
                        for i in range(ns):
                            H = H - h[i] * E[a][i]
                    for a, j in zip("xyz", js):
                        for i in range(ns):
                            for k in range(i):
                                H = H + 2 * j[i, k] * E[a][i] @ E[a][k]
                    got = S.createH()
                    close(got, H, 1e-10, "spin Hamiltonian")
                    if not any(np.iscomplexobj(j) and np.any(np.abs(np.imag(j)) > 1e-13) for j in js):
                        close(dense(got), dense(got).conj().T, 1e-10, "Hermiticity")
                    q = rand_unitary(r, b ** ns)[:max(1, b ** ns // 3)]
                    sel = np.eye(b ** ns)[np.sort(r.permutation(b ** ns)[:max(1, b ** ns // 2)])]
                    for P in (sp.csr_matrix(q), sp.csr_matrix(sel)):
                        Pd = P.toarray()
                        close(S.createH(projector=P), Pd @ H @ Pd.conj().T, 1e-9, "projected Hamiltonian")
                    for a, jj, hh in zip("xyz", js, (hs[0], hs[1], hz)):
                        close(getattr(S, "j" + a), jj, 1e-12, "coupling matrix"); close(getattr(S, "h" + a), hh, 1e-12, "field")
                ctx.case("spin Hamiltonian", (name, spin, ins, ryd), chkH)

            def chkops(g=g, ns=ns, spin=spin, b=b):
                S = spinSystem(g, spin=spin)
                op = r.normal(size=(b, b)) + 1j * r.normal(size=(b, b))
                close(S.get_allsite_op(op), ref.kron_all([op] * ns), 1e-10, "all-site product")
                close(S.get_allsite_op(sp.csr_matrix(op)), ref.kron_all([op] * ns), 1e-10, "all-site product sparse")
                close(S.get_sum_op(op), sum(ref.embed(op, i, ns, b, False) for i in range(ns)), 1e-10, "sum operator")
                close(S.get_swap_up_down_op(), ref.kron_all([np.eye(b)[::-1]] * ns), 1e-12, "global flip")
                if ns > 1:
                    C6 = 2.7
                    d = np.sqrt(np.array(g.xdist_mat) ** 2 + np.array(g.ydist_mat) ** 2)
                    want = np.zeros((ns, ns)); want[d != 0] = C6 / d[d != 0] ** 6
                    close(S.get_interaction_mat_c6(C6), want, 1e-10, "C6 couplings")
                if b == 2:
                    xs, ys = np.meshgrid(range(ns), range(ns))
                    ii = xs[xs > ys]; jj = ys[xs > ys]
                    for _ in range(3):
                        conn = (r.random(len(ii)) < .6).astype(int)
                        got = S.get_npairs_op(conn)
                        up = np.diag([1., 0.])
                        want = sum((ref.embed(up, i, ns, 2, False) @ ref.embed(up, j, ns, 2, False) for i, j, c in zip(ii, jj, conn) if c), np.zeros((2 ** ns, 2 ** ns)))
                        close(got if sp.issparse(got) else got * np.ones_like(want), want, 1e-12, "pair counting")
                jm = r.normal(size=(ns, ns)); jm = jm + jm.T
                close(S.get_rydberg_detunes(jm), -np.sum(jm, 1), 1e-12, "Rydberg shift")
            ctx.case("spin operators", (name, spin), chkops)
    # weak and strong parameters, parameters changed after a Hamiltonian was built, and a larger system
    for k in range(ctx.reps(16, 60)):
        ns, spin = ((2, .5), (3, .5), (2, 1), (9, .5))[k % 4] if k > 3 else (9, .5); b = int(2 * spin + 1); g = geo.chain(ns, ns > 2); sc = (1., 1e-13, 3e-8, 1e-3, 2e9)[k % 5]
        J = [r.normal(size=(ns, ns)) for _ in range(3)]; J = [sc * (j + j.T) * (r.random() < .8) for j in J]; h = [sc * r.normal(size=ns) * (r.random() < .8) for _ in range(3)]
        def chks(g=g, ns=ns, spin=spin, b=b, sc=sc, J=J, h=h):
            E = {a: [sp.csr_matrix(sp.kron(sp.kron(sp.eye(b ** i), o), sp.eye(b ** (ns - i - 1)))) for i in range(ns)] for a, o in zip("xyz", [spin_mats(spin)[q] for q in (3, 4, 0)])}
            def ham(J, h):
                H = sp.csr_matrix((b ** ns, b ** ns), dtype=complex)
                for a, j, f in zip("xyz", J, h):
                    for i in range(ns):
                        H = H - f[i] * E[a][i]
                        for l in range(i):
                            H = H + 2 * j[i, l] * E[a][i] @ E[a][l]
                return dense(H)
            S = spinSystem(g, *J, *h, spin=spin)
            close(dense(S.createH()) / sc, ham(J, h) / sc, 1e-9, "Hamiltonian in units of its largest parameter")
            S.jz = -3 * S.jz; S.hx = S.hx + sc; S.jx = .5 * S.jx
            close(dense(S.createH()) / sc, ham([.5 * J[0], J[1], -3 * J[2]], [h[0] + sc, h[1], h[2]]) / sc, 1e-9, "Hamiltonian after the parameters were changed")
        ctx.case("weak and strong parameters", (ns, spin, J, h), chks)
    for k in range(6):
        x = np.array([0., 1., 1. + 10. ** (-k / 2), 2.5]); y = np.array([0., 2e-4, 2e-4 - 2e-4, 1.])
        def chkc6(x=x, y=y):
            g = Geometry.createNonPeriodicGeometry(x, y); S = spinSystem(g); d = np.hypot(x[:, None] - x, y[:, None] - y); want = np.zeros((4, 4)); want[d > 0] = d[d > 0] ** -6.
            close(S.get_interaction_mat_c6(1.) / (want + (want == 0)), (want > 0) * 1., 1e-6, "C6 couplings at short distance")
        ctx.case("spin operators", ("distances", x, y), chkc6)
    def chkdef():
        for g in (geo.chain(2), geo.chain(3)):
            ns = g.nsites; A = np.array(g.adjacency_mat) * np.array(g.phase_mat)
            z, p, m, x, y = spin_mats(.5)
            E = {a: [ref.embed(o, i, ns, 2, False) for i in range(ns)] for a, o in zip("xyz", (x, y, z))}
            need(spinSystem(g).nbasis == 2, "default spin"); close(spinSystem(g).createH(), np.zeros((2 ** ns, 2 ** ns)), 1e-12, "no couplings given")
            for a in "xyz":
                close(spinSystem(g, **{"h" + a: .7}).createH(), -.7 * sum(E[a]), 1e-12, f"only h{a} given")
                close(spinSystem(g, **{"j" + a: .3}).createH(), sum(.6 * A[i, k] * E[a][i] @ E[a][k] for i in range(ns) for k in range(i)), 1e-12, f"only j{a} given")
    ctx.case("couplings left out", "defaults", chkdef)
    g = geo.chain(3)
    def chkbad():
        for a in (np.ones(4), np.ones((2, 3)), "a", [1, 2, 3]):
            expect_raise(lambda: spinSystem(g, jx=a), f"coupling of wrong form accepted {a!r}")
        for a in (np.ones(4), "a"):
            expect_raise(lambda: spinSystem(g, hx=a), f"field of wrong form accepted {a!r}")
    ctx.case("coupling forms", "wrong sizes", chkbad)
