import numpy as np, itertools
from fractions import Fraction as F
from rt.core import *
from rt import geo
from exact_diag.ed_geometry import Geometry, Lattice
S3 = np.sqrt(3)


def centred(P1, P2, d):
    Pn = [P for P in (P1, P2) if np.any(np.abs(P) > 1e-12)]
    if not Pn:
        return d, []
    if len(Pn) == 2:
        f = np.linalg.solve(np.array(Pn).T, d)
    else:
        f = np.array([Pn[0] @ d / (Pn[0] @ Pn[0])])
    n = np.floor(np.round(f + .5, 8))
    for P, k in zip(Pn, n):
        d = d - k * P
    return d, f - n


def recip(P1, P2):
    z1, z2 = not np.any(P1), not np.any(P2)
    if z1 and z2:
        return np.zeros(2), np.zeros(2)
    if z1:
        return np.zeros(2), P2 / (P2 @ P2)
    if z2:
        return P1 / (P1 @ P1), np.zeros(2)
    B = np.linalg.inv(np.array([P1, P2]))
    return B[:, 0], B[:, 1]


def lattice_post(g, L1, L2, basis, M, ph1, ph2, o1, o2):
    """postcondition of create_lattice_geom; M integer 2x2: periodicity rows in units of the lattice vectors"""
    L1, L2 = np.array(L1, float), np.array(L2, float)
    P1 = M[0][0] * L1 + M[0][1] * L2; P2 = M[1][0] * L1 + M[1][1] * L2
    det = M[0][0] * M[1][1] - M[0][1] * M[1][0]
    # reference sites: fractional coordinates with respect to P1, P2, exactly rational for the lattice part
    K = sum(abs(x) for r_ in M for x in r_) + 2
    fr = set()
    A = np.array([P1, P2]).T
    out = []
    for bi, b in enumerate(basis):
        fb = np.linalg.solve(A, np.array(b, float))
        for a in range(-K, K + 1):
            for c in range(-K, K + 1):
                f1 = F(a * M[1][1] - c * M[1][0], det); f2 = F(-a * M[0][1] + c * M[0][0], det)
                key = (bi, f1 - (f1.numerator // f1.denominator), f2 - (f2.numerator // f2.denominator))
                if key not in fr:
                    fr.add(key); out.append(np.array([float(key[1]), float(key[2])]) + fb)
    need(len(out) == abs(det) * len(basis), "reference")
    n = len(out)
    x = np.array(g.xlocs, float); y = np.array(g.ylocs, float)
    need(g.nsites == n and len(x) == n and len(y) == n, f"number of sites {g.nsites}, expected {n}")
    got = np.linalg.solve(A, np.array([x, y])).T
    used = set()
    for f in got:
        d = np.array([np.max(np.abs((f - o) - np.round(f - o))) for o in out])
        k = int(np.argmin(d))
        need(d[k] < 1e-7, "site is not a lattice point")
        need(k not in used, "site listed twice")
        used.add(k)
    need(np.all(got > -1e-7) and np.all(got < 1 + 1e-7), "sites outside the cell")
    p1, p2 = (np.zeros(2) if o1 else P1), (np.zeros(2) if o2 else P2)
    b1, b2 = recip(p1, p2)
    X, Y, Adj, Ph = (np.asarray(m) for m in (g.xdist_mat, g.ydist_mat, g.adjacency_mat, g.phase_mat))
    for m in (X, Y, Adj, Ph):
        need(m.shape == (n, n), "matrix size")
    need(np.array_equal(Adj, Adj.T) and set(np.unique(Adj)) <= {0, 1} and not np.any(np.diag(Adj)), "adjacency matrix")
    close(np.abs(Ph), np.ones((n, n)), 1e-10, "phase modulus"); close(Ph, Ph.conj().T, 1e-10, "phase Hermiticity")
    for i in range(n):
        for j in range(n):
            a, b = max(i, j), min(i, j)
            d, _ = centred(p1, p2, np.array([x[a] - x[b], y[a] - y[b]]))
            if i < j:
                d = -d
            close(np.array([X[i, j], Y[i, j]]), d, 1e-7, "reduced displacement")
            need(Adj[i, j] == (1 if abs(np.hypot(*d) - 1) < 1e-7 else 0), f"bond between {i} and {j}")
            close(Ph[i, j], np.exp(1j * (ph1 * (b1 @ d) + ph2 * (b2 @ d))), 1e-8, "phase")
    La = g.lattice
    for v, w in ((La.periodicity_vect1, p1), (La.periodicity_vect2, p2)):
        close(np.ravel(v), w, 1e-10, "stored periodicity vectors")


def run(ctx):
    r = ctx.rng
    lats = [("square", (1, 0), (0, 1), [(0, 0)]), ("triangle", (1, 0), (.5, S3 / 2), [(0, 0)]), ("hex", (1.5, S3 / 2), (1.5, -S3 / 2), [(-1, 0), (-.5, S3 / 2)]),
            ("kagome", (2, 0), (1, S3), [(0, 0), (1, 0), (.5, S3 / 2)]), ("rect", (1, 0), (0, 1.5), [(0, 0)]), ("rect basis", (2, 0), (0, 1), [(0, 0), (1, 0)]), ("rhombic", (1, .3), (-.2, 1.1), [(.1, .2)]),
            ("left handed", (0, 1), (1, 0), [(0, 0)]), ("lieb", (2, 0), (0, 2), [(0, 0), (1, 0), (0, 1)]),
            ("nearly square", (1.00003, 0), (0, 1), [(0, 0)]), ("sites close to each other", (1, 0), (0, 1.5), [(0, 0), (3e-4, 0), (0, -2e-6)]), ("thin cell", (1, 0), (.9, .004), [(0, 0)])]
    Ms = [((1, 0), (0, 1)), ((2, 0), (0, 1)), ((3, 0), (0, 2)), ((2, 1), (-1, 2)), ((3, 1), (-1, 3)), ((1, 1), (-1, 1)), ((2, 0), (1, 2)), ((-2, 0), (0, 3)), ((0, 2), (3, 0)), ((-1, -2), (3, -1)), ((4, 0), (0, 4)), ((1, 1), (1, -1)), ((3, 0), (0, 3)), ((5, 0), (0, 2)), ((2, 2), (-2, 2)), ((-1, 1), (2, 1)), ((0, -1), (4, 0))]
    for _ in range(ctx.reps(14, 60)):       # periodicity vectors in every direction
        m = [[int(q) for q in r.integers(-4, 5, size=2)] for _ in range(2)]
        if 0 < abs(m[0][0] * m[1][1] - m[0][1] * m[1][0]) <= 12:
            Ms.append(tuple(map(tuple, m)))
    Ms += [((-1, -2), (-3, -1)), ((1, -2), (2, -1)), ((-2, -1), (-1, -2)), ((-1, -3), (1, -2)), ((2, -3), (1, -4)), ((-2, 3), (-4, 1))]
    for nm, L1, L2, basis in lats:
        for M in Ms if ctx.thorough() else [Ms[i] for i in r.permutation(len(Ms))[:14]]:
            if abs(M[0][0] * M[1][1] - M[0][1] * M[1][0]) * len(basis) > 26:
                continue
            o1, o2 = bool(r.integers(2)), bool(r.integers(2))
            if r.random() < .4:
                o1 = o2 = False
            ph1, ph2 = [(0., 0.), (.7, -1.3), (np.pi, 0.), (0., 2.2), (-np.pi / 3, np.pi / 5), (3e-5, -2e-6)][int(r.integers(6))]
            def chk(L1=L1, L2=L2, basis=basis, M=M, ph1=ph1, ph2=ph2, o1=o1, o2=o2):
                l1, l2 = np.array(L1, float), np.array(L2, float)
                P1 = M[0][0] * l1 + M[0][1] * l2; P2 = M[1][0] * l1 + M[1][1] * l2
                f = r.integers(3)
                w = (lambda v: v[:, None]) if f == 0 else ((lambda v: v) if f == 1 else list)
                g = Geometry.create_lattice_geom(w(l1), w(l2), [w(np.array(b, float)) for b in basis], w(P1), w(P2), ph1, ph2, o1, o2)
                lattice_post(g, L1, L2, basis, M, ph1, ph2, o1, o2)
            ctx.case("lattice geometry", (nm, M, ph1, ph2, o1, o2), chk)
    # constructors
    for n1, n2 in [(1, 1), (2, 1), (1, 3), (3, 1), (2, 2), (3, 3), (4, 2), (5, 1), (4, 4), (6, 1), (1, 7), (8, 1), (3, 2), (10, 1), (12, 1), (5, 3), (7, 2)] + ([(9, 1), (7, 3), (11, 1), (13, 1), (5, 5)] if ctx.thorough() else []):
        for o1 in (True, False):
            for o2 in (True, False):
                ph = (float(np.round(r.normal(), 2)), float(np.round(r.normal(), 2))) if r.random() < .6 else (0., 0.)
                for kind in ("square", "triangle", "hex"):
                    if kind != "square" and n1 * n2 > 12 and not ctx.thorough():
                        continue
                    def chk(n1=n1, n2=n2, o1=o1, o2=o2, ph=ph, kind=kind):
                        fn = {"square": Geometry.createSquareGeometry, "triangle": Geometry.createTriangleGeometry, "hex": Geometry.createHexagonalGeometry}[kind]
                        call = lambda: fn(n1, n2, ph[0], ph[1], o1, o2)
                        if (n1 == 1 and not o1) or (n2 == 1 and not o2):
                            expect_raise(call, "periodic boundary across one site accepted"); return
                        g = call()
                        if kind == "square":
                            lattice_post(g, (1, 0), (0, 1), [(0, 0)], ((n1, 0), (0, n2)), *ph, o1, o2)
                        elif kind == "triangle":
                            lattice_post(g, (1, 0), (.5, S3 / 2), [(0, 0)], ((n1, 0), (0, n2)), *ph, o1, o2)
                        else:
                            lattice_post(g, (1.5, S3 / 2), (1.5, -S3 / 2), [(-1, 0), (-.5, S3 / 2)], ((n1, n1), (n2, -n2)), *ph, o1, o2)
                    ctx.case("named lattices", (kind, n1, n2, ph, o1, o2), chk)
    for a, b in ((1, 1), (2, 1), (3, 1), (2, 2), (1, 2), (3, 2), (4, 1), (0, 2)):
        for o in (True, False):
            ph = (.4, -.9)
            ctx.case("tilted lattices", (a, b, o), lambda a=a, b=b, o=o: lattice_post(Geometry.createTiltedSquareGeometry(a, b, ph[0], ph[1], o, o), (1, 0), (0, 1), [(0, 0)], ((a, b), (-b, a)), *ph, o, o))
    # defaults
    def chkdef():
        lattice_post(Geometry.createSquareGeometry(3, 2), (1, 0), (0, 1), [(0, 0)], ((3, 0), (0, 2)), 0, 0, True, True)
        lattice_post(Geometry.createTriangleGeometry(3, 2), (1, 0), (.5, S3 / 2), [(0, 0)], ((3, 0), (0, 2)), 0, 0, True, True)
        lattice_post(Geometry.createHexagonalGeometry(2, 1), (1.5, S3 / 2), (1.5, -S3 / 2), [(-1, 0), (-.5, S3 / 2)], ((2, 2), (1, -1)), 0, 0, True, True)
    ctx.case("named lattices", "defaults", chkdef)
    for n in range(3, 14):
        def chkp(n=n):
            g = Geometry.createRegularPolygonGeometry(n)
            x, y = np.array(g.xlocs), np.array(g.ylocs)
            d = np.hypot(x[:, None] - x, y[:, None] - y)
            want = np.zeros((n, n))
            for i in range(n):
                want[i, (i + 1) % n] = want[(i + 1) % n, i] = 1
            need(g.nsites == n and np.array_equal(g.adjacency_mat, want), "polygon bonds")
            close(d[want == 1], np.ones(2 * n), 1e-9, "polygon side length"); close(np.hypot(x, y), np.hypot(x, y)[0] * np.ones(n), 1e-9, "polygon radius")
            close(g.phase_mat, np.ones((n, n)), 1e-12, "polygon phases")
        ctx.case("regular polygon", n, chkp)
    # open clusters: integer coordinates, neighbours differ by one along exactly one axis
    for _ in range(ctx.reps(20, 80)):
        m = int(r.integers(1, 8)); pts = np.array(sorted(set(map(tuple, r.integers(-3, 4, size=(m, 2)) * (1 if _ % 3 else int(r.integers(1, 6))))))); pts = pts[r.permutation(len(pts))]
        jitter = r.normal(size=pts.shape) * 1e-9
        def chkc(pts=pts, jitter=jitter):
            m = len(pts)
            for q in (pts, pts + jitter):
                g = Geometry.createNonPeriodicGeometry(list(q[:, 0]), list(q[:, 1]))
                want = (np.abs(pts[:, None] - pts[None]).sum(2) == 1).astype(int)
                need(np.array_equal(g.adjacency_mat, want), "open cluster bonds")
                close(g.phase_mat, np.ones((m, m)), 1e-12, "open cluster phases")
                a, b, c = Geometry.get_neighbors_by_distance(g.xdist_mat, g.ydist_mat)
                dx = np.abs(pts[:, None, 0] - pts[None, :, 0]); dy = np.abs(pts[:, None, 1] - pts[None, :, 1])
                need(np.array_equal(a, (dx == 1) & (dy == 0)) and np.array_equal(b, (dy == 1) & (dx == 0)) and np.array_equal(c, want), "neighbours by distance")
        ctx.case("open clusters", pts, chkc)
    # user supplied matrices are kept; inconsistent ones rejected
    for n in (1, 2, 3, 4, 5):
        for _ in range(ctx.reps(3, 12)):
            def chkv(n=n):
                x = r.normal(size=n); y = r.normal(size=n)
                A = np.triu((r.random((n, n)) < .5).astype(float), 1); A = A + A.T
                th = r.normal(size=(n, n)); th = th - th.T; P = np.exp(1j * th)
                g = Geometry.createNonPeriodicGeometry(x, y, A, P)
                close(g.adjacency_mat, A, 1e-15, "adjacency kept"); close(g.phase_mat, P, 1e-15, "phases kept"); close(g.xlocs, x, 1e-15, "coordinates kept"); close(g.ylocs, y, 1e-15, "coordinates kept")
                bad = lambda a, p, m: expect_raise(lambda: Geometry.createNonPeriodicGeometry(x, y, a, p), m)
                if n > 1:
                    i, j = 0, n - 1
                    B = A.copy(); B[i, j] = 1 - B[i, j]; bad(B, P, "asymmetric adjacency accepted")
                    B = A.copy(); B[j, i] = 1 - B[j, i]; bad(B, None, "asymmetric adjacency accepted")
                    for v in (2., .5, -1., 1e-3):
                        B = A.copy(); B[i, j] = B[j, i] = v; bad(B, P, "non-binary adjacency accepted")
                    Q = P.copy(); Q[i, j] *= np.exp(1j * 1e-6); bad(A, Q, "non-Hermitian phases accepted")
                    Q = P.copy(); Q[i, j] *= -1; bad(A, Q, "non-Hermitian phases accepted")
                    Q = P.copy(); Q[i, j] *= 1.001; Q[j, i] *= 1.001; bad(A, Q, "non-unit phases accepted")
                    Q = P.copy(); Q[i, j] = Q[j, i] = 0; bad(A, Q, "non-unit phases accepted")
                B = A.copy(); B[0, 0] = 3; bad(B, P, "non-binary adjacency accepted")
                Q = P.copy(); Q[n - 1, n - 1] = np.exp(.1j); bad(A, Q, "complex diagonal phase accepted")
                Q = P.copy(); Q[n - 1, n - 1] = .5; bad(A, Q, "non-unit diagonal accepted")
                bad(np.zeros((n + 1, n + 1)), P, "adjacency of wrong size accepted"); bad(A, np.ones((n + 1, n + 1)), "phases of wrong size accepted")
                bad(np.zeros((n + 1, n)), None, "non-square adjacency accepted")
            ctx.case("validation", (n, int(r.integers(1e9))), chkv)
    def chklat():
        bad = lambda m, *a, **k: expect_raise(lambda: Lattice(*a, **k), m)
        bad("dependent lattice vectors accepted", [1, 2], [2, 4]); bad("dependent lattice vectors accepted", [1, 0], [-3, 0]); bad("zero lattice vector accepted", [0, 0], [1, 0]); bad("zero lattice vector accepted", [1, 0], [0, 0])
        for p in ([1.5, 0], [0, .5], [2, .25], [1 / 3, 0], [.999, 0], [3.001, 2], [0, -.5], [1e-3, 0]):
            bad(f"incompatible periodicity vector {p} accepted", [1, 0], [0, 1], [[0, 0]], p, [0, 0])
            bad(f"incompatible periodicity vector {p} accepted", [1, 0], [0, 1], [[0, 0]], [0, 0], p)
        for q in (([1, 0], [2, 0]), ([2, 1], [-4, -2]), ([0, 3], [0, 1])):
            bad("dependent periodicity vectors accepted", [1, 0], [0, 1], [[0, 0]], *q)
            expect_raise(lambda: Geometry.create_lattice_geom([1, 0], [0, 1], [[0, 0]], *q), "dependent periodicity vectors accepted")
        bad("incompatible periodicity accepted", [1, 0], [.5, S3 / 2], [[0, 0]], [0, 1], [0, 0])
        for q in (([3, 0], [1.5, 1.5 * S3]), ([0, 0], [0, 0]), ([1, 0], [0, 0]), ([0, 0], [-.5, S3 / 2])):
            Lattice([1, 0], [.5, S3 / 2], [[0, 0]], *q)
        for vs in (([1, 0], [0, 1]), ([1, 0], [.5, S3 / 2]), ([2, 1], [-1, 3])):
            for a, b in ((3, 2), (1, 4), (5, 5)):
                P1, P2 = (n * np.array(w, float) for n, w in zip((a, b), vs)); la = Lattice(vs[0], vs[1], [[0, 0]], P1, P2)
                for q, w in (((la.reciprocal_latt_vect1, la.reciprocal_latt_vect2), vs), ((la.reciprocal_periodicity_vect1, la.reciprocal_periodicity_vect2), (P1, P2))):
                    close([[np.dot(np.ravel(u), np.ravel(z)) for z in w] for u in q], np.eye(2), 1e-9, "reciprocal vectors of the lattice")
        for k in range(1, 30):
            Lattice([1, 0], [.5, S3 / 2], [[0, 0]], [float(k), 0], [.5 * k, S3 / 2 * k])
            Lattice([1.5, S3 / 2], [1.5, -S3 / 2], [[0, 0]], [3. * k, 0], [0, S3 * k])
    ctx.case("lattice validation", "list", chklat)
    def chkdef():
        for f, a in ((Geometry.createSquareGeometry, (3, 2)), (Geometry.createTiltedSquareGeometry, (2, 1)), (Geometry.createTriangleGeometry, (2, 3))):
            need(f(*a) == f(*a, 0., 0., True, True), f"{f.__name__} without phases and boundary conditions: open")
    ctx.case("default boundary conditions", "open", chkdef)
