import numpy as np
from fractions import Fraction as F
from rt.core import *
from rt import geo
from exact_diag import ed_geometry as eg
from exact_diag.ed_geometry import Geometry, Lattice

S3 = np.sqrt(3)
CELLS = [((3, 0), (0, 3)), ((4, 0), (0, 2)), ((3, 1), (-1, 3)), ((2, -1), (1, 2)), ((1, 0), (.5, S3 / 2)), ((3, 0), (1, S3)), ((1.5, S3 / 2), (1.5, -S3 / 2)),
         ((6, 0), (0, 2 * S3)), ((-3, 0), (0, 5)), ((0, 2), (7, 0)), ((1, 1), (0, 3)), ((5, -2), (-3, -4)), ((.3, .1), (-.2, .7)), ((3, 0), (0, 0)), ((0, 0), (0, 4)),
         ((0, 0), (1, S3)), ((2, -1), (0, 0)), ((0, 0), (0, 0)), ((-.7, S3), (0, 0)),
         ((2e-4, 0), (0, 5e-4)), ((3e-5, 1e-5), (0, 0)), ((0, 0), (0, 4e-4)), ((2e-4, 1e-4), (0, 3)), ((4000, 0), (1000, 7000))]


def floor(f):
    return f.numerator // f.denominator


def run(ctx):
    r = ctx.rng
    cells = [tuple(map(lambda v: np.array(v, float), c)) for c in CELLS]
    for _ in range(ctx.reps(12, 60)):
        a, b = r.normal(size=2) * 3, r.normal(size=2) * 3
        if abs(a[0] * b[1] - a[1] * b[0]) > .2:
            cells.append((a, b))
    fr = [F(k, d) for d in (1, 2, 3, 4, 5, 6, 8, 12) for k in range(-3 * d, 3 * d + 1)]
    fr = sorted(set(fr))
    for P1, P2 in cells:
        z1, z2 = not P1.any(), not P2.any()
        for mode in ("positive", "centered"):
            pick = [(fr[int(r.integers(len(fr)))], fr[int(r.integers(len(fr)))]) for _ in range(ctx.reps(40, 200))]
            pick += [(F(a), F(b)) for a in (-1, 0, 1) for b in (-1, 0, 2)] + [(F(a, 2), F(b, 2)) for a in (-3, -1, 1, 3) for b in (-3, -1, 0, 1)]

            pick += [(F(a, 2) + F(s, 10 ** 7), F(b) + F(t, 10 ** 6)) for a, b in ((0, 0), (1, -1), (-3, 2), (2, 1)) for s, t in ((-1, 1), (2, -3), (-1, -2))] + [(F(70001, 2), F(-40000)), (F(-33000), F(65537, 2)), (F(41, 2), F(-57, 2)), (F(100000, 3), F(1))]   # next to the edges of the cell, and many periods away

            def chk(P1=P1, P2=P2, z1=z1, z2=z2, mode=mode, pick=pick):
                off = np.zeros(2)
                if z1 != z2:
                    P = P2 if z1 else P1
                    perp = np.array([-P[1], P[0]])
                pts = []; want = []; ns = []
                for f1, f2 in pick:
                    if z1 and z2:
                        pt = np.array([float(f1), float(f2)]); n1 = n2 = 0; rd = pt
                    else:
                        g = floor if mode == "positive" else (lambda f: floor(f + F(1, 2)))
                        if not z1 and not z2:
                            n1, n2 = g(f1), g(f2)
                            pt = float(f1) * P1 + float(f2) * P2; rd = float(f1 - n1) * P1 + float(f2 - n2) * P2
                        else:
                            n = g(f1); pt = float(f1) * P + float(f2) * perp; rd = float(f1 - n) * P + float(f2) * perp
                            n1, n2 = (0, n) if z1 else (n, 0)
                    pts.append(pt); want.append(rd); ns.append((n1, n2))
                pts = np.array(pts).T; want = np.array(want).T; ns = np.array(ns).T
                for v1, v2 in ((P1, P2), (list(P1), list(P2)), (P1[:, None], P2[None, :])):
                    x, y, n1, n2 = eg.reduce_vectors(v1, v2, pts[0], pts[1], mode=mode)
                    need(np.array_equal(np.ravel(n1), ns[0]) and np.array_equal(np.ravel(n2), ns[1]), "number of subtracted periods")
                    close(np.ravel(x), want[0], 1e-9, "reduced x"); close(np.ravel(y), want[1], 1e-9, "reduced y")
                    need(np.shape(n1) == (1, pts.shape[1]) and np.shape(x) == (pts.shape[1],), "result shapes")
                # scalars
                for k in range(3):
                    x, y, n1, n2 = eg.reduce_vectors(P1, P2, float(pts[0, k]), float(pts[1, k]), mode=mode)
                    need(n1[0, 0] == ns[0, k] and n2[0, 0] == ns[1, k], "scalar input"); close(x, want[0, k:k + 1], 1e-9, "scalar input")
                if mode == "positive":
                    x, y, n1, n2 = eg.reduce_vectors(P1, P2, pts[0], pts[1])
                    close(np.ravel(x), want[0], 1e-9, "default mode")
                # empty? one point as list
                x, y, n1, n2 = eg.reduce_vectors(P1, P2, list(pts[0]), list(pts[1]), mode)
                close(np.ravel(y), want[1], 1e-9, "list input")
            ctx.case("reduction to the cell", (P1, P2, mode), chk)
        def chkg(P1=P1, P2=P2, z1=z1, z2=z2):
            pts = r.normal(size=(2, 60)) * 20
            for mode in ("positive", "centered"):
                x, y, n1, n2 = eg.reduce_vectors(P1, P2, pts[0], pts[1], mode=mode)
                n1 = np.ravel(n1); n2 = np.ravel(n2)
                need(np.array_equal(n1, np.round(n1)) and np.array_equal(n2, np.round(n2)), "integers")
                close(np.array([x, y]), pts - P1[:, None] * n1 - P2[:, None] * n2, 1e-9, "point minus periods")
                lo = 0 if mode == "positive" else -.5
                if not z1 and not z2:
                    f = np.linalg.solve(np.array([P1, P2]).T, np.array([x, y]))
                    need(np.all(f >= lo - 1e-9) and np.all(f < lo + 1 + 1e-9), "fractional coordinates")
                else:
                    for P, z in ((P1, z1), (P2, z2)):
                        if not z:
                            f = P @ np.array([x, y]) / (P @ P)
                            need(np.all(f >= lo - 1e-9) and np.all(f < lo + 1 + 1e-9), "fractional coordinate")
                if z1:
                    need(not n1.any(), "zero vector subtracted")
                if z2:
                    need(not n2.any(), "zero vector subtracted")
            expect_raise(lambda: eg.reduce_vectors(P1, P2, pts[0], pts[1], mode="other"), "unknown mode accepted")
            b1, b2 = eg.get_reciprocal_vects(P1, P2)
            b1, b2 = np.asarray(b1), np.asarray(b2)
            need(b1.shape == (2, 1) and b2.shape == (2, 1), "reciprocal shape")
            for P, b, z in ((P1, b1, z1), (P2, b2, z2)):
                if z:
                    need(not b.any(), "reciprocal of a zero vector")
                else:
                    close(P @ b, np.ones(1), 1e-10, "a.b = 1")
            if not z1 and not z2:
                close(P1 @ b2, np.zeros(1), 1e-10, "a1.b2"); close(P2 @ b1, np.zeros(1), 1e-10, "a2.b1")
            c1, c2 = eg.get_reciprocal_vects(list(P1), P2[None, :])
            close(c1, b1, 1e-12, "shape independence")
        ctx.case("reduction invariants and reciprocal vectors", (P1, P2), chkg)
    ctx.case("reciprocal vectors", "dependent", lambda: expect_raise(lambda: eg.get_reciprocal_vects([1, 2], [2, 4]), "dependent vectors accepted"))
    # vector shapes
    def chkshape():
        v = r.normal(size=5)
        for w in (v, list(v), v[None, :], v[:, None]):
            close(eg.ensure_column_vect(w), v[:, None], 1e-15, "column"); close(eg.ensure_row_vect(w), v[None, :], 1e-15, "row"); close(eg.ensure_1d_vect(w), v, 1e-15, "1d")
        close(eg.ensure_column_vect(3.), np.array([[3.]]), 1e-15, "scalar"); close(eg.ensure_row_vect(3.), np.array([[3.]]), 1e-15, "scalar"); close(eg.ensure_1d_vect(3.), np.array([3.]), 1e-15, "scalar")
        need(eg.ensure_column_vect(None) is None and eg.ensure_row_vect(None) is None and eg.ensure_1d_vect(None) is None, "None")
        u = r.normal(size=(3, 4))
        close(eg.ensure_column_vect(u), u.reshape(12, 1), 1e-15, "matrix")
    ctx.case("vector shapes", "1d, row, column, list", chkshape)
    # pairwise separations
    lats = [((1, 0), (0, 1), [(a, b) for a, b in (((3, 0), (0, 3)), ((4, 0), (0, 4)), ((4, 0), (0, 0)), ((0, 0), (0, 2)), ((0, 0), (0, 0)), ((3, 1), (-1, 3)), ((2, 1), (-1, 2)), ((4, 2), (0, 3)))]),
            ((1, 0), (.5, S3 / 2), [((3, 0), (1.5, 1.5 * S3)), ((4, 0), (1, S3)), ((0, 0), (1, S3)), ((2, 0), (0, 0))]),
            ((1.5, S3 / 2), (1.5, -S3 / 2), [((6, 0), (0, 2 * S3)), ((3, 0), (0, 3 * S3))]),
            ((2, 1), (0, 1), [((4, 2), (0, 3)), ((2, 1), (0, 0))])]
    for l1, l2, Ps in lats:
        for p1, p2 in Ps:
            La = Lattice(np.array(l1), np.array(l2), [[0, 0]], np.array(p1), np.array(p2))
            l1v, l2v, P1, P2 = (np.array(v, float) for v in (l1, l2, p1, p2))
            for k in range(ctx.reps(3, 10)):
                m = int(r.integers(1, 8))
                ints = r.integers(-6, 7, size=(2, m))
                xy = l1v[:, None] * ints[0] + l2v[:, None] * ints[1]
                def chkd(La=La, xy=xy, l1v=l1v, l2v=l2v, P1=P1, P2=P2, m=m):
                    X, Y, D1, D2 = La.get_reduced_distance(xy[0], xy[1])
                    for A in (X, Y, D1, D2):
                        need(np.shape(A) == (m, m), "shape"); close(A, -np.asarray(A).T, 1e-9, "antisymmetry")
                    for i in range(m):
                        for j in range(m):
                            d = np.array([X[i, j], Y[i, j]]); full = xy[:, i] - xy[:, j]
                            close(d, D1[i, j] * l1v + D2[i, j] * l2v, 1e-8, "lattice vector separation")
                            e = full - d
                            Pn = [P for P in (P1, P2) if P.any()]
                            fd = []
                            if len(Pn) == 2:
                                n = np.linalg.solve(np.array(Pn).T, e); fd = np.linalg.solve(np.array(Pn).T, d)
                                close(n, np.round(n), 1e-7, "difference is not a period")
                            elif len(Pn) == 1:
                                n = Pn[0] @ e / (Pn[0] @ Pn[0]); close(e, np.round(n) * Pn[0], 1e-7, "difference is not a period"); fd = [Pn[0] @ d / (Pn[0] @ Pn[0])]
                            else:
                                close(e, np.zeros(2), 1e-9, "open separation")
                            if i > j:
                                need(all(-.5 - 1e-8 <= f < .5 - 1e-8 for f in fd), "separation outside the centred cell")
                ctx.case("pairwise separations", (l1, l2, p1, p2, ints), chkd)
    for _ in range(ctx.reps(5, 20)):
        m = int(r.integers(1, 7)); x = r.normal(size=m); y = r.normal(size=m)
        def chko(x=x, y=y, m=m):
            g = Geometry.createNonPeriodicGeometry(x, y, np.zeros((m, m)))
            X, Y = g.get_site_distance()
            close(X, x[:, None] - x[None, :], 1e-12, "x separation"); close(Y, y[:, None] - y[None, :], 1e-12, "y separation")
            close(g.xdist_mat, X, 1e-12, "stored x"); close(g.ydist_mat, Y, 1e-12, "stored y")
        ctx.case("open separations", (x, y), chko)
    def chkcell():
        La = Lattice([1, 0], [0, 1], [[0, 0]], [3, 1], [-1, 3])
        x = r.normal(size=20) * 9; y = r.normal(size=20) * 9
        for mode in ("positive", "centered"):
            a = La.reduce_to_unit_cell(x, y, mode); b = eg.reduce_vectors([3, 1], [-1, 3], x, y, mode)
            for u, v in zip(a, b):
                close(u, v, 1e-12, "reduce_to_unit_cell")
        close(La.reduce_to_unit_cell(x, y)[0], eg.reduce_vectors([3, 1], [-1, 3], x, y, "positive")[0], 1e-12, "default mode")
    ctx.case("reduction to the lattice cell", "tilted", chkcell)
