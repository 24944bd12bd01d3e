import numpy as np, copy
from rt.core import *
from rt import geo
from exact_diag.ed_geometry import Geometry, Lattice


def geoms(r, ctx):
    G = Geometry
    out = [("chain", lambda: G.createSquareGeometry(5, 1, .3, 0, False, True)), ("square", lambda: G.createSquareGeometry(3, 3, .3, -.8, False, False)), ("tri", lambda: G.createTriangleGeometry(3, 2, .1, .2, False, False)),
           ("hex", lambda: G.createHexagonalGeometry(2, 2, 0, .4, False, False)), ("tilted", lambda: G.createTiltedSquareGeometry(2, 1, .5, .6, False, False)), ("open", lambda: G.createSquareGeometry(4, 2)),
           ("one", lambda: G.createNonPeriodicGeometry([0], [0])), ("polygon", lambda: G.createRegularPolygonGeometry(5)), ("tri open", lambda: G.createTriangleGeometry(2, 6, 0, 0, True, True)),
           ("close rows", lambda: G.createNonPeriodicGeometry([0, 1, 0, 1, 0, 1, 2], [0, 0, .25, .25, .5, .5, .5])), ("gap", lambda: G.createNonPeriodicGeometry([0, 1, 0, 1, 0, 1], [0, 0, 2, 2, 7 / 3, 7 / 3]))]
    for k in range(ctx.reps(4, 12)):
        n = int(r.integers(2, 8)); x = r.integers(-3, 4, n).astype(float); y = r.integers(-3, 4, n).astype(float)
        A = np.triu((r.random((n, n)) < .5).astype(float), 1); A = A + A.T; th = r.normal(size=(n, n)); P = np.exp(1j * (th - th.T))
        out.append((f"random{k}", lambda x=x, y=y, A=A, P=P: G.createNonPeriodicGeometry(x, y, A.copy(), P.copy())))
    return out


def run(ctx):
    r = ctx.rng
    for nm, mk in geoms(r, ctx):
        g0 = mk(); n = g0.nsites
        for k in range(ctx.reps(5, 20)):
            steps = [[int(z) for z in r.permutation(n)] for _ in range(1 + k % 3)]
            def chk(mk=mk, steps=steps, n=n):
                g = mk(); ref = mk(); acc = np.arange(n)
                for p in steps:
                    g.permute_sites(p if len(steps) % 2 else np.array(p))
                    acc = acc[p]
                ix = np.ix_(acc, acc)
                close(g.xlocs, np.asarray(ref.xlocs)[acc], 1e-12, "x"); close(g.ylocs, np.asarray(ref.ylocs)[acc], 1e-12, "y")
                for a in ("adjacency_mat", "phase_mat", "xdist_mat", "ydist_mat"):
                    close(getattr(g, a), np.asarray(getattr(ref, a))[ix], 1e-12, a)
                need(g.nsites == n, "number of sites"); need(g.lattice is ref.lattice or g.lattice == ref.lattice, "lattice changed")
                need(g.validate_instance(), "permuted geometry no longer valid")
                cx, cy = g.get_center_of_mass()
                close([cx, cy], [np.mean(ref.xlocs), np.mean(ref.ylocs)], 1e-10, "centre of mass")
                inv = [int(z) for z in np.argsort(acc)]
                g.permute_sites(inv)
                need(g == ref and not g != ref, "inverse permutation does not restore the geometry")
            ctx.case("permutation", (nm, steps), chk)
        def bad(mk=mk, n=n):
            for p in ([0] * n, list(range(n + 1)), list(range(n - 1)), list(range(1, n + 1)), [z - 1 for z in range(n)], [0] + [0] + list(range(2, n)), list(range(n - 1)) + [n - 2], [0.5 + z for z in range(n)]):
                if n == 1 and sorted(p) == [0]:
                    continue
                g = mk(); expect_raise(lambda: g.permute_sites(p), f"{p} accepted as permutation")
                ref = mk(); need(g == ref, "rejected permutation changed the geometry")
        ctx.case("not a permutation", nm, bad)
        def chks(mk=mk, n=n):
            g = mk(); x, y = np.asarray(g.xlocs, float), np.asarray(g.ylocs, float); A = np.asarray(g.adjacency_mat, float)
            for mode in ("top_alternating", "top_left", "bottom_right", "adjacency"):
                s = [int(z) for z in g.get_sorting_permutation(mode)]
                need(sorted(s) == list(range(n)), f"{mode} is not a permutation")
                if mode == "top_left":
                    key = [(-y[i], x[i]) for i in s]
                elif mode == "bottom_right":
                    key = [(y[i], x[i]) for i in s]
                elif mode == "top_alternating":
                    lev = []
                    for v in sorted(-y):
                        if not lev or v - lev[-1] > 1e-6:
                            lev.append(v)
                    if np.any(np.diff(lev) < 1e-3) or any(1e-13 < abs(-v - lev[int(np.argmin(np.abs(np.array(lev) + v)))]) for v in y):
                        continue        # rows closer than the coordinates are meant to resolve
                    row = [int(np.argmin(np.abs(np.array(lev) + v))) for v in y]
                    key = [(row[i], x[i] * (-1.) ** row[i]) for i in s]
                else:
                    w = []; B = np.eye(n)
                    for _ in range(n):
                        B = B @ A; w.append(B.sum(1))
                    key = [tuple(v[i] for v in w) for i in s]
                need(all(a <= b for a, b in zip(key, key[1:])), f"{mode}: keys are not in order")
            need(np.array_equal(g.get_sorting_permutation(), g.get_sorting_permutation("top_alternating")), "default mode")
            expect_raise(lambda: g.get_sorting_permutation("xyz"), "unknown mode accepted")
            ref = mk(); need(g == ref, "sorting changed the geometry")
        ctx.case("sorting", nm, chks)
        def chke(mk=mk, n=n):
            g, h = mk(), mk()
            need(g == h and h == g and g == g and not (g != h) and g.isequal_adjacency(h), "equal geometries")
            for a, eps in [(a, eps) for a in ("xlocs", "ylocs", "xdist_mat", "ydist_mat", "adjacency_mat") for eps in (1e-3, 1e-9, -1e-12)]:
                h = mk(); m = np.array(getattr(h, a), float); m.flat[-1] += eps; setattr(h, a, m)
                need(not (g == h) and not (h == g) and g != h and h != g, f"difference in {a} not detected")
                need(g.isequal_adjacency(h) == (a in ("xlocs", "ylocs")) and h.isequal_adjacency(g) == (a in ("xlocs", "ylocs")), f"isequal_adjacency and {a}")
            for a, f in (("xdist_mat", lambda h: -np.array(h.xdist_mat)), ("ydist_mat", lambda h: -np.array(h.ydist_mat)), ("xdist_mat", lambda h: np.array(h.ydist_mat)), ("xdist_mat", lambda h: np.abs(h.xdist_mat)), ("ydist_mat", lambda h: np.abs(h.ydist_mat))):
                h = mk(); m = f(h)
                if not np.array_equal(m, getattr(h, a)):
                    setattr(h, a, m)
                    need(g != h and not (g == h) and not (h == g) and not g.isequal_adjacency(h) and not h.isequal_adjacency(g), f"other separations in {a} not detected")
            if g.lattice is not None:
                for a, eps in [(a, eps) for a in ("lattice_vect1", "lattice_vect2", "periodicity_vect1", "periodicity_vect2", "phase1", "phase2") for eps in (1e-3, 1e-9, -1e-12)]:
                    h = mk(); La = h.lattice; v = getattr(La, a); v = np.array(v, float) if np.ndim(v) else v
                    if np.ndim(v):
                        v[1, 0] += eps
                    else:
                        v = v + eps
                    setattr(La, a, v)
                    need(g.lattice != La and La != g.lattice and not (g.lattice == La) and not (La == g.lattice), f"lattice difference in {a} not detected")
                    need(g != h and not (g == h) and not (h == g) and not g.isequal_adjacency(h), f"lattice difference in {a} not detected by the geometry")
                h = mk(); h.lattice = None
                need(g != h and h != g and not (g == h) and not (h == g) and not g.isequal_adjacency(h), "missing lattice")
                need(g.lattice == mk().lattice and not (g.lattice != mk().lattice), "equal lattices")
            if n > 1:
                h = mk(); h.permute_sites(list(range(n))[::-1]);
                same = np.array_equal(g.xlocs, h.xlocs) and np.array_equal(g.ylocs, h.ylocs)
                if not same:
                    need(g != h and not g == h, "different labelling compares equal")
        ctx.case("comparison", nm, chke)
    for pts in ([(0, 0), (1, 0), (1, 1)], [(0, 0), (1, 0), (2, 0), (2, 1)], [(0, 0), (0, 1), (1, 1), (2, 1)]):
        def chkmir(pts=pts):
            x, y = np.array(pts).T; g = Geometry.createNonPeriodicGeometry(x, y)
            for u, v in ((x, -y), (-x, y), (-x, -y), (y, x), (-y, x)):
                h = Geometry.createNonPeriodicGeometry(u, v)
                need(not g.isequal_adjacency(h) and not h.isequal_adjacency(g) and g != h, "reflected or rotated cluster compares equal")
            h = Geometry.createNonPeriodicGeometry(x + 3, y - 2); need(g.isequal_adjacency(h) and g != h, "shifted cluster")
        ctx.case("comparison of mirror images", pts, chkmir)
    def chkm():
        a = Geometry.createSquareGeometry(3, 1); b = Geometry.createNonPeriodicGeometry([0, 1, 2], [0, 0, 0])
        need(not (a == b) and not (b == a) and a != b and b != a, "lattice and open geometry")
        need(Geometry.createSquareGeometry(3, 1) != Geometry.createSquareGeometry(4, 1), "different sizes")
    ctx.case("comparison", "mixed", chkm)
