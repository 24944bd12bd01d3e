import numpy as np
from rt.core import *
from rt import ref, geo
from exact_diag.ed_geometry import Geometry
from exact_diag import ed_symmetry as es


def lcm_order(p):
    n = len(p); o = 1; seen = set()
    for i in range(n):
        if i in seen:
            continue
        k = 0; j = i
        while True:
            seen.add(j); j = p[j]; k += 1
            if j == i:
                break
        o = int(np.lcm(o, k))
    return o


def site_map(g, pts, tol=1e-6):
    """reference: exact match modulo the periodicity vectors, found by trying small integer combinations"""
    x = np.array(g.xlocs, float); y = np.array(g.ylocs, float)
    P = []
    if g.lattice is not None:
        P = [np.array(v, float).reshape(2) for v in (g.lattice.periodicity_vect1, g.lattice.periodicity_vect2)]
        P = [v for v in P if np.any(np.abs(v) > 1e-9)]
    out = []
    for k in range(pts.shape[1]):
        hit = []
        for j in range(len(x)):
            d = pts[:, k] - np.array([x[j], y[j]])
            if len(P) == 0:
                ok = np.all(np.abs(d) < tol)
            elif len(P) == 1:
                n = np.round(d @ P[0] / (P[0] @ P[0])); ok = np.all(np.abs(d - n * P[0]) < tol)
            else:
                n = np.round(np.linalg.solve(np.array(P).T, d)); ok = np.all(np.abs(d - np.array(P).T @ n) < tol)
            if ok:
                hit.append(j)
        out.append(hit)
    return out


def run(ctx):
    r = ctx.rng
    for n in list(range(1, 14)) + [17, 24, 360, -4, 2.5] + [float(x) for x in r.normal(size=4) * 5]:
        for c in ((0., 0.), (1.5, -2.25), tuple(r.normal(size=2) * 3)):
            for L in (1, 2, 5):
                x = r.normal(size=L) * 3; y = r.normal(size=L) * 3
                def chk(n=n, c=c, x=x, y=y):
                    a = 2 * np.pi / n
                    z = (x - c[0] + 1j * (y - c[1])) * np.exp(1j * a) + c[0] + 1j * c[1]
                    got = es.getRotFn(n, cx=c[0], cy=c[1])(x, y)
                    close(got, np.array([z.real, z.imag]), 1e-10, "rotation")
                    if c == (0., 0.):
                        close(es.getRotFn(n)(x, y), np.array([z.real, z.imag]), 1e-10, "rotation about default origin")
                ctx.case("rotation map", (n, c, x, y), chk)
    vs = [np.array(v, float) for v in ([1, 0], [0, 1], [-1, 0], [0, -1], [1, 1], [1, -1], [-2, 1], [3, 4], [-3, -4], [1e-3, 5], [5, 1e-3], [-5, 1e-3], [3e-5, 4e-5], [0, 2e-6], [-2e-6, 0], [4e5, -3e5], [120, .3], [-90, .45])] + [r.normal(size=2) for _ in range(ctx.reps(8, 40))]
    for v in vs:
        for c in ((0., 0.), (1.5, -2.25), tuple(r.normal(size=2) * 3)):
            L = int(r.integers(1, 6)); x = r.normal(size=L) * 3; y = r.normal(size=L) * 3
            def chk(v=v, c=c, x=x, y=y):
                u = v / np.linalg.norm(v)
                d = np.array([x - c[0], y - c[1]])
                want = 2 * np.outer(u, u @ d) - d + np.array([[c[0]], [c[1]]])
                for w in (v, list(v), v[:, None], v[None, :]):
                    close(es.getReflFn(w, cx=c[0], cy=c[1])(x, y), want, 1e-9, "reflection")
                if c == (0., 0.):
                    close(es.getReflFn(v)(x, y), want, 1e-9, "reflection default centre")
            ctx.case("reflection map", (v, c, x, y), chk)
    ctx.case("reflection map", "zero axis", lambda: expect_raise(lambda: es.getReflFn([0, 0]), "zero reflection axis accepted"))
    for _ in range(ctx.reps(10, 40)):
        L = int(r.integers(1, 6)); x = r.normal(size=L) * 3; y = r.normal(size=L) * 3; c = r.normal(size=2); t = r.normal(size=2)
        def chk(x=x, y=y, c=c, t=t):
            close(es.getInversionFn(c[0], c[1])(x, y), np.array([2 * c[0] - x, 2 * c[1] - y]), 1e-11, "inversion")
            close(es.getInversionFn()(x, y), np.array([-x, -y]), 1e-11, "inversion")
            for w in (t, list(t), t[:, None]):
                close(es.getTranslFn(w)(x, y), np.array([x + t[0], y + t[1]]), 1e-11, "translation")
        ctx.case("inversion and translation maps", (x, y, c, t), chk)
    # site permutations
    G = Geometry
    jobs = []
    sq = lambda nx, ny, o1, o2: G.createSquareGeometry(nx, ny, 0., 0., o1, o2)
    for nx, ny, o1, o2 in [(2, 1, True, True), (3, 1, False, True), (4, 1, False, True), (5, 1, False, True), (6, 1, False, True), (7, 1, True, True), (3, 3, False, False), (3, 3, True, True), (4, 4, False, False), (3, 2, False, False), (2, 3, True, False), (4, 3, False, False), (3, 4, True, False), (2, 2, True, True), (5, 4, False, False)]:
        g = sq(nx, ny, o1, o2)
        cx, cy = (nx - 1) / 2, (ny - 1) / 2
        fs = [("inv", es.getInversionFn(cx, cy)), ("reflx", es.getReflFn([1, 0], cx, cy)), ("refly", es.getReflFn([0, 1], cx, cy)), ("rot2", es.getRotFn(2, cx, cy)), ("identity", es.getRotFn(1)), ("half shift", es.getTranslFn([.5, 0]))]
        fs += [("transl", es.getTranslFn([a, b])) for a, b in ((1, 0), (0, 1), (1, 1), (2, 0), (-1, 0), (1, -1), (3, 2))]
        if nx == ny and o1 == o2:
            fs += [("rot4", es.getRotFn(4, cx, cy)), ("diag", es.getReflFn([1, 1], cx, cy)), ("rot4 origin", es.getRotFn(4)), ("-rot4", es.getRotFn(-4, cx, cy)), ("diag2", es.getReflFn([-1, 1], cx, cy))]
        fs += [("rot3 invalid", es.getRotFn(3, cx, cy)), ("rot5", es.getRotFn(5, .1, .2))]
        jobs += [(f"square {nx}x{ny} {o1}{o2}", g, nm, f) for nm, f in fs]
    for a, b in ((1, 1), (2, 1), (3, 1), (2, 2)):
        g = G.createTiltedSquareGeometry(a, b, 0, 0, False, False)
        jobs += [(f"tilted {a},{b}", g, nm, f) for nm, f in (("rot4", es.getRotFn(4)), ("tx", es.getTranslFn([1, 0])), ("ty", es.getTranslFn([0, 1])), ("inv", es.getInversionFn()), ("refl", es.getReflFn([0, 1])))]
    for n1, n2 in ((3, 3), (4, 4), (2, 3), (6, 2)):
        g = G.createTriangleGeometry(n1, n2, 0, 0, False, False)
        l2 = np.array([.5, np.sqrt(3) / 2])
        jobs += [(f"triangle {n1}x{n2}", g, nm, f) for nm, f in (("rot6", es.getRotFn(6)), ("rot3", es.getRotFn(3)), ("t1", es.getTranslFn([1, 0])), ("t2", es.getTranslFn(l2)), ("t2b", es.getTranslFn(-2 * l2)), ("inv", es.getInversionFn()), ("refl", es.getReflFn([0, 1])), ("refl30", es.getReflFn(l2)))]
    for n1, n2 in ((2, 2), (1, 2), (3, 3)):
        if n1 == 1:
            continue
        g = G.createHexagonalGeometry(n1, n2, 0, 0, False, False)
        jobs += [(f"hex {n1}x{n2}", g, nm, f) for nm, f in (("rot6", es.getRotFn(6)), ("t1", es.getTranslFn([1.5, np.sqrt(3) / 2])), ("t2", es.getTranslFn([0, np.sqrt(3)])), ("inv", es.getInversionFn()), ("refl", es.getReflFn([0, 1])), ("reflx", es.getReflFn([1, 0])))]
    for n in range(3, 12):
        g = G.createRegularPolygonGeometry(n)
        cx, cy = g.get_center_of_mass()
        jobs += [(f"polygon {n}", g, nm, f) for nm, f in (("rot", es.getRotFn(n)), ("rot back", es.getRotFn(-n)), ("refl", es.getReflFn([0, 1])), ("inv", es.getInversionFn(0, 0)), ("rot com", es.getRotFn(n, cx, cy)))]
    # composite permutations whose order is not the longest cycle
    g = G.createNonPeriodicGeometry([0, 1, 5, 6, 7, 12, 13], [0] * 7)
    for p in ([1, 0, 3, 4, 2, 5, 6], [1, 2, 3, 0, 5, 4, 6], [1, 2, 0, 4, 5, 6, 3], [6, 5, 4, 3, 2, 1, 0], [1, 2, 3, 4, 5, 6, 0], list(range(7)), [1, 0, 3, 2, 5, 4, 6]) + tuple([int(z) for z in r.permutation(7)] for _ in range(ctx.reps(10, 60))):
        jobs.append(("7 sites", g, "perm" + str(p), lambda xs, ys, p=p: np.array([np.asarray(g.xlocs)[p], np.asarray(g.ylocs)[p]])))
    g = G.createNonPeriodicGeometry([2.], [-1.])
    jobs += [("one site", g, nm, f) for nm, f in (("rot", es.getRotFn(4, 2., -1.)), ("id", es.getTranslFn([0, 0])), ("off", es.getTranslFn([1, 0])))]
    # more sites than fit a small integer type
    jobs += [("square 13x12", sq(13, 12, False, False), nm, f) for nm, f in (("transl", es.getTranslFn([1, 0])), ("inv", es.getInversionFn(6, 5.5)))]
    # nearly symmetric clusters are not symmetric
    for d in (3e-2, 1e-3, -1e-5, 2e-7):
        for ax in (0, 1):
            q = np.array([[0., 1., 0., 1., .5], [0., 0., 1., 1., 3.]]); q[ax, 3] += d
            h = G.createNonPeriodicGeometry(q[0], q[1])
            def chkd(h=h, ax=ax):
                f = es.getReflFn([0, 1], .5, 0.) if ax == 0 else es.getReflFn([0, 1], .5, 0.)
                expect_raise(lambda: es.getTransformedSites(f, list(range(5)), h), "displaced site accepted as the image")
                expect_raise(lambda: es.findSiteCycles(f, h), "displaced site accepted as the image by findSiteCycles")
            ctx.case("nearly symmetric cluster", (d, ax), chkd)
    for gname, g, nm, f in jobs:
        def chk(g=g, f=f):
            n = g.nsites
            pts = f(np.array(g.xlocs, float), np.array(g.ylocs, float))
            m = site_map(g, pts)
            need(all(len(h) <= 1 for h in m), "reference map ambiguous")
            sites = list(range(n))
            if any(len(h) == 0 for h in m):
                expect_raise(lambda: es.getTransformedSites(f, sites, g), "site without image accepted")
                expect_raise(lambda: es.findSiteCycles(f, g), "site without image accepted by findSiteCycles")
                return
            p = [h[0] for h in m]
            a, b = es.getTransformedSites(f, sites, g)
            need([int(z) for z in a] == sites and [int(z) for z in b] == p, "site map")
            lab = [int(z) for z in r.permutation(n) + 10]
            a, b = es.getTransformedSites(f, lab, g)
            need([int(z) for z in b] == [lab[q] for q in p], "site labels do not follow the map")
            if sorted(p) != sites:
                expect_raise(lambda: es.findSiteCycles(f, g), "cycles reported for a map that is not a permutation")
                return
            o = lcm_order(p)
            if o > n:
                expect_raise(lambda: es.findSiteCycles(f, g), "order beyond the iteration limit not reported")
                return
            try:
                cyc, k = es.findSiteCycles(f, g)
            except Exception:
                raise Broken("no cycles although the transformation closes after %d applications" % o)
            need(k == o, f"number of applications {k}, expected {o}")
            need(sorted(z for c in cyc for z in c) == sites, "cycles are not a partition of the sites")
            for c in cyc:
                for u, v in zip(c, c[1:] + c[:1]):
                    need(p[u] == v, "cycle does not follow the map")
        ctx.case("site permutations and cycles", (gname, nm), chk)
