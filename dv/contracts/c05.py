"""C05: coordinate maps and the site permutations they induce (ed_symmetry)"""
from ..contract import *
from ..expr import exp, inv, cos, sin
from . import c07    # the reduction contracts used at the call sites below are re-proved with this property
P = "C05"
F = "ed_symmetry."


def points(c):
    n = c.dim("n", 1, 5)
    x, y = c.arr("x", (n,)), c.arr("y", (n,))
    return n, x, y


def rows(f, g):
    return lambda a, i: ite(eq(a, 0), f(i), g(i))


def affine(M, cx, cy, x, y):
    """M (p - c) + c"""
    return rows(lambda i: M[0][0] * (x(i) - cx) + M[0][1] * (y(i) - cy) + cx, lambda i: M[1][0] * (x(i) - cx) + M[1][1] * (y(i) - cy) + cy)


@contract(P, F + "getRotFn", name="rotation")
def _rot(c):
    n, x, y = points(c)
    k = c.real("k", sample=lambda r, s: float(r.choice([1, 2, 3, 4, 6, -5, 2.5, 7])))
    c.requires(cnot(eq(k, 0)))
    cx, cy = c.real("cx"), c.real("cy")
    c.calls(lambda call, v: call(call(F + "getRotFn", v.k, v.cx, v.cy), v.x, v.y))
    a = 2 * PI / k
    M = [[cos(a), -sin(a)], [sin(a), cos(a)]]
    c.ensures("rotation by 2 pi / k about the centre", (2, n), affine(M, cx, cy, x, y))
    i, j = X.sym("i", "int", "real"), X.sym("j", "int", "real")
    m = affine(M, cx, cy, x, y)
    c.lemma("distances are preserved", lambda: [], lambda: (m(0, i) - m(0, j)) ** 2 + (m(1, i) - m(1, j)) ** 2 - (x(i) - x(j)) ** 2 - (y(i) - y(j)) ** 2)


@contract(P, F + "getRotFn", name="rotation about the default centre")
def _rot0(c):
    n, x, y = points(c)
    k = c.integer("k", 1, 8)
    c.requires(le(1, k))
    c.calls(lambda call, v: call(call(F + "getRotFn", v.k), v.x, v.y))
    a = 2 * PI / k
    c.ensures("rotation by 2 pi / k about the origin", (2, n), affine([[cos(a), -sin(a)], [sin(a), cos(a)]], 0, 0, x, y))


for form, sh in {"vector": (2,), "column": (2, 1), "row": (1, 2)}.items():
    for default in (False, True):
        @contract(P, F + "getReflFn", name=f"reflection about a {form}" + (" through the origin" if default else ""))
        def _refl(c, sh=sh, default=default):
            n, x, y = points(c)
            w = c.arr("w", sh, sample=lambda r, s, q: (r.integers(-2, 3, size=q) * 1. if r.random() < .6 else r.normal(size=q)))
            v = (lambda i: w(i)) if len(sh) == 1 else ((lambda i: w(i, 0)) if sh[0] == 2 else (lambda i: w(0, i)))
            cx, cy = (E(0), E(0)) if default else (c.real("cx"), c.real("cy"))
            c.calls(lambda call, v: call(call(F + "getReflFn", v.w, *(() if default else (v.cx, v.cy))), v.x, v.y))
            c.raises(cand(eq(v(0), 0), eq(v(1), 0)))
            q = inv(v(0) * v(0) + v(1) * v(1))
            M = [[(v(0) * v(0) - v(1) * v(1)) * q, 2 * v(0) * v(1) * q], [2 * v(0) * v(1) * q, (v(1) * v(1) - v(0) * v(0)) * q]]
            c.ensures("reflection across the line along the vector through the centre: 2 v v^T / v.v - 1", (2, n), affine(M, cx, cy, x, y))


@contract(P, F + "getInversionFn", name="inversion")
def _inv(c):
    n, x, y = points(c)
    cx, cy = c.real("cx"), c.real("cy")
    c.calls(lambda call, v: (call(call(F + "getInversionFn", v.cx, v.cy), v.x, v.y), call(call(F + "getInversionFn"), v.x, v.y)))
    c.ensures("2 c - p", (2, n), rows(lambda i: 2 * cx - x(i), lambda i: 2 * cy - y(i)), get=lambda r: r[0])
    c.ensures("-p about the default centre", (2, n), rows(lambda i: -x(i), lambda i: -y(i)), get=lambda r: r[1])


for form, sh in {"vector": (2,), "column": (2, 1), "row": (1, 2)}.items():
    @contract(P, F + "getTranslFn", name=f"translation by a {form}")
    def _tr(c, sh=sh):
        n, x, y = points(c)
        w = c.arr("w", sh)
        v = (lambda i: w(i)) if len(sh) == 1 else ((lambda i: w(i, 0)) if sh[0] == 2 else (lambda i: w(0, i)))
        c.calls(lambda call, v: call(call(F + "getTranslFn", v.w), v.x, v.y))
        c.ensures("p + v", (2, n), rows(lambda i: x(i) + v(0), lambda i: y(i) + v(1)))


# ---------------------------------------------------------------- site permutation of a coordinate map
def sites_and_map(c, names):
    """n sites at pairwise different positions; the map sends site i onto the position of site p(i)"""
    n = c.dim("n", 1, 6)
    pr = ("joint:position:2",)
    x = c.arr(names[0], (n,), props=pr, sample=lambda r, s, q: r.permutation(q[0]) * 1.)
    y = c.arr(names[1], (n,), props=pr)
    s = c.arr("sites", (n,), "i", sample=lambda r, s, q: r.permutation(q[0]))
    p = c.arr("p", (n,), "i", props=("nonneg", "lt:n"), sample=lambda r, s, q: r.permutation(q[0]))
    return n, x, y, s, p


def the_map(call, v, n, p):
    if call.symbolic:
        t = lambda a, b: Arr([S.plain(E(2)), S.plain(n)], lambda ix: ite(eq(ix[0], 0), S.numv(S.toarr(a)(p(ix[1]))), S.numv(S.toarr(b)(p(ix[1])))), "f")
        t.symbolic_ok = True
        return t
    return lambda a, b: np.array([a[v.p], b[v.p]])


@contract(P, F + "getTransformedSites", name="site permutation, isolated cluster")
def _perm(c):
    n, x, y, s, p = sites_and_map(c, ("x", "y"))

    def run(call, v):
        g = call.obj("ed_geometry.Geometry", nsites=v.n, lattice=None, xlocs=v.x, ylocs=v.y)
        return call(F + "getTransformedSites", the_map(call, v, n, p), v.sites, g)
    c.calls(run)
    c.ensures("the given labels", (n,), lambda i: s(i), get=lambda r: r[0])
    c.ensures("label of the site at the image position", (n,), lambda i: s(p(i)), get=lambda r: r[1])


def reduce_stub(n, raw, img, red, p):
    """callee contract (C07): equal modulo the periods <=> equal representatives; the raw positions have representatives red(i), the
    images of the sites have those of red(p(i)); anything else is unrelated to them"""
    def stub(I, fn, loc):
        mode = loc["mode"]
        out = []
        i = E(X.fresh_int("i"))
        X.push_hyps(h := [le(0, i), lt(i, n)])
        try:
            g = [S.numv(S.toarr(loc[k])(i)) for k in ("xlocs", "ylocs")]
            if all(X.iszero(a - b(i)) for a, b in zip(g, raw)):
                out = red
            elif all(X.iszero(a - b(i)) for a, b in zip(g, img)):
                out = [(lambda j, r=r: r(p(j))) for r in red]
            else:
                out = [(lambda j, k=k: X.fn("other" + k, [E(j)], "real")) for k in "xy"]
        finally:
            X.pop_to(X.hyp_depth() - len(h))
        if mode != "centered":
            out = [(lambda j, o=o: X.replace_fn(X.replace_fn(o(j), "rx", lambda q: X.fn("rx" + mode, q, "real", "joint:" + mode + ":2")), "ry", lambda q: X.fn("ry" + mode, q, "real", "joint:" + mode + ":2"))) for o in out]
        return tuple(Arr([S.plain(n)], lambda ix, o=o: o(ix[0]), "f") for o in out) + (None, None)
    return stub


@contract(P, F + "getTransformedSites", name="site permutation, periodic cluster")
def _permp(c):
    n, rx, ry, s, p = sites_and_map(c, ("rx", "ry"))
    x, y, tx, ty = (c.arr(k, (n,)) for k in ("x", "y", "tx", "ty"))
    c.arr("per", (2,))
    c.arr("step", (2,))

    def coherent(r, syms, fns, vals):
        # a torus of Lx x Ly points, raw positions off by whole periods, the map a translation by lattice vectors (and periods)
        m = syms["n"]
        Lx = int(r.choice([d for d in range(1, m + 1) if m % d == 0])); Ly = m // Lx
        o = r.permutation(m)
        gx, gy = np.arange(m)[o] % Lx, np.arange(m)[o] // Lx
        cen = lambda a, L: a - L * np.floor(a / L + .5)
        a, b = int(r.integers(-4, 5)), int(r.integers(-4, 5))
        X_, Y_ = gx + Lx * r.integers(-2, 3, size=m) * 1., gy + Ly * r.integers(-2, 3, size=m) * 1.
        lab = {(int(u), int(w)): k for k, (u, w) in enumerate(zip(gx, gy))}
        new = {"x": X_, "y": Y_, "tx": X_ + a, "ty": Y_ + b, "rx": cen(gx, Lx) * 1., "ry": cen(gy, Ly) * 1., "per": np.array([Lx, Ly], float),
               "step": np.array([a, b], float), "p": np.array([lab[int((u + a) % Lx), int((w + b) % Ly)] for u, w in zip(gx, gy)])}
        for k, w in new.items():
            vals[k] = w
            fns[k] = lambda *ix, w=w: w[tuple(int(q) for q in ix)]
    c.fixup.append(coherent)
    c.stubs["ed_geometry.Lattice.reduce_to_unit_cell"] = reduce_stub(n, (x, y), (tx, ty), (rx, ry), p)

    def run(call, v):
        if call.symbolic:
            t = lambda a, b: Arr([S.plain(E(2)), S.plain(n)], lambda ix: ite(eq(ix[0], 0), tx(ix[1]), ty(ix[1])), "f")
            t.symbolic_ok = True
            lat = call.obj("ed_geometry.Lattice")
        else:
            t = lambda a, b: np.array([a + v.step[0], b + v.step[1]])
            lat = call("ed_geometry.Lattice", [1, 0], [0, 1], periodicity_vect1=[v.per[0], 0], periodicity_vect2=[0, v.per[1]])
        return call(F + "getTransformedSites", t, v.sites, call.obj("ed_geometry.Geometry", nsites=v.n, lattice=lat, xlocs=v.x, ylocs=v.y))
    c.calls(run)
    c.ensures("the given labels", (n,), lambda i: s(i), get=lambda r: r[0])
    c.ensures("label of the site equivalent to the image", (n,), lambda i: s(p(i)), get=lambda r: r[1])
