"""C08: lattices and geometries (ed_geometry)"""
from ..contract import *
from ..expr import inv, exp
from .c07 import dot, det
P = "C08"
F = "ed_geometry."
L, G = F + "Lattice", F + "Geometry"


# ---------------------------------------------------------------- phases
@contract(P, L + ".get_phase_mat", name="phase matrix")
def _phase(c):
    n = c.dim("n", 1, 4)
    p, q = c.real("p"), c.real("q")
    b1, b2 = c.arr("b1", (2, 1)), c.arr("b2", (2, 1))
    x, y = c.arr("x", (n,)), c.arr("y", (n,))
    dx = lambda v: v.x[:, None] - v.x[None, :]
    dy = lambda v: v.y[:, None] - v.y[None, :]
    c.calls(lambda call, v: call.method(call.obj(L, phase1=v.p, phase2=v.q, reciprocal_periodicity_vect1=v.b1, reciprocal_periodicity_vect2=v.b2), "get_phase_mat", dx(v), dy(v)))

    def want(i, j):
        d = (x(i) - x(j), y(i) - y(j))
        return exp(X.I * (p * (b1(0, 0) * d[0] + b1(1, 0) * d[1]) + q * (b2(0, 0) * d[0] + b2(1, 0) * d[1])))
    c.ensures("exp(i(phase1 b1.d + phase2 b2.d))", (n, n), want)


# ---------------------------------------------------------------- validation
def isbool(want):
    def f(r, v, sy):
        if not sy:
            return bool(r) == want
        c = S.tocond(S.toarr(r).val())
        return c if want else cnot(c)
    return f


def symmetric(call, b, conj_=False):
    """the matrix with entries b[i, j] for j <= i and b[j, i] (conjugated) above"""
    if not call.symbolic:
        b = np.asarray(b)
        lo = np.tril(b)
        up = np.tril(b, -1).T
        return lo + (up.conj() if conj_ else up)
    f = b.snap()
    tr = X.conj if conj_ else (lambda z: z)
    return Arr(b.axes, lambda ix: ite(le(ix[1], ix[0]), S.numv(f(ix)), tr(S.numv(f((ix[1], ix[0]))))), b.dt)


ADJ = lambda r, s, q: r.integers(0, 2, size=q) * 1.


def binary(c, nm, n):
    return c.arr(nm, (n, n), "f", ("int", "bit", "cong"), sample=ADJ)


@contract(P, G + ".validate_adjacency_mat", name="a symmetric 0/1 adjacency matrix is accepted")
def _adjok(c):
    n = c.dim("n", 1, 4)
    binary(c, "b", n)
    c.calls(lambda call, v: call.method(call.obj(G, nsites=v.n, adjacency_mat=symmetric(call, v.b * 1.)), "validate_adjacency_mat"))
    c.ensures_cond("accepted", isbool(True))


for why in ("asymmetric", "not 0 or 1"):
    @contract(P, G + ".validate_adjacency_mat", name=f"an adjacency matrix that is {why} is rejected")
    def _adjbad(c, why=why):
        n = c.dim("n", 1 if why != "asymmetric" else 2, 4)
        a = c.arr("a", (n, n), sample=ADJ if why == "asymmetric" else (lambda r, s, q: r.integers(0, 3, size=q) * 1.))
        i, j = c.integer("i", 0, 3), c.integer("j", 0, 3)
        c.requires(le(0, i), lt(i, n), le(0, j), lt(j, n))
        c.requires(cnot(eq(a(i, j), a(j, i))) if why == "asymmetric" else cand(cnot(eq(a(i, j), 0)), cnot(eq(a(i, j), 1))))
        c.setup.append(lambda I: S.WITNESS.__setitem__(slice(None), [(i, j), (j, i)]))
        c.calls(lambda call, v: call.method(call.obj(G, nsites=v.n, adjacency_mat=v.a), "validate_adjacency_mat"))
        c.ensures_cond("rejected", isbool(False))


@contract(P, G + ".validate_adjacency_mat", G + ".validate_phase_mat", name="matrices of the wrong size are rejected")
def _size(c):
    n, m = c.dim("n", 1, 4), c.dim("m", 1, 4)
    c.requires(cnot(eq(n, m)))
    binary(c, "b", m)
    c.calls(lambda call, v: (call.method(call.obj(G, nsites=v.n, adjacency_mat=symmetric(call, v.b * 1.)), "validate_adjacency_mat"),
                             call.method(call.obj(G, nsites=v.n, phase_mat=symmetric(call, v.b * 1.) * 0. + 1.), "validate_phase_mat")))
    c.ensures_cond("adjacency rejected", lambda r, v, sy: isbool(False)(r[0], v, sy))
    c.ensures_cond("phases rejected", lambda r, v, sy: isbool(False)(r[1], v, sy))


def phases(call, t, i_=1j):
    """exp(i t) made hermitian"""
    th = t * 1.
    if not call.symbolic:
        th = np.tril(t, -1)
        return np.exp(1j * (th - th.T))
    f = t.snap()
    g = lambda ix: ite(lt(ix[1], ix[0]), exp(X.I * S.numv(f(ix))), ite(lt(ix[0], ix[1]), exp(-X.I * S.numv(f((ix[1], ix[0])))), E(1)))
    return Arr(t.axes, g, "c")


@contract(P, G + ".validate_phase_mat", name="a hermitian matrix of phases is accepted")
def _phok(c):
    n = c.dim("n", 1, 4)
    c.arr("t", (n, n))
    c.calls(lambda call, v: call.method(call.obj(G, nsites=v.n, phase_mat=phases(call, v.t)), "validate_phase_mat"))
    c.ensures_cond("accepted", isbool(True))


for why in ("not hermitian", "not of unit modulus"):
    @contract(P, G + ".validate_phase_mat", name=f"a phase matrix that is {why} is rejected")
    def _phbad(c, why=why):
        n = c.dim("n", 1, 4)
        a = c.arr("a", (n, n), "c", sample=lambda r, s, q: np.exp(1j * r.integers(0, 4, size=q) * np.pi / 2) * (1 if why == "not hermitian" else r.integers(1, 3, size=q)))
        i, j = c.integer("i", 0, 3), c.integer("j", 0, 3)
        c.requires(le(0, i), lt(i, n), le(0, j), lt(j, n))
        c.requires(cnot(eq(a(i, j), X.conj(a(j, i)))) if why == "not hermitian" else cnot(eq(X.absv(a(i, j)), 1)))
        c.setup.append(lambda I: S.WITNESS.__setitem__(slice(None), [(i, j), (j, i)]))
        c.calls(lambda call, v: call.method(call.obj(G, nsites=v.n, phase_mat=v.a), "validate_phase_mat"))
        c.ensures_cond("rejected", isbool(False))


# ---------------------------------------------------------------- construction of lattices
def at(name):
    return lambda r: r.attrs[name] if hasattr(r, "attrs") else getattr(r, name)


whole = lambda r, s, q: r.integers(-2, 3, size=q) * 1.
MULT = (("n", "m"), ("i", "j"))


def comb(call, v, names):
    a, b = (getattr(v, q) for q in names)
    return a * v.l1 + b * v.l2


for case, zero in (("two periods", ()), ("first period only", (1,)), ("second period only", (0,)), ("open", (0, 1))):
    @contract(P, L + ".__init__", L + ".validate_instance", L + ".validate_latt_vects", L + ".validate_periodicity_vects", F + "get_reciprocal_vects", F + "reduce_vectors", name=f"a consistent lattice is accepted, {case}")
    def _lok(c, zero=zero):
        l1, l2 = (c.arr(q, (2, 1), sample=whole) for q in ("l1", "l2"))
        a, b = ((q(0, 0), q(1, 0)) for q in (l1, l2))
        f1, f2 = c.real("f1"), c.real("f2")
        c.requires(cnot(eq(det(a, b), 0)))
        num = {}
        for k in (0, 1):
            if k not in zero:
                num[k] = tuple(c.integer(q) for q in MULT[k])
                c.requires(cor(*[cnot(eq(q, 0)) for q in num[k]]))
        if not zero:
            c.requires(cnot(eq(num[0][0] * num[1][1] - num[0][1] * num[1][0], 0)))
        bas = c.arr("bas", (2, 1))

        def run(call, v):
            p1, p2 = (comb(call, v, MULT[k]) if k not in zero else [[0.], [0.]] for k in (0, 1))
            return call(L, v.l1, v.l2, [v.bas], p1, p2, v.f1, v.f2)
        c.calls(run)
        per = [tuple(num[k][0] * a[q] + num[k][1] * b[q] for q in (0, 1)) if k in num else (E(0), E(0)) for k in (0, 1)]
        pick = lambda w: lambda i, j: ite(eq(i, 0), w[0], w[1])
        c.ensures("first lattice vector", (2, 1), l1, get=at("lattice_vect1"))
        c.ensures("second lattice vector", (2, 1), l2, get=at("lattice_vect2"))
        c.ensures("basis vector", (2, 1), bas, get=lambda r: at("basis_vects")(r)[0])
        c.ensures("first period", (2, 1), pick(per[0]), get=at("periodicity_vect1"))
        c.ensures("second period", (2, 1), pick(per[1]), get=at("periodicity_vect2"))
        c.ensures_scalar("phase1", f1, get=at("phase1"))
        c.ensures_scalar("phase2", f2, get=at("phase2"))


@contract(P, L + ".__init__", L + ".validate_latt_vects", name="dependent lattice vectors are rejected")
def _ldep(c):
    l1, l2 = (c.arr(q, (2, 1), sample=whole) for q in ("l1", "l2"))
    c.requires(eq(l1(0, 0) * l2(1, 0) - l1(1, 0) * l2(0, 0), 0))
    c.calls(lambda call, v: call(L, v.l1, v.l2))
    c.raises(TRUE)


@contract(P, L + ".__init__", L + ".validate_periodicity_vects", name="dependent periodicity vectors are rejected")
def _pdep(c):
    l1, l2, a, b = (c.arr(q, (2, 1), sample=whole) for q in ("l1", "l2", "a", "b"))
    c.requires(cnot(eq(l1(0, 0) * l2(1, 0) - l1(1, 0) * l2(0, 0), 0)), eq(a(0, 0) * b(1, 0) - a(1, 0) * b(0, 0), 0))
    for q in (a, b):
        c.requires(cor(cnot(eq(q(0, 0), 0)), cnot(eq(q(1, 0), 0))))
    c.calls(lambda call, v: call(L, v.l1, v.l2, [[0., 0.]], v.a, v.b))
    c.raises(TRUE)


for which in (0, 1):
    @contract(P, L + ".__init__", L + ".validate_instance", name=f"{('first', 'second')[which]} periodicity vector that is no lattice vector is rejected")
    def _plat(c, which=which):
        l1, l2 = (c.arr(q, (2, 1), sample=whole) for q in ("l1", "l2"))
        a, b = ((q(0, 0), q(1, 0)) for q in (l1, l2))
        c.requires(cnot(eq(det(a, b), 0)))
        w = c.arr("w", (2, 1), sample=lambda r, s, q: r.integers(-3, 4, size=q) / 2.)
        p = (w(0, 0), w(1, 0))
        q1, q2 = (p[0] * b[1] - p[1] * b[0]) * inv(det(a, b)), (a[0] * p[1] - a[1] * p[0]) * inv(det(a, b))
        c.requires(cor(cnot(eq(X.floor(q1), q1)), cnot(eq(X.floor(q2), q2))))

        def unique(x, y, f, g):
            d = inv(det(a, b))
            return [(x, f * a[0] + g * b[0]), (y, f * a[1] + g * b[1])], [((x * b[1] - y * b[0]) * d, f), ((a[0] * y - a[1] * x) * d, g)]
        c.use_lemma("components along independent vectors are unique", unique, p[0], p[1], X.floor(q1), X.floor(q2))

        def run(call, v):
            zero = [[0.], [0.]]
            return call(L, v.l1, v.l2, [[0., 0.]], *((v.w, zero) if which == 0 else (zero, v.w)))
        c.calls(run)
        c.raises(TRUE)


# ---------------------------------------------------------------- construction of geometries
@contract(P, G + ".get_neighbors_by_distance", name="neighbours on the square lattice")
def _nb(c):
    n = c.dim("n", 1, 4)
    x, y = c.arr("x", (n, n), "i"), c.arr("y", (n, n), "i")
    c.calls(lambda call, v: call(G + ".get_neighbors_by_distance", v.x, v.y))
    one = lambda z: cor(eq(z, 1), eq(z, -1))
    c.ensures("along x", (n, n), lambda i, j: cand(one(x(i, j)), eq(y(i, j), 0)), get=lambda r: r[0])
    c.ensures("along y", (n, n), lambda i, j: cand(one(y(i, j)), eq(x(i, j), 0)), get=lambda r: r[1])
    c.ensures("neighbours: unit distance", (n, n), lambda i, j: cor(cand(one(x(i, j)), eq(y(i, j), 0)), cand(one(y(i, j)), eq(x(i, j), 0))), get=lambda r: r[2])


from .c07 import reduction_contract, with_reductions, reduced, vec


@contract(P, G + ".__init__", G + ".validate_instance", L + ".get_reduced_distance", L + ".get_phase_mat", name="geometry on a lattice")
def _glat(c):
    n = c.dim("n", 1, 4)
    a, b = vec(c, "a", 0, lambda r, s, q: np.array([[3.], [0.]])), vec(c, "b", 0, lambda r, s, q: np.array([[1.], [2.]]))
    l, m = vec(c, "l", 0, lambda r, s, q: np.array([[1.], [0.]])), vec(c, "m", 0, lambda r, s, q: np.array([[0.], [1.]]))
    pairs = {"period": (a, b), "lattice": (l, m)}
    c.stubs[F + "reduce_vectors"] = reduction_contract(pairs)
    with_reductions(c, pairs)
    ints = lambda r, s, q: r.integers(-5, 6, size=q) * 1.
    x, y = c.arr("x", (n,), sample=ints), c.arr("y", (n,), sample=ints)
    p, q = c.real("p"), c.real("q")
    b1, b2 = c.arr("b1", (2, 1)), c.arr("b2", (2, 1))
    c.calls(lambda call, v: call(G, v.x, v.y, lattice=call.obj(L, periodicity_vect1=v.a, periodicity_vect2=v.b, lattice_vect1=v.l, lattice_vect2=v.m, phase1=v.p, phase2=v.q, reciprocal_periodicity_vect1=v.b1, reciprocal_periodicity_vect2=v.b2)))
    low = lambda k: lambda i, j: reduced(k, "period", "centered", x(i) - x(j), y(i) - y(j))
    sep = lambda k: lambda i, j: ite(lt(j, i), low(k)(i, j), ite(lt(i, j), -low(k)(j, i), 0))
    dx, dy = sep("x"), sep("y")
    c.ensures_scalar("number of sites", n, get=at("nsites"))
    c.ensures("x coordinates", (n,), x, get=at("xlocs"))
    c.ensures("y coordinates", (n,), y, get=at("ylocs"))
    c.ensures("x separations", (n, n), dx, get=at("xdist_mat"))
    c.ensures("y separations", (n, n), dy, get=at("ydist_mat"))
    c.ensures("bonded exactly at reduced distance one", (n, n), lambda i, j: eq(dx(i, j) * dx(i, j) + dy(i, j) * dy(i, j), 1), get=at("adjacency_mat"))
    c.ensures("phases of the reduced displacement", (n, n), lambda i, j: exp(X.I * (p * (b1(0, 0) * dx(i, j) + b1(1, 0) * dy(i, j)) + q * (b2(0, 0) * dx(i, j) + b2(1, 0) * dy(i, j)))), get=at("phase_mat"))


@contract(P, G + ".__init__", G + ".get_site_distance", G + ".get_neighbors_by_distance", G + ".createNonPeriodicGeometry", name="geometry of integer points")
def _gpts(c):
    n = c.dim("n", 1, 4)
    x, y = c.arr("x", (n,), "i"), c.arr("y", (n,), "i")
    c.calls(lambda call, v: call(G + ".createNonPeriodicGeometry", v.x, v.y))
    one = lambda z: cor(eq(z, 1), eq(z, -1))
    c.ensures_scalar("number of sites", n, get=at("nsites"))
    c.ensures("x separations", (n, n), lambda i, j: x(i) - x(j), get=at("xdist_mat"))
    c.ensures("y separations", (n, n), lambda i, j: y(i) - y(j), get=at("ydist_mat"))
    c.ensures("bonds at unit distance", (n, n), lambda i, j: cor(cand(one(x(i) - x(j)), eq(y(i), y(j))), cand(one(y(i) - y(j)), eq(x(i), x(j)))), get=at("adjacency_mat"))
    c.ensures("no phases", (n, n), lambda i, j: E(1), get=at("phase_mat"))


@contract(P, G + ".__init__", G + ".validate_instance", G + ".createNonPeriodicGeometry", name="geometry with given bonds and phases")
def _ggiven(c):
    n = c.dim("n", 1, 4)
    x, y = c.arr("x", (n,)), c.arr("y", (n,))
    b, t = binary(c, "b", n), c.arr("t", (n, n))
    c.calls(lambda call, v: call(G + ".createNonPeriodicGeometry", v.x, v.y, symmetric(call, v.b), phases(call, v.t)))
    c.ensures("bonds", (n, n), lambda i, j: ite(le(j, i), b(i, j), b(j, i)), get=at("adjacency_mat"))
    c.ensures("phases", (n, n), lambda i, j: ite(lt(j, i), exp(X.I * t(i, j)), ite(lt(i, j), exp(-X.I * t(j, i)), E(1))), get=at("phase_mat"))
    c.ensures("x coordinates", (n,), x, get=at("xlocs"))
    c.ensures("y coordinates", (n,), y, get=at("ylocs"))


for why in ("asymmetric bonds", "bonds not 0 or 1", "phases not hermitian", "phases not of unit modulus"):
    @contract(P, G + ".__init__", G + ".validate_instance", G + ".validate_adjacency_mat", G + ".validate_phase_mat", name=f"geometry with {why} is rejected")
    def _gbad(c, why=why):
        n = c.dim("n", 2, 4)
        c.arr("x", (n,)), c.arr("y", (n,))
        i, j = c.integer("i", 0, 3), c.integer("j", 0, 3)
        c.requires(le(0, i), lt(i, n), le(0, j), lt(j, n))
        if "bonds" in why:
            a = c.arr("a", (n, n), sample=lambda r, s, q: r.integers(0, 3, size=q) * 1.)
            c.requires(cnot(eq(a(i, j), a(j, i))) if "asym" in why else cand(cnot(eq(a(i, j), 0)), cnot(eq(a(i, j), 1))))
            c.calls(lambda call, v: call(G, v.x, v.y, v.a))
        else:
            binary(c, "b", n)
            a = c.arr("a", (n, n), "c", sample=lambda r, s, q: np.exp(1j * r.integers(0, 4, size=q) * np.pi / 2) * (1 if "herm" in why else r.integers(1, 3, size=q)))
            c.requires(cnot(eq(a(i, j), X.conj(a(j, i)))) if "herm" in why else cnot(eq(X.absv(a(i, j)), 1)))
            c.calls(lambda call, v: call(G, v.x, v.y, symmetric(call, v.b), v.a))
        c.setup.append(lambda I: S.WITNESS.__setitem__(slice(None), [(i, j), (j, i)]))
        c.raises(TRUE)


@contract(P, G + ".createRegularPolygonGeometry", name="regular polygon")
def _poly(c):
    n = c.dim("n", 3, 7)
    c.calls(lambda call, v: call(G + ".createRegularPolygonGeometry", v.n))
    d = HALF * inv(X.sin(X.PI * inv(n)))
    c.ensures("x coordinates", (n,), lambda k: d * X.sin(2 * X.PI * k * inv(n)), get=at("xlocs"))
    c.ensures("y coordinates", (n,), lambda k: d * X.cos(2 * X.PI * k * inv(n)), get=at("ylocs"))
    nxt = lambda i, j: cor(eq(j, i + 1), cand(eq(i, n - 1), eq(j, 0)))
    c.ensures("bonds around the ring", (n, n), lambda i, j: cor(nxt(i, j), nxt(j, i)), get=at("adjacency_mat"))
