"""C07: reduction of vectors to a unit cell (ed_geometry)"""
from ..contract import *
from ..expr import inv, floor
P = "C07"
F = "ed_geometry."
LAT = F + "Lattice."


def vec(c, nm, zero, sample=None):
    """a 2 x 1 vector; zero: the vector 0, else any nonzero vector"""
    w = c.arr(nm, (2, 1), sample=(lambda r, s, q: np.zeros(q)) if zero else (sample or (lambda r, s, q: r.integers(-3, 4, size=q) * 1. if r.random() < .6 else r.normal(size=q))))
    v = (w(0, 0), w(1, 0))
    if zero:
        c.requires(eq(v[0], 0), eq(v[1], 0))
    else:
        c.requires(cor(cnot(eq(v[0], 0)), cnot(eq(v[1], 0))))
    return v


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def det(a, b):
    return a[0] * b[1] - a[1] * b[0]


def coords(a, b, z1, z2):
    """components of a vector along the two period vectors (dual basis)"""
    if z1 and z2:
        return (lambda v: E(0)), (lambda v: E(0))
    if z2:
        return (lambda v: dot(a, v) * inv(dot(a, a))), (lambda v: E(0))
    if z1:
        return (lambda v: E(0)), (lambda v: dot(b, v) * inv(dot(b, b)))
    d = inv(det(a, b))
    return (lambda v: (v[0] * b[1] - v[1] * b[0]) * d), (lambda v: (a[0] * v[1] - a[1] * v[0]) * d)


CASES = {"two periods": (0, 0), "first period only": (0, 1), "second period only": (1, 0), "no period": (1, 1)}


def setting(c, z1, z2):
    a, b = vec(c, "a", z1), vec(c, "b", z2)
    if not z1 and not z2:
        c.requires(cnot(eq(det(a, b), 0)))
    return a, b


for case, (z1, z2) in CASES.items():
    for mode, shift in (("positive", E(0)), ("centered", HALF)):
        @contract((P, "C05", "C08"), F + "reduce_vectors", F + "ensure_column_vect", F + "ensure_row_vect", name=f"reduce_vectors {mode}, {case}")
        def _red(c, z1=z1, z2=z2, mode=mode, shift=shift):
            n = c.dim("n", 1, 4)
            a, b = setting(c, z1, z2)
            x, y = c.arr("x", (n,), sample=lambda r, s, q: r.integers(-4, 5, size=q) / 2.), c.arr("y", (n,), sample=lambda r, s, q: r.integers(-4, 5, size=q) / 2.)
            c.calls(lambda call, v: call(F + "reduce_vectors", v.a, v.b, v.x, v.y, mode=mode))
            p1, p2 = coords(a, b, z1, z2)
            n1 = lambda i: floor(p1((x(i), y(i))) + (0 if z1 else shift))
            n2 = lambda i: floor(p2((x(i), y(i))) + (0 if z2 else shift))
            c.ensures("number of first periods", (1, n), lambda k, i: n1(i), get=lambda r: r[2])
            c.ensures("number of second periods", (1, n), lambda k, i: n2(i), get=lambda r: r[3])
            c.ensures("x minus whole periods", (n,), lambda i: x(i) - n1(i) * a[0] - n2(i) * b[0], get=lambda r: r[0])
            c.ensures("y minus whole periods", (n,), lambda i: y(i) - n1(i) * a[1] - n2(i) * b[1], get=lambda r: r[1])
            i = X.sym("ii", "int", "real")
            rx, ry = x(i) - n1(i) * a[0] - n2(i) * b[0], y(i) - n1(i) * a[1] - n2(i) * b[1]
            for k, (p, z, m) in enumerate(((p1, z1, n1), (p2, z2, n2))):
                if not z:
                    c.lemma(f"component {k + 1} of the result is the component less the whole periods", lambda: [], lambda p=p, m=m: p((rx, ry)) - p((x(i), y(i))) + m(i))
                    c.lemma(f"component {k + 1} of the result lies in the stated cell", lambda: [], lambda p=p, m=m: cand(le(-shift, p((x(i), y(i))) - m(i)), lt(p((x(i), y(i))) - m(i), 1 - shift)))


@contract(P, F + "reduce_vectors", name="reduce_vectors: default mode, numbers, lists and rows as input")
def _forms(c):
    a, b = setting(c, 0, 0)
    x, y = c.real("x"), c.real("y")
    a1, b1 = c.arr("a1", (2,), sample=lambda r, s, q: r.normal(size=q)), c.arr("b1", (1, 2), sample=lambda r, s, q: r.normal(size=q))
    c.requires(cnot(eq(det((a1(0), a1(1)), (b1(0, 0), b1(0, 1))), 0)))
    c.calls(lambda call, v: (call(F + "reduce_vectors", v.a, v.b, v.x, v.y), call(F + "reduce_vectors", v.a1, v.b1, [v.x, v.y], [v.y, v.x], "positive")))
    p1, p2 = coords(a, b, 0, 0)
    n1, n2 = floor(p1((x, y))), floor(p2((x, y)))
    c.ensures("one point", (1, 1), lambda k, i: n1, get=lambda r: r[0][2])
    c.ensures("x", (1,), lambda i: x - n1 * a[0] - n2 * b[0], get=lambda r: r[0][0])
    c.ensures("y", (1,), lambda i: y - n1 * a[1] - n2 * b[1], get=lambda r: r[0][1])
    A, B = (a1(0), a1(1)), (b1(0, 0), b1(0, 1))
    q1, q2 = coords(A, B, 0, 0)
    pt = lambda i: (ite(eq(i, 0), x, y), ite(eq(i, 0), y, x))
    m1, m2 = (lambda i: ite(eq(i, 0), floor(q1((x, y))), floor(q1((y, x))))), (lambda i: ite(eq(i, 0), floor(q2((x, y))), floor(q2((y, x)))))
    c.ensures("two points: second periods", (1, 2), lambda k, i: m2(i), get=lambda r: r[1][3])
    c.ensures("two points: x", (2,), lambda i: pt(i)[0] - m1(i) * A[0] - m2(i) * B[0], get=lambda r: r[1][0])


@contract(P, F + "reduce_vectors", name="reduce_vectors: unknown mode is an error")
def _badmode(c):
    n = c.dim("n", 1, 3)
    setting(c, 0, 0)
    c.arr("x", (n,)), c.arr("y", (n,))
    c.calls(lambda call, v: call(F + "reduce_vectors", v.a, v.b, v.x, v.y, mode="other"))
    c.raises(TRUE)


for form, sh in {"vector": lambda n: (n,), "row": lambda n: (1, n), "column": lambda n: (n, 1)}.items():
    @contract(P, F + "ensure_column_vect", F + "ensure_row_vect", F + "ensure_1d_vect", name=f"vector shapes from a {form}")
    def _shapes(c, form=form, sh=sh):
        n = c.dim("n", 1, 5)
        w = c.arr("w", sh(n))
        g = {"vector": lambda i: w(i), "row": lambda i: w(0, i), "column": lambda i: w(i, 0)}[form]
        c.calls(lambda call, v: tuple(call(F + f"ensure_{k}_vect", v.w) for k in ("column", "row", "1d")))
        c.ensures("column", (n, 1), lambda i, j: g(i), get=lambda r: r[0])
        c.ensures("row", (1, n), lambda i, j: g(j), get=lambda r: r[1])
        c.ensures("1d", (n,), lambda i: g(i), get=lambda r: r[2])


for case, (z1, z2) in CASES.items():
    @contract((P, "C08"), F + "get_reciprocal_vects", name=f"reciprocal vectors, {case}")
    def _rec(c, z1=z1, z2=z2):
        a, b = vec(c, "a", z1), vec(c, "b", z2)
        c.calls(lambda call, v: call(F + "get_reciprocal_vects", v.a, v.b))
        if not z1 and not z2:
            c.raises(eq(det(a, b), 0))
        p1, p2 = coords(a, b, z1, z2)
        unit = lambda k: (E(1), E(0)) if k == 0 else (E(0), E(1))
        for k, (p, nm) in enumerate(((p1, "first"), (p2, "second"))):
            c.ensures(f"{nm} dual vector", (2, 1), lambda i, j, p=p: ite(eq(i, 0), p(unit(0)), p(unit(1))), get=lambda r, k=k: r[k])
        for nm, p, v, z, want in (("a1.b1 = 1", p1, a, z1, 1), ("a2.b2 = 1", p2, b, z2, 1), ("a2.b1 = 0", p1, b, z1 or z2, 0), ("a1.b2 = 0", p2, a, z1 or z2, 0)):
            if not z:
                c.lemma(nm, lambda: [cnot(eq(det(a, b), 0))] if not z1 and not z2 else [], lambda p=p, v=v, want=want: p(v) - want)


@contract(P, LAT + "reduce_to_unit_cell", F + "reduce_vectors", name="reduction to the lattice cell uses the period vectors")
def _cell(c):
    n = c.dim("n", 1, 4)
    a, b = setting(c, 0, 0)
    x, y = c.arr("x", (n,)), c.arr("y", (n,))
    p1, p2 = coords(a, b, 0, 0)

    def run(call, v):
        L = call.obj(F + "Lattice", periodicity_vect1=v.a, periodicity_vect2=v.b)
        return call.method(L, "reduce_to_unit_cell", v.x, v.y), call.method(L, "reduce_to_unit_cell", v.x, v.y, "centered")
    c.calls(run)
    for k, (sh, nm) in enumerate(((E(0), "default: positive"), (HALF, "centered"))):
        n1, n2 = (lambda i, sh=sh: floor(p1((x(i), y(i))) + sh)), (lambda i, sh=sh: floor(p2((x(i), y(i))) + sh))
        c.ensures("x, " + nm, (n,), lambda i, n1=n1, n2=n2: x(i) - n1(i) * a[0] - n2(i) * b[0], get=lambda r, k=k: r[k][0])
        c.ensures("y, " + nm, (n,), lambda i, n1=n1, n2=n2: y(i) - n1(i) * a[1] - n2(i) * b[1], get=lambda r, k=k: r[k][1])


@contract(P, F + "Geometry.get_site_distance", name="open separations")
def _open(c):
    n = c.dim("n", 1, 4)
    x, y = c.arr("x", (n,)), c.arr("y", (n,))
    c.calls(lambda call, v: call.method(call.obj(F + "Geometry", nsites=v.n, xlocs=v.x, ylocs=v.y), "get_site_distance"))
    c.ensures("x separation", (n, n), lambda i, j: x(i) - x(j), get=lambda r: r[0])
    c.ensures("y separation", (n, n), lambda i, j: y(i) - y(j), get=lambda r: r[1])


def reduction_contract(pairs, n=1):
    """callee contract of reduce_vectors: a function of the two vectors, the mode and the point alone (its value is what the
    reduce_vectors contracts state).  pairs: {tag: (first vector, second vector)} known at the call sites"""
    def stub(I, fn, loc):
        tag = None
        for t, vs in pairs.items():
            try:
                if all(X.iszero(S.numv(S.toarr(loc[k]).reshape([2])(E(q))) - v[q]) for k, v in zip(("vect1", "vect2"), vs) for q in (0, 1)):
                    tag = t
            except Unsupported:
                pass
        if tag is None:
            return NotImplemented
        xs, ys = (S.toarr(loc[k]).reshape([S.toarr(loc[k]).size]) for k in ("xlocs", "ylocs"))
        f = lambda nm, *pr: lambda i: reduced(nm, tag, loc["mode"], S.numv(xs(i)), S.numv(ys(i)))
        one = S.plain(E(1))
        return tuple(Arr([xs.axes[0]], lambda ix, g=f(nm): g(ix[0]), "f") for nm in ("x", "y")) + tuple(Arr([one, xs.axes[0]], lambda ix, g=f(nm): g(ix[1]), "f") for nm in ("n1", "n2"))
    return stub


def reduced(nm, tag, mode, x, y):
    return X.fn(f"red_{nm}_{tag}_{mode}", [E(x), E(y)], *(("int", "real") if nm[0] == "n" else ("real",)))


def with_reductions(c, pairs):
    """make the uninterpreted reductions computable for the sampled replays"""
    def fix(r, syms, fns, vals):
        from exact_diag import ed_geometry as eg
        for tag, (a, b) in pairs.items():
            A, B = (np.array([N.val(q, N.Env(syms, fns)) for q in v], float) for v in (a, b))
            for mode in ("positive", "centered"):
                for k, nm in enumerate(("x", "y", "n1", "n2")):
                    g = lambda x, y, A=A, B=B, mode=mode, k=k: float(np.ravel(spec_reduce(A, B, x, y, mode)[k])[0])
                    g.raw = True
                    fns[f"red_{nm}_{tag}_{mode}"] = g
    c.fixup.append(fix)


def spec_reduce(A, B, x, y, mode):
    """the specification of reduce_vectors, in numbers"""
    x, y = complex(x).real, complex(y).real
    v = np.array([x, y])
    za, zb = not A.any(), not B.any()
    M = np.zeros((2, 2))
    if not za and not zb:
        M = np.linalg.inv(np.array([A, B]).T)
    elif not za:
        M[0] = A / (A @ A)
    elif not zb:
        M[1] = B / (B @ B)
    nn = np.floor(np.round(M @ v, 10) + (.5 if mode == "centered" else 0))
    if za:
        nn[0] = 0
    if zb:
        nn[1] = 0
    w = v - nn[0] * A - nn[1] * B
    return w[0], w[1], nn[0], nn[1]


@contract((P, "C08"), LAT + "get_reduced_distance", name="pairwise separations")
def _dist(c):
    n = c.dim("n", 1, 4)
    a, b = vec(c, "a", 0, lambda r, s, q: np.array([[3.], [0.]])), vec(c, "b", 0, lambda r, s, q: np.array([[1.], [2.]]))
    l, m = vec(c, "l", 0, lambda r, s, q: np.array([[1.], [0.]])), vec(c, "m", 0, lambda r, s, q: np.array([[0.], [1.]]))
    pairs = {"period": (a, b), "lattice": (l, m)}
    c.stubs[F + "reduce_vectors"] = reduction_contract(pairs)
    with_reductions(c, pairs)
    whole = lambda r, s, q: r.integers(-5, 6, size=q) * 1.
    x, y = c.arr("x", (n,), sample=whole), c.arr("y", (n,), sample=whole)
    c.calls(lambda call, v: call.method(call.obj(F + "Lattice", periodicity_vect1=v.a, periodicity_vect2=v.b, lattice_vect1=v.l, lattice_vect2=v.m), "get_reduced_distance", v.x, v.y))

    def low(i, j):
        d = (x(i) - x(j), y(i) - y(j))
        r = tuple(reduced(k, "period", "centered", *d) for k in ("x", "y"))
        return r + tuple(reduced(k, "lattice", "centered", *r) for k in ("n1", "n2"))
    for k, nm in enumerate(("x", "y", "first lattice vectors", "second lattice vectors")):
        c.ensures(f"{nm}: centred reduction below the diagonal, antisymmetric", (n, n), lambda i, j, k=k: ite(lt(j, i), low(i, j)[k], ite(lt(i, j), -low(j, i)[k], 0)), get=lambda r, k=k: r[k])
