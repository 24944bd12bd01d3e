"""C03: spin matrices, couplings and fields, spin Hamiltonian and operators (ed_spins)"""
from ..contract import *
from ..expr import exp, conj, sqrt
from .. import ops
P = "C03"
F = "ed_spins.spinSystem"
M = F + "."
B = "ed_base.ed_base."


def spin(c, lo=1, hi=5):
    m = c.dim("m", lo, hi)            # spin = m / 2
    return m, m * HALF, m + 1


def root(m, i):
    """sqrt((s - mz)(s + mz + 1)) for the transition between rows i and i + 1"""
    return sqrt((E(i) + 1) * (m - E(i)))


def up(m, i, j):
    return X.ite(eq(E(j), E(i) + 1), root(m, i), 0)


def dn(m, i, j):
    return X.ite(eq(E(i), E(j) + 1), root(m, j), 0)


MATS = {
    "get_splus": lambda m: lambda i, j: up(m, i, j),
    "get_sminus": lambda m: lambda i, j: dn(m, i, j),
    "get_sx": lambda m: lambda i, j: HALF * (up(m, i, j) + dn(m, i, j)),
    "get_sy": lambda m: lambda i, j: -Iu * HALF * (up(m, i, j) - dn(m, i, j)),
    "get_sz": lambda m: lambda i, j: X.ite(eq(E(i), E(j)), m * HALF - i, 0),
}
for fn_, spec in MATS.items():
    @contract(P, M + fn_, name=f"spin matrix {fn_[4:]}")
    def _mat(c, fn_=fn_, spec=spec):
        m, s, d = spin(c)
        c.calls(lambda call, v: call.method(call.obj(F), fn_, v.m / 2))
        c.ensures("matrix", (d, d), spec(m))


def mats(call, v):
    o = call.obj(F)
    s = v.m / 2
    return [call.method(o, k, s) for k in ("get_sx", "get_sy", "get_sz", "get_splus", "get_sminus")]


@contract(P, M + "get_sx", M + "get_sy", M + "get_sz", M + "get_splus", M + "get_sminus", name="su(2) algebra for every spin")
def _su2(c):
    m, s, d = spin(c)
    c.calls(lambda call, v: mats(call, v))
    com = lambda a, b: lambda r: r[a].dot(r[b]) - r[b].dot(r[a])
    sx, sy, sz, sp_, sm = [MATS[k](m) for k in ("get_sx", "get_sy", "get_sz", "get_splus", "get_sminus")]
    c.ensures("[Sx, Sy] = i Sz", (d, d), lambda i, j: Iu * sz(i, j), get=com(0, 1))
    c.ensures("[Sy, Sz] = i Sx", (d, d), lambda i, j: Iu * sx(i, j), get=com(1, 2))
    c.ensures("[Sz, Sx] = i Sy", (d, d), lambda i, j: Iu * sy(i, j), get=com(2, 0))
    c.ensures("[Sz, S+] = S+", (d, d), sp_, get=com(2, 3))
    c.ensures("[S+, S-] = 2 Sz", (d, d), lambda i, j: 2 * sz(i, j), get=com(3, 4))
    c.ensures("total spin", (d, d), lambda i, j: X.ite(eq(i, j), s * (s + 1), 0), get=lambda r: r[0].dot(r[0]) + r[1].dot(r[1]) + r[2].dot(r[2]))
    c.ensures("S- is the adjoint of S+", (d, d), sm, get=lambda r: r[3].conj().transpose())


# ---- Hamiltonian
def czero(rng, syms, sh):
    return (rng.normal(size=sh) + 1j * rng.normal(size=sh)) * rng.integers(0, 2, size=sh)


def rzero(rng, syms, sh):
    return rng.normal(size=sh) * rng.integers(0, 2, size=sh)


def symz(rng, syms, sh):
    a = np.tril(rng.normal(size=sh) * rng.integers(0, 2, size=sh))
    return a + a.T


def herm(rng, syms, sh):
    a = rng.normal(size=sh) + 1j * rng.normal(size=sh)
    return a + a.conj().T


def system(c, maxn=3, local="c", props=(), sample=None):
    n, d = c.dim("n", 1, maxn), c.dim("d", 2, 3)
    c.setup.append(ops.op_mode(d, n, 1))
    ops.callee_contracts(c)
    S_ = [c.arr(k, (d, d), local, props, sample=sample) and c.arrs[k] for k in ("sx", "sy", "sz")]
    return n, d, S_


def make(call, v, **attrs):
    return call.obj(F, geometry=call.obj("ed_geometry.Geometry", nsites=v.n), nbasis=v.d, nstates=v.d ** v.n, sx=v.sx, sy=v.sy, sz=v.sz, **attrs)


def ham(n, S_, js, hs):
    r = E(0)
    for m, j, h in zip(S_, js, hs):
        r = r - ssum(0, n, lambda i: h(i) * ops.W("boson", m, i)) + 2 * ssum(0, n, lambda i: ssum(0, i, lambda k: j(i, k) * ops.W("boson", m, i) * ops.W("boson", m, k)))
    return r


for proj in (False, True):
    @contract(P, M + "createH", name=f"spin Hamiltonian, {'projected' if proj else 'full'}")
    def _H(c, proj=proj):
        n, d, S_ = system(c)
        D = X.power(d, n)
        js = [c.arr(k, (n, n), "c", sample=czero) for k in ("jx", "jy", "jz")]
        hs = [c.arr(k, (n,), "c", sample=czero) for k in ("hx", "hy", "hz")]
        Pr = c.op("proj", c.dim("q", 1, 5), D) if proj else None
        c.calls(lambda call, v: call(M + "createH", make(call, v, jx=v.jx, jy=v.jy, jz=v.jz, hx=v.hx, hy=v.hy, hz=v.hz), **(dict(projector=v.proj) if proj else {})))

        def want():
            H = ops.Op(ham(n, S_, js, hs), D, D)
            return Pr * H * Pr.getH() if proj else H
        c.ensures_op("twice the pair sum minus the field sum", want)


def near0(x):
    return abs(x).max() < 1e-9


@contract(P, M + "createH", name="the spin Hamiltonian is Hermitian for real couplings and fields")
def _herm(c):
    n, d, S_ = system(c, props=("hermitian",), sample=herm)
    for k in ("jx", "jy", "jz"):
        c.arr(k, (n, n), sample=symz)
    for k in ("hx", "hy", "hz"):
        c.arr(k, (n,), sample=rzero)
    c.calls(lambda call, v: call(M + "createH", make(call, v, jx=v.jx, jy=v.jy, jz=v.jz, hx=v.hx, hy=v.hy, hz=v.hz)))
    c.ensures_cond("H equals its adjoint", lambda r, v, sy: (X.TRUE if r.equals(r.getH()) is None else X.FALSE) if sy else near0(r - r.conj().transpose()))


@contract(P, M + "get_sum_op", B + "get_sum_op", name="sum over sites of one local operator")
def _sum(c):
    n, d, S_ = system(c)
    c.arr("op", (d, d), "c")
    c.calls(lambda call, v: call(M + "get_sum_op", make(call, v), v.op))
    c.ensures_op("sum over sites", lambda: ops.Op(ssum(0, n, lambda i: ops.W("boson", c.arrs["op"], i)), X.power(d, n), X.power(d, n)))


@contract(P, M + "get_allsite_op", name="product over all sites of one local operator")
def _all(c):
    n, d = c.dim("n", 1, 3), c.dim("d", 2, 3)
    c.setup.append(ops.kron_mode(d))
    c.arr("op", (d, d), "c")
    c.calls(lambda call, v: call(M + "get_allsite_op", call.obj(F, geometry=call.obj("ed_geometry.Geometry", nsites=v.n), nbasis=v.d, nspecies=1), v.op))
    c.ensures_op("tensor power", lambda: ops.Kron([(c.arrs["op"], n)]))


@contract(P, M + "get_swap_up_down_op", name="global flip maps basis state k to N - 1 - k")
def _flip(c):
    N_ = c.dim("N", 1, 9)
    c.calls(lambda call, v: call(M + "get_swap_up_down_op", call.obj(F, nstates=v.N)))
    c.ensures("anti-diagonal", (N_, N_), lambda i, j: X.indicator(eq(i + j, N_ - 1)))


# ---- couplings, fields, constructor
def geometry(c, n):
    def phs(rng, syms, sh):
        a = np.exp(1j * rng.uniform(-3, 3, size=sh)); a = np.triu(a, 1)
        return a + a.conj().T + np.eye(sh[0])

    def adj(rng, syms, sh):
        a = np.triu(rng.integers(0, 2, size=sh), 1)
        return (a + a.T).astype(float)
    return c.arr("adj", (n, n), "f", ("symmetric",), sample=adj), c.arr("ph", (n, n), "c", ("hermitian",), sample=phs)


def geo(call, v, **k):
    return call.obj("ed_geometry.Geometry", nsites=v.n, adjacency_mat=v.adj, phase_mat=v.ph, **k)


def ring(n, j):
    """bond i joins sites i and i + 1, the last bond joins the last and the first site"""
    def f(i, k):
        return ite(cor(cand(eq(i, 0), eq(k, n - 1)), cand(eq(k, 0), eq(i, n - 1))), j(n - 1), ite(eq(k, i + 1), j(i), ite(eq(i, k + 1), j(k), 0)))
    return f


def coupling(c, n, A, Ph, form, nm="j"):
    if form == "number":
        j = c.real(nm)
        return lambda i, k: j * A(i, k) * Ph(i, k)
    if form == "zero":
        return lambda i, k: E(0)
    if form == "matrix":
        return c.arr(nm, (n, n), "c")
    return ring(n, c.arr(nm, (n,)))


for form in ("number", "matrix", "ring"):
    @contract(P, M + "get_interaction_mat", name=f"coupling matrix from {form}")
    def _im(c, form=form):
        n = c.dim("n", 2, 5)
        A, Ph = geometry(c, n)
        f = coupling(c, n, A, Ph, form)
        c.calls(lambda call, v: call(M + "get_interaction_mat", call.obj(F, geometry=geo(call, v)), v.j))
        c.ensures("coupling", (n, n), f)


@contract(P, M + "get_interaction_mat", name="coupling of another size is rejected")
def _imbad(c):
    n, k = c.dim("n", 1, 5), c.dim("k", 1, 5)
    A, Ph = geometry(c, n)
    c.arr("j", (k,))
    c.requires(cnot(eq(k, n)))
    c.calls(lambda call, v: call(M + "get_interaction_mat", call.obj(F, geometry=geo(call, v)), v.j))
    c.raises(TRUE)


@contract(P, M + "get_interaction_mat_c6", name="couplings falling with the sixth power of the distance")
def _c6(c):
    n = c.dim("n", 1, 4)
    x, y, C = c.arr("x", (n, n), sample=lambda r, s, sh: r.integers(-2, 3, size=sh) * 1.), c.arr("y", (n, n), sample=lambda r, s, sh: r.integers(-2, 3, size=sh) * 1.), c.real("C")
    c.calls(lambda call, v: call(M + "get_interaction_mat_c6", call.obj(F, geometry=call.obj("ed_geometry.Geometry", nsites=v.n, xdist_mat=v.x, ydist_mat=v.y)), v.C))
    c.ensures("C6 / r^6, zero at zero distance", (n, n), lambda i, j: ite(eq(sqrt(x(i, j) ** 2 + y(i, j) ** 2), 0), 0, C * X.inv(sqrt(x(i, j) ** 2 + y(i, j) ** 2)) ** 6))


for form in ("number", "array"):
    @contract(P, M + "get_field_mat", name=f"fields from {form}")
    def _fm(c, form=form):
        n = c.dim("n", 1, 4)
        if form == "number":
            h = c.real("h"); f = lambda i: h
        else:
            f = c.arr("h", (n,))
        c.calls(lambda call, v: call(M + "get_field_mat", call.obj(F, geometry=call.obj("ed_geometry.Geometry", nsites=v.n)), v.h))
        c.ensures("fields", (n,), f)


@contract(P, M + "get_field_mat", name="fields of another size are rejected")
def _fmbad(c):
    n, k = c.dim("n", 1, 5), c.dim("k", 1, 5)
    c.arr("h", (k,))
    c.requires(cnot(eq(k, n)))
    c.calls(lambda call, v: call(M + "get_field_mat", call.obj(F, geometry=call.obj("ed_geometry.Geometry", nsites=v.n)), v.h))
    c.raises(TRUE)


@contract(P, M + "get_rydberg_detunes", name="Rydberg shift is minus the summed coupling of the site")
def _ryd(c):
    n = c.dim("n", 1, 5)
    j = c.arr("j", (n, n))
    c.calls(lambda call, v: call(M + "get_rydberg_detunes", call.obj(F, geometry=call.obj("ed_geometry.Geometry", nsites=v.n)), v.j))
    c.ensures("shift", (n,), lambda i: -ssum(0, n, lambda k: j(i, k)), dt="real")


def at(name):
    return lambda r: r.attrs[name] if hasattr(r, "attrs") else getattr(r, name)


@contract(P, M + "__init__", M + "get_interaction_mat", M + "get_field_mat", M + "get_rydberg_detunes", name="constructor: couplings, fields, local dimension")
def _init(c):
    n = c.dim("n", 2, 4)
    m = c.dim("m", 1, 3)
    A, Ph = geometry(c, n)
    c.setup.append(ops.op_mode(m + 1, n, 1))
    fx = coupling(c, n, A, Ph, "number", "jx")
    fy = coupling(c, n, A, Ph, "matrix", "jy")
    fz = coupling(c, n, A, Ph, "ring", "jz")
    hx, hy = c.real("hx"), c.arr("hy", (n,))
    c.calls(lambda call, v: call(F, geo(call, v), v.jx, v.jy, v.jz, v.hx, v.hy, spin=v.m / 2))
    for nm, f in (("jx", fx), ("jy", fy), ("jz", fz)):
        c.ensures(nm, (n, n), f, get=at(nm))
    c.ensures("hx", (n,), lambda i: hx, get=at("hx"))
    c.ensures("hy", (n,), hy, get=at("hy"))
    c.ensures("hz", (n,), lambda i: E(0), get=at("hz"))
    c.ensures_scalar("local dimension", m + 1, get=at("nbasis"))
    c.ensures_scalar("number of states", X.power(m + 1, n), get=at("nstates"))
    for k in ("sx", "sy", "sz"):
        c.ensures(k, (m + 1, m + 1), MATS["get_" + k](m), get=at(k))


@contract(P, M + "__init__", M + "get_rydberg_detunes", name="constructor: Rydberg shift of the z fields")
def _initr(c):
    n = c.dim("n", 2, 4)
    A, Ph = geometry(c, n)
    c.setup.append(ops.op_mode(2, n, 1))
    j = c.arr("jz", (n, n))
    hz = c.arr("hz", (n,))
    c.calls(lambda call, v: call(F, geo(call, v), 0., 0., v.jz, 0., 0., v.hz, use_ryd_detunes=True))
    c.ensures("hz", (n,), lambda i: hz(i) - ssum(0, n, lambda k: j(i, k)), get=at("hz"))
