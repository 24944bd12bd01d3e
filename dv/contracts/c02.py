"""C02: the Hubbard Hamiltonian, its terms, projections, hopping and interaction matrices, current (ed_fermions)"""
from ..contract import *
from ..expr import exp, conj, sqrt
from .. import ops
P = "C02"
F = "ed_fermions.fermions"
M = "ed_fermions.fermions."
B = "ed_base.ed_base."
CD, C_, N_ = (lambda: ops.local(np.array([[0, 0], [1, 0]]))), (lambda: ops.local(np.array([[0, 1], [0, 0]]))), (lambda: ops.local(np.array([[0, 0], [0, 1]])))


def system(c, s=None, maxn=3):
    n = c.dim("n", 1, maxn)
    if s is None:
        s = c.dim("s", 1, 2)
    c.setup.append(ops.op_mode(2, n, s))
    ops.callee_contracts(c)
    return n, E(s)


def make(call, v, s=None, geo=None, **attrs):
    s = v.s if s is None else s
    return call.obj(F, geometry=call.obj("ed_geometry.Geometry", nsites=v.n, **(geo or {})), nspecies=s, nstates=2 ** (v.n * s), **attrs)


class Spec:
    def __init__(self, c, n, s, proj):
        self.n, self.s = n, s
        self.D = X.power(E(2), n * s)
        if proj:
            m = c.dim("m", 1, 5)
            self.P = c.op("proj", m, self.D)
        else:
            self.P = None

    def hop(self, i, j, k):
        return ops.W("fermion", CD(), i, k) * ops.W("fermion", C_(), j, k)

    def num(self, i, k):
        return ops.W("boson", N_(), i, k)

    def fin(self, e):
        if self.P is None:
            return ops.Op(e, self.D, self.D)
        return self.P * ops.Op(e, self.D, self.D) * self.P.getH()

    def kinetic(self, ts, w=lambda i, j: E(1)):
        f = lambda i, j, k: -w(i, j) * (ts(i, j, k) * self.hop(i, j, k) + conj(ts(i, j, k)) * self.hop(j, i, k))
        return ssum(0, self.n, lambda i: ssum(0, i, lambda j: ssum(0, self.s, lambda k: f(i, j, k))))

    def inter(self, u):
        return ssum(0, self.n, lambda i: u(i) * self.num(i, 0) * self.num(i, 1))

    def same(self, u):
        return ssum(0, self.n, lambda i: ssum(0, i + 1, lambda j: ssum(0, self.s, lambda k: u(i, j, k) * self.num(i, k) * self.num(j, k))))

    def pot(self, v):
        return ssum(0, self.n, lambda i: ssum(0, self.s, lambda k: v(i, k) * self.num(i, k)))

    def mu(self, m):
        return -ssum(0, self.n, lambda i: ssum(0, self.s, lambda k: m(k) * self.num(i, k)))


def sparse_zero(rng, syms, sh):
    """about half of the entries exactly zero"""
    return rng.normal(size=sh) * rng.integers(0, 2, size=sh)


def czero(rng, syms, sh):
    return (rng.normal(size=sh) + 1j * rng.normal(size=sh)) * rng.integers(0, 2, size=sh)


def pr(v, proj):
    return dict(projector=v.proj) if proj else {}


for proj in (False, True):
    t = "projected" if proj else "full"

    @contract(P, M + "get_kinetic_op", name=f"kinetic term, {t}")
    def _kin(c, proj=proj):
        n, s = system(c)
        sp_ = Spec(c, n, s, proj)
        ts = c.arr("ts", (n, n, s), "c", sample=czero)
        c.calls(lambda call, v: call(M + "get_kinetic_op", make(call, v, ts=v.ts), direction_vect=None, **pr(v, proj)))
        c.ensures_op("minus the sum over pairs and species plus its conjugate", lambda: sp_.fin(sp_.kinetic(ts)))

    @contract(P, M + "get_kinetic_op", name=f"kinetic term weighted along a direction, {t}")
    def _kind(c, proj=proj):
        n, s = system(c)
        sp_ = Spec(c, n, s, proj)
        ts = c.arr("ts", (n, n, s), "c", sample=czero)
        x, y, e = c.arr("x", (n, n)), c.arr("y", (n, n)), c.arr("e", (2,))
        c.calls(lambda call, v: call(M + "get_kinetic_op", make(call, v, geo=dict(xdist_mat=v.x, ydist_mat=v.y), ts=v.ts), direction_vect=v.e, **pr(v, proj)))
        c.ensures_op("weighted by the extent along the direction", lambda: sp_.fin(sp_.kinetic(ts, lambda i, j: sqrt((e(0) * x(i, j)) ** 2 + (e(1) * y(i, j)) ** 2))))

    for form in ("number", "array"):
        @contract(P, M + "get_u_interspecies_op", name=f"inter-species interaction, {form}, {t}")
        def _ui(c, proj=proj, form=form):
            n, s = system(c, 2)
            sp_ = Spec(c, n, s, proj)
            if form == "number":
                u0 = c.real("u")
                u = lambda i: u0
            else:
                u = c.arr("u", (n,), sample=sparse_zero)
            c.calls(lambda call, v: call(M + "get_u_interspecies_op", make(call, v, 2), v.u, **pr(v, proj)))
            c.ensures_op("sum of u n n", lambda: sp_.fin(sp_.inter(u)))

    @contract(P, M + "get_u_samespecies_op", name=f"same-species interaction, {t}")
    def _us(c, proj=proj):
        n, s = system(c)
        sp_ = Spec(c, n, s, proj)
        u = c.arr("u", (n, n, s), sample=sparse_zero)
        c.calls(lambda call, v: call(M + "get_u_samespecies_op", make(call, v), v.u, **pr(v, proj)))
        c.ensures_op("each pair once", lambda: sp_.fin(sp_.same(u)))

    @contract(P, M + "get_potential_op", name=f"site potential, {t}")
    def _pot(c, proj=proj):
        n, s = system(c)
        sp_ = Spec(c, n, s, proj)
        w = c.arr("w", (n, s), sample=sparse_zero)
        c.calls(lambda call, v: call(M + "get_potential_op", make(call, v), v.w, **pr(v, proj)))
        c.ensures_op("sum of v n", lambda: sp_.fin(sp_.pot(w)))

    @contract(P, M + "get_chemical_pot_op", name=f"chemical potential, {t}")
    def _mu(c, proj=proj):
        n, s = system(c)
        sp_ = Spec(c, n, s, proj)
        mu = c.arr("mu", (s,), sample=sparse_zero)
        c.calls(lambda call, v: call(M + "get_chemical_pot_op", make(call, v), v.mu, **pr(v, proj)))
        c.ensures_op("minus the sum of mu n", lambda: sp_.fin(sp_.mu(mu)))

    for two in (False, True):
        @contract(P, M + "createH", M + "get_kinetic_op", M + "get_u_interspecies_op", M + "get_u_samespecies_op", M + "get_potential_op", M + "get_chemical_pot_op", name=f"Hamiltonian, {'two or more species' if two else 'any number of species without inter-species interaction'}, {t}")
        def _H(c, proj=proj, two=two):
            n, s = system(c, None, 2)
            sp_ = Spec(c, n, s, proj)
            ts = c.arr("ts", (n, n, s), "c", sample=czero)
            if two:
                c.requires(le(2, s))
                u = c.arr("u", (n,), sample=sparse_zero)
            else:
                u = lambda i: E(0)
            us = c.arr("us", (n, n, s), sample=sparse_zero)
            mu = c.arr("mu", (s,), sample=sparse_zero)
            w = c.arr("w", (n, s), sample=sparse_zero)

            def run(call, v):
                ui = v.u if two else call.np.zeros(v.n)
                o = make(call, v, ts=v.ts, us_interspecies=ui, us_same_species=v.us, mus=v.mu, potentials=v.w)
                return call(M + "createH", o, **pr(v, proj))
            c.calls(run)
            c.ensures_op("sum of all terms", lambda: sp_.fin(sp_.kinetic(ts) + sp_.inter(u) + sp_.same(us) + sp_.mu(mu) + sp_.pot(w)))


@contract(P, M + "get_current_op", name="current along a direction")
def _cur(c):
    n, s = system(c)
    sp_ = Spec(c, n, s, False)
    ts = c.arr("ts", (n, n, s), "c", sample=czero)
    x, y, e = c.arr("x", (n, n)), c.arr("y", (n, n)), c.arr("e", (2,))
    c.calls(lambda call, v: call(M + "get_current_op", make(call, v, geo=dict(xdist_mat=v.x, ydist_mat=v.y), ts=v.ts), v.e))
    c.ensures_op("i times the sum of t d cdag c", lambda: sp_.fin(Iu * ssum(0, n, lambda i: ssum(0, n, lambda j: ssum(0, s, lambda k: ts(i, j, k) * (e(0) * x(i, j) + e(1) * y(i, j)) * sp_.hop(i, j, k))))))


def hubbard(c, real_u=True):
    n, s = system(c, None, 2)
    ts = c.arr("ts", (n, n, s), "c", sample=czero)
    c.requires(le(2, s))
    c.arr("u", (n,), sample=sparse_zero); c.arr("us", (n, n, s), sample=sparse_zero); c.arr("mu", (s,), sample=sparse_zero); c.arr("w", (n, s), sample=sparse_zero)
    return n, s, lambda call, v: make(call, v, ts=v.ts, us_interspecies=v.u, us_same_species=v.us, mus=v.mu, potentials=v.w)


def near0(x):
    return abs(x).max() < 1e-9


@contract(P, M + "createH", name="the Hamiltonian is Hermitian for real potentials and any hopping array")
def _herm(c):
    n, s, mk = hubbard(c)
    c.calls(lambda call, v: call(M + "createH", mk(call, v)))
    c.ensures_cond("H equals its adjoint", lambda r, v, sy: (X.TRUE if r.equals(r.getH()) is None else X.FALSE) if sy else near0(r - r.conj().transpose()))


@contract(P, M + "createH", B + "get_sum_op", name="particle number of each species is conserved")
def _cons(c):
    n, s, mk = hubbard(c)
    a = c.integer("a", 0, 1)
    c.requires(le(0, a), lt(a, s))

    def run(call, v):
        o = mk(call, v)
        g = (lambda x, y: call.I.getattr(x, y)) if call.symbolic else getattr
        return call(M + "createH", o), call(B + "get_sum_op", o, g(o, "n_op"), v.a, format="boson")
    c.calls(run)
    c.ensures_cond("commutes with the number operator", lambda r, v, sy: (X.TRUE if X.iszero(ops.commutator(r[1].e, r[0].e)) else X.FALSE) if sy else near0(r[0].dot(r[1]) - r[1].dot(r[0])))


# ---- construction: every admissible form of the parameters
def at(name):
    return lambda r: r.attrs[name] if hasattr(r, "attrs") else getattr(r, name)


def geometry(c, n):
    """adjacency symmetric and real, phases Hermitian (class invariants of Geometry)"""
    def herm(rng, syms, sh):
        a = np.exp(1j * rng.uniform(-3, 3, size=sh)); a = np.triu(a, 1)
        return a + a.conj().T + np.eye(sh[0])

    def symm(rng, syms, sh):
        a = np.triu(rng.integers(0, 2, size=sh), 1)
        return (a + a.T).astype(float)
    A = c.arr("adj", (n, n), "f", ("symmetric",), sample=symm)
    Ph = c.arr("ph", (n, n), "c", ("hermitian",), sample=herm)
    return A, Ph


def geo(call, v):
    return call.obj("ed_geometry.Geometry", nsites=v.n, adjacency_mat=v.adj, phase_mat=v.ph)


for form in ("one number", "length one", "per species"):
    @contract(P, M + "get_hopping_mat", name=f"hopping matrix from {form}")
    def _hm(c, form=form):
        n, s = c.dim("n", 1, 4), c.dim("s", 1, 3)
        A, Ph = geometry(c, n)
        t = c.arr("t", {"one number": (), "length one": (1,), "per species": (s,)}[form])
        tv = {"one number": lambda k: t(), "length one": lambda k: t(0), "per species": lambda k: t(k)}[form]
        c.calls(lambda call, v: call(M + "get_hopping_mat", call.obj(F, geometry=geo(call, v), nspecies=v.s), v.t))
        c.ensures("t times adjacency times phase", (n, n, s), lambda i, j, k: tv(k) * A(i, j) * Ph(i, j))

    @contract(P, M + "get_samespecies_int_mat", name=f"same-species interaction matrix from {form}")
    def _im(c, form=form):
        n, s = c.dim("n", 1, 4), c.dim("s", 1, 3)
        A, Ph = geometry(c, n)
        t = c.arr("t", {"one number": (), "length one": (1,), "per species": (s,)}[form])
        tv = {"one number": lambda k: t(), "length one": lambda k: t(0), "per species": lambda k: t(k)}[form]
        c.calls(lambda call, v: call(M + "get_samespecies_int_mat", call.obj(F, geometry=geo(call, v), nspecies=v.s), v.t))
        c.ensures("strength times adjacency", (n, n, s), lambda i, j, k: tv(k) * A(i, j))


def init(c, s=None):
    n = c.dim("n", 1, 3)
    s = c.dim("s", 1, 2) if s is None else E(s)
    c.setup.append(ops.op_mode(2, n, s))
    A, Ph = geometry(c, n)
    return n, s, A, Ph


INIT = M + "__init__"
for form in ("number", "per species", "array", "matrix"):
    s0 = 1 if form == "matrix" else None
    sv = (lambda v: 1) if form == "matrix" else (lambda v: v.s)

    @contract(P, INIT, M + "get_hopping_mat", name=f"constructor, hopping given as {form}")
    def _it(c, form=form, s0=s0, sv=sv):
        n, s, A, Ph = init(c, s0)
        if form == "number":
            t = c.real("t"); f = lambda i, j, k: t * A(i, j) * Ph(i, j)
        elif form == "per species":
            t = c.arr("t", (s,)); f = lambda i, j, k: t(k) * A(i, j) * Ph(i, j)
        elif form == "array":
            f = c.arr("t", (n, n, s), "c")
        else:
            t = c.arr("t", (n, n), "c"); f = lambda i, j, k: t(i, j)
            c.requires(le(2, n))
        c.calls(lambda call, v: call(F, geo(call, v), 0., v.t, nspecies=sv(v)))
        c.ensures("hopping array", (n, n, s), f, get=at("ts"))

    @contract(P, INIT, M + "get_samespecies_int_mat", name=f"constructor, same-species interaction given as {form}")
    def _iu(c, form=form, s0=s0, sv=sv):
        n, s, A, Ph = init(c, s0)
        if form == "number":
            t = c.real("t"); f = lambda i, j, k: t * A(i, j)
        elif form == "per species":
            t = c.arr("t", (s,)); f = lambda i, j, k: t(k) * A(i, j)
        elif form == "array":
            f = c.arr("t", (n, n, s))
        else:
            t = c.arr("t", (n, n)); f = lambda i, j, k: t(i, j)
            c.requires(le(2, n))
        c.calls(lambda call, v: call(F, geo(call, v), 0., 1., us_same_species=v.t, nspecies=sv(v)))
        c.ensures("interaction array", (n, n, s), f, get=at("us_same_species"))

    @contract(P, INIT, name=f"constructor, potential given as {form}")
    def _ip(c, form=form, s0=s0, sv=sv):
        n, s, A, Ph = init(c, s0)
        if form == "number":
            t = c.real("t"); f = lambda i, k: t
        elif form == "per species":
            t = c.arr("t", (s,)); f = lambda i, k: t(k)
            c.requires(le(2, s))
        elif form == "array":
            f = c.arr("t", (n, s))
        else:
            t = c.arr("t", (n,)); f = lambda i, k: t(i)
            c.requires(le(2, n))
        c.calls(lambda call, v: call(F, geo(call, v), 0., 1., potentials=v.t, nspecies=sv(v)))
        c.ensures("potential array", (n, s), f, get=at("potentials"))

for form in ("number", "array"):
    @contract(P, INIT, name=f"constructor, chemical potential and inter-species interaction given as {form}")
    def _imu(c, form=form):
        n, s, A, Ph = init(c)
        if form == "number":
            m, u = c.real("m"), c.real("u")
            fm, fu = (lambda k: m), (lambda i: u)
        else:
            fm, fu = c.arr("m", (s,)), c.arr("u", (n,))
        c.calls(lambda call, v: call(F, geo(call, v), v.u, 1., mus=v.m, nspecies=v.s))
        c.ensures("chemical potentials", (s,), fm, get=at("mus"))
        c.ensures("inter-species interactions", (n,), fu, get=at("us_interspecies"))
        c.ensures_scalar("number of states", X.power(E(2), n * s), get=at("nstates"))
