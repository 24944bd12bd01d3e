"""C15: response functions and conductivities (ed_base.get_response_fn_retarded, ed_fermions.get_optical_cond_fn, integrate_conductivity)"""
from ..contract import *
from ..expr import exp, conj
P = "C15"
B = "ed_fermions.fermions"
R = "ed_base.ed_base.get_response_fn_retarded"
C = "ed_fermions.fermions.get_optical_cond_fn"
G = "ed_fermions.fermions.integrate_conductivity"


def inputs(c, *mats, n=None, gap=False):
    n = n or c.dim("n", 1, 5)
    def spectrum(r, s, sh):
        e = np.sort(r.integers(-3, 4, sh) * .75 + (r.uniform(-1, 1) if r.random() < .5 else 0))
        if gap and len(e) > 1:
            e[1:] += .5
        return e
    e = c.arr("en", (n,), "f", ("sorted",), sample=spectrum)
    return n, e, [c.arr(m, (n, n), "c") for m in mats]


def lor(x, eta):
    return eta / PI / (eta ** 2 + x ** 2)


for fmt, sgn in (("boson", -1), ("fermion", 1), (None, -1)):
    kw = {} if fmt is None else {"format": fmt}
    @contract(P, R, name=f"retarded response, T>0, {fmt or 'default'}")
    def _r(c, sgn=sgn, kw=kw):
        n, e, (A, Bm) = inputs(c, "a", "b")
        t, w, eta = c.pos("t"), c.real("w"), c.pos("eta")
        c.calls(lambda call, v: call(call(R, call.obj(B), v.a, v.b, v.en, v.t, **kw), v.w, v.eta))
        z = ssum(0, n, lambda k: exp(-(e(k) - e(0)) / t))
        c.ensures("spectral sum", (), lambda: PI / z * ssum(0, n, lambda p: ssum(0, n, lambda q: X.re(A(p, q) * Bm(q, p)) * (exp(-(e(p) - e(0)) / t) + sgn * exp(-(e(q) - e(0)) / t)) * lor(w - (e(q) - e(p)), eta))))

    @contract(P, R, name=f"retarded response, T=0, {fmt or 'default'}")
    def _r0(c, sgn=sgn, kw=kw):
        n, e, (A, Bm) = inputs(c, "a", "b")
        w, eta = c.real("w"), c.pos("eta")
        c.calls(lambda call, v: call(call(R, call.obj(B), v.a, v.b, v.en, 0., **kw), v.w, v.eta))
        c.ensures("spectral sum over the ground state", (), lambda: PI * ssum(0, n, lambda q: X.re(A(0, q) * Bm(q, 0)) * lor(w - (e(q) - e(0)), eta) + sgn * X.re(A(q, 0) * Bm(0, q)) * lor(w + (e(q) - e(0)), eta)))


@contract(P, R, name="retarded response, unknown statistics")
def _rx(c):
    n, e, _ = inputs(c, "a", "b")
    c.pos("t")
    c.calls(lambda call, v: call(R, call.obj(B), v.a, v.b, v.en, v.t, "other"))
    c.raises(TRUE)


def model(call, v):
    g = call.obj("ed_geometry.Geometry", nsites=v.N)
    return call.obj(B, geometry=g)


@contract(P, C, name="optical conductivity, T>0")
def _c(c):
    n, e, (J,) = inputs(c, "j")
    t, w, eta, N_ = c.pos("t"), c.real("w"), c.pos("eta"), c.dim("N", 1, 5)
    c.requires(cnot(eq(w, 0)))
    c.calls(lambda call, v: call(call(C, model(call, v), v.j, v.en, v.t), v.w, v.eta))
    z = ssum(0, n, lambda k: exp(-(e(k) - e(0)) / t))
    c.ensures("spectral sum", (), lambda: PI / (N_ * z) * ssum(0, n, lambda q: ssum(0, n, lambda p: exp(-(e(p) - e(0)) / t) * X.absv(J(q, p)) ** 2 * (1 - exp(-(e(q) - e(p)) / t)) * lor(w - (e(q) - e(p)), eta) / w)))


@contract(P, C, name="optical conductivity, T=0")
def _c0(c):
    n, e, (J,) = inputs(c, "j")
    w, eta, N_ = c.real("w"), c.pos("eta"), c.dim("N", 1, 5)
    c.calls(lambda call, v: call(call(C, model(call, v), v.j, v.en, 0.), v.w, v.eta))
    c.ensures("spectral sum over the excited states", (), lambda: PI / N_ * ssum(0, n, lambda q: ite(eq(e(q), e(0)), 0, X.absv(J(q, 0)) ** 2 * lor(X.absv(w) - (e(q) - e(0)), eta) / (e(q) - e(0)))))


@contract(P, G, name="integrated conductivity, T>0")
def _g(c):
    n, e, (J,) = inputs(c, "j")
    t, N_ = c.pos("t"), c.dim("N", 1, 5)
    c.calls(lambda call, v: call(G, model(call, v), v.j, v.en, v.t))
    z = ssum(0, n, lambda k: exp(-(e(k) - e(0)) / t))
    c.ensures("spectral sum over distinct energies", (), lambda: PI / (N_ * z) * ssum(0, n, lambda q: ssum(0, n, lambda p: ite(eq(e(q), e(p)), 0, X.absv(J(q, p)) ** 2 * (exp(-(e(p) - e(0)) / t) - exp(-(e(q) - e(0)) / t)) / (e(q) - e(p))))))


@contract(P, G, name="integrated conductivity, T=0")
def _g0(c):
    n, e, (J,) = inputs(c, "j", gap=True)
    N_ = c.dim("N", 1, 5)
    c.calls(lambda call, v: call(G, model(call, v), v.j, v.en, 0.))
    c.ensures("spectral sum over the excited states", (), lambda: PI / N_ * ssum(0, n, lambda q: ite(eq(e(q), e(0)), 0, 2 * X.absv(J(q, 0)) ** 2 / (e(q) - e(0)))))
