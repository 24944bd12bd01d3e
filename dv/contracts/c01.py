"""C01: one- and two-site operators as tensor products, their algebra, sums over sites, mode indices (ed_base)"""
from ..contract import *
from ..expr import exp, conj
from .. import ops
from ..ops import Kron
P = "C01"
M = "ed_base.ed_base."
PAR = lambda: ops.local(np.array([[1, 0], [0, -1]]))


def single(fmt, m, pos, L):
    """1 (x) m (x) string: identity on the positions before pos, parity (fermion) or identity after"""
    return Kron([(None, pos), (m, 1), (PAR() if fmt == "fermion" else None, E(L) - pos - 1)])


def system(c, fmt, big=False):
    """an object with symbolic numbers of sites and species and symbolic local dimension (2 for fermions)"""
    n, s = c.dim("n", 1, 3), c.dim("s", 1, 2)
    if fmt == "fermion":
        d = E(2)
    else:
        d = c.dim("d", 2, 3)
    c.setup.append(ops.kron_mode(d))
    c.samples = 16
    return n, s, d


def obj(call, v, fmt):
    return call.obj("ed_base.ed_base", geometry=call.obj("ed_geometry.Geometry", nsites=v.n), nspecies=v.s, nbasis=2 if fmt == "fermion" else v.d)


def site(c, k, n, s):
    i, a = c.integer(f"i{k}", 0, 2), c.integer(f"a{k}", 0, 1)
    c.requires(le(0, i), lt(i, n), le(0, a), lt(a, s))
    # position of (i, a) among the n s modes: nonlinear facts for the solver
    p = n * a + i
    c.requires(le(0, n * a), le(n * (a + 1), n * s))
    return i, a, p


FMT = ("fermion", "boson")
for fmt in FMT:
    for how in ("keyword", "positional"):
        @contract(P, M + "get_single_site_op", M + "spinful2spinlessIndex", name=f"one-site operator, {fmt} ({how} format)")
        def _one(c, fmt=fmt, how=how):
            n, s, d = system(c, fmt)
            c.arr("op", (d, d), "c")
            i, a, p = site(c, 1, n, s)
            if how == "keyword":
                c.calls(lambda call, v: call(M + "get_single_site_op", obj(call, v, fmt), v.i1, v.a1, v.op, format=fmt))
            else:
                c.calls(lambda call, v: call(M + "get_single_site_op", obj(call, v, fmt), v.i1, v.a1, v.op, fmt))
            c.ensures_op("identity, operator, string", lambda: single(fmt, c.arrs["op"], p, n * s))

    for order in ("first before second", "second before first", "same position"):
        @contract(P, M + "get_two_site_op", M + "get_single_site_op", name=f"two-site operator is the product, {fmt}, {order}")
        def _two(c, fmt=fmt, order=order):
            n, s, d = system(c, fmt)
            c.arr("op1", (d, d), "c"); c.arr("op2", (d, d), "c")
            i, a, p = site(c, 1, n, s)
            j, b, q = site(c, 2, n, s)
            c.requires({"first before second": lt(p, q), "second before first": lt(q, p), "same position": eq(p, q)}[order])
            c.calls(lambda call, v: call(M + "get_two_site_op", obj(call, v, fmt), v.i1, v.a1, v.i2, v.a2, v.op1, v.op2, fmt))
            c.ensures_op("product of the one-site operators", lambda: single(fmt, c.arrs["op1"], p, n * s).dot(single(fmt, c.arrs["op2"], q if order != "same position" else p, n * s)))


@contract(P, name="unknown format rejected")
def _bad(c):
    n, s, d = system(c, "boson")
    c.arr("op", (d, d), "c")
    i, a, p = site(c, 1, n, s)
    c.calls(lambda call, v: call(M + "get_single_site_op", obj(call, v, "boson"), v.i1, v.a1, v.op, format="other"))
    c.raises(TRUE)


@contract(P, M + "spinful2spinlessIndex", M + "spinless2spinfullIndex", name="flat index to (site, species) and back")
def _idx(c):
    n = c.dim("n", 1, 5)
    k = c.integer("k", 0, 12)
    c.requires(le(0, k))

    def run(call, v):
        o = call.obj("ed_base.ed_base")
        i, a = call(M + "spinless2spinfullIndex", o, v.k, v.n)
        return i, a, call(M + "spinful2spinlessIndex", o, i, v.n, a)
    c.calls(run)
    c.ensures_scalar("round trip", k, get=lambda r: r[2])
    c.ensures_cond("site in range", lambda r, v, sy: S.logical(S.compare(0, r[0], "le"), S.compare(r[0], v.n, "lt"), cand).val() if sy else 0 <= r[0] < v.n)
    c.ensures_cond("species in range", lambda r, v, sy: S.compare(0, r[1], "le").val() if sy else 0 <= r[1])


@contract(P, M + "spinful2spinlessIndex", M + "spinless2spinfullIndex", name="(site, species) to flat index and back")
def _idx2(c):
    n, s = c.dim("n", 1, 5), c.dim("s", 1, 3)
    i, a = c.integer("i1", 0, 4), c.integer("a1", 0, 2)
    c.requires(le(0, i), lt(i, n), le(0, a), lt(a, s), le(0, n * a), le(n * (a + 1), n * s))

    def run(call, v):
        o = call.obj("ed_base.ed_base")
        k = call(M + "spinful2spinlessIndex", o, v.i1, v.n, v.a1)
        return (k,) + tuple(call(M + "spinless2spinfullIndex", o, k, v.n))
    c.calls(run)
    c.ensures_scalar("site", i, get=lambda r: r[1])
    c.ensures_scalar("species", a, get=lambda r: r[2])
    c.ensures_cond("below the number of modes", lambda r, v, sy: cand(le(0, E(r[0])), lt(E(r[0]), n * s)) if sy else 0 <= r[0] < v.n * v.s)


# ---- algebra of the operators actually used for fermions, through the real functions
for which in ("c cdag", "c c", "cdag cdag"):
    for rel in ("distinct", "same"):
        @contract(P, M + "get_single_site_op", name=f"canonical anticommutator, {which}, {rel} modes")
        def _car(c, which=which, rel=rel):
            n, s, d = system(c, "fermion")
            i, a, p = site(c, 1, n, s)
            j, b, q = site(c, 2, n, s)
            c.requires(lt(p, q) if rel == "distinct" else eq(p, q))
            o1, o2 = which.split()

            def run(call, v):
                o = call.obj("ed_fermions.fermions", geometry=call.obj("ed_geometry.Geometry", nsites=v.n), nspecies=v.s)
                g = (lambda x, y: call.I.getattr(x, y)) if call.symbolic else getattr
                A = call(g(o, "get_single_site_op"), v.i1, v.a1, g(o, o1 + "_op"))
                B = call(g(o, "get_single_site_op"), v.i2 if rel == "distinct" else v.i1, v.a2 if rel == "distinct" else v.a1, g(o, o2 + "_op"))
                return A.dot(B) + B.dot(A)
            c.calls(run)
            one = which == "c cdag" and rel == "same"
            c.ensures_op("anticommutator is the Kronecker delta" if which == "c cdag" else "anticommutator vanishes", lambda: Kron([(None, n * s)], 1 if one else 0))


@contract(P, M + "get_single_site_op", name="bosonic operators at different positions commute")
def _comm(c):
    n, s, d = system(c, "boson")
    c.arr("op1", (d, d), "c"); c.arr("op2", (d, d), "c")
    i, a, p = site(c, 1, n, s)
    j, b, q = site(c, 2, n, s)
    c.requires(lt(p, q))

    def run(call, v):
        o = obj(call, v, "boson")
        A = call(M + "get_single_site_op", o, v.i1, v.a1, v.op1, format="boson")
        B = call(M + "get_single_site_op", o, v.i2, v.a2, v.op2, format="boson")
        return A.dot(B), B.dot(A)
    c.calls(run)
    spec = lambda: Kron([(None, p), (c.arrs["op1"], 1), (None, q - p - 1), (c.arrs["op2"], 1), (None, n * s - q - 1)])
    c.ensures_op("first times second", spec, get=lambda r: r[0])
    c.ensures_op("second times first", spec, get=lambda r: r[1])


# ---- sums over sites (callers use the one-site contract)
def opsystem(c, fmt, maxn=3, spin=False):
    n = c.dim("n", 1, maxn)
    s = c.dim("s", 1, 2)
    d = E(2) if fmt == "fermion" else c.dim("d", 2, 3)
    c.setup.append(ops.op_mode(d, n, s))
    ops.callee_contracts(c)
    return n, s, d, X.power(d, n * s)


for fmt in FMT:
    @contract(P, M + "get_sum_op", name=f"sum over sites, {fmt}")
    def _sum(c, fmt=fmt):
        n, s, d, D = opsystem(c, fmt)
        c.arr("op", (d, d), "c")
        a = c.integer("a1", 0, 1)
        c.requires(le(0, a), lt(a, s))
        c.calls(lambda call, v: call(M + "get_sum_op", obj(call, v, fmt), v.op, v.a1, format=fmt))
        c.ensures_op("sum of one-site operators", lambda: ops.Op(ssum(0, n, lambda k: ops.W(fmt, c.arrs["op"], k, a)), D, D))

    @contract(P, M + "get_sum_op_q", name=f"plane-wave sum over sites, {fmt}")
    def _sumq(c, fmt=fmt):
        n, s, d, D = opsystem(c, fmt)
        c.arr("op", (d, d), "c")
        x, y, k = c.arr("x", (n,)), c.arr("y", (n,)), c.arr("q", (2,))
        a = c.integer("a1", 0, 1)
        c.requires(le(0, a), lt(a, s))

        def run(call, v):
            o = call.obj("ed_base.ed_base", geometry=call.obj("ed_geometry.Geometry", nsites=v.n, xlocs=v.x, ylocs=v.y), nspecies=v.s, nbasis=2 if fmt == "fermion" else v.d)
            return call(M + "get_sum_op_q", o, v.a1, v.q, v.op, format=fmt)
        c.calls(run)
        c.ensures_op("phased sum of one-site operators", lambda: ops.Op(ssum(0, n, lambda j: exp(Iu * (x(j) * k(0) + y(j) * k(1))) * ops.W(fmt, c.arrs["op"], j, a)), D, D))


for order in ("before", "after", "at the same position"):
    @contract(P, M + "get_single_site_op", name=f"diagonal bosonic operator {order} a fermionic one: product rules used by the operator algebra")
    def _even(c, order=order):
        n, s, d = system(c, "fermion")
        D = c.arr("dg", (2,), "c"); c.arr("op", (2, 2), "c")
        i, a, p = site(c, 1, n, s)
        j, b, q = site(c, 2, n, s)
        c.requires({"before": lt(p, q), "after": lt(q, p), "at the same position": eq(p, q)}[order])

        def run(call, v):
            o = obj(call, v, "fermion")
            j, b = (v.i1, v.a1) if order == "at the same position" else (v.i2, v.a2)
            A = call(M + "get_single_site_op", o, v.i1, v.a1, call.np.diag(v.dg), format="boson")
            B = call(M + "get_single_site_op", o, j, b, v.op, format="fermion")
            return A.dot(B), B.dot(A)
        c.calls(run)
        dg = lambda: Arr([S.plain(2), S.plain(2)], lambda ix: X.ite(eq(ix[0], ix[1]), D(ix[0]), E(0)), "c")
        op = lambda: c.arrs["op"]
        if order == "at the same position":
            c.ensures_op("merges to the local product", lambda: single("fermion", S.npdot(dg(), op()), p, n * s), get=lambda r: r[0])
            c.ensures_op("merges to the local product in the other order", lambda: single("fermion", S.npdot(op(), dg()), p, n * s), get=lambda r: r[1])
        else:
            spec = lambda: single("boson", dg(), p, n * s).dot(single("fermion", op(), q, n * s))
            c.ensures_op("product", spec, get=lambda r: r[0])
            c.ensures_op("commutes", spec, get=lambda r: r[1])
