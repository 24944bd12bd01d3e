"""C14: expectation values, overlaps, norms, subspace weights, site-resolved values and quench evolution (ed_base)"""
from ..contract import *
from ..expr import exp, conj
P = "C14"
B = "ed_base.ed_base"
M = "ed_base.ed_base."


def sandwich(O, u, w, d):
    """<u|O|w>"""
    return ssum(0, d, lambda i: conj(u(i)) * ssum(0, d, lambda j: O(i, j) * w(j)))


STATES = {"one vector": (1, None), "columns": (2, None), "sparse columns": (2, "csc")}


def states(c, name, d, n, form, dt="c"):
    nd, sparse = STATES[form]
    a = c.arr(name, (d, n)[:nd], dt, sparse=sparse)
    return (lambda k: (lambda i: a(i))) if nd == 1 else (lambda k: (lambda i: a(i, k)))


for form in STATES:
    for osp in (None, "csr"):
        for dt in ("c", "f"):
            @contract(P, M + "get_exp_vals", name=f"expectation values, {form}, {'sparse' if osp else 'dense'} {'complex' if dt == 'c' else 'real'} operator")
            def _ev(c, form=form, osp=osp, dt=dt):
                d, n = c.dim("d", 1, 4), c.dim("n", 1, 3)
                s = states(c, "s", d, n, form, dt)
                O = c.arr("op", (d, d), dt, sparse=osp)
                if form == "sparse columns" and osp is None:
                    c.may_raise = True
                    return c.skip("dense operator on sparse states is not an admissible combination")
                c.calls(lambda call, v: call(M + "get_exp_vals", call.obj(B), v.s, v.op))
                shape = {"one vector": (1,), "columns": (n,), "sparse columns": (1, n)}[form]
                c.ensures("Re <psi|O|psi>", shape, lambda *ix: X.re(sandwich(O, s(ix[-1]), s(ix[-1]), d)))

    @contract(P, M + "get_norms", name=f"norms, {form}")
    def _no(c, form=form):
        d, n = c.dim("d", 1, 4), c.dim("n", 1, 3)
        s = states(c, "s", d, n, form)
        c.calls(lambda call, v: call(M + "get_norms", call.obj(B), v.s))
        shape = {"one vector": (1,), "columns": (n,), "sparse columns": (1, n)}[form]
        c.ensures("<psi|psi>", shape, lambda *ix: ssum(0, d, lambda i: conj(s(ix[-1])(i)) * s(ix[-1])(i)))


def squeezed(shape):
    return tuple(x for x in shape if not (isinstance(x, int) and x == 1))


for f1, f2 in (("one vector", "one vector"), ("columns", "columns"), ("one vector", "columns"), ("columns", "one vector")):
    @contract(P, M + "get_overlaps", name=f"overlaps, {f1} with {f2}")
    def _ov(c, f1=f1, f2=f2):
        d, n, m = c.dim("d", 2, 4), c.dim("n", 2, 3), c.dim("m", 2, 3)
        a, b = states(c, "a", d, n, f1), states(c, "b", d, m, f2)
        c.calls(lambda call, v: call(M + "get_overlaps", call.obj(B), v.a, v.b))
        shape = squeezed((n if f1 != "one vector" else 1, m if f2 != "one vector" else 1))
        def want(*ix):
            ix = list(ix)
            p = ix.pop(0) if f1 != "one vector" else 0
            q = ix.pop(0) if f2 != "one vector" else 0
            return ssum(0, d, lambda i: conj(a(p)(i)) * b(q)(i))
        c.ensures("<a|b>", shape, want)


for f1, f2 in (("sparse columns", "sparse columns"), ("sparse columns", "columns"), ("columns", "sparse columns")):
    @contract(P, M + "get_overlaps", name=f"overlaps, {f1} with {f2}")
    def _ovs(c, f1=f1, f2=f2):
        d, n, m = c.dim("d", 2, 4), c.dim("n", 2, 3), c.dim("m", 2, 3)
        a, b = states(c, "a", d, n, f1), states(c, "b", d, m, f2)
        c.calls(lambda call, v: call(M + "get_overlaps", call.obj(B), v.a, v.b))
        c.ensures("<a|b>", (n, m), lambda p, q: ssum(0, d, lambda i: conj(a(p)(i)) * b(q)(i)))


for osp in (None, "csr"):
    @contract(P, M + "get_matrix_elems", name=f"matrix elements, {'sparse' if osp else 'dense'} operator")
    def _me(c, osp=osp):
        d, n = c.dim("d", 1, 4), c.dim("n", 1, 4)
        s, O = states(c, "s", d, n, "columns"), c.arr("op", (d, d), "c", sparse=osp)
        c.calls(lambda call, v: call(M + "get_matrix_elems", call.obj(B), v.s, v.op))
        c.ensures("<m|O|n>", (n, n), lambda p, q: sandwich(O, s(p), s(q), d))


@contract(P, M + "get_subspace_overlaps", M + "get_exp_vals", name="subspace weights")
def _so(c):
    d, n, k1, k2 = c.dim("d", 1, 4), c.dim("n", 2, 3), c.dim("k1", 1, 3), c.dim("k2", 1, 3)
    s = states(c, "s", d, n, "columns")
    p1, p2 = c.arr("p1", (k1, d), "c", sparse="csr"), c.arr("p2", (k2, d), "c", sparse="csr")
    c.calls(lambda call, v: (call(M + "get_subspace_overlaps", call.obj(B), v.s, [v.p1, v.p2]), call(M + "get_subspace_overlaps", call.obj(B), v.s, v.p1)))
    def weight(p, k, q):
        amp = lambda r: ssum(0, d, lambda i: p(r, i) * s(q)(i))
        return ssum(0, k, lambda r: conj(amp(r)) * amp(r))
    c.ensures("<psi|P^dag P|psi> for every projector", (2, n), [lambda a, q: ite(eq(E(a), 0), weight(p1, k1, q), weight(p2, k2, q))], get=lambda r: r[0])
    c.ensures("<psi|P^dag P|psi>", (n,), lambda q: weight(p1, k1, q), get=lambda r: r[1])


# ---------------------------------------------------------------- quench
for f in ("one vector", "columns"):
    for tf in ("times", "one time"):
        @contract(P, M + "quench_time_evolve", name=f"quench, {f}, {tf}")
        def _q(c, f=f, tf=tf):
            d, n, m, k = c.dim("d", 2, 4), c.dim("n", 2, 4), c.dim("m", 2, 3), c.dim("k", 2, 3)
            s = states(c, "s", d, m, f)
            V, e = c.arr("V", (d, n), "c"), c.arr("e", (n,))
            t = c.arr("t", (k,)) if tf == "times" else (lambda x: (lambda i: x))(c.real("t"))
            c.calls(lambda call, v: call(M + "quench_time_evolve", call.obj(B), v.s, v.V, v.e, v.t))
            ev = lambda i, j, q: ssum(0, n, lambda a: V(i, a) * exp(-Iu * e(a) * t(j)) * ssum(0, d, lambda b: conj(V(b, a)) * s(q)(b)))
            shape = (d, k if tf == "times" else 1, m if f == "columns" else 1)
            if tf == "one time" and f == "one vector":
                c.ensures("sum_n exp(-i E_n t) |n><n|psi>", (d, 1), lambda i, j: ev(i, 0, 0), get=lambda r: r[1])
            elif tf == "one time":
                c.ensures("sum_n exp(-i E_n t) |n><n|psi>", (d, m), lambda i, q: ev(i, 0, q), get=lambda r: r[1])
            elif f == "one vector":
                c.ensures("sum_n exp(-i E_n t) |n><n|psi>", (d, k), lambda i, j: ev(i, j, 0), get=lambda r: r[1])
            else:
                c.ensures("sum_n exp(-i E_n t) |n><n|psi>", (d, k, m), ev, get=lambda r: r[1])
            c.ensures("times", (k,) if tf == "times" else (1,), lambda j: t(j), get=lambda r: r[0])


# ---------------------------------------------------------------- site-resolved values
def site_ops(c, ns, D, nsp=2):
    """get_single_site_op / get_two_site_op enter through their contracts (C02): arbitrary matrices per site and species"""
    S1 = c.arr("sop", (ns, nsp, D, D), "c", sample=lambda r, s, sh: r.normal(size=sh) + 1j * r.normal(size=sh))
    S2 = c.arr("sop2", (ns, nsp, ns, nsp, D, D), "c", sample=lambda r, s, sh: r.normal(size=sh) + 1j * r.normal(size=sh))

    def install(call, v, fmt):
        import scipy.sparse as sp
        if call.symbolic:
            ent = lambda x: S.numv(S.toarr(x)(*()))
            diff = lambda x, y: any(S.numv(S.toarr(x)(i, j)).key != S.numv(y(i, j)).key for i in (0, 1) for j in (0, 1))     # (2, 2) operators
            def one(site, species, op, format="fermion"):
                if diff(op, v.op) or format != fmt:
                    raise S.Raised("ContractError", "site operator or format not passed on")
                return Arr([S.plain(D), S.plain(D)], lambda ix: S1(ent(site), ent(species), *ix), "c", "coo")
            def two(s1, sp1, s2, sp2, op1, op2, format="fermion"):
                if diff(op1, v.op) or diff(op2, v.op2) or format != fmt:
                    raise S.Raised("ContractError", "site operators or format not passed on")
                return Arr([S.plain(D), S.plain(D)], lambda ix: S2(ent(s1), ent(sp1), ent(s2), ent(sp2), *ix), "c", "coo")
            one.symbolic_ok = two.symbolic_ok = True
        else:
            def one(site, species, op, format="fermion"):
                if op is not v.op or format != fmt:
                    raise Exception("site operator or format not passed on")
                return sp.coo_matrix(v.sop[site, species])
            def two(s1, sp1, s2, sp2, op1, op2, format="fermion"):
                if op1 is not v.op or op2 is not v.op2 or format != fmt:
                    raise Exception("site operators or format not passed on")
                return sp.coo_matrix(v.sop2[s1, sp1, s2, sp2])
        return call.obj(B, geometry=call.obj("ed_geometry.Geometry", nsites=v.ns), get_single_site_op=one, get_two_site_op=two)
    return S1, S2, install


def common(c, proj, which):
    ns, d, n, D, k = c.dim("ns", 1, 3), c.dim("d", 1, 3), c.dim("n", 1, 3), c.dim("D", 1, 3), c.dim("k", 1, 4)
    if not proj:
        D = d
    s = c.arr("s", (d, n), "c")
    c.arr("op", (2, 2), "c"), c.arr("op2", (2, 2), "c")
    S1, S2, inst = site_ops(c, ns, D)
    sp1, sp2 = c.integer("sp1", 0, 1), c.integer("sp2", 0, 1)
    c.requires(le(0, sp1), le(sp1, 1), le(0, sp2), le(sp2, 1))
    Pj = c.arr("P", (d, D), "c", sparse="csr") if proj else None
    st = None
    if which == "given":
        st = [c.arr(x, (k,), "i", ("nonneg",), sample=lambda r, s_, sh: r.integers(0, s_["ns"], sh)) for x in ("st1", "st2")]
    def ev(O, q):
        if not proj:
            return X.re(sandwich(O, lambda i: s(i, q), lambda i: s(i, q), d))
        PO = lambda i, j: ssum(0, D, lambda a: ssum(0, D, lambda b: Pj(i, a) * O(a, b) * conj(Pj(j, b))))
        return X.re(sandwich(PO, lambda i: s(i, q), lambda i: s(i, q), d))
    return ns, d, n, D, k, S1, S2, inst, sp1, sp2, st, ev


for proj in (False, True):
    for which in ("all", "given"):
        for fmt in ("boson", "fermion"):
            tag = f"{'projected' if proj else 'full space'}, {which} sites, {fmt}"

            @contract(P, M + "get_exp_vals_sites", M + "get_exp_vals", name="site values, " + tag)
            def _sv(c, proj=proj, which=which, fmt=fmt):
                ns, d, n, D, k, S1, S2, inst, sp1, sp2, st, ev = common(c, proj, which)
                c.calls(lambda call, v: call(M + "get_exp_vals_sites", inst(call, v, fmt), v.s, v.op, v.sp1, sites=v.st1 if st else None, projector=v.P if proj else None, format=fmt))
                site = (lambda i: st[0](i)) if st else (lambda i: i)
                c.ensures("<psi|O_site|psi>", (k if st else ns, n), lambda i, q: ev(lambda a, b: S1(site(i), sp1, a, b), q), get=lambda r: r[0])
                c.ensures("sites", (k if st else ns,), lambda i: site(i), get=lambda r: r[1])

            if which == "given":
                @contract(P, M + "get_corr_sites", M + "get_exp_vals", name="correlators, " + tag)
                def _sc(c, proj=proj, which=which, fmt=fmt):
                    ns, d, n, D, k, S1, S2, inst, sp1, sp2, st, ev = common(c, proj, which)
                    c.calls(lambda call, v: call(M + "get_corr_sites", inst(call, v, fmt), v.s, v.sp1, v.sp2, v.op, v.op2, sites1=v.st1, sites2=v.st2, projector=v.P if proj else None, format=fmt))
                    c.ensures("<psi|O1_a O2_b|psi>", (k, n), lambda i, q: ev(lambda a, b: S2(st[0](i), sp1, st[1](i), sp2, a, b), q), get=lambda r: r[0])

            @contract(P, M + "get_thermal_exp_sites", M + "get_exp_vals_thermal", name="thermal site values, " + tag)
            def _ts(c, proj=proj, which=which, fmt=fmt):
                ns, d, n, D, k, S1, S2, inst, sp1, sp2, st, ev = common(c, proj, which)
                m = c.dim("m", 2, 3)
                t = c.arr("t", (m,), "f", ("pos", "nz"), sample=lambda r, s, sh: r.uniform(.2, 3, sh))
                e = c.arr("en", (n,), "f", ("sorted",), sample=lambda r, s, sh: np.sort(r.normal(size=sh)))
                c.calls(lambda call, v: call(M + "get_thermal_exp_sites", inst(call, v, fmt), v.s, v.en, v.op, v.sp1, v.t, sites=v.st1 if st else None, projector=v.P if proj else None, format=fmt))
                site = (lambda i: st[0](i)) if st else (lambda i: i)
                w = lambda q, j: exp(-(e(q) - e(0)) / t(j))
                c.ensures("thermal <O_site>", (k if st else ns, m), lambda i, j: ssum(0, n, lambda q: w(q, j) * ev(lambda a, b: S1(site(i), sp1, a, b), q)) / ssum(0, n, lambda q: w(q, j)), get=lambda r: r[0])

            if which == "given":
                @contract(P, M + "get_thermal_corr_sites", M + "get_exp_vals_thermal", name="thermal correlators, " + tag)
                def _tc(c, proj=proj, which=which, fmt=fmt):
                    ns, d, n, D, k, S1, S2, inst, sp1, sp2, st, ev = common(c, proj, which)
                    m = c.dim("m", 2, 3)
                    t = c.arr("t", (m,), "f", ("pos", "nz"), sample=lambda r, s, sh: r.uniform(.2, 3, sh))
                    e = c.arr("en", (n,), "f", ("sorted",), sample=lambda r, s, sh: np.sort(r.normal(size=sh)))
                    c.calls(lambda call, v: call(M + "get_thermal_corr_sites", inst(call, v, fmt), v.s, v.en, v.sp1, v.sp2, v.op, v.op2, v.t, sites1=v.st1, sites2=v.st2, projector=v.P if proj else None, format=fmt))
                    w = lambda q, j: exp(-(e(q) - e(0)) / t(j))
                    c.ensures("thermal <O1_a O2_b>", (k, m), lambda i, j: ssum(0, n, lambda q: w(q, j) * ev(lambda a, b: S2(st[0](i), sp1, st[1](i), sp2, a, b), q)) / ssum(0, n, lambda q: w(q, j)), get=lambda r: r[0])
