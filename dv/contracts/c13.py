"""C13: partition functions and averages combined over symmetry sectors (ed_base)"""
from ..contract import *
from ..expr import exp
P = "C13"
B = "ed_base.ed_base"
M = "ed_base.ed_base."
Z, A, W = M + "get_partition_fn_sectors", M + "thermal_avg_combine_sectors", M + "get_thermal_weights"


def sectors(c):
    """any number of sectors of any (positive) sizes, each sorted"""
    ns = c.dim("ns", 1, 4)
    d = c.arr("d", (ns,), "i", ("pos",), sample=lambda r, s, sh: r.integers(1, 4, sh))
    e = c.ragged("en", ns, d, "f", ("sorted",), sample=lambda r, s, sh: np.sort(r.integers(-2, 3, sh) * .75 + .25))
    emin = S.bound_extremum([S.Ax("sig", n=ns, fn=lambda k: S.plain(d(k)))], lambda ix: e(ix[0][0], ix[0][1]), "min")
    return ns, d, e, emin


TS = ("number", "zero", "array", "array with zeros")


def temps(c, form):
    m = c.dim("m", 2, 4)
    if form == "number":
        t = c.pos("t")
        return m, lambda j: t, lambda v: v.t
    if form == "zero":
        return m, lambda j: E(0), lambda v: 0.
    t = c.arr("t", (m,), "f", ("pos", "nz") if form == "array" else ("nonneg",), sample=(lambda r, s, sh: r.uniform(.2, 3, sh)) if form == "array" else (lambda r, s, sh: r.integers(0, 3, sh) * .75))
    return m, t, lambda v: v.t


def weight(e, emin, t, form):
    w1 = lambda k, i: exp(-(e(k, i) - emin) / t)
    w0 = lambda k, i: ite(eq(e(k, i), emin), 1, 0)
    if form in ("number", "array"):
        return w1
    if form == "zero":
        return w0
    return lambda k, i: ite(eq(t, 0), w0(k, i), w1(k, i))


for form in TS:
    many = form.startswith("array")
    @contract(P, Z, W, name=f"sector partition functions, temperature {form}")
    def _z(c, form=form, many=many):
        ns, d, e, emin = sectors(c)
        m, t, get = temps(c, form)
        c.calls(lambda call, v: call(Z, call.obj(B), v.en, get(v)))
        if many:
            c.ensures("sum of weights relative to the global ground state", (m, ns), lambda j, k: ssum(0, d(k), lambda i: weight(e, emin, t(j), form)(k, i)))
        else:
            c.ensures("sum of weights relative to the global ground state", (ns,), lambda k: ssum(0, d(k), lambda i: weight(e, emin, t(0), form)(k, i)))

    for nt in (0, 1, 2):
        @contract(P, A, Z, W, name=f"combined averages, temperature {form}, {nt} trailing dimensions")
        def _a(c, form=form, many=many, nt=nt):
            ns, d, e, emin = sectors(c)
            m, t, get = temps(c, form)
            tr = (c.dim("p", 1, 3), c.dim("q", 1, 3))[:nt]
            x = c.arr("x", (ns,) + ((m,) if many else ()) + tr, "f")
            c.calls(lambda call, v: call(A, call.obj(B), v.x, v.en, get(v)))
            def z(k, j):
                return ssum(0, d(k), lambda i: weight(e, emin, t(j), form)(k, i))
            def avg(j, ix):
                return ssum(0, ns, lambda k: z(k, j) * (x(k, j, *ix) if many else x(k, *ix))) / ssum(0, ns, lambda k: z(k, j))
            if many:
                c.ensures("weighted by the sector partition functions", (m,) + (tr or (1,)), lambda j, *ix: avg(j, ix[:nt]))
            else:
                c.ensures("weighted by the sector partition functions", tr, lambda *ix: avg(0, ix))


@contract(P, A, Z, W, name="combined Boltzmann averages of the sectors equal the average over the whole spectrum")
def _full(c):
    ns, d, e, emin = sectors(c)
    t = c.pos("t")
    y = c.ragged("y", ns, d, "f")
    own = c.arr("own", (ns,), "f", sample=lambda r, s, sh: r.normal(size=sh))       # any reference energy of each sector
    c.calls(lambda call, v: call(Z, call.obj(B), v.en, v.t))
    w = weight(e, emin, t, "number")
    z = lambda k: ssum(0, d(k), lambda i: w(k, i))
    ws = lambda k, i: exp(-(e(k, i) - own(k)) / t)
    avg = lambda k: ssum(0, d(k), lambda i: ws(k, i) * y(k, i)) / ssum(0, d(k), lambda i: ws(k, i))
    c.ensures("sector partition functions", (ns,), z)
    k0 = X.sym("k0", "int", "real", "nonneg")
    part = lambda k: ssum(0, d(k), lambda i: w(k, i) * y(k, i))
    c.lemma("a sector enters with its share of the whole sum", lambda: [lt(k0, ns), lt(0, d(k0))], lambda: z(k0) * avg(k0) - part(k0))
    c.lemma("average over the whole spectrum", lambda: [], lambda: ssum(0, ns, part) / ssum(0, ns, z) - ssum(0, ns, lambda k: ssum(0, d(k), lambda i: exp(-e(k, i) / t) * y(k, i))) / ssum(0, ns, lambda k: ssum(0, d(k), lambda i: exp(-e(k, i) / t))))
    c.lemma("energy shift", lambda: [], lambda: ssum(0, ns, lambda k: ssum(0, d(k), lambda i: exp(-(e(k, i) + 1 - emin) / t)) * avg(k)) / ssum(0, ns, lambda k: ssum(0, d(k), lambda i: exp(-(e(k, i) + 1 - emin) / t))) - ssum(0, ns, lambda k: z(k) * avg(k)) / ssum(0, ns, lambda k: z(k)))
