"""C11: linked-cluster weights, expansion values and Euler resummation (ed_nlce)"""
from ..contract import *
P = "C11"
F, U = "ed_nlce.get_nlce_exp_val", "ed_nlce.euler_resum"

SHAPES = {"numbers": 0, "vectors": 1, "matrices": 2}
FORMS = ("array", "row", "column", "csr")


def trailing(c, nt):
    return tuple(c.dim(x, 1, 3) for x in ("p", "q"))[:nt]


for shp, nt in SHAPES.items():
    for form in FORMS:
        for dt in ("f", "c"):
            if (form != "array" and (nt != 1 or dt == "c")):
                continue
            @contract(P, F, name=f"weights and orders, {shp}, multiplicity {form}, {'complex' if dt == 'c' else 'real'}")
            def _w(c, nt=nt, form=form, dt=dt):
                n, ns = c.dim("n", 1, 5), c.dim("ns", 1, 5)
                tr = trailing(c, nt)
                if nt:
                    c.requires(*[le(2, x) for x in tr])       # squeeze keeps the trailing dimensions
                x = c.arr("x", (n,) + tr, dt)
                m = c.arr("m", (n, n), "f", sparse="csr", sample=lambda r, s, sh: np.tril(r.integers(0, 4, sh), -1))
                shape = {"array": (n,), "row": (1, n), "column": (n, 1), "csr": (1, n)}[form]
                mu_ = c.arr("mu", shape, "f", sparse="csr" if form == "csr" else None)
                mu = {"array": mu_, "row": lambda j: mu_(0, j), "column": lambda j: mu_(j, 0), "csr": lambda j: mu_(0, j)}[form]
                no = c.dim("no", 1, 3)
                s = c.arr("s", (no + 1,), "i", ("nonneg", "sorted", "le:n"), sample=lambda r, d, sh: np.sort(r.integers(0, d["n"] + 1, sh)))
                c.calls(lambda call, v: call(F, v.x, v.m, v.mu, v.s, v.ns))
                c.ensures("weight = value - weights of the subclusters", (n,) + tr, lambda w, i, *ix: x(i, *ix) - ssum(0, i, lambda j: m(i, j) * w(j, *ix)), get=lambda r: r[2], given=lambda r: r[2])
                c.ensures("expansion value", tr, lambda w, *ix: ssum(0, n, lambda j: mu(j) * w(j, *ix)) / ns, get=lambda r: r[0], given=lambda r: r[2])
                c.ensures("orders", (no,) + tr, lambda w, q, *ix: ssum(s(q), s(q + 1), lambda j: mu(j) * w(j, *ix)) / ns, get=lambda r: r[1], given=lambda r: r[2])

    @contract(P, U, name=f"Euler resummation, {shp}")
    def _e(c, nt=nt):
        n, tr = c.dim("n", 1, 5), trailing(c, nt)
        a, y = c.arr("a", (n,) + tr, "c"), c.pos("y")
        c.calls(lambda call, v: call(U, v.a, v.y))
        term = lambda i, *ix: ssum(0, i + 1, lambda j: X.fn("binom", (i, j), "real") * X.power(y, j + 1) * a(j, *ix)) / X.power(1 + y, i + 1)
        c.ensures("orders", (n,) + tr, term, get=lambda r: r[1])
        c.ensures("sum", tr, lambda *ix: ssum(0, n, lambda i: term(i, *ix)), get=lambda r: r[0])
