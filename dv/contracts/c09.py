"""C09: relabelling, sorting and comparison of geometries (ed_geometry)"""
from ..contract import *
from .. import symnp
P = "C09"
G = "ed_geometry.Geometry"
L = "ed_geometry.Lattice"


def fields(c, n, sfx=""):
    xs = {k: c.arr(k + sfx, (n,), sample=lambda r, s, q: r.integers(-2, 3, size=q) * 1.) for k in ("x", "y")}
    xs.update({k: c.arr(k + sfx, (n, n), sample=lambda r, s, q: r.integers(0, 2, size=q) * 1.) for k in ("adj", "xd", "yd")})
    xs["ph"] = c.arr("ph" + sfx, (n, n), "c")
    return xs


NAMES = {"x": "xlocs", "y": "ylocs", "adj": "adjacency_mat", "ph": "phase_mat", "xd": "xdist_mat", "yd": "ydist_mat"}


def geom(call, v, lattice=None, sfx="", **other):
    at = {NAMES[k]: getattr(v, other.get(k, k + sfx)) for k in NAMES}
    return call.obj(G, nsites=v.n, lattice=lattice, **at)


def sorted_permutation(p, n):
    """assumed contract of sorting: the sorted values of a permutation of 0..n-1 are 0..n-1"""
    def hook(I):
        nxt = S.SORT[0]

        def srt(a, ax, f):
            i = E(X.fresh_int("i"))
            X.push_hyps([le(0, i), lt(i, n)])
            try:
                if ax.kind == "plain" and X.iszero(S.size(ax) - n) and X.iszero(S.numv(f((i,))) - p(i)):
                    return Arr([S.plain(n)], lambda ix: ix[0], "i")
            finally:
                X.pop_to(X.hyp_depth() - 2)
            return nxt(a, ax, f)
        S.SORT[0] = srt
    return hook


@contract(P, G + ".permute_sites", name="permutation of the sites")
def _perm(c):
    n = c.dim("n", 1, 5)
    fs = fields(c, n)
    p = c.arr("p", (n,), "i", props=("nonneg", "lt:n", "injective"), sample=lambda r, s, q: r.permutation(q[0]))
    c.setup.append(sorted_permutation(p, n))

    def run(call, v):
        g = geom(call, v)
        call.method(g, "permute_sites", v.p)
        return tuple(call.attr(g, NAMES[k]) for k in NAMES) + (call.attr(g, "nsites"), call.attr(g, "lattice"))
    c.calls(run)
    for k, nm in enumerate(NAMES):
        if nm in "xy":
            c.ensures(NAMES[nm], (n,), lambda i, f=fs[nm]: f(p(i)), get=lambda r, k=k: r[k])
        else:
            c.ensures(NAMES[nm], (n, n), lambda i, j, f=fs[nm]: f(p(i), p(j)), get=lambda r, k=k: r[k])
    c.ensures("number of sites unchanged", (), lambda: n, get=lambda r: r[6])
    c.ensures_cond("lattice unchanged", lambda r, v, sy: (TRUE if r[7] is None else FALSE) if sy else r[7] is None)


def sorted_witness(p, n, spots):
    """assumed contract of sorting: sorted(p) carries p(i) at some position pos(i); different i have different positions"""
    def hook(I):
        nxt = S.SORT[0]

        def srt(a, ax, f):
            S.WITNESS[:] = [(pos,) for _, pos in spots]
            return Arr([ax], lambda ix: X.fn("srt", [E(ix[0])], "int", "real", "cong"), "i")
        S.SORT[0] = srt
    return hook


for kind in ("out of range", "repeated"):
    @contract(P, G + ".permute_sites", name=f"an argument with {kind} labels is rejected")
    def _bad(c, kind=kind):
        n = c.dim("n", 2 if kind == "repeated" else 1, 5)
        fields(c, n)
        i = c.integer("i", 0, 4)
        j = c.integer("j", 0, 4)
        p = c.arr("p", (n,), "i", props=("cong",), sample=lambda r, s, q: r.integers(0 if kind == "repeated" else -1, q[0] + (kind != "repeated"), size=q))
        srt = lambda k: X.fn("srt", [E(k)], "int", "real", "cong")
        pi, pj = c.integer("posi", 0, 4), c.integer("posj", 0, 4)
        c.requires(*[cand(le(0, q), lt(q, n)) for q in (i, j, pi, pj)])
        if kind == "repeated":
            c.requires(cnot(eq(i, j)), eq(p(i), p(j)), cnot(eq(pi, pj)))
        else:
            c.requires(cor(lt(p(i), 0), le(n, p(i))))
        c.requires(eq(srt(pi), p(i)), eq(srt(pj), p(j)))

        def fix(r, syms, fns, vals):
            q = np.sort(vals["p"])
            fns["srt"] = lambda k: q[int(k)]
            o = list(np.argsort(vals["p"], kind="stable"))
            for nm, pos in (("i", "posi"), ("j", "posj")):
                if syms[nm] < len(o):
                    syms[pos] = vals[pos] = o.index(syms[nm])
        c.fixup.append(fix)
        c.setup.append(sorted_witness(p, n, [(i, pi), (j, pj)]))
        c.calls(lambda call, v: call.method(geom(call, v), "permute_sites", v.p))
        c.raises(TRUE)


@contract(P, G + ".permute_sites", name="an argument of the wrong length is rejected")
def _len(c):
    n, m = c.dim("n", 1, 4), c.dim("m", 1, 4)
    fields(c, n)
    c.arr("p", (m,), "i", sample=lambda r, s, q: r.permutation(q[0]))
    c.requires(cnot(eq(n, m)))
    c.calls(lambda call, v: call.method(geom(call, v), "permute_sites", v.p))
    c.raises(TRUE)


@contract(P, G + ".get_center_of_mass", name="centre of mass")
def _com(c):
    n = c.dim("n", 1, 5)
    fs = fields(c, n)
    c.calls(lambda call, v: call.method(geom(call, v), "get_center_of_mass"))
    c.ensures("mean x", (), lambda: ssum(0, n, fs["x"]) / n, get=lambda r: r[0])
    c.ensures("mean y", (), lambda: ssum(0, n, fs["y"]) / n, get=lambda r: r[1])


# ---------------------------------------------------------------- comparison
def isbool(want):
    return lambda r, v, sy: (TRUE if truth_(r) is want else FALSE) if sy else bool(r) is want


def truth_(r):
    return S.truth(r) if isinstance(r, Arr) else r


@contract(P, G + ".__eq__", G + ".__ne__", G + ".isequal_adjacency", name="geometries with equal data compare equal")
def _same(c):
    n = c.dim("n", 1, 4)
    fields(c, n)

    def run(call, v):
        a, b = geom(call, v), geom(call, v)
        return call.method(a, "__eq__", b), call.method(a, "__ne__", b), call.method(a, "isequal_adjacency", b)
    c.calls(run)
    for k, want in enumerate((True, False, True)):
        c.ensures_cond(("==", "!=", "isequal_adjacency")[k], lambda r, v, sy, k=k, want=want: isbool(want)(r[k], v, sy))


for fld in ("x", "y", "adj", "xd", "yd"):
    @contract(P, G + ".__eq__", G + ".__ne__", G + ".isequal_adjacency", name=f"geometries differing in {NAMES[fld]} compare different")
    def _diff(c, fld=fld):
        n = c.dim("n", 1, 4)
        fs = fields(c, n)
        two = fld not in "xy"
        f2 = c.arr("other", (n, n) if two else (n,), sample=lambda r, s, q: r.integers(0, 2, size=q) * 1.)
        i, j = c.integer("i", 0, 3), c.integer("j", 0, 3)
        c.requires(le(0, i), lt(i, n), le(0, j), lt(j, n))
        w = (i, j) if two else (i,)
        c.requires(cnot(eq(fs[fld](*w), f2(*w))))
        c.setup.append(lambda I: S.WITNESS.__setitem__(slice(None), [w]))

        def run(call, v):
            a, b = geom(call, v), geom(call, v, **{fld: "other"})
            return tuple(call.method(p, nm, q) for p, q in ((a, b), (b, a)) for nm in ("__eq__", "__ne__", "isequal_adjacency"))
        c.calls(run)
        for k in range(6):
            want = (False, True, not two)[k % 3]
            c.ensures_cond(("==", "!=", "isequal_adjacency")[k % 3] + (" reversed" if k > 2 else ""), lambda r, v, sy, k=k, want=want: isbool(want)(r[k], v, sy))


# ---------------------------------------------------------------- lattices
LV = {"l1": "lattice_vect1", "l2": "lattice_vect2", "p1": "periodicity_vect1", "p2": "periodicity_vect2", "f1": "phase1", "f2": "phase2"}


def lattice_inputs(c):
    whole = lambda r, s, q: r.integers(-1, 2, size=q) * 1.
    out = {k: c.arr(k, (2, 1), sample=whole) for k in LV if k[0] != "f"}
    for k in ("f1", "f2"):
        out[k] = c.real(k)
    return out


def latt(call, v, **other):
    return call.obj(L, **{LV[k]: getattr(v, other.get(k, k)) for k in LV})


@contract(P, L + ".__eq__", L + ".__ne__", G + ".__eq__", name="lattices with equal data compare equal, and so do geometries on them")
def _lsame(c):
    n = c.dim("n", 1, 3)
    fields(c, n)
    lattice_inputs(c)

    def run(call, v):
        a, b = latt(call, v), latt(call, v)
        g, h = geom(call, v, a), geom(call, v, b)
        return call.method(a, "__eq__", b), call.method(a, "__ne__", b), call.method(g, "__eq__", h), call.method(g, "isequal_adjacency", h), call.method(a, "__eq__", None), call.method(g, "__eq__", geom(call, v)), call.method(geom(call, v), "__eq__", g)
    c.calls(run)
    for k, (nm, want) in enumerate((("==", True), ("!=", False), ("geometries ==", True), ("geometries isequal_adjacency", True), ("lattice == None", False), ("geometry on a lattice == geometry without", False), ("geometry without == geometry on a lattice", False))):
        c.ensures_cond(nm, lambda r, v, sy, k=k, want=want: isbool(want)(r[k], v, sy))


for fld in LV:
    @contract(P, L + ".__eq__", L + ".__ne__", G + ".__eq__", name=f"lattices differing in {LV[fld]} compare different")
    def _ldiff(c, fld=fld):
        n = c.dim("n", 1, 3)
        fields(c, n)
        fs = lattice_inputs(c)
        if fld[0] == "f":
            o = c.real("other")
            c.requires(cnot(eq(o, fs[fld])))
        else:
            o = c.arr("other", (2, 1), sample=lambda r, s, q: r.integers(-1, 2, size=q) * 1.)
            c.requires(cor(cnot(eq(o(0, 0), fs[fld](0, 0))), cnot(eq(o(1, 0), fs[fld](1, 0)))))

        def run(call, v):
            a, b = latt(call, v), latt(call, v, **{fld: "other"})
            g, h = geom(call, v, a), geom(call, v, b)
            return call.method(a, "__eq__", b), call.method(b, "__eq__", a), call.method(a, "__ne__", b), call.method(g, "__eq__", h), call.method(g, "__ne__", h), call.method(g, "isequal_adjacency", h)
        c.calls(run)
        for k, (nm, want) in enumerate((("==", False), ("== reversed", False), ("!=", True), ("geometries ==", False), ("geometries !=", True), ("geometries isequal_adjacency", False))):
            c.ensures_cond(nm, lambda r, v, sy, k=k, want=want: isbool(want)(r[k], v, sy))


# ---------------------------------------------------------------- sorting
SORTS = {"top_left": (lambda x, y, top, k: (-y(k), x(k))), "bottom_right": (lambda x, y, top, k: (y(k), x(k))),
         "top_alternating": (lambda x, y, row, k: (-y(k), x(k) * X.power(E(-1), row(k))))}
for mode, keys in SORTS.items():
    @contract(P, G + ".get_sorting_permutation", name=f"sorting mode {mode}")
    def _sort(c, mode=mode, keys=keys):
        n = c.dim("n", 1, 6)
        x, y = c.arr("x", (n,), sample=lambda r, s, q: r.integers(-2, 3, size=q) * 1.), c.arr("y", (n,), "i" if mode == "top_alternating" else "f", sample=lambda r, s, q: r.integers(-2, 3, size=q) * (1 if mode == "top_alternating" else 1.))
        c.calls(lambda call, v: call.method(call.obj(G, nsites=v.n, xlocs=v.x, ylocs=v.y), "get_sorting_permutation", mode) if mode != "top_alternating" else
                call.method(call.obj(G, nsites=v.n, xlocs=v.x, ylocs=v.y), "get_sorting_permutation"))

        def order(r, v, sy):
            if not sy:
                r = [int(k) for k in r]
                X_, Y_ = np.asarray(v.x), np.asarray(v.y)
                f = {"top_left": lambda k: (-Y_[k], X_[k], k), "bottom_right": lambda k: (Y_[k], X_[k], k), "top_alternating": lambda k: (-Y_[k], X_[k] * (-1.) ** len({z for z in Y_.tolist() if z > Y_[k]}), k)}[mode]
                return sorted(r) == list(range(len(X_))) and all(f(a) < f(b) for a, b in zip(r, r[1:]))
            i = E(X.fresh_int("i"))
            r = S.toarr(r)
            if r.ndim != 1 or not X.iszero(S.size(r.axes[0]) - n):
                return FALSE
            p, q = S.numv(r(i)), S.numv(r(i + 1))
            at = next(iter(p.d))[0]
            if len(p.d) != 1 or len(at) != 1 or not at[0][0].name.startswith("lex:"):
                raise Unsupported("not a result of lexsort")
            rng = [le(0, i), lt(i + 1, n)]
            rows = symnp.unique(-v.y, return_inverse=True)[1]        # rows are numbered from the top
            row = lambda k: S.numv(rows(k))
            a, b = keys(x, y, row, p), keys(x, y, row, q)
            claim = cor(lt(a[0], b[0]), cand(eq(a[0], b[0]), cor(lt(a[1], b[1]), cand(eq(a[1], b[1]), lt(p, q)))))
            return cor(cnot(cand(*rng)), cnot(S.lex_fact(at[0][0].name, i, i + 1)), claim)
        c.ensures_cond("a permutation ordering the sites by the documented keys", order)


@contract(P, G + ".get_sorting_permutation", name="unknown sorting mode is an error")
def _badsort(c):
    n = c.dim("n", 1, 3)
    c.arr("x", (n,)), c.arr("y", (n,))
    c.calls(lambda call, v: call.method(call.obj(G, nsites=v.n, xlocs=v.x, ylocs=v.y), "get_sorting_permutation", "other"))
    c.raises(TRUE)
