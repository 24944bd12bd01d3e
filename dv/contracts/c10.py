"""C10: cluster enumeration (ed_nlce)"""
from ..contract import *
P = "C10"
N_ = "ed_nlce."
G = "ed_geometry.Geometry."

# ---------------------------------------------------------------- the square point group
# elements as integer matrices (a, b, c, d): (x, y) -> (a x + b y, c x + d y)
def mulm(p, q):
    return (p[0] * q[0] + p[1] * q[2], p[0] * q[1] + p[1] * q[3], p[2] * q[0] + p[3] * q[2], p[2] * q[1] + p[3] * q[3])


ID, ROT, REF = (1, 0, 0, 1), (0, -1, 1, 0), (-1, 0, 0, 1)
D4 = [ID]
for g in D4:
    for s_ in (ROT, REF):
        if mulm(s_, g) not in D4:
            D4.append(mulm(s_, g))
INV = {g: next(h for h in D4 if mulm(g, h) == ID) for g in D4}


def subgroups():
    out = []
    gens = [(a, b) for a in D4 for b in D4]
    for a, b in gens:
        s = {ID, a, b}
        while True:
            t = s | {mulm(x, y) for x in s for y in s}
            if t == s:
                break
            s = t
        if s not in out:
            out.append(s)
    return sorted(out, key=lambda s: (len(s), sorted(s)))


def normal(pts):
    """translation normal form of a finite set of points"""
    pts = [(round(float(x), 6), round(float(y), 6)) for x, y in pts]
    mx, my = min(p[0] for p in pts), min(p[1] for p in pts)
    return frozenset((round(x - mx, 5) + 0., round(y - my, 5) + 0.) for x, y in pts)


def image(g, pts):
    return [(g[0] * x + g[1] * y, g[2] * x + g[3] * y) for x, y in pts]


def points(geo):
    return list(zip(np.ravel(geo.xlocs), np.ravel(geo.ylocs)))


class Symmetric:
    """assumed contracts of the geometry functions for one cluster and its images: createNonPeriodicGeometry(xs, ys) is the image g
    of the cluster (up to a translation) that xs, ys are the coordinates of, get_sorting_permutation/permute_sites (proved under C09)
    put it in normal order, and two images in normal order compare equal iff they differ by an element of the stabiliser"""
    def __init__(self, c, stab):
        self.stab = stab
        c.stubs[G + "createNonPeriodicGeometry"] = self.create
        c.stubs[G + "get_sorting_permutation"] = self.perm
        c.stubs[G + "permute_sites"] = self.permute
        c.stubs[G + "isequal_adjacency"] = self.isequal

    def cluster(self, call, v):
        self.I, self.x, self.y, self.n = call.I, v.x, v.y, v.n
        return call.obj("ed_geometry.Geometry", xlocs=v.x, ylocs=v.y, nsites=v.n, _g=ID, _sorted=True)

    def create(self, I, fn, loc):
        from ..interp import Obj
        xs, ys = S.toarr(loc["xlocs"]), S.toarr(loc["ylocs"])
        if xs.ndim != 1 or ys.ndim != 1 or not X.iszero(S.size(xs.axes[0]) - E(self.n)):
            raise Unsupported("geometry of another size")
        i, j = E(X.fresh_int("i")), E(X.fresh_int("j"))
        dep = X.hyp_depth()
        X.push_hyps([le(0, i), lt(i, E(self.n)), le(0, j), lt(j, E(self.n))])
        try:
            d = [S.numv(z(i)) - S.numv(z(j)) for z in (xs, ys, self.x, self.y)]
            for g in D4:
                if X.iszero(d[0] - g[0] * d[2] - g[1] * d[3]) and X.iszero(d[1] - g[2] * d[2] - g[3] * d[3]):
                    return Obj(self.I.fn("ed_geometry", "Geometry"), xlocs=xs, ylocs=ys, nsites=S.mkscalar(E(self.n), "i", py="int"), _g=g, _sorted=False)
        finally:
            X.pop_to(dep)
        raise Unsupported("coordinates are no image of the cluster")

    def perm(self, I, fn, loc):
        return ("sorting", loc["self"])

    def permute(self, I, fn, loc):
        o = loc["self"]
        p = [x for k, x in loc.items() if k != "self"][0]
        if not isinstance(p, tuple) or p[0] != "sorting" or p[1] is not o:
            raise Unsupported("permutation of the sites")
        o.attrs["_sorted"] = True

    def isequal(self, I, fn, loc):
        a, b = loc["self"], [x for k, x in loc.items() if k != "self"][0]
        if not (a.attrs["_sorted"] and b.attrs["_sorted"]):
            raise Unsupported("comparison of clusters that are not in normal order")
        return mulm(INV[a.attrs["_g"]], b.attrs["_g"]) in self.stab


def sample_points(r, n):
    """a connected cluster of n sites"""
    pts = [(0, 0)]
    while len(pts) < n:
        x, y = pts[r.integers(len(pts))]
        dx, dy = [(1, 0), (-1, 0), (0, 1), (0, -1)][r.integers(4)]
        if (x + dx, y + dy) not in pts:
            pts.append((x + dx, y + dy))
    return sorted(pts)


def clusterfix(*names):
    def fix(rng, syms, fns, vals):
        pts = sample_points(rng, syms["n"])
        for k, nm in enumerate(names):
            vals[nm] = np.array([p[k] for p in pts], float)
            fns[nm] = lambda i, a=vals[nm]: a[i]
    return fix


for k_, stab in enumerate(subgroups()):
    @contract(P, N_ + "get_clusters_rel_by_symmetry", name=f"one cluster per orientation, stabiliser {k_} of order {len(stab)}")
    def _orb(c, stab=stab):
        n = c.dim("n", 1, 6)
        c.arr("x", (n,)), c.arr("y", (n,))
        c.fixup.append(clusterfix("x", "y"))
        sy_ = Symmetric(c, stab)

        def run(call, v):
            if call.symbolic:
                return call(N_ + "get_clusters_rel_by_symmetry", sy_.cluster(call, v))
            geo = call("ed_geometry.Geometry.createNonPeriodicGeometry", v.x, v.y)
            geo.permute_sites(geo.get_sorting_permutation())
            return call(N_ + "get_clusters_rel_by_symmetry", geo)
        c.calls(run)

        def post(r, v, symbolic):
            if not symbolic:
                keys = [normal(points(q)) for q in r]
                want = {normal(image(g, list(zip(v.x, v.y)))) for g in D4}
                return len(set(keys)) == len(keys) and set(keys) == want and keys[0] == normal(list(zip(v.x, v.y)))
            if not isinstance(r, list) or not all(q.attrs["_sorted"] for q in r):
                return FALSE
            cosets = [frozenset(mulm(q.attrs["_g"], s) for s in stab) for q in r]
            return TRUE if len(set(cosets)) == len(cosets) == 8 // len(stab) and cosets[0] == frozenset(stab) else FALSE
        c.ensures_cond("every orientation up to translation exactly once, the cluster itself first, all in normal order", post)


def same(got, want, axes):
    """TRUE iff the symbolic array equals want(i, ...) for every index; got has the given dimensions"""
    got = S.toarr(got)
    why = comp_shape_ok(got.axes, axes)
    if why:
        return FALSE
    ix = [E(X.fresh_int("i")) for _ in axes]
    dep = X.hyp_depth()
    X.push_hyps([c_ for i, n in zip(ix, axes) for c_ in (le(0, i), lt(i, E(n)))])
    try:
        return TRUE if X.iszero(S.numv(got(*ix)) - E(want(*ix))) else FALSE
    finally:
        X.pop_to(dep)


@contract(P, N_ + "get_reduced_subclusters", name="multiplicity matrix of the merged clusters from the full subcluster matrix")
def _red(c):
    nf, nr, n = c.dim("nf", 1, 5), c.dim("nr", 1, 3), c.dim("n", 1, 5)
    sc, cr = c.arr("sc", (nf, nf), sparse="csc"), c.arr("cr", (nr, nf), sparse="csr")
    lists = [["a", "b"], ["c"], ["d", "e", "f"]]
    # precondition (contract of reduce_clusters_by_geometry): every merged cluster has at least one member
    rows = lambda i: ssum(0, nf, lambda k: cr(i, k))

    def run(call, v):
        if call.symbolic:
            return call(N_ + "get_reduced_subclusters", "parent")
        pts = sample_points(np.random.default_rng(v.n * 100 + v.nf * 10 + v.nr), v.n)
        geo = call("ed_geometry.Geometry.createNonPeriodicGeometry", np.array([p[0] for p in pts]), np.array([p[1] for p in pts]))
        full = call(N_ + "get_all_subclusters", geo)
        red = call(N_ + "reduce_clusters_by_geometry", full[0], use_symmetry=True)
        return call(N_ + "get_reduced_subclusters", geo), full, red
    c.calls(run)

    def full(I, fn, loc):
        return "full", "indices", c.arrs["sc"]

    def red(I, fn, loc):
        if loc["cluster_orders_list"] != "full" or loc["use_symmetry"] is not True:
            raise Unsupported("clusters of another parent")
        return [list(q) for q in lists], "multiplicities", c.arrs["cr"]
    c.stubs[N_ + "get_all_subclusters"], c.stubs[N_ + "reduce_clusters_by_geometry"] = full, red

    def post(r, v, symbolic):
        if symbolic:
            return same(r[1], lambda i, j: X.inv(rows(i)) * ssum(0, nf, lambda k: ssum(0, nf, lambda l: cr(i, k) * sc(k, l) * cr(j, l))), (nr, nr))
        res, full, red = r
        C, M = red[2].toarray(), full[2].toarray()
        return np.allclose(dense(res[1]), (C @ M @ C.T) / C.sum(1)[:, None])
    c.ensures_cond("entry (i, j): pairs (full i' of class i, full j' of class j) with j' in i', per member of class i", post)

    def flat(r, v, symbolic):
        if symbolic:
            return TRUE if r[0] == [q for l in lists for q in l] and r[2] == [0, 2, 3, 6] else FALSE
        res, full, red = r
        return len(res[0]) == sum(map(len, red[0])) and list(res[2]) == list(np.cumsum([0] + [len(q) for q in red[0]])) and \
            [normal(points(q)) for q in res[0]] == [normal(points(q)) for l in red[0] for q in l]
    c.ensures_cond("clusters by increasing order with the order boundaries (three orders)", flat)


# ---------------------------------------------------------------- worklists: loops by invariant
from .. import worklist as W_


def wl_run(call, dom, f):
    """run the function; the outcome is the dict of obligations of the path"""
    dom.reset()
    dom.step.new = []
    try:
        r = f()
    except W_.PathDone as d:
        out = d.obs
    else:
        out = dom.step.returned(dom, r)
    return out


MOVES = ((0, 1), (0, -1), (1, 1), (1, -1))


class NextOrder(W_.Step):
    """invariant of get_clusters_next_order: no two listed clusters are equivalent, every listed cluster is a cluster of the input with
    one neighbouring site added, its multiplicity is the number of orientations, and every candidate met so far is equivalent to a
    listed cluster"""
    def __init__(self, symm, nc, lv):
        self.F, self.nc, self.lv = "orb" if symm else "iso", nc, lv
        self.new, self.roles = [], set()

    def where(self, W, stack):
        if len(stack) not in (2, 3) or not X.iszero(E(stack[0]["it"].n) - self.nc):
            raise Unsupported("loops over other sequences")
        cl = stack[0]["it"].item(stack[0]["i"])
        cl = [z for z in (cl if isinstance(cl, tuple) else (cl,)) if W.isobj(z)][0]
        if not X.iszero(E(stack[1]["it"].n) - E(cl.attrs["nsites"])):
            raise Unsupported("inner loop over another sequence")
        return cl, stack[1]["i"]

    def candidates(self, W, stack):
        cl, s = self.where(W, stack)
        xs, ys = cl.attrs["xlocs"], cl.attrs["ylocs"]
        out = []
        moves = [[sg * self.lv[k](j) for j in (0, 1)] for k, sg in MOVES]
        if len(stack) == 3:                 # loop over the list of moves: it must be the four moves
            if not isinstance(stack[2]["it"], list):
                raise Unsupported("innermost loop over another sequence")
            lst = [[S.numv(S.toarr(q)(j)) for j in (0, 1)] for q in stack[2]["it"]]
            hit = lambda a, b: all(X.iszero(p - q) for p, q in zip(a, b))
            if not all(any(hit(a, b) for b in moves) for a in lst):
                raise Unsupported("innermost loop over another sequence")
            self.allmoves = TRUE if all(any(hit(a, b) for b in lst) for a in moves) else FALSE
            moves = [lst[stack[2]["i"]]]
        else:
            self.allmoves = TRUE
        for dx, dy in moves:
            x, y = S.numv(xs(s)) + dx, S.numv(ys(s)) + dy
            occupied = cnot(eq(ssum(0, E(cl.attrs["nsites"]), lambda i: X.indicator(cand(eq(S.numv(xs(i)), x), eq(S.numv(ys(i)), y)))), 0))
            out.append((cnot(occupied), W.add(cl, x, y)))
        return out

    def appended(self, W, col, x):
        self.new.append((x, cand(cnot(col.table.isin(self.F, W.cls(self.F, x))), TRUE if x.attrs["_sorted"] else FALSE)))

    def end(self, W, stack):
        new, self.new = self.new, []
        tables = [t for t in W.tables if any(c.new for c in t.cols.values())]
        if "inner" in stack[-1]:
            if new or tables:
                raise Unsupported("list filled outside the innermost loop")
            return {}
        cands = self.candidates(W, stack)
        t = W.tables[0]
        if len(W.tables) != 1 or len(t.cols) != 2:
            raise Unsupported("other lists")
        objs = t.objects()
        if len(objs) != len(new):
            raise Unsupported("list filled in another way")
        mult = next((c for c in t.cols.values() if c.new is not objs), None)
        out = {"distinct": [], "sound": [], "mult": [], "complete": [self.allmoves]}
        for (x, c), o in zip(new, objs):
            out["distinct"].append(c)
            out["sound"].append(cor(*[cand(free, eq(x.attrs["_key"], key)) for free, key in cands]))
        if mult is None:
            if objs:
                raise Unsupported("lists of clusters and multiplicities")
        elif len(mult.new) != len(objs):
            out["mult"].append(FALSE)
        else:
            if objs:
                self.roles.add((next(c.name for c in t.cols.values() if c.new is objs), mult.name))
            for o, q in zip(objs, mult.new):
                out["mult"].append(eq(E(q), W.orbit_size(o) if self.F == "orb" else 1))
        for free, key in cands:
            out["complete"].append(cor(cnot(free), t.isin(self.F, W.F(self.F, key))))
        if t.log:
            raise Unsupported("rows changed")
        return out

    def returned(self, W, r):
        self.new = []
        ok = isinstance(r, tuple) and len(r) == 2 and all(isinstance(q, W_.Col) and not q.new for q in r) and r[0].table is r[1].table and self.roles == {(r[0].name, r[1].name)}
        return {"result": [TRUE if ok else FALSE]}


def neighbours_free(pts, lv):
    for p in pts:
        for k, s in MOVES:
            q = (p[0] + s * lv[k][0], p[1] + s * lv[k][1])
            if q not in pts:
                yield q


OBS = ("distinct", "sound", "mult", "complete", "result")
TEXT = {"distinct": "a cluster is added only if no listed cluster is equivalent, and in normal order", "sound": "an added cluster is one of the input with a free neighbouring site",
        "mult": "its multiplicity is its number of orientations", "complete": "every neighbouring free site of every cluster leads to a listed cluster",
        "result": "the filled lists are returned"}

for symm in (False, True):
    @contract(P, N_ + "get_clusters_next_order", name="next order of the infinite lattice" + (", up to symmetry" if symm else ""))
    def _next(c, symm=symm):
        nc = c.dim("nc", 1, 3)
        n = c.dim("n", 1, 4)
        lv = [c.arr(nm, (2,), sample=lambda r, s, sh, k=k: np.array([[1., 0.], [0., 1.]])[k]) for k, nm in enumerate(("lv1", "lv2"))]
        step = NextOrder(symm, nc, lv)
        if not symm:
            c.lean("every connected cluster of two or more sites is a connected cluster with one site added", "Cluster.lean", "cluster_has_removable_site")
        dom = W_.Clusters(c, step)

        def cluster(k):
            f = {nm: Arr([S.plain(n)], lambda ix, nm=nm, k=k: X.fn(nm, [E(k), E(ix[0])], "real"), "f") for nm in ("cx", "cy")}
            return dom.obj(X.fn("ckey", [E(k)], "int", "real"), f["cx"], f["cy"], n)

        def run(call, v):
            if call.symbolic:
                return wl_run(call, dom, lambda: call(N_ + "get_clusters_next_order", S.SymSeq(nc, cluster), v.lv1, v.lv2, symm))
            start = call(N_ + "get_clusters_next_order", None, v.lv1, v.lv2, symm)[0]
            for _ in range(v.n - 1):
                start = call(N_ + "get_clusters_next_order", start, v.lv1, v.lv2, symm)[0]
            start = start[:v.nc]
            return start, call(N_ + "get_clusters_next_order", start, v.lv1, v.lv2, symm)
        c.calls(run)

        def real(r, v):
            start, (lst, mult) = r
            cls = (lambda pts: min(tuple(sorted(normal(image(g, pts)))) for g in D4)) if symm else (lambda pts: tuple(sorted(normal(pts))))
            want = {cls(points(q) + [p]) for q in start for p in neighbours_free(points(q), (v.lv1, v.lv2))}
            got = [cls(points(q)) for q in lst]
            return len(set(got)) == len(got) and set(got) == want and list(mult) == [len({normal(image(g, points(q))) for g in D4}) if symm else 1 for q in lst]
        for ob_ in OBS:
            c.ensures_cond(TEXT[ob_], lambda r, v, symbolic, ob_=ob_: (cand(*r.get(ob_, [TRUE]))) if symbolic else real(r, v))


@contract(P, N_ + "get_clusters_next_order", name="the first order is one site with multiplicity one")
def _first(c):
    c.integer("d", 0, 1)

    def run(call, v):
        return call(N_ + "get_clusters_next_order")
    c.calls(run)
    dom = W_.Clusters(c, W_.Step())

    def post(r, v, symbolic):
        if symbolic:
            ok = len(r[0]) == 1 and dom.isobj(r[0][0]) and X.iszero(r[0][0].attrs["_key"] - X.fn("single", [E(0), E(0)], "int", "real")) and r[1] == [1]
            return TRUE if ok else FALSE
        return len(r[0]) == 1 and r[0][0].nsites == 1 and list(r[1]) == [1]
    c.ensures_cond("one site, once", post)


# ---------------------------------------------------------------- subclusters of a parent
class Sub(W_.Step):
    """invariant of get_subclusters_next_order: the listed subclusters are pairwise different, each is a cluster of the input with one
    adjacent site of the parent added, every such candidate met so far is listed, and the entry of a listed subcluster in the second list
    holds exactly the indices of the clusters it was built from"""
    def __init__(self, nc, np_, adj, px, py):
        self.nc, self.np, self.adj, self.px, self.py = nc, np_, adj, px, py
        self.new, self.roles = [], set()

    def appended(self, W, col, x):
        self.new.append((x, cand(cnot(col.table.isin("set", W.cls("set", x))), TRUE if x.attrs["_sorted"] else FALSE)))

    def end(self, W, stack):
        new, self.new = self.new, []
        t = W.tables[0]
        if "inner" in stack[-1]:
            if new or any(c.new for c in t.cols.values()) or t.log:
                raise Unsupported("list filled outside the innermost loop")
            return {}
        if len(stack) != 3 or not X.iszero(E(stack[0]["it"].n) - self.nc) or not X.iszero(E(stack[2]["it"].n) - self.np):
            raise Unsupported("loops over other sequences")
        c_, s, k = (q["i"] for q in stack)
        cl = stack[0]["it"].item(c_)
        cl = [z for z in (cl if isinstance(cl, tuple) else (cl,)) if W.isobj(z)][0]
        if not X.iszero(E(stack[1]["it"].n) - E(cl.attrs["nsites"])):
            raise Unsupported("loops over other sequences")
        xs, ys = cl.attrs["xlocs"], cl.attrs["ylocs"]
        js = [j for it, j in W.hits if X.iszero(E(it.n) - self.np)]
        if len(js) != 1 or not X.implied(cand(eq(self.px(js[0]), S.numv(xs(s))), eq(self.py(js[0]), S.numv(ys(s))))):
            raise Unsupported("parent index of a site of the cluster")
        x, y = self.px(k), self.py(k)
        occupied = cnot(eq(ssum(0, E(cl.attrs["nsites"]), lambda i: X.indicator(cand(eq(S.numv(xs(i)), x), eq(S.numv(ys(i)), y)))), 0))
        cond, key = cand(eq(self.adj(js[0], k), 1), cnot(occupied)), W.add(cl, x, y)
        if len(W.tables) != 1 or len(t.cols) != 2:
            raise Unsupported("other lists")
        objs = t.objects()
        if len(objs) != len(new):
            raise Unsupported("list filled in another way")
        other = next((c for c in t.cols.values() if c.new is not objs), None)
        out = {"distinct": [c for x, c in new], "sound": [cand(cond, eq(x.attrs["_key"], key)) for x, c in new],
               "complete": [cor(cnot(cond), t.isin("set", key))], "from": []}
        recorded = []
        if objs:
            if len(other.new) != len(objs):
                out["from"].append(FALSE)
            else:
                self.roles.add((next(c.name for c in t.cols.values() if c.new is objs), other.name))
                for o, l in zip(objs, other.new):
                    if not isinstance(l, list) or len(l) != 1:
                        out["from"].append(FALSE)
                        continue
                    out["from"].append(eq(E(l[0]), c_))
                    recorded.append(eq(o.attrs["_key"], key))
        elif any(c.new for c in t.cols.values()):
            out["from"].append(FALSE)
        for col, how, row, val in t.log:
            if how != "append" or self.roles and col not in {b for a, b in self.roles}:
                raise Unsupported("rows changed in another way")
            out["from"] += [cond, eq(E(val), c_), eq(t.key(row), key)]
            recorded.append(eq(t.key(row), key))
        out["from"].append(cor(cnot(cond), *recorded))
        return out

    def returned(self, W, r):
        self.new = []
        ok = isinstance(r, tuple) and len(r) == 2 and all(isinstance(q, W_.Col) and not q.new for q in r) and r[0].table is r[1].table and self.roles == {(r[0].name, r[1].name)}
        return {"result": [TRUE if ok else FALSE]}


def parent_fix(rng, syms, fns, vals):
    pts = sample_points(rng, syms["np"])
    rng.shuffle(pts)
    for k, nm in enumerate(("px", "py")):
        vals[nm] = np.array([p[k] for p in pts], float)
        fns[nm] = lambda i, a=vals[nm]: a[i]


def subsets(pts, k):
    """connected subsets of k points"""
    cur = {frozenset([p]) for p in pts}
    for _ in range(k - 1):
        cur = {s | {q} for s in cur for p in s for q in pts if q not in s and abs(p[0] - q[0]) + abs(p[1] - q[1]) == 1}
    return cur


STEXT = {"distinct": "a subcluster is added only if it is not listed, and in normal order", "sound": "an added subcluster is one of the input with an adjacent site of the parent",
         "complete": "every adjacent site of the parent outside a cluster leads to a listed subcluster", "from": "the second list holds exactly the clusters each subcluster was built from",
         "result": "the filled lists are returned"}


@contract(P, N_ + "get_subclusters_next_order", name="next order of the subclusters of a parent")
def _sub(c):
    nc, n, npar = c.dim("nc", 1, 4), c.dim("n", 1, 4), c.dim("np", 1, 6)
    px, py = c.arr("px", (npar,)), c.arr("py", (npar,))
    adj = c.arr("adj", (npar, npar))
    c.fixup.append(parent_fix)
    step = Sub(nc, npar, adj, px, py)
    dom = W_.Clusters(c, step)
    # precondition: site i of cluster k is the site(k, i) of the parent
    site = lambda k, i: X.fn("site", [E(k), E(i)], "int", "real", "nonneg", "lt:np")
    dom.witness = lambda it: [site(dom.stack[0]["i"], dom.stack[1]["i"])] if len(dom.stack) > 1 and X.iszero(E(it.n) - npar) else []

    def cluster(k):
        f = [Arr([S.plain(n)], lambda ix, z=z, k=k: z(site(k, ix[0])), "f") for z in (px, py)]
        return dom.obj(X.fn("ckey", [E(k)], "int", "real"), f[0], f[1], n)

    def run(call, v):
        if call.symbolic:
            par = call.obj("ed_geometry.Geometry", xlocs=v.px, ylocs=v.py, nsites=v.np, adjacency_mat=v.adj)
            return wl_run(call, dom, lambda: call(N_ + "get_subclusters_next_order", par, S.SymSeq(nc, cluster)))
        par = call("ed_geometry.Geometry.createNonPeriodicGeometry", v.px, v.py)
        lst = call(N_ + "get_subclusters_next_order", par)[0]
        for _ in range(min(v.n, v.np) - 1):
            lst = call(N_ + "get_subclusters_next_order", par, lst)[0]
        return lst, call(N_ + "get_subclusters_next_order", par, lst)
    c.calls(run)

    def real(r, v):
        lst, (out, frm) = r
        pts = list(zip(v.px, v.py))
        keys = [frozenset(points(q)) for q in out]
        want = subsets(pts, min(v.n, v.np) + 1) if min(v.n, v.np) < v.np else set()
        old = [frozenset(points(q)) for q in lst]
        return len(set(keys)) == len(keys) == len(frm) and set(keys) == want and all(set(f) == {i for i, o in enumerate(old) if o < q} for f, q in zip(frm, keys))
    for ob_ in STEXT:
        c.ensures_cond(STEXT[ob_], lambda r, v, symbolic, ob_=ob_: (cand(*r.get(ob_, [TRUE]))) if symbolic else real(r, v))


class SubFirst(W_.Step):
    def __init__(self, np_, px, py):
        self.np, self.px, self.py = np_, px, py
        self.roles = set()

    def end(self, W, stack):
        t = W.tables[0]
        if len(stack) != 1 or not X.iszero(E(stack[0]["it"].n) - self.np) or len(W.tables) != 1 or len(t.cols) != 2 or t.log:
            raise Unsupported("loops over other sequences")
        k = stack[0]["i"]
        objs = t.objects()
        other = [c for c in t.cols.values() if c.new is not objs][0]
        ok = len(objs) == 1 and len(other.new) == 1 and other.new[0] == []
        self.roles.add((next(c.name for c in t.cols.values() if c.new is objs), other.name))
        return {"site": [eq(objs[0].attrs["_key"], X.fn("single", [self.px(k), self.py(k)], "int", "real")) if ok else FALSE]}

    def returned(self, W, r):
        ok = isinstance(r, tuple) and len(r) == 2 and all(isinstance(q, W_.Col) and not q.new for q in r) and r[0].table is r[1].table and self.roles == {(r[0].name, r[1].name)}
        return {"result": [TRUE if ok else FALSE]}


@contract(P, N_ + "get_subclusters_next_order", name="the first order are the sites of the parent")
def _sub1(c):
    npar = c.dim("np", 1, 6)
    px, py = c.arr("px", (npar,)), c.arr("py", (npar,))
    c.fixup.append(parent_fix)
    step = SubFirst(npar, px, py)
    dom = W_.Clusters(c, step)

    def run(call, v):
        if call.symbolic:
            par = call.obj("ed_geometry.Geometry", xlocs=v.px, ylocs=v.py, nsites=v.np)
            return wl_run(call, dom, lambda: call(N_ + "get_subclusters_next_order", par))
        return call(N_ + "get_subclusters_next_order", call("ed_geometry.Geometry.createNonPeriodicGeometry", v.px, v.py))
    c.calls(run)
    real = lambda r, v: [points(q) for q in r[0]] == [[p] for p in zip(v.px, v.py)] and list(r[1]) == [[]] * v.np
    for ob_, tx in (("site", "one cluster per site, in order, without subclusters"), ("result", "the filled lists are returned")):
        c.ensures_cond(tx, lambda r, v, symbolic, ob_=ob_: (cand(*r.get(ob_, [TRUE]))) if symbolic else real(r, v))


# ---------------------------------------------------------------- merging equivalent subclusters
class Merge(W_.Step):
    """invariant of reduce_clusters_by_geometry. Within an order: the listed clusters are pairwise inequivalent members of the order, every
    cluster met so far is equivalent to a listed one, the number of clusters met is counted at its representative, and its row of the
    matrix has its single unit entry in the column of the representative. Between orders: the two offsets are the numbers of clusters
    and of representatives of the previous orders."""
    def __init__(self, symm, no, size):
        self.F, self.no, self.size = "orb" if symm else "iso", no, size
        self.new, self.roles, self.offs = [], set(), set()

    def appended(self, W, col, x):
        self.new.append((x, cand(cnot(col.table.isin(self.F, W.cls(self.F, x))), TRUE if x.attrs["_sorted"] else FALSE)))

    def end(self, W, stack):
        new, self.new = self.new, []
        if not X.iszero(E(stack[0]["it"].n) - self.no) or len(W.tables) < 1:
            raise Unsupported("loops over other sequences")
        q = stack[0]["i"]
        mats = list(stack[0]["matrices"].values())
        if len(mats) != 1:
            raise Unsupported("matrices")
        if len(stack) == 1:
            inner = stack[0].get("inner")
            if inner is None or new or mats[0].log:
                raise Unsupported("another loop structure")
            t1, t2 = stack[0]["table"], inner["table"]
            if t1 is None or t2 is None or t1.log or t2.log or len(t1.cols) != 2:
                raise Unsupported("another loop structure")
            ok = all(len(c.new) == 1 and isinstance(c.new[0], W_.Col) and c.new[0].table is t2 and not c.new[0].new for c in t1.cols.values())
            self.outer = {nm: c.new[0].name for nm, c in t1.cols.items()} if ok else None
            offs = [TRUE if ok else FALSE]
            self.final = {}
            for nm, e in stack[0]["carried"].items():
                d = stack[0]["end"][nm] - e
                if (nm, "full") in self.offs:
                    offs += [eq(d, self.size(q)), eq(stack[0]["start"][nm], 0)]
                if (nm, "reduced") in self.offs:
                    offs += [eq(d, t2.m), eq(stack[0]["start"][nm], 0)]
            if {k for _, k in self.offs} != {"full", "reduced"}:
                offs.append(FALSE)
            return {"offsets": offs}
        if len(stack) != 2 or not X.iszero(E(stack[1]["it"].n) - self.size(q)):
            raise Unsupported("loops over other sequences")
        t, i = stack[1]["table"], stack[1]["i"]
        cl = stack[1]["it"].item(i)
        cl = [z for z in (cl if isinstance(cl, tuple) else (cl,)) if W.isobj(z)][0]
        if t is None or len(t.cols) != 2:
            raise Unsupported("other lists")
        objs = t.objects()
        if len(objs) != len(new) or any(c.new for c in stack[0]["table"].cols.values()):
            raise Unsupported("list filled in another way")
        other = next((c for c in t.cols.values() if c.new is not objs), None)
        mine = W.cls(self.F, cl)
        out = {"distinct": [c for x, c in new], "sound": [eq(x.attrs["_key"], cl.attrs["_key"]) for x, c in new], "complete": [t.isin(self.F, mine)], "count": [], "matrix": []}
        spots = []
        if objs:
            self.roles.add((next(c.name for c in t.cols.values() if c.new is objs), other.name))
            out["count"].append(TRUE if len(objs) == 1 and len(other.new) == 1 and not t.log and X.iszero(E(other.new[0]) - 1) else FALSE)
            spots = [t.m]
        else:
            ok = len(t.log) == 1 and t.log[0][1] == "set" and isinstance(t.log[0][3], tuple) and t.log[0][3][0] == "cell plus"
            if not ok:
                out["count"].append(FALSE)
            else:
                col, _, row, (_, cell, inc) = t.log[0]
                if self.roles and col not in {b for a, b in self.roles}:
                    raise Unsupported("rows changed in another way")
                out["count"].append(cand(eq(W.F(self.F, t.key(row)), mine), eq(E(inc), 1), eq(cell.k, row), TRUE if cell.col.name == col else FALSE))
                spots = [row]
        log = mats[0].log
        if len(log) != 1 or not spots:
            out["matrix"].append(FALSE)
        else:
            a, b, v = log[0]
            full = [nm for nm, e in stack[0]["carried"].items() if X.iszero(a - i - e)]
            red = [nm for nm, e in stack[0]["carried"].items() if X.iszero(b - spots[0] - e)]
            if len(full) == 1 and len(red) == 1:
                self.offs |= {(full[0], "full"), (red[0], "reduced")}
            out["matrix"].append(cand(eq(v, 1), TRUE if len(full) == 1 and len(red) == 1 else FALSE))
        return out

    def returned(self, W, r):
        self.new = []
        ok = isinstance(r, tuple) and len(r) == 3 and all(isinstance(q, W_.Col) and not q.new for q in r[:2]) and r[0].table is r[1].table
        ok = ok and self.outer is not None and self.roles == {(self.outer.get(r[0].name), self.outer.get(r[1].name))}
        m = r[2] if ok else None
        red = [nm for nm, k in self.offs if k == "reduced"]
        tot = W.ctx_after["carried"].get(red[0]) if ok and len(red) == 1 else None
        ok = ok and isinstance(m, W_.View) and m.t and not m.m.log and tot is not None and X.iszero(m.shape[0] - m.m.shape[0]) and X.iszero(m.shape[1] - tot) and \
            X.iszero(m.m.shape[0] - ssum(0, self.no, self.size))
        return {"result": [TRUE if ok else FALSE]}

    def after(self, W, ctx):
        W.ctx_after = ctx


MTEXT = {"distinct": "a cluster is added only if no listed cluster of its order is equivalent", "sound": "an added cluster is a cluster of the order", "complete": "every cluster is equivalent to a listed one",
         "count": "it is counted exactly once, at its representative", "matrix": "its only unit entry is in the column of its representative", "offsets": "columns and rows are numbered through the orders",
         "result": "lists and the transposed matrix without empty rows are returned"}

for symm in (False, True):
    @contract(P, N_ + "reduce_clusters_by_geometry", name="merging equivalent clusters" + (" up to symmetry" if symm else ""))
    def _merge(c, symm=symm):
        no, n = c.dim("no", 1, 3), c.dim("n", 1, 5)
        size = lambda q: X.fn("size", [E(q)], "int", "real", "pos")
        step = Merge(symm, no, size)
        dom = W_.Clusters(c, step)
        cluster = lambda q, k: dom.obj(X.fn("ckey", [E(q), E(k)], "int", "real"), None, None, 0)
        orders = lambda: S.SymSeq(no, lambda q: S.SymSeq(size(q), lambda k: cluster(q, k)))

        def run(call, v):
            if call.symbolic:
                return wl_run(call, dom, lambda: call(N_ + "reduce_clusters_by_geometry", orders(), symm))
            pts = sample_points(np.random.default_rng(v.n * 10 + v.no), v.n)
            geo = call("ed_geometry.Geometry.createNonPeriodicGeometry", np.array([p[0] for p in pts]), np.array([p[1] for p in pts]))
            lst = call(N_ + "get_all_subclusters", geo)[0][:v.no]
            return lst, call(N_ + "reduce_clusters_by_geometry", lst, symm)
        c.calls(run)

        def real(r, v):
            lst, (dist, mult, mat) = r
            cls = (lambda q: min(tuple(sorted(normal(image(g, points(q))))) for g in D4)) if symm else (lambda q: tuple(sorted(normal(points(q)))))
            mat = dense(mat)
            rows = [cls(q) for l in dist for q in l]
            cols = [cls(q) for l in lst for q in l]
            return all(list(map(cls, d)) == list(dict.fromkeys(map(cls, l))) for d, l in zip(dist, lst)) and len(dist) == len(lst) and \
                [list(m) for m in mult] == [[list(map(cls, l)).count(cls(q)) for q in d] for d, l in zip(dist, lst)] and \
                mat.shape == (len(rows), len(cols)) and np.array_equal(mat, [[float(a == b) for b in cols] for a in rows])
        for ob_ in MTEXT:
            c.ensures_cond(MTEXT[ob_], lambda r, v, symbolic, ob_=ob_: (cand(*r.get(ob_, [TRUE]))) if symbolic else real(r, v))


class MapStep(W_.Step):
    def __init__(self, symm, s, l, no):
        self.F, self.s, self.l, self.no = "orb" if symm else "iso", s, l, no

    def end(self, W, stack):
        if "inner" in stack[-1]:
            if any(m.log for m in stack[0]["matrices"].values()):
                raise Unsupported("matrix filled outside the innermost loop")
            return {}
        if len(stack) != 3:
            raise Unsupported("another loop structure")
        o, i, j = (q["it"].item(q["i"]) for q in stack)
        o, i, j = E(o), E(i), E(j)
        mats = list(stack[0]["matrices"].values())
        if len(mats) != 1 or W.tables:
            raise Unsupported("matrices")
        mine = eq(W.F(self.F, X.fn("skey", [i], "int", "real")), W.F(self.F, X.fn("lkey", [j], "int", "real")))
        log = mats[0].log
        rng = cand(eq(E(stack[1]["it"].n), self.s(o + 1) - self.s(o)), eq(E(stack[2]["it"].n), self.l(o + 1) - self.l(o)), eq(i - stack[1]["i"], self.s(o)), eq(j - stack[2]["i"], self.l(o)),
                   eq(o, stack[0]["i"]), eq(E(stack[0]["it"].n), self.no))
        return {"range": [rng], "entry": [cand(mine, *[cand(eq(a, i), eq(b, j), eq(v, 1)) for a, b, v in log]) if log else cnot(mine)]}

    def returned(self, W, r):
        return {"result": [TRUE if isinstance(r, W_.Matrix) and X.iszero(r.shape[0] - X.sym("ns", "int", "real", "pos")) and X.iszero(r.shape[1] - X.sym("nl", "int", "real", "pos")) else FALSE]}


for symm in (False, True):
    @contract(P, N_ + "map_between_cluster_bases", name="map between cluster lists" + (" up to symmetry" if symm else ""))
    def _map(c, symm=symm):
        ns, nl, no = c.dim("ns", 1, 4), c.dim("nl", 1, 4), c.dim("no", 1, 3)
        so, lo = (c.arr(nm, (no + 1,), "i", ("nonneg", "sorted", "le:" + k)) for nm, k in (("so", "ns"), ("lo", "nl")))
        step = MapStep(symm, so, lo, no)
        dom = W_.Clusters(c, step)

        def run(call, v):
            if call.symbolic:
                lists = [S.SymSeq(m, lambda k, nm=nm: dom.obj(X.fn(nm, [E(k)], "int", "real"), None, None, 0)) for m, nm in ((nl, "lkey"), (ns, "skey"))]
                lst = lambda a: S.SymSeq(no + 1, lambda k: S.mkscalar(S.numv(a(E(k))), "i", py="int"))
                return wl_run(call, dom, lambda: call(N_ + "map_between_cluster_bases", lists[0], lst(v.lo), lists[1], lst(v.so), symm))
            big = call(N_ + "get_all_clusters", v.no, use_symmetry=symm)
            pts = sample_points(np.random.default_rng(v.ns * 10 + v.nl), v.no)
            geo = call("ed_geometry.Geometry.createNonPeriodicGeometry", np.array([p[0] for p in pts]), np.array([p[1] for p in pts]))
            small = call(N_ + "get_reduced_subclusters", geo, use_symmetry=symm)
            return big, small, call(N_ + "map_between_cluster_bases", big[0], big[2], small[0], small[2], symm)
        c.calls(run)

        def real(r, v):
            cls = (lambda q: min(tuple(sorted(normal(image(g, points(q))))) for g in D4)) if symm else (lambda q: tuple(sorted(normal(points(q)))))
            return np.array_equal(dense(r[2]), [[float(cls(a) == cls(b)) for b in r[0][0]] for a in r[1][0]])
        for ob_, tx in (("range", "all pairs of the same order are compared"), ("entry", "the entry is one exactly for equivalent clusters"), ("result", "the matrix is returned")):
            c.ensures_cond(tx, lambda r, v, symbolic, ob_=ob_: (cand(*r.get(ob_, [TRUE]))) if symbolic else real(r, v))
