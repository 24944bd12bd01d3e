"""Loop invariants for functions that build lists without duplicates.

A loop over a symbolic sequence is verified by induction: the lists the function fills (columns of one table) are replaced by arbitrary
lists satisfying the invariant, the body is executed once for an arbitrary element, and the contract's step obligations are discharged at
the end of the body (the path ends there); on the other branch execution continues behind the loop with arbitrary lists.

A table has m rows k < m; key(k) is the (opaque) identity of the k-th cluster. Membership of a class t under a class function F
(site set / set up to translation / up to translation and point group) is the predicate In:F(t), i.e. "some row k has F(key(k)) = t".
"""
import ast
import numpy as np
from . import expr as X, sym as S
from .expr import E, Unsupported, cand, cor, cnot, eq, le, lt, TRUE, FALSE, Cond
from .sym import Arr, SymSeq


class PathDone(Exception):
    def __init__(self, obs):
        self.obs = obs


def condof(v):
    """the truth of a value as a condition, without branching"""
    if isinstance(v, Cond):
        return v
    if isinstance(v, Found):
        return v.nonempty()
    if isinstance(v, Arr):
        return S.tocond(v.val())
    if isinstance(v, (bool, np.bool_, list, tuple)):
        return TRUE if v else FALSE
    raise Unsupported("truth value inside a comprehension")


def quantified(f):
    """evaluate f() for an arbitrary element: no path may be split on it"""
    def no(c):
        raise Unsupported("branch on an arbitrary element")
    old, S.BRANCH[0] = S.BRANCH[0], no
    try:
        return f()
    finally:
        S.BRANCH[0] = old


class Abstract:
    """anything the code does with an abstract value that is not modelled is outside the engine's reach (never an error of the code)"""
    def __getattr__(self, a):
        if a.startswith(("wl_", "__", "_")) or a in ("attrs", "is_symbolic_operator", "counted", "ghost", "full", "symbolic_ok", "sparse", "matrix"):
            raise AttributeError(a)
        raise Unsupported(f"{a} of a list under construction")

    def _no(self, *a, **k):
        raise Unsupported("operation on a list under construction")
    __getitem__ = __iter__ = __len__ = __contains__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __lt__ = __gt__ = __le__ = __ge__ = __reversed__ = __neg__ = __bool__ = _no


class Found(Abstract):
    """result of a comprehension with a condition: parts (exists condition, witness()) in order"""
    def __init__(self, parts):
        self.parts = parts

    def nonempty(self):
        return cor(*[c for c, w in self.parts]) if self.parts else FALSE

    def wl_compare(self, op, o):
        if isinstance(o, list) and not o:
            c = self.nonempty()
            return S.mkscalar(cnot(c) if op == "eq" else c, "b")
        raise Unsupported("comparison of a filtered list")

    def wl_truth(self):
        return S.decide(self.nonempty())

    def first(self):
        for k, (c, w) in enumerate(self.parts):
            if S.decide(c):
                return w()
        raise S.Raised("IndexError", "list index out of range")

    def wl_item(self, k):
        if k != 0:
            raise Unsupported("entry of a filtered list")
        return self.first()

    def __iter__(self):
        from .interp import Poison
        w = self.first()
        yield w
        if isinstance(w, tuple):
            yield tuple(Poison("a later match") for _ in w)
        else:
            yield Poison("a later match")

    def wl_len(self):
        raise Unsupported("length of a filtered list")


class Table:
    def __init__(self, W):
        self.W = W
        self.cols = {}            # name -> Col
        self.havoc()

    def havoc(self):
        self.tag = str(next(X._ids))
        self.m = X.sym("rows:" + self.tag, "int", "real", "nonneg")
        self.log = []             # changes of existing rows: (column, row, value appended)
        for c in self.cols.values():
            c.new = []

    def key(self, k):
        return X.fn("key:" + self.tag, [E(k)], "int", "real")

    def isin(self, F, t):
        """some row (old or appended) has class t under F"""
        return cor(X.pred(f"In:{F}:{self.tag}", [t]), *[eq(self.W.cls(F, o), t) for o in self.objects()])

    def objects(self):
        for c in self.cols.values():
            if any(self.W.isobj(x) for x in c.new):
                return c.new
        return []

    def exists(self, cond, k):
        """'some old row k satisfies cond(k)', for cond(k) of the form F(key(k)) = t"""
        c = cond
        if c.const is not None:
            return FALSE if c.const is False else lt(0, self.m)
        kk = self.key(k)
        v = next(iter(k.free()))
        for F in self.W.classes:
            f = self.W.F(F, kk)
            t = X.fn("any", [0], "int", "real")
            pat = eq(f, t)
            if c.op == "eq":
                d = c.e[0]
                for s in (1, -1):
                    rest = f - d * s
                    if v not in rest.free() and eq(f, rest).key == c.key:
                        return X.pred(f"In:{F}:{self.tag}", [rest])
        raise Unsupported(f"search of a list by {str(c)[:120]}")


class Col(Abstract):
    """one column of a table: the list object the code sees"""
    def __init__(self, table, name):
        self.table, self.name, self.new = table, name, []
    wl_list = True

    def append(self, x):
        self.table.W.appending(self, x)
        self.new.append(x)

    def wl_len(self):
        return S.mkscalar(self.table.m + len(self.new), "i", py="int")

    def wl_truth(self):
        return S.decide(lt(0, self.table.m + len(self.new)))

    def wl_compare(self, op, o):
        if isinstance(o, list) and not o:
            c = eq(self.table.m + len(self.new), 0)
            return S.mkscalar(c if op == "eq" else cnot(c), "b")
        raise Unsupported("comparison of a worklist")

    def row(self, k):
        return self.table.W.element(self, E(k))

    def wl_item(self, k):
        c = E(k).const()
        if c is not None:
            if c[0] < 0 and len(self.new) >= -c[0]:
                return self.new[int(c[0])]
            raise Unsupported("fixed position of a worklist")
        for j, x in enumerate(self.new):
            if X.iszero(E(k) - self.table.m - j):
                return Cell(self, self.table.m + j, x)
        if not X.implied(cand(le(0, E(k)), lt(E(k), self.table.m))):
            raise Unsupported("position of a worklist")
        return Cell(self, E(k), None)

    def wl_set(self, k, v):
        self.table.log.append((self.name, "set", E(k), v))

    def entries(self, wrap=lambda k, x: x):
        k = E(X.fresh_int("k"))
        yield ("row", k, lambda kk: wrap(kk, self.row(kk)))
        for j, x in enumerate(self.new):
            yield ("one", self.table.m + j, wrap(self.table.m + j, x))


class Cell(Abstract):
    """entry of a worklist at a symbolic position: a list itself (append) or a number (v + 1)"""
    wl_list = True

    def __init__(self, col, k, x):
        self.col, self.k, self.x = col, k, x

    def append(self, v):
        if self.x is not None:
            self.x.append(v)
        self.col.table.log.append((self.col.name, "append", self.k, v))

    def __add__(self, v):
        return ("cell plus", self, v)
    __radd__ = __add__


class Enum(Abstract):
    def __init__(self, col):
        self.col = col

    def wl_len(self):
        return self.col.wl_len()


class Orbit(Abstract):
    """the list of all clusters related to x by symmetry (contract of get_clusters_rel_by_symmetry)"""
    def __init__(self, W, x):
        self.W, self.x = W, x

    def wl_len(self):
        return S.mkscalar(self.W.orbit_size(self.x), "i", py="int")


class Clusters:
    """the domain: clusters as opaque identities; owner of the tables and of the loop handler"""
    classes = ("set", "iso", "orb")

    def __init__(self, c, step, element=None, symmetry=True):
        self.c, self.step, self.elementf = c, step, element
        self.known = []
        g = "ed_geometry.Geometry."
        c.stubs[g + "createNonPeriodicGeometry"] = self.create
        c.stubs[g + "get_sorting_permutation"] = self.perm
        c.stubs[g + "permute_sites"] = self.permute
        c.stubs[g + "isequal_adjacency"] = self.isequal
        c.stubs[g + "__eq__"] = self.equal
        if symmetry:
            c.stubs["ed_nlce.get_clusters_rel_by_symmetry"] = self.partners
        c.setup.append(self.install)
        c.merge = True

    def install(self, I):
        self.I = I
        I.wl = self
        self.reset()

    def reset(self):
        self.stack = []
        self.tables = []
        self.hits = []
        del self.known[:]

    # ---- clusters
    def obj(self, key, xs, ys, n, srt=True, **more):
        from .interp import Obj
        if xs is None:
            # nothing is known about the sites: their number and positions are functions of the identity of the cluster
            n = X.fn("nsites of", [E(key)], "int", "real", "pos", "nonneg", "nz")
            xs, ys = (Arr([S.plain(n)], lambda ix, nm=nm: X.fn(nm, [E(key), E(ix[0])], "real"), "f") for nm in ("xloc of", "yloc of"))
        o = Obj(self.I.fn("ed_geometry", "Geometry"), xlocs=xs, ylocs=ys, nsites=S.mkscalar(E(n), "i", py="int"), **more)
        o.attrs.update(_key=E(key), _sorted=srt)
        return o

    def isobj(self, x):
        return hasattr(x, "attrs") and "_key" in x.attrs

    def F(self, F, key):
        return key if F == "set" else X.fn(F, [key], "int", "real")

    def cls(self, F, o):
        return self.F(F, o.attrs["_key"])

    def orbit_size(self, o):
        return X.fn("orbit size", [self.cls("orb", o)], "int", "real", "pos")

    def element(self, col, k):
        if self.elementf:
            r = self.elementf(col, k)
            if r is not None:
                return r
        return self.obj(col.table.key(k), None, None, 0)

    def add(self, o, x, y):
        return X.fn("add", [o.attrs["_key"], E(x), E(y)], "int", "real")

    def create(self, I, fn, loc):
        xs, ys = (S.toarr(np.asarray(z) if isinstance(z, (list, int, float, np.ndarray)) and not S.issym(z) else z) for z in (loc["xlocs"], loc["ylocs"]))
        if xs.ndim == 0 and ys.ndim == 0:
            return self.obj(X.fn("single", [S.numv(xs.val()), S.numv(ys.val())], "int", "real"), xs, ys, 1)
        if xs.ndim != 1 or ys.ndim != 1:
            raise Unsupported("coordinates of a cluster")
        if S.size(xs.axes[0]).const() == S.size(ys.axes[0]).const() and S.size(xs.axes[0]).const() is not None and S.size(xs.axes[0]).const()[0] == 1:
            return self.obj(X.fn("single", [S.numv(xs(0)), S.numv(ys(0))], "int", "real"), xs, ys, 1)
        for o in reversed(self.known):
            p = self.extra(o, xs, ys)
            if p is not None:
                return self.obj(self.add(o, *p), xs, ys, E(o.attrs["nsites"]) + 1, srt=False)
        raise Unsupported("coordinates are not those of a cluster with one more site")

    def extra(self, o, xs, ys):
        """(x, y) if the coordinates are those of cluster o and the site (x, y)"""
        n = E(o.attrs["nsites"])
        got = []
        for a, z in ((xs, o.attrs["xlocs"]), (ys, o.attrs["ylocs"])):
            ax = a.axes[0]
            if ax.kind != "cat" or len(ax.subs) != 2:
                return None
            f = a.snap()
            order = [X.iszero(S.size(s) - n) and z is not None for s in ax.subs]
            ones = [S.size(s).const() is not None and S.size(s).const()[0] == 1 for s in ax.subs]
            for big in (0, 1):
                if order[big] and ones[1 - big]:
                    i = E(X.fresh_int("i"))
                    dep = X.hyp_depth()
                    X.push_hyps([le(0, i), lt(i, n)])
                    try:
                        ok = X.iszero(S.numv(f(((big, i),))) - S.numv(S.toarr(z)(i)))
                    finally:
                        X.pop_to(dep)
                    if ok:
                        got.append((big, S.numv(f(((1 - big, E(0)),)))))
                        break
            else:
                return None
        if got[0][0] != got[1][0]:
            return None
        return got[0][1], got[1][1]

    def perm(self, I, fn, loc):
        return ("sorting", loc["self"])

    def permute(self, I, fn, loc):
        o = loc["self"]
        p = [x for k, x in loc.items() if k != "self"][0]
        if not isinstance(p, tuple) or p[0] != "sorting" or p[1] is not o:
            raise Unsupported("permutation of the sites")
        o.attrs["_sorted"] = True

    def pair(self, loc):
        a, b = loc["self"], [x for k, x in loc.items() if k != "self"][0]
        if not (self.isobj(a) and self.isobj(b)):
            raise Unsupported("comparison of clusters")
        if not (a.attrs["_sorted"] and b.attrs["_sorted"]):
            raise Unsupported("comparison of clusters that are not in normal order")
        return a, b

    def isequal(self, I, fn, loc):
        a, b = self.pair(loc)
        for p, q in ((a, b), (b, a)):
            if "_orbit" in p.attrs:
                if "_orbit" in q.attrs:
                    raise Unsupported("comparison of two images")
                return ImageEq(self, p.attrs["_orbit"], q)
        return S.mkscalar(eq(self.cls("iso", a), self.cls("iso", b)), "b")

    def equal(self, I, fn, loc):
        a, b = self.pair(loc)
        if "_orbit" in a.attrs or "_orbit" in b.attrs:
            raise Unsupported("equality of images")
        return S.mkscalar(eq(self.cls("set", a), self.cls("set", b)), "b")

    def partners(self, I, fn, loc):
        o = loc["cluster"]
        if not self.isobj(o) or loc.get("symmetry", "d4") != "d4":
            raise Unsupported("symmetry partners")
        return Orbit(self, o)

    # ---- comprehensions
    def comp(self, I, it, g, elt, fr):
        from .interp import Frame

        def one(x, also=None):
            s = Frame(I, fr.module, fr, fr.fn)
            I.assign(g.target, x, s)
            c = TRUE
            for t in g.ifs:
                v = quantified(lambda: I.ev(t, s))
                c = cand(c, v.cond() if isinstance(v, ImageEq) else condof(v))
            return c, s
        if isinstance(it, Orbit):
            o = self.obj(X.fn("image", [it.x.attrs["_key"], E(X.fresh_int("g"))], "int", "real"), None, None, 0, _orbit=it)
            s = Frame(I, fr.module, fr, fr.fn)
            I.assign(g.target, o, s)
            if len(g.ifs) != 1:
                raise Unsupported("search among the images")
            v = quantified(lambda: I.ev(g.ifs[0], s))
            if not isinstance(v, ImageEq) or v.orbit is not it:
                raise Unsupported("search among the images")
            return Found([(v.cond(), lambda: o)])
        if isinstance(it, (Col, Enum)):
            col = it.col if isinstance(it, Enum) else it
            wrap = (lambda k, x: (S.mkscalar(E(k), "i", py="int"), x)) if isinstance(it, Enum) else (lambda k, x: x)
            parts = []
            for kind, k, x in col.entries(wrap):
                if kind == "row":
                    c, s = one(x(k))
                    ex = col.table.exists(c, k)

                    def w(c=c, k=k, x=x, ex=ex):
                        ks = E(X.fresh_int("hit"))
                        v = next(iter(k.free()))
                        X.push_hyps([le(0, ks), lt(ks, col.table.m), c.subst({v: ks})])
                        s = Frame(I, fr.module, fr, fr.fn)
                        I.assign(g.target, x(ks), s)
                        return I.ev(elt, s)
                    parts.append((ex, w))
                else:
                    c, s = one(x)
                    parts.append((c, lambda s=s: I.ev(elt, s)))
            return Found(parts)
        if isinstance(it, SymSeq):
            v = X.fresh_int("k")
            dep = X.hyp_depth()
            X.push_hyps([le(0, E(v)), lt(E(v), it.n)])
            try:
                c, s = one(it.item(E(v)))
            finally:
                X.pop_to(dep)
            ex = cnot(eq(X.sum_over(X.indicator(c), v, E(0), E(it.n)), 0))
            if any(X.implied(cand(le(0, w_), lt(w_, E(it.n)), c.subst({v: w_}))) for w_ in self.witness(it)):
                ex = TRUE                  # the precondition provides an entry

            def w():
                ks = E(X.fresh_int("hit"))
                X.push_hyps([le(0, ks), lt(ks, E(it.n)), c.subst({v: ks})])
                self.hits.append((it, ks))
                s = Frame(I, fr.module, fr, fr.fn)
                I.assign(g.target, it.item(ks), s)
                return I.ev(elt, s)
            return Found([(ex, w)])
        parts = []
        for x in it:
            c, s = one(x)
            if c.const is not False:
                parts.append((c, lambda s=s: I.ev(elt, s)))
        if all(c.const is True for c, w in parts):
            return [w() for c, w in parts]
        return Found(parts)

    # ---- loops
    def witness(self, it):
        return []

    def appending(self, col, x):
        if self.isobj(x):
            self.step.appended(self, col, x)

    def loop(self, I, st, fr, it):
        from .interp import Poison, _Continue, _Break, _Return
        if isinstance(it, Orbit):
            return self.over_images(I, st, fr, it)
        fixed = isinstance(it, list)          # a list of known length: one path per element
        if X.implied(le(len(it) if fixed else it.n, 0)):
            return
        stores = {x.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        targets = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)}
        # lists that are still empty become the columns of a table
        fresh = {}
        for nm, val in list(fr.l.items()):
            if type(val) is list and not val:
                fresh.setdefault(id(val), []).append(nm)
        mine = None
        if fresh:
            mine = Table(self)
            self.tables.append(mine)
            for names in fresh.values():
                col = Col(mine, names[0])
                mine.cols[names[0]] = col
                for nm in names:
                    fr.l[nm] = col
        sets = {x.value.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)}
        for nm, val in list(fr.l.items()):
            if nm in sets and isinstance(val, Arr) and val.ndim == 2:
                i, j = E(X.fresh_int("i")), E(X.fresh_int("j"))
                if not X.iszero(S.numv(val(i, j))):
                    raise Unsupported("matrix that is not empty")
                fr.l[nm] = Matrix([S.size(a) for a in val.axes])
        if not fresh and any(type(val) is list for nm, val in fr.l.items() if nm in stores):
            raise Unsupported("list variable in a loop")
        again = {nm: fr.l[nm] for nm in stores - targets if nm in fr.l}
        start = {}
        for nm, val in again.items():
            if isinstance(val, (int, np.integer)) and not isinstance(val, bool) or isinstance(val, Arr) and val.ndim == 0 and val.dt == "i":
                start[nm] = E(val)
            elif isinstance(val, Matrix):
                pass
            elif nm in stores and self.always_first(st.body, nm):
                pass                        # assigned before it is read in every iteration
            else:
                raise Unsupported(f"{nm} is carried through the loop")
        flag = X.sym(f"iteration:{next(X._ids)}", "int", "real")
        inside = S.decide(eq(flag, 1))
        for t in self.tables:
            t.havoc()
        carried = {nm: X.sym(f"{nm}:{next(X._ids)}", "int", "real") for nm in start}
        for nm, e in carried.items():
            fr.l[nm] = S.mkscalar(e, "i", py="int")
        ctx = dict(it=it, table=mine, start=start, carried=carried, fr=fr, matrices={nm: v for nm, v in fr.l.items() if isinstance(v, Matrix)})
        for mt in ctx["matrices"].values():
            mt.log.clear()
        if inside:
            if fixed:
                v = 0
                which = X.sym(f"element:{next(X._ids)}", "int", "real")
                while v < len(it) - 1 and not S.decide(eq(which, v)):
                    v += 1
                x = it[v]
            else:
                v = E(X.fresh_int("i"))
                X.push_hyps([le(0, v), lt(v, E(it.n))])
                x = it.item(v)
            ctx["i"] = v
            self.stack.append(ctx)
            for z in (x if isinstance(x, tuple) else (x,)):
                if self.isobj(z):
                    self.known.append(z)
            I.assign(st.target, x, fr)
            try:
                I.block(st.body, fr)
            except _Continue:
                pass
            except (_Break, _Return):
                raise Unsupported("loop left early")
            ctx["end"] = {nm: E(fr.l[nm]) for nm in carried}
            raise PathDone(self.step.end(self, self.stack))
        if self.stack:
            self.stack[-1]["inner"] = ctx       # the work of this iteration is that of the inner loop
        for nm in stores:
            if nm not in carried and not isinstance(fr.l.get(nm), (Col, Matrix)):
                fr.l[nm] = Poison("value after a loop")
        self.step.after(self, ctx)

    def splits(self, st, fr):
        """does the body of this loop over a known list change a worklist"""
        return any(isinstance(x, ast.Name) and isinstance(fr.l.get(x.id), Col) for b in st.body for x in ast.walk(b))

    def over_images(self, I, st, fr, it):
        """for image in orbit: if image equals y: <assignment of constants to matrix entries>   (idempotent: executed iff some image matches)"""
        from .interp import _Break, _Continue
        if len(st.body) != 1 or not isinstance(st.body[0], ast.If) or st.body[0].orelse or st.orelse or \
                not all(isinstance(s, (ast.Break, ast.Pass)) or isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and isinstance(s.value, ast.Constant) for s in st.body[0].body):
            raise Unsupported("loop over the images of a cluster")
        o = self.obj(X.fn("image", [it.x.attrs["_key"], E(X.fresh_int("g"))], "int", "real"), None, None, 0, _orbit=it)
        I.assign(st.target, o, fr)
        v = I.ev(st.body[0].test, fr)
        if not isinstance(v, ImageEq) or v.orbit is not it:
            raise Unsupported("loop over the images of a cluster")
        if S.decide(v.cond()):
            try:
                I.block(st.body[0].body, fr)
            except (_Break, _Continue):
                pass

    def always_first(self, body, nm):
        """the body assigns the name, as a whole, in a top-level statement before any other use of it"""
        for s in body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm or isinstance(t, ast.Tuple) and any(isinstance(q, ast.Name) and q.id == nm for q in t.elts) for t in s.targets):
                return not any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(s.value))
            if isinstance(s, (ast.For, ast.If, ast.While)) and not any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) for x in ast.walk(s)):
                return True
            if any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(s)):
                if isinstance(s, (ast.For, ast.If)) and self.always_first(s.body, nm) and not any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(s.iter if isinstance(s, ast.For) else s.test)):
                    return True
                return False
        return True


class ImageEq(Abstract):
    """comparison of an arbitrary image of x with cluster y: true for some image iff x and y are in the same orbit"""
    def __init__(self, W, orbit, y):
        self.W, self.orbit, self.y = W, orbit, y

    def cond(self):
        return eq(self.W.cls("orb", self.orbit.x), self.W.cls("orb", self.y))


class Matrix(Abstract):
    """sparse matrix filled entry by entry: records the assignments of the current iteration"""
    def __init__(self, shape):
        self.shape, self.log = shape, []

    def wl_set(self, k, v):
        if not isinstance(k, tuple) or len(k) != 2 or any(isinstance(q, slice) for q in k):
            raise Unsupported("assignment to a block of a matrix")
        self.log.append((E(k[0]), E(k[1]), E(v)))

    def wl_item(self, k):
        if isinstance(k, tuple) and len(k) == 2 and all(isinstance(q, slice) and q.step in (None, 1) for q in k):
            lo = [E(0 if q.start is None else q.start) for q in k]
            if all(X.iszero(q) for q in lo):
                return View(self, [n if q.stop is None else E(q.stop) for q, n in zip(k, self.shape)], False)
        raise Unsupported("entry of a matrix under construction")

    def transpose(self):
        return View(self, self.shape, True)
    wl_list = True


class View(Abstract):
    """leading block of a finished matrix, possibly transposed"""
    wl_list = True

    def __init__(self, m, shape, t):
        self.m, self.shape, self.t = m, shape, t

    def transpose(self):
        return View(self.m, self.shape, not self.t)
    T = property(transpose)


class Step:
    """step obligations of a contract: appended (called at every append), end (at the end of a body), after (behind a loop)"""
    def appended(self, W, col, x):
        pass

    def end(self, W, stack):
        return []

    def after(self, W, ctx):
        pass
