"""C06: symmetry projectors (ed_symmetry)"""
from ..contract import *
from .. import groups as G, ops
from ..expr import exp
from .c08 import isbool
import itertools
P = "C06"
M = "ed_symmetry."


def perm_mat(p):
    m = np.zeros((len(p), len(p)))
    m[list(p), range(len(p))] = 1
    return m


def regular(g, r):
    """a monomial representation containing every irreducible one: the regular representation with a change of phases and order"""
    ix = {e: i for i, e in enumerate(g.elements)}
    q = r.permutation(len(ix))
    ph = np.diag(np.exp(1j * r.normal(size=len(ix)))) if r.random() < .5 else np.eye(len(ix))
    out = {}
    for nm, x in g.gens.items():
        m = perm_mat([ix[g.mul(x, h)] for h in g.elements])[np.ix_(q, q)]
        out[nm] = ph @ m @ ph.conj().T
    return out


def real_ok(projs, mats, g):
    """orthonormal, complete, and every block invariant under the group and irreducible as an isotypic component"""
    ps = [dense(p) for p in projs]
    d = next(iter(mats.values())).shape[0]
    if any(p.shape[1] != d for p in ps) or len(ps) != len(g.classes):
        return False
    for i, a in enumerate(ps):
        for j, b in enumerate(ps):
            if a.size and b.size and np.max(np.abs(a @ b.conj().T - (np.eye(len(a)) if i == j else 0))) > 1e-8:
                return False
    if sum(p.shape[0] for p in ps) != d:
        return False
    for p in ps:
        pr = p.conj().T @ p
        for m in mats.values():
            m = dense(m)
            if np.max(np.abs(pr @ m - m @ pr), initial=0) > 1e-8:
                return False
        # isotypic components of the regular representation have the square of the dimension of the representation
        if abs(np.sqrt(p.shape[0]) - round(np.sqrt(p.shape[0]))) > 1e-9:
            return False
    return True


from ..contract import dense      # noqa: E402

one = lambda a, b: lambda g: (a ** g[0]) * (b ** g[1])
DOC = {2: [one(1, 1), one(1, -1), one(-1, 1), one(-1, -1)],
       3: [one(1, 1), one(1, -1), lambda g: 0 if g[1] else (2, -1, -1)[g[0]]],
       4: [one(1, 1), one(1, -1), one(-1, 1), one(-1, -1), lambda g: 0 if g[1] else (2, 0, -2, 0)[g[0]]]}


def family(c, g, fname, names, documented=None):
    dim = c.dim("dim", 1, 1)
    cap = G.Capture(g, dim)
    mats = {}
    for nm in names:
        c.decls.append((nm, "op", (len(g.elements), len(g.elements), (lambda nm: lambda r, s, sh: pick(r, s)[nm])(nm))))
        c.arrs[nm] = G.GA(g, {g.gens[nm]: 1}, dim)

    def pick(r, s):
        if mats.get("k") is not s:
            mats["k"], mats["m"] = s, regular(g, r)
        return mats["m"]
    c.stubs[M + "reduce_symm_projector"] = cap.stub
    c.setup.append(lambda I: I.np.__dict__.update(_consts={**I.np.__dict__["_consts"], "pi": np.pi}))      # closed numbers are evaluated
    c.setup.append(lambda I: ops.MODE.update(kind="group", one=G.GA(g, {g.one: 1}, dim), n=dim))

    def run(call, v):
        if call.symbolic:
            cap.reset()
        return call(M + fname, *[getattr(v, nm) for nm in names])
    c.calls(run)
    labels = ["specification: group", "one projector per irreducible representation", "constant on conjugacy classes", "orthogonal idempotents resolving the identity",
              "dimension of the representation", "states related by any element are kept together"] + (["documented order of the representations"] if documented else [])

    def sy(label):
        def f(r, v, symbolic):
            if not symbolic:
                return True
            return X.TRUE if dict(cap.checks(documented)).get(label) else X.FALSE
        return f
    for l in labels:
        c.ensures_cond(l, sy(l))

    def order(r, v, symbolic):
        if symbolic:
            r = list(r)
            return X.TRUE if len(r) == len(cap.calls) and all(isinstance(x, G.Rows) and x.k == i for i, x in enumerate(r)) else X.FALSE
        return real_ok(r, {nm: getattr(v, nm) for nm in names}, g)
    c.ensures_cond("the reduced projectors are returned in this order", order)


for n in range(2, 8):
    @contract(P, M + f"getD{n}Projectors", M + "get_symmetry_projectors", M + "validate_char_table", name=f"dihedral group of order {2 * n}", samples=4)
    def _d(c, n=n):
        family(c, G.dihedral(n), f"getD{n}Projectors", ("rot", "refl"), DOC.get(n))


@contract(P, M + "getC4V_and_3byb3", M + "get_symmetry_projectors", M + "validate_char_table", name="3x3 torus with the point group of the square", samples=1)
def _c4(c):
    family(c, G.square33(), "getC4V_and_3byb3", ("rot", "refl", "tx", "ty"))


# ---- cyclic groups: orders 1 to 12 through the whole code, every order up to the arguments of get_symmetry_projectors
for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12):
    @contract(P, M + "getZnProjectors", M + "get_symmetry_projectors", M + "validate_char_table", name=f"cyclic group of order {n}", samples=3)
    def _z(c, n=n):
        g = G.cyclic(n)
        dim = c.dim("dim", 1, 1)
        cap = G.Capture(g, dim)
        c.decls.append(("t", "op", (n, n, lambda r, s, sh: regular(g, r)["t"])))
        c.arrs["t"] = G.GA(g, {g.gens["t"]: 1}, dim)
        c.stubs[M + "reduce_symm_projector"] = cap.stub
        c.setup.append(lambda I: I.np.__dict__.update(_consts={**I.np.__dict__["_consts"], "pi": np.pi}))
        c.setup.append(lambda I: ops.MODE.update(kind="group", one=G.GA(g, {g.one: 1}, dim), n=dim))

        def run(call, v):
            if call.symbolic:
                cap.reset()
            return call(M + "getZnProjectors", v.t, n)
        c.calls(run)
        for l in ("specification: group", "one projector per irreducible representation", "orthogonal idempotents resolving the identity", "dimension of the representation", "states related by any element are kept together"):
            c.ensures_cond(l, (lambda l: lambda r, v, sy: (X.TRUE if dict(cap.checks()).get(l) else X.FALSE) if sy else True)(l))

        def eig(r, v, sy):
            ps, ks = list(r[0]), np.asarray(r[1])
            if len(ps) != n or ks.dtype.kind not in "fi" or ks.shape != (n,) or not np.allclose(ks, 2 * np.pi * np.arange(n) / n, atol=1e-12):
                return X.FALSE if sy else False
            if sy:
                if not all(isinstance(x, G.Rows) and x.k == i for i, x in enumerate(ps)):
                    return X.FALSE
                # rows of sum_l c_l T^l span the eigenspace of T in the sense T P^dagger = exp(ik) P^dagger  (c_l = exp(-+ikl))
                ok = any(all(G.near(G.vec(g, (p * c.arrs["t"]).c), np.exp(1j * s * k) * G.vec(g, p.c)) for (p, d, rel), k in zip(cap.calls, ks)) for s in (-1, 1))
                return X.TRUE if ok else X.FALSE
            T = dense(v.t)
            return any(all(np.allclose(T @ dense(p).conj().T, np.exp(1j * s * k) * dense(p).conj().T, atol=1e-8) for p, k in zip(ps, ks)) for s in (-1, 1))
        c.ensures_cond("eigenspace of the wave vector, same sign for every wave vector", eig)


@contract(P, M + "getZnProjectors", name="cyclic group of any order", samples=4)
def _zn(c):
    n, dim = c.dim("n", 1, 7), c.dim("dim", 1, 1)
    c.decls.append(("t", "op", (n, n, lambda r, s, sh: regular(G.cyclic(s["n"]), r)["t"])))
    c.arrs["t"] = G.Power(1, dim)
    got = {}

    def stub(I, fn, loc):
        got.update(loc)
        return "projectors"
    c.stubs[M + "get_symmetry_projectors"] = stub
    c.setup.append(lambda I: ops.MODE.update(kind="group", one=G.Power(0, dim), n=dim))
    c.calls(lambda call, v: call(M + "getZnProjectors", v.t, v.n))
    c.ensures("wave vectors", (n,), lambda k: 2 * X.PI * k / n, get=lambda r: r[1])

    def table(r, v, sy):
        if not sy:
            return True
        t = got["character_table"]
        if comp_shape_ok(t.axes, (n, n)):
            return X.FALSE
        i, j = X.sym("row", "int", "real", "nonneg"), X.sym("col", "int", "real", "nonneg")
        d = X.hyp_depth()
        X.push_hyps([le(0, i), lt(i, n), le(0, j), lt(j, n)])
        try:
            return X.TRUE if any(X.iszero(S.numv(t(i, j)) - exp(s * 2 * X.I * X.PI * i * j / n)) for s in (-1, 1)) else X.FALSE
        finally:
            X.pop_to(d)
    c.ensures_cond("character exp(-+2 pi i k l / n), the same sign for every order", table)

    def classes(r, v, sy):
        if not sy:
            return True
        cl = got["conjugacy_classes"]
        if not X.iszero(S.seqlen(cl) - n):
            return X.FALSE
        j = X.sym("col", "int", "real", "nonneg")
        for case in ([eq(j, 0)], [le(1, j), lt(j, n)]):
            d = X.hyp_depth()
            X.push_hyps(case)
            try:
                if not X.feasible([]):
                    continue
                x = cl.item(j)
                if not (isinstance(x, list) and len(x) == 1 and isinstance(x[0], G.Power) and X.iszero(x[0].e - j)):
                    return X.FALSE
            finally:
                X.pop_to(d)
        return X.TRUE
    c.ensures_cond("l-th class is the l-th power of the generator", classes)
    c.ensures_cond("projectors of this table are returned", lambda r, v, sy: (X.TRUE if r[0] == "projectors" else X.FALSE) if sy else True)


# ---- validation of a character table: any number of classes of any sizes
def table_inputs(c, n):
    sz = c.arr("sizes", (n,), "i", ("pos",), sample=lambda r, s, sh: r.integers(1, 4, sh))
    t = c.arr("tab", (n, n), "c", sample=lambda r, s, sh: r.integers(-1, 3, sh) + 0j)
    return sz, t


for what in ("columns", "rows"):
    for where, side in itertools.product(("different", "same"), ("above", "below")):
        @contract(P, M + "validate_char_table", name=f"{what} that are not orthonormal are rejected, {where}, {side}")
        def _rej(c, what=what, where=where, side=side):
            n = c.dim("n", 2 if where == "different" else 1, 3)
            sz, t = table_inputs(c, n)
            i = c.integer("i", 0, 2)
            j = i if where == "same" else c.integer("j", 0, 2)
            c.requires(le(0, i), lt(i, n), le(0, j), lt(j, n))
            if where == "different":
                c.requires(cnot(eq(i, j)))
            order = ssum(0, n, lambda k: sz(k))
            if what == "columns":
                val = ssum(0, n, lambda k: t(k, i) * X.conj(t(k, j)))
            else:
                val = ssum(0, n, lambda k: t(i, k) * X.conj(t(j, k)) * sz(k))
            want = E(0)
            if where == "same":
                want = order
                if what == "columns":
                    want = X.floor(order * X.inv(sz(i)))
            c.requires(le(1, order))
            d = X.re(val) - want
            c.requires(lt(X.Fr(1, 2), d) if side == "above" else lt(d, -E(X.Fr(1, 2))))
            c.setup.append(lambda I: S.WITNESS.__setitem__(slice(None), [(i, j), (j, i)]))
            c.calls(lambda call, v: call(M + "validate_char_table", v.tab, S.SymSeq(n, lambda k: S.SymSeq(sz(k), lambda q: None)) if call.symbolic else [[0] * int(k) for k in v.sizes]))
            c.ensures_cond("rejected", isbool(False))


# ---- two commuting translations, against the contract of getZnProjectors
def two_translations(c, n1, n2, empty=()):
    g = G.torus(n1, n2)
    dim = c.dim("dim", 1, 1)
    bad, mats = [], {}
    kept = [(a, b) for a in range(n1) for b in range(n2) if (a, b) not in empty]

    def pick(r, s):
        if mats.get("k") is not s:
            m = regular(g, r)
            if empty:
                # a representation without the wave vectors in `empty`
                d = np.array([(2 * np.pi * a / n1, 2 * np.pi * b / n2) for a, b in kept])
                d = d[r.permutation(len(d))]
                m = {nm: np.diag(np.exp(1j * d[:, i])) for i, nm in enumerate(("t1", "t2"))}
            mats["k"], mats["m"] = s, m
        return mats["m"]
    for nm in ("t1", "t2"):
        c.decls.append((nm, "op", (len(kept), len(kept), (lambda nm: lambda r, s, sh: pick(r, s)[nm])(nm))))
        c.arrs[nm] = G.GA(g, {g.gens[nm]: 1}, dim)
    stub, count = G.zn_stub(g, dim, bad, set(empty))
    c.stubs[M + "getZnProjectors"] = stub
    c.setup.append(lambda I: I.np.__dict__.update(_consts={**I.np.__dict__["_consts"], "pi": np.pi}))
    c.setup.append(lambda I: ops.MODE.update(kind="group", one=G.GA(g, {g.one: 1}, dim), n=dim))

    def run(call, v):
        if call.symbolic:
            count[0] = 0
            del bad[:]
        return call(M + "get2DTranslationProjectors", v.t1, n1, v.t2, n2)
    c.calls(run)
    c.ensures_cond("getZnProjectors is called on operators of the stated order", lambda r, v, sy: (X.FALSE if bad else X.TRUE) if sy else True)

    def which(r):
        ps, k1, k2 = list(r[0]), np.asarray(r[1], dtype=float), np.asarray(r[2], dtype=float)
        if len(ps) != len(kept) or k1.shape != (len(kept),) or k2.shape != (len(kept),):
            return None
        a, b = k1 * n1 / (2 * np.pi), k2 * n2 / (2 * np.pi)
        if np.max(np.abs(a - np.round(a))) > 1e-9 or np.max(np.abs(b - np.round(b))) > 1e-9:
            return None
        lab = [(int(round(x)) % n1, int(round(y)) % n2) for x, y in zip(a, b)]
        return (ps, lab) if len(set(lab)) == len(lab) else None

    def blocks(r, v, sy):
        w = which(r)
        if w is None:
            return X.FALSE if sy else False
        ps, lab = w
        if sy:
            def gram(a, b, s):
                return G.GA(g, {(x, y): np.exp(1j * s * 2 * np.pi * (a * x / n1 + b * y / n2)) / (n1 * n2) for x in range(n1) for y in range(n2)}, dim)
            ok = sorted(lab) == kept and all(isinstance(p, G.Iso) and p.base is None and not p.cj and not p.tr for p in ps)
            return X.TRUE if ok and any(all(G.same(p.gram, gram(a, b, s)) for p, (a, b) in zip(ps, lab)) for s in (-1, 1)) else X.FALSE
        ps = [dense(p) for p in ps]
        t = [dense(v.t1), dense(v.t2)]
        if any(p.shape[1] != len(kept) or p.shape[0] == 0 for p in ps):
            return False
        every = np.concatenate(ps)
        if every.shape[0] != len(kept) or np.max(np.abs(every @ every.conj().T - np.eye(len(kept)))) > 1e-8:
            return False
        return any(all(np.allclose(m @ p.conj().T, np.exp(1j * s * 2 * np.pi * k / n) * p.conj().T, atol=1e-8) for p, l in zip(ps, lab) for m, k, n in zip(t, l, (n1, n2))) for s in (-1, 1))
    c.ensures_cond("one block per pair of wave vectors, the joint eigenspace of both translations; empty blocks are dropped with their wave vectors", blocks)


for n1, n2, empty in ((1, 1, ()), (2, 1, ()), (1, 3, ()), (2, 2, ()), (3, 2, ()), (2, 3, ()), (3, 3, ()), (2, 4, ()), (4, 3, ()), (2, 3, ((0, 1), (1, 2))), (3, 2, ((1, 0), (2, 0), (2, 1))), (3, 3, ((0, 0),))):
    @contract(P, M + "get2DTranslationProjectors", name=f"two commuting translations of orders {n1} and {n2}" + (f", no state with wave vectors {', '.join(map(str, empty))}" if empty else ""), samples=3)
    def _t2(c, n1=n1, n2=n2, empty=empty):
        two_translations(c, n1, n2, empty)
