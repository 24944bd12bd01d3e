"""C16: quantum-number projectors and basis labels (ed_base, ed_fermions, ed_spins)"""
from ..contract import *
from .. import select
P = "C16"
B = "ed_base.ed_base"
FF, FS = "ed_fermions.fermions", "ed_spins.spinSystem"


def bit(k, i, L):
    """i-th binary digit (most significant first) of k < 2^L"""
    return X.floor(E(k) * X.inv(X.power(2, L - i - 1))) - 2 * X.floor(E(k) * X.inv(X.power(2, L - i)))


@contract(P, FF + ".get_state_vects", name="fermion labels are the binary digits of the basis index")
def _lf(c):
    n, s = c.dim("n", 1, 3), c.dim("s", 1, 2)
    L = n * s

    def run(call, v):
        o = call.obj(FF, geometry=call.obj("ed_geometry.Geometry", nsites=v.n), nspecies=v.s, nstates=2 ** (v.n * v.s))
        return call.method(o, "get_state_vects")
    c.calls(run)
    c.ensures("occupation of mode i in basis state k", (X.power(2, L), L), lambda k, i: bit(k, i, L), get=lambda r: r[0])


@contract(P, FS + ".get_state_vects", name="spin labels are the complemented binary digits")
def _ls(c):
    n = c.dim("n", 1, 4)

    def run(call, v):
        o = call.obj(FS, geometry=call.obj("ed_geometry.Geometry", nsites=v.n), nspecies=1, nbasis=2, nstates=2 ** v.n)
        return call.method(o, "get_state_vects")
    c.calls(run)
    c.ensures("spin up on site i in basis state k", (X.power(2, n), n), lambda k, i: 1 - bit(k, i, n), get=lambda r: r.toarray())


def ints(r, s, sh):
    return r.integers(-1, 2, sh).astype(float)


def row_of(d, val, n, r, k):
    """entry (r, k) of the matrix whose r-th row is the r-th basis state (in order) with d == val"""
    before = ssum(0, k, lambda j: ite(eq(d(j), val), 1, 0))
    return ite(eq(d(k), val), ite(eq(before, r), 1, 0), 0)


def item(seq, k):
    return seq.item(E(k)) if isinstance(seq, S.SymSeq) else seq[k]


def length(seq):
    return S.mkscalar(seq.n, "i", py="int") if isinstance(seq, S.SymSeq) else len(seq)


def cints(r, s, sh):
    return r.integers(-1, 2, sh) + 1j * r.integers(0, 2, sh)


for form in ("values", "complex values", "number"):
    @contract(P, B + ".get_subspace_projs", name=f"projector selects the states with the eigenvalue in order, {form}")
    def _proj(c, form=form):
        n, m = c.dim("n", 1, 6), c.dim("m", 1, 3)
        cplx = form == "complex values"
        dt, smp = ("c", cints) if cplx else ("f", ints)
        form = "values" if cplx else form
        d = c.arr("d", (n,), dt, sample=smp)
        if form == "values":
            e = c.arr("e", (m,), dt, sample=smp)
        elif form == "number":
            e1 = c.real("e1", sample=lambda r, s: float(r.integers(-1, 2)))
        k = c.integer("k", 0, 2)
        c.requires(le(0, k), lt(k, m if form == "values" else 1))

        def run(call, v):
            a = (v.e,) if form == "values" else (v.e1,) if form == "number" else ()
            ps, ev = call.method(call.obj(B), "get_subspace_projs", call.sp.csr_matrix(call.np.diag(v.d)), *a)
            return item(ps, v.k if form != "number" else 0), ev, length(ps)
        c.calls(run)
        val = {"values": lambda k: e(k), "number": lambda k: e1}.get(form)
        if val:
            mm = m if form == "values" else E(1)
            c.ensures("eigenvalues", (mm,), val, get=lambda r: r[1])
            c.ensures("one projector per eigenvalue", (), lambda: mm, get=lambda r: r[2])
            c.ensures("rows", (ssum(0, n, lambda j: ite(eq(d(j), val(k)), 1, 0)), n), lambda i, j: row_of(d, val(k), n, i, j), get=lambda r: r[0])


@contract(P, B + ".get_subspace_projs", name="default eigenvalues are the distinct diagonal entries")
def _pdef(c):
    n = c.dim("n", 1, 6)
    d = c.arr("d", (n,), "f", sample=ints)
    k = c.integer("k", 0, 2)
    c.requires(le(0, k))

    nm = "uniq:" + d(E(X.atom("sym", "_s", (), ("int",)))).key + "|" + n.key
    u, m = (lambda i: X.fn(nm, [E(i)], "real", "sorted", "injective")), X.sym(nm + "n", "int", "real", "nonneg")
    c.requires(lt(k, m))

    def fix(rng, syms, fns, vals):
        q = np.unique(vals["d"])
        fns[nm], syms[nm + "n"] = (lambda i: q[i]), len(q)
    c.fixup.append(fix)

    def run(call, v):
        ps, ev = call.method(call.obj(B), "get_subspace_projs", call.sp.csr_matrix(call.np.diag(v.d)))
        return item(ps, v.k), ev, length(ps)
    c.calls(run)
    c.ensures("eigenvalues", (m,), u, get=lambda r: r[1])
    c.ensures("one projector per eigenvalue", (), lambda: m, get=lambda r: r[2])
    c.ensures("rows", (ssum(0, n, lambda j: ite(eq(d(j), u(k)), 1, 0)), n), lambda i, j: row_of(d, u(k), n, i, j), get=lambda r: r[0])


@contract(P, B + ".get_subspace_projs", name="another matrix format is an error")
def _pfmt(c):
    n = c.dim("n", 1, 6)
    c.arr("d", (n,), "f", sample=ints)
    c.calls(lambda call, v: call.method(call.obj(B), "get_subspace_projs", call.sp.csc_matrix(call.np.diag(v.d)), [1.]))
    c.raises(TRUE)


@contract(P, B + ".get_single_site_op", name="number operators are diagonal in the labelled basis")
def _nlab(c):
    n, s = c.dim("n", 1, 3), c.dim("s", 1, 2)
    i, k = c.integer("i", 0, 2), c.integer("k", 0, 1)
    c.requires(le(0, i), lt(i, n), le(0, k), lt(k, s))

    def run(call, v):
        o = call.obj(FF, geometry=call.obj("ed_geometry.Geometry", nsites=v.n), nspecies=v.s, nbasis=2, nstates=2 ** (v.n * v.s))
        return call.method(o, "get_single_site_op", v.i, v.k, call.attr(o, "n_op"), format="boson").toarray()
    c.calls(run)
    D = X.power(2, n * s)
    c.ensures("occupation of the mode", (D, D), lambda x, y: ite(eq(x, y), bit(x, k * n + i, n * s), 0))


@contract(P, FS + ".get_state_parity", name="parity of the number of up spins")
def _par(c):
    n = c.dim("n", 1, 4)

    def run(call, v):
        o = call.obj(FS, geometry=call.obj("ed_geometry.Geometry", nsites=v.n), nspecies=1, nbasis=2, nstates=2 ** v.n)
        return call.method(o, "get_state_parity")
    c.calls(run)

    def par(k):
        up = ssum(0, n, lambda i: ite(eq(bit(k, i, n), 0), 1, 0))
        return up - 2 * X.floor(up * HALF)
    c.ensures("parity", (X.power(2, n), 1), lambda k, j: par(k))


def zpower(n, N_):
    """get_allsite_op(pauli_z) by its contract (C03, tensor power), entry by entry: (-1)^(number of spins down) on the diagonal"""
    def f(I, fn, a):
        op = S.toarr(list(a.values())[1])
        if op.ndim != 2 or not all(X.iszero(E(op(i, j)) - z) for i, j, z in ((0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 1, -1))):
            raise Unsupported("tensor power of another operator")
        return S.Arr([S.plain(N_), S.plain(N_)], lambda ix: ite(eq(ix[0], ix[1]), X.power(-1, ssum(0, n, lambda i: bit(ix[0], i, n))), 0), "f", "csr")
    return f


for odd in (False, True):
    @contract(P, FS + ".find_special_states", name=f"named product states, {'odd' if odd else 'even'} number of sites")
    def _special(c, odd=odd):
        h = c.dim("h", 1, 2)
        n = 2 * h + (1 if odd else 0)
        N_ = X.power(2, n)
        x, y = c.integer("x", 1, 3), c.integer("y", 1, 3)
        c.stubs[FS + ".get_allsite_op"] = zpower(n, N_)

        def run(call, v):
            o = call.obj(FS, geometry=call.obj("ed_geometry.Geometry", nsites=2 * v.h + (1 if odd else 0)), nspecies=1, nbasis=2, nstates=2 ** (2 * v.h + (1 if odd else 0)))
            return call.method(o, "find_special_states", v.x, v.y)[0]
        c.calls(run)
        # afm(m): index of the state of m sites with the spins up, down, up, ... (site i is the digit of weight 2^(m-1-i), down = 1)
        afm = lambda m: X.fn("afm", [E(m)], "int", "real")
        c.fixup.append(lambda rng, syms, fns, vals: fns.__setitem__("afm", lambda m: sum(2 ** (m - 1 - i) for i in range(1, m, 2))))
        t = X.sym("_t", "int", "real", "nonneg")
        c.lemma("afm of no site", lambda: [eq(afm(0), 0)], lambda: eq(3 * (afm(0) + 1), 1 + 2))
        c.lemma("site added to an even number", lambda: [eq(afm(2 * t + 1), 2 * afm(2 * t)), eq(3 * (afm(2 * t) + 1), X.power(2, 2 * t) + 2)], lambda: eq(3 * (afm(2 * t + 1) + 1), X.power(2, 2 * t + 1) + 1))
        c.lemma("site added to an odd number", lambda: [eq(afm(2 * t + 2), 2 * afm(2 * t + 1) + 1), eq(3 * (afm(2 * t + 1) + 1), X.power(2, 2 * t + 1) + 1)], lambda: eq(3 * (afm(2 * t + 2) + 1), X.power(2, 2 * t + 2) + 2))
        c.facts.append(eq(3 * (afm(n) + 1), N_ + (1 if odd else 2)))
        delta = lambda a, b: ite(eq(a, b), 1, 0)
        cols = [lambda k: delta(k, 0), lambda k: delta(k, N_ - 1), lambda k: delta(k, afm(n)), lambda k: delta(k, N_ - 1 - afm(n)), lambda k: 1 / X.sqrt(N_),
                lambda k: X.power(-1, ssum(0, n, lambda i: bit(k, i, n))) / X.sqrt(N_), lambda k: ssum(0, n, lambda i: delta(k, N_ - 1 - X.power(2, i))) / X.sqrt(n)]
        for j, nm in enumerate(("all up", "all down", "up down up ...", "down up down ...", "all plus", "all minus", "one spin up")):
            c.ensures(nm, (N_,), lambda k, j=j: cols[j](k), get=lambda r, j=j: r.toarray()[:, j])


# ---- the number projector of the constructor

def number(D, n, L, k0):
    """number of particles of species k0 in basis state k"""
    return lambda k: ssum(0, n, lambda i: bit(k, E(k0) * n + i, L))


def sumop(n, s):
    """get_sum_op(n_op, species) by its contracts (C01: sum of the single-site operators; C16: these are the label digits)"""
    def f(I, fn, a):
        L = n * s
        op = S.toarr(a["op"])
        want = np.array([[0, 0], [0, 1]])
        for i in (0, 1):
            for j in (0, 1):
                if not X.iszero(op.snap()((E(i), E(j))) - int(want[i, j])):
                    raise X.Unsupported("sum of another operator")
        if a["format"] != "boson" or a.get("projector") is not None:
            raise X.Unsupported("sum of another kind")
        k0 = E(a["species"])
        if not X.implied(X.cand(le(0, k0), lt(k0, s))):
            raise X.Unsupported("species out of range")
        D = X.power(2, L)
        return select.Sel("D", D, d=number(D, n, L, k0))
    return f


def subspace(I, fn, a):
    """get_subspace_projs by its contract (above), for a diagonal in a selected basis and one eigenvalue"""
    m, v = a["diagonal_op"], a["eig_vals"]
    if not isinstance(m, select.Sel) or m.kind != "R":
        raise X.Unsupported("projectors of another matrix")
    if isinstance(v, (list, tuple)) and len(v) == 1:
        v = v[0]
    v = S.toarr(v)
    if v.ndim != 0:
        raise X.Unsupported("several eigenvalues")
    v, d = v.snap()(()), m.d
    return [select.Sel("Q", m.n, m.mask, q=lambda k: eq(d(k), v))], S.Arr([S.toaxis(1)], lambda ix: v, "f")


def numproj(c, n, s):
    from .c02 import geometry
    geometry(c, n)
    c.setup.append(select.mode(X.power(2, n * s)))
    c.stubs["ed_base.ed_base.get_sum_op"] = sumop(n, s)
    c.stubs["ed_base.ed_base.get_subspace_projs"] = subspace


def attr_(name):
    return lambda r: r.attrs[name] if hasattr(r, "attrs") else getattr(r, name)


def build(call, v, s, **kw):
    return call(FF, call.obj("ed_geometry.Geometry", nsites=v.n, adjacency_mat=v.adj, phase_mat=v.ph), 0., 1., nspecies=s, **kw)


def occ(r, s, sh):
    return r.integers(0, 2, sh).astype(float)


@contract(P, FF + ".__init__", name="number projector selects the states with the given number of every species, in order")
def _np(c):
    n, s = c.dim("n", 1, 3), c.dim("s", 1, 2)
    numproj(c, n, s)
    ns = c.arr("ns", (s,), sample=occ)
    c.calls(lambda call, v: build(call, v, v.s, ns=v.ns))
    D, L = X.power(2, n * s), n * s
    c.ensures_op("states with these numbers", lambda: select.Sel("S", D, lambda k: eq(ssum(0, s, lambda q: X.indicator(cnot(eq(number(D, n, L, q)(k), ns(q))))), 0)), get=attr_("n_projector"))


@contract(P, FF + ".__init__", name="number projector, one species given as a number")
def _np1(c):
    n = c.dim("n", 1, 4)
    numproj(c, n, E(1))
    a = c.real("a", sample=lambda r, s: float(r.integers(0, 3)))
    c.calls(lambda call, v: build(call, v, 1, ns=v.a))
    D = X.power(2, n)
    c.ensures_op("states with this number", lambda: select.Sel("S", D, lambda k: eq(number(D, n, n, 0)(k), a)), get=attr_("n_projector"))


for form in ("both", "first", "second", "neither", "absent"):
    @contract(P, FF + ".__init__", name=f"number projector, two species, {form} constrained")
    def _np2(c, form=form):
        n = c.dim("n", 1, 3)
        numproj(c, n, E(2))
        if form in ("both", "first"):
            a = c.real("a", sample=lambda r, s: float(r.integers(0, 3)))
        if form in ("both", "second"):
            b = c.real("b", sample=lambda r, s: float(r.integers(0, 3)))
        c.calls(lambda call, v: build(call, v, 2, **({} if form == "absent" else dict(ns=[v.a if form in ("both", "first") else None, v.b if form in ("both", "second") else None]))))
        D, L = X.power(2, 2 * n), 2 * n

        def mask(k):
            m = []
            if form in ("both", "first"):
                m.append(eq(number(D, n, L, 0)(k), a))
            if form in ("both", "second"):
                m.append(eq(number(D, n, L, 1)(k), b))
            return X.cand(*m)
        c.ensures_op("states with these numbers", lambda: select.Sel("S", D, mask), get=attr_("n_projector"))


@contract(P, FF + ".__init__", name="wrong number of particle numbers is an error")
def _nperr(c):
    n, s, m = c.dim("n", 1, 3), c.dim("s", 1, 2), c.dim("m", 1, 3)
    numproj(c, n, s)
    c.arr("ns", (m,), sample=occ)
    c.requires(cnot(eq(m, s)))
    c.calls(lambda call, v: build(call, v, v.s, ns=v.ns))
    c.raises(TRUE)
