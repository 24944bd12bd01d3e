"""C04: operators of site permutations (ed_base.get_xform_op, fermions.get_swap_op, spinSystem.get_swap_op)"""
from ..contract import *
from ..expr import exp, conj, sqrt
from .. import ops
P = "C04"
FF, FS, B = "ed_fermions.fermions", "ed_spins.spinSystem", "ed_base.ed_base."
C_ = np.array([[0, 1], [0, 0]])


def near0(x):
    return abs(x).max() < 1e-9


def yes(b):
    return X.TRUE if b else X.FALSE


def site(c, nm, n):
    i = c.integer(nm, 0, 3)
    c.requires(le(0, i), lt(i, n))
    return i


def fermi(c, maxn=3):
    n, s = c.dim("n", 2, maxn), c.dim("s", 1, 2)
    c.setup.append(ops.op_mode(2, n, s))
    ops.callee_contracts(c)
    return n, s


def fobj(call, v):
    return call.obj(FF, geometry=call.obj("ed_geometry.Geometry", nsites=v.n), nspecies=v.s, nstates=2 ** (v.n * v.s))


def mode(call, o, i, k):
    return call(B + "get_single_site_op", o, i, k, C_, format="fermion")


def fzero(x):
    return X.iszero(ops.car(x.flat().e))


@contract(P, FF + ".get_swap_op", name="fermion exchange: exchanges the two sites of the species, leaves every other mode, own inverse")
def _fswap(c):
    n, s = fermi(c)
    i, j, l, a, b = site(c, "i", n), site(c, "j", n), site(c, "l", n), site(c, "a", s), site(c, "b", s)
    c.requires(cnot(eq(i, j)), cor(cnot(eq(a, b)), cand(cnot(eq(l, i)), cnot(eq(l, j)))))

    def run(call, v):
        o = fobj(call, v)
        return call.method(o, "get_swap_op", v.i, v.j, v.a), mode(call, o, v.i, v.a), mode(call, o, v.j, v.a), mode(call, o, v.l, v.b)
    c.calls(run)
    z = lambda sy: fzero if sy else near0
    c.ensures_cond("moves the first site to the second", lambda r, v, sy: _b(z(sy)(r[0].dot(r[1]) - r[2].dot(r[0])), sy))
    c.ensures_cond("moves the second site to the first", lambda r, v, sy: _b(z(sy)(r[0].dot(r[2]) - r[1].dot(r[0])), sy))
    c.ensures_cond("commutes with every other mode", lambda r, v, sy: _b(z(sy)(r[0].dot(r[3]) - r[3].dot(r[0])), sy))
    c.ensures_cond("own inverse", lambda r, v, sy: _b(z(sy)(r[0].dot(r[0]).dot(r[1]) - r[1]) and z(sy)(r[0].dot(r[0]) - ident(r[0], sy)), sy))
    c.ensures_cond("Hermitian", lambda r, v, sy: _b(r[0].equals(r[0].getH()) is None if sy else near0(r[0] - r[0].conj().transpose()), sy))


def ident(x, sy):
    if sy:
        return ops.Op(E(1), x.rows, x.cols)
    import scipy.sparse as sp
    return sp.eye(x.shape[0])


def _b(x, sy):
    return yes(x) if sy else bool(x)


@contract(P, FS + ".get_swap_op", name="spin exchange: exchanges the two sites, leaves every other site, own inverse")
def _sswap(c):
    n = c.dim("n", 2, 4)
    c.setup.append(ops.op_mode(2, n, 1))
    ops.callee_contracts(c)
    i, j, l = site(c, "i", n), site(c, "j", n), site(c, "l", n)
    c.requires(cnot(eq(i, j)), cnot(eq(l, i)), cnot(eq(l, j)), le(3, n))
    c.arr("A", (2, 2), "c")

    def run(call, v):
        o = call.obj(FS, geometry=call.obj("ed_geometry.Geometry", nsites=v.n), nbasis=2, nstates=2 ** v.n)
        w = lambda x: call(B + "get_single_site_op", o, x, 0, v.A, format="boson")
        return call.method(o, "get_swap_op", v.i, v.j), w(v.i), w(v.j), w(v.l)
    c.calls(run)
    pos = [(i, E(0)), (j, E(0)), (l, E(0))]
    z = lambda sy: (lambda a, b: ops.same_units(a, b, pos)) if sy else (lambda a, b: near0(a - b))
    c.ensures_cond("moves the first site to the second", lambda r, v, sy: _b(z(sy)(r[0].dot(r[1]), r[2].dot(r[0])), sy))
    c.ensures_cond("moves the second site to the first", lambda r, v, sy: _b(z(sy)(r[0].dot(r[2]), r[1].dot(r[0])), sy))
    c.ensures_cond("commutes with every other site", lambda r, v, sy: _b(z(sy)(r[0].dot(r[3]), r[3].dot(r[0])), sy))
    c.ensures_cond("own inverse", lambda r, v, sy: _b(z(sy)(r[0].dot(r[0]), ident(r[0], sy)), sy))
    c.ensures_cond("Hermitian", lambda r, v, sy: _b(z(sy)(r[0].getH(), r[0]), sy))


# ---- the operator of a permutation given by its cycles
def cycles(c, s):
    """R disjoint cycles, the r-th has length ln(r) >= 1 and sites cyc(r, 0), cyc(r, 1), ..."""
    R = c.dim("R", 1, 2)
    n = c.dim("n", 2, 4)
    ln = c.arr("ln", (R,), "i", ("cong",), sample=lambda rng, syms, sh: rng.integers(1, 4, size=sh))
    cyc = c.ragged("cyc", R, lambda r: ln(r), "i", ("injective", "nonneg", "le:nlast"))
    nlast = X.sym("nlast", "int", "real", "nonneg")
    c.requires(le(2, ln(0)))
    c.setup.append(lambda I: X.push_hyps([eq(nlast, n - 1)]))

    def fix(rng, syms, fns, vals):
        lens = [int(x) for x in vals["ln"]]
        lens[0] = max(2, lens[0])
        vals["ln"] = np.array(lens)
        fns["ln"] = lambda k, a=vals["ln"]: a[k]
        tot = sum(lens)
        syms["n"] = vals["n"] = tot + int(rng.integers(0, 2)) if tot * s_of(syms, s) <= 6 else tot
        perm = [int(x) for x in rng.permutation(syms["n"])]
        out = []
        for m in lens:
            out.append(np.array(perm[:m])); perm = perm[m:]
        vals["cyc"] = out
        fns["cyc"] = lambda k, i: out[k][i]
    c.fixup.append(fix)
    return R, n, ln, cyc


def s_of(syms, s):
    return syms["s"] if s is None else s


def on_cycle(f):
    """act on a mode given as cyc(r, p) or as a site outside all cycles"""
    def g(x, k, m):
        (key, co), = E(x).d.items()
        a = key[0][0][0]
        if co == X.ONE and len(key[0]) == 1 and key[0][0][1] == 1 and not key[1] and not key[2] and not key[3]:
            if a.kind == "fn" and a.name == "cyc":
                return f(a.args[0], a.args[1], k, m, x)
            if a.kind == "sym":
                return [(TRUE, x)]
        raise Unsupported("mode " + str(x)[:80])
    return g


def invariants(ln, cyc):
    def telescope(vals, v, n):
        """m exchanges of neighbours from the end of cycle q: the last m + 1 sites are cycled"""
        if len(vals) != 1:
            return None
        fs = [f for f in vals[0][1].factors if not isinstance(f, ops.Tag)]
        if len(fs) != 1 or not isinstance(fs[0], ops.Transposition):
            return None
        at = [a for k in fs[0].i.d for a, p in k[0] if a.kind == "fn" and a.name == "cyc"]
        if len(at) != 1:
            return None
        q, kk = at[0].args[0], fs[0].k
        L = ln(q)

        def f(r, p, k, m, e):
            hit = cand(eq(r, q), eq(k, kk), le(L - 1 - m, p))
            return [(cand(hit, lt(p, L - 1)), cyc(r, p + 1)), (cand(hit, le(L - 1, p)), cyc(r, L - 1 - m)), (cnot(hit), e)]
        return on_cycle(f)

    def by_class(which):
        """iteration v moves exactly the modes of species (cycle) v: those below m have been moved"""
        def mk(vals, v, n):
            def f(r, p, k, m, e):
                cls = r if which == "cycle" else E(k)
                out = [(le(m, cls), e)]
                for c, b in vals:
                    q = ops.Perm([g for g in b.factors if not isinstance(g, ops.Tag)])
                    for c2, y in q.act(cyc(r, p), k, prune=False):
                        out.append((cand(lt(cls, m), c.subst({v: cls}), c2.subst({v: cls})), X.subst(y, {v: cls})))
                return out
            return on_cycle(f)
        return mk
    return [telescope, by_class("species"), by_class("cycle")]


for cls, qual in (("fermions", FF), ("spins", FS)):
    @contract(P, B + "get_xform_op", name=f"operator of a permutation given by cycles, {cls}")
    def _xform(c, cls=cls, qual=qual):
        s = c.dim("s", 1, 2) if cls == "fermions" else None
        R, n, ln, cyc = cycles(c, None if cls == "fermions" else 1)
        se = s if s is not None else E(1)
        c.setup.append(ops.op_mode(2, n, se))
        ops.swap_contract(c, qual + ".get_swap_op")
        c.setup.append(lambda I: setattr(ops.Perm, "INVARIANTS", invariants(ln, cyc)))

        def elements():
            r, p, k = E(X.fresh_int("r")), E(X.fresh_int("p")), E(X.fresh_int("k"))
            x = X.sym(f"_x{next(X._ids)}", "int", "real", "notin:cyc")
            hk = [le(0, k), lt(k, se)]
            return [(cyc(r, p), k, hk + [le(0, r), lt(r, R), le(0, p), lt(p, ln(r)), le(1, ln(r))]), (x, k, hk)]
        c.setup.append(lambda I: setattr(ops.Perm, "ELEMENTS", staticmethod(elements)))

        def run(call, v):
            g = call.obj("ed_geometry.Geometry", nsites=v.n)
            if cls == "fermions":
                o = call.obj(FF, geometry=g, nspecies=v.s, nstates=2 ** (v.n * v.s))
            else:
                o = call.obj(FS, geometry=g, nbasis=2, nstates=2 ** v.n)
            return call.method(o, "get_xform_op", v.cyc), o, call
        c.calls(run)

        def moves(r, v, sy):
            if sy:
                els = elements()
                (x, k, hy), (y, k2, hy2) = els
                a = next(a for key in x.d for a, p in key[0])
                rr, pp = a.args
                d = X.hyp_depth()
                X.push_hyps(hy)
                ok = ops.same_cases(r[0].act(x, k), [(lt(pp, ln(rr) - 1), cyc(rr, pp + 1)), (le(ln(rr) - 1, pp), cyc(rr, 0))])
                X.pop_to(d)
                X.push_hyps(hy2)
                ok = ok and ops.same_cases(r[0].act(y, k2), [(TRUE, y)])
                X.pop_to(d)
                return yes(ok)
            U, o, call = r
            to = {q: q for q in range(v.n)}
            for cy in v.cyc:
                for a, b in zip(cy, list(cy[1:]) + [cy[0]]):
                    to[int(a)] = int(b)
            for k in range(getattr(v, "s", 1)):
                for q in range(v.n):
                    if cls == "fermions":
                        w = lambda z: mode(call, o, z, k)
                    else:
                        w = lambda z: call(B + "get_single_site_op", o, z, 0, np.array([[.3, 1j], [.7, -.2]]), format="boson")
                    if not near0(U.dot(w(q)) - w(to[q]).dot(U)):
                        return False
            return near0(U.dot(U.conj().transpose()) - ident(U, False))
        c.ensures_cond("conjugation maps each mode to its image under the permutation, for every species", moves)
