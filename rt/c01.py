import numpy as np, scipy.sparse as sp
from rt.core import *
from rt import ref
from exact_diag.ed_geometry import Geometry
from exact_diag.ed_fermions import fermions
from exact_diag.ed_spins import spinSystem
from exact_diag.ed_base import ed_base


def chain(n, **k):
    return Geometry.createNonPeriodicGeometry(list(range(n)), [0] * n)


def make(ns, nsp):
    m = fermions(chain(ns), 0, 1.0, nspecies=nsp)
    return m


def run(ctx):
    r = ctx.rng
    # fermions: exhaustive over modes for small systems
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (2, 3), (1, 3), (4, 1), (1, 4), (5, 1)] + ([(4, 2), (6, 1), (7, 1), (2, 4), (3, 3)] if ctx.thorough() else [(7, 1)])
    for ns, nsp in shapes:
        M = make(ns, nsp)
        L = ns * nsp
        cs = ref.ladder(L)

        def chk_single(M=M, ns=ns, nsp=nsp, L=L, cs=cs):
            for s in range(nsp):
                for i in range(ns):
                    k = s * ns + i
                    c = M.get_single_site_op(i, s, M.c_op, format="fermion")
                    cd = M.get_single_site_op(i, s, M.cdag_op, format="fermion")
                    close(c, cs[k], 1e-12, "annihilator")
                    close(cd, cs[k].T, 1e-12, "creator")
                    close(M.get_single_site_op(i, s, M.n_op, format="boson"), cs[k].T @ cs[k], 1e-12, "number operator")
                    op = r.normal(size=(2, 2)) + 1j * r.normal(size=(2, 2))
                    for f in ("fermion", "boson"):
                        close(M.get_single_site_op(i, s, op, format=f), ref.embed(op, k, L, 2, f == "fermion"), 1e-12, "one-site " + f)
                        close(M.get_single_site_op(i, s, op, f), ref.embed(op, k, L, 2, f == "fermion"), 1e-12, "one-site positional")
                    close(M.get_single_site_op(i, s, op), ref.embed(op, k, L, 2, True), 1e-12, "default format")
                    need(M.spinful2spinlessIndex(i, ns, s) == k, "mode index")
                    a, b = M.spinless2spinfullIndex(k, ns)
                    need(int(a) == i and int(b) == s and isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)), "inverse mode index")
        ctx.case("one-site operators", (ns, nsp), chk_single)
        pairs = [(a, b) for a in range(L) for b in range(L)]
        if L > 6:
            pairs = [pairs[i] for i in r.permutation(len(pairs))[:24]] + [(0, L - 1), (L - 1, 0), (L - 2, L - 1), (L - 1, L - 2)]
        if L <= 7:
            for a, b in pairs:
                def chk2(a=a, b=b, M=M, ns=ns, L=L, cs=cs):
                    s1, i1 = divmod(a, ns)
                    s2, i2 = divmod(b, ns)
                    op1 = r.normal(size=(2, 2)) + 1j * r.normal(size=(2, 2))
                    op2 = r.normal(size=(2, 2)) + 1j * r.normal(size=(2, 2))
                    if (a + b) % 3 == 1:
                        op1 = r.integers(-3, 4, (2, 2))         # integer and complex factors
                    if (a + 2 * b) % 3 == 1:
                        op2 = r.integers(-3, 4, (2, 2)).astype(float)
                    for f in ("fermion", "boson"):
                        x = ref.embed(op1, a, L, 2, f == "fermion") @ ref.embed(op2, b, L, 2, f == "fermion")
                        close(M.get_two_site_op(i1, s1, i2, s2, op1, op2, format=f), x, 1e-12, "two-site " + f)
                    close(M.get_two_site_op(i1, s1, i2, s2, op1, op2), ref.embed(op1, a, L, 2, True) @ ref.embed(op2, b, L, 2, True), 1e-12, "two-site default format")
                    for x, X in ((M.cdag_op, cs[a].T), (M.c_op, cs[a])):
                        for y, Y in ((M.cdag_op, cs[b].T), (M.c_op, cs[b])):
                            close(M.get_two_site_op(i1, s1, i2, s2, x, y, "fermion"), X @ Y, 1e-12, "ladder product")
                ctx.case("two-site operators", (ns, nsp, a, b), chk2)
        def chksum(M=M, ns=ns, nsp=nsp, L=L, cs=cs):
            for s in range(nsp):
                op = r.normal(size=(2, 2)) + 1j * r.normal(size=(2, 2))
                for f in ("fermion", "boson"):
                    x = sum(ref.embed(op, s * ns + i, L, 2, f == "fermion") for i in range(ns))
                    close(M.get_sum_op(op, s, format=f), x, 1e-12, "sum operator")
                    for q in (r.normal(size=2), np.array([0., 0.]), np.array([np.pi, 0.3]), [2.1, -1.0]):
                        x = sum(np.exp(1j * (M.geometry.xlocs[i] * q[0] + M.geometry.ylocs[i] * q[1])) * ref.embed(op, s * ns + i, L, 2, f == "fermion") for i in range(ns))
                        close(M.get_sum_op_q(s, q, op, format=f), x, 1e-11, "plane-wave sum")
                close(M.get_sum_op(M.n_op, s, format="boson"), sum(cs[s * ns + i].T @ cs[s * ns + i] for i in range(ns)), 1e-12, "number")
        if L <= 8:
            ctx.case("sum operators", (ns, nsp), chksum)
    # 2d positions for plane-wave sums
    for _ in range(ctx.reps(3, 12)):
        xs = r.normal(size=3); ys = r.normal(size=3); q = r.normal(size=2)
        def chkq(xs=xs, ys=ys, q=q):
            M = fermions(Geometry.createNonPeriodicGeometry(xs, ys, np.zeros((3, 3))), 0, 1.0, nspecies=2)
            for s in range(2):
                x = sum(np.exp(1j * (xs[i] * q[0] + ys[i] * q[1])) * ref.embed(ref.N, s * 3 + i, 6, 2, False) for i in range(3))
                close(M.get_sum_op_q(s, q, ref.N, format="boson"), x, 1e-11, "plane-wave sum 2d")
        ctx.case("plane-wave sums", (xs, ys, q), chkq)
    # spins of any size
    for ns, spin in [(1, 0.5), (1, 1), (2, 0.5), (2, 1), (3, 0.5), (3, 1), (2, 1.5), (3, 1.5), (2, 2), (2, 2.5), (4, 0.5), (4, 1)] + ([(5, 1), (4, 1.5), (6, .5)] if ctx.thorough() else []):
        S = spinSystem(chain(ns), spin=spin)
        b = int(2 * spin + 1)
        for i in range(ns):
            def chks(i=i, S=S, ns=ns, b=b):
                op = r.normal(size=(b, b)) + 1j * r.normal(size=(b, b))
                close(S.get_single_site_op(i, 0, op, format="boson"), ref.embed(op, i, ns, b, False), 1e-12, "one-site spin")
                close(S.get_single_site_op(i, 0, sp.csr_matrix(op), format="boson"), ref.embed(op, i, ns, b, False), 1e-12, "one-site spin sparse")
            ctx.case("one-site spin operators", (ns, spin, i), chks)
            for j in range(ns):
                def chks2(i=i, j=j, S=S, ns=ns, b=b):
                    o1 = r.normal(size=(b, b)) + 1j * r.normal(size=(b, b)); o2 = r.normal(size=(b, b))
                    if (i + j) % 2:
                        o1, o2 = o2, o1
                    close(S.get_two_site_op(i, 0, j, 0, o1, o2, format="boson"), ref.embed(o1, i, ns, b, False) @ ref.embed(o2, j, ns, b, False), 1e-11, "two-site spin")
                    close(S.get_two_site_op(i, 0, j, 0, sp.csr_matrix(o1), sp.csr_matrix(o2), format="boson"), ref.embed(o1, i, ns, b, False) @ ref.embed(o2, j, ns, b, False), 1e-11, "two-site spin sparse")
                ctx.case("two-site spin operators", (ns, spin, i, j), chks2)
    # index maps for many values
    M = make(2, 2)
    def chkidx():
        for n in list(range(1, 14)) + [17, 31, 64, 100]:
            for k in list(range(0, 3 * n)) + [5 * n, 5 * n - 1, 5 * n + 1]:
                a, b = M.spinless2spinfullIndex(k, n)
                need(0 <= a < n and a + n * b == k, "mode index inverse")
                need(M.spinful2spinlessIndex(a, n, b) == k, "mode index round trip")
    ctx.case("mode index maps", "n<=100", chkidx)
    # a wrong format string is an error
    def chkfmt():
        expect_raise(lambda: M.get_single_site_op(0, 0, M.n_op, format="xyz"), "unknown format accepted")
        expect_raise(lambda: M.get_two_site_op(0, 0, 1, 0, M.n_op, M.n_op, format="xyz"), "unknown format accepted")
    ctx.case("format strings", "xyz", chkfmt)
    # large sparse systems: same algebra, checked by action on random vectors
    for ns, nsp in ((4, 3), (6, 2)) if not ctx.thorough() else ((4, 3), (6, 2), (13, 1), (3, 5)):
        M = make(ns, nsp); L = ns * nsp
        for _ in range(ctx.reps(6, 30)):
            a, b = (int(x) for x in r.integers(0, L, 2))
            def chkbig(a=a, b=b, M=M, ns=ns, L=L):
                s1, i1 = divmod(a, ns); s2, i2 = divmod(b, ns)
                v = r.normal(size=2 ** L)
                idx = np.arange(2 ** L)
                def ap(k, dag, v):
                    bit = (idx >> (L - 1 - k)) & 1
                    later = idx & ((1 << (L - 1 - k)) - 1)
                    par = np.array([bin(x).count("1") & 1 for x in later])
                    w = np.zeros_like(v)
                    src = bit == (0 if dag else 1)
                    w[idx[src] ^ (1 << (L - 1 - k))] = ((-1.) ** par[src]) * v[src]
                    return w
                for d1 in (0, 1):
                    for d2 in (0, 1):
                        x = M.get_two_site_op(i1, s1, i2, s2, M.cdag_op if d1 else M.c_op, M.cdag_op if d2 else M.c_op, "fermion")
                        close(x.dot(v), ap(a, d1, ap(b, d2, v)), 1e-10, "two-site operator action")
                close(M.get_single_site_op(i1, s1, M.c_op).dot(v), ap(a, 0, v), 1e-10, "one-site action")
            ctx.case("large systems", (ns, nsp, a, b), chkbig)
