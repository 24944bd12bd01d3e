import numpy as np, itertools
from rt.core import *
from rt import ref, geo
from exact_diag.ed_geometry import Geometry
from exact_diag.ed_fermions import fermions
from exact_diag.ed_spins import spinSystem


def cycles_of(perm):
    seen = set(); out = []
    for i in range(len(perm)):
        if i in seen:
            continue
        c = [i]; seen.add(i); j = perm[i]
        while j != i:
            c.append(j); seen.add(j); j = perm[j]
        out.append(c)
    return out


def perms(r, n, k):
    if n <= 4:
        ps = list(itertools.permutations(range(n)))
        if len(ps) > k:
            ps = [ps[i] for i in r.permutation(len(ps))[:k]]
        return ps
    return [tuple(int(x) for x in r.permutation(n)) for _ in range(k)]


def run(ctx):
    r = ctx.rng
    shapes = [(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 1), (2, 2), (3, 2), (4, 2), (2, 3), (3, 3)]
    if ctx.thorough():
        shapes += [(8, 1), (9, 1), (5, 2), (2, 5), (2, 4)]
    for ns, nsp in shapes:
        M = fermions(geo.chain(ns), 0, 1.0, nspecies=nsp)
        L = ns * nsp
        cs = ref.ladder_sparse(L)
        dim = 2 ** L
        for p in perms(r, ns, ctx.reps(24 if L <= 6 else 8, 40)):
            cyc = cycles_of(p)
            # present cycles rotated and reordered: still the same permutation
            cyc = [c[k:] + c[:k] for c in cyc for k in [int(r.integers(len(c)))]]
            cyc = [cyc[i] for i in r.permutation(len(cyc))]
            if r.random() < .3:
                cyc = [np.array(c) for c in cyc]
            def chk(p=p, cyc=cyc, M=M, ns=ns, nsp=nsp, cs=cs, dim=dim):
                T = M.get_xform_op(cyc)
                import scipy.sparse as sp
                if not sp.issparse(T):
                    need(T == 1 and all(p[i] == i for i in range(ns)), "operator of a nontrivial permutation is a number")
                    return
                T = T.tocsr()
                d = abs((T.conj().T @ T) - sp.eye(dim)).max()
                need(d < 1e-10, "not unitary")
                for s in range(nsp):
                    for i in range(ns):
                        e = abs(T @ cs[s * ns + i] - cs[s * ns + p[i]] @ T).max()
                        need(e < 1e-10, f"annihilator on site {i} species {s} is not mapped to site {p[i]}")
                v = np.zeros(dim); v[0] = 1
                need(np.allclose(T @ v, v), "vacuum is not invariant")
            ctx.case("fermion site permutation", (ns, nsp, [list(map(int, c)) for c in cyc]), chk)
        if ns > 1:
            for i, j in [(a, b) for a in range(ns) for b in range(ns) if a != b][:ctx.reps(12, 60)]:
                for s in range(nsp):
                    def chks(i=i, j=j, s=s, M=M, ns=ns, nsp=nsp, cs=cs, dim=dim):
                        import scipy.sparse as sp
                        W = M.get_swap_op(i, j, s).tocsr()
                        need(abs(W @ W - sp.eye(dim)).max() < 1e-10, "exchange is not an involution")
                        need(abs(W - W.conj().T).max() < 1e-10, "exchange is not Hermitian")
                        for q in range(nsp):
                            for k in range(ns):
                                img = k if q != s else {i: j, j: i}.get(k, k)
                                need(abs(W @ cs[q * ns + k] - cs[q * ns + img] @ W).max() < 1e-10, f"exchange moves mode {k},{q} wrongly")
                        v = np.zeros(dim); v[0] = 1
                        need(np.allclose(W @ v, v), "vacuum")
                    ctx.case("fermion exchange", (ns, nsp, i, j, s), chks)
    for ns in (2, 3, 4, 5, 6, 7) + ((8, 9) if ctx.thorough() else ()):
        S = spinSystem(geo.chain(ns))
        dim = 2 ** ns
        idx = np.arange(dim)
        bits = np.array([(idx >> (ns - 1 - k)) & 1 for k in range(ns)])
        for p in perms(r, ns, ctx.reps(16, 60)):
            cyc = cycles_of(p)
            cyc = [c[k:] + c[:k] for c in cyc for k in [int(r.integers(len(c)))]]
            cyc = [cyc[i] for i in r.permutation(len(cyc))]
            def chk(p=p, cyc=cyc, S=S, ns=ns, dim=dim):
                import scipy.sparse as sp
                T = S.get_xform_op(cyc)
                if not sp.issparse(T):
                    need(T == 1 and all(p[i] == i for i in range(ns)), "operator of a nontrivial permutation is a number")
                    return
                T = T.tocsr()
                img = np.zeros(dim, int)
                for k in range(ns):
                    img = img | (bits[k] << (ns - 1 - p[k]))
                want = sp.csr_matrix((np.ones(dim), (img, idx)), shape=(dim, dim))
                need(abs(T - want).max() < 1e-10, "spin permutation operator")
            ctx.case("spin site permutation", (ns, cyc), chk)
        for i, j in [(a, b) for a in range(ns) for b in range(ns) if a != b][:ctx.reps(12, 72)]:
            def chks(i=i, j=j, S=S, ns=ns, dim=dim):
                W = dense(S.get_swap_op(i, j, 0)); W2 = dense(S.get_swap_op(i, j))
                bi = (idx >> (ns - 1 - i)) & 1; bj = (idx >> (ns - 1 - j)) & 1
                img = idx ^ ((bi ^ bj) << (ns - 1 - i)) ^ ((bi ^ bj) << (ns - 1 - j))
                want = np.zeros((dim, dim)); want[img, idx] = 1
                close(W, want, 1e-12, "exchange"); close(W2, want, 1e-12, "exchange default species")
            ctx.case("spin exchange", (ns, i, j), chks)
    # commutation with invariant Hamiltonians: inhomogeneous but permutation-symmetric
    for _ in range(ctx.reps(8, 30)):
        ns = int(r.integers(2, 5)); nsp = int(r.integers(1, 3))
        p = [int(x) for x in r.permutation(ns)]
        order = int(np.lcm.reduce([len(c) for c in cycles_of(p)]))
        t0 = rand_herm(r, ns); t = np.zeros((ns, ns), complex); u = np.zeros(ns); u0 = r.normal(size=ns)
        q = list(range(ns))
        for _k in range(order):
            t = t + t0[np.ix_(q, q)]; u = u + u0[q]
            q = [p[x] for x in q]
        def chkc(ns=ns, nsp=nsp, p=p, t=t, u=u):
            import scipy.sparse as sp
            M = fermions(geo.chain(ns), u if nsp == 2 else 0, np.stack([t] * nsp, 2), nspecies=nsp)
            T = M.get_xform_op(cycles_of(p))
            T = dense(T) if sp.issparse(T) else np.eye(2 ** (ns * nsp))
            H = dense(M.createH())
            close(T @ H, H @ T, 1e-9, "symmetry does not commute with the invariant Hamiltonian")
        ctx.case("invariant Hamiltonians", (ns, nsp, p), chkc)
