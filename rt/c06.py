import numpy as np, scipy.sparse as sp, itertools
from rt.core import *
from rt import geo, ref
from exact_diag import ed_symmetry as es
from exact_diag.ed_geometry import Geometry
from exact_diag.ed_fermions import fermions
from exact_diag.ed_spins import spinSystem


def perm_mat(p):
    n = len(p); m = np.zeros((n, n)); m[list(p), range(n)] = 1
    return m


def iso(ch, els):
    """isotypic projector from characters"""
    d = ch[0].real
    return sum(np.conj(c) * e for c, e in zip(ch, els)) * d / len(els)


def check_set(projs, isos, dim, ordered=True):
    ps = [dense(p) for p in projs]
    for p in ps:
        need(p.shape[1] == dim, "projector width")
        close(p @ p.conj().T, np.eye(p.shape[0]), 1e-8, "orthonormal rows")
    for a, b in itertools.combinations(range(len(ps)), 2):
        if ps[a].size and ps[b].size:
            close(ps[a] @ ps[b].conj().T, np.zeros((ps[a].shape[0], ps[b].shape[0])), 1e-8, "different projectors not orthogonal")
    close(sum(p.conj().T @ p for p in ps), np.eye(dim), 1e-8, "projectors do not span the space")
    if isos is None:
        return
    if ordered:
        for p, P in zip(ps, isos):
            close(p.conj().T @ p, P, 1e-8, "rows do not span the subspace of the representation")
    else:
        left = list(isos)
        for p in ps:
            k = [i for i, P in enumerate(left) if np.allclose(p.conj().T @ p, P, atol=1e-7)]
            need(k, "rows span no irreducible subspace"); left.pop(k[0])


def dihedral(n):
    """irreps as (chi(R^k), chi(R^k S)) in the documented order"""
    one = lambda r_, s: (lambda k: r_ ** k, lambda k: r_ ** k * s)
    two = lambda q: (lambda k: 2 * np.cos(2 * np.pi * q * k / n), lambda k: 0.)
    return {2: [one(1, 1), one(1, -1), one(-1, 1), one(-1, -1)],
            3: [one(1, 1), one(1, -1), two(1)],
            4: [one(1, 1), one(1, -1), one(-1, 1), one(-1, -1), two(1)],
            5: [one(1, 1), one(1, -1), two(2), two(1)],
            6: [one(1, 1), one(1, -1), one(-1, 1), one(-1, -1), two(2), two(1)],
            7: [one(1, 1), one(1, -1), two(1), two(2), two(3)]}[n]


def reps(r, n, ctx):
    """pairs (name, R, S) of representations of D_n"""
    rot = [(i + 1) % n for i in range(n)]; ref_ = [(-i) % n for i in range(n)]
    R, S = perm_mat(rot), perm_mat(ref_)
    out = [("sites", R, S), ("trivial", np.eye(3), np.eye(3)), ("sites+fixed", np.block([[R, np.zeros((n, 2))], [np.zeros((2, n)), np.eye(2)]]), np.block([[S, np.zeros((n, 2))], [np.zeros((2, n)), np.eye(2)]]))]
    # regular representation: element (k, s)
    el = [(k, s) for s in (0, 1) for k in range(n)]
    mul = lambda a, b: ((a[0] + (b[0] if a[1] == 0 else -b[0])) % n, (a[1] + b[1]) % 2)
    L = lambda g: perm_mat([el.index(mul(g, h)) for h in el])
    out.append(("regular", L((1, 0)), L((0, 1))))
    q = r.permutation(2 * n); Q = perm_mat(q)
    out.append(("regular, shuffled", Q @ L((1, 0)) @ Q.T, Q @ L((0, 1)) @ Q.T))
    D = np.diag(np.exp(1j * r.normal(size=2 * n)))
    out.append(("regular, complex phases", D @ L((1, 0)) @ D.conj().T, D @ L((0, 1)) @ D.conj().T))
    out.append(("sign x sites", R, -S))
    if n <= 5 or ctx.thorough():
        g = Geometry.createRegularPolygonGeometry(n) if n > 2 else Geometry.createNonPeriodicGeometry([0, 1], [0, 0])
        sp_ = spinSystem(g)
        if n > 2:
            cyc = [list(range(n))]
            rc = [[0]] + [[i, (-i) % n] for i in range(1, n) if i < (-i) % n] + [[i] for i in range(1, n) if i == (-i) % n]
            out.append(("spins", dense(sp_.get_xform_op(cyc)), dense(sp_.get_xform_op(rc))))
            f = fermions(g, 0, 1., nspecies=1)
            out.append(("fermions", dense(f.get_xform_op(cyc)), dense(f.get_xform_op(rc))))
    return out


def run(ctx):
    r = ctx.rng
    # cyclic groups
    for n in list(range(1, 14)) + ([16, 24, 30] if ctx.thorough() else [16]):
        reps_ = [("cycle", perm_mat([(i + 1) % n for i in range(n)])), ("identity", np.eye(4))]
        sizes = [d for d in range(1, n + 1) if n % d == 0]
        dim = sum(sizes); m = np.zeros((dim, dim), complex); o = 0
        for d in sizes:
            ph = np.exp(2j * np.pi * r.integers(n) / n) if d == 1 else 1
            m[o:o + d, o:o + d] = perm_mat([(i + 1) % d for i in range(d)]) * ph; o += d
        q = perm_mat(r.permutation(dim)); D = np.diag(np.exp(1j * r.normal(size=dim)))
        reps_ += [("all orbits", q @ m @ q.T), ("all orbits, phases", D @ q @ m @ q.T @ D.conj().T)]
        if 2 < n <= 6:
            reps_.append(("spin ring", dense(spinSystem(geo.chain(n)).get_xform_op([list(range(n))]))))
        for nm, T in reps_:
            def chk(n=n, T=T):
                projs, ks = es.getZnProjectors(sp.csr_matrix(T), n)
                close(ks, 2 * np.pi * np.arange(n) / n, 1e-12, "wave vectors"); need(len(projs) == n, "number of projectors")
                check_set(projs, None, T.shape[0])
                sign = None
                for sgn in (-1, 1):
                    if all(np.allclose(T @ dense(p).conj().T, np.exp(1j * sgn * k) * dense(p).conj().T, atol=1e-8) for p, k in zip(projs, ks)):
                        sign = sgn
                need(sign is not None, "rows are not the eigenspace of the wave vector")
                if n > 2 and T.shape[0] <= 8:
                    pass
            ctx.case("cyclic group", (nm, n), chk)
    # same sign convention for all n
    def chksign():
        sg = set()
        for n in range(3, 10):
            T = perm_mat([(i + 1) % n for i in range(n)])
            projs, ks = es.getZnProjectors(sp.csr_matrix(T), n)
            p = dense(projs[1]); e = (p @ T @ p.conj().T)[0, 0]
            sg.add(int(np.sign(np.angle(e))))
        need(len(sg) == 1, "sign of the wave vector differs between groups")
    ctx.case("cyclic group", "sign convention", chksign)
    for n1, n2 in [(1, 1), (2, 1), (1, 3), (2, 2), (3, 2), (3, 3), (2, 4), (4, 3)] + ([(5, 3), (4, 4), (6, 2)] if ctx.thorough() else []):
        T1 = np.kron(perm_mat([(i + 1) % n1 for i in range(n1)]), np.eye(n2)); T2 = np.kron(np.eye(n1), perm_mat([(i + 1) % n2 for i in range(n2)]))
        jobs = [("sites", T1, T2)]
        if n1 * n2 in (4, 6):
            cyc1 = [[a * n2 + b for a in range(n1)] for b in range(n2)]; cyc2 = [[a * n2 + b for b in range(n2)] for a in range(n1)]
            s = spinSystem(geo.chain(n1 * n2)); jobs.append(("spins", dense(s.get_xform_op(cyc1)), dense(s.get_xform_op(cyc2))))
            f = fermions(geo.chain(n1 * n2), 0, 1., nspecies=1); jobs.append(("fermions", dense(f.get_xform_op(cyc1)), dense(f.get_xform_op(cyc2))))
        for nm, A, B in jobs:
            def chk2(n1=n1, n2=n2, A=A, B=B):
                projs, k1, k2 = es.get2DTranslationProjectors(sp.csr_matrix(A), n1, sp.csr_matrix(B), n2)
                need(len(projs) == len(k1) == len(k2), "lengths"); need(all(dense(p).shape[0] > 0 for p in projs), "empty projector kept")
                check_set(projs, None, A.shape[0])
                ok = False
                for sgn in (-1, 1):
                    ok = ok or all(np.allclose(A @ dense(p).conj().T, np.exp(1j * sgn * a) * dense(p).conj().T, atol=1e-8) and np.allclose(B @ dense(p).conj().T, np.exp(1j * sgn * b) * dense(p).conj().T, atol=1e-8) for p, a, b in zip(projs, k1, k2))
                need(ok, "rows are not the joint eigenspaces of the wave vectors")
                need(len(set((round(a, 8), round(b, 8)) for a, b in zip(k1, k2))) == len(projs), "wave vectors repeated")
            ctx.case("two translations", (nm, n1, n2), chk2)
    # dihedral groups
    fns = {2: es.getD2Projectors, 3: es.getD3Projectors, 4: es.getD4Projectors, 5: es.getD5Projectors, 6: es.getD6Projectors, 7: es.getD7Projectors}
    for n, fn in fns.items():
        for nm, R, S in reps(r, n, ctx):
            def chk(n=n, fn=fn, R=R, S=S):
                Rk = [np.linalg.matrix_power(R, k) for k in range(n)]
                els = Rk + [x @ S for x in Rk]
                isos = [iso(np.array([a(k) for k in range(n)] + [b(k) for k in range(n)], complex), els) for a, b in dihedral(n)]
                check_set(fn(sp.csr_matrix(R), sp.csr_matrix(S)), isos, R.shape[0], ordered=n <= 4)
            ctx.case(f"dihedral group D{n}", nm, chk)
    # square point group with 3x3 translations
    def els72(R, S, X, Y):
        mp = np.linalg.matrix_power
        return {(a, b, k, s): mp(X, a) @ mp(Y, b) @ mp(R, k) @ mp(S, s) for a in range(3) for b in range(3) for k in range(4) for s in range(2)}
    def site_rep():
        idx = lambda x, y: (x % 3) * 3 + y % 3
        mk = lambda f: perm_mat([idx(*f(x, y)) for x in range(3) for y in range(3)])
        return mk(lambda x, y: (-y, x)), mk(lambda x, y: (x, y)), mk
    def c4v():
        idx = lambda x, y: (x % 3) * 3 + y % 3
        mk = lambda f: [idx(*f(x, y)) for x in range(3) for y in range(3)]
        return mk(lambda x, y: (-y, x)), mk(lambda x, y: (-x, y)), mk(lambda x, y: (x + 1, y)), mk(lambda x, y: (x, y + 1))
    pr, ps, px, py = c4v()
    def comp_reps():
        out = [("sites", *(perm_mat(p) for p in (pr, ps, px, py)))]
        # pairs of sites (81 dim) and regular representation from the action on ordered triples (subset)
        two = lambda p: perm_mat([p[i] * 9 + p[j] for i in range(9) for j in range(9)])
        out.append(("pairs", *(two(p) for p in (pr, ps, px, py))))
        # regular representation through the orbit of an asymmetric triple
        key = (0, 1, 5); orb = [key]; k = 0
        while k < len(orb):
            for p in (pr, ps, px, py):
                t = tuple(p[i] for i in orb[k])
                if t not in orb:
                    orb.append(t)
            k += 1
        pm = {t: i for i, t in enumerate(orb)}
        out.append((f"orbit of size {len(orb)}", *(perm_mat([pm[tuple(p[i] for i in t)] for t in orb]) for p in (pr, ps, px, py))))
        D = np.diag(np.exp(1j * r.normal(size=len(orb))))
        out.append(("orbit with phases", *(D @ perm_mat([pm[tuple(p[i] for i in t)] for t in orb]) @ D.conj().T for p in (pr, ps, px, py))))
        if True:
            from rt.c04 import cycles_of
            f = fermions(geo.chain(9), 0, 1., nspecies=1)
            if ctx.thorough():
                out.append(("fermions", *(dense(f.get_xform_op(cycles_of(p))) for p in (pr, ps, px, py))))
        return out
    for nm, R, S, X, Y in comp_reps():
        def chkc(R=R, S=S, X=X, Y=Y):
            E = els72(R, S, X, Y)
            projs = es.getC4V_and_3byb3(*(sp.csr_matrix(a) for a in (R, S, X, Y)))
            check_set(projs, None, R.shape[0])
            need(len(projs) == 9, "number of projectors")
            # independent irreps of (S3 x S3):Z2 by the little-group construction on the characters of the site model:
            # isotypic subspaces are exactly the joint eigenspaces of the nine class sums
            keyd = {}
            ks = list(E)
            site = {k: v for k, v in els72(*(perm_mat(p) for p in (pr, ps, px, py))).items()}
            inv = {}
            sk = {v.tobytes(): k for k, v in site.items()}
            if len(sk) != 72:
                raise Broken("reference group")
            classes = []; seen = set()
            for k in ks:
                if k in seen:
                    continue
                c = set(sk[(site[h] @ site[k] @ site[h].T).tobytes()] for h in ks); seen |= c; classes.append(sorted(c))
            need(len(classes) == 9, "reference classes")
            w = r.normal(size=9) + 0.
            W = sum(a * sum(E[k] for k in c) / len(c) for a, c in zip(w, classes))
            W = W + W.conj().T
            vals = set()
            for p in projs:
                p = dense(p)
                if p.shape[0] == 0:
                    continue
                M = p @ W @ p.conj().T
                close(W @ p.conj().T, p.conj().T @ M, 1e-7, "not invariant")
                close(M, M[0, 0] * np.eye(p.shape[0]), 1e-7, "projector mixes irreducible representations")
                v = round(float(M[0, 0].real), 6); need(v not in vals, "two projectors carry the same representation"); vals.add(v)
        ctx.case("square point group and 3x3 translations", nm, chkc)
    # generic groups through get_symmetry_projectors: symmetric group S4, S3 with complex conjugated bases
    def s4():
        els = [p for p in itertools.permutations(range(4))]
        def ctype(p):
            from rt.c04 import cycles_of
            return tuple(sorted(len(c) for c in cycles_of(p)))
        types = [(1, 1, 1, 1), (1, 1, 2), (2, 2), (1, 3), (4,)]
        table = np.array([[1, 1, 1, 1, 1], [1, -1, 1, 1, -1], [2, 0, 2, -1, 0], [3, 1, -1, 0, -1], [3, -1, -1, 0, 1]])
        for nm, f in (("sites", lambda p: perm_mat(p)), ("pairs", lambda p: perm_mat([p[i] * 4 + p[j] for i in range(4) for j in range(4)])), ("triples", lambda p: perm_mat([p[i] * 16 + p[j] * 4 + p[k] for i in range(4) for j in range(4) for k in range(4)])),
                      ("regular", lambda p: perm_mat([els.index(tuple(p[i] for i in q)) for q in els]))):
            cc = [[sp.csr_matrix(f(p)) for p in els if ctype(p) == t] for t in types]
            isos = [sum(np.conj(ch) * sum(dense(g) for g in c) for ch, c in zip(row, cc)) * row[0] / 24 for row in table]
            check_set(es.get_symmetry_projectors(table, cc), isos, isos[0].shape[0])
    ctx.case("symmetric group S4", "sites, pairs, triples, regular", s4)
    # table check
    def chktab():
        good = {"D3": (np.array([[1, 1, 1], [1, 1, -1], [2, -1, 0]]), [1, 2, 3]), "D4": (np.array([[1, 1, 1, 1, 1], [1, 1, 1, -1, -1], [1, -1, 1, 1, -1], [1, -1, 1, -1, 1], [2, 0, -2, 0, 0]]), [1, 2, 1, 2, 2]),
                "D5": (np.array([[1, 1, 1, 1], [1, -1, 1, 1], [2, 0, 2 * np.cos(2 * np.pi / 5), 2 * np.cos(4 * np.pi / 5)], [2, 0, 2 * np.cos(4 * np.pi / 5), 2 * np.cos(2 * np.pi / 5)]]), [1, 5, 2, 2])}
        for n in (1, 2, 3, 5, 8):
            k = np.arange(n); good[f"Z{n}"] = (np.exp(-2j * np.pi * np.outer(k, k) / n), [1] * n)
        for nm, (t, sz) in good.items():
            cc = [[None] * s for s in sz]
            need(bool(es.validate_char_table(t, cc)), f"valid table {nm} rejected")
            n = len(t)
            if n == 1:
                continue
            u = t.copy(); u[-1, 0] = u[-1, 0] + 1; need(not es.validate_char_table(u, cc), f"{nm} with a wrong entry accepted")
            u = t.copy(); u[1] = u[0]; need(not es.validate_char_table(u, cc), f"{nm} with equal rows accepted")
            u = t.copy(); u[:, 1] = u[:, 0]; need(not es.validate_char_table(u, cc), f"{nm} with equal columns accepted")
            u = t * 2; need(not es.validate_char_table(u, cc), f"{nm} doubled accepted")
            if len(set(sz)) > 1:
                i, j = 0, int(np.argmax(sz)); s2 = list(sz); s2[i], s2[j] = s2[j], s2[i]
                need(not es.validate_char_table(t, [[None] * s for s in s2]), f"{nm} with wrong class sizes accepted")
            s2 = list(sz); s2[-1] += 1
            need(not es.validate_char_table(t, [[None] * s for s in s2]), f"{nm} with an extra class element accepted")
            I = [[sp.eye(2, format="csr")] * s for s in sz]
            u = t.copy(); u[1] = u[0]
            expect_raise(lambda: es.get_symmetry_projectors(u, I), "invalid table accepted by get_symmetry_projectors")
    ctx.case("table check", "D3 D4 D5 Zn", chktab)
    # a table whose projectors have the right sizes all the same
    def chkw():
        for X in (sp.csr_matrix([[0, 1], [1, 0.]]), sp.csr_matrix(np.kron([[0, 1], [1, 0.]], np.eye(3)))):
            for w in (-1.6, -.4, 2.5):
                expect_raise(lambda: es.get_symmetry_projectors(np.array([[1, 1], [1, w]]), [[sp.eye(X.shape[0], format="csr")], [X]]), f"table with the entry {w} accepted")
    ctx.case("character table", "wrong entry, sizes unaffected", chkw)
