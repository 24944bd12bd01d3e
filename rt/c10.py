"""C10 linked-cluster enumeration against brute force over connected site subsets"""
import numpy as np, itertools
from rt.core import *
from rt import geo
from exact_diag.ed_geometry import Geometry
from exact_diag import ed_nlce as nl

D4 = [np.array(m) for m in ([[1, 0], [0, 1]], [[0, -1], [1, 0]], [[-1, 0], [0, -1]], [[0, 1], [-1, 0]],
                            [[-1, 0], [0, 1]], [[1, 0], [0, -1]], [[0, 1], [1, 0]], [[0, -1], [-1, 0]])]


def norm(pts):
    pts = list(pts)
    mx = min(a for a, b in pts); my = min(b for a, b in pts)
    return tuple(sorted((int(round(a - mx)), int(round(b - my))) for a, b in pts))


def orbit(key):
    a = np.array(key)
    return {norm((a @ m.T).tolist()) for m in D4}


def canon(key, symm):
    return min(orbit(key)) if symm else key


def polyominoes(n):
    cur = {norm([(0, 0)])}
    for _ in range(n - 1):
        nxt = set()
        for k in cur:
            s = set(k)
            for (a, b) in k:
                for d in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                    p = (a + d[0], b + d[1])
                    if p not in s:
                        nxt.add(norm(list(s) + [p]))
        cur = nxt
    return cur


def pts(g):
    return list(zip([float(v) for v in g.xlocs], [float(v) for v in g.ylocs]))


def connected_subsets(adj):
    """all nonempty connected vertex subsets as frozensets, by size"""
    n = len(adj)
    nb = [set(j for j in range(n) if adj[i][j]) for i in range(n)]
    out = {frozenset([i]) for i in range(n)}
    level = set(out); res = [sorted(level, key=sorted)]
    while level:
        nx = set()
        for s in level:
            for v in set().union(*(nb[i] for i in s)) - s:
                nx.add(s | {v})
        level = nx
        if level:
            res.append(sorted(level, key=sorted))
    return res


def check_adj(g):
    p = np.array(pts(g)); d = np.hypot(p[:, 0][:, None] - p[:, 0], p[:, 1][:, None] - p[:, 1])
    close(np.asarray(g.adjacency_mat, float), (np.abs(d - 1) < 1e-9).astype(float), 1e-12, "cluster bonds")


def run(ctx):
    r = ctx.rng
    mo = ctx.reps(6, 7)
    for symm in (False, True):
        for order in range(1, (mo if symm else mo - (1 if not ctx.thorough() else 1)) + 1):
            def chk(order=order, symm=symm):
                cl, mult, ind = nl.get_all_clusters(order, use_symmetry=symm)
                need(len(ind) == order + 1 and ind[0] == 0 and ind[-1] == len(cl) and len(mult) == len(cl), "index ranges")
                for k in range(order):
                    ref = polyominoes(k + 1)
                    got = []
                    for i in range(ind[k], ind[k + 1]):
                        g = cl[i]; need(g.nsites == k + 1, "cluster size")
                        key = norm(pts(g)); need(len(set(key)) == k + 1, "repeated site"); check_adj(g)
                        need(key in ref, f"not a connected cluster: {key}")
                        got.append(canon(key, symm))
                        need(int(mult[i]) == (len(orbit(key)) if symm else 1), f"multiplicity {mult[i]} of {key}")
                    need(len(set(got)) == len(got), "equivalent clusters listed twice")
                    need(set(got) == {canon(k2, symm) for k2 in ref}, "clusters missing")
                    if symm:
                        need(sum(int(m) for m in mult[ind[k]:ind[k + 1]]) == len(ref), "multiplicities do not add up")
            ctx.case("infinite lattice clusters", (order, symm), chk)
        # next order from a subset / permuted list of clusters, translated clusters
        def chk2(symm=symm):
            a, _ = nl.get_clusters_next_order(None, use_symmetry=symm)
            need(len(a) == 1 and a[0].nsites == 1, "order one")
            for _ in range(3):
                b, m = nl.get_clusters_next_order(a, use_symmetry=symm)
                if len(b) == 0:
                    break
                ref = set()
                for g in a:
                    s = set((int(round(x)), int(round(y))) for x, y in pts(g))
                    for (x, y) in s:
                        for d in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                            if (x + d[0], y + d[1]) not in s:
                                ref.add(canon(norm(list(s) + [(x + d[0], y + d[1])]), symm))
                got = [canon(norm(pts(g)), symm) for g in b]
                need(len(set(got)) == len(got) and set(got) == ref, "clusters generated from the given clusters")
                a = b[1:] if len(b) > 2 else b
        ctx.case("next order", symm, chk2)
    # symmetry partners
    for _ in range(ctx.reps(12, 60)):
        n = int(r.integers(1, 7)); s = {(0, 0)}
        while len(s) < n:
            q = list(s)[int(r.integers(len(s)))]; d = [(1, 0), (-1, 0), (0, 1), (0, -1)][int(r.integers(4))]
            s.add((q[0] + d[0], q[1] + d[1]))
        s = sorted(s); off = r.integers(-3, 4, 2) + [0., .5, .125, -.75][_ % 4]
        def chk3(s=s, off=off):
            g = Geometry.createNonPeriodicGeometry(np.array([a + off[0] for a, b in s]), np.array([b + off[1] for a, b in s]))
            g.permute_sites(g.get_sorting_permutation())
            c = nl.get_clusters_rel_by_symmetry(g)
            keys = [norm(pts(h)) for h in c]
            need(len(set(keys)) == len(keys) and set(keys) == orbit(norm(s)), "symmetry partners")
        ctx.case("symmetry partners", (s, off.tolist()), chk3)
    # matrix over the infinite lattice
    for symm in (True, False):
        for order in range(1, ctx.reps(4, 5) + 1 + (1 if symm else 0)):
            if not symm and order > 4:
                continue
            def chk4(order=order, symm=symm):
                cl, mult, M, ind = nl.get_all_clusters_with_subclusters(order, use_symmetry=symm)
                M = dense(M); keys = [canon(norm(pts(g)), symm) for g in cl]
                E = np.zeros((len(cl), len(cl)))
                for i, g in enumerate(cl):
                    p = norm(pts(g))
                    adj = [[abs(a[0] - b[0]) + abs(a[1] - b[1]) == 1 for b in p] for a in p]
                    for lev in connected_subsets(adj):
                        for s in lev:
                            if len(s) < len(p):
                                E[i, keys.index(canon(norm([p[v] for v in s]), symm))] += 1
                close(M, E, 1e-9, "subcluster multiplicities")
            ctx.case("multiplicity matrix", (order, symm), chk4)
    # subclusters of parents
    parents = [("2x2", Geometry.createSquareGeometry(2, 2)), ("3x2", Geometry.createSquareGeometry(3, 2)), ("chain 5", geo.chain(5)),
               ("one", Geometry.createNonPeriodicGeometry([0], [0])), ("plus", Geometry.createNonPeriodicGeometry([0, 1, -1, 0, 0], [0, 0, 0, 1, -1])),
               ("two pieces", Geometry.createNonPeriodicGeometry([0, 1, 5, 6, 6], [0, 0, 2, 2, 3])),
               ("ring 5", geo.chain(5, True)), ("shifted by thirds", Geometry.createNonPeriodicGeometry(np.array([0, 1, 2, 0, 1, 1]) + 1 / 3, np.array([0, 0, 0, 1, 1, 2]) - 2 / 7)), ("shifted far", Geometry.createNonPeriodicGeometry(np.array([0, 1, 0, 1, 0]) + 100.123456789, np.array([3, 3, 2, 2, 1]) - .7654321)), ("ring8 open coords", Geometry.createNonPeriodicGeometry([0, 1, 2, 2, 2, 1, 0, 0], [0, 0, 0, 1, 2, 2, 2, 1])), ("custom bonds", Geometry.createNonPeriodicGeometry([0, 1, 2, 3], [0, 0, 0, 0], np.array([[0, 1, 0, 1], [1, 0, 0, 0], [0, 0, 0, 1], [1, 0, 1, 0.]])))]
    parents += [("3x3", Geometry.createSquareGeometry(3, 3))]
    if ctx.thorough():
        parents += [("ring 3x2", Geometry.createSquareGeometry(3, 2, 0, 0, False, True)), ("4x2", Geometry.createSquareGeometry(4, 2))]
    for k in range(ctx.reps(4, 12)):
        n = int(r.integers(4, 8)); s = {(0, 0)}
        while len(s) < n:
            q = list(s)[int(r.integers(len(s)))]; d = [(1, 0), (-1, 0), (0, 1), (0, -1)][int(r.integers(4))]
            s.add((q[0] + d[0], q[1] + d[1]))
        s = np.array(sorted(s))[r.permutation(n)]
        off = [np.zeros(2), np.array([1 / 3, -2 / 7]), np.array([.5, 1.5]), np.array([100.123456789, -.987654321])][k % 4]
        s = s + off
        parents.append((f"random {s.tolist()}", Geometry.createNonPeriodicGeometry(s[:, 0], s[:, 1])))
    for nm, g in parents:
        plain = nm not in ("ring 5", "custom bonds", "ring 3x2") and np.all(8 * np.array([g.xlocs, g.ylocs]) % 1 == 0)     # merging compares distances exactly
        P = pts(g); A = np.asarray(g.adjacency_mat)
        def chk5(g=g, P=P, A=A):
            col, sci, scm = nl.get_all_subclusters(g)
            ref = connected_subsets(A.tolist())
            need(len(col) == len(ref), f"{len(col)} orders instead of {len(ref)}")
            sets = []
            for k, lev in enumerate(col):
                got = [frozenset(P.index(q) for q in pts(c)) for c in lev]
                need(len(set(got)) == len(got), "subset listed twice")
                need(set(got) == set(ref[k]), f"order {k + 1}: wrong subsets")
                sets += got
            need(len(sci) == len(sets), "list of subclusters has the wrong length")
            E = np.zeros((len(sets), len(sets)))
            for i, a in enumerate(sets):
                want = [j for j, b in enumerate(sets) if b < a]
                need(sorted(sci[i]) == want and len(set(sci[i])) == len(sci[i]), "list of proper subclusters")
                E[i, want] = 1
            close(scm, E, 1e-12, "containment matrix")
        ctx.case("subclusters of a parent", nm, chk5)
        if plain:
            def chk6(g=g, P=P, A=A):
                lst, M, ind = nl.get_reduced_subclusters(g)
                ref = connected_subsets(A.tolist())
                keys = [canon(norm(pts(c)), True) for c in lst]
                need(len(set(keys)) == len(keys), "equivalent clusters not merged")
                want = [{canon(norm([P[v] for v in s]), True) for s in lev} for lev in ref]
                need(ind[0] == 0 and len(ind) == len(ref) + 1 and ind[-1] == len(lst), "index ranges")
                for k in range(len(ref)):
                    need(set(keys[ind[k]:ind[k + 1]]) == want[k], f"distinct clusters of order {k + 1}")
                E = np.zeros((len(lst), len(lst)))
                for i, c in enumerate(lst):
                    q = pts(c)
                    idx = [P.index(x) for x in q]
                    sub = A[np.ix_(idx, idx)].tolist()
                    for lev in connected_subsets(sub):
                        for s in lev:
                            if len(s) < len(q):
                                E[i, keys.index(canon(norm([q[v] for v in s]), True))] += 1
                close(M, E, 1e-9, "merged multiplicity matrix")
            ctx.case("merged subclusters", nm, chk6)
            def chk7(g=g, P=P, A=A):
                col, _, _ = nl.get_all_subclusters(g)
                for symm, kw in ((True, dict(use_symmetry=True)), (False, dict(use_symmetry=False)), (True, {})):
                    dist, mult, red = nl.reduce_clusters_by_geometry(col, **kw)
                    flat = [c for lev in col for c in lev]; fd = [c for lev in dist for c in lev]
                    kf = [canon(norm(pts(c)), symm) for c in flat]; kd = [canon(norm(pts(c)), symm) for c in fd]
                    need(len(set(kd)) == len(kd) and set(kd) == set(kf), "distinct clusters")
                    close(red, np.array([[float(a == b) for b in kf] for a in kd]), 1e-12, "reduction matrix")
                    need([int(m) for lev in mult for m in lev] == [kf.count(a) for a in kd], "multiplicities")
            ctx.case("merging", nm, chk7)
