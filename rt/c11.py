"""C11 linked-cluster weights and resummation"""
import numpy as np, scipy.sparse as sp
from math import comb
from rt.core import *
from exact_diag import ed_nlce as nl


def ref(vals, M, mult, ns):
    n = len(vals); W = np.zeros(vals.shape, dtype=np.result_type(vals, float))
    for i in range(n):
        W[i] = vals[i]
        for j in range(i):
            W[i] = W[i] - M[i, j] * W[j]
    tot = sum(mult[i] * W[i] for i in range(n)) / ns
    return W, tot


def run(ctx):
    r = ctx.rng
    shapes = [(), (1,), (3,), (2, 3), (3, 1), (1, 4), (2, 1, 3), (1, 1), (5, 2, 2)]
    for k in range(ctx.reps(120, 600)):
        n = int(r.integers(1, 9)); tr = shapes[k % len(shapes)]
        vals = r.normal(size=(n,) + tr)
        if k % 5 == 4:
            vals = vals + 1j * r.normal(size=vals.shape)
        if k % 7 == 6:
            vals = r.integers(-5, 6, (n,) + tr)
        unit = 1.
        if k % 6 == 1:
            unit = [1e-13, 1e9, 1e-6][k // 6 % 3]; vals = vals * unit
        if k % 13 == 8:
            vals = r.integers(0, 6, (n,) + tr).astype([np.int16, np.uint8, bool][k // 13 % 3])
        M = np.tril(r.integers(0, 4, (n, n)) * (r.random((n, n)) < .6), -1).astype(float)
        if k % 11 == 3:
            M = np.tril(r.normal(size=(n, n)), -1)
        mult = r.integers(0, 6, n).astype(float) if k % 3 else r.normal(size=n)
        nc = int(r.integers(1, 5)); cuts = sorted(int(z) for z in r.integers(0, n + 1, nc - 1)) if nc > 1 else []
        if k % 2:
            cuts = sorted(set(cuts))
        edges = [0] + cuts + [n]; ns = int(r.integers(1, 7))
        form = ["array", "list", "row", "column", "csr"][k % 5]
        def chk(unit=unit, vals=vals, M=M, mult=mult, edges=edges, ns=ns, form=form, n=n, tr=tr, k=k):
            mv = {"array": mult, "list": mult.tolist(), "row": mult[None, :], "column": mult[:, None], "csr": sp.csr_matrix(mult)}[form]
            Ms = sp.csr_matrix(M) if k % 2 else sp.csc_matrix(M)
            v0 = vals.copy()
            e, o, w = nl.get_nlce_exp_val(vals, Ms, mv, edges, ns)
            need(np.array_equal(v0, vals), "input modified")
            W, tot = ref(vals, M, mult, ns)
            close(w / unit, W / unit, 1e-9, "weights")
            close(np.asarray(e).reshape(np.shape(np.squeeze(tot))) / unit, np.squeeze(tot) / unit, 1e-9, "expansion value")
            need(o.shape == (len(edges) - 1,) + tr, f"shape of the orders {o.shape}")
            for q in range(len(edges) - 1):
                close(o[q] / unit, sum((mult[i] * W[i] for i in range(edges[q], edges[q + 1])), np.zeros(tr)) / (ns * unit), 1e-9, f"order {q}")
            close(np.sum(o, 0) / unit, tot / unit, 1e-9, "orders add up to the total")
        ctx.case("weights", (vals, M.tolist(), mult.tolist(), edges, ns, form), chk)
        # partial ranges (not starting at zero / gaps)
        if n > 2:
            ed = sorted(set(int(z) for z in r.integers(0, n + 1, 3)))
            def chk2(unit=unit, vals=vals, M=M, mult=mult, ed=ed, ns=ns, tr=tr):
                e, o, w = nl.get_nlce_exp_val(vals, sp.csr_matrix(M), mult, ed, ns)
                W, tot = ref(vals, M, mult, ns)
                close(np.asarray(e).reshape(np.shape(np.squeeze(tot))) / unit, np.squeeze(tot) / unit, 1e-9, "expansion value")
                for q in range(len(ed) - 1):
                    close(o[q] / unit, sum((mult[i] * W[i] for i in range(ed[q], ed[q + 1])), np.zeros(tr)) / (ns * unit), 1e-9, f"order {q}")
            ctx.case("partial ranges", (vals, M.tolist(), mult.tolist(), ed, ns), chk2)
    for k in range(ctx.reps(60, 300)):
        n = int(r.integers(1, 9)) if k % 10 else int(r.integers(9, 40)); tr = shapes[k % len(shapes)]
        a = r.normal(size=(n,) + tr) if k % 4 else r.integers(-4, 5, (n,) + tr)
        if k % 9 == 5:
            a = a + 1j * r.normal(size=a.shape)
        y = float([1., .5, 2., .1, 3.7, -.3, 1][k % 7]) if k % 6 else [1, 2, 3][k % 3]
        if k % 8 == 3:
            y = .4 + .9j
        def chk3(a=a, y=y, n=n):
            a0 = a.copy()
            t, o = nl.euler_resum(a, y)
            need(np.array_equal(a, a0), "input modified")
            E = np.array([sum(comb(q, j) * (y + 0.) ** (j + 1) * a[j] for j in range(q + 1)) / (1. + y) ** (q + 1) for q in range(n)])
            close(o, E, 1e-9, "Euler orders"); close(t, E.sum(0), 1e-9, "Euler sum")
        ctx.case("Euler resummation", (a, y), chk3)
    # finite-cluster closure: a parent containing all its subclusters resums to its own value
    for k in range(ctx.reps(8, 30)):
        n = int(r.integers(2, 8)); M = np.tril(r.integers(0, 4, (n, n)), -1).astype(float); vals = r.normal(size=(n, 3))
        def chk4(vals=vals, M=M, n=n):
            mult = M[-1].copy(); mult[-1] = 1
            e, o, w = nl.get_nlce_exp_val(vals, sp.csr_matrix(M), sp.csr_matrix(mult), [0, n - 1, n], 2)
            close(e, vals[-1] / 2, 1e-9, "expansion of a finite parent returns the parent value")
        ctx.case("finite parent", (vals, M.tolist()), chk4)
