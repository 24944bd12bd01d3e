"""C20 saving and reloading: bounded runtime contracts on real files in a scratch directory"""
import os, tempfile
import numpy as np, scipy.sparse as sp
from rt.core import *
from rt import geo
from exact_diag.ed_geometry import Geometry
from exact_diag.ed_fermions import fermions
from exact_diag.ed_spins import spinSystem


def eq(a, b, depth=0):
    if type(a) is not type(b):
        return False
    if sp.issparse(a):
        return a.shape == b.shape and a.dtype == b.dtype and (a != b).nnz == 0
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and (np.array_equal(a, b) if a.dtype != object else all(eq(x, y, depth + 1) for x, y in zip(a.ravel(), b.ravel())))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(eq(a[k], b[k], depth + 1) for k in a)
    if hasattr(a, "__dict__") and depth < 8:
        return eq(a.__dict__, b.__dict__, depth + 1)
    return a is b or a == b or a != a and b != b


class scratch:
    def __enter__(self):
        self.here, self.d = os.getcwd(), tempfile.TemporaryDirectory()
        os.chdir(self.d.name)
        os.makedirs("sub.dir")
        return self

    def __exit__(self, *a):
        os.chdir(self.here)
        self.d.cleanup()

    def files(self):
        return sorted(os.path.join(p, f) for p, _, fs in os.walk(".") for f in fs)


def system(r, k):
    g = (geo.chain(2), geo.chain(3), Geometry.createSquareGeometry(2, 2, .3, .1, False, False), Geometry.createTriangleGeometry(2, 2))[k % 4]
    ns = g.nsites
    if k % 3 == 2:
        return spinSystem(g, jz=float(r.normal()), hx=r.normal(size=ns), spin=.5 + .5 * (k % 2))
    if k % 3 == 1:
        return fermions(g, float(r.normal()), r.normal(), mus=float(r.normal()), potentials=float(r.normal()), nspecies=2)
    return fermions(g, 0, 1. + float(r.random()), nspecies=1)


def run(ctx):
    r = ctx.rng
    for k in range(ctx.reps(36, 200)):
        o, o2 = system(r, k), system(r, k + 1 + int(r.integers(0, 3)))
        ex = {"extra": r.normal(size=(2, 3)) + 1j, "none": None, "txt": "a\nb", "lst": [1, (2., "x"), {"k": np.arange(3)}], "sparse": sp.csr_matrix(r.normal(size=(3, 3)) * (r.random((3, 3)) < .5)), "empty": np.zeros((0, 2)),
              "flag": bool(k % 2), "nan": float("nan"), "_private": 3, "big": 10 ** 30, "obj": geo.chain(2)}
        for a in list(ex)[:k % (len(ex) + 1)]:
            setattr(o, a, ex[a])
        name = ("a.pkl", "sub.dir/x.y.pkl", "with space.pkl", None)[k % 4]

        def chk(o=o, o2=o2, name=name):
            with scratch() as s:
                before, before2 = copy_(o.__dict__), copy_(o2.__dict__)
                fn = o.save() if name is None else o.save(name)
                need(isinstance(fn, str) and (fn == name or name is None and fn.endswith(".pkl")), "returned file name"); need(s.files() == [os.path.join(".", fn)], "files written")
                q = type(o2).__new__(type(o2)); q.__dict__.update(o2.__dict__); q.stale = 7
                w = q.load(fn)
                need(eq(q.__dict__, before), "loaded attributes differ from the saved ones"); need(eq(w.__dict__ if hasattr(w, "__dict__") else w, before), "returned attributes"); need(eq(o.__dict__, before), "saved object changed")
                need(eq(o2.__dict__, before2), "another object changed")
                close(q.createH(), o.createH(), 1e-12, "Hamiltonian of the reloaded system") if type(q) is type(o) else None
                o2.save(fn); z = type(o).__new__(type(o)); z.load(fn); need(eq(z.__dict__, before2), "file saved a second time")
                need(eq(q.__dict__, before), "reloaded object changed by a later save"); need(s.files() == [os.path.join(".", fn)], "files written")
        ctx.case("pickle files", (k, name, type(o).__name__), chk)
    for k in range(ctx.reps(8, 40)):
        A = {f"m{i}": r.normal(size=tuple(r.integers(1, 4, size=2))) + (1j * r.normal() if i % 2 else 0) for i in range(1 + k % 4)}

        def chkm(A=A):
            with scratch() as s:
                o = fermions.__new__(fermions); o.__dict__.update(A); o.save("f.mat"); q = spinSystem.__new__(spinSystem); q.stale = 1; q.load("f.mat")
                need(set(q.__dict__) == set(A), "attribute names"); need(s.files() == ["./f.mat"], "files written")
                for a in A:
                    close(q.__dict__[a], A[a], 0, "array " + a)
        ctx.case("MATLAB files", A, chkm)

    def chkbad():
        o = fermions(geo.chain(2), 0, 1., nspecies=1)
        with scratch() as s:
            for nm in ("a.txt", "a", "pkl", "a.pkl.bak", "a.h5", ".pkl", "x.pklx", "a.matx", "a.npz", "sub.dir/a", "mat", "a.PKL", "a.Pkl", "a.MAT", "a.pkl ", "a.pickle"):
                b = copy_(o.__dict__)
                expect_raise(lambda: o.save(nm), "unsupported extension " + nm); expect_raise(lambda: o.load(nm), "unsupported extension " + nm)
                need(s.files() == [], "a file was written for " + nm); need(eq(o.__dict__, b), "object changed")
    ctx.case("unsupported extensions", "list", chkbad)


def copy_(d):
    import copy
    return copy.deepcopy(d)
