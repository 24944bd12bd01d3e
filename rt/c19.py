"""C19 diagonalisation"""
import numpy as np, scipy.sparse as sp
from rt.core import *
from rt import geo
from exact_diag.ed_fermions import fermions
from exact_diag.ed_spins import spinSystem


def matrices(r, ctx):
    for k in range(ctx.reps(60, 300)):
        d = int(r.integers(1, 14)); real = k % 2 == 0
        if k % 5 == 0:       # prescribed degenerate spectrum, any order
            U = rand_unitary(r, d, real); H = (U * r.integers(-2, 3, d)) @ U.conj().T; H = (H + H.conj().T) / 2
        elif k % 5 == 1:
            H = np.diag(r.integers(-3, 4, d).astype(float))
        elif k % 5 == 2:
            H = rand_herm(r, d, real) * 10. ** int(r.integers(-4, 4))
        elif k % 5 == 3:
            H = np.zeros((d, d)) if k % 2 else rand_herm(r, d, real) - 50 * np.eye(d)
        else:
            H = rand_herm(r, d, False)
        yield f"random {k}", H
    d = 320; yield "large", np.diag(np.ones(d - 1), 1) + np.diag(np.ones(d - 1), -1) + np.diag(np.cos(np.arange(d) * 1.7))
    for w in (1e-4, 1e-8):      # nearly degenerate levels split by a weak real or imaginary coupling
        for z in (1., 1j):
            H = np.diag([1., 1., 2., 2.]).astype(complex); H[0, 1] = w * z; H[1, 0] = w * np.conj(z); H[2, 3] = w; H[3, 2] = w
            yield f"weak coupling {w} {z}", H - np.eye(4)
    yield "hubbard", dense(fermions(geo.chain(3), 2., 1., mus=.1).createH())
    yield "twisted ring", dense(fermions(geo.chain(5, True, .9), 0, 1., nspecies=1).createH())
    yield "heisenberg", dense(spinSystem(geo.chain(5, True), jx=1., jy=1., jz=1., hz=.1).createH())


def check(E, V, H, k, orth=True):
    need(np.asarray(E).shape == (k,) and np.isrealobj(E), "eigenvalues are real, one per state"); need(V.shape == (H.shape[0], k), "eigenvector shape")
    s = 1 + np.abs(H).max() * len(H)
    need(np.all(np.diff(E) >= 0), "eigenvalues ascending")
    close(H @ V / s, V * E / s, 1e-8, "eigenvector equation"); close(np.sum(np.abs(V) ** 2, 0), np.ones(k), 1e-8, "normalised")
    if orth:
        close(V.conj().T @ V, np.eye(k), 1e-7, "orthonormal")


def run(ctx):
    r = ctx.rng; M = fermions(geo.chain(2), 0, 1., nspecies=1); S = spinSystem(geo.chain(2))
    for nm, H in matrices(r, ctx):
        def chk(H=H):
            for m in (M, S):
                for f in (sp.csr_matrix, sp.csc_matrix, sp.coo_matrix):
                    h = f(H); E, V = m.diagH(h); check(np.asarray(E), V, H, len(H)); s = 1 + np.abs(H).max() * len(H)
                    close(np.asarray(E) / s, np.linalg.eigvalsh(H) / s, 1e-9, "complete spectrum")
                    close(h, H, 0, "Hamiltonian modified")
        ctx.case("full diagonalisation", (nm, H) if len(H) < 50 else nm, chk)
    for u in (1e-11, 1e-6, 1e7):            # in any unit of energy
        for k in range(4):
            H = rand_herm(r, int(r.integers(2, 9)), k % 2 == 0)
            def chku(H=H, u=u):
                E, V = M.diagH(sp.csr_matrix(H * u)); check(np.asarray(E) / u, V, H, len(H)); close(np.asarray(E) / u, np.linalg.eigvalsh(H), 1e-8, "spectrum")
            ctx.case("units of energy", (H, u), chku)
    def chkw():
        for w in (1e-5, 1e-7, 1e-9):
            for z in (1., 1j):
                H = np.array([[0., w * z], [w * np.conj(z), 0.]]); E, V = M.diagH(sp.csr_matrix(sp.block_diag([H, sp.diags([3., 4.])])))
                close(np.asarray(E)[:2] / w, [-1., 1.], 1e-5, "splitting by a weak coupling")
    ctx.case("weak coupling", "two levels", chkw)
    for k in range(ctx.reps(16, 60)):
        d = int(r.integers(8, 40)); H = rand_herm(r, d, k % 2 == 0)
        if k % 4 == 3:
            H = H - 3 * np.eye(d)
        n = int(r.integers(1, 6))
        if k % 4 == 2:   # eigenvalues far below minus the offset: the largest in magnitude alternate in sign
            d = int(r.integers(10, 24)); n = 5
            U = np.linalg.qr(rand_herm(r, d, True) + .1j * np.diag(r.normal(size=d)))[0]; z = np.cumsum(5 + 10 * r.random(d)) * np.where(r.random(d) < .5, 1., -1.) - 100
            H = (U * z) @ U.conj().T; H = (H + H.conj().T) / 2
        def chk2(H=H, n=n, k=k):
            m = M if k % 2 else S
            E, V = m.diagH(sp.csr_matrix(H), neigs=n, use_sparse=True); check(np.asarray(E), V, H, n)
            w = np.linalg.eigvalsh(H); used = [int(np.argmin(np.abs(w - x))) for x in E]; need(len(set(used)) == n, "distinct eigenpairs"); close(w[used], E, 1e-8, "exact eigenvalues")
        ctx.case("iterative diagonalisation", (H, n), chk2)
    for nm, H in (("hubbard", fermions(geo.chain(3, True), 4., 1.).createH()), ("heisenberg", spinSystem(geo.chain(6, True), jx=1., jy=1., jz=.7, hz=.3).createH()), ("twisted", fermions(geo.chain(6, True, .5), 0, 1., nspecies=1).createH())):
        def chk3(H=H):
            E, V = M.diagH(H, neigs=7, use_sparse=True); check(np.asarray(E), V, dense(H), 7, False)   # ARPACK does not orthogonalise degenerate vectors
        ctx.case("iterative diagonalisation of models", nm, chk3)
