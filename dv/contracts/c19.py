"""C19: diagonalisation (ed_base.diagH) over the assumed contracts of the eigensolvers"""
from ..contract import *
from .. import spectral
P = "C19"
B = "ed_base.ed_base"
M = "ed_base.ed_base."


def hermitian(call, v):
    """every Hermitian matrix is g + g^H"""
    h = v.g + v.g.conj().transpose()
    return call.sp.csr_matrix(h)


for dt, kind in (("c", "complex"), ("f", "real")):
    for sparse in (False, True):
        @contract(P, M + "diagH", name=f"{kind} Hermitian matrix, {'iterative' if sparse else 'full'} diagonalisation")
        def _d(c, dt=dt, sparse=sparse):
            n = c.dim("n", 4 if sparse else 1, 8 if sparse else 6)
            c.arr("g", (n, n), dt)
            if sparse:
                m = c.dim("m", 1, 2)
                c.requires(lt(m, n - 1))
            else:
                m = n

            def run(call, v):
                h = hermitian(call, v)
                w, V = call.method(call.obj(B), "diagH", h, *((v.m, True) if sparse else ()))
                hd = h.toarray()
                return w, V, call.np.dot(hd, V) - V * w[None, :], call.np.dot(V.conj().transpose(), V), w[1:] < w[:-1]
            c.calls(run)
            c.ensures("each column is an eigenvector of its eigenvalue", (n, m), lambda i, k: 0, get=lambda r: r[2])
            if sparse:
                c.ensures("eigenvectors are normalised", (m,), lambda k: 1, get=lambda r: np_diag(r[3]))
            else:
                c.ensures("eigenvectors are orthonormal", (n, n), lambda i, k: ite(eq(i, k), 1, 0), get=lambda r: r[3])
            c.ensures("eigenvalues are real", (m,), lambda k: 0, get=lambda r: r[0].imag, dt="real")
            c.ensures("ascending order", (m - 1,), lambda k: FALSE, get=lambda r: r[4])


def np_diag(a):
    return a.diagonal()
