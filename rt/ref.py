"""independent dense reference constructions (specification side)"""
import numpy as np
from functools import reduce

Z = np.array([[1., 0.], [0., -1.]])


def kron_all(ms):
    return reduce(np.kron, ms, np.eye(1))


def embed(op, mode, nmodes, b, fermion):
    op = op.toarray() if hasattr(op, "toarray") else np.asarray(op)
    tail = Z if fermion else np.eye(b)
    return kron_all([np.eye(b)] * mode + [op] + [tail] * (nmodes - mode - 1))


def mode(site, species, nsites):
    return species * nsites + site


CDAG = np.array([[0., 0.], [1., 0.]])
C = CDAG.T
N = CDAG @ C


def ladder(nmodes):
    """occupation-basis annihilators straight from the Fock-space definition: state index bits, first mode = most
    significant; creation operators of later modes stand further left, so c_k picks up the parity of later modes"""
    dim = 2 ** nmodes
    out = []
    for k in range(nmodes):
        m = np.zeros((dim, dim))
        for s in range(dim):
            bits = [(s >> (nmodes - 1 - q)) & 1 for q in range(nmodes)]
            if bits[k]:
                sign = (-1) ** sum(bits[k + 1:])
                m[s ^ (1 << (nmodes - 1 - k)), s] = sign
        out.append(m)
    return out


def ladder_sparse(L):
    """sparse annihilators"""
    import scipy.sparse as sp
    idx = np.arange(2 ** L)
    out = []
    for k in range(L):
        occ = idx[((idx >> (L - 1 - k)) & 1) == 1]
        later = occ & ((1 << (L - 1 - k)) - 1)
        par = np.array([bin(x).count("1") & 1 for x in later])
        out.append(sp.csr_matrix(((-1.) ** par, (occ ^ (1 << (L - 1 - k)), occ)), shape=(2 ** L, 2 ** L)))
    return out
