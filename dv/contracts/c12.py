"""C12: thermal weights and averages (ed_base)"""
from ..contract import *
from ..expr import exp, conj
from .. import spectral
P = "C12"
B = "ed_base.ed_base"
M = "ed_base.ed_base."


def spectrum(r, s, sh):
    return np.sort(r.integers(-3, 4, sh) * .75 + (r.uniform(-1, 1) if r.random() < .5 else 0))


def energies(c, n, name="en"):
    """sorted energies"""
    return c.arr(name, (n,), "f", ("sorted",), sample=spectrum)


for offset in (False, True):
    for form in ("number", "array"):
        @contract(P, M + "get_thermal_weights", name=f"weights T>0 {form}{' offset' if offset else ''}")
        def _w(c, offset=offset, form=form):
            n = c.dim("n", 1, 5)
            e = energies(c, n)
            if form == "number":
                t = (lambda s: (lambda i: s))(c.pos("t"))
            else:
                m = c.dim("m", 2, 4)
                t = c.arr("t", (m,), "f", ("pos", "nz"), sample=lambda r, s, sh: r.uniform(.2, 3, sh))
            c.calls(lambda call, v: call(M + "get_thermal_weights", call.obj(B), v.en, v.t, offset))
            w = lambda i, j: exp(-(e(i) - (e(0) if offset else 0)) / t(j))
            if form == "number":
                c.ensures("Boltzmann weights", (n,), lambda i: w(i, 0), get=lambda r: r[0])
                c.ensures("partition function", (), lambda: ssum(0, n, lambda k: w(k, 0)), get=lambda r: r[1])
            else:
                c.ensures("Boltzmann weights", (n, m), lambda i, j: w(i, j), get=lambda r: r[0])
                c.ensures("partition function", (m,), lambda j: ssum(0, n, lambda k: w(k, j)), get=lambda r: r[1])


@contract(P, M + "get_thermal_weights", name="weights T=0")
def _w0(c):
    n = c.dim("n", 1, 5)
    e = energies(c, n)
    c.calls(lambda call, v: call(M + "get_thermal_weights", call.obj(B), v.en, 0., True))
    c.ensures("one for every ground state, zero otherwise", (n,), lambda i: ite(eq(e(i), e(0)), 1, 0), get=lambda r: r[0])
    c.ensures("partition function", (), lambda: ssum(0, n, lambda k: ite(eq(e(k), e(0)), 1, 0)), get=lambda r: r[1])


@contract(P, M + "get_thermal_weights", name="weights, temperatures including zero")
def _wm(c):
    n, m = c.dim("n", 1, 5), c.dim("m", 2, 4)
    e = energies(c, n)
    t = c.arr("t", (m,), "f", ("nonneg",), sample=lambda r, s, sh: r.integers(0, 3, sh) * .7)
    c.calls(lambda call, v: call(M + "get_thermal_weights", call.obj(B), v.en, v.t, True))
    w = lambda i, j: ite(eq(t(j), 0), ite(eq(e(i), e(0)), 1, 0), exp(-(e(i) - e(0)) / t(j)))
    c.ensures("weights", (n, m), w, get=lambda r: r[0])
    c.ensures("partition function", (m,), lambda j: ssum(0, n, lambda k: w(k, j)), get=lambda r: r[1])


def states(c, n, d, dt="c"):
    return c.arr("v", (d, n), dt)


def expval(O, v, d, k):
    """real part of <k|O|k>"""
    return X.re(ssum(0, d, lambda i: conj(v(i, k)) * ssum(0, d, lambda j: O(i, j) * v(j, k))))


for form in ("number", "array", "zero", "mixed"):
    @contract(P, M + "get_exp_vals_thermal", M + "get_exp_vals", M + "get_thermal_weights", name=f"thermal average, temperature {form}")
    def _ea(c, form=form):
        n, d = c.dim("n", 1, 4), c.dim("d", 1, 4)
        e, v_, O = energies(c, n), states(c, n, d), c.arr("op", (d, d), "c", sparse="csr")
        m = c.dim("m", 2, 4)
        if form == "number":
            t = (lambda s: (lambda i: s))(c.pos("t"))
        elif form == "array":
            t = c.arr("t", (m,), "f", ("pos", "nz"), sample=lambda r, s, sh: r.uniform(.2, 3, sh))
        elif form == "mixed":
            t = c.arr("t", (m,), "f", ("nonneg",), sample=lambda r, s, sh: r.integers(0, 3, sh) * .7)
        c.calls(lambda call, v: call(M + "get_exp_vals_thermal", call.obj(B), v.v, v.op, v.en, 0. if form == "zero" else v.t))
        boltz = lambda k, j: exp(-(e(k) - e(0)) / t(j))
        ground = lambda k, j=None: ite(eq(e(k), e(0)), 1, 0)
        wavg = lambda w, j: ssum(0, n, lambda k: w(k, j) * expval(O, v_, d, k)) / ssum(0, n, lambda k: w(k, j))
        avg = {"zero": lambda j: wavg(ground, j), "mixed": lambda j: ite(eq(t(j), 0), wavg(ground, j), wavg(boltz, j))}.get(form, lambda j: wavg(boltz, j))
        c.ensures("weighted average of the eigenstate expectation values", (m,) if form in ("array", "mixed") else (), (lambda j: avg(j)) if form in ("array", "mixed") else (lambda: avg(0)))


@contract(P, M + "get_partition_fn_hamiltonian", name="partition function from the Hamiltonian, beta = 0")
def _z0(c):
    d = c.dim("d", 1, 5)
    c.arr("h", (d, d), "c", sparse="csr")
    c.calls(lambda call, v: call(M + "get_partition_fn_hamiltonian", call.obj(B), v.h, 0.))
    c.ensures("dimension of the space", (), lambda: d)


def unitary(r, s, sh):
    return np.linalg.qr(r.normal(size=sh) + 1j * r.normal(size=sh))[0]


@contract(P, M + "get_partition_fn_hamiltonian", name="partition function from the Hamiltonian")
def _zh(c):
    """every Hermitian matrix is v diag(e) v^H with orthonormal columns v"""
    d = c.dim("d", 1, 5)
    c.arr("v", (d, d), "c", sample=unitary)
    e, beta = c.arr("e", (d,)), c.real("beta", -1., 2.)
    c.setup.append(lambda I: spectral.orthonormal("v", d))
    c.calls(lambda call, v: call(M + "get_partition_fn_hamiltonian", call.obj(B), call.sp.csr_matrix(call.np.dot(v.v * v.e[None, :], v.v.conj().transpose())), v.beta))
    c.ensures("trace of exp(-beta H)", (), lambda: ite(eq(beta, 0), d, ssum(0, d, lambda k: exp(-beta * e(k)))))
