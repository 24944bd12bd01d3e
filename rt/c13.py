"""C13 combining symmetry sectors"""
import numpy as np, scipy.sparse as sp
from rt.core import *
from rt import geo
from exact_diag.ed_fermions import fermions
from exact_diag.ed_spins import spinSystem


def weights(e, T):
    if T == 0:
        return (np.abs(e - e.min()) < 1e-12).astype(float)
    return np.exp(-(e - e.min()) / T)


def run(ctx):
    r = ctx.rng; M = fermions(geo.chain(2), 0, 1., nspecies=1); S = spinSystem(geo.chain(2))
    for k in range(ctx.reps(150, 700)):
        nsec = int(r.integers(1, 6)); sizes = [int(z) for z in r.integers(1, 6, nsec)]
        pool = r.integers(0, 4, sum(sizes)).astype(float) if k % 2 else r.uniform(0, 4, sum(sizes))
        if k % 4 == 1:
            pool = np.abs(pool - 1)
        if k % 3 == 1:    # degenerate only up to rounding error
            pool = pool + 8e-16 * r.integers(0, 4, len(pool))
        sh = [0., -3., 7.5, 1.][k % 4]
        cut = np.cumsum([0] + sizes); secs = [np.sort(pool[cut[i]:cut[i + 1]]) + sh for i in range(nsec)]
        full = np.concatenate(secs); gmin = full.min()
        tr = [(), (1,), (3,), (2, 2), (2, 1, 3)][k % 5]
        X = [r.normal(size=(s,) + tr) for s in sizes]
        Ts = [[0.5, 2.], [0., 1.], [3., 0., .1], [1., 1., 0.]][k % 4]; m = M if k % 2 else S
        def chk(secs=secs, X=X, full=full, gmin=gmin, Ts=Ts, m=m, tr=tr, nsec=nsec):
            def zs(T):
                return np.array([np.sum(weights_rel(s, gmin, T)) for s in secs])
            def weights_rel(s, gm, T):
                return (np.abs(s - gm) < 1e-12).astype(float) if T == 0 else np.exp(-(s - gm) / T)
            def secavg(T):
                out = []
                for s, x in zip(secs, X):
                    w = weights_rel(s, s.min(), T); out.append(np.tensordot(w, x, (0, 0)) / w.sum())
                return np.array(out)
            ref = {}
            for T in Ts:
                w = np.concatenate([weights_rel(s, gmin, T) for s in secs]); ref[T] = np.tensordot(w, np.concatenate(X), (0, 0)) / w.sum()
                z = m.get_partition_fn_sectors(secs, T); close(z, zs(T), 1e-9, f"sector partition functions T={T}")
                close(np.sum(z), w.sum(), 1e-9, "sum of sector partition functions")
                _, zf = m.get_thermal_weights(np.sort(full), T, use_energies_offset=True); close(np.sum(z), zf, 1e-9, "sectors add up to the full partition function")
                close(m.thermal_avg_combine_sectors(secavg(T), secs, T), ref[T], 1e-9, f"combined average T={T}")
                close(m.thermal_avg_combine_sectors(secavg(T)[:, None], secs, [T]), ref[T][None], 1e-9, "one-element temperature array")
                p = r.permutation(nsec)
                close(m.thermal_avg_combine_sectors(secavg(T)[p], [secs[i] for i in p], T), ref[T], 1e-9, "order of the sectors")
                close(m.thermal_avg_combine_sectors(secavg(T), [s + 2.75 for s in secs], T), ref[T], 1e-9, "energy shift")
                close(m.get_partition_fn_sectors([s - 4.5 for s in secs], T), zs(T), 1e-9, "energy shift of the sector partition functions")
            zz = m.get_partition_fn_sectors(secs, Ts); close(np.array(zz), np.array([zs(T) for T in Ts]), 1e-9, "many temperatures")
            A = np.stack([secavg(T) for T in Ts], axis=1)
            out = m.thermal_avg_combine_sectors(A, secs, np.array(Ts)); R = np.array([ref[T] for T in Ts])
            if tr == ():
                R = R[:, None]
            close(np.reshape(out, R.shape) if tr == () else out, R, 1e-9, "many temperatures")
            p = r.permutation(len(Ts)); close(np.reshape(m.thermal_avg_combine_sectors(A[:, p], secs, np.array(Ts)[p]), R.shape), R[p], 1e-9, "order of the temperatures")
            if 0. in Ts:    # sectors without ground states may hold no number at all at T = 0
                B = secavg(0.)
                if B.dtype.kind == "f":
                    for i, s in enumerate(secs):
                        if s.min() > gmin + 1e-9:
                            B[i] = np.nan
                    close(m.thermal_avg_combine_sectors(B, secs, 0.), ref[0.], 1e-9, "excited sectors do not matter at T = 0")
        ctx.case("sectors", ([s.tolist() for s in secs], tr, Ts), chk)
    # end to end: split a model by quantum numbers
    def models():
        yield "fermions by number", fermions(geo.chain(3, True, .4), 0, 1., nspecies=1, mus=.2), lambda m: m.get_sum_op(m.n_op, 0, format="boson")
        yield "hubbard by spin-up number", fermions(geo.chain(2), 2., 1.), lambda m: m.get_sum_op(m.n_op, 0, format="boson")
        yield "heisenberg by sz", spinSystem(geo.chain(4, True), jx=1., jy=1., jz=.5), lambda m: m.get_sum_op(m.sz)
        yield "ferromagnet by sz", spinSystem(geo.chain(4, True), jx=-1., jy=-1., jz=-1.), lambda m: m.get_sum_op(m.sz)
    for nm, m, qf in models():
        def chk2(m=m, qf=qf):
            q = qf(m).tocsr(); q.data = np.round(q.data.real, 9); projs, _ = m.get_subspace_projs(sp.csr_matrix(q))
            H = m.createH().tocsr(); E, V = m.diagH(H); O = dense(H @ H); Ts = [.3, 1., 5.]
            full = m.get_exp_vals_thermal(V, sp.csr_matrix(O), E, Ts)
            ev, xs = [], []
            for P in projs:
                e, v = m.diagH(m.createH(projector=P).tocsr()); ev.append(e); xs.append(np.ravel(m.get_exp_vals_thermal(v, sp.csr_matrix(P @ O @ P.conj().T), e, Ts)))
            close(np.ravel(m.thermal_avg_combine_sectors(np.array(xs), ev, np.array(Ts))), full, 1e-8, "end to end")
            close(np.sum(m.get_partition_fn_sectors(ev, 1.3)), np.sum(np.exp(-(E - E[0]) / 1.3)), 1e-8, "partition function")
        ctx.case("model split into sectors", nm, chk2)
