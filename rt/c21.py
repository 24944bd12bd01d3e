"""C21 chemical potential: bounded runtime contracts on the real code"""
import numpy as np
from rt.core import *
from exact_diag.fermi_gas import fg_mu, fg_density


def occ(b, mu, n, dim):
    k = 2 * np.pi * np.arange(n) / n
    e = -2 * np.cos(k) if dim == "1d" else (-2 * (np.cos(k)[:, None] + np.cos(k)[None, :])).ravel()
    x = b * (e - mu)
    return np.mean(np.where(x > 0, np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))), 1 / (1 + np.exp(-np.abs(x)))))


def run(ctx):
    r = ctx.rng
    one = lambda x: float(np.ravel(x)[0])
    for k in range(ctx.reps(260, 2500)):
        dim = ("1d", "2d")[k % 2]; n = int(r.integers(2, 13)) if k % 20 else (40 if dim == "1d" else 24)
        b = float(10 ** r.uniform(-2, 2)) if k % 5 else (1., .1, 10., 50., 3.)[(k // 5) % 5]
        d = (float(r.uniform(.01, .99)), float(10 ** r.uniform(-5, -1)), 1 - float(10 ** r.uniform(-5, -1)), .5, .25 + .5 * ((k // 5) % 2), float(.5 + r.uniform(-.01, .01)))[k % 6]

        def chk(dim=dim, n=n, b=b, d=d, k=k):
            mu = fg_mu(b, d, n, dim)
            need(np.size(mu) == 1, "one number"); m = one(mu)
            need(np.isfinite(m), "finite"); close(occ(b, m, n, dim), d, 1e-7, "density of the chemical potential"); close(one(fg_density(b, m, n, dim)), d, 1e-7, "density back")
            close(one(fg_mu([b], d, n, dim)), m, 1e-9, "one-element array"); close(one(fg_mu(b, np.array([d]), n, dim)), m, 1e-9, "one-element array")
        ctx.case("single values", (dim, n, b, d), chk)
    for k in range(ctx.reps(24, 200)):
        sh = ((3,), (2, 2), (1, 3), (4,), (2, 1, 2))[k % 5]; B = r.uniform(.2, 6, sh); D = r.uniform(.05, .95, sh); n = int(r.integers(2, 9)); dim = ("1d", "2d")[k % 2]

        def chka(B=B, D=D, n=n, dim=dim):
            b, d = float(B.ravel()[0]), float(D.ravel()[0])
            B0, D0 = B.copy(), D.copy()
            for x, y in ((B, D), (B, d), (b, D), (B, np.array([d])), (np.array([b]), D)):
                m = fg_mu(x, y, n, dim); need(np.shape(m) == B.shape, "shape")
                X, Y = np.broadcast_arrays(np.asarray(x, float).reshape(B.shape) if np.size(x) > 1 else np.full(B.shape, one(x)), np.asarray(y, float).reshape(B.shape) if np.size(y) > 1 else np.full(B.shape, one(y)))
                for i in np.ndindex(B.shape):
                    close(occ(X[i], m[i], n, dim), Y[i], 1e-7, "entry of an array")
            need(np.array_equal(B, B0) and np.array_equal(D, D0), "input modified")
        ctx.case("arrays", (B, D, n, dim), chka)

    def chkdef():
        m = fg_mu(2., .3); close(occ(2., one(m), 100, "2d"), .3, 1e-7, "default lattice")
        expect_raise(lambda: fg_mu([1., 2.], [.1, .2, .3]), "sizes that do not match")
    ctx.case("defaults", "list", chkdef)
