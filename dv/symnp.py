"""numpy / scipy.sparse as seen by interpreted code: concrete arguments go to the real library, symbolic ones to sym.py"""
import itertools, math
import numpy as np
import scipy.sparse as sps
from . import expr as X
from . import sym as S
from .expr import E, Unsupported, TRUE, FALSE, cand, cor, cnot, eq, le, lt, ite, Cond, Expr
from .sym import Arr, Ax, Raised, toarr, plain, size, toaxis, mkscalar, numv, tocond, SymSeq, SymRange, issym, unary, binop, join, dtname, castf, memo, getx, unify

TABLE = {}


def reg(name):
    def d(f):
        TABLE[name] = f
        return f
    return d


def opargs(args, kw):
    return any(S.foreign(a) for a in args) or any(S.foreign(a) for a in kw.values())


def need(args, kw):
    return issym(list(args)) or issym(list(kw.values())) or opargs(args, kw)


ALWAYS = set()


class Proxy:
    """module proxy"""
    def __init__(self, real, prefix, consts=None, deny=()):
        self.__dict__["_real"] = real
        self.__dict__["_prefix"] = prefix
        self.__dict__["_consts"] = consts or {}

    def __getattr__(self, name):
        if name in self._consts:
            return self._consts[name]
        full = self._prefix + name
        try:
            real = getattr(self._real, name)
        except AttributeError:
            raise Raised("AttributeError", full)
        if type(real).__name__ == "module":
            return Proxy(real, full + ".")
        impl = TABLE.get(full)
        if isinstance(real, type) and impl is None:
            return real
        if not callable(real):
            return real

        def call(*args, **kw):
            if full in ALWAYS or need(args, kw):
                if impl is None:
                    raise Unsupported(f"{full} on symbolic values")
                return impl(*args, **kw)
            try:
                return real(*args, **kw)
            except Unsupported:
                raise
            except Exception as e:
                raise Raised(type(e).__name__, str(e))
        call.full = full
        call.real = real
        call.methods = full
        if isinstance(real, type):
            return ClassProxy(real, full, call)
        return call


class ClassProxy:
    """a class usable both as constructor and as namespace (sp.csr_matrix.sum(...))"""
    def __init__(self, real, full, call):
        self.real, self.full, self._call = real, full, call

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __getattr__(self, name):
        real = getattr(self.real, name)

        def call(obj, *a, **k):
            if issym(obj) or issym(list(a)):
                return getattr(toarr(obj), name)(*a, **k)
            return real(obj, *a, **k)
        call.symbolic_ok = True
        return call


# ---------------------------------------------------------------- creation
@reg("np.asarray")
def asarray(a, dtype=None, **k):
    if S.foreign(a):
        return a
    if isinstance(a, (list, tuple)) and any(x is None for x in a) and all(x is None or S.toarr(x).ndim == 0 for x in a):
        return ObjArr(a)
    if isinstance(a, Arr) and not a.py and not a.sparse:
        if dtype is None or dtname(dtype) == a.dt:
            return a
        return a.astype(dtype)
    r = toarr(a)
    if r.sparse:
        raise Unsupported("asarray of a sparse matrix")
    f = r.snap()
    if dtype is not None and dtname(dtype) != r.dt:
        r = r.astype(dtype)
        f = r.snap()
    return Arr(r.axes, f, r.dt)


class ObjArr(list):
    """one-dimensional object array (a list with None entries)"""
    ndim = 1
    py = None

    @property
    def size(self):
        return len(self)

    @property
    def shape(self):
        return (len(self),)


@reg("np.array")
def array(a, dtype=None, copy=True, **k):
    r = asarray(a, dtype)
    return r.copy() if isinstance(r, Arr) else r


TABLE["np.asanyarray"] = asarray


def shape_of(shape):
    if isinstance(shape, Arr) and shape.ndim == 1:
        raise Unsupported("shape array")
    if isinstance(shape, (tuple, list)):
        return [toaxis(s) for s in shape]
    return [toaxis(shape)]


def const_arr(shape, v, dtype):
    d = dtname(dtype)
    x = v if isinstance(v, Cond) else E(v)
    if d == "b":
        x = TRUE if v else FALSE
    return Arr(shape_of(shape), lambda ix: x, d)


@reg("np.zeros")
def zeros(shape, dtype=float, **k):
    return const_arr(shape, 0, dtype)


@reg("np.ones")
def ones(shape, dtype=float, **k):
    return const_arr(shape, 1, dtype)


@reg("np.empty")
def empty(shape, dtype=float, **k):
    s = X.fn("uninitialised", (next(X._ids),))
    return Arr(shape_of(shape), lambda ix: s, dtname(dtype))


@reg("np.full")
def full(shape, v, dtype=None, **k):
    v = toarr(v)
    x = v.val()
    d = dtname(dtype) if dtype is not None else v.dt
    return Arr(shape_of(shape), lambda ix: x, d)


@reg("np.zeros_like")
def zeros_like(a, dtype=None, **k):
    a = toarr(a)
    return Arr(a.axes, lambda ix: E(0), dtname(dtype) if dtype is not None else a.dt)


@reg("np.ones_like")
def ones_like(a, dtype=None, **k):
    a = toarr(a)
    return Arr(a.axes, lambda ix: E(1), dtname(dtype) if dtype is not None else a.dt)


@reg("np.eye")
def eye(n, m=None, dtype=float, **k):
    if m is not None and not E(m).same(E(n)):
        raise Unsupported("rectangular eye")
    ax = toaxis(n)
    return Arr([ax, ax], lambda ix: X.indicator(eq(S.lin(ax, ix[0]), S.lin(ax, ix[1]))), dtname(dtype))


TABLE["np.identity"] = eye


@reg("sp.eye")
def speye(n, m=None, *a, dtype=float, format=None, **k):
    r = eye(n, m)
    r.sparse = format or "dia"
    return r


TABLE["sp.identity"] = speye
TABLE["sp.eye_array"] = speye


@reg("np.arange")
def arange(*args, dtype=None, **k):
    lo, hi, st = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], 1) if len(args) == 2 else args
    a = [toarr(x) for x in (lo, hi, st)]
    dt = join(*[x.dt for x in a]) if dtype is None else dtname(dtype)
    lo, hi, st = [E(x) for x in a]
    if lo.intlike() and hi.intlike() and st.isconst(1):
        n = hi - lo
        if not X.implied(le(0, n)):
            if X.implied(le(n, 0)):
                n = E(0)
            else:
                n = ite(le(0, n), n, 0)
        ax = plain(n)
        if len(args) == 1 and isinstance(args[0], Arr) and getattr(args[0], "ax", None) is not None and args[0].ax.kind == "plain":
            ax = args[0].ax
    else:
        n = -X.floor(-((hi - lo) * X.inv(st)))
        if not X.implied(le(0, n)):
            n = ite(le(0, n), n, 0)
        ax = plain(n)
    return Arr([ax], lambda ix: lo + st * ix[0], dt)


@reg("np.linspace")
def linspace(a, b, num=50, endpoint=True, **k):
    a, b, n = E(a), E(b), E(num)
    den = n - 1 if endpoint is True else n
    return Arr([toaxis(num)], lambda ix: a + (b - a) * X.inv(den) * ix[0], "f")


@reg("np.meshgrid")
def meshgrid(*arrs, indexing="xy", **k):
    arrs = [toarr(a) for a in arrs]
    arrs = [a if a.ndim == 1 else a.flatten() if a.ndim else Arr([plain(1)], (lambda v: lambda ix: v)(a.val()), a.dt) for a in arrs]
    axes = [a.axes[0] for a in arrs]
    order = list(range(len(arrs)))
    if indexing == "xy" and len(arrs) >= 2:
        order[0], order[1] = 1, 0
    out = []
    for j, a in enumerate(arrs):
        f = a.snap()
        p = order.index(j)
        out.append(Arr([axes[o] for o in order], (lambda f, p: lambda ix: f((ix[p],)))(f, p), a.dt))
    return out


@reg("np.repeat")
def repeat(a, n, axis=None):
    a = toarr(a)
    if axis is None:
        a = a.flatten() if a.ndim else Arr([plain(1)], (lambda v: lambda ix: v)(a.val()), a.dt)
        axis = 0
    axis = int(axis) % a.ndim
    f = a.snap()
    if S.isone(a.axes[axis]):
        axes = list(a.axes)
        axes[axis] = toaxis(n)
        return Arr(axes, lambda ix: f(ix[:axis] + (E(0),) + ix[axis + 1:]), a.dt)
    nn = toarr(n)
    if nn.ndim:
        raise Unsupported("repeat with array counts")
    if E(n).isconst(1):
        return a.copy()
    axes = list(a.axes)
    axes[axis] = Ax("prod", subs=(a.axes[axis], toaxis(n)))
    return Arr(axes, lambda ix: f(ix[:axis] + (ix[axis][0],) + ix[axis + 1:]), a.dt)


@reg("np.tile")
def tile(a, reps):
    a = toarr(a)
    reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    n = max(a.ndim, len(reps))
    reps = [1] * (n - len(reps)) + reps
    src = [plain(1)] * (n - a.ndim) + list(a.axes)
    axes, kinds = [], []
    for ax, r in zip(src, reps):
        if E(r).isconst(1):
            axes.append(ax); kinds.append("id")
        elif S.isone(ax):
            axes.append(toaxis(r)); kinds.append("zero")
        else:
            axes.append(Ax("prod", subs=(toaxis(r), ax))); kinds.append("second")
    f = a.snap()
    nd = a.ndim

    def g(ix):
        return f(tuple(i if k == "id" else E(0) if k == "zero" else i[1] for i, k in zip(ix, kinds))[n - nd:])
    return Arr(axes, g, a.dt)


@reg("np.concatenate")
def concatenate(arrs, axis=0, **k):
    if isinstance(arrs, SymSeq):
        if axis != 0:
            raise Unsupported("concatenate a symbolic list along another axis")
        el = arrs.elem
        v = X.fresh_int()
        e0 = toarr(el(E(v)))
        ax = Ax("sig", n=arrs.n, fn=lambda i: toarr(el(i)).axes[0])
        return Arr((ax,) + e0.axes[1:], lambda ix: toarr(el(ix[0][0])).snap()((ix[0][1],) + ix[1:]), e0.dt)
    arrs = [toarr(a) for a in arrs]
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise Raised("ValueError", "all the input array dimensions must match")
    if nd == 0:
        raise Raised("ValueError", "zero-dimensional arrays cannot be concatenated")
    axis = int(axis) % nd
    if len(arrs) == 1:
        return arrs[0].copy()
    dt = join(*[a.dt for a in arrs])
    axes = list(arrs[0].axes)
    for a in arrs[1:]:
        for j in range(nd):
            if j != axis:
                axes[j] = unify(axes[j], a.axes[j])
    fs = [a.snap() for a in arrs]
    if all(a.axes[axis].kind == "plain" and a.axes[axis].n.const() is not None for a in arrs):
        ns = [int(a.axes[axis].n.const()[0]) for a in arrs]
        offs = [sum(ns[:j]) for j in range(len(ns) + 1)]
        axes[axis] = plain(offs[-1])

        def g(ix):
            i = E(ix[axis])
            c = i.const()
            if c is not None:
                j = next(j for j in range(len(ns)) if c[0] < offs[j + 1])
                return fs[j](ix[:axis] + (i - offs[j],) + ix[axis + 1:])
            parts = [(lt(i, offs[j + 1]) if j < len(ns) - 1 else TRUE, fs[j](ix[:axis] + (i - offs[j],) + ix[axis + 1:])) for j in range(len(ns)) if ns[j]]
            return S.nested_ite(parts)
        return Arr(axes, g, dt)
    axes[axis] = Ax("cat", subs=[a.axes[axis] for a in arrs])

    def h(ix):
        j, i = ix[axis]
        return fs[j](ix[:axis] + (i,) + ix[axis + 1:])
    return Arr(axes, h, dt)


@reg("np.stack")
def stack(arrs, axis=0):
    r = toarr(list(arrs))
    if axis == 0:
        return r
    axis = axis % r.ndim
    f = r.snap()
    axes = list(r.axes[1:])
    axes.insert(axis, r.axes[0])
    return Arr(axes, lambda ix: f((ix[axis],) + ix[:axis] + ix[axis + 1:]), r.dt)


@reg("np.column_stack")
def column_stack(arrs):
    return stack(arrs, 1)


@reg("np.vstack")
def vstack(arrs):
    arrs = [toarr(a) for a in arrs]
    return concatenate([a if a.ndim > 1 else a[None, :] for a in arrs], 0)


@reg("np.hstack")
def hstack(arrs):
    arrs = [toarr(a) for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def _spstack(f):
    def g(blocks, format=None, dtype=None):
        r = f([toarr(b) for b in blocks])
        r.sparse = format or "coo"
        return r
    return g


TABLE["sp.hstack"] = _spstack(lambda a: concatenate(a, 1))
TABLE["sp.vstack"] = _spstack(lambda a: concatenate(a, 0))


@reg("np.expand_dims")
def expand_dims(a, axis):
    a = toarr(a)
    n = a.ndim + 1
    axis = axis % n
    return a[tuple(None if i == axis else slice(None) for i in range(n))]


@reg("np.squeeze")
def squeeze(a, axis=None):
    if toarr(a).sparse:
        S.NOTES.add("np.squeeze of a sparse matrix (a 0-d object array holding it) is identified with the matrix")
        return toarr(a)
    return toarr(a).squeeze(axis)


@reg("np.transpose")
def transpose(a, axes=None):
    return toarr(a).transpose(*( [axes] if axes is not None else []))


@reg("np.moveaxis")
def moveaxis(a, src, dst):
    a = toarr(a)
    order = [i for i in range(a.ndim) if i != src % a.ndim]
    order.insert(dst % a.ndim, src % a.ndim)
    return a.transpose(order)


@reg("np.reshape")
def reshape(a, shape):
    return toarr(a).reshape(shape)


@reg("np.ravel")
def ravel(a):
    return toarr(a).flatten()


@reg("np.broadcast_to")
def broadcast_to(a, shape):
    a = toarr(a)
    z = const_arr(shape, 0, float)
    r = binop(a, z, lambda x, y: x, a.dt)
    return r


@reg("np.atleast_1d")
def atleast_1d(a):
    a = toarr(a)
    return a if a.ndim else asarray(a)[None]


@reg("np.copy")
def copy(a):
    return toarr(a).copy()


@reg("np.diag")
def diag(a, k=0):
    a = toarr(a)
    f = a.snap()
    k = E(k).const()
    if k is None or k[1] != 0 or k[0].denominator != 1:
        raise Unsupported("diag offset")
    k = int(k[0])
    if k and a.ndim == 1 and a.axes[0].kind == "plain":
        ax = plain(size(a.axes[0]) + abs(k))

        def g(ix):
            c = eq(E(ix[1]) - E(ix[0]), k)
            v = numv(f((ix[0] if k > 0 else ix[1],))) if c.const is not False else E(0)
            return X.with_cond(v, [c]) if c.const is None else v
        return Arr([ax, ax], g, a.dt)
    if k:
        raise Unsupported("diag offset")
    if a.ndim == 1:
        ax = a.axes[0]
        return Arr([ax, ax], lambda ix: X.with_cond(numv(f((ix[0],))), [eq(S.lin(ax, ix[0]), S.lin(ax, ix[1]))]) if eq(S.lin(ax, ix[0]), S.lin(ax, ix[1])).const is None else (numv(f((ix[0],))) if eq(S.lin(ax, ix[0]), S.lin(ax, ix[1])).const else E(0)), a.dt)
    return a.diagonal()


@reg("np.trace")
def trace(a):
    return toarr(a).trace()


# ---------------------------------------------------------------- elementwise
def _u(name, op, dt=None):
    TABLE["np." + name] = lambda a, **k: wrap0(unary(a, op, dt))


def wrap0(r):
    r.py = None
    return r


_u("exp", lambda v: X.exp(v))
_u("log", lambda v: X.ln(v))
_u("cos", lambda v: X.cos(v))
_u("sin", lambda v: X.sin(v))
_u("sqrt", lambda v: X.sqrt(v))
_u("square", lambda v: v * v)
_u("cosh", lambda v: (X.exp(v) + X.exp(-v)) * X.Fr(1, 2))
_u("sinh", lambda v: (X.exp(v) - X.exp(-v)) * X.Fr(1, 2))
_u("floor", lambda v: X.floor(v))
_u("ceil", lambda v: -X.floor(-v))
_u("negative", lambda v: -v)
_u("reciprocal", lambda v: X.inv(v))
_u("expm1", lambda v: X.exp(v) - 1)
_u("tanh", lambda v: (X.exp(v + v) - 1) * X.inv(X.exp(v + v) + 1))


_u("arctan", lambda v: X.arg2(v, 1), "f")
_u("angle", lambda v: X.arg2(X.im(v), X.re(v)), "f")


@reg("np.arctan2")
def arctan2(y, x):
    return wrap0(S.arith(y, x, X.arg2, "f"))


@reg("np.real")
def real(a):
    return toarr(a).real


@reg("np.imag")
def imag(a):
    return toarr(a).imag


@reg("np.conj")
def conj(a):
    return toarr(a).conj()


TABLE["np.conjugate"] = conj


@reg("np.abs")
def absf(a):
    if S.foreign(a):
        return abs(a)
    r = abs(toarr(a))
    r.py = None
    return r


TABLE["np.absolute"] = absf


@reg("np.sign")
def sign(a):
    return unary(a, lambda v: ite(lt(0, v), 1, 0) - ite(lt(v, 0), 1, 0), "f")


@reg("np.round")
def nround(a, decimals=0):
    a = toarr(a)
    if isinstance(decimals, int) and decimals >= 9:
        S.NOTES.add("rounding to at least 9 digits is treated as exact")
        return a.copy()
    if decimals == 0:
        def f(v):
            if v.intlike():
                return v
            # nearest integer, ties to the even one
            k = X.floor(v + X.Fr(1, 2))
            return k - ite(X.eq(v + X.Fr(1, 2), k), k - 2 * X.floor(k * X.Fr(1, 2)), 0)
        return unary(a, lambda v: X.piecewise(v, f) if X.has_cond(v) else f(v), a.dt)
    raise Unsupported("rounding")


TABLE["np.around"] = nround
TABLE["np.round_"] = nround


def _b(name, op, mindt=None):
    def f(a, b, **k):
        r = S.arith(a, b, op, mindt)
        if r is NotImplemented:
            raise Unsupported("np." + name + " on an operator")
        a, b = toarr(a), toarr(b)
        if a.sparse or b.sparse:
            raise Unsupported("np." + name + " on a sparse matrix")
        return wrap0(r)
    TABLE["np." + name] = f


_b("multiply", lambda a, b: a * b)
_b("divide", S.divide, "f")
_b("true_divide", S.divide, "f")
_b("add", lambda a, b: a + b)
_b("subtract", lambda a, b: a - b)
_b("power", S.powv)
_b("mod", lambda a, b: a - b * X.floor(S.divide(a, b)))
_b("remainder", lambda a, b: a - b * X.floor(S.divide(a, b)))
_b("floor_divide", lambda a, b: X.floor(S.divide(a, b)))
_b("maximum", lambda a, b: ite(le(a, b), b, a))
_b("minimum", lambda a, b: ite(le(a, b), a, b))
_b("heaviside", lambda x, h: ite(lt(0, x), 1, ite(eq(x, 0), h, 0)), "f")
_b("outer", None)


@reg("np.outer")
def outer(a, b):
    a, b = toarr(a).flatten(), toarr(b).flatten()
    return a[:, None] * b[None, :]


@reg("np.logical_and")
def logical_and(a, b):
    return S.logical(a, b, cand)


@reg("np.logical_or")
def logical_or(a, b):
    return S.logical(a, b, cor)


@reg("np.logical_not")
def logical_not(a):
    return S.unary_c(a, lambda v: cnot(tocond(v)))


for _n, _o in (("equal", "eq"), ("not_equal", "ne"), ("less", "lt"), ("less_equal", "le")):
    TABLE["np." + _n] = (lambda o: lambda a, b: S.compare(a, b, o))(_o)
TABLE["np.greater"] = lambda a, b: S.compare(b, a, "lt")
TABLE["np.greater_equal"] = lambda a, b: S.compare(b, a, "le")


@reg("np.isnan")
def isnan(a):
    S.NOTES.add("symbolic values are never NaN")
    return S.unary_c(a, lambda v: FALSE)


@reg("np.isinf")
def isinf(a):
    return S.compare(a, np.inf, "eq")


@reg("np.isfinite")
def isfinite(a):
    return S.compare(a, np.inf, "ne")


def where_index(c):
    """positions at which a one-dimensional boolean array holds.  If the hypotheses single out one position t, the array [t]"""
    c = toarr(c)
    if len(c.axes) != 1 or c.axes[0].kind != "plain":
        raise Unsupported("np.where of this array")
    n = c.axes[0].n
    f = c.snap()
    at = lambda j: tocond(f((E(j),)))
    j = E(X.fresh_int("j"))
    cj = at(j)
    rng = [le(0, j), lt(j, n)]
    cand_ = {}
    def walk(a):
        if a.isint and a.kind in ("fn", "sym") and not (j.free() & X.afree(a)) and not a.name.startswith("_"):
            cand_.setdefault(a.key, a)
        for x in a.args:
            for b in atoms_of(x):
                walk(b)
    for e in cond_exprs(cj):
        for a in atoms_of(e):
            walk(a)
    for k in sorted(cand_, key=lambda k: (-len(k), k)):
        t = E(cand_[k])
        ct = at(t)
        if not X.feasible([cnot(cand(le(0, t), lt(t, n), ct))]) and not X.feasible(rng + [cj, cnot(eq(j, t))]):
            return Arr([S.plain(E(1))], lambda ix, t=t: t, "i")
    return Arr([S.Ax("sel", subs=(c.axes[0],), mask=lambda ix: at(ix[0]))], lambda ix: ix[0][0] if isinstance(ix[0], tuple) else ix[0], "i")


def atoms_of(e):
    return [a for k in e.d for a, p in k[0]]


def cond_exprs(c):
    out = list(c.e or ())
    for x in c.subs or ():
        out += cond_exprs(x)
    return out


@reg("np.nonzero")
def nonzero(c):
    return (where_index(c),)


@reg("np.flatnonzero")
def flatnonzero(c):
    return where_index(c)


@reg("np.where")
def where(c, a=None, b=None):
    if a is None:
        return nonzero(c)
    c, a, b = toarr(c), toarr(a), toarr(b)
    t = binop(c, a, lambda x, y: (tocond(x), y), a.dt)
    r = binop(t, b, lambda p, z: S.vite(p[0], p[1], z), join(a.dt, b.dt))
    return r


# ---------------------------------------------------------------- reductions
@reg("np.sum")
def nsum(a, axis=None, **k):
    return S.npsum(a, axis)


@reg("np.nansum")
def nansum(a, axis=None, **k):
    S.NOTES.add("symbolic values are never NaN")
    return S.npsum(a, axis)


@reg("np.mean")
def mean(a, axis=None):
    if axis is not None:
        raise Unsupported("mean along an axis")
    return toarr(a).mean()


@reg("np.max")
def nmax(a, axis=None):
    return S.extremum(a, "max", axis)


@reg("np.min")
def nmin(a, axis=None):
    return S.extremum(a, "min", axis)


TABLE["np.amax"], TABLE["np.amin"] = nmax, nmin


@reg("np.any")
def nany(a, **k):
    return S.anyall(a, True)


@reg("np.all")
def nall(a, **k):
    return S.anyall(a, False)


@reg("np.array_equal")
def array_equal(a, b):
    a, b = toarr(a), toarr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.axes, b.axes):
        if not S.ax_same(x, y):
            if X.implied(cnot(eq(size(x), size(y)))):
                return False
            raise Unsupported("array_equal of unknown shapes")
    return S.anyall(S.compare(a, b, "eq"), False)


@reg("np.allclose")
def allclose(a, b, **k):
    if k or not (isinstance(b, (int, float)) and b == 0):
        raise Unsupported("comparison with a tolerance")
    S.NOTES.add("np.allclose(x, 0) is treated as equality")
    r = S.compare(toarr(a), toarr(b), "eq")
    return nall(r)


@reg("np.isclose")
def isclose(a, b, **k):
    raise Unsupported("comparison with a tolerance")


@reg("np.dot")
def dot(a, b):
    return S.npdot(a, b)


TABLE["np.matmul"] = dot
TABLE["np.inner"] = lambda a, b: dot(a, b) if toarr(b).ndim == 1 else dot(a, toarr(b).transpose())
TABLE["np.vdot"] = lambda a, b: dot(toarr(a).flatten().conj(), toarr(b).flatten())


@reg("np.tensordot")
def tensordot(a, b, axes=2):
    a, b = toarr(a), toarr(b)
    if isinstance(axes, int):
        ia, ib = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ia, ib = axes
        ia = [ia] if isinstance(ia, int) else list(ia)
        ib = [ib] if isinstance(ib, int) else list(ib)
    ia, ib = [i % a.ndim for i in ia], [i % b.ndim for i in ib]
    sax = [unify(a.axes[i], b.axes[j]) for i, j in zip(ia, ib)]
    ka, kb = [i for i in range(a.ndim) if i not in ia], [j for j in range(b.ndim) if j not in ib]
    fa, fb = a.snap(), b.snap()

    def f(ix):
        def g(s):
            xa, xb = [None] * a.ndim, [None] * b.ndim
            for n, i in enumerate(ka):
                xa[i] = ix[n]
            for n, j in enumerate(kb):
                xb[j] = ix[len(ka) + n]
            for n, (i, j) in enumerate(zip(ia, ib)):
                xa[i] = getx(a.axes[i], s[n], sax[n])
                xb[j] = getx(b.axes[j], s[n], sax[n])
            return numv(fa(tuple(xa))) * numv(fb(tuple(xb)))
        return S.sum_axes(tuple(sax), g)
    return Arr([a.axes[i] for i in ka] + [b.axes[j] for j in kb], memo(f), join(a.dt, b.dt))


def array_kron(a, b, sparse=False):
    a, b = toarr(a), toarr(b)
    if len(a.axes) != 2 or len(b.axes) != 2:
        raise Unsupported("kron")
    fa, fb = a.snap(), b.snap()
    axes, pick = [], []
    for x, y in zip(a.axes, b.axes):
        if S.isone(x):
            axes.append(y); pick.append(lambda i: (E(0), i))
        elif S.isone(y):
            axes.append(x); pick.append(lambda i: (i, E(0)))
        else:
            axes.append(S.Ax("prod", subs=(x, y))); pick.append(lambda i: i)

    def f(ix):
        (i, k), (j, l) = (p(q) for p, q in zip(pick, ix))
        return S.numv(fa((i, j))) * S.numv(fb((k, l)))
    return Arr(axes, f, join(a.dt, b.dt), "coo" if sparse or a.sparse or b.sparse else None)


@reg("np.einsum")
def einsum(spec, *ops, **k):
    ins, out = spec.replace(" ", "").split("->")
    ins = ins.split(",")
    ops = [toarr(o) for o in ops]
    axs = {}
    for s, o in zip(ins, ops):
        for c, ax in zip(s, o.axes):
            axs[c] = unify(axs[c], ax) if c in axs else ax
    fs = [o.snap() for o in ops]
    red = [c for c in axs if c not in out]

    def f(ix):
        env = dict(zip(out, ix))

        def g(s):
            e = {**env, **dict(zip(red, s))}
            r = E(1)
            for sp_, o, fo in zip(ins, ops, fs):
                r = r * numv(fo(tuple(getx(o.axes[n], e[c], axs[c]) for n, c in enumerate(sp_))))
            return r
        return S.sum_axes(tuple(axs[c] for c in red), g)
    r = Arr([axs[c] for c in out], memo(f), join(*[o.dt for o in ops]))
    return r if out else mkscalar(r.val(), r.dt)


def consecutive(n, mask, f):
    """sum of f(i, j) over i < j < n with i, j selected by the mask and nothing selected in between"""
    i, j = X.fresh_int(), X.fresh_int()
    cnt = X.fresh_int()
    gap = X.bind(X.indicator(mask(E(cnt))), cnt, [X.le(E(i) + 1, E(cnt)), X.lt(E(cnt), E(j))])
    body = X.with_cond(E(f(E(i), E(j))), [mask(E(i)), mask(E(j)), X.eq(gap, 0)])
    return X.sum_over(X.bind(body, i, [X.le(0, E(i)), X.lt(E(i), E(j))]), j, E(0), n)


@reg("np.trapz")
def trapz(y, x=None, dx=1.0, axis=-1):
    y = toarr(y)
    axis = axis % y.ndim
    ax = y.axes[axis]
    fy = y.snap()
    n = size(ax)
    if x is not None:
        x = toarr(x)
        fx = x.snap()
        if x.ndim == 1:
            xa = x.axes[0]
            if not S.ax_same(xa, ax):
                unify(xa, ax)
            gx = lambda ix, i: S.at_int(xa, i, lambda j: numv(fx((j,))))
        else:
            if x.ndim != y.ndim:
                raise Unsupported("trapz shapes")
            gx = lambda ix, i: S.at_int(x.axes[axis], i, lambda j: numv(fx(tuple(getx(a, q, t) for a, q, t in zip(x.axes, ix[:axis] + (j,) + ix[axis:], y.axes)))))
    else:
        d = E(dx)
        gx = lambda ix, i: d * i
    gy = lambda ix, i: S.at_int(ax, i, lambda j: numv(fy(ix[:axis] + (j,) + ix[axis:])))

    if ax.kind == "sel" and len(ax.subs) == 1 and ax.subs[0].kind == "plain" and x is not None and x.ndim == 1 and S.ax_same(x.axes[0], ax):
        # consecutive selected samples
        def f(ix):
            return consecutive(ax.subs[0].n, lambda q: ax.mask((q,)), lambda i, j: (numv(fy(ix[:axis] + ((i,),) + ix[axis:])) + numv(fy(ix[:axis] + ((j,),) + ix[axis:])))
                               * (numv(fx(((j,),))) - numv(fx(((i,),)))) * X.Fr(1, 2))
        r = Arr(y.axes[:axis] + y.axes[axis + 1:], memo(f), join(y.dt, x.dt, "f"))
        return r if r.axes else mkscalar(r.val(), r.dt)

    def f(ix):
        return S.sum_axis(plain(n - 1), lambda i: (gy(ix, i) + gy(ix, i + 1)) * (gx(ix, i + 1) - gx(ix, i)) * X.Fr(1, 2))
    r = Arr(y.axes[:axis] + y.axes[axis + 1:], memo(f), join(y.dt, x.dt if x is not None else "f", "f"))
    return r if r.axes else mkscalar(r.val(), r.dt)


TABLE["np.trapezoid"] = trapz


@reg("np.diff")
def diff(a, axis=-1):
    a = toarr(a)
    axis = axis % a.ndim
    k1 = tuple(slice(1, None) if i == axis else slice(None) for i in range(a.ndim))
    k0 = tuple(slice(None, -1) if i == axis else slice(None) for i in range(a.ndim))
    return a[k1] - a[k0]


@reg("np.cumsum")
def cumsum(a, axis=None):
    a = toarr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum")
    f = a.snap()
    return Arr(a.axes, lambda ix: S.sum_axis(plain(E(ix[0]) + 1), lambda j: numv(f((j,)))), a.dt)


@reg("np.sort")
def sort(a, axis=-1):
    return S.npsort(a)


@reg("np.unique")
def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    """assumed contract: the distinct values of the array in increasing order"""
    a = toarr(a)
    if a.ndim != 1 or return_index or return_counts or axis is not None or a.dt == "c" or a.axes[0].kind != "plain":
        raise Unsupported("np.unique")
    nm = "uniq:" + E(numv(a.snap()((E(X.atom("sym", "_s", (), ("int",))),)))).key + "|" + a.axes[0].n.key
    m = X.sym(nm + "n", "int", "real", "nonneg")
    X.push_hyps([le(m, a.axes[0].n), le(1, m)] if X.implied(le(1, a.axes[0].n)) else [le(m, a.axes[0].n)])
    val = Arr([plain(m)], lambda ix: X.fn(nm, [E(ix[0])], "real", "sorted", "injective"), a.dt)
    if return_inverse:      # the number of smaller distinct values: strictly increasing in the value
        f = a.snap()
        return val, Arr([a.axes[0]], lambda ix: X.fn("rank:" + nm, [E(numv(f((ix[0],))))], "int", "real", "nonneg", "sorted", "injective"), "i")
    return val


@reg("np.lexsort")
def lexsort(keys, axis=-1):
    """assumed contract: a permutation of the positions along which the keys (the last one first) do not decrease, ties in order"""
    ks = [toarr(k) for k in (keys if isinstance(keys, (tuple, list)) else [toarr(keys)[i] for i in range(len(keys))])]
    ax = ks[0].axes[0]
    if any(k.ndim != 1 or not S.ax_same(k.axes[0], ax) for k in ks) or ax.kind != "plain":
        raise Unsupported("lexsort")
    fs = [k.snap() for k in ks]
    nm = "lex:" + str(next(X._ids))
    S.LEX[nm] = (fs, ax.n)
    lit = X.pred("ordered:" + nm, [])
    S.QUANT[str(lit)] = ([plain(ax.n - 1)], lambda ix: S.lex_fact(nm, ix[0], E(ix[0]) + 1), False)
    X.push_hyps([lit])
    return Arr([ax], lambda ix: X.fn(nm, [E(ix[0])], "int", "real", "nonneg", "injective"), "i")


@reg("np.argsort")
def argsort(a, axis=-1, kind=None):
    return lexsort((toarr(a),))


@reg("np.unravel_index")
def unravel_index(i, shape):
    axes = [toaxis(s) for s in shape]
    if len(axes) == 1:
        return (mkscalar(E(i), "i"),)
    out = []
    i = E(i)
    for ax in reversed(axes[1:]):
        n = size(ax)
        q = X.floor(i * X.inv(n))
        out.append(mkscalar(i - q * n, "i"))
        i = q
    out.append(mkscalar(i, "i"))
    return tuple(reversed(out))


def small_square(a):
    a = toarr(a)
    if len(a.axes) != 2 or a.sparse:
        raise Unsupported("matrix")
    n = [S.size(x).const() for x in a.axes]
    if n[0] is None or n[0] != n[1] or n[0][0] > 3:
        raise Unsupported("determinant of a large matrix")
    f = a.snap()
    n = int(n[0][0])
    return [[S.numv(f((E(i), E(j)))) for j in range(n)] for i in range(n)], a.dt


def determinant(m):
    if len(m) == 1:
        return m[0][0]
    r = E(0)
    for j in range(len(m)):
        r = r + (-1) ** j * m[0][j] * determinant([row[:j] + row[j + 1:] for row in m[1:]])
    return r


@reg("np.linalg.det")
def ldet(a):
    m, dt = small_square(a)
    return S.mkscalar(determinant(m), "f" if dt in "ib" else dt)


@reg("np.linalg.inv")
def linv(a):
    m, dt = small_square(a)
    d = determinant(m)
    if S.truth(S.compare(S.mkscalar(d, dt), 0, "eq")):
        raise Raised("LinAlgError", "Singular matrix")
    d = X.inv(d)
    n = len(m)
    cof = lambda i, j: ((-1) ** (i + j)) * (determinant([r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i]) if n > 1 else E(1)) * d
    ent = [[cof(j, i) for j in range(n)] for i in range(n)]

    def f(ix):
        r = E(0)
        for i in range(n):
            for j in range(n):
                r = r + ite(cand(eq(ix[0], i), eq(ix[1], j)), ent[i][j], 0)
        return r
    return Arr([S.plain(E(n)), S.plain(E(n))], f, "f" if dt in "ib" else dt)


@reg("np.linalg.norm")
def lnorm(a, ord=None, axis=None):
    a = toarr(a)
    if ord is not None or axis is not None:
        raise Unsupported("norm arguments")
    f = a.snap()
    return mkscalar(X.sqrt(S.sum_axes(a.axes, lambda ix: f(ix) * X.conj(f(ix)))), "f")


@reg("np.shape")
def shape(a):
    return toarr(a).shape


@reg("np.ndim")
def ndim(a):
    return toarr(a).ndim


@reg("np.size")
def nsize(a):
    return toarr(a).size


@reg("np.isscalar")
def isscalar(a):
    return isinstance(a, Arr) and a.ndim == 0


@reg("np.iscomplexobj")
def iscomplexobj(a):
    return toarr(a).dt == "c"


@reg("np.isrealobj")
def isrealobj(a):
    return toarr(a).dt != "c"


@reg("np.mgrid")
def mgrid(*a):
    raise Unsupported("mgrid")


@reg("np.histogram")
def histogram(*a, **k):
    raise Unsupported("np.histogram")


# ---------------------------------------------------------------- sparse
@reg("sp.issparse")
def issparse(a):
    if S.foreign(a):
        return True
    return isinstance(a, Arr) and bool(a.sparse)


TABLE["sp.isspmatrix"] = issparse


@reg("sp.isspmatrix_csr")
def isspmatrix_csr(a):
    return S.foreign(a) or (isinstance(a, Arr) and a.sparse == "csr")


def _spmat(fmt):
    def f(a, shape=None, dtype=None, **k):
        if isinstance(a, Arr):
            r = toarr(a)
            g = r.snap()
            if dtype is not None:
                g = castf(g, r.dt, dtname(dtype))
            return Arr(r.axes, g, r.dt if dtype is None else dtname(dtype), fmt)
        if S.foreign(a):
            return a
        if isinstance(a, (int, float, complex, np.number)):
            z = E(a)
            return Arr([plain(1), plain(1)], lambda ix: z, toarr(a).dt, fmt)
        if isinstance(a, tuple) and len(a) == 3 and fmt in ("csr", "csc"):
            return from_csx(a[0], a[1], a[2], shape, fmt)
        if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], (tuple, list)):
            return from_coo(a[0], a[1], shape, fmt)
        if isinstance(a, tuple) and shape is None and len(a) == 2:
            return Arr([toaxis(a[0]), toaxis(a[1])], lambda ix: E(0), dtname(dtype), fmt)
        raise Unsupported("sparse constructor")
    return f


for _f in ("csr", "csc", "coo", "dia", "lil"):
    TABLE[f"sp.{_f}_matrix"] = _spmat(_f)


def from_csx(data, indices, indptr, shape, fmt):
    """(data, indices, indptr) with exactly one entry per major index"""
    data, indices, indptr = toarr(data), toarr(indices), toarr(indptr)
    if any(a.ndim != 1 or a.axes[0].kind != "plain" for a in (data, indices, indptr)):
        raise Unsupported("compressed sparse constructor")
    n = X.simplify(size(indptr.axes[0]) - 1)
    k = E(X.fresh_int("k"))
    fd, fi, fp = data.snap(), indices.snap(), indptr.snap()
    if not (X.iszero(numv(fp((k,))) - k) and X.iszero(size(data.axes[0]) - n) and X.iszero(size(indices.axes[0]) - n)):
        raise Unsupported("compressed sparse constructor")
    if shape is not None:
        tgt = [toaxis(q) for q in shape]
    else:
        top = None
        for cand_ in (numv(fi((E(0),))), numv(fi((n - 1,)))):
            if X.implied(le(1, n)) and not X.feasible([le(0, k), lt(k, n), lt(cand_, numv(fi((k,))))]):
                top = cand_ + 1
                break
        if top is None:
            raise Unsupported("shape of a compressed sparse matrix")
        tgt = [plain(top), plain(n)] if fmt == "csc" else [plain(n), plain(top)]

    def g(ix):
        maj, mnr = (ix[1], ix[0]) if fmt == "csc" else (ix[0], ix[1])
        c = eq(numv(fi((maj,))), mnr)
        v = numv(fd((maj,)))
        return v if c.const is True else E(0) if c.const is False else X.with_cond(v, [c])
    return Arr(tgt, g, data.dt, fmt)


def from_coo(data, ij, shape, fmt):
    """sparse((data, (i, j)), shape): entries with equal position add up"""
    data, i, j = toarr(data), toarr(ij[0]), toarr(ij[1])
    ax = unify(unify(data.axes[0], i.axes[0]), j.axes[0])
    if shape is None:
        raise Unsupported("sparse without shape")
    tgt = [toaxis(s) for s in shape]
    fd, fi, fj = data.snap(), i.snap(), j.snap()

    def g(ix):
        r, c = S.lin(tgt[0], ix[0]), S.lin(tgt[1], ix[1])

        def term(k):
            v = numv(fd((getx(data.axes[0], k, ax),)))
            ii, jj = E(fi((getx(i.axes[0], k, ax),))), E(fj((getx(j.axes[0], k, ax),)))
            cond = cand(eq(ii, r), eq(jj, c))
            return v if cond.const is True else E(0) if cond.const is False else X.with_cond(v, [cond])
        return S.sum_axis(ax, term)
    return Arr(tgt, memo(g), data.dt, fmt)


@reg("sp.diags")
def diags(d, offsets=0, **k):
    if k.get("shape") is not None or isinstance(offsets, (list, tuple)):
        raise Unsupported("diags options")
    r = diag(d, offsets)
    r.sparse = "dia"
    return r


def make_np():
    return Proxy(np, "np.", {"pi": mkscalar(X.PI, "f", "float")})


def make_sp():
    return Proxy(sps, "sp.")


@reg("np.histogram")
def histogram(a, bins=10, range=None, density=None, weights=None):
    """counts per bin; the edges must be increasing (precondition of np.histogram)"""
    if range is not None or density or weights is not None:
        raise Unsupported("histogram options")
    a, b = toarr(a), toarr(bins)
    if b.ndim != 1:
        raise Unsupported("histogram with a number of bins")
    if a.ndim != 1:
        a = a.ravel() if hasattr(a, "ravel") else TABLE["np.ravel"](a)
    m = X.simplify(size(b.axes[0]) - 1)
    fa, fb = a.snap(), b.snap()
    i = E(X.fresh_int("i"))
    if X.feasible([le(0, i), lt(i, m), lt(numv(fb((i + 1,))), numv(fb((i,))))]):
        S.NOTES.add("np.histogram: bin edges assumed increasing (it raises otherwise)")
    n = size(a.axes[0])
    if a.axes[0].kind != "plain":
        raise Unsupported("histogram of a structured axis")

    def cnt(ix):
        k = X.fresh_int()
        x, lo, hi = numv(fa((E(k),))), numv(fb((ix[0],))), numv(fb((ix[0] + 1,)))
        inside = cand(le(lo, x), cor(lt(x, hi), cand(eq(E(ix[0]), m - 1), eq(x, hi))))
        return X.sum_over(X.indicator(inside), k, 0, n)
    return Arr([plain(m)], memo(cnt), "i"), bins


@reg("np.result_type")
def result_type(*a):
    ds = [x.dt if isinstance(x, Arr) else (toarr(x).dt if isinstance(x, (np.ndarray, int, float, complex, bool, np.number)) else S.dtname(x)) for x in a]
    return {"b": np.bool_, "i": np.int64, "f": np.float64, "c": np.complex128}[join(*ds)]


@reg("scipy.special.binom")
def binom(n, k):
    return binop(toarr(n), toarr(k), lambda x, y: X.fn("binom", (numv(x), numv(y)), "real"), "f")


TABLE["scipy.special.comb"] = lambda n, k, **kw: binom(n, k)


from . import ops as _ops
_ops.install(TABLE)
