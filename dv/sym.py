"""Symbolic arrays: shape of structured axes, value = function from indices to Expr/Cond, for arrays of any (symbolic) length.

Axis kinds   plain n | prod (flattened product) | cat (concatenation) | sel (boolean selection) | sig (concatenation of a
             symbolic number of arrays)      index of an axis: Expr | tuple | (k, idx) | tuple | (Expr, idx)
"""
import itertools
from fractions import Fraction as Fr
import numpy as np
from . import expr as X
from .expr import E, Expr, Cond, Unsupported, TRUE, FALSE, cand, cor, cnot, eq, le, lt, ite

NOTES = set()          # idealisations used on this run (reported as assumptions)


class Raised(Exception):
    """the interpreted code raised an exception"""
    def __init__(self, exc, msg=""):
        self.exc, self.msg = exc, msg
        Exception.__init__(self, f"{exc}: {msg}")


# ---------------------------------------------------------------- axes
class Ax:
    __slots__ = ("kind", "n", "subs", "mask", "key", "fn")

    def __init__(self, kind, n=None, subs=(), mask=None, fn=None):
        self.kind, self.subs, self.mask, self.fn = kind, tuple(subs), mask, fn
        if n is not None:
            n = E(n)
        self.n = n
        if kind == "plain":
            self.key = "p" + n.key
        elif kind in ("prod", "cat"):
            self.key = kind + "(" + ";".join(s.key for s in self.subs) + ")"
        elif kind == "sel":
            ix = canon_index(self.subs, "q")
            self.key = "sel(" + ";".join(s.key for s in self.subs) + "|" + mask(ix).key + ")"
        elif kind == "sig":
            v = X.atom("sym", "_sg", (), ("int",))
            self.key = "sig(" + n.key + ";" + fn(E(v)).key + ")"


def canon_index(axes, pre):
    return tuple(cidx(a, f"{pre}{i}") for i, a in enumerate(axes))


def cidx(a, nm):
    if a.kind == "plain":
        return E(X.atom("sym", "_" + nm, (), ("int",)))
    if a.kind in ("prod", "sel"):
        return tuple(cidx(s, nm + "_" + str(i)) for i, s in enumerate(a.subs))
    raise Unsupported("selection from a concatenated array")


def plain(n):
    return Ax("plain", n)


def size(a):
    if a.kind == "plain":
        return a.n
    if a.kind == "prod":
        r = E(1)
        for s in a.subs:
            r = r * size(s)
        return r
    if a.kind == "cat":
        r = E(0)
        for s in a.subs:
            r = r + size(s)
        return r
    if a.kind == "sel":
        return sum_axes(a.subs, lambda ix: X.indicator(a.mask(ix)))
    if a.kind == "sig":
        v = X.fresh_int()
        return X.sum_over(size(a.fn(E(v))), v, 0, a.n)
    raise Unsupported(a.kind)


def sum_axes(axes, f):
    """sum of f(index tuple) over all axes"""
    if not axes:
        return E(f(()))
    a, rest = axes[0], axes[1:]
    g = lambda i: sum_axes(rest, lambda r: f((i,) + r))
    return sum_axis(a, g)


def sum_axis(a, g):
    if a.kind == "plain":
        c = a.n.const()
        if c is not None:
            r = E(0)
            for i in range(int(c[0])):
                r = r + g(E(i))
            return r
        v = X.fresh_int()
        d = X.hyp_depth()
        X.push_hyps([le(0, v), lt(v, a.n)])
        try:
            body = E(g(E(v)))
        finally:
            X.pop_to(d)
        return X.sum_over(body, v, 0, a.n)
    if a.kind == "prod":
        return sum_axes(a.subs, g)
    if a.kind == "cat":
        r = E(0)
        for k, s in enumerate(a.subs):
            r = r + sum_axis(s, lambda i, k=k: g((k, i)))
        return r
    if a.kind == "sel":
        return sum_axes(a.subs, lambda ix: X.with_cond(E(g(ix)), [a.mask(ix)]) if a.mask(ix).const is None else (E(g(ix)) if a.mask(ix).const else E(0)))
    if a.kind == "sig":
        v = X.fresh_int()
        return X.sum_over(sum_axis(a.fn(E(v)), lambda i: g((E(v), i))), v, 0, a.n)
    raise Unsupported(a.kind)


def fresh_index(a):
    """[(index, [conditions])] alternatives covering the whole axis, with fresh symbols"""
    if a.kind == "plain":
        c = a.n.const()
        v = E(X.fresh_int("i"))
        return [(v, [le(0, v), lt(v, a.n)])]
    if a.kind in ("prod", "sel"):
        alts = [((), [])]
        for s in a.subs:
            alts = [(ix + (i,), cs + c2) for ix, cs in alts for i, c2 in fresh_index(s)]
        if a.kind == "sel":
            alts = [(ix, cs + [a.mask(ix)]) for ix, cs in alts]
        return alts
    if a.kind == "cat":
        return [((k, i), cs) for k, s in enumerate(a.subs) for i, cs in fresh_index(s)]
    if a.kind == "sig":
        v = E(X.fresh_int("i"))
        return [((v, i), [le(0, v), lt(v, a.n)] + cs) for i, cs in fresh_index(a.fn(v))]
    raise Unsupported(a.kind)


def at_int(a, i, f):
    """value f(structured index) at integer position i"""
    i = E(i)
    if a.kind == "plain":
        return f(i)
    if a.kind == "cat":
        out = None
        off = E(0)
        parts = []
        for k, s in enumerate(a.subs):
            n = size(s)
            c = lt(i, off + n) if k < len(a.subs) - 1 else TRUE
            parts.append((c, at_int(s, i - off, lambda j, k=k: f((k, j)))))
            off = off + n
        return nested_ite(parts)
    if a.kind == "prod":
        if len(a.subs) == 1:
            return at_int(a.subs[0], i, lambda j: f((j,)))
        rest = Ax("prod", subs=a.subs[1:])
        m = size(rest)
        q = X.floor(i * X.inv(m))
        r = i - q * m
        return at_int(a.subs[0], q, lambda j: at_int(rest, r, lambda t: f((j,) + t)))
    if a.kind == "sel" and len(a.subs) == 1 and a.subs[0].kind == "plain":
        return f((sigma(a, i),))
    raise Unsupported("integer index into a structured axis")


def sigma(a, i):
    """position in the full array of the i-th selected element (increasing enumeration)"""
    return X.fn("sel:" + a.key, (i,), "int")


def nested_ite(parts):
    r = None
    for c, v in reversed(parts):
        r = v if r is None else vite(c, v, r)
    return r


def vite(c, a, b):
    if isinstance(a, Cond) or isinstance(b, Cond):
        return cor(cand(c, tocond(a)), cand(cnot(c), tocond(b)))
    return ite(c, a, b)


def tocond(v):
    if isinstance(v, Cond):
        return v
    return cnot(eq(v, 0))


def lin(a, ix):
    """integer position of a structured index"""
    if a.kind == "plain":
        return E(ix)
    if a.kind == "prod":
        r = E(0)
        for s, i in zip(a.subs, ix):
            r = r * size(s) + lin(s, i)
        return r
    if a.kind == "cat":
        off = E(0)
        for s in a.subs[:ix[0]]:
            off = off + size(s)
        return off + lin(a.subs[ix[0]], ix[1])
    if a.kind == "sel" and len(a.subs) == 1 and a.subs[0].kind == "plain":
        # number of selected elements before this one
        return sum_axis(plain(E(ix[0])), lambda k: X.indicator(a.mask((k,))))
    raise Unsupported("position in a " + a.kind + " axis")


def ax_same(a, b):
    if a.key == b.key:
        return True
    if a.kind == b.kind == "plain":
        return X.implied(eq(a.n, b.n))
    if a.kind == b.kind and a.kind in ("prod", "cat") and len(a.subs) == len(b.subs):
        return all(ax_same(x, y) for x, y in zip(a.subs, b.subs))
    if a.kind == b.kind == "sel" and len(a.subs) == len(b.subs) and all(ax_same(x, y) for x, y in zip(a.subs, b.subs)):
        alts = fresh_index(Ax("prod", subs=a.subs))
        for ix, cs in alts:
            m1, m2 = a.mask(ix), b.mask(ix)
            if X.feasible(cs + [m1, cnot(m2)]) or X.feasible(cs + [m2, cnot(m1)]):
                return False
        return True
    return False


def isone(a):
    return a.kind == "plain" and a.n.isconst(1)


def getx(a, ix, target):
    """index into an array with axis a, for an index of the unified axis target"""
    if isone(a) and not isone(target):
        return E(0)
    if a.kind == "plain" and target.kind != "plain":
        return lin(target, ix)
    return ix


def unify(a, b):
    if ax_same(a, b):
        return a if a.kind != "plain" or b.kind == "plain" else b
    if isone(a):
        return b
    if isone(b):
        return a
    if a.kind == "plain" and b.kind != "plain":
        if X.implied(eq(a.n, size(b))):
            return b
    if b.kind == "plain" and a.kind != "plain":
        if X.implied(eq(b.n, size(a))):
            return a
    if X.implied(cnot(eq(size(a), size(b)))) and X.implied(cnot(eq(size(a), 1))) and X.implied(cnot(eq(size(b), 1))):
        raise Raised("ValueError", "operands could not be broadcast together")
    raise Unsupported(f"cannot align axes {a.key} and {b.key}")


# ---------------------------------------------------------------- arrays
class Arr:
    __array_priority__ = 1e9
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, axes, f, dt="f", sparse=None, py=None):
        self.axes = tuple(axes)
        self._f = f
        self.dt = dt            # b i f c
        self.sparse = sparse    # None or format string
        self.py = py            # python scalar type name, or None for numpy objects
        self.base = None        # view: (Arr, index map)
        self.count_mask = None  # len() of a selection
        self.version = 0
        self.frozen = False

    def __deepcopy__(self, memo):
        r = Arr.__new__(Arr)
        memo[id(self)] = r
        r.__dict__.update(self.__dict__)
        if self.base is not None:
            import copy
            r.base = (copy.deepcopy(self.base[0], memo), self.base[1])
        return r

    # ---- reading
    def snap(self):
        if self.base is not None:
            b, m = self.base
            bf = b.snap()
            return lambda ix: bf(m(ix))
        return self._f

    def __call__(self, *ix):
        return self.snap()(tuple(ix))

    def val(self):
        """scalar value"""
        if self.axes:
            if all(isone(a) for a in self.axes):
                return self.snap()(tuple(E(0) for _ in self.axes))
            raise Raised("TypeError", "only size-1 arrays can be converted to scalars")
        return self.snap()(())

    def as_expr(self):
        v = self.val()
        return X.indicator(v) if isinstance(v, Cond) else v

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(dimval(a) for a in self.axes)

    @property
    def size(self):
        r = E(1)
        for a in self.axes:
            r = r * size(a)
        v = mkscalar(r, "i", "int")
        if len(self.axes) == 1 and isinstance(v, Arr):
            v.ax = self.axes[0]
        return v

    @property
    def real(self):
        if self.dt != "c":
            return self
        f = self.snap()

        def re(ix):
            v = f(ix)
            if QUANT and isinstance(v, Expr) and not X.isreal(v) and X.complex_fact(X.im(v).d):
                return v            # known to be real here
            return X.re(v)
        return Arr(self.axes, re, "f", self.sparse)

    @property
    def imag(self):
        if self.dt != "c":
            return Arr(self.axes, lambda ix: E(0), "f", self.sparse)
        f = self.snap()
        return Arr(self.axes, lambda ix: X.im(f(ix)), "f", self.sparse)

    @property
    def T(self):
        return self.transpose()

    @property
    def dtype(self):
        return np.dtype({"b": bool, "i": int, "f": float, "c": complex}[self.dt])

    def conj(self):
        if self.dt != "c":
            return self.copy()
        f = self.snap()
        return Arr(self.axes, lambda ix: X.conj(f(ix)), "c", self.sparse)
    conjugate = conj

    def transpose(self, *axes):
        if self.sparse and axes:
            raise Unsupported("sparse transpose arguments")
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        n = len(self.axes)
        p = tuple(axes) if axes and axes[0] is not None else tuple(reversed(range(n)))
        q = [p.index(i) for i in range(n)]
        r = Arr([self.axes[i] for i in p], None, self.dt, self.sparse)
        r.base = (self, lambda ix: tuple(ix[q[i]] for i in range(n)))
        return r

    def getH(self):
        return self.conj().transpose()

    def copy(self):
        f = self.snap()
        return Arr(self.axes, f, self.dt, self.sparse)

    def astype(self, t, **k):
        d = dtname(t)
        f = self.snap()
        if d == self.dt:
            return self.copy()
        return Arr(self.axes, castf(f, self.dt, d), d, self.sparse)

    def __float__(self):
        raise Unsupported("float() outside the interpreter")

    def item(self):
        return mkscalar(self.val(), self.dt, {"f": "float", "i": "int", "c": "complex", "b": "bool"}[self.dt])

    # sparse conversions
    def toarray(self):
        f = self.snap()
        return Arr(self.axes, f, self.dt)
    todense = toarray

    def _fmt(self, fmt):
        f = self.snap()
        return Arr(self.axes, f, self.dt, fmt)

    def eliminate_zeros(self):
        if not self.sparse:
            raise Raised("AttributeError", "eliminate_zeros")

    def tocsr(self, *a, **k):
        self._needsparse(); return self._fmt("csr")

    def tocsc(self, *a, **k):
        self._needsparse(); return self._fmt("csc")

    def tocoo(self, *a, **k):
        self._needsparse(); return self._fmt("coo")

    def asformat(self, fmt):
        self._needsparse(); return self._fmt(fmt)

    def _needsparse(self):
        if not self.sparse:
            raise Raised("AttributeError", "numpy array has no sparse conversion")

    def diagonal(self):
        f = self.snap()
        a = self.axes[0]
        if not ax_same(self.axes[0], self.axes[1]):
            raise Unsupported("diagonal of a rectangular array")
        return Arr([a], lambda ix: f((ix[0], ix[0])), self.dt)

    # ---- reductions / reshaping
    def sum(self, axis=None, **k):
        return npsum(self, axis)

    def max(self, axis=None):
        return extremum(self, "max", axis)

    def min(self, axis=None):
        return extremum(self, "min", axis)

    def mean(self, axis=None):
        return npsum(self, axis) / self.size

    def any(self):
        return anyall(self, True)

    def all(self):
        return anyall(self, False)

    def trace(self):
        return npsum(self.diagonal(), None)

    def ravel(self, order="C"):
        return self.flatten(order)

    def flatten(self, order="C"):
        if order != "C":
            raise Unsupported("ravel order")
        f = self.snap()
        if len(self.axes) == 1:
            return self.copy()
        big = [i for i, a in enumerate(self.axes) if not isone(a)]
        if len(big) == 1:
            i0 = big[0]
            n = len(self.axes)
            return Arr([self.axes[i0]], lambda ix: f(tuple(ix[0] if i == i0 else E(0) for i in range(n))), self.dt)
        if all(a.kind == "plain" and a.n.const() is not None for a in self.axes):
            sh = [int(a.n.const()[0]) for a in self.axes]

            def g(ix):
                c = E(ix[0]).const()
                if c is not None:
                    return f(tuple(E(int(t)) for t in np.unravel_index(int(c[0]), sh)))
                return at_int(Ax("prod", subs=self.axes), ix[0], f)
            return Arr([plain(int(np.prod(sh)))], g, self.dt)
        return Arr([Ax("prod", subs=self.axes)], lambda ix: f(ix[0]), self.dt)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        tgt = [toaxis(s) if not (isinstance(s, int) and s == -1) else None for s in shape]
        if None in tgt:
            others = [a for a in tgt if a is not None]
            if all(isone(a) for a in others):
                r = self.flatten()
                k = tgt.index(None)
                f = r.snap()
                return Arr([r.axes[0] if i == k else plain(1) for i in range(len(tgt))], lambda ix: f((ix[k],)), self.dt)
            raise Unsupported("reshape(-1)")
        mine = [a for a in self.axes if not isone(a)]
        theirs = [a for a in tgt if a is not None and not isone(a)]
        if len(mine) == len(theirs) and all(ax_same(a, b) for a, b in zip(mine, theirs)):
            f = self.snap()
            mp = [i for i, a in enumerate(tgt) if not isone(a)]
            src = [i for i, a in enumerate(self.axes) if not isone(a)]
            n = len(self.axes)

            def g(ix):
                full = [E(0)] * n
                for s, m in zip(src, mp):
                    full[s] = ix[m]
                return f(tuple(full))
            return Arr(tgt, g, self.dt)
        if len(mine) == 1 and mine[0].kind == "prod" and len(theirs) == len(mine[0].subs) and all(ax_same(a, b) for a, b in zip(mine[0].subs, theirs)) and len(self.axes) == 1 and len(tgt) == len(theirs):
            f = self.snap()
            return Arr(tgt, lambda ix: f((tuple(ix),)), self.dt)
        # general: through the integer position
        if len(self.axes) == 1:
            f = self.snap()
            a = self.axes[0]
            pr = Ax("prod", subs=tgt)
            if not X.implied(eq(size(pr), size(a))):
                raise Unsupported("reshape size")
            return Arr(tgt, lambda ix: at_int(a, lin(pr, tuple(ix)), lambda j: f((j,))), self.dt)
        raise Unsupported("reshape")

    def squeeze(self, axis=None):
        keep = []
        for i, a in enumerate(self.axes):
            if axis is not None and i not in ((axis,) if isinstance(axis, int) else tuple(axis)):
                keep.append(i)
                continue
            if isone(a):
                continue
            one = eq(size(a), 1)
            if X.implied(cnot(one)):
                keep.append(i)
            elif BRANCH[0] is not None and BRANCH[0](one):
                continue
            else:
                keep.append(i)
        if keep == list(range(len(self.axes))):
            return self
        n = len(self.axes)
        r = Arr([self.axes[i] for i in keep], None, self.dt)

        def m(ix):
            full = [E(0)] * n
            for k, i in enumerate(keep):
                full[i] = ix[k]
            return tuple(full)
        r.base = (self, m)
        return r

    def sort(self):
        r = npsort(self)
        self.set(r.snap())

    # ---- products
    def dot(self, o):
        return npdot(self, o)

    def __matmul__(self, o):
        return npdot(self, o)

    def __rmatmul__(self, o):
        return npdot(o, self)

    def multiply(self, o):
        o = toarr(o)
        r = binop(self, o, lambda a, b: numv(a) * numv(b), join(self.dt, o.dt))
        r.sparse = "csr"
        return r

    # ---- operators
    def __add__(self, o): return arith(self, o, lambda a, b: a + b)
    def __radd__(self, o): return arith(o, self, lambda a, b: a + b)
    def __sub__(self, o): return arith(self, o, lambda a, b: a - b)
    def __rsub__(self, o): return arith(o, self, lambda a, b: a - b)

    def __mul__(self, o):
        if foreign(o):
            return NotImplemented
        o = toarr(o)
        if self.sparse and o.ndim > 0 or (o.sparse and self.ndim > 0):
            return npdot(self, o)
        return arith(self, o, lambda a, b: a * b)

    def __rmul__(self, o):
        o = toarr(o)
        if self.sparse and o.ndim > 0:
            return npdot(o, self)
        return arith(o, self, lambda a, b: a * b)

    def __truediv__(self, o): return arith(self, o, divide, "f")
    def __rtruediv__(self, o): return arith(o, self, divide, "f")

    def __floordiv__(self, o): return arith(self, o, lambda a, b: X.floor(divide(a, b)))
    def __rfloordiv__(self, o): return arith(o, self, lambda a, b: X.floor(divide(a, b)))
    def __mod__(self, o): return arith(self, o, lambda a, b: a - b * X.floor(divide(a, b)))
    def __rmod__(self, o): return arith(o, self, lambda a, b: a - b * X.floor(divide(a, b)))

    def __pow__(self, o):
        if self.sparse:
            raise Unsupported("power of a sparse matrix")
        return arith(self, o, powv)

    def __rpow__(self, o): return arith(o, self, powv)

    def __neg__(self):
        f = self.snap()
        return Arr(self.axes, lambda ix: -numv(f(ix)), self.dt, self.sparse, self.py)

    def __pos__(self): return self

    def __abs__(self):
        f = self.snap()
        return Arr(self.axes, lambda ix: X.absv(numv(f(ix))), "f" if self.dt == "c" else self.dt, self.sparse, self.py)

    def __eq__(self, o): return compare(self, o, "eq")
    def __ne__(self, o): return compare(self, o, "ne")
    def __lt__(self, o): return compare(self, o, "lt")
    def __le__(self, o): return compare(self, o, "le")
    def __gt__(self, o): return compare(o, self, "lt", flip=True)
    def __ge__(self, o): return compare(o, self, "le", flip=True)

    def __and__(self, o): return logical(self, o, cand)
    def __rand__(self, o): return logical(o, self, cand)
    def __or__(self, o): return logical(self, o, cor)
    def __ror__(self, o): return logical(o, self, cor)

    def __invert__(self):
        if self.dt != "b":
            raise Unsupported("~ of a number")
        f = self.snap()
        return Arr(self.axes, lambda ix: cnot(tocond(f(ix))), "b")

    def __len__(self):
        raise Unsupported("len() outside the interpreter")

    def __iter__(self):
        raise Unsupported("iteration outside the interpreter")

    def __bool__(self):
        return truth(self)

    def __index__(self):
        c = E(self).const()
        if c is None or c[1] != 0 or c[0].denominator != 1:
            raise Unsupported("symbolic index")
        return int(c[0])

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, v):
        setitem(self, key, v)

    def set(self, f):
        if self.base is not None:
            raise Unsupported("write through a view")
        self._f = memo(f)
        self.version += 1


BRANCH = [None]        # the interpreter's branching function


def foreign(o):
    return hasattr(o, "is_symbolic_operator")


def memo(f):
    cache = {}

    def g(ix):
        k = (ikey(ix), X.hkey())
        r = cache.get(k)
        if r is None:
            r = f(ix)
            cache[k] = r
        return r
    return g


def ikey(ix):
    if isinstance(ix, tuple):
        return tuple(ikey(i) for i in ix)
    if isinstance(ix, Expr):
        return ix.key
    return ix


def truth(a):
    if isinstance(a, Arr):
        if a.axes and not all(isone(x) for x in a.axes):
            one = [eq(size(x), 1) for x in a.axes]
            if X.implied(cand(*one)):
                v = a.snap()(tuple(at_int(x, 0, lambda j: j) if x.kind != "plain" else E(0) for x in a.axes))
                return decide(v)
            raise Raised("ValueError", "truth value of an array is ambiguous")
        return decide(a.val())
    return bool(a)


def decide(v):
    c = tocond(v)
    if c.const is not None:
        return c.const
    if X.implied(c):
        return True
    if X.implied(cnot(c)):
        return False
    if BRANCH[0] is None:
        raise Unsupported(f"undecided branch {c.key[:200]}")
    return BRANCH[0](c)


def dimval(a):
    s = size(a)
    c = s.const()
    if c is not None:
        return int(c[0])
    r = mkscalar(s, "i", "int")
    r.ax = a
    if a.kind == "sel":
        r.count_mask = a
    return r


def toaxis(s):
    if isinstance(s, Ax):
        return s
    if isinstance(s, Arr) and getattr(s, "ax", None) is not None:
        return s.ax
    return plain(E(s))


def mkscalar(v, dt="f", py=None):
    if isinstance(v, Cond):
        if v.const is not None:
            return bool(v.const)
        return Arr((), lambda ix: v, "b", py="bool")
    v = E(v)
    c = v.const()
    if c is not None and dt == "i" and c[1] == 0 and c[0].denominator == 1:
        return int(c[0])
    return Arr((), lambda ix: v, dt, py=py)


def dtname(t):
    if t is None:
        return "f"
    if isinstance(t, str):
        t = np.dtype(t)
    t = np.dtype(t)
    return {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c"}[t.kind]


ORDER = "bifc"


def join(*ds):
    return ORDER[max(ORDER.index(d) for d in ds)]


def castf(f, src, dst):
    if dst == "c" or src == dst or (src, dst) in (("i", "f"), ("b", "i"), ("b", "f")):
        if src == "b" and dst != "b":
            return lambda ix: numv(f(ix))
        return f
    if dst == "f":
        return lambda ix: X.re(numv(f(ix)))
    if dst == "i":
        def g(ix):
            v = X.re(numv(f(ix)))
            if v.intlike():
                return v
            return trunc(v)
        return g
    if dst == "b":
        return lambda ix: tocond(f(ix))
    raise Unsupported("cast")


def trunc(v):
    return ite(le(0, v), X.floor(v), -X.floor(-v))


def numv(v):
    return X.indicator(v) if isinstance(v, Cond) else E(v)


def toarr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (bool, np.bool_)):
        c = TRUE if x else FALSE
        return Arr((), lambda ix: c, "b", py="bool")
    if isinstance(x, (int, np.integer)):
        v = E(int(x))
        return Arr((), lambda ix: v, "i", py="int")
    if isinstance(x, (float, np.floating)):
        if x in (float("inf"), float("-inf")):
            r = Arr((), None, "f", py="float")
            r._f = lambda ix: E(X.atom("sym", "inf", (), ("pos",))).scale((Fr(1 if x > 0 else -1), Fr(0)))
            r.inf = 1 if x > 0 else -1
            return r
        v = E(float(x))
        return Arr((), lambda ix: v, "f", py="float")
    if isinstance(x, (complex, np.complexfloating)):
        v = E(complex(x))
        return Arr((), lambda ix: v, "c", py="complex")
    if isinstance(x, (Expr, X.Atom)):
        v = E(x)
        return Arr((), lambda ix: v, "i" if v.intlike() else ("f" if X.isreal(v) else "c"))
    if isinstance(x, Cond):
        return Arr((), lambda ix: x, "b")
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return toarr(x.tolist())
        vals = {}

        def f(ix):
            cs = [E(i).const() for i in ix]
            if all(c is not None for c in cs):
                try:
                    v = x[tuple(int(c[0]) for c in cs)]
                except IndexError:
                    raise Raised("IndexError", "index out of bounds")
                return (TRUE if v else FALSE) if x.dtype.kind == "b" else E(v)
            if x.size > 64:
                raise Unsupported("symbolic index into a large concrete array")
            out = None
            for pos in itertools.product(*[range(s) for s in x.shape]):
                c = cand(*[eq(i, p) for i, p in zip(ix, pos)])
                v = x[pos]
                if x.dtype.kind == "b":
                    t = cand(c, TRUE if v else FALSE)
                    out = t if out is None else cor(out, t)
                else:
                    t = X.with_cond(E(v), [c]) if c.const is None else (E(v) if c.const else E(0))
                    out = t if out is None else out + t
            return out if out is not None else E(0)
        return Arr([plain(s) for s in x.shape], f, dtname(x.dtype))
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return toarr(np.zeros(0))
        items = [toarr(t) for t in x]
        a0 = items[0].axes
        for t in items[1:]:
            if len(t.axes) != len(a0) or not all(ax_same(p, q) for p, q in zip(t.axes, a0)):
                raise Unsupported("ragged array")
        fs = [t.snap() for t in items]
        dt = join(*[t.dt for t in items])
        fs = [castf(f, t.dt, dt) if t.dt == "b" and dt != "b" else f for f, t in zip(fs, items)]

        def f(ix):
            c = E(ix[0]).const()
            if c is not None:
                return fs[int(c[0])](ix[1:])
            parts = [(eq(ix[0], k), fs[k](ix[1:])) for k in range(len(fs))]
            parts[-1] = (TRUE, parts[-1][1])
            return nested_ite(parts)
        return Arr((plain(len(x)),) + a0, f, dt)
    if isinstance(x, range):
        return toarr(np.array(x, dtype=int))
    if isinstance(x, SymRange):
        return Arr([plain(x.n)], lambda ix: x.lo + x.step * ix[0], "i")
    if isinstance(x, SymSeq):
        return x.stack()
    import scipy.sparse as sps
    if sps.issparse(x):
        r = toarr(x.toarray())
        r.sparse = "csr"
        return r
    raise Unsupported(f"array from {type(x).__name__}")


class SymRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = E(lo), E(hi), E(step)
        if not (self.step.isconst(1) or self.step.isconst(-1)):
            raise Unsupported("range step")
        self.n = self.hi - self.lo if self.step.isconst(1) else self.lo - self.hi

    def item(self, k):
        return mkscalar(self.lo + self.step * E(k), "i", "int")


class SymSeq:
    """python list of symbolic length: elements elem(Expr)"""
    def __init__(self, n, elem):
        self.n, self.elem = E(n), elem

    def item(self, k):
        return self.elem(E(k))

    def __len__(self):
        raise Unsupported("len outside")

    def stack(self):
        v = X.fresh_int()
        e0 = toarr(self.elem(E(v)))
        for a in e0.axes:
            if v in X.Expr.free(size(a)):
                raise Unsupported("ragged array")
        el = self.elem
        return Arr((plain(self.n),) + e0.axes, lambda ix: toarr(el(E(ix[0]))).snap()(ix[1:]), e0.dt)

    def __deepcopy__(self, memo):
        return self


class SymCat(SymSeq):
    """concatenation of lists"""
    def __init__(self, *parts):
        self.parts = [p for q in parts for p in (q.parts if isinstance(q, SymCat) else [q])]
        n = E(0)
        for p in self.parts:
            n = n + seqlen(p)
        SymSeq.__init__(self, n, self.at)

    def at(self, k):
        lo = E(0)
        for p in self.parts:
            hi = lo + seqlen(p)
            if X.implied(cand(le(lo, k), lt(k, hi))):
                if isinstance(p, SymSeq):
                    return p.item(X.simplify(k - lo))
                i = X.simplify(k - lo)
                if i.const() is None:
                    for q in range(len(p)):
                        if X.implied(eq(i, q)):
                            return p[q]
                    raise Unsupported("element of a list at a symbolic position")
                return p[int(i.const()[0])]
            lo = hi
        raise Unsupported("element of a concatenated list at an undecided position")


def seqlen(p):
    return p.n if isinstance(p, SymSeq) else E(len(p))


def issym(x):
    if isinstance(x, (Arr, Expr, Cond, SymRange, SymSeq)):
        return True
    if isinstance(x, (list, tuple)):
        return any(issym(t) for t in x)
    if isinstance(x, dict):
        return any(issym(t) for t in x.values())
    if isinstance(x, slice):
        return issym(x.start) or issym(x.stop) or issym(x.step)
    return False


# ---------------------------------------------------------------- elementwise
def divide(a, b):
    return a * X.inv(b)


def powv(a, b):
    return a ** b


def binop(a, b, op, dt):
    n = max(a.ndim, b.ndim)
    aa = (plain(1),) * (n - a.ndim) + a.axes
    bb = (plain(1),) * (n - b.ndim) + b.axes
    axes = [unify(x, y) for x, y in zip(aa, bb)]
    fa, fb = a.snap(), b.snap()
    na, nb = a.ndim, b.ndim

    def f(ix):
        va = fa(tuple(getx(x, i, t) for x, i, t in zip(a.axes, ix[n - na:], axes[n - na:])))
        vb = fb(tuple(getx(x, i, t) for x, i, t in zip(b.axes, ix[n - nb:], axes[n - nb:])))
        return op(va, vb)
    py = None
    if n == 0 and (a.py or b.py):
        py = a.py and b.py and {"b": "bool", "i": "int", "f": "float", "c": "complex"}[dt]
    return Arr(axes, memo(f), dt, py=py)


def arith(a, b, op, mindt=None):
    if foreign(a) or foreign(b):
        return NotImplemented
    a, b = toarr(a), toarr(b)
    dt = join(a.dt, b.dt, *( [mindt] if mindt else []))
    if dt == "b":
        dt = "i"
    if getattr(a, "inf", None) or getattr(b, "inf", None):
        raise Unsupported("arithmetic with infinity")
    if (a.sparse and b.ndim and not b.sparse) or (b.sparse and a.ndim and not a.sparse):
        r = binop(a, b, lambda x, y: op(numv(x), numv(y)), dt)
        return r
    if (a.sparse or b.sparse) and not (a.sparse and b.sparse):
        # sparse (op) scalar: only products and quotients
        pass
    r = binop(a, b, lambda x, y: op(numv(x), numv(y)), dt)
    r.sparse = a.sparse or b.sparse
    return r


def unary(a, op, dt=None):
    a = toarr(a)
    f = a.snap()
    return Arr(a.axes, memo(lambda ix: op(numv(f(ix)))), dt or ("f" if a.dt in "bi" else a.dt), a.sparse, a.py)


EPS = Fr(1, 10 ** 9)


def cmp_vals(x, y, op):
    """x op y with the idealisation of tiny thresholds"""
    if isinstance(x, Cond) and isinstance(y, Cond) and op in ("eq", "ne"):
        r = cor(cand(x, y), cand(cnot(x), cnot(y)))
        return r if op == "eq" else cnot(r)
    x, y = numv(x), numv(y)
    if op in ("lt", "le"):
        cy, cx = y.const(), x.const()
        if cy is not None and cx is None and 0 < abs(cy[0]) <= EPS:      # x < eps
            NOTES.add("thresholds of at most 1e-9 are treated as infinitesimal (exact zero tests)")
            if cy[0] > 0:
                return eq(x, 0) if X.nonneg(x) else nnle(x)
            return lt(x, 0)
        if cx is not None and cy is None and 0 < abs(cx[0]) <= EPS:      # eps < y
            NOTES.add("thresholds of at most 1e-9 are treated as infinitesimal (exact zero tests)")
            if cx[0] > 0:
                return cnot(eq(y, 0)) if X.nonneg(y) else lt(0, y)
            return le(0, y)
    if op == "eq":
        return zeroc(x - y)
    if op == "ne":
        return cnot(zeroc(x - y))
    return X.lit(op, x - y)


def zeroc(e):
    return eq(e, 0)


def nnle(x):
    return le(x, 0)


def infcmp(a, sgn, op, flip):
    """comparison of a (finite unless flagged extended) with +-inf"""
    def f(v):
        v = numv(v)
        ext = any("ext" in at.props for k in v.d for at, p in k[0])
        isinf = FALSE
        if ext:
            if len(v.d) != 1:
                raise Unsupported("infinity test of a compound expression")
            isinf = X.pred("isinf", [v])
        elif len(v.d) == 1:
            # c / (product of denominators) is infinite exactly when a denominator vanishes
            (k, cf), = v.d.items()
            if k[0] and not k[1] and not k[2] and not k[3] and all(at.kind == "inv" or p < 0 for at, p in k[0]):
                isinf = X.cor(*[eq(at.args[0] if at.kind == "inv" else E(at), 0) for at, p in k[0]])
        if sgn < 0:
            isinf = FALSE
        if op == "eq":
            return isinf
        if op == "ne":
            return cnot(isinf)
        raise Unsupported("order comparison with infinity")
    return unary_c(a, f)


def unary_c(a, op):
    a = toarr(a)
    f = a.snap()
    return Arr(a.axes, memo(lambda ix: op(f(ix))), "b", py="bool" if a.py else None)


def compare(a, b, op, flip=False):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return (op == "ne")
    if foreign(a) or foreign(b):
        return NotImplemented
    a, b = toarr(a), toarr(b)
    if getattr(b, "inf", None):
        return infcmp(a, b.inf, op, flip)
    if getattr(a, "inf", None):
        return infcmp(b, a.inf, op, flip)
    r = binop(a, b, lambda x, y: cmp_vals(x, y, op), "b")
    if (a.sparse or b.sparse):
        r.sparse = "csr"
    return r


def logical(a, b, op):
    a, b = toarr(a), toarr(b)
    return binop(a, b, lambda x, y: op(tocond(x), tocond(y)), "b")


# ---------------------------------------------------------------- reductions
def npsum(a, axis=None):
    a = toarr(a)
    f = a.snap()
    dt = "i" if a.dt == "b" else a.dt
    if axis is None:
        v = sum_axes(a.axes, lambda ix: numv(f(ix)))
        r = mkscalar(v, dt)
        if a.dt == "b":
            r.counted = Arr(a.axes, f, "b")      # a number of true entries
        return r
    axs = [axis] if not isinstance(axis, (tuple, list)) else list(axis)
    axs = sorted(int(x) % a.ndim for x in axs)
    keep = [i for i in range(a.ndim) if i not in axs]

    def g(ix):
        def full(s):
            out = [None] * a.ndim
            for k, i in enumerate(keep):
                out[i] = ix[k]
            for k, i in enumerate(axs):
                out[i] = s[k]
            return tuple(out)
        return sum_axes(tuple(a.axes[i] for i in axs), lambda s: numv(f(full(s))))
    r = Arr([a.axes[i] for i in keep], memo(g), dt)
    if a.sparse:
        # np.matrix result: keeps two dimensions
        if keep == [1]:
            h = r.snap()
            r = Arr([plain(1), a.axes[1]], lambda ix: h((ix[1],)), dt)
        elif keep == [0]:
            h = r.snap()
            r = Arr([a.axes[0], plain(1)], lambda ix: h((ix[0],)), dt)
        r.matrix = True
    return r


def extremum(a, which, axis=None):
    a = toarr(a)
    if axis is not None:
        raise Unsupported("extremum along an axis")
    f = a.snap()
    if len(a.axes) == 1 and a.axes[0].kind == "cat":
        r = None
        for k, s in enumerate(a.axes[0].subs):
            if not X.implied(lt(0, size(s))):
                raise Unsupported("extremum over a part that may be empty")
            v = numv(extremum(Arr([s], lambda ix, k=k: f(((k, ix[0]),)), a.dt), which).item())
            r = v if r is None else ite(le(r, v) if which == "min" else le(v, r), r, v)
        return mkscalar(r, a.dt)
    if all(x.kind == "plain" and x.n.const() is not None for x in a.axes):
        n = [int(x.n.const()[0]) for x in a.axes]
        vals = [numv(f(tuple(E(i) for i in p))) for p in itertools.product(*[range(k) for k in n])]
        if not vals:
            raise Raised("ValueError", "zero-size array to reduction operation")
        r = vals[0]
        for v in vals[1:]:
            r = ite(le(r, v) if which == "min" else le(v, r), r, v)
        return mkscalar(r, a.dt)
    return mkscalar(bound_extremum(a.axes, lambda ix: numv(f(ix)), which), a.dt)


def bound_extremum(axes, f, which):
    """min/max over the axes as an atom  min(body, range-indicator)  with canonically named bound symbols"""
    conds, order = [], []

    def new():
        v = X.fresh_int("mx")
        order.append(v)
        return E(v)

    def mk(a):
        if a.kind == "plain":
            v = new()
            conds.extend([le(0, v), lt(v, a.n)])
            return v
        if a.kind == "prod":
            return tuple(mk(s) for s in a.subs)
        if a.kind == "sig":
            v = new()
            conds.extend([le(0, v), lt(v, a.n)])
            return (v, mk(a.fn(v)))
        if a.kind == "sel":
            ix = tuple(mk(s) for s in a.subs)
            conds.append(a.mask(ix))
            return ix
        raise Unsupported("extremum over a concatenation")
    ix = tuple(mk(a) for a in axes)
    body = numv(f(ix))
    indic = X.indicator(cand(*conds))
    # nested min of min: merge
    if len(body.d) == 1:
        (k, v), = body.d.items()
        if v == X.ONE and len(k[0]) == 1 and k[0][0][1] == 1 and k[0][0][0].kind == "fn" and k[0][0][0].name == which and not k[2] and not k[3]:
            inner = k[0][0][0]
            ren = {}
            for s in sorted({s for x in inner.args for s in x.free() if s.name.startswith("_mi_")}, key=lambda s: s.key):
                ren[s] = new()
            body = X.subst(inner.args[0], ren)
            indic = indic * X.subst(inner.args[1], ren)
    # freeze the bound names; an extremum met inside the body keeps its own names
    used = {s.name for s in body.free() | indic.free() if s.name.startswith("_mi_")}
    off = 1 + max([int(n[4:]) for n in used], default=-1)
    fz = {s: E(X.atom("sym", f"_mi_{off + j}", (), ("int",))) for j, s in enumerate(order)}
    return X.fn(which, (X.subst(body, fz), X.subst(indic, fz)), *(("real", "int") if body.intlike() else ("real",)))


def anyall(a, isany):
    a = toarr(a)
    f = a.snap()
    if all(x.kind == "plain" and x.n.const() is not None for x in a.axes):
        n = [int(x.n.const()[0]) for x in a.axes]
        cs = [tocond(f(tuple(E(i) for i in p))) for p in itertools.product(*[range(k) for k in n])]
        return mkscalar(cor(*cs) if isany else cand(*cs), "b")
    # quantifier: decide by the solver on a generic element
    alts = fresh_index(Ax("prod", subs=a.axes))

    def under(cs, ix):
        d = X.hyp_depth()
        X.push_hyps(cs)
        try:
            return tocond(f(ix))
        finally:
            X.pop_to(d)
    alts = [(ix, cs + (instances(ix) if QUANT else [])) for ix, cs in alts]
    alts = [(under(cs, ix), cs) for ix, cs in alts]
    if isany:
        if all(not X.feasible(cs + [c]) for c, cs in alts):
            return False
        if all(X.implied(c, cs) for c, cs in alts) and X.implied(lt(0, size(Ax("prod", subs=a.axes)))):
            return True
    else:
        if all(X.implied(c, cs) for c, cs in alts):
            return True
        if all(not X.feasible(cs + [c]) for c, cs in alts) and X.implied(lt(0, size(Ax("prod", subs=a.axes)))):
            return False
        wit = [w for w in WITNESS if len(w) == len(a.axes) and all(x.kind == "plain" and X.implied(cand(le(0, i), lt(i, x.n))) for i, x in zip(w, a.axes))]
        if wit and X.implied(cor(*[cnot(tocond(f(w))) for w in wit])):
            return False
    ci = canon_index(a.axes, "e")
    rng = [cand(le(0, i), lt(i, x.n)) for i, x in zip(ci, a.axes) if x.kind == "plain"]
    b = X.pred("exists" if isany else "forall", [X.indicator(under(rng, ci))] + [size(x) for x in a.axes])
    if all(x.kind == "plain" for x in a.axes):
        QUANT[str(b)] = (list(a.axes), f, isany)
    return mkscalar(b, "b")


QUANT = {}              # quantified tests met on the way, by their literal


def instances(ix):
    """what the universally quantified facts among the hypotheses say at the given indices (in every order)"""
    out = []
    while len(ix) == 1 and isinstance(ix[0], tuple):
        ix = ix[0]
    for h in list(X.GLOBAL.hyps):
        neg = h.op == "not"
        if (h.subs[0] if neg else h).op != "atom":
            continue
        q = QUANT.get(str(h.subs[0] if neg else h))
        if q is None or q[2] != neg or len(q[0]) > len(ix):
            continue
        for p in itertools.permutations(ix, len(q[0])):
            if not all(isinstance(i, Expr) for i in p):
                continue
            rng = cand(*[cand(le(0, i), lt(i, a.n)) for i, a in zip(p, q[0])])
            v = tocond(q[1](tuple(p)))
            out.append(cor(cnot(rng), cnot(v) if neg else v))
    return out


def npsort(a):
    a = toarr(a)
    if a.ndim != 1:
        raise Unsupported("sort of a matrix")
    f = a.snap()
    ax = a.axes[0]
    return SORT[0](a, ax, f)


def default_sort(a, ax, f):
    """s(i) = a(pi(i)), pi a permutation of the positions (uninterpreted)"""
    if ax.kind != "plain":
        # only the first and the last element are known
        n = size(ax)

        def ends(ix):
            i = E(ix[0])
            if i.isconst(0) or X.implied(eq(i, 0)):
                return numv(extremum(Arr([ax], f, a.dt), "min").item())
            if X.implied(eq(i, n - 1)):
                return numv(extremum(Arr([ax], f, a.dt), "max").item())
            raise Unsupported("element of a sorted concatenation")
        return Arr([plain(n)], ends, a.dt)
    v = E(X.atom("sym", "_s", (), ("int",)))
    body = numv(f((v,)))
    nm = "pi:" + body.key + "|" + ax.n.key
    PERMS[nm] = ax.n
    return Arr([ax], lambda ix: f((X.fn(nm, (ix[0],), "int"),)), a.dt)


SORT = [default_sort]
LEX = {}                # name of a lexsort result -> (keys, length)


def lex_fact(nm, i, j):
    """what lexsort guarantees about the entries at positions i < j of its result"""
    fs, n = LEX[nm]
    p, q = (X.fn(nm, [E(k)], "int", "real", "nonneg", "injective") for k in (i, j))
    c = lt(p, q)
    for f in fs:
        a, b = numv(f((p,))), numv(f((q,)))
        c = cor(lt(a, b), cand(eq(a, b), c))
    return cand(c, lt(p, n), lt(q, n))


WITNESS = []            # index tuples named by the contract: tried as counterexamples of universally quantified tests
PERMS = {}


# ---------------------------------------------------------------- products
def npdot(a, b):
    if foreign(b):
        if toarr(a).ndim == 0:
            return b.__rmul__(toarr(a).snap()(()))
        return NotImplemented
    a, b = toarr(a), toarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return arith(a, b, lambda x, y: x * y)
    dt = join(a.dt, b.dt)
    fa, fb = a.snap(), b.snap()
    ax, bx = a.axes[-1], b.axes[0 if b.ndim == 1 else -2]
    if b.ndim > 2 or a.ndim > 2:
        raise Unsupported("dot of higher-dimensional arrays")
    if not ax_same(ax, bx):
        if ax.kind == "plain" and bx.kind == "plain" and X.implied(cnot(eq(ax.n, bx.n))):
            raise Raised("ValueError", "shapes not aligned")
        t = unify(ax, bx)
        if isone(ax) or isone(bx):
            raise Unsupported("dot with a length-one axis")
    else:
        t = ax if ax.kind != "plain" else bx

    def f(ix):
        i = ix[:a.ndim - 1]
        j = ix[a.ndim - 1:]
        return sum_axis(t, lambda k: numv(fa(i + (getx(ax, k, t),))) * numv(fb((getx(bx, k, t),) + j)))
    r = Arr(a.axes[:-1] + b.axes[1:] if b.ndim == 2 else a.axes[:-1], memo(f), dt)
    if a.sparse and b.sparse:
        r.sparse = "csr"
    return r if r.axes else mkscalar(r.val(), dt)


# ---------------------------------------------------------------- indexing
def norm_int(i, n):
    """index possibly negative"""
    i = E(i)
    c = i.const()
    if c is not None:
        nc = n.const()
        if nc is not None and not (-nc[0] <= c[0] < nc[0]):
            raise Raised("IndexError", "index out of bounds")
        return i + n if c[0] < 0 else i
    if X.implied(le(0, i)):
        return i
    if X.implied(lt(i, 0)):
        return i + n
    raise Unsupported(f"index of unknown sign {i.key}")


def norm_slice(s, ax):
    n = size(ax)
    step = 1 if s.step is None else s.step
    if s.start is None and s.stop is None and isinstance(step, int) and step == 1:
        return E(0), n, 1
    if not (isinstance(step, int) and step in (1, -1)):
        raise Unsupported("slice step")
    if step == -1:
        if s.start is not None or s.stop is not None:
            raise Unsupported("reversed slice bounds")
        return E(0), n, -1

    def b(v, d):
        if v is None:
            return d
        v = E(v)
        c = v.const()
        if c is not None and c[0] < 0:
            return n + v
        return v
    lo, hi = b(s.start, E(0)), b(s.stop, n)
    # clip
    if not X.implied(le(lo, n)):
        if X.implied(le(n, lo)):
            lo = n
        else:
            raise Unsupported("slice start beyond the end")
    if not X.implied(le(hi, n)):
        if X.implied(le(n, hi)):
            hi = n
        else:
            hi = ite(le(hi, n), hi, n)
    if not X.implied(le(0, lo)) or not X.implied(le(lo, hi)):
        if X.implied(le(hi, lo)):
            hi = lo
        elif not X.implied(le(0, lo)):
            raise Unsupported("slice bounds")
        else:
            raise Unsupported("possibly empty slice")
    return lo, hi, 1


def prefix_mask(s, ax):
    """slice 0:c where c counts the k in [0, n) with p(k), p downward closed: the slice selects exactly the k with p(k)"""
    if s.step not in (None, 1) or s.stop is None or ax.kind != "plain":
        return None
    st = E(s.start if s.start is not None else 0) if not isinstance(s.start, Arr) else s.start.expr()
    if not st.isconst(0):
        return None
    c = s.stop
    if isinstance(c, Arr):
        c = numv(c(*())) if c.ndim == 0 else None
    if not isinstance(c, Expr) or len(c.d) != 1:
        return None
    (k, v), = c.d.items()
    if v != X.ONE or k[0] or k[1] or len(k[2]) != 1:
        return None
    var, = k[2]
    n = size(ax)
    i, j = E(X.fresh_int("i")), E(X.fresh_int("i"))
    inst = lambda e: cand(*[q.subst({var: E(e)}) for q in k[3]])
    rng = lambda e: [le(0, e), lt(e, n)]
    # the range of the sum is contained in [0, n) and p is downward closed
    if X.feasible([inst(i), cor(lt(i, 0), le(n, i))]) or X.feasible(rng(j) + [lt(i, j), le(0, i), inst(j), cnot(inst(i))]):
        return None
    return Arr([ax], lambda ix: inst(ix[0]), "b")


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    if Ellipsis not in [k for k in key if not isinstance(k, (Arr, np.ndarray, list))] and None not in [k for k in key if not isinstance(k, (Arr, np.ndarray, list))]:
        for p, k in enumerate(key):
            if isinstance(k, slice) and k.stop is not None and p < len(a.axes) and all(isinstance(q, slice) for q in key):
                m = prefix_mask(k, a.axes[p])
                if m is not None:
                    key[p] = m
    nd = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, Arr) and k.dt == "b" and k.ndim > 0:
            nd += k.ndim
        elif isinstance(k, np.ndarray) and k.dtype == bool:
            nd += k.ndim
        else:
            nd += 1
    if any(k is Ellipsis for k in key):
        p = next(i for i, k in enumerate(key) if k is Ellipsis)
        key[p:p + 1] = [slice(None)] * (a.ndim - nd)
    else:
        key += [slice(None)] * (a.ndim - nd)
    if nd > a.ndim:
        raise Raised("IndexError", "too many indices for array")
    return key


def getitem(a, key):
    if a.sparse and not isinstance(key, tuple):
        key = (key,)
    key = expand_key(a, key)
    adv = [k for k in key if isinstance(k, (Arr, np.ndarray, list)) and toarr(k).ndim > 0]
    if adv:
        return advanced(a, key)
    axes, maps = [], []          # maps: function from result index to source index per source axis
    src = 0
    out = 0
    plan = []
    for k in key:
        if k is None:
            axes.append(plain(1))
            out += 1
            continue
        ax = a.axes[src]
        if isinstance(k, slice):
            lo, hi, st = norm_slice(k, ax)
            if lo.isconst(0) and st == 1 and hi.key == size(ax).key:
                axes.append(ax)
                plan.append(("id", out, None, None))
            else:
                n = hi - lo
                axes.append(plain(n) if st == 1 else ax if ax.kind == "plain" else plain(size(ax)))
                plan.append(("shift" if st == 1 else "rev", out, lo if st == 1 else hi, ax))
            out += 1
        else:
            i = norm_int(k, size(ax))
            if not (X.implied(le(0, i)) and X.implied(lt(i, size(ax)))):
                if X.implied(le(size(ax), i)):
                    raise Raised("IndexError", "index out of bounds")
                OOB.append((i, ax))
            plan.append(("int", None, i, ax))
        src += 1
    structured = any(p[3] is not None and p[3].kind != "plain" for p in plan)
    if structured:
        f = a.snap()

        def g(ix):
            def rec(j, acc_):
                if j == len(plan):
                    return f(tuple(acc_))
                kind, o, v, ax = plan[j]
                if kind == "id":
                    return rec(j + 1, acc_ + [ix[o]])
                pos = v if kind == "int" else (ix[o] + v if kind == "shift" else v - 1 - ix[o])
                return at_int(ax, pos, lambda t: rec(j + 1, acc_ + [t]))
            return rec(0, [])
        r = Arr(axes, g, a.dt, a.sparse if len(axes) == 2 else None)
        return r if axes else mkscalar(r.val(), a.dt)

    def m(ix):
        o = []
        for kind, p, v, ax in plan:
            o.append(ix[p] if kind == "id" else ix[p] + v if kind == "shift" else v - 1 - ix[p] if kind == "rev" else v)
        return tuple(o)
    if not axes:
        v = a.snap()(m(()))
        return mkscalar(v, a.dt) if not isinstance(v, Cond) else mkscalar(v)
    if a.sparse:
        # sparse indexing copies and stays two-dimensional
        f = a.snap()
        if len(axes) == 1:
            keepcol = isinstance(key[0], slice)
            if keepcol:
                return Arr([axes[0], plain(1)], lambda ix: f(m((ix[0],))), a.dt, a.sparse)
            return Arr([plain(1), axes[0]], lambda ix: f(m((ix[1],))), a.dt, a.sparse)
        return Arr(axes, lambda ix: f(m(ix)), a.dt, a.sparse)
    r = Arr(axes, None, a.dt, None)
    r.base = (a, m)
    return r


OOB = []


def advanced(a, key):
    key = [toarr(k) if isinstance(k, (Arr, np.ndarray, list)) else k for k in key]
    # single boolean mask over leading axes (others full slices)
    bools = [(i, k) for i, k in enumerate(key) if isinstance(k, Arr) and k.dt == "b"]
    ints = [(i, k) for i, k in enumerate(key) if isinstance(k, Arr) and k.dt != "b" and k.ndim > 0]
    f = a.snap()
    if len(bools) == 1 and not ints:
        pos, m = bools[0]
        if any(not (isinstance(k, slice) and k == slice(None)) for j, k in enumerate(key) if j != pos):
            raise Unsupported("mask combined with other indices")
        sub = a.axes[pos:pos + m.ndim]
        ax = [unify(x, y) for x, y in zip(sub, m.axes)]
        mf = m.snap()
        sel = Ax("sel", subs=ax, mask=lambda ix: tocond(mf(tuple(getx(y, i, t) for y, i, t in zip(m.axes, ix, ax)))))
        pre = a.axes[:pos]
        post = a.axes[pos + m.ndim:]
        r = Arr(pre + (sel,) + post, lambda ix: f(ix[:pos] + tuple(getx(y, i, t) for y, i, t in zip(sub, ix[pos], ax)) + ix[pos + 1:]), a.dt)
        return r
    if not bools and ints:
        if len(ints) == 1 and ints[0][1].ndim == 1:
            pos, k = ints[0]
            if any(not (isinstance(q, slice) and q == slice(None)) for j, q in enumerate(key) if j != pos):
                raise Unsupported("mixed advanced indexing")
            kf = k.snap()
            ax = a.axes[pos]

            def g(ix):
                i = E(kf((ix[pos],)))
                i = norm_int(i, size(ax)) if i.const() is not None else i
                return at_int(ax, i, lambda j: f(ix[:pos] + (j,) + ix[pos + 1:]))
            return Arr(a.axes[:pos] + (k.axes[0],) + a.axes[pos + 1:], g, a.dt, a.sparse)
        if len(ints) == a.ndim:
            idx = ints[0][1]
            arrs = [k for _, k in ints]
            axes = arrs[0].axes
            for k in arrs[1:]:
                axes = [unify(x, y) for x, y in zip(axes, k.axes)]
            kfs = [k.snap() for k in arrs]

            def g(ix):
                pos = [E(kf(tuple(getx(y, i, t) for y, i, t in zip(k.axes, ix, axes)))) for kf, k in zip(kfs, arrs)]

                def rec(j, acc_):
                    if j == len(pos):
                        return f(tuple(acc_))
                    return at_int(a.axes[j], pos[j], lambda t: rec(j + 1, acc_ + [t]))
                return rec(0, [])
            return Arr(axes, g, a.dt)
    raise Unsupported("advanced indexing")


def setitem(a, key, v):
    if a.sparse:
        # matrices stay two-dimensional: only a scalar, or a full row or column given as a matrix of that shape
        if a.sparse not in ("csr", "csc", "lil") or not isinstance(key, tuple) or len(key) != 2 or any(isinstance(k, (Arr, np.ndarray, list)) and toarr(k).ndim > 0 for k in key):
            raise Unsupported("assignment into a sparse matrix")
        v = toarr(v)
        ints = [n for n, k in enumerate(key) if not isinstance(k, slice)]
        if v.ndim == 2 and len(ints) == 1 and isone(v.axes[ints[0]]) and not isone(v.axes[1 - ints[0]]):
            vs, o = v.snap(), ints[0]
            v = Arr([v.axes[1 - o]], lambda ix: vs((E(0), ix[0]) if o == 0 else (ix[0], E(0))), v.dt)
        elif v.ndim != 0:
            raise Unsupported("assignment into a sparse matrix")
    if a.base is not None:
        raise Unsupported("assignment through a view")
    key = expand_key(a, key)
    key = [toarr(k) if isinstance(k, (np.ndarray, list)) else k for k in key]
    v = toarr(v)
    old = a.snap()
    if a.dt != "c" and v.dt == "c":
        if v.ndim == 0 and not all(isinstance(k, slice) for k in key):
            raise Raised("TypeError", "can't convert complex to float")
        NOTES.add("assigning complex to a real array keeps the real part")
    vf = castf(v.snap(), v.dt, a.dt) if ORDER.index(v.dt) > ORDER.index(a.dt) or v.dt == "b" else v.snap()
    bools = [k for k in key if isinstance(k, Arr) and k.dt == "b" and k.ndim > 0]
    if bools:
        if len(bools) != 1 or len(key) != 1 + a.ndim - bools[0].ndim or key[0] is not bools[0]:
            raise Unsupported("mask assignment form")
        m = bools[0]
        if any(not (isinstance(k, slice) and k == slice(None)) for k in key[1:]):
            raise Unsupported("mask assignment form")
        ax = [unify(x, y) for x, y in zip(a.axes, m.axes)]
        mf = m.snap()
        nd = m.ndim
        mask = lambda ix: tocond(mf(tuple(getx(y, i, t) for y, i, t in zip(m.axes, ix, ax))))
        if v.ndim == 0:
            a.set(lambda ix: vite(mask(ix[:nd]), vf(()), old(ix)))
            return
        sel = Ax("sel", subs=ax, mask=mask)
        if v.axes[0].kind == "sel" and ax_same(v.axes[0], sel) and v.ndim == 1 + a.ndim - nd:
            a.set(lambda ix: vite(mask(ix[:nd]), vf((ix[:nd],) + ix[nd:]), old(ix)))
            return
        raise Unsupported("mask assignment of an unrelated array")
    # basic indices; one integer array index allowed as scatter: unsupported
    plan = []
    src = 0
    outaxes = []
    for k in key:
        if k is None:
            raise Unsupported("newaxis in assignment")
        ax = a.axes[src]
        if isinstance(k, slice):
            lo, hi, st = norm_slice(k, ax)
            if st != 1:
                raise Unsupported("reversed assignment")
            whole = lo.isconst(0) and hi.key == size(ax).key
            plan.append(("slice", lo, hi, whole, len(outaxes)))
            outaxes.append(ax if whole else plain(hi - lo))
        else:
            if isinstance(k, Arr) and k.ndim > 0:
                raise Unsupported("scatter assignment")
            i = norm_int(k, size(ax))
            if not (X.implied(le(0, i)) and X.implied(lt(i, size(ax)))):
                if X.implied(le(size(ax), i)):
                    raise Raised("IndexError", "index out of bounds")
                OOB.append((i, ax))
            plan.append(("int", i, None, None, None))
        src += 1
    nout = len(outaxes)
    # drop leading length-one axes of the value
    vax = list(v.axes)
    lead = 0
    while len(vax) - lead > nout and isone(vax[lead]):
        lead += 1
    vv = vax[lead:]
    if len(vv) > nout:
        one = nout == 0 and all(isone(x) for x in vv)
        if not one:
            raise Raised("ValueError", "could not broadcast input array")
        lead = len(vax)
        vv = []
    tgt = outaxes[nout - len(vv):]
    for x, t in zip(vv, tgt):
        u = unify(x, t)
        if isone(t) and not isone(u):
            raise Raised("ValueError", "could not broadcast input array")

    def f(ix):
        cs, pos = [], [None] * nout
        for (kind, p, q, whole, o), i, ax in zip(plan, ix, a.axes):
            if kind == "int":
                cs.append(eq(lin(ax, i), p))
            elif whole:
                pos[o] = i
            else:
                li = lin(ax, i)
                cs += [le(p, li), lt(li, q)]
                pos[o] = li - p
        c = cand(*cs)
        if c.const is False:
            return old(ix)
        c = COUNT_RULE[0](c) if COUNT_RULE[0] else c
        vi = tuple([E(0)] * lead)

        def place(done, todo):
            if not todo:
                return vf(done)
            (x, p, t), rest = todo[0], todo[1:]
            if x.kind != "plain" and t.kind == "plain" and not isone(x):
                return at_int(x, p, lambda j: place(done + (j,), rest))
            return place(done + (getx(x, p, t),), rest)
        nv = place(vi, list(zip(vv, pos[nout - len(vv):], tgt)))
        if c.const is True:
            return nv
        return vite(c, nv, old(ix))
    a.set(f)


COUNT_RULE = [None]
