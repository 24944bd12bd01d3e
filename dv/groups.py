"""Operators that represent a finite group (formal elements of the group algebra) and the reduction to orthonormal rows.

GA      : linear combination of group elements (the value of code that multiplies and adds operators known only to satisfy the
          relations of the group); abs() of a single element keeps only which element it was.
The reduction of sum_g conj(chi(g)) g to orthonormal rows (ed_symmetry.reduce_symm_projector) is used through its contract: the rows
returned span the row space; the ranks of a complete orthogonal family of central idempotents add up to the dimension.
"""
import itertools
import numpy as np
from . import expr as X, sym as S
from .expr import E, Unsupported
from .ops import Foreign, isscalar, MODE
from .sym import mkscalar


class Group:
    def __init__(self, name, elements, mul, gens):
        self.name, self.elements, self.mul, self.gens = name, elements, mul, gens
        self.one = next(e for e in elements if all(mul(e, g) == g for g in elements))
        self.inverse = {g: next(h for h in elements if mul(g, h) == self.one) for g in elements}
        left, self.classes = set(elements), []
        for g in elements:
            if g in left:
                c = {mul(mul(h, g), self.inverse[h]) for h in elements}
                self.classes.append(c)
                left -= c

    def closed(self):
        """the multiplication is associative and the generators generate the group (sanity of the specification itself)"""
        m = self.mul
        els = self.elements
        if len(els) <= 16 and not all(m(m(a, b), c) == m(a, m(b, c)) for a in els for b in els for c in els):
            return False
        if len(els) > 16 and not all(m(m(a, b), c) == m(a, m(b, c)) for a in self.gens.values() for b in els for c in els):
            return False
        seen, todo = {self.one}, [self.one]
        while todo:
            x = todo.pop()
            for g in self.gens.values():
                y = m(x, g)
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen == set(els)


def dihedral(n):
    els = [(k, s) for s in (0, 1) for k in range(n)]
    return Group(f"D{n}", els, lambda a, b: ((a[0] + (b[0] if a[1] == 0 else -b[0])) % n, (a[1] + b[1]) % 2), {"rot": (1, 0), "refl": (0, 1)})


def square33():
    """translations of the 3x3 torus with the point group of the square; the reflection inverts the first direction"""
    def act(k, s, v):
        x, y = v
        if s:
            x = -x
        for _ in range(k):
            x, y = -y, x
        return x % 3, y % 3

    def mul(a, b):
        x, y, k, s = a
        u, w, l, t = b
        p, q = act(k, s, (u, w))
        return ((x + p) % 3, (y + q) % 3, (k + (l if s == 0 else -l)) % 4, (s + t) % 2)
    els = [(x, y, k, s) for x in range(3) for y in range(3) for k in range(4) for s in range(2)]
    return Group("3x3 torus with the point group of the square", els, mul, {"rot": (0, 0, 1, 0), "refl": (0, 0, 0, 1), "tx": (1, 0, 0, 0), "ty": (0, 1, 0, 0)})


def cyclic(n):
    return Group(f"Z{n}", list(range(n)), lambda a, b: (a + b) % n, {"t": 1 % n})


def number(o):
    if isinstance(o, (int, float, complex, np.number)):
        return complex(o)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return complex(o.item())
    e = E(o)
    c = e.const()
    if c is None:
        raise Unsupported("group algebra element with a symbolic coefficient")
    return complex(float(c[0]), float(c[1]))


class GA(Foreign):
    __array_ufunc__ = None
    __array_priority__ = 1e9

    def __init__(self, G, coef, dim, ab=False):
        self.G, self.c, self.dim, self.ab = G, {k: v for k, v in coef.items() if v != 0}, E(dim), ab

    @property
    def shape(self):
        z = mkscalar(self.dim, "i", "int")
        return (z, z)

    def __abs__(self):
        if self.ab:
            return self
        if len(self.c) != 1:
            raise Unsupported("absolute value of a sum of group elements")
        return GA(self.G, {k: abs(v) for k, v in self.c.items()}, self.dim, True)

    def mix(self, o):
        if not isinstance(o, GA) or o.G is not self.G or o.ab != self.ab:
            raise Unsupported("operators of different kinds combined")

    def __add__(self, o):
        if isscalar(o):
            if number(o) == 0:
                return self
            raise Unsupported("number added to an operator")
        self.mix(o)
        d = dict(self.c)
        for k, v in o.c.items():
            d[k] = d.get(k, 0) + v
        return GA(self.G, d, self.dim, self.ab)
    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isscalar(o):
            x = number(o)
            return GA(self.G, {k: v * x for k, v in self.c.items()}, self.dim, self.ab)
        self.mix(o)
        if self.ab:
            raise Unsupported("product of absolute values")
        d = {}
        for a, x in self.c.items():
            for b, y in o.c.items():
                k = self.G.mul(a, b)
                d[k] = d.get(k, 0) + x * y
        return GA(self.G, d, self.dim)
    dot = __mul__

    def __rmul__(self, o):
        if isscalar(o):
            return self * o
        raise Unsupported("operator product")

    def __truediv__(self, o):
        return self * (1 / number(o))

    def __pow__(self, k):
        if self.ab:
            raise Unsupported("power of an absolute value")
        x = number(k)
        if x.imag or x.real != int(x.real) or x.real < 0:
            raise Unsupported("power of an operator")
        r = GA(self.G, {self.G.one: 1}, self.dim)
        for _ in range(int(x.real)):
            r = r * self
        return r

    def getH(self):
        """the operators are unitary"""
        if self.ab:
            raise Unsupported("adjoint of an absolute value")
        return GA(self.G, {self.G.inverse[k]: np.conj(v) for k, v in self.c.items()}, self.dim)
    H = property(getH)


def vec(G, c):
    return np.array([c.get(g, 0) for g in G.elements], complex)


def near(a, b, tol=1e-9):
    return np.max(np.abs(a - b), initial=0) <= tol


class Capture:
    """contract of reduce_symm_projector for an operator family: records the arguments, returns a matrix of orthonormal rows"""
    def __init__(self, G, dim):
        self.G, self.dim = G, E(dim)

    def reset(self):
        self.calls = []

    def stub(self, I, fn, loc):
        p, d, rel = (loc[k] for k in ("p_full", "dim", "states_related_by_symm"))
        if not isinstance(p, GA) or p.ab:
            raise Unsupported("projector is not a combination of group elements")
        if not isinstance(rel, GA) or not rel.ab:
            raise Unsupported("matrix of related states is not a sum of absolute values")
        self.calls.append((p, number(d), rel))
        k = len(self.calls)
        rank = X.sym(f"rank{k}", "int", "real", "nonneg")
        if self.complete():
            rank = self.dim
            for j in range(1, k):
                rank = rank - X.sym(f"rank{j}", "int", "real", "nonneg")
        return Rows(k - 1, rank, self.dim)

    def idempotents(self):
        return [p * (number(d) / len(self.G.elements)) for p, d, rel in self.calls]

    def complete(self):
        """sum of the idempotents is the identity and they are orthogonal"""
        es = self.idempotents()
        if not near(sum(vec(self.G, e.c) for e in es), vec(self.G, {self.G.one: 1})):
            return False
        return all(near(vec(self.G, (a * b).c), vec(self.G, a.c) if i == j else 0 * vec(self.G, a.c)) for i, a in enumerate(es) for j, b in enumerate(es))

    def checks(self, documented=None):
        """the conditions of the property on the recorded arguments -> list of (name, bool)"""
        G, es = self.G, self.idempotents()
        cls = all(near(np.array([p.c.get(g, 0) for g in c]), np.array([p.c.get(next(iter(c)), 0)] * len(c))) for p, d, rel in self.calls for c in G.classes)
        out = [("specification: group", G.closed()),
               ("one projector per irreducible representation", len(es) == len(G.classes)),
               ("constant on conjugacy classes", cls),
               ("orthogonal idempotents resolving the identity", self.complete()),
               ("dimension of the representation", all(abs(d - p.c.get(G.one, 0)) < 1e-9 and abs(d - round(d.real)) < 1e-9 and d.real >= 1 for p, d, rel in self.calls) and abs(sum(d * d for p, d, rel in self.calls) - len(G.elements)) < 1e-6),
               ("states related by any element are kept together", all(all(rel.c.get(g, 0).real > 0 for g in G.elements) for p, d, rel in self.calls))]
        if documented is not None:
            ok = len(documented) == len(self.calls) and all(near(vec(G, p.c), np.array([np.conj(ch(g)) for g in G.elements])) for ch, (p, d, rel) in zip(documented, self.calls))
            out.append(("documented order of the representations", ok))
        return out


class Rows(Foreign):
    """orthonormal rows spanning the row space of the k-th argument"""
    __array_ufunc__ = None

    def __init__(self, k, rows, cols):
        self.k, self.rows, self.cols = k, E(rows), E(cols)

    @property
    def shape(self):
        return (mkscalar(self.rows, "i", "int"), mkscalar(self.cols, "i", "int"))


class Power(Foreign):
    """power of the generator of a cyclic group (symbolic exponent)"""
    __array_ufunc__ = None

    def __init__(self, e, dim):
        self.e, self.dim = E(e), E(dim)

    @property
    def shape(self):
        z = mkscalar(self.dim, "i", "int")
        return (z, z)

    def __pow__(self, k):
        return Power(self.e * E(k), self.dim)

    def __mul__(self, o):
        if not isinstance(o, Power):
            raise Unsupported("operator of another kind")
        return Power(self.e + o.e, self.dim)
    dot = __mul__

    def __rmul__(self, o):
        raise Unsupported("operator of another kind")


# ---- rows returned by getZnProjectors, used through its contract: R R^dagger = 1 and R^dagger R = gram (an element of the group algebra)
def torus(n1, n2):
    return Group(f"Z{n1}xZ{n2}", [(a, b) for a in range(n1) for b in range(n2)], lambda a, b: ((a[0] + b[0]) % n1, (a[1] + b[1]) % n2), {"t1": (1 % n1, 0), "t2": (0, 1 % n2)})


def same(a, b):
    return near(vec(a.G, a.c), vec(b.G, b.c))


class Iso(Foreign):
    """orthonormal rows; base None: R with R^dagger R = gram; base R0: S with S^dagger S = R0 gram R0^dagger, acting on the space of the rows of R0"""
    __array_ufunc__ = None

    def __init__(self, gram, rows, cols, base=None, conj=False, tran=False, size=None, label=None):
        self.gram, self.rows, self.cols, self.base, self.cj, self.tr, self.sz, self.label = gram, E(rows), E(cols), base, conj, tran, size, label

    def but(self, **k):
        d = dict(gram=self.gram, rows=self.rows, cols=self.cols, base=self.base, conj=self.cj, tran=self.tr, size=self.sz, label=self.label)
        d.update(k)
        return Iso(**d)

    def one(self, o):
        """the same rows (the matrix itself, not its adjoint)"""
        return isinstance(o, Iso) and o.base is self.base and o.label == self.label and not o.cj and not o.tr

    def conj(self):
        return self.but(conj=not self.cj)
    conjugate = conj

    def transpose(self):
        return self.but(tran=not self.tr)
    T = property(transpose)

    def getH(self):
        return self.but(conj=not self.cj, tran=not self.tr)
    H = property(getH)

    def tocsr(self, *a, **k):
        return self
    copy = tocsr

    @property
    def shape(self):
        s = (mkscalar(self.rows, "i", "int"), mkscalar(self.cols, "i", "int"))
        return s[::-1] if self.tr else s

    @property
    def size(self):
        return self.sz if self.sz is not None else mkscalar(X.sym("stored" + str(self.label), "int", "real", "nonneg"), "i", "int")
    nnz = size

    def __mul__(self, o):
        if self.cj or self.tr:
            raise Unsupported("product with an adjoint on the left")
        if isinstance(o, GA) and not o.ab and self.base is None:
            return Pushed(self, o)
        if isinstance(o, Iso) and self.base is not None and self.base.one(o):
            return Iso(self.gram, self.rows, o.cols, None, size=self.sz, label=("product", self.label))
        raise Unsupported("product of rows with another operator")
    dot = __mul__
    __matmul__ = __mul__

    def __rmul__(self, o):
        if isscalar(o) and number(o) == 1:
            return self
        raise Unsupported("multiple of rows")


class Pushed(Foreign):
    """R x"""
    __array_ufunc__ = None

    def __init__(self, R, x):
        self.R, self.x = R, x

    def __mul__(self, o):
        if isinstance(o, GA) and not o.ab:
            return Pushed(self.R, self.x * o)
        if isinstance(o, Iso) and o.cj and o.tr and self.R.one(o.getH()):
            return Corner(self.R, self.R.gram * self.x * self.R.gram)
        raise Unsupported("product of rows with another operator")
    dot = __mul__
    __matmul__ = __mul__

    def __rmul__(self, o):
        raise Unsupported("operator of another kind")


class Corner(Foreign):
    """R x R^dagger, x = gram x gram"""
    __array_ufunc__ = None

    def __init__(self, R, x):
        self.R, self.x = R, x

    @property
    def shape(self):
        z = mkscalar(self.R.rows, "i", "int")
        return (z, z)

    def tocsr(self, *a, **k):
        return self

    def __mul__(self, o):
        if isinstance(o, Corner) and o.R is self.R:
            return Corner(self.R, self.x * o.x)
        raise Unsupported("product of rows with another operator")
    dot = __mul__
    __matmul__ = __mul__

    def __rmul__(self, o):
        raise Unsupported("operator of another kind")


def zn_stub(group, dim, bad, empty):
    """contract of getZnProjectors(T, n): requires T^n = 1; n families of rows, the k-th with gram (1/n) sum_l conj(chi_k(l)) T^l, and the wave vectors 2 pi k / n"""
    count = [0]

    def stub(I, fn, loc):
        t, n = loc["xform_op"], loc["n_xforms"]
        if isinstance(n, S.Arr) or int(n) != n:
            raise Unsupported("order of a cyclic group")
        n = int(n)
        if isinstance(t, GA) and not t.ab:
            R, x, unit, total = None, t, GA(group, {group.one: 1}, dim), E(dim)
        elif isinstance(t, Corner):
            R, x, unit, total = t.R, t.x, t.R.gram, t.R.rows
        else:
            raise Unsupported("translation of another kind")
        powers = [unit]
        for l in range(1, n):
            powers.append(powers[-1] * x)
        if not same(powers[-1] * x, unit):
            bad.append("getZnProjectors is called with an operator whose n-th power is not one")
        out, left = [], total
        for k in range(n):
            g = powers[0] * (1. / n)
            for l in range(1, n):
                g = g + powers[l] * (np.exp(2j * np.pi * k * l / n) / n)
            count[0] += 1
            r = X.sym(f"rank{count[0]}", "int", "real", "nonneg") if k < n - 1 else left
            left = left - r
            lab = (R.label, k) if R is not None else k
            out.append(Iso(g, r, total, R, size=0 if R is not None and lab in empty else mkscalar(X.sym(f"stored{count[0]}", "int", "real", "pos", "nonneg", "nz"), "i", "int"), label=lab))
        return out, 2 * np.pi * np.arange(n) / n
    return stub, count
