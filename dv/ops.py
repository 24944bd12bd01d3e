"""Many-body operators on a chain of L tensor factors of dimension d (symbolic L; d symbolic or a number).

Kron : elementary tensor  coef * m_1^(x n_1) (x) m_2^(x n_2) (x) ...   (symbolic repetition numbers), the value of code building
       matrices with kron/eye.
Op   : linear combination of words in one-site operators W(fmt, m; p) (local matrix m at position p; fmt "fermion": parity string on
       all later positions), projectors and other named operators; the value of code that uses get_single_site_op/get_two_site_op
       through their contracts (proved on Kron values in property C01).
"""
import numpy as np
from . import expr as X
from . import sym as S
from . import numeric as N
from .expr import E, Expr, Unsupported, cand, cor, cnot, eq, le, lt
from .sym import Arr, Raised, toarr, mkscalar, numv

MODE = {"kind": None}     # kind: None | "kron" | "op";  d, L


def kron_mode(d):
    def f(I):
        from . import symnp
        MODE.update(kind="kron", d=E(d))
        symnp.ALWAYS.update(("sp.kron", "np.kron", "sp.eye", "sp.identity"))
    return f


def op_mode(d, n, s):
    """chain of n sites for each of s species (position n * species + site), local dimension d"""
    return lambda I: MODE.update(kind="op", d=E(d), n=E(n), L=E(n) * E(s))


class Foreign:
    is_symbolic_operator = True
    dtype = complex
    format = "coo"
    ndim = 2

    def same(self):
        return self

    def _id(self, *a, **k):
        return self
    tocsr = tocsc = tocoo = copy = asformat = asfptype = toarray = todense = tolil = todia = _id

    @property
    def A(self):
        return self

    def eliminate_zeros(self):
        return None

    def sum_duplicates(self):
        return None

    def __deepcopy__(self, memo):
        return self

    def __matmul__(self, o):
        return self.dot(o)

    def __rmatmul__(self, o):
        return lift(o, self).dot(self)

    def __iadd__(self, o):
        return self + o


def isscalar(o):
    return isinstance(o, (int, float, complex, np.number, Expr)) or (isinstance(o, Arr) and o.ndim == 0) or (isinstance(o, np.ndarray) and o.ndim == 0)


def sval(o):
    return E(o) if not isinstance(o, np.ndarray) else E(o.item())


# ---------------------------------------------------------------- local matrices
def local(m):
    """local matrix as an Arr"""
    if isinstance(m, Arr):
        return m
    if hasattr(m, "toarray"):
        m = m.toarray()
    return toarr(np.asarray(m))


def small(m):
    """entries as a dict if the dimensions are numbers"""
    a, b = m.axes
    ca, cb = S.size(a).const(), S.size(b).const()
    if ca is None or cb is None or ca[0] > 8:
        return None
    return {(i, j): numv(m(E(i), E(j))) for i in range(int(ca[0])) for j in range(int(cb[0]))}


def mat_same(a, b):
    if a is b:
        return True
    if a is None or b is None:       # identity
        m = a if b is None else b
        return mat_is(m, lambda i, j: X.indicator(eq(i, j)))
    if not X.iszero(S.size(a.axes[0]) - S.size(b.axes[0])):
        return False
    return mat_is(a, lambda i, j: numv(b(i, j)))


def mat_is(a, f):
    s = small(a)
    if s is not None:
        return all(X.iszero(v - E(f(E(i), E(j)))) for (i, j), v in s.items())
    (i, ci), = S.fresh_index(a.axes[0])
    (j, cj), = S.fresh_index(a.axes[1])
    d = X.hyp_depth()
    X.push_hyps(ci + cj)
    try:
        return X.iszero(numv(a(i, j)) - E(f(i, j)))
    finally:
        X.pop_to(d)


def mat_dot(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return S.npdot(a, b)


def mat_sub(a, env):
    from .loops import subst_value
    return a if a is None else subst_value(a, env)


def mat_num(a, d, env):
    if a is None:
        return np.eye(d)
    return np.array([[complex(N.val(numv(a(E(i), E(j))), env)) for j in range(d)] for i in range(d)])


# ---------------------------------------------------------------- Kron
class Kron(Foreign):
    def __init__(self, segs, coef=1, d=None):
        self.segs = [(m, E(n)) for m, n in segs if not E(n).isconst(0)]
        self.coef = E(coef)
        self.d = d if d is not None else MODE["d"]
        self.tag = None

    def length(self):
        r = E(0)
        for m, n in self.segs:
            r = r + n
        return r

    @property
    def shape(self):
        z = mkscalar(X.power(self.d, self.length()), "i", "int")
        return (z, z)

    def subst(self, env):
        return Kron([(m if isinstance(m, str) else mat_sub(m, env), X.subst(n, env)) for m, n in self.segs], X.subst(self.coef, env), self.d)

    def __mul__(self, o):
        if isscalar(o):
            return Kron(self.segs, self.coef * sval(o), self.d)
        return self.dot(o)

    def __rmul__(self, o):
        if isscalar(o):
            return Kron(self.segs, self.coef * sval(o), self.d)
        return lift(o, self).dot(self)

    def __neg__(self):
        return Kron(self.segs, -self.coef, self.d)

    def __truediv__(self, o):
        return Kron(self.segs, self.coef / sval(o), self.d)

    def iszero(self):
        return X.iszero(self.coef) or any(m is not None and not isinstance(m, str) and n.isconst(1) and mat_is(m, lambda i, j: E(0)) for m, n in self.segs)

    def __add__(self, o):
        if isscalar(o):
            if X.iszero(sval(o)):
                return self
            raise Raised("NotImplementedError", "adding a nonzero scalar to a sparse matrix is not supported")
        o = lift(o, self)
        if not X.iszero(self.length() - o.length()):
            raise Unsupported("shapes of a sum not shown to agree")
        out, diff = [], 0
        for a, b, n in align(self, o):
            if mat_same(a, b):
                out.append((a, n))
                continue
            diff += 1
            if not n.isconst(1) or diff > 1:
                raise Unsupported("sum of tensor products")
            one = lambda m: m if m is not None else toarr(np.eye(int(self.d.const()[0])))
            out.append((one(a) * mkscalar(self.coef) + one(b) * mkscalar(o.coef), n))
        return Kron(out, 1 if diff else self.coef + o.coef, self.d)
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-lift(o, self))

    def kron(self, o):
        return Kron(self.segs + o.segs, self.coef * o.coef, self.d)

    def transpose(self, *a):
        return Kron([(None if m is None else m.transpose(), n) for m, n in self.segs], self.coef, self.d)
    T = property(transpose)

    def conj(self):
        return Kron([(None if m is None else m.conj(), n) for m, n in self.segs], X.conj(self.coef), self.d)
    conjugate = conj

    def getH(self):
        return self.conj().transpose()
    H = property(getH)

    def dot(self, o):
        o = lift(o, self)
        out = []
        for a, b, n in align(self, o):
            out.append((mat_dot(a, b), n))
        return Kron(out, self.coef * o.coef, self.d)

    def differences(self, o):
        """list of aligned segment pairs that differ, None if the lengths differ"""
        if not X.iszero(self.length() - o.length()):
            return None
        return [(a, b, n) for a, b, n in align(self, o) if not mat_same(a, b)]

    def equals(self, o, sign=1):
        try:
            df = self.differences(o)
        except Unsupported as e:
            return str(e)
        if df is not None and (self.iszero() and o.iszero()):
            return None
        if df is None:
            return f"length {self.length()} instead of {o.length()}"
        if not df:
            return None if X.iszero(self.coef - sign * o.coef) else f"coefficient {self.coef} instead of {sign * o.coef}"
        if len(df) == 1 and df[0][2].isconst(1) and df[0][0] is not None and df[0][1] is not None:
            a, b, n = df[0]
            c = self.coef * sign
            if mat_is(a, lambda i, j: numv(b(i, j)) * o.coef * X.inv(self.coef) * sign):
                return None
        return "tensor factors differ: " + "; ".join(f"{show(a)} instead of {show(b)} (repeated {n})" for a, b, n in df[:3])

    def dense(self, env):
        d = int(round(N.val(self.d, env)))
        r = np.array([[complex(N.val(self.coef, env))]])
        for m, n in self.segs:
            if isinstance(m, str):
                raise Unsupported("placeholder")
            k = int(round(N.val(n, env)))
            if k < 0:
                raise Unsupported("negative length")
            x = mat_num(m, d, env)
            for _ in range(k):
                r = np.kron(r, x)
        return r

    # ---- loops
    def placeholder(self, tag):
        r = Kron([("X:" + tag, X.sym("len" + tag, "int", "nonneg"))], 1, self.d)
        return r

    def close(self, tag, x0, vals, v, n):
        if len(vals) != 1:
            raise Unsupported("conditional tensor product in a loop")
        x = vals[0][1]
        x0 = lift(x0, self)
        name = "X:" + tag
        ks = [i for i, (m, k) in enumerate(x.segs) if m is not None and isinstance(m, str) and m == name]
        if len(ks) != 1 or any(isinstance(m, str) for i, (m, k) in enumerate(x.segs) if i != ks[0]):
            raise Unsupported("loop is not a repeated tensor product")
        pre, post = x.segs[:ks[0]], x.segs[ks[0] + 1:]
        if v in x.coef.free() or any(v in k.free() for m, k in pre + post):
            raise Unsupported("tensor factor depends on the iteration")
        out = []
        for part in (pre, post):
            if len(part) > 1:
                raise Unsupported("several tensor factors per iteration")
            for m, k in part:
                if m is not None:
                    z = mat_sub(m, {v: E(X.fresh_int("q"))})
                    if not mat_same(m, z):
                        raise Unsupported("tensor factor depends on the iteration")
            out.append([(m, k * n) for m, k in part])
        if not x.coef.isconst(1):
            raise Unsupported("scaled tensor product in a loop")
        return Kron(out[0] + x0.segs + out[1], x0.coef, self.d)


def show(m):
    if m is None:
        return "1"
    s = small(m)
    return str({k: str(v)[:60] for k, v in s.items()} if s else "matrix")[:200]


def align(a, b):
    """common refinement of the two segmentations -> [(ma, mb, n)]"""
    A, B = [list(x) for x in a.segs], [list(x) for x in b.segs]
    out = []
    while True:
        while A and X.iszero(A[0][1]):
            A.pop(0)
        while B and X.iszero(B[0][1]):
            B.pop(0)
        if not A and not B:
            return out
        if not A or not B:
            # remaining lengths must be zero
            rest = A or B
            tot = E(0)
            for m, n in rest:
                tot = tot + n
            if X.implied(eq(tot, 0)):
                return out
            raise Unsupported("tensor lengths differ")
        na, nb = A[0][1], B[0][1]
        if isinstance(A[0][0], str) or isinstance(B[0][0], str):
            raise Unsupported("placeholder in a product")
        if X.iszero(na - nb):
            out.append((A[0][0], B[0][0], na)); A.pop(0); B.pop(0)
        elif X.implied(le(na, nb)):
            out.append((A[0][0], B[0][0], na)); A.pop(0); B[0][1] = X.simplify(nb - na)
        elif X.implied(le(nb, na)):
            out.append((A[0][0], B[0][0], nb)); B.pop(0); A[0][1] = X.simplify(na - nb)
        else:
            raise Unsupported(f"tensor segments cannot be aligned: lengths {na} and {nb}")


def logd(n, d):
    """k with n = d^k"""
    n = E(n)
    if n.isconst(1):
        return E(0)
    if len(n.d) != 1:
        raise Unsupported("matrix size is not a power of the local dimension")
    (k, v), = n.d.items()
    if k[1] or k[2] or k[3] or v[1] != 0:
        raise Unsupported("matrix size is not a power of the local dimension")
    r = E(0)
    c = v[0]
    dc = d.const()
    if dc is not None:
        dd = int(dc[0])
        while c >= dd:
            c = c / dd
            r = r + 1
        while 0 < c < 1:
            c = c * dd
            r = r - 1
    if c != 1:
        raise Unsupported("matrix size is not a power of the local dimension")
    for a, p in k[0]:
        if a.kind == "pow" and a.args[0].key == d.key:
            r = r + a.args[1] * p
        elif E(a).key == d.key:
            r = r + p
        elif a.kind == "inv" and a.args[0].key == d.key:
            r = r - p
        else:
            raise Unsupported("matrix size is not a power of the local dimension")
    return r


def tensor(x):
    """value as Kron"""
    if isinstance(x, Kron):
        return x
    d = MODE["d"]
    if isscalar(x):
        return Kron([], sval(x), d)
    m = local(x)
    if m.ndim != 2:
        raise Unsupported("tensor factor")
    n = S.size(m.axes[0])
    if n.isconst(1) and S.size(m.axes[1]).isconst(1):
        return Kron([], numv(m(E(0), E(0))), d)
    if X.iszero(n - d) and X.iszero(S.size(m.axes[1]) - d):
        return Kron([(m, 1)], 1, d)
    raise Unsupported("tensor factor of another dimension")


def eye_kron(n):
    k = logd(n, MODE["d"])
    if not X.implied(le(0, k)):
        S.OOB.append((k, S.plain(1)))
    return Kron([(None, k)])


def lift(o, like):
    if isinstance(o, Foreign):
        return o
    if isinstance(like, Kron):
        return tensor(o)
    if isinstance(o, Op):
        return o
    raise Unsupported("operator expected")


# ---------------------------------------------------------------- Op
INFO = {}        # word atom name -> (fmt, local matrix, d, L)


def W(fmt, m, site, species=0):
    """one-site operator with local matrix m at (site, species)"""
    return X.word(letter(fmt, local(m), (E(site), E(species))))


def letter(fmt, m, args):
    return X.atom("op", name_of(fmt, m), tuple(args), ())


def name_of(fmt, m):
    s = small(m)
    if s is not None:
        key = ";".join(X.simplify(s[k]).key for k in sorted(s))
    else:
        ix = [X.sym("_w1", "int"), X.sym("_w2", "int")]
        key = X.simplify(numv(m(*ix))).key
    nm = f"W|{fmt}|{key}"
    INFO[nm] = (fmt, m, MODE["d"], MODE["L"], MODE["n"])
    return nm


def adj_of(a):
    fmt, m = INFO[a.name][:2]
    return letter(fmt, m.conj().transpose(), a.args)


X.ADJ["W|"] = adj_of


def callee_contracts(c):
    """get_single_site_op / get_two_site_op are used through their contracts (proved under C01)"""
    def pos(I, o, site, species):
        n, s = E(I.getattr(I.getattr(o, "geometry"), "nsites")), E(I.getattr(o, "nspecies"))
        i, a = E(site), E(species)
        pre = cand(le(0, i), lt(i, n), le(0, a), lt(a, s))
        if not X.implied(pre):
            S.OOB.append((f"precondition of the callee: 0 <= {i} < {n}, 0 <= {a} < {s}", S.plain(n)))
        return i, a

    def dims(I, o):
        d = E(I.getattr(o, "nbasis"))
        if not X.iszero(d - MODE["d"]):
            raise Unsupported("local dimension")
        D = X.power(MODE["d"], MODE["L"])
        return D

    def chk(m, fmt):
        m = local(m)
        if m.ndim != 2 or not X.iszero(S.size(m.axes[0]) - MODE["d"]) or not X.iszero(S.size(m.axes[1]) - MODE["d"]):
            raise Unsupported("local operator of another dimension")
        if fmt not in ("fermion", "boson"):
            raise Raised("Exception", "format")
        return m

    def one(I, fn, a):
        o, i, sp_, m, f = list(a.values())[:5]
        D = dims(I, o)
        return Op(W(f, chk(m, f), *pos(I, o, i, sp_)), D, D)

    def two(I, fn, a):
        o, i, s1, j, s2, m1, m2, f = list(a.values())[:8]
        p, q = pos(I, o, i, s1), pos(I, o, j, s2)
        D = dims(I, o)
        return Op(W(f, chk(m1, f), *p) * W(f, chk(m2, f), *q), D, D)
    c.stubs["ed_base.ed_base.get_single_site_op"] = one
    c.stubs["ed_base.ed_base.get_two_site_op"] = two


class Op(Foreign):
    def __init__(self, e, rows, cols, pend=""):
        self.e, self.rows, self.cols, self.pend = E(e), E(rows), E(cols), pend
        self.tag = None

    @property
    def shape(self):
        r, c = (self.rows, self.cols) if "t" not in self.pend else (self.cols, self.rows)
        return (mkscalar(r, "i", "int"), mkscalar(c, "i", "int"))

    def flat(self):
        if self.pend:
            raise Unsupported("conjugate or transpose alone of an operator")
        return self

    def _p(self, c):
        p = "".join(sorted(set(self.pend) ^ {c}))
        if p == "ct":
            return Op(X.conj(self.e), self.cols, self.rows)
        return Op(self.e, self.rows, self.cols, p)

    def conj(self, *a, **k):
        return self._p("c")
    conjugate = conj

    def transpose(self, *a, **k):
        return self._p("t")
    T = property(transpose)

    def getH(self):
        return self._p("c")._p("t")
    H = property(getH)

    def subst(self, env):
        return Op(X.subst(self.e, env), X.subst(self.rows, env), X.subst(self.cols, env), self.pend)

    def add(self, o, s):
        self.flat()
        if isscalar(o):
            if X.iszero(sval(o)):
                return self
            raise Raised("NotImplementedError", "adding a nonzero scalar to a sparse matrix is not supported")
        if not isinstance(o, Op):
            raise Unsupported("operator sum")
        o.flat()
        if not (X.iszero(self.rows - o.rows) and X.iszero(self.cols - o.cols)):
            raise Unsupported("shapes of an operator sum not shown to agree")
        return Op(self.e + (o.e if s > 0 else -o.e), self.rows, self.cols)

    def __add__(self, o):
        return self.add(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self.add(o, -1)

    def __rsub__(self, o):
        return (-self).add(o, 1)

    def __neg__(self):
        return Op(-self.e, self.rows, self.cols, self.pend)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if isscalar(o):
            if self.pend:
                raise Unsupported("conjugate or transpose alone of an operator")
            return Op(self.e * sval(o), self.rows, self.cols)
        return self.dot(o)

    def __rmul__(self, o):
        if isscalar(o):
            return self * o
        raise Unsupported("operator product")

    def __truediv__(self, o):
        if not isscalar(o):
            raise Unsupported("operator quotient")
        return Op(self.e / sval(o), self.rows, self.cols, self.pend)

    def dot(self, o):
        if isscalar(o):
            return self * o
        if not isinstance(o, Op):
            raise Unsupported("operator times array")
        if self.pend or o.pend:
            raise Unsupported("conjugate or transpose alone of an operator")
        if not X.iszero(self.cols - o.rows):
            raise Unsupported("shapes of an operator product not shown to agree")
        return Op(self.e * o.e, self.rows, o.cols)

    def equals(self, o):
        if not (X.iszero(self.rows - o.rows) and X.iszero(self.cols - o.cols)):
            return f"shape {self.rows} x {self.cols} instead of {o.rows} x {o.cols}"
        d = self.flat().e - o.flat().e
        if X.iszero(d):
            return None
        d2 = normal(d)
        if X.iszero(d2):
            return None
        return f"difference {str(X.simplify(d2))[:400]} not shown to vanish"

    # ---- loops
    def placeholder(self, tag):
        return Op(X.word(X.atom("op", tag, (), ())), self.rows, self.cols)

    def close(self, tag, x0, vals, v, n):
        xa = X.word(X.atom("op", tag, (), ()))
        x0 = zero_or(x0, self)
        dd = E(0)
        tot = E(0)
        for c, x in vals:
            if not isinstance(x, Op):
                raise Unsupported("operator variable changes type in a loop")
            t = x.flat().e
            t = X.with_cond(t, [c]) if c.const is None else t if c.const else E(0)
            dd = dd + t
        # coefficient of the accumulator must be one
        px, rest = E(0), E(0)
        from .loops import mentions
        for k, c in dd.d.items():
            hit = [a for a in k[1] if a.name == tag]
            if hit:
                if len(k[1]) != 1 or k[0] or k[2] or any(mentions(q, tag) for q in k[3]):
                    raise Unsupported("operator product accumulated in a loop")
                px = px + Expr({((), (), X.NIL, k[3]): c})
            else:
                rest = rest + Expr({k: c})
        dep = X.hyp_depth()
        X.push_hyps([le(0, E(v)), lt(E(v), n)])
        try:
            if not X.iszero(px - 1):
                raise Unsupported("operator accumulated conditionally in a loop")
            rest = X.simplify(rest)
        finally:
            X.pop_to(dep)
        if mentions(rest, tag):
            raise Unsupported("operator accumulated nonlinearly in a loop")
        return Op(x0.e + X.sum_over(rest, v, E(0), n), self.rows, self.cols)

    def dense(self, env):
        return opval(self.e, env, self.rows, self.cols)


def zero_or(x, like):
    if isinstance(x, Op):
        return x.flat()
    if isscalar(x) and X.iszero(sval(x)):
        return Op(E(0), like.rows, like.cols)
    raise Unsupported("operator accumulator starts from a nonzero scalar")


def opval(e, env, rows, cols):
    r, c = int(round(N.val(E(rows), env))), int(round(N.val(E(cols), env)))
    tot = np.zeros((r, c), complex)
    for k, v in e.d.items():
        co = complex(float(v[0]), float(v[1]))

        def body():
            for cc in k[3]:
                if not N.cond(cc, env):
                    return 0
            z = co
            for a, p in k[0]:
                z = z * N.atomval(a, env) ** p
            m = None
            for a in k[1]:
                x = wordval(a, env)
                m = x if m is None else m @ x
            return z * (m if m is not None else np.eye(r, c))
        tot = tot + N.loop_over(k, body, env)
    return tot


def wordval(a, env):
    nm = a.name
    if nm in INFO:
        fmt, m, d, L, n = INFO[nm]
        d, L, n = int(round(N.val(d, env))), int(round(N.val(L, env))), int(round(N.val(n, env)))
        p = n * int(round(N.val(a.args[1], env))) + int(round(N.val(a.args[0], env)))
        if not 0 <= p < L:
            raise Unsupported("position out of range")
        x = mat_num(m, d, env)
        t = np.diag([1., -1.]) if fmt == "fermion" else np.eye(d)
        r = np.kron(np.eye(d ** p), x)
        for _ in range(L - p - 1):
            r = np.kron(r, t)
        return r
    if nm in env.ops:
        return env.ops[nm]
    if nm.endswith("~") and nm[:-1] in env.ops:
        return env.ops[nm[:-1]].conj().T
    raise Unsupported("word " + nm)


def samepos(a, b):
    return all(x.key == y.key for x, y in zip(a.args, b.args))


def delta(a, b):
    return X.indicator(cand(*[eq(x, y) for x, y in zip(a.args, b.args)]))


def normal(e):
    """merge neighbouring one-site operators at the same position:  W_f(A)W_f(B) = W_b(AB),  W_b W_b = W_b,  W_f(A)W_b(B) = W_f(AB)"""
    out = E(0)
    for k, v in e.d.items():
        w = list(k[1])
        i = 0
        while i + 1 < len(w):
            a, b = w[i], w[i + 1]
            if a.name in INFO and b.name in INFO and samepos(a, b):
                fa, ma = INFO[a.name][:2]
                fb, mb = INFO[b.name][:2]
                w[i:i + 2] = [letter("boson" if fa == fb else "fermion", S.npdot(ma, mb), a.args)]
                i = max(0, i - 1)
            elif a.name in INFO and b.name in INFO and INFO[a.name][0] == INFO[b.name][0] == "boson" and b.key < a.key and diagonal(INFO[a.name][1]) and diagonal(INFO[b.name][1]):
                w[i:i + 2] = [b, a]
                i = max(0, i - 1)
            elif a.name in INFO and b.name in INFO and INFO[a.name][0] == INFO[b.name][0] == "boson" and b.key < a.key and apart(a, b, k[3]):
                w[i:i + 2] = [b, a]
                i = max(0, i - 1)
            else:
                i += 1
        out = out + Expr({(k[0], tuple(w), k[2], k[3]): v})
    return out


def apart(a, b, conds):
    """the positions differ under the conditions of the term"""
    return not X.feasible(list(conds) + [eq(x, y) for x, y in zip(a.args, b.args)])


def diagonal(m):
    s = small(m)
    return s is not None and all(X.iszero(v) for (i, j), v in s.items() if i != j)


def commutator(A, H):
    """[A, H] for A a combination of single diagonal bosonic letters:  [B_p, w1 w2 ...] = sum_m w1 .. [B_p, w_m] ..,
    [B_p, C_q] = delta_pq W(fmt of C, BC - CB)_q  (B is even, so it commutes with every parity string)"""
    out = E(0)
    for k1, v1 in A.d.items():
        if len(k1[1]) != 1 or k1[1][0].name not in INFO:
            raise Unsupported("commutator")
        fb, mb = INFO[k1[1][0].name][:2]
        if fb != "boson" or not diagonal(mb):
            raise Unsupported("commutator of a non-diagonal operator")
        for k2, v2 in H.d.items():
            if any(a.name not in INFO for a in k2[1]):
                raise Unsupported("commutator with another operator")
            for m, a in enumerate(k2[1]):
                fa, ma = INFO[a.name][:2]
                cm = S.npdot(mb, ma) - S.npdot(ma, mb)
                if mat_is(cm, lambda i, j: E(0)):
                    continue
                s1 = small(cm)
                # proportional to the letter itself: keep the letter
                base = small(ma)
                fac = None
                for q in (1, -1):
                    if all(X.iszero(s1[i] - q * base[i]) for i in s1):
                        fac = q
                w = k2[1][:m] + ((a,) if fac else (letter(fa, cm, a.args),)) + k2[1][m + 1:]
                t1 = Expr({(k1[0], (), k1[2], k1[3]): v1})
                t2 = Expr({(k2[0], w, k2[2], k2[3]): v2}) * E(fac or 1)
                if k1[2] & k2[2]:
                    raise Unsupported("bound variables clash")
                d = delta(k1[1][0], a)
                prod = {}
                # all three factors share the bound variables: multiply keys directly
                for kd, vd in d.d.items():
                    r = X.kmul((k1[0], (), X.NIL, k1[3] | kd[3]), (k2[0], w, X.NIL, k2[3]))
                    r = Expr({r: X.ONE}) if isinstance(r, tuple) else r
                    for kk, vv in r.d.items():
                        X.acc(prod, (kk[0], kk[1], kk[2] | k1[2] | k2[2], kk[3]), X.cmul(vv, X.cmul(X.cmul(v1, v2), X.cmul(vd, (X.Fr(fac or 1), X.Fr(0))))))
                out = out + Expr(prod)
    return out


def car(e):
    """normal order of words in fermionic letters c, cdag (bosonic n = cdag c): creation operators first, each kind in key order"""
    c, cd = local(np.array([[0, 1], [0, 0]])), local(np.array([[0, 0], [1, 0]]))
    nc, nd, nn = name_of("fermion", c), name_of("fermion", cd), name_of("boson", local(np.array([[0, 0], [0, 1]])))
    out = E(0)
    for k, v in e.d.items():
        w = []
        for a in k[1]:
            if a.name == nn:
                w += [X.atom("op", nd, a.args, ()), X.atom("op", nc, a.args, ())]
            elif a.name in (nc, nd):
                w.append(a)
            else:
                raise Unsupported("operator outside the fermion algebra")
        work = [(E(1), w)]
        head = Expr({(k[0], (), k[2], k[3]): v})
        if k[2]:
            raise Unsupported("normal order under a sum")
        while work:
            f, w = work.pop()
            for i in range(len(w) - 1):
                a, b = w[i], w[i + 1]
                if a.name == nc and b.name == nd:
                    dl = delta(a, b)
                    if dl.d:
                        work.append((f * dl, w[:i] + w[i + 2:]))
                    work.append((-f, w[:i] + [b, a] + w[i + 2:]))
                    break
                if a.name == b.name and samepos(a, b):
                    break
                if a.name == b.name and b.key < a.key:
                    work.append((-f, w[:i] + [b, a] + w[i + 2:]))
                    break
            else:
                t = f
                for a in w:
                    t = t * X.word(a)
                out = out + head * t
    return X.simplify(out)


# ---------------------------------------------------------------- library functions in operator modes
def install(TABLE):
    base = {k: TABLE.get(k) for k in ("sp.eye", "np.eye", "sp.csr_matrix", "sp.csc_matrix", "sp.coo_matrix", "sp.lil_matrix")}

    def eye(which):
        def f(n, m=None, *a, **k):
            if MODE["kind"] == "kron":
                if m is not None and not X.iszero(E(m) - E(n)):
                    raise Unsupported("rectangular eye")
                return eye_kron(n)
            if MODE["kind"] == "op" and is_big(n):
                return Op(E(1), n, n)
            if MODE["kind"] == "group" and X.iszero(E(n) - MODE["n"]):
                return MODE["one"]
            return base[which](n, m, *a, **k)
        return f

    def spm(which):
        def f(a, *r, **k):
            if MODE["kind"] == "op" and isinstance(a, tuple) and len(a) == 2 and not isinstance(a[1], (tuple, list)) and not r and "shape" not in k and (is_big(a[0])):
                return Op(E(0), a[0], a[1])
            if MODE["kind"] == "kron" and isscalar(a):
                return Kron([], sval(a))
            return base[which](a, *r, **k)
        return f
    TABLE["sp.eye"] = TABLE["sp.identity"] = TABLE["sp.eye_array"] = eye("sp.eye")
    for w in ("sp.csr_matrix", "sp.csc_matrix", "sp.coo_matrix", "sp.lil_matrix"):
        TABLE[w] = spm(w)

    def kron(sparse):
        def f(a, b, format=None, **k):
            if MODE["kind"] != "kron":
                from .symnp import array_kron
                return array_kron(a, b, sparse)
            return tensor(a).kron(tensor(b))
        return f
    TABLE["sp.kron"] = kron(True)
    TABLE["np.kron"] = kron(False)


def is_big(n):
    """is n a dimension of the many-body space or of a projected space"""
    n = E(n)
    if n.const() is not None:
        return False
    return True


# ---------------------------------------------------------------- local expansion of words at named positions
def units(e, positions):
    """coefficients of a combination of bosonic words in the product basis of matrix units at the given (distinct) positions;
    every letter must be at one of the positions (args keys)"""
    d = int(MODE["d"].const()[0])
    keys = [tuple(x.key for x in p) for p in positions]
    out = {}
    for k, v in e.d.items():
        if k[2]:
            raise Unsupported("sum of words")
        loc = [None] * len(keys)
        for a in k[1]:
            if a.name not in INFO or INFO[a.name][0] != "boson":
                raise Unsupported("word outside the local algebra")
            q = tuple(x.key for x in a.args)
            if q not in keys:
                raise Unsupported("letter at another position")
            i = keys.index(q)
            loc[i] = mat_dot(loc[i], INFO[a.name][1])
        ms = [small(m) if m is not None else {(i, j): E(1 if i == j else 0) for i in range(d) for j in range(d)} for m in loc]
        head = Expr({(k[0], (), k[2], k[3]): v})
        work = [((), head)]
        for m in ms:
            work = [(t + (ij,), h * x) for t, h in work for ij, x in m.items() if x.d]
        for t, h in work:
            out[t] = out.get(t, E(0)) + h
    return out


def same_units(a, b, positions):
    return all(X.iszero(x) for x in units(a.flat().e - b.flat().e, positions).values())


# ---------------------------------------------------------------- unitary operators that permute the modes
class Perm(Foreign):
    """product of unitaries each known by how it permutes the modes (site, species): U a_(x,k) U+ = a_(act(x,k),k)"""
    ELEMENTS = None          # () -> [(x, k, hypotheses)]: the modes, case by case
    INVARIANTS = []          # (factors of the loop body, iteration variable, n) -> act after m iterations, or None

    def __init__(self, factors):
        self.factors = list(factors)
        self.tag = None

    shape = property(lambda self: (X_dim(), X_dim()))

    def __mul__(self, o):
        if isscalar(o):
            if X.iszero(sval(o) - 1):
                return self
            raise Unsupported("multiple of a permutation operator")
        if not isinstance(o, Perm):
            raise Unsupported("product with another operator")
        return Perm(self.factors + o.factors)
    dot = __mul__

    def __rmul__(self, o):
        if isscalar(o) and X.iszero(sval(o) - 1):
            return self
        raise Unsupported("multiple of a permutation operator")

    def act(self, x, k, prune=True):
        """[(condition, mode)]: where the mode (x, k) is sent"""
        cases = [(X.TRUE, x)]
        for f in reversed(self.factors):
            cases = [(cand(c, c2), z) for c, y in cases for c2, z in f(y, k) if not prune or X.feasible([cand(c, c2)])]
        return cases

    def subst(self, env):
        return Perm([sub_act(f, env) for f in self.factors])

    def placeholder(self, tag):
        return Perm([Tag(tag)])

    def close(self, tag, x0, vals, v, n):
        base = Perm([]) if isscalar(x0) and X.iszero(sval(x0) - 1) else x0
        if not isinstance(base, Perm) or not all(isinstance(x, Perm) for c, x in vals):
            raise Unsupported("permutation operator changes type in a loop")
        for c, x in vals:
            if len([f for f in x.factors if isinstance(f, Tag)]) != 1:
                raise Unsupported("permutation operator not accumulated once")
        left = right = []
        if all(isinstance(x.factors[-1], Tag) for c, x in vals):
            base, right = Perm([]), base.factors         # (product of the loop) * x0
        elif all(isinstance(x.factors[0], Tag) for c, x in vals):
            base, left = Perm([]), base.factors
        errs = []
        for mk in Perm.INVARIANTS:
            inv = mk(vals, v, n)
            if inv is None:
                continue
            why = self.inductive(inv, base, vals, v, n)
            if why is None:
                return Perm(left + [lambda x, k: inv(x, k, n)] + right)
            errs.append(why)
        raise Unsupported("no loop invariant established: " + "; ".join(errs))

    def inductive(self, inv, base, vals, v, n):
        for x, k, hy in Perm.ELEMENTS():
            dep = X.hyp_depth()
            X.push_hyps(hy)
            try:
                if not same_cases(inv(x, k, E(0)), base.act(x, k)):
                    return "not true initially"
                X.push_hyps([le(0, E(v)), lt(E(v), n)])
                for c, b in vals:
                    b2 = Perm([(lambda x, k: inv(x, k, E(v))) if isinstance(f, Tag) else f for f in b.factors])
                    d2 = X.hyp_depth()
                    X.push_hyps([c])
                    try:
                        if X.feasible([]) and not same_cases(b2.act(x, k), inv(x, k, E(v) + 1)):
                            return "not preserved"
                    finally:
                        X.pop_to(d2)
            finally:
                X.pop_to(dep)
        return None


def same_cases(p, q):
    for c1, a in p:
        for c2, b in q:
            if X.feasible([c1, c2, cnot(eq(a, b))]):
                return False
    return True


class Tag:
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, x, k):
        raise Unsupported("placeholder applied")


def X_dim():
    return mkscalar(X.power(MODE["d"], MODE["L"]), "i", "int")


def sub_act(f, env):
    if isinstance(f, Tag):
        return f
    if isinstance(f, Transposition):
        return Transposition(*[X.subst(q, env) for q in (f.i, f.j, f.k)])
    raise Unsupported("substitution in a permutation operator")


class Transposition:
    def __init__(self, i, j, k):
        self.i, self.j, self.k = E(i), E(j), E(k)

    def __call__(self, x, k):
        a, b, o = eq(x, self.i), eq(x, self.j), eq(k, self.k)
        return [(cand(o, a), self.j), (cand(o, cnot(a), b), self.i), (cor(cnot(o), cand(cnot(a), cnot(b))), x)]


def swap_contract(c, qual):
    """get_swap_op used through its contract (proved separately): a unitary exchanging the modes (i, k) and (j, k)"""
    def f(I, fn, a):
        o, i, j, k = (list(a.values()) + [0])[:4]
        n, s = E(I.getattr(I.getattr(o, "geometry"), "nsites")), E(I.getattr(o, "nspecies"))
        i, j, k = E(i), E(j), E(k)
        pre = cand(le(0, i), lt(i, n), le(0, j), lt(j, n), le(0, k), lt(k, s), cnot(eq(i, j)))
        if not X.implied(pre):
            S.OOB.append((f"precondition of the callee: distinct sites {i}, {j} of {n}, species {k} of {s}", S.plain(n)))
        return Perm([Transposition(i, j, k)])
    c.stubs[qual] = f
