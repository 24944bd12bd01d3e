"""Symbolic values: finite sums  coef * monomial * operator-word  over bound integer variables, under conditions.

An Expr denotes an exact complex number (or operator) for every value of its free symbols; machine floats are treated as
exact reals.  Expr.d : {(mono, word, binders, cond): (re, im)} with
  mono    : sorted tuple of (Atom, power)           commutative factors
  word    : tuple of Atom                           non-commutative operator factors
  binders : frozenset of Atom (bound integer vars)  the term is summed over all integers; ranges live in cond
  cond    : frozenset of Cond                       the term counts only where all conditions hold
"""
from fractions import Fraction as Fr
import os, itertools, shutil, subprocess, sys, time
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


_ids = itertools.count()
_atoms = {}


class Atom:
    """kind: 'sym' | 'fn' | 'exp' | 'inv' | 'sqrt' | 'abs' | 'floor' | 'op' ..."""
    __slots__ = ("kind", "name", "args", "props", "key", "depth", "_conj", "_hash")

    def __repr__(self):
        return self.key

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    @property
    def real(self):
        return "real" in self.props

    @property
    def isint(self):
        return "int" in self.props


def atom(kind, name, args=(), props=()):
    props = frozenset(props)
    if "int" in props or "nonneg" in props or "pos" in props:
        props = props | {"real"}
    if "pos" in props:
        props = props | {"nonneg"}
    key = kind + ":" + name + ("(" + ",".join(a.key for a in args) + ")" if args else "") + ("" if kind in ("sym",) and not props else "")
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind, a.name, a.args, a.props, a.key = kind, name, tuple(args), props, key
    a.depth = max([x.depth for x in args], default=0)
    a._conj = None
    a._hash = hash(key)
    _atoms[key] = a
    return a


# ---------------------------------------------------------------- coefficients
def cmul(a, b):
    if a[1] == 0 and b[1] == 0:
        return (a[0] * b[0], Fr(0))
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cinv(a):
    n = a[0] * a[0] + a[1] * a[1]
    return (a[0] / n, -a[1] / n)


ONE = (Fr(1), Fr(0))
NIL = frozenset()


def num(x):
    if isinstance(x, bool):
        return (Fr(int(x)), Fr(0))
    if isinstance(x, (int, Fr)):
        return (Fr(x), Fr(0))
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant in arithmetic")
        if abs(x - 3.141592653589793) < 1e-15:
            return None
        return (Fr(repr(x)), Fr(0))
    if isinstance(x, complex):
        return (Fr(repr(x.real)), Fr(repr(x.imag)))
    raise Unsupported(f"not a number: {type(x)}")


class Expr:
    __slots__ = ("d", "_key", "_depth")

    def __init__(self, d):
        self.d = d
        self._key = None
        self._depth = None

    # ---- keys
    @property
    def key(self):
        if self._key is None:
            c = canon(self)
            self._key = "+".join(sorted(f"{v[0]}{'' if v[1] == 0 else ',' + str(v[1]) + 'i'}*{skey(k)}" for k, v in c.d.items())) or "0"
        return self._key

    @property
    def depth(self):
        if self._depth is None:
            self._depth = max([tdepth(k) for k in self.d], default=0)
        return self._depth

    def __repr__(self):
        return self.key

    def __hash__(self):
        return hash(self.key)

    def same(self, o):
        return self.key == o.key

    # ---- arithmetic
    def __add__(self, o):
        o = E(o)
        if not self.d:
            return o
        d = dict(self.d)
        for k, v in o.d.items():
            w = d.get(k)
            if w is None:
                d[k] = v
            else:
                s = (w[0] + v[0], w[1] + v[1])
                if s[0] == 0 and s[1] == 0:
                    del d[k]
                else:
                    d[k] = s
        return Expr(d)
    __radd__ = __add__

    def __neg__(self):
        return Expr({k: (-v[0], -v[1]) for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-E(o))

    def __rsub__(self, o):
        return E(o) - self

    def scale(self, c):
        if c[0] == 0 and c[1] == 0:
            return Expr({})
        return Expr({k: cmul(v, c) for k, v in self.d.items()})

    def __mul__(self, o):
        o = E(o)
        if len(o.d) == 1 and TRIV in o.d:
            return self.scale(o.d[TRIV])
        if len(self.d) == 1 and TRIV in self.d:
            return o.scale(self.d[TRIV])
        out = {}
        for k1, v1 in self.d.items():
            for k2, v2 in o.d.items():
                kk2 = k2
                if k1[2] and (k1[2] & k2[2]):
                    kk2, f2 = rename_key(k2, {b: fresh_int() for b in k2[2] if b in k1[2]})
                    v2 = cmul(v2, f2)
                r = kmul(k1, kk2)
                c = cmul(v1, v2)
                if isinstance(r, tuple):
                    acc(out, r, c)
                else:
                    for k, v in r.d.items():
                        acc(out, k, cmul(v, c))
        return Expr(out)

    def __rmul__(self, o):
        return E(o) * self

    def __pow__(self, n):
        if isinstance(n, Expr):
            c = n.const()
            if c is not None and c[1] == 0 and c[0].denominator == 1:
                n = int(c[0])
            elif c is not None and c == (Fr(1, 2), Fr(0)):
                return sqrt(self)
            else:
                return power(self, n)
        if isinstance(n, float):
            if n == int(n):
                n = int(n)
            elif n == .5:
                return sqrt(self)
            else:
                raise Unsupported("power")
        if n < 0:
            return inv(self) ** (-n)
        r = E(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __truediv__(self, o):
        return self * inv(E(o))

    def __rtruediv__(self, o):
        return E(o) * inv(self)

    def const(self):
        """constant value or None"""
        if not self.d:
            return (Fr(0), Fr(0))
        if len(self.d) == 1 and TRIV in self.d:
            return self.d[TRIV]
        return None

    def isconst(self, v):
        return self.const() == (Fr(v), Fr(0))

    def free(self):
        s = set()
        for k in self.d:
            s |= kfree(k)
        return s

    def intlike(self):
        return all(v[1] == 0 and v[0].denominator == 1 and not k[1] and all(a.isint and p > 0 for a, p in k[0]) for k, v in self.d.items())


TRIV = ((), (), NIL, NIL)


def acc(d, k, v):
    w = d.get(k)
    if w is None:
        if v[0] != 0 or v[1] != 0:
            d[k] = v
    else:
        s = (w[0] + v[0], w[1] + v[1])
        if s[0] == 0 and s[1] == 0:
            del d[k]
        else:
            d[k] = s


def E(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, Atom):
        return Expr({(((x, 1),), (), NIL, NIL): ONE})
    if hasattr(x, "as_expr"):
        return x.as_expr()
    if isinstance(x, Cond):
        return indicator(x)
    try:
        import numpy as np
        if isinstance(x, np.generic):
            x = x.item()
        elif isinstance(x, np.ndarray) and x.ndim == 0:
            x = x.item()
    except ImportError:
        pass
    if isinstance(x, str):
        raise Unsupported("string in arithmetic")
    c = num(x)
    if c is None:
        return PI if x > 0 else -PI
    if c[0] == 0 and c[1] == 0:
        return Expr({})
    return Expr({TRIV: c})


def sym(name, *props):
    return E(atom("sym", name, (), props))


def fresh_real(base="x"):
    return sym(f"{base}{next(_ids)}", "real")


def fresh_int(base="k"):
    return atom("sym", f"_{base}{next(_ids)}", (), ("int",))


def fn(name, args, *props):
    return E(mkfn("fn", name, tuple(E(a) for a in args), props))


def mkfn(kind, name, args, props):
    if "symmetric" in props and len(args) >= 2:
        a, b = args[0], args[1]
        if b.key < a.key:
            args = (b, a) + tuple(args[2:])
    return atom(kind, name, args, props)


def tdepth(k):
    m = 0
    for a, _ in k[0]:
        m = max(m, a.depth)
    for a in k[1]:
        m = max(m, a.depth)
    for c in k[3]:
        m = max(m, c.depth)
    return m + (1 if k[2] else 0)


def skey(k):
    s = "*".join(a.key + ("" if p == 1 else f"^{p}") for a, p in k[0])
    if k[1]:
        s += "<" + ".".join(a.key for a in k[1]) + ">"
    if k[3]:
        s += "[" + "&".join(sorted(c.key for c in k[3])) + "]"
    if k[2]:
        s += "S{" + ",".join(sorted(a.key for a in k[2])) + "}"
    return s


def kfree(k):
    s = set()
    for a, _ in k[0]:
        s |= afree(a)
    for a in k[1]:
        s |= afree(a)
    for c in k[3]:
        s |= c.free()
    return s - k[2]


_afree = {}


def afree(a):
    r = _afree.get(a)
    if r is None:
        r = {a} if a.kind == "sym" else set()
        for x in a.args:
            r |= x.free()
        _afree[a] = r = frozenset(r)
    return r


# ---------------------------------------------------------------- products of monomials
SPECIAL = ("exp", "sqrt", "abs", "inv")


def kmul(k1, k2):
    """product of two summand keys (binders disjoint); returns key or Expr"""
    word = k1[1] + k2[1]
    cond = k1[3] | k2[3] if k2[3] else k1[3]
    if any(c.const is False for c in cond):
        return Expr({})
    cond = frozenset(c for c in cond if c.const is None)
    b = k1[2] | k2[2]
    if not k1[0]:
        return (k2[0], word, b, cond)
    if not k2[0]:
        return (k1[0], word, b, cond)
    m = dict(k1[0])
    exps = [a for a in m if a.kind == "exp"]
    extra = None
    for a, p in k2[0]:
        if a.kind == "exp" and exps:
            arg = a.args[0]
            for e in exps:
                arg = arg + e.args[0]
                del m[e]
            exps = []
            ee = exp(arg)
            extra = ee if extra is None else extra * ee
            continue
        q = m.get(a, 0) + p
        if q == 0:
            m.pop(a, None)
        else:
            m[a] = q
    for a in list(m):
        p = m[a]
        if a.kind == "sqrt" and abs(p) >= 2:
            h = p // 2 if p > 0 else -((-p) // 2)
            r = p - 2 * h
            if r:
                m[a] = r
            else:
                del m[a]
            f = a.args[0] ** h
            extra = f if extra is None else extra * f
        elif a.kind == "abs" and abs(p) >= 2:
            h = p // 2 if p > 0 else -((-p) // 2)
            r = p - 2 * h
            if r:
                m[a] = r
            else:
                del m[a]
            f = (a.args[0] * conj(a.args[0])) ** h
            extra = f if extra is None else extra * f
        elif a.kind == "inv" and p < 0:
            del m[a]
            f = a.args[0] ** (-p)
            extra = f if extra is None else extra * f
    pw = [a for a in m if a.kind == "pow" and a.args[0].const() is not None and "pos" in a.props]
    if len(pw) > 1 or (pw and abs(m[pw[0]]) != 1):
        for base in {a.args[0].key: a.args[0] for a in pw}.values():
            same = [a for a in pw if a.args[0].key == base.key]
            if len(same) > 1 or abs(m[same[0]]) != 1:
                n = E(0)
                for a in same:
                    n = n + a.args[1] * m.pop(a)
                f = power(base, n)
                extra = f if extra is None else extra * f
    key = (tuple(sorted(m.items(), key=lambda t: t[0].key)), word, b, cond)
    if extra is None:
        return key
    return Expr({key: ONE}) * extra


# ---------------------------------------------------------------- substitution
def subst(e, env):
    """capture-free substitution of symbols; env: {Atom: Expr}"""
    if not env or not e.d:
        return e
    out = Expr({})
    plain = {}
    for k, v in e.d.items():
        fr = kfree(k)
        hit = {a: x for a, x in env.items() if a in fr}
        if not hit:
            acc(plain, k, v)
            continue
        if k[2]:
            incoming = set()
            for x in hit.values():
                incoming |= x.free()
            clash = {b: fresh_int() for b in k[2] if b in incoming}
            if clash:
                k, f2 = rename_key(k, clash)
                v = cmul(v, f2)
        t = Expr({TRIV: v})
        for a, p in k[0]:
            t = t * (subst_atom(a, hit) ** p)
        for a in k[1]:
            t = t * subst_word(a, hit)
        cs = []
        dead = False
        for c in k[3]:
            c2 = c.subst(hit)
            if c2.const is False:
                dead = True
                break
            if c2.const is None:
                cs.append(c2)
        if dead:
            continue
        t = with_cond(t, cs)
        if k[2]:
            t = Expr({(kk[0], kk[1], kk[2] | k[2], kk[3]): vv for kk, vv in t.d.items()})
        out = out + t
    return out + Expr(plain)


def with_cond(t, cs):
    cs = frozenset(x for c in cs for x in flat_and(c))
    if not cs:
        return t
    d = {}
    for k, v in t.d.items():
        acc(d, (k[0], k[1], k[2], k[3] | cs), v)
    return Expr(d)


def subst_atom(a, env):
    if a.kind == "sym":
        return env.get(a, None) if a in env else E(a)
    if not any(x in afree(a) for x in env):
        return E(a)
    args = tuple(subst(x, env) for x in a.args)
    return rebuild(a, args)


def subst_word(a, env):
    if not any(x in afree(a) for x in env):
        return word(a)
    args = tuple(subst(x, env) for x in a.args)
    return piecewise_args(lambda *z: word(mkfn(a.kind, a.name, z, a.props)), args)


def rebuild(a, args):
    if a.kind == "exp":
        return exp(args[0])
    if a.kind == "inv":
        return inv(args[0])
    if a.kind == "sqrt":
        return sqrt(args[0])
    if a.kind == "abs":
        return absv(args[0])
    if a.kind == "floor":
        return floor(args[0])
    if a.kind == "pow":
        return power(args[0], args[1])
    if a.kind == "fn" and a.name == "arg2":
        return arg2(*args)
    if a.kind == "fn" and a.name in ("min", "max") and len(args) == 2:      # the second argument binds the names of the first
        return E(mkfn("fn", a.name, args, a.props))
    if a.kind == "fn":
        return piecewise_args(lambda *z: E(mkfn("fn", a.name, z, a.props)), args)
    raise Unsupported(a.kind)


def replace_fn(e, name, f):
    """replace every atom name(args) by f(args)"""
    e = E(e)
    out = Expr({})
    for k, v in e.d.items():
        if not _key_mentions(k, name):
            out = out + Expr({k: v})
            continue
        if k[1]:
            raise Unsupported("replacement inside an operator word")
        t = Expr({TRIV: v})
        for a, p in k[0]:
            t = t * (_replace_atom(a, name, f) ** p)
        t = with_cond(t, [_replace_cond(c, name, f) for c in k[3]])
        if k[2]:
            t = Expr({(kk[0], kk[1], kk[2] | k[2], kk[3]): vv for kk, vv in t.d.items()})
        out = out + t
    return out


def _key_mentions(k, name):
    def am(a):
        return (a.kind == "fn" and a.name == name) or any(any(_key_mentions(q, name) for q in x.d) for x in a.args if isinstance(x, Expr))
    return any(am(a) for a, p in k[0]) or any(am(a) for a in k[1]) or any(_cond_mentions(c, name) for c in k[3])


def _cond_mentions(c, name):
    return any(any(_key_mentions(q, name) for q in x.d) for x in (c.e or ())) or any(_cond_mentions(x, name) for x in (c.subs or ()))


def _replace_atom(a, name, f):
    args = [replace_fn(x, name, f) if isinstance(x, Expr) else x for x in a.args]
    if a.kind == "fn" and a.name == name:
        return f(*args)
    if all(x is y or (isinstance(x, Expr) and x.key == y.key) for x, y in zip(args, a.args)):
        return E(a)
    return rebuild(a, args)


def _replace_cond(c, name, f):
    if not _cond_mentions(c, name):
        return c
    if c.op in ("eq", "le", "lt"):
        return lit(c.op, replace_fn(c.e[0], name, f))
    if c.op == "not":
        return cnot(_replace_cond(c.subs[0], name, f))
    if c.op in ("and", "or"):
        return (cand if c.op == "and" else cor)(*[_replace_cond(x, name, f) for x in c.subs])
    raise Unsupported("replacement inside a predicate")


RECUR = {}       # name -> f(args): sequences defined by a recurrence (summary of a loop), f gives one unfolding


def unfold(e):
    """e if it is not one atom of a recurrence, else one unfolding"""
    if len(e.d) == 1:
        (k, v), = e.d.items()
        if v == ONE and not k[1] and not k[2] and not k[3] and len(k[0]) == 1 and k[0][0][1] == 1 and k[0][0][0].kind == "fn" and k[0][0][0].name in RECUR:
            return RECUR[k[0][0][0].name](*k[0][0][0].args)
    return e


def word(a):
    return Expr({((), (a,), NIL, NIL): ONE})


def rename_key(k, ren):
    """rename bound variables -> (key, factor): the sign convention of a denominator may flip"""
    e = Expr({(k[0], k[1], k[2] - set(ren), k[3]): ONE})
    r = subst(e, {a: E(b) for a, b in ren.items()})
    assert len(r.d) == 1, "renaming changed a term"
    (kk, v), = r.d.items()
    return (kk[0], kk[1], kk[2] | frozenset(ren.get(b, b) for b in k[2] if b in ren), kk[3]), v


# ---------------------------------------------------------------- conditions
class Cond:
    """op: 'eq' (e == 0), 'le' (e <= 0), 'lt' (e < 0), 'atom' (named predicate), 'not', 'or', 'and', 'const'"""
    __slots__ = ("op", "e", "subs", "name", "key", "const", "_free", "depth")

    def __repr__(self):
        return self.key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Cond) and self.key == o.key

    def free(self):
        if self._free is None:
            s = set()
            for x in (self.e or ()):
                s |= x.free()
            for c in (self.subs or ()):
                s |= c.free()
            self._free = frozenset(s)
        return self._free

    def subst(self, env):
        if not any(a in self.free() for a in env):
            return self
        if self.op in ("eq", "le", "lt"):
            return lit(self.op, subst(self.e[0], env))
        if self.op == "atom":
            return pred(self.name, [subst(x, env) for x in self.e])
        if self.op == "not":
            return cnot(self.subs[0].subst(env))
        if self.op == "or":
            return cor(*[c.subst(env) for c in self.subs])
        if self.op == "and":
            return cand(*[c.subst(env) for c in self.subs])
        return self

    def __invert__(self):
        return cnot(self)

    def __and__(self, o):
        return cand(self, o)

    def __or__(self, o):
        return cor(self, o)


def _mk(op, e=None, subs=None, name=None, const=None):
    c = Cond()
    c.op, c.e, c.subs, c.name, c.const = op, e, subs, name, const
    c._free = None
    c.depth = max([x.depth for x in (e or ())] + [x.depth for x in (subs or ())], default=0)
    if op == "const":
        c.key = str(const)
    elif op in ("eq", "le", "lt"):
        c.key = f"({e[0].key} {op} 0)"
    elif op == "atom":
        c.key = f"{name}({','.join(x.key for x in e)})"
    else:
        c.key = op + "(" + ",".join(sorted(x.key for x in subs)) + ")"
    return c


TRUE = _mk("const", const=True)
FALSE = _mk("const", const=False)


def lead(e):
    """leading coefficient w.r.t. the canonical order"""
    ks = sorted(canon(e).d.items(), key=lambda t: skey(t[0]))
    return ks


def lit(op, e):
    e = E(e)
    c = e.const()
    if c is not None:
        if op == "eq":
            return TRUE if c == (0, 0) else FALSE
        if c[1] != 0:
            raise Unsupported("order of complex numbers")
        return TRUE if (c[0] <= 0 if op == "le" else c[0] < 0) else FALSE
    if op != "eq" and any(k[2] for k in e.d):
        if op == "le" and nonneg(-e):
            return TRUE
        if op == "lt" and nonneg(e):
            return FALSE
    if has_cond(e):
        try:
            return piecewise_cond(e, lambda x: lit(op, x))
        except Unsupported as ex:
            if "too many cases" not in str(ex) or any(k[1] or k[2] or v[1] != 0 for k, v in e.d.items()):
                raise
            return _mk(op, (e,))            # left to the solver
    h = hoistable(e)
    if h:
        out = []
        for b in (True, False):
            c = h if b else cnot(h)
            if c.const is not False:
                d = {}
                for k, v in e.d.items():
                    if k[2] and h in k[3]:
                        if b:
                            acc(d, (k[0], k[1], k[2], frozenset(x for x in k[3] if x is not h and x != h)), v)
                    else:
                        acc(d, k, v)
                out.append(cand(c, lit(op, Expr(d))))
        return cor(*out)
    e = clear_positive(e)
    # scale: leading coefficient +-1 (order) / 1 (eq)
    ks = lead(e)
    if not ks:
        return FALSE if op == "lt" else TRUE
    v = next((v for k, v in ks if k != TRIV), ks[0][1])
    if op == "eq":
        e = e.scale(cinv(v))
        if len(e.d) == 2 and TRIV in e.d and e.d[TRIV][1] == 0 and e.d[TRIV][0] < 0:
            # a root equal to a positive number
            k = next(k for k in e.d if k != TRIV)
            if len(k[0]) == 1 and k[0][0][0].kind == "sqrt" and k[0][0][1] == 1 and not k[1] and not k[2] and not k[3] and e.d[k] == ONE:
                return lit("eq", k[0][0][0].args[0] - E(e.d[TRIV][0] ** 2))
        if len(e.d) == 1:
            # a product vanishes exactly when a factor does
            (k, _), = e.d.items()
            if not k[1] and not k[2] and not k[3]:
                fs = []
                for a, p in k[0]:
                    if a.kind == "exp" or p < 0 or a.kind == "inv":
                        continue
                    if a.kind in ("abs", "sqrt"):
                        fs.append(eq(a.args[0], 0))
                    else:
                        b = conj_atom(a) if not a.real else a
                        b = next(iter(next(iter(b.d))[0]))[0] if isinstance(b, Expr) and len(b.d) == 1 and len(next(iter(b.d))[0]) == 1 else b
                        if isinstance(b, Atom) and b.key < a.key:
                            a = b
                        fs.append(_mk("eq", (E(a),)))
                return cor(*fs)
        elif not all(a.real for k in e.d for a, p in k[0]) and not any(k[1] for k in e.d) and conj(e).key == (-e).key:
            e = e * I           # an imaginary expression vanishes when the real one does
    else:
        if any(q[1] != 0 for q in e.d.values()):
            if not isreal(e):
                raise Unsupported("order of complex numbers")
            e = e.scale((1 / (abs(v[0]) + abs(v[1])), Fr(0)))
        else:
            e = e.scale((1 / abs(v[0]), Fr(0)))
    if op == "lt" and e.intlike():
        op, e = "le", e + 1
    if op in ("le", "lt") and len(e.d) == 1:
        (k, v), = e.d.items()
        if not k[2] and not k[1] and not k[3] and all("pos" in a.props or a.kind == "exp" for a, p in k[0]):
            return TRUE if v[0] < 0 else FALSE
    return _mk(op, (e,))


def hoistable(e):
    """a condition on a sum that does not mention the summation variables"""
    for k in e.d:
        if k[2]:
            for c in k[3]:
                if not (c.free() & k[2]):
                    return c
    return None


def clear_positive(e):
    """multiply by / divide out positive atoms common to all terms (sign preserving)"""
    if any(k[2] for k in e.d):
        # terms with bound variables: factors free of them may still be divided out
        if any(a in k[2] for k in e.d for a, p in k[0]):
            pass
    mins = None
    for k in e.d:
        m = {a: p for a, p in k[0] if ispos(a) and (not k[2] or not (afree(a) & k[2]))}
        if mins is None:
            mins = dict(m)
        else:
            for a in list(mins):
                mins[a] = min(mins[a], m.get(a, 0))
            for a in m:
                if a not in mins and m[a] < 0:
                    mins[a] = m[a]
        for a in list(mins):
            if a not in m and mins[a] > 0:
                mins[a] = 0
    mins = {a: p for a, p in (mins or {}).items() if p}
    if not mins:
        return e
    f = Expr({(tuple(sorted(((a, -p) for a, p in mins.items()), key=lambda t: t[0].key)), (), NIL, NIL): ONE})
    return e * f


def pred(name, args):
    return _mk("atom", tuple(E(a) for a in args), name=name)


def cnot(c):
    if c.op == "const":
        return FALSE if c.const else TRUE
    if c.op == "not":
        return c.subs[0]
    if c.op == "le":
        return lit("lt", -c.e[0])
    if c.op == "lt":
        return lit("le", -c.e[0])
    if c.op == "or":
        return cand(*[cnot(x) for x in c.subs])
    if c.op == "and":
        return cor(*[cnot(x) for x in c.subs])
    return _mk("not", subs=(c,))


def flat_and(c):
    if c.op == "and":
        for x in c.subs:
            yield from flat_and(x)
    else:
        yield c


def cand(*cs):
    out = {}
    for c in cs:
        for x in flat_and(c):
            if x.const is False:
                return FALSE
            if x.const is None:
                out[x.key] = x
    for k, x in out.items():
        if cnot(x).key in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out.values()))
    return _mk("and", subs=tuple(out[k] for k in sorted(out)))


def cor(*cs):
    out = {}
    for c in cs:
        for x in (c.subs if c.op == "or" else (c,)):
            if x.const is True:
                return TRUE
            if x.const is None:
                out[x.key] = x
    for k, x in out.items():
        if cnot(x).key in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    return _mk("or", subs=tuple(out[k] for k in sorted(out)))


def indicator(c):
    if c.const is True:
        return E(1)
    if c.const is False:
        return Expr({})
    return Expr({((), (), NIL, frozenset(flat_and(c))): ONE})


def ite(c, a, b):
    if c.const is True:
        return E(a)
    if c.const is False:
        return E(b)
    a, b = E(a), E(b)
    return with_cond(a, [c]) + with_cond(b, [cnot(c)])


def eq(a, b):
    return lit("eq", E(a) - E(b))


def le(a, b):
    return lit("le", E(a) - E(b))


def lt(a, b):
    return lit("lt", E(a) - E(b))


def literals(c, out):
    if c.op in ("eq", "le", "lt", "atom"):
        out[c.key] = c
    elif c.subs:
        for x in c.subs:
            literals(x, out)
    return out


def ceval(c, asg):
    if c.op == "const":
        return c.const
    if c.op in ("eq", "le", "lt", "atom"):
        return asg[c.key]
    if c.op == "not":
        return not ceval(c.subs[0], asg)
    if c.op == "or":
        return any(ceval(x, asg) for x in c.subs)
    return all(ceval(x, asg) for x in c.subs)


# ---------------------------------------------------------------- piecewise values
def has_cond(e):
    return any(k[3] and not k[2] for k in e.d)


def split_cases(e):
    """[(Cond, cond-free Expr)] exhaustive and disjoint, for the conditions outside of sums"""
    ls = {}
    for k in e.d:
        if k[3] and not k[2]:
            for c in k[3]:
                literals(c, ls)
    ls = list(ls.values())
    if len(ls) > 6:
        return split_tree(e, ls)
    out = []
    for bits in itertools.product((True, False), repeat=len(ls)):
        asg = {l.key: b for l, b in zip(ls, bits)}
        c = cand(*[l if b else cnot(l) for l, b in zip(ls, bits)])
        if c.const is False:
            continue
        if ls and GLOBAL.prune and not feasible([c]):
            continue
        out.append((c, restrict(e, asg)))
    return out


def split_tree(e, ls):
    """as split_cases, branching on one literal at a time and dropping branches the hypotheses exclude"""
    if len(ls) > 16:
        raise Unsupported("too many cases")
    out = []

    def rec(k, conds, asg):
        if len(out) > 40:
            raise Unsupported("too many cases")
        if k == len(ls):
            out.append((cand(*conds), restrict(e, asg)))
            return
        for b in (True, False):
            c = ls[k] if b else cnot(ls[k])
            if c.const is False or not feasible(conds + [c]):
                continue
            rec(k + 1, conds if implied(c, conds) else conds + [c], {**asg, ls[k].key: b})
    rec(0, [], {})
    return out


def restrict(e, asg):
    d = {}
    for k, v in e.d.items():
        if k[3] and not k[2]:
            if all(ceval(c, asg) for c in k[3]):
                acc(d, (k[0], k[1], k[2], NIL), v)
        else:
            acc(d, k, v)
    return Expr(d)


def piecewise(e, f):
    if not has_cond(e):
        return f(e)
    out = Expr({})
    for c, x in split_cases(e):
        out = out + with_cond(f(x), [c])
    return out


def piecewise_cond(e, f):
    return cor(*[cand(c, f(x)) for c, x in split_cases(e)])


def piecewise_args(f, args):
    for i, a in enumerate(args):
        if has_cond(a):
            out = Expr({})
            for c, x in split_cases(a):
                out = out + with_cond(piecewise_args(f, args[:i] + (x,) + args[i + 1:]), [c])
            return out
    return f(*args)


# ---------------------------------------------------------------- functions
PI = sym("pi", "pos")
I = Expr({TRIV: (Fr(0), Fr(1))})


def exp(e):
    e = E(e)
    if has_cond(e):
        return piecewise(e, exp)
    if not e.d:
        return E(1)
    # fold integer multiples of i pi / 2
    kpi = (((PI_ATOM, 1),), (), NIL, NIL)
    f = E(1)
    d = dict(e.d)
    if kpi in d and d[kpi][0] == 0:
        q = d[kpi][1] * 2
        if q.denominator == 1:
            f = I ** (int(q) % 4)
            del d[kpi]
        else:
            n = d[kpi][1]
            m = n - 2 * (n // 2)      # mod 2 pi i
            if m > 1:
                m -= 2
            d[kpi] = (Fr(0), m)
    # exp(i pi * integer-valued) = (-1)^n : even multiples drop out
    for k in list(d):
        if k == kpi or k[2] or k[3] or k[1]:
            continue
        if d[k][0] == 0 and (PI_ATOM, 1) in k[0] and all(a is PI_ATOM or (a.isint and p > 0) for a, p in k[0]):
            q = d[k][1]
            if q.denominator == 1 and q % 2 == 0:
                del d[k]
            elif q.denominator == 1:
                d[k] = (Fr(0), Fr(1))
    # exp(i n arg(x + i y)) = ((x + i y) / |x + i y|)^n
    for k in list(d):
        if len(k[0]) == 1 and not k[1] and not k[2] and not k[3] and k[0][0][0].kind == "fn" and k[0][0][0].name == "arg2" and k[0][0][1] == 1 and d[k][0] == 0 and d[k][1].denominator == 1:
            y, x = k[0][0][0].args
            n = int(d[k][1])
            u = x + I * (y if n > 0 else -y)
            r = inv(sqrt(x * x + y * y))
            for _ in range(abs(n)):
                f = f * u * r
            del d[k]
    # exp(n ln x) = x^n
    for k in list(d):
        if len(k[0]) == 1 and not k[1] and not k[2] and not k[3] and k[0][0][0].kind == "fn" and k[0][0][0].name == "ln$" and k[0][0][1] == 1 and d[k][1] == 0 and d[k][0].denominator == 1:
            x, n = k[0][0][0].args[0], int(d[k][0])
            u = x if n > 0 else inv(x)
            for _ in range(abs(n)):
                f = f * u
            del d[k]
    if not d:
        return f
    return f * E(atom("exp", "e", (Expr(d),), ("real", "pos") if isreal(Expr(d)) else ()))


def ln(e):
    """natural logarithm of a positive number"""
    e = E(e)
    if has_cond(e):
        return piecewise(e, ln)
    if iszero(e - 1):
        return E(0)
    if not implied(lt(0, e)):
        raise Unsupported("logarithm of a number not known to be positive")
    return E(mkfn("fn", "ln$", (e,), ("real",)))


def arg2(y, x):
    """polar angle of (x, y), as numpy.arctan2 (branch left open: only exp(i angle) is interpreted)"""
    y, x = E(y), E(x)
    if not y.d and x.const() is not None and x.const()[0] > 0:
        return E(0)
    return piecewise_args(lambda p, q: E(mkfn("fn", "arg2", (p, q), ("real",))), [y, x])


PI_ATOM = next(iter(PI.d))[0][0][0]


def cos(e):
    e = E(e)
    return (exp(I * e) + exp(-(I * e))) * Fr(1, 2)


def sin(e):
    e = E(e)
    return (exp(I * e) - exp(-(I * e))).scale((Fr(0), Fr(-1, 2)))


def inv(e):
    e = E(e)
    if not e.d:
        raise Unsupported("division by zero")
    if has_cond(e):
        return piecewise(e, lambda x: inv(x) if x.d else E(atom("sym", "undefined")))
    if len(e.d) == 1:
        (k, v), = e.d.items()
        if not k[1] and not k[2] and not k[3]:
            out = Expr({TRIV: cinv(v)})
            for a, p in k[0]:
                if a.kind == "exp":
                    out = out * exp(-a.args[0])
                elif a.kind == "inv":
                    out = out * a.args[0] ** p
                else:
                    out = out * Expr({(((a, -p),), (), NIL, NIL): ONE})
            return out
    if any(k[1] for k in e.d):
        raise Unsupported("inverse of an operator")
    ks = lead(e)
    v = ks[0][1]
    n = e.scale(cinv(v))
    props = []
    if isreal(n):
        props.append("real")
    if nonneg(n):
        props += ["real", "nonneg"]
    return Expr({(((atom("inv", "inv", (n,), props), 1),), (), NIL, NIL): cinv(v)})


def sqrt(e):
    e = E(e)
    if has_cond(e):
        return piecewise(e, sqrt)
    c = e.const()
    if c is not None and c[1] == 0 and c[0] >= 0:
        p, q = c[0].numerator, c[0].denominator
        import math
        # pull out squares: sqrt(p/q) = sqrt(p*q)/q
        n = p * q
        s, r = 1, n
        f = 2
        while f * f <= r and f < 10000:
            while r % (f * f) == 0:
                r //= f * f
                s *= f
            f += 1
        if r == 1 or n == 0:
            return E(Fr(s if n else 0, q))
        return E(Fr(s, q)) * E(atom("sqrt", "sqrt", (E(r),), ("real", "pos")))
    return E(atom("sqrt", "sqrt", (e,), ("real", "nonneg") if nonneg(e) else ()))


def absv(e):
    e = E(e)
    if has_cond(e):
        return piecewise(e, absv)
    if not e.d:
        return e
    c = e.const()
    if c is not None:
        return E(abs(c[0])) if c[1] == 0 else sqrt(E(c[0] ** 2 + c[1] ** 2))
    if nonneg(e):
        return e
    if nonneg(-e):
        return -e
    for ph in (I, -I):
        if nonneg(e * ph):
            return e * ph
    if len(e.d) <= 8:
        for ph in (E(1), E(-1), I, -I):
            if nonneg_paired(e * ph):
                return e * ph
    if len(e.d) == 1:
        (k, v), = e.d.items()
        if not k[1] and not k[2] and not k[3]:
            out = absv(Expr({TRIV: v}))
            for a, p in k[0]:
                x = E(a)
                if a.kind == "exp":
                    x2 = exp((a.args[0] + conj(a.args[0])) * Fr(1, 2))
                elif "nonneg" in a.props:
                    x2 = x
                elif a.kind == "inv":
                    x2 = inv(absv(a.args[0]))
                else:
                    y = cnorm(x)
                    x2 = E(atom("abs", "abs", (y,), ("real", "nonneg") + (("int",) if a.isint else ())))
                out = out * x2 ** p
            return out
    return E(atom("abs", "abs", (cnorm(e),), ("real", "nonneg") + (("int",) if e.intlike() else ())))


def cnorm(e):
    """representative of {e, -e, conj e, -conj e} so that |e| = |conj e| is syntactic"""
    c = conj(e)
    return min((e, -e, c, -c), key=lambda x: x.key)


def floor(e):
    e = E(e)
    if has_cond(e):
        return piecewise(e, floor)
    c = e.const()
    if c is not None:
        import math
        return E(math.floor(c[0]))
    if e.intlike():
        return e
    e = cancel_inv(e)
    if e.intlike():
        return e
    n = Expr({k: v for k, v in e.d.items() if v[1] == 0 and v[0].denominator == 1 and not k[1] and not k[2] and all(a.isint and p > 0 for a, p in k[0])})
    r = e - n
    if not r.d:
        return n
    return n + E(atom("floor", "floor", (r,), ("int",)))


def cancel_inv(e):
    """num * inv(den) with a polynomial num divisible by den: the quotient"""
    e = E(e)
    if any(k[1] or k[2] or k[3] for k in e.d):
        return e
    for a in sorted({a for k in e.d for a, p in k[0] if a.kind == "inv" and p == 1}, key=lambda a: a.key):
        den = a.args[0]
        if any(k[1] or k[2] or k[3] for k in den.d):
            continue
        num = Expr({(tuple((x, p) for x, p in k[0] if x is not a),) + k[1:]: v for k, v in e.d.items() if (a, 1) in k[0]})
        rest = Expr({k: v for k, v in e.d.items() if (a, 1) not in k[0]})
        q = exact_quotient(num, den)
        if q is not None:
            e = rest + q
    return e


def exact_quotient(num, den):
    """q with num == q * den as polynomials, or None"""
    ats = sorted({a for x in (num, den) for k in x.d for a, p in k[0]}, key=lambda a: a.key)
    deg = lambda k: tuple(dict(k[0]).get(a, 0) for a in ats)
    if any(p < 0 for x in (num, den) for k in x.d for a, p in k[0]) or not den.d:
        return None
    dk, dv = max(den.d.items(), key=lambda t: deg(t[0]))
    q, r = Expr({}), num
    for _ in range(40):
        if not r.d:
            return q
        rk, rv = max(r.d.items(), key=lambda t: deg(t[0]))
        m = [x - y for x, y in zip(deg(rk), deg(dk))]
        if min(m, default=0) < 0:
            return None
        t = Expr({(tuple((a, p) for a, p in zip(ats, m) if p), (), NIL, NIL): ONE}).scale(cmul(rv, cinv(dv)))
        q, r = q + t, r - t * den
    return None


def power(b, n):
    b, n = E(b), E(n)
    cn = n.const()
    if cn is not None and cn[1] == 0 and cn[0].denominator == 1:
        return b ** int(cn[0])
    if b.isconst(1):
        return b
    # b^(x + c) = b^x * b^c
    c = n.d.get(TRIV)
    if c is not None and c[0].denominator == 1 and c[1] == 0:
        return power(b, n - E(c[0])) * b ** int(c[0])
    if b.isconst(-1) and n.intlike() and str(-n) < str(n):      # (-1)^n = (-1)^(-n) for integers
        n = -n
    bc = b.const()
    if bc is not None and bc[1] == 0 and bc[0] > 0 and isreal(n):
        if str(-n) > str(n):
            return inv(E(atom("pow", "pow", (b, -n), ("pos", "nz"))))
        return E(atom("pow", "pow", (b, n), ("pos", "nz")))
    return E(atom("pow", "pow", (b, n), ("real",) if isreal(b) and isreal(n) else ()))


_conj_fn = {}


def conj(e):
    e = E(e)
    out = {}
    tot = None
    for k, v in e.d.items():
        v2 = (v[0], -v[1])
        t = Expr({((), (), k[2], k[3]): v2})
        simple = True
        m = []
        for a, p in k[0]:
            if a.real:
                m.append((a, p))
            else:
                simple = False
                break
        if simple and not k[1]:
            acc(out, (k[0], k[1], k[2], k[3]), v2)
            continue
        # rebuild (binders are not touched: capture impossible, conj has no substitution)
        x = Expr({((), (), NIL, NIL): v2})
        for a, p in k[0]:
            x = x * conj_atom(a) ** p
        for a in reversed(k[1]):
            x = x * word(adj_atom(a))
        x = Expr({(kk[0], kk[1], kk[2] | k[2], kk[3] | k[3]): vv for kk, vv in x.d.items()})
        tot = x if tot is None else tot + x
    r = Expr(out)
    return r if tot is None else r + tot


def conj_atom(a):
    if a.real:
        return E(a)
    if a.kind == "exp":
        return exp(conj(a.args[0]))
    if a.kind == "inv":
        return inv(conj(a.args[0]))
    if a.kind in ("sym", "fn"):
        args = a.args
        if "hermitian" in a.props and len(args) >= 2:
            return E(atom(a.kind, a.name, (args[1], args[0]) + args[2:], a.props))
        nm = a.name[:-1] if a.name.endswith("~") else a.name + "~"
        return E(mkfn(a.kind, nm, args, a.props))
    if a.kind == "pow" :
        return power(conj(a.args[0]), conj(a.args[1]))
    raise Unsupported(f"conjugate of {a.kind}")


ADJ = {}          # prefix of an operator name -> adjoint of the atom


def adj_atom(a):
    if "selfadj" in a.props:
        return a
    f = ADJ.get(a.name[:2])
    if f is not None:
        return f(a)
    nm = a.name[:-1] if a.name.endswith("~") else a.name + "~"
    return atom(a.kind, nm, a.args, a.props)


def isreal(e):
    for k, v in e.d.items():
        if v[1] != 0 or k[1]:
            return conj(e).key == e.key
        if not all(a.real for a, p in k[0]):
            return conj(e).key == e.key
    return True


def unit_interval(a):
    """1/(1 + nonneg), a number in (0, 1]"""
    return a.kind == "inv" and nonneg(a.args[0] - 1)


def nonneg_paired(e):
    """nonneg after pairing t w^p - t w^(p+q) for w in (0, 1]"""
    e = simplify(e)
    pos, neg = {}, []
    for k, v in e.d.items():
        if v[1] != 0:
            return False
        if v[0] < 0:
            neg.append((k, -v[0]))
        else:
            pos[k] = v[0]
    for k, v in neg:
        if not nonneg(Expr({k: (v, Fr(0))})):
            return False
        for a, p in k[0]:
            if not (a.real or isreal(E(a))) or p < 1 or not unit_interval(a):
                continue
            for q in range(1, p + 1):
                k0 = tuple((b, r - q if b is a else r) for b, r in k[0] if not (b is a and r == q))
                k2 = (k0,) + tuple(k[1:])
                take = min(v, pos.get(k2, Fr(0)))
                if take:
                    pos[k2] -= take
                    v -= take
                if not v:
                    break
            if not v:
                break
        if v:
            return False
    return all(nonneg(Expr({k: (v, Fr(0))})) for k, v in pos.items() if v)


def nonneg(e):
    """syntactic sufficient condition"""
    for k, v in e.d.items():
        if v[1] != 0 or v[0] < 0 or k[1]:
            return False
        for a, p in k[0]:
            if "nonneg" in a.props:
                continue
            if a.kind == "exp" and isreal(a.args[0]):
                continue
            if a.real and p % 2 == 0:
                continue
            return False
    return True


def re(e):
    return (e + conj(e)) * Fr(1, 2)


def im(e):
    return (e - conj(e)).scale((Fr(0), Fr(-1, 2)))


# ---------------------------------------------------------------- sums
def sum_over(e, var, lo, hi):
    """sum of e for lo <= var < hi (hi >= lo assumed for terms not depending on var)"""
    lo, hi = E(lo), E(hi)
    out = Expr({})
    rng = [le(lo, E(var)), lt(E(var), hi)]
    for k, v in e.d.items():
        t = Expr({k: v})
        if var not in kfree(k):
            out = out + t * (hi - lo)
        else:
            if descending(k, var):          # run through the range upwards
                t = subst(t, {var: lo + hi - 1 - E(var)})
            out = out + bind(t, var, rng)
    return out


def descending(k, var):
    """the variable occurs as an index, and only with coefficient -1"""
    signs = set()

    def ex(e, index):
        for q, v in e.d.items():
            if index and len(q[0]) == 1 and q[0][0] == (var, 1) and not q[1]:
                signs.add(v[0])
                continue
            for a, _ in q[0]:
                at(a)
            for a in q[1]:
                at(a)

    def at(a):
        if a.kind == "sym" or var not in afree(a):
            return
        for x in a.args:
            if isinstance(x, Expr):
                ex(x, a.kind in ("fn", "op"))
    for a, _ in k[0]:
        at(a)
    for a in k[1]:
        at(a)
    return bool(signs) and all(x == -1 for x in signs)


def bind(t, var, rng):
    out = Expr({})
    for k, v in t.d.items():
        r = [c for c in rng]
        if any(c.const is False for c in r):
            continue
        cond = k[3] | frozenset(x for c in r if c.const is None for x in flat_and(c))
        out = out + elim(Expr({(k[0], k[1], k[2] | {var}, cond): v}))
    return out


def elim(t):
    """delta elimination of bound variables fixed by an equality"""
    (k, v), = t.d.items()
    for var in k[2]:
        for c in k[3]:
            if c.op == "eq" and var in c.free():
                s = solve(c.e[0], var)
                if s is not None and var not in s.free():
                    # the other bound variables may occur in s: substitute in the open term, bind again afterwards
                    body = Expr({(k[0], k[1], NIL, k[3] - {c}): v})
                    r = subst(body, {var: s})
                    left = k[2] - {var}
                    if left:
                        r = Expr({(kk[0], kk[1], kk[2] | left, kk[3]): vv for kk, vv in r.d.items()})
                    if not s.intlike():
                        r = with_cond(r, [pred("isint", [s])])
                    out = Expr({})
                    for kk, vv in r.d.items():
                        out = out + elim(Expr({kk: vv}))
                    return out
    return t


def solve(e, var):
    """e == 0 linear in var with constant coefficient -> var = result"""
    co = None
    rest = {}
    for k, v in e.d.items():
        if any(var in afree(a) for a, p in k[0]) or var in set().union(*[c.free() for c in k[3]]) if k[3] else any(var in afree(a) for a, p in k[0]):
            if k == (((var, 1),), (), NIL, NIL):
                co = v
            else:
                return None
        else:
            rest[k] = v
    if co is None:
        return None
    return Expr(rest).scale(cinv((-co[0], -co[1])))


# ---------------------------------------------------------------- canonical form
def canon(e):
    if not any(k[2] for k in e.d):
        return e
    d = {}
    for k, v in e.d.items():
        if not k[2]:
            acc(d, k, v)
            continue
        for kk, share in canon_key(k):
            acc(d, kk, (v[0] * share, v[1] * share))
    return Expr(d)


_canon_cache = {}


def canon_key(k):
    ck = _canon_cache.get(k)
    if ck is not None:
        return ck
    k_in = k
    k = shift_norm(k)
    dep = tdepth(k)
    bs = sorted(k[2], key=lambda a: a.key)
    names = [atom("sym", f"_b{dep}_{i}", (), ("int",)) for i in range(len(bs))]
    if set(bs) == set(names) and len(bs) == 1:
        r = [(k, Fr(1))]
        _canon_cache[k_in] = r
        return r
    best, keys = None, []
    if len(bs) > 6:
        raise Unsupported("too many bound variables")
    tmp = [fresh_int() for _ in bs]
    k0, f0 = rename_key(k, dict(zip(bs, tmp)))
    for perm in itertools.permutations(names):
        kk, f = rename_key(k0, dict(zip(tmp, perm)))
        f = cmul(f0, f)
        if f[1] != 0:
            raise Unsupported("complex factor in a renaming")
        s = skey((kk[0], kk[1], NIL, NIL))
        if best is None or s < best:
            best, keys = s, [(kk, f[0])]
        elif s == best:
            keys.append((kk, f[0]))
    r = [(kk, f / len(keys)) for kk, f in keys]
    _canon_cache[k_in] = r
    return r


def offsets(e, var, bound, out):
    """constants c of arguments var + c inside e"""
    for k in e.d:
        for a, p in k[0]:
            for x in a.args:
                if isinstance(x, Expr):
                    if a.kind == "fn" and len(x.d) <= 2:
                        co = x.d.get((((var, 1),), (), NIL, NIL))
                        if co == ONE:
                            r = dict(x.d)
                            del r[(((var, 1),), (), NIL, NIL)]
                            if not r:
                                out.append(0)
                                continue
                            if list(r) == [TRIV] and r[TRIV][1] == 0 and r[TRIV][0].denominator == 1:
                                out.append(int(r[TRIV][0]))
                                continue
                    offsets(x, var, bound, out)
        for a in k[1]:
            for x in a.args:
                if isinstance(x, Expr):
                    offsets(E(atom("fn", "_", (x,))), var, bound, out)


def sym_offsets(e, var, bound, out):
    """non-constant rests r (free of bound variables) of arguments var + r inside e"""
    for k in e.d:
        for a, p in k[0]:
            for x in a.args:
                if not isinstance(x, Expr):
                    continue
                if a.kind == "fn":
                    kk = (((var, 1),), (), NIL, NIL)
                    if x.d.get(kk) == ONE:
                        r = Expr({q: w for q, w in x.d.items() if q != kk})
                        if var not in r.free() and not (r.free() & bound):
                            out.append(r)
                            continue
                sym_offsets(x, var, bound, out)


def shift_norm(k):
    """shift bound variables so that the smallest constant offset in an index is 0"""
    for var in sorted(k[2], key=lambda a: a.key):
        out = []
        sym_offsets(Expr({(k[0], k[1], NIL, NIL): ONE}), var, k[2], out)
        if out and all(r.const() is None for r in out):
            r0 = min(out, key=lambda r: r.key)
            r0 = Expr({q: w for q, w in r0.d.items() if q != TRIV})
            if r0.intlike():
                r = subst(Expr({(k[0], k[1], k[2] - {var}, k[3]): ONE}), {var: E(var) - r0})
                if len(r.d) == 1 and next(iter(r.d.values())) == ONE:
                    k2, = r.d
                    k = (k2[0], k2[1], k2[2] | {var}, k2[3])
    for var in k[2]:
        out = []
        offsets(Expr({(k[0], k[1], NIL, NIL): ONE}), var, k[2], out)
        if out and min(out) != 0:
            r = subst(Expr({(k[0], k[1], k[2] - {var}, k[3]): ONE}), {var: E(var) - min(out)})
            if len(r.d) == 1 and next(iter(r.d.values())) == ONE:
                k2, = r.d
                k = (k2[0], k2[1], k2[2] | {var}, k2[3])
    return k


def bounds(k, var):
    """lower bounds, upper bounds (inclusive), excluded points of a bound variable given by the literals of the term"""
    lo, hi, ne = [], [], []
    for c in k[3]:
        if c.op in ("le", "lt") and var in c.free():
            s = solve(c.e[0], var)
            if s is None or s.free() & k[2]:
                continue
            co = c.e[0].d[(((var, 1),), (), NIL, NIL)][0]
            if abs(co) != 1 or not s.intlike():
                continue
            if co > 0:
                hi.append((s if c.op == "le" else s - 1, c))
            else:
                lo.append((s if c.op == "le" else s + 1, c))
        elif c.op == "not" and c.subs[0].op == "eq" and var in c.free():
            s = solve(c.subs[0].e[0], var)
            if s is not None and not s.free() & k[2] and s.intlike():
                ne.append(s)
    return lo, hi, ne


def tighten(k, var):
    """drop bounds weaker by an integer constant than another bound"""
    lo, hi, ne = bounds(k, var)
    drop = set()
    for lst, sg in ((lo, 1), (hi, -1)):
        for i, (x, c) in enumerate(lst):
            for j, (y, c2) in enumerate(lst):
                if i != j and c2 not in drop and c not in drop:
                    d = intdiff(y, x)
                    if d is not None and d * sg >= 0:
                        drop.add(c)
    return (k[0], k[1], k[2], k[3] - drop) if drop else k


def intdiff(a, b):
    d = (a - b).const()
    return int(d[0]) if d is not None and d[1] == 0 and d[0].denominator == 1 else None


def align(left):
    """peel end points of sums with the same summand so that their ranges agree; None if nothing changes"""
    groups = {}
    for k, v in left.items():
        groups.setdefault((k[0], k[1], k[2]), []).append((k, v))
    out, changed = Expr({}), False
    for (m, w, b), lst in groups.items():
        if not b:
            out = out + Expr(dict(lst))
            continue
        for var in sorted(b, key=lambda a: a.key):
            lst = [(tighten(k, var), v) for k, v in lst]
            info = [bounds(k, var) for k, v in lst]
            if any(len(i[0]) != 1 or len(i[1]) != 1 for i in info):
                # several bounds: keep the implied tightest one if there is one
                continue
            for side in (0, 1):
                bs = [i[side][0][0] for i in info]
                best = bs[0]
                pts = [p + (1 if side == 0 else -1) for i in info for p in i[2]]
                for x in bs + pts:
                    d = intdiff(x, best)
                    if d is not None and (d > 0 if side == 0 else d < 0) and abs(d) < 6:
                        best = x
                new = []
                for (k, v), i in zip(lst, info):
                    (x, c), = i[side]
                    d = intdiff(best, x)
                    if d is None or d == 0 or abs(d) > 6:
                        new.append((k, v))
                        continue
                    changed = True
                    for q in range(abs(d)):
                        pnt = x + q if side == 0 else x - q
                        r = subst(Expr({(k[0], k[1], NIL, k[3]): v}), {var: pnt})
                        left = k[2] - {var}
                        out = out + (Expr({(kk[0], kk[1], kk[2] | left, kk[3]): vv for kk, vv in r.d.items()}) if left else r)
                    nc = le(best, E(var)) if side == 0 else le(E(var), best)
                    new.append(((k[0], k[1], k[2], (k[3] - {c}) | {nc}), v))
                lst = new
                info = [bounds(k, var) for k, v in lst]
        out = out + Expr({}) + sum_terms(lst)
    return out if changed else None


def sum_terms(lst):
    d = {}
    for k, v in lst:
        acc(d, k, v)
    return Expr(d)


# ---------------------------------------------------------------- z3
class _G:
    prune = True
    hyps = []
    z3time = 0.0
    z3calls = 0


GLOBAL = _G()


def push_hyps(cs):
    GLOBAL.hyps = GLOBAL.hyps + [c for c in cs if c.const is not True]


def hyp_depth():
    return len(GLOBAL.hyps)


def pop_to(n):
    GLOBAL.hyps = GLOBAL.hyps[:n]


def hkey():
    return tuple(h.key for h in GLOBAL.hyps)
_zc = {}


def zvar(a):
    z = _zc.get(a)
    if z is None:
        z = z3.Int(a.key) if a.isint else z3.Real(a.key)
        _zc[a] = z
    return z


def zexpr(e, sort=None):
    """z3 arithmetic term; complex or summed parts become opaque reals"""
    if any(v[1] != 0 or k[1] for k, v in e.d.items()):
        v = min(e.d.items(), key=lambda t: skey(t[0]))[1]
        if v[0] < 0 or (v[0] == 0 and v[1] < 0):
            return -z3.Real("opaque:" + (-e).key)
        return z3.Real("opaque:" + e.key)
    tot = None
    allint = e.intlike()
    for k, v in e.d.items():
        if k[2]:
            t = z3.Real("sum:" + Expr({k: ONE}).key)
            c = z3.RealVal(str(v[0]))
            t = c * t
        else:
            t = z3.IntVal(int(v[0])) if allint else z3.RealVal(str(v[0]))
            for a, p in k[0]:
                x = zvar(a)
                note(a)
                if not allint and a.isint:
                    x = z3.ToReal(x)
                if p < 0:
                    x = z3.Real("recip:" + a.key)
                    _recips[a] = x
                for _ in range(abs(p)):
                    t = t * x
            if sum(abs(p) for a, p in k[0]) > 1 and len(k[0]) > 1 and all(ispos(a) for a, p in k[0]):
                mk = (k[0], allint)
                if mk not in _posmono:
                    _posmono.add(mk)
                    u = None
                    for a, p in k[0]:
                        x = zvar(a) if p > 0 else z3.Real("recip:" + a.key)
                        if not allint and p > 0 and a.isint:
                            x = z3.ToReal(x)
                        for _ in range(abs(p)):
                            u = x if u is None else u * x
                    for a, p in k[0]:
                        _noted[a].append(u > 0)
            if k[3]:
                t = z3.If(z3.And([zcond(c) for c in k[3]]), t, z3.IntVal(0) if allint else z3.RealVal(0))
        tot = t if tot is None else tot + t
    if tot is None:
        return z3.IntVal(0)
    return tot


_recips = {}
_noted = {}
_sorted = {}
_inject = {}
_joint = {}
_posmono = set()


def ispos(a):
    return "pos" in a.props or (a.kind == "exp" and a.real)


def note(a):
    """side facts of an atom, asserted in every query that mentions it"""
    if a in _noted:
        return
    f = []
    z = zvar(a)
    _noted[a] = f
    if ("injective" in a.props or "cong" in a.props) and a.args:
        _inject.setdefault(a.name, []).append(a)
        for x in a.args:
            zexpr(x)
    if "sorted" in a.props and a.args:
        _sorted.setdefault(a.name, []).append(a)
        for x in a.args:
            zexpr(x)
    for p in a.props:
        if p.startswith("le:"):
            f.append(z <= zvar(_atoms["sym:" + p[3:]]))
        if p.startswith("lt:"):
            f.append(z < zvar(_atoms["sym:" + p[3:]]))
        if p.startswith("joint:") and a.args:
            _joint.setdefault(p, {}).setdefault(tuple(x.key for x in a.args), []).append(a)
            for x in a.args:
                zexpr(x)
    if "bit" in a.props:
        f.append(z3.Or(z == 0, z == 1))
    if "pos" in a.props or (a.kind == "exp" and a.real):
        f.append(z > 0)
    elif "nonneg" in a.props:
        f.append(z >= 0)
    if a.kind == "fn" and a.name in ("min", "max") and len(a.args) == 2 and len(a.args[0].d) == 1:
        (bk, bv), = a.args[0].d.items()
        if bv == ONE and len(bk[0]) == 1 and bk[0][0][1] == 1 and bk[0][0][0].kind == "fn" and not bk[1] and not bk[2] and not bk[3] and all(len(x.free()) == 1 and x.key == E(next(iter(x.free()))).key for x in bk[0][0][0].args):
            _extrema.append(a)
    if a.kind == "pow" and "pos" in a.props and a.args[0].const() is not None and a.args[0].const()[0] > 1:
        _pows.append(a)
        zexpr(a.args[1])
    if a.kind == "abs" and isreal(a.args[0]):
        x = zexpr(a.args[0])
        f.append(z3.Or(z == x, z == -x))
    if a.kind == "floor":
        x = zexpr(a.args[0])
        zr = z3.ToReal(z)
        if x.is_int():
            x = z3.ToReal(x)
        f += [zr <= x, x < zr + 1]
        # floor(a) - k floor(a/k) is in 0..k-1
        for b in _floors.setdefault(tuple(sorted(skey(k) for k in a.args[0].d)), []):
            r = ratio(a.args[0], b.args[0])
            if r is not None and r.numerator == 1:
                big, small, k = b, a, r.denominator
            elif r is not None and r.denominator == 1:
                big, small, k = a, b, r.numerator
            else:
                continue
            d = zvar(big) - k * zvar(small)
            g = z3.And(d >= 0, d < k)
            f.append(g)
            _noted[b].append(g)
        _floors[tuple(sorted(skey(k) for k in a.args[0].d))].append(a)


def ratio(x, y):
    """constant positive rational r with x == r y, if any"""
    if not x.d or set(x.d) != set(y.d):
        return None
    k = next(iter(x.d))
    a, b = x.d[k], y.d[k]
    if a[1] != 0 or b[1] != 0 or b[0] == 0:
        return None
    r = Fr(a[0]) / Fr(b[0])
    return r if r > 0 and all(v[1] == 0 and y.d[q][1] == 0 and v[0] == r * y.d[q][0] for q, v in x.d.items()) else None


_floors = {}

_extrema = []
_pows = []
_zcond = {}


def zcond(c):
    z = _zcond.get(c.key)
    if z is None:
        if c.op == "const":
            z = z3.BoolVal(c.const)
        elif c.op in ("eq", "le", "lt"):
            e = c.e[0]
            if c.op == "eq" and any(v[1] != 0 or k[1] for k, v in e.d.items()) and not (not any(k[1] for k in e.d) and isreal(e)):
                z = z3.Bool(c.key)
            else:
                t = zexpr(e)
                z = t == 0 if c.op == "eq" else t <= 0 if c.op == "le" else t < 0
        elif c.op == "atom":
            z = z3.Bool(c.key)
        elif c.op == "not":
            z = z3.Not(zcond(c.subs[0]))
        elif c.op == "or":
            z = z3.Or([zcond(x) for x in c.subs])
        else:
            z = z3.And([zcond(x) for x in c.subs])
        _zcond[c.key] = z
    return z


INVAX = [False]        # reciprocals of sums as numbers with x inv(x) = 1 in the solver (contracts that need it switch it on)


def _side0(forms, names):
    """names of the variables of the forms are added to names; their own side facts"""
    st, new = list(forms), set()
    while st:
        h = st.pop()
        if z3.is_const(h) and h.decl().kind() == z3.Z3_OP_UNINTERPRETED and h.decl().name() not in names:
            new.add(h.decl().name())
        st.extend(h.children())
    names |= new
    return [g for a, fs in list(_noted.items()) if a.key in new for g in fs]


def _side(forms):
    """collect side facts for the variables appearing in the z3 formulas (few distinct atoms: assert all noted ones used)"""
    names = set()
    seen = set()
    stack = list(forms)
    while stack:
        f = stack.pop()
        if f.get_id() in seen:
            continue
        seen.add(f.get_id())
        if z3.is_const(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            names.add(f.decl().name())
        stack.extend(f.children())
    out = []
    changed = True
    done = set()
    while changed:
        changed = False
        for a, fs in list(_noted.items()):
            if a.key in names and a not in done:
                done.add(a)
                changed = True
                for g in fs:
                    out.append(g)
                    st = [g]
                    while st:
                        h = st.pop()
                        if z3.is_const(h) and h.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                            names.add(h.decl().name())
                        st.extend(h.children())
    for nm, ats in _inject.items():
        # an injective function of its arguments; symbols declared outside its range
        ats = [a for a in ats if a.key in names]
        for i, a in enumerate(ats):
            for b in ats[i + 1:]:
                same = z3.And([zexpr(p) == zexpr(q) for p, q in zip(a.args, b.args)])
                out.append((zvar(a) == zvar(b)) == same if "injective" in a.props else z3.Implies(same, zvar(a) == zvar(b)))
            for b in [b for b in _noted if b.key in names and "notin:" + nm in b.props]:
                out.append(zvar(a) != zvar(b))
    for nm, inst in _joint.items():
        # k functions that together separate their arguments: all values equal only if the arguments are
        k = int(nm.rsplit(":", 1)[1])
        full = [[a for a in ats if a.key in names] for ats in inst.values()]
        full = [sorted(ats, key=lambda a: a.name) for ats in full if len(ats) == k]
        for i, p in enumerate(full):
            for q in full[i + 1:]:
                if [a.name for a in p] == [a.name for a in q]:
                    out.append(z3.Implies(z3.And([zvar(a) == zvar(b) for a, b in zip(p, q)]), z3.And([zexpr(x) == zexpr(y) for x, y in zip(p[0].args, q[0].args)])))
    for nm, ats in _sorted.items():
        # a nondecreasing sequence: i <= j implies a_i <= a_j
        ats = [a for a in ats if a.key in names]
        for i, a in enumerate(ats):
            for b in ats[i + 1:]:
                x, y = zexpr(a.args[-1]), zexpr(b.args[-1])
                same = [zexpr(p) == zexpr(q) for p, q in zip(a.args[:-1], b.args[:-1])]
                out.append(z3.Implies(z3.And(same + [x <= y]), zvar(a) <= zvar(b)))
                out.append(z3.Implies(z3.And(same + [y <= x]), zvar(b) <= zvar(a)))
    pws = [a for a in _pows if a.key in names]
    for i, a in enumerate(pws):
        # b > 1: increasing; by at least a factor b per integer step
        b = a.args[0].const()[0]
        x = zexpr(a.args[1])
        out += [z3.Implies(x >= 0, zvar(a) >= 1), z3.Implies(x >= 1, zvar(a) >= z3.RealVal(str(b))), z3.Implies(x <= 0, zvar(a) <= 1)]
        for c in pws[i + 1:]:
            if c.args[0].key != a.args[0].key:
                continue
            y = zexpr(c.args[1])
            out += [z3.Implies(x <= y, zvar(a) <= zvar(c)), z3.Implies(y <= x, zvar(c) <= zvar(a))]
            out += [z3.Implies(x + 1 <= y, z3.RealVal(str(b)) * zvar(a) <= zvar(c)), z3.Implies(y + 1 <= x, z3.RealVal(str(b)) * zvar(c) <= zvar(a))]
    for m in [a for a in _extrema if a.key in names]:
        # min <= every instance of its body present in the query
        body, ind = m.args
        (bk, bv), = body.d.items()
        pat = bk[0][0][0]
        (ik, iv), = ind.d.items()
        for a in [a for a in _noted if a.kind == "fn" and a.name == pat.name and a.key in names and len(a.args) == len(pat.args)]:
            env = {next(iter(p.free())): q for p, q in zip(pat.args, a.args)}
            g = [zcond(c.subst(env)) for c in ik[3]]
            out.append(z3.Implies(z3.And(g) if g else z3.BoolVal(True), zvar(m) <= zvar(a) if m.name == "min" else zvar(a) <= zvar(m)))
    if INVAX[0]:
        for a in [a for a in list(_noted) if a.kind == "inv" and a.key in names and isreal(a.args[0])]:
            x = zexpr(a.args[0])
            x = z3.ToReal(x) if x.is_int() else x
            out.append(z3.Implies(x != 0, zvar(a) * x == 1))
            out.extend(q for q in _side0([x], names))
    for a, x in list(_recips.items()):
        if x.decl().name() in names:
            z = zvar(a)
            out.append((z3.ToReal(z) if a.isint else z) * x == 1)
    return out


RLIMIT = int(os.environ.get("DV_RLIMIT", 20000000))
_Z3STAT = os.environ.get("DV_Z3STAT")


NLRLIMIT = int(os.environ.get("DV_NLRLIMIT", 4000000))
_lin = {}


def linearise(f):
    """replace every product of two or more unknowns by an unknown of its own"""
    k = f.get_id()
    if k in _lin:
        return _lin[k][1]
    ch = f.children()
    if not ch:
        g = f
    elif f.decl().kind() == z3.Z3_OP_MUL:
        co, fac, st = [], [], list(ch)
        while st:
            x = st.pop()
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL:
                st.extend(x.children())
            elif z3.is_rational_value(x) or z3.is_int_value(x):
                co.append(x)
            else:
                fac.append(linearise(x))
        if len(fac) >= 2:
            fac.sort(key=lambda x: x.sexpr())
            nm = "mono:" + "*".join(x.sexpr() for x in fac)
            m = z3.Int(nm) if f.is_int() else z3.Real(nm)
        else:
            m = fac[0] if fac else None
        for c in co:
            m = c if m is None else c * m
        g = m
    else:
        nc = [linearise(x) for x in ch]
        g = f if all(a.eq(b) for a, b in zip(ch, nc)) else f.decl()(*nc)
    _lin[k] = (f, g)
    return g


def cvc5_unsat(s):
    """second solver, for what z3 leaves undecided (resource limit, not time, decides)"""
    if _CVC5 is None:
        return False
    try:
        p = subprocess.run([_CVC5, "--rlimit=400000", "--tlimit=20000", "-q", "-"], input="(set-logic ALL)\n" + s.to_smt2(), capture_output=True, text=True, timeout=30)
    except Exception:
        return False
    return p.stdout.strip().splitlines()[:1] == ["unsat"]


_CVC5 = shutil.which("cvc5")


def check(forms):
    s = z3.Solver()
    s.set("rlimit", RLIMIT)          # deterministic: independent of the load of the machine
    s.set("timeout", 60000)
    hy = [zcond(h) for h in GLOBAL.hyps]
    allf = list(forms) + hy
    allf += _side(allf)
    t = time.time()
    # products as opaque numbers first: a refutation of this weaker system is a refutation
    lin = [linearise(f) for f in allf]
    r = None
    if any(not f.eq(g) for f, g in zip(allf, lin)):
        sl = z3.Solver()
        sl.set("rlimit", RLIMIT)
        sl.set("timeout", 60000)
        sl.add(*lin)
        r = sl.check()
        if r == z3.unsat:
            s = sl
        else:
            r = None
            s.set("rlimit", NLRLIMIT)
    if r is None:
        s.add(*allf)
        full = NLRLIMIT if any(not f.eq(g) for f, g in zip(allf, lin)) else RLIMIT
        s.set("rlimit", full // 6)
        r = s.check()
        if r == z3.unknown:
            if cvc5_unsat(s):
                r = z3.unsat
                GLOBAL.cvc5calls = getattr(GLOBAL, "cvc5calls", 0) + 1
            else:
                s.set("rlimit", full)
                r = s.check()
    GLOBAL.z3time += time.time() - t
    if _Z3STAT and time.time() - t > .3:
        print("z3", r, round(time.time() - t, 2), "rlimit", [v for k, v in s.statistics() if k == "rlimit count"], flush=True)
    GLOBAL.z3calls += 1
    return r, s


def model(conds, bounds):
    """a model of the hypotheses and conds: {atom: number} for the symbols and function values mentioned in conds"""
    ats = set()

    def walk(e):
        for k in e.d:
            for a, p in k[0]:
                ats.add(a)
                for x in a.args:
                    walk(x)

    def walkc(c):
        if c.e:
            for e in c.e:
                walk(e)
        for x in c.subs or ():
            walkc(x)
    for c in conds:
        walkc(c)
    for b in (bounds, ()):
        r, s = check([zcond(c) for c in conds] + [zcond(c) for c in b])
        if r == z3.sat:
            m, out = s.model(), {}
            for a in ats:
                if a.kind in ("sym", "fn"):
                    try:
                        v = m.eval(zvar(a), model_completion=True)
                        if z3.is_algebraic_value(v):
                            v = v.approx(12)
                        out[a] = int(v.as_long()) if a.isint else float(Fr(v.numerator_as_long(), v.denominator_as_long()))
                    except Exception:
                        pass
            return out
    return None


_feas = {}


def feasible(conds):
    key = (tuple(sorted(c.key for c in conds)), tuple(h.key for h in GLOBAL.hyps))
    r = _feas.get(key)
    if r is None:
        rr, _ = check([zcond(c) for c in conds])
        r = rr != z3.unsat
        _feas[key] = r
    return r


def implied(c, extra=()):
    """hyps (and extra) |= c"""
    return not feasible([cnot(c)] + list(extra))


# ---------------------------------------------------------------- simplification and zero test
def vanishes_with(mono, e):
    """the product contains a positive power of the atom e (or its conjugate) and no negative power of either"""
    if len(e.d) != 1:
        return False
    (k, v), = e.d.items()
    if k[1] or k[2] or k[3] or len(k[0]) != 1 or k[0][0][1] != 1:
        return False
    a = k[0][0][0]
    names = {a.key, a.key.replace("(", "~(", 1), a.key.replace("~(", "(", 1), a.key + "~"}
    ps = [p for x, p in mono if x.key in names]
    return bool(ps) and all(p > 0 for p in ps) and not any(a in afree(x) for x, p in mono if x.kind == "inv")


def simplify(e, drop_redundant=False):
    """remove unsatisfiable terms, eliminate deltas, substitute equalities"""
    out = {}
    work = list(e.d.items())
    n = 0
    while work:
        k, v = work.pop()
        n += 1
        if n > 4000:
            raise Unsupported("expression too large")
        if k[3]:
            if not feasible(list(k[3])):
                continue
            # x [x != 0] = x
            red = [c for c in k[3] if c.op == "not" and c.subs[0].op == "eq" and vanishes_with(k[0], c.subs[0].e[0])]
            if red:
                work.append(((k[0], k[1], k[2], k[3] - set(red)), v))
                continue
            # bound variable fixed?
            t = elim(Expr({k: v}))
            if not (len(t.d) == 1 and k in t.d):
                work.extend(t.d.items())
                continue
            # free symbol fixed by an equality: normalise the rest of the term
            done = False
            for c in sorted(k[3], key=lambda c: c.key):
                if c.op != "eq":
                    continue
                for var in sorted(c.free() - k[2], key=lambda a: (not a.name.startswith("_"), a.key)):
                    s = solve(c.e[0], var)
                    if s is None or var in s.free() or s.free() & k[2]:
                        continue
                    if s.const() is None and not all(x.key < var.key for x in s.free()):
                        continue
                    others = k[3] - {c}
                    if var not in kfree((k[0], k[1], NIL, others)):
                        continue
                    if any(a.kind == "sym" and a is var and p < 0 for a, p in k[0]) and not s.d:
                        continue
                    r = subst(Expr({(k[0], k[1], k[2], others): v}), {var: s})
                    r = with_cond(r, [c])
                    work.extend(r.d.items())
                    done = True
                    break
                if done:
                    break
            if done:
                continue
        acc(out, k, v)
    return Expr(out)


def group(e):
    """{(mono, word, binders): [(coef, cond)]} after canonical renaming"""
    c = canon(e)
    g = {}
    for k, v in c.d.items():
        g.setdefault((k[0], k[1], k[2]), []).append((v, k[3]))
    return g


def cancels(lst):
    """sum coef [cond] == 0 for all values?"""
    if len(lst) == 1 and not lst[0][1]:
        return False
    if all(not c for _, c in lst):
        return sum(v[0] for v, _ in lst) == 0 and sum(v[1] for v, _ in lst) == 0
    for part in (0, 1):
        ts = [(v[part], c) for v, c in lst if v[part] != 0]
        if not ts:
            continue
        tot = z3.Sum([z3.If(z3.And([zcond(x) for x in c]) if c else z3.BoolVal(True), z3.RealVal(str(v)), z3.RealVal(0)) for v, c in ts])
        r, _ = check([tot != 0])
        if r != z3.unsat:
            return False
    return True


DEBUG = bool(os.environ.get("DV_ALIGN"))


SUM_RULES = []      # assumed equations for sums (orthonormal columns, eigenvalue equations): term -> replacement or None


def sum_rules(e):
    """rewrite with the assumed equations until none applies"""
    out, work, n = {}, list(e.d.items()), 0
    while work:
        k, v = work.pop()
        r = None
        if k[2] and n < 200:
            r = next((x for x in (f(k, v) for f in SUM_RULES) if x is not None), None)
        if r is None:
            acc(out, k, v)
        else:
            n += 1
            work.extend(simplify(r).d.items())
    return Expr(out)


def iszero(e, depth=0):
    """True only if e == 0 for all values of its free symbols satisfying the hypotheses"""
    e = simplify(e)
    if SUM_RULES and not depth and any(k[2] for k in e.d):
        e = sum_rules(e)
    g = group(e)
    left = {}
    for (m, w, b), lst in g.items():
        if cancels(lst):
            continue
        for v, c in lst:
            acc(left, (m, w, b, c), v)
    if not left:
        return True
    if depth < 3 and any(k[2] for k in left):
        al = align(left)
        if DEBUG:
            print("align", depth, "\n left", *[f"\n    {v} {skey(k)}" for k, v in left.items()])
            print(" ->", al and [f"\n    {v} {skey(k)}" for k, v in al.d.items()])
        if al is not None:
            return iszero(al, depth + 1)
    # a denominator free of bound variables multiplies out of the whole expression
    if depth < 4 and len({k[2] for k in left}) > 1:
        outer = next((a for k in left for a, p in k[0] if a.kind == "inv" and not (afree(a) & k[2])), None)
        if outer is not None and not any(outer is not a and outer in afree(a) for k in left for a, p in k[0]):
            y = Expr({})
            den = outer.args[0]
            pm = max(p for k in left for a, p in k[0] if a is outer)
            for k, v in left.items():
                p = dict(k[0]).get(outer, 0)
                y = y + Expr({(tuple((a, q) for a, q in k[0] if a is not outer), k[1], k[2], k[3]): v}) * den ** (pm - p)
            return iszero(y, depth + 1)
    # the same bound variables and word: clear denominators case by case
    groups = {}
    for k, v in left.items():
        groups.setdefault((k[2]), {})[k] = v
    for b, d in groups.items():
        if not zero_integrand(d, b):
            return len(groups) == 1 and not b and complex_fact(d)
    return True


def complex_fact(d):
    """a short complex expression that the hypotheses state to vanish"""
    if len(d) > 24 or any(k[1] for k in d) or all(a.real for k in d for a, p in k[0]):
        return False
    e = Expr({})
    for k, v in d.items():
        live = [c for c in k[3] if not implied(c)] if k[3] else []
        e = e + with_cond(Expr({(k[0], k[1], k[2], NIL): v}), live)
    try:
        for c, x in (split_cases(e) if has_cond(e) else [(TRUE, e)]):
            n = hyp_depth()
            push_hyps([c])
            try:
                if x.d and not implied(lit("eq", x)):
                    return False
            finally:
                pop_to(n)
    except Unsupported:
        return False
    return True


def zero_integrand(d, b):
    ls = {}
    for k in d:
        for c in k[3]:
            literals(c, ls)
    ls = [ls[k] for k in sorted(ls)]
    if len(ls) > 12:
        return False
    body = Expr({(k[0], k[1], NIL, k[3]): v for k, v in d.items()})

    def rec(i, chosen, asg):
        if chosen and not feasible(chosen):
            return True
        # drop early: nothing depends on the undecided literals
        if i == len(ls):
            x = Expr({})
            for k, v in body.d.items():
                if all(ceval(c, asg) for c in k[3]):
                    x = x + Expr({(k[0], k[1], NIL, NIL): v})
            env = {}
            for l in ls:
                if asg[l.key] and l.op == "eq":
                    e0 = subst(l.e[0], env)
                    for var in sorted(e0.free(), key=lambda a: (a not in b, not a.name.startswith("_"), a.key), reverse=False):
                        s = solve(e0, var)
                        if s is not None and var not in s.free():
                            env = {q: subst(z, {var: s}) for q, z in env.items()}
                            env[var] = s
                            break
            try:
                x = subst(x, env)
            except Unsupported:
                return False
            old = list(GLOBAL.hyps)
            GLOBAL.hyps = old + chosen
            try:
                return zero_plain(x)
            finally:
                GLOBAL.hyps = old
        for val in (True, False):
            l = ls[i]
            if not rec(i + 1, chosen + [l if val else cnot(l)], {**asg, l.key: val}):
                return False
        return True
    return rec(0, [], {})


def clear(x):
    for _ in range(40):
        pick = None
        for k in x.d:
            for a, p in k[0]:
                if a.kind == "inv":
                    pick = a
                    break
            if pick:
                break
        if pick is None:
            return x
        pmax = max([p for k in x.d for a, p in k[0] if a is pick])
        out = Expr({})
        den = pick.args[0]
        for k, v in x.d.items():
            p = dict(k[0]).get(pick, 0)
            rest = Expr({(tuple((a, q) for a, q in k[0] if a is not pick), k[1], k[2], k[3]): v})
            out = out + rest * den ** (pmax - p)
        x = out
    raise Unsupported("denominators")


def unify_floors(x):
    """replace a floor that the hypotheses fix relative to another one"""
    fl = sorted({a for k in x.d for a, p in k[0] if a.kind == "floor"}, key=lambda a: a.key)
    if not 2 <= len(fl) <= 8:
        return x
    for i in range(len(fl)):
        for j in range(i):
            for c in (0, 1, -1):
                if implied(eq(E(fl[i]) - E(fl[j]), c)):
                    out = Expr({})
                    for k, v in x.d.items():
                        p = dict(k[0]).get(fl[i], 0)
                        if p < 0:
                            return x
                        out = out + Expr({(tuple((a, q) for a, q in k[0] if a is not fl[i]), k[1], k[2], k[3]): v}) * (E(fl[j]) + c) ** p
                    return unify_floors(out)
    return x


def zero_plain(x):
    if not x.d:
        return True
    x = unify_floors(x)
    if not x.d:
        return True
    try:
        x = clear(x)
    except Unsupported:
        return False
    if not x.d:
        return True
    g = group(x)
    left = {}
    for (m, w, b), lst in g.items():
        if not cancels(lst):
            for v, c in lst:
                acc(left, (m, w, b, c), v)
    if not left:
        return True
    # negative powers of plain atoms cancel syntactically; last resort: nonlinear arithmetic over the reals
    y = Expr(left)
    if all(not k[1] and not k[2] for k in y.d):
        for part in (0, 1):
            z = Expr({k: (v[part], v[1] * 0) for k, v in y.d.items() if v[part] != 0})
            if z.d and check([zexpr(z) != 0])[0] != z3.unsat:
                return False
        return True
    return False
