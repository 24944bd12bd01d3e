"""Numeric value of symbolic expressions at concrete inputs (cross-check against CPython, replay of counterexamples)."""
import cmath, math
from fractions import Fraction as Fr
import numpy as np
from . import expr as X
from .expr import E, Unsupported


class Env:
    """syms: {symbol name: number}; fns: {fn name: callable(*ints) -> number}"""
    def __init__(self, syms=None, fns=None, ops=None):
        self.syms = dict(syms or {})
        self.fns = dict(fns or {})
        self.ops = dict(ops or {})
        self.bound = {}


def val(e, env):
    e = E(e)
    tot = 0
    for k, v in e.d.items():
        c = complex(float(v[0]), float(v[1])) if v[1] != 0 else float(v[0])
        if k[1]:
            raise Unsupported("numeric value of an operator")
        tot = tot + c * term(k, env)
    return tot


def term(k, env):
    if not k[2]:
        for c in k[3]:
            if not cond(c, env):
                return 0
        r = 1
        for a, p in k[0]:
            r = r * powr(atomval(a, env), p)
        return r
    return loop_over(k, lambda: term((k[0], k[1], X.NIL, k[3]), env), env)


def loop_over(k, body, env):
    """sum of body() over the bound variables of the term"""
    return loop(k, sorted(k[2], key=lambda a: a.key), env, body)


def loop(k, left, env, body):
    if not left:
        return body()
    best = None
    for var in left:
        lo, hi = -10 ** 9, 10 ** 9
        for c in k[3]:
            for lit in X.flat_and(c):
                if lit.op not in ("le", "lt", "eq"):
                    continue
                e = lit.e[0]
                if var not in e.free() or any(o in e.free() for o in left if o is not var):
                    continue
                s = X.solve(e, var)
                if s is None:
                    continue
                # e = co*var + rest
                co = e.d[(((var, 1),), (), X.NIL, X.NIL)][0]
                try:
                    x = val(s, env)
                except KeyError:
                    continue
                x = x.real if isinstance(x, complex) else x
                if lit.op == "eq":
                    lo, hi = max(lo, math.ceil(x - 1e-9)), min(hi, math.floor(x + 1e-9))
                elif co > 0:
                    hi = min(hi, math.floor(x + 1e-9))
                else:
                    lo = max(lo, math.ceil(x - 1e-9))
        if lo > -10 ** 8 and hi < 10 ** 8:
            best = (var, lo, hi)
            break
    if best is None:
        raise Unsupported("unbounded sum")
    var, lo, hi = best
    tot = 0
    rest = [o for o in left if o is not var]
    if hi - lo > 20000:
        raise Unsupported("long sum")
    for i in range(lo, hi + 1):
        old = env.bound.get(var)
        env.bound[var] = i
        try:
            tot = tot + loop(k, rest, env, body)
        finally:
            if old is None:
                env.bound.pop(var, None)
            else:
                env.bound[var] = old
    return tot


def atomval(a, env):
    if a in env.bound:
        return env.bound[a]
    if a.kind == "sym":
        if a.name == "pi":
            return math.pi
        nm = a.name
        if nm.endswith("~") and nm not in env.syms:
            return complex(env.syms[nm[:-1]]).conjugate()
        if nm == "inf":
            return math.inf
        return env.syms[nm]
    if a.kind == "exp":
        x = val(a.args[0], env)
        return cmath.exp(x) if isinstance(x, complex) else math.exp(x)
    if a.kind == "inv":
        x = val(a.args[0], env)
        return 1 / x if x != 0 else math.inf
    if a.kind == "sqrt":
        x = val(a.args[0], env)
        return cmath.sqrt(x) if isinstance(x, complex) or x < 0 else math.sqrt(x)
    if a.kind == "abs":
        return abs(val(a.args[0], env))
    if a.kind == "floor":
        x = val(a.args[0], env)
        x = x.real if isinstance(x, complex) else x
        return math.floor(x + 1e-12)
    if a.kind == "pow":
        return val(a.args[0], env) ** val(a.args[1], env)
    if a.kind == "fn":
        if a.name in ("min", "max"):
            return extremum(a, env)
        if a.name == "ln$":
            x = val(a.args[0], env)
            return cmath.log(x) if isinstance(x, complex) or x < 0 else math.log(x)
        if a.name == "arg2":
            y, x = (val(z, env) for z in a.args)
            return math.atan2(y.real, x.real)
        if a.name.startswith("sel:") or a.name.startswith("pi:"):
            raise Unsupported("numeric value of an enumeration")
        args = [val(x, env) for x in a.args]
        nm = a.name
        if not getattr(env.fns.get(nm.rstrip("~")), "raw", False):
            args = [int(round(x.real if isinstance(x, complex) else x)) for x in args]
        if nm in env.fns:
            return env.fns[nm](*args)
        if nm.endswith("~") and nm[:-1] in env.fns:
            return np.conj(env.fns[nm[:-1]](*args))
        if nm == "binom":
            return math.comb(*args)
        if nm.rstrip("~") in X.RECUR:
            key = (nm.rstrip("~"), tuple(args))
            memo = env.__dict__.setdefault("memo", {}) if hasattr(env, "__dict__") else {}
            if key not in memo:
                memo[key] = val(X.RECUR[key[0]](*[X.E(x) for x in args]), env)
            return np.conj(memo[key]) if nm.endswith("~") else memo[key]
        raise KeyError(nm)
    raise Unsupported(a.kind)


def extremum(a, env):
    body, ind = a.args
    vs = sorted({s for s in a.args[1].free() if s.name.startswith("_mi_")}, key=lambda s: s.key)
    (k, v), = ind.d.items()
    best = []

    def rec(left):
        if not left:
            if all(cond(c, env) for c in k[3]):
                best.append(val(body, env))
            return
        var = left[0]
        lo, hi = -10 ** 9, 10 ** 9
        for c in k[3]:
            for lit in X.flat_and(c):
                if lit.op in ("le", "lt", "eq") and var in lit.e[0].free() and not any(o in lit.e[0].free() for o in left[1:]):
                    s = X.solve(lit.e[0], var)
                    if s is None:
                        continue
                    co = lit.e[0].d[(((var, 1),), (), X.NIL, X.NIL)][0]
                    x = val(s, env)
                    if lit.op == "eq":
                        lo, hi = max(lo, math.ceil(x - 1e-9)), min(hi, math.floor(x + 1e-9))
                    elif co > 0:
                        hi = min(hi, math.floor(x + 1e-9))
                    else:
                        lo = max(lo, math.ceil(x - 1e-9))
        if lo < -10 ** 8 or hi > 10 ** 8:
            raise Unsupported("unbounded extremum")
        for i in range(lo, hi + 1):
            env.bound[var] = i
            rec(left[1:])
            del env.bound[var]
    rec(vs)
    return min(best) if a.name == "min" else max(best)


TOL = 1e-9


def cond(c, env):
    if c.op == "const":
        return c.const
    if c.op == "not":
        return not cond(c.subs[0], env)
    if c.op == "or":
        return any(cond(x, env) for x in c.subs)
    if c.op == "and":
        return all(cond(x, env) for x in c.subs)
    if c.op == "atom":
        if c.name == "isinf":
            return math.isinf(val(c.e[0], env))
        if c.name == "isint":
            x = val(c.e[0], env)
            return abs(x - round(x.real if isinstance(x, complex) else x)) < 1e-9
        if c.name in env.fns:
            return bool(env.fns[c.name](*[int(round(val(x, env))) for x in c.e]))
        raise Unsupported("predicate " + c.name)
    x = val(c.e[0], env)
    if isinstance(x, complex):
        if c.op == "eq":
            return abs(x) < TOL
        x = x.real
    if c.op == "eq":
        return abs(x) < TOL
    if c.op == "le":
        return x <= TOL
    return x < -TOL


def powr(x, p):
    if isinstance(x, (int, np.integer)):
        x = int(x) if p >= 0 else float(x)
    return x ** p
