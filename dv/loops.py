"""Summaries of loops over a symbolic number of iterations.

The body is executed once, for a symbolic iteration i, on placeholders X for everything it changes. With x' the value after
the body, the summary is the closed form of the recurrence x_{i+1} = body(i, x_i):
   x' = X + f(i)                 ->  x0 + sum_{i<n} f(i)                                       (accumulation)
   x' = K(i) X + R(i), K in {0,1}, K R = 0, at most one i with K = 0                           (fill)
                                 ->  x0 (1 - sum_i (1 - K)) + sum_i R(i)
   list' = list + [e(i)]         ->  list + [e(0), ..., e(n-1)]                                (append)
f, K, R must not mention X (checked). Both closed forms follow by induction on the number of iterations.
Anything else is Unsupported.
"""
import ast
import numpy as np
from . import expr as X
from . import sym as S
from .expr import E, Unsupported, cand, cor, cnot, eq, le, lt, ite, TRUE, FALSE, Cond, Expr
from .sym import Arr, Raised, toarr, SymSeq, SymRange, mkscalar, numv, tocond, memo


def copy_state(fr, sub):
    """deep copy of the mutable state reachable from the frame (sub: its copy); returns (copy, {id(original): copy}, originals, frames)"""
    from .interp import Obj, Fn, Bound, Frame
    mp = {}
    keep = []
    frames = {id(fr): sub}
    fkeep = [fr]

    def cpframe(f):
        if f is None or f.l is f.module.g:
            return f
        if id(f) in frames:
            return frames[id(f)]
        r = Frame(sub.interp if hasattr(sub, "interp") else None, f.module, None, f.fn)
        frames[id(f)] = r
        fkeep.append(f)
        r.globals_, r.nonlocals = f.globals_, f.nonlocals
        r.parent = cpframe(f.parent)
        for k, x in f.l.items():
            r.l[k] = cp(x)
        return r

    def cp(v):
        if id(v) in mp:
            return mp[id(v)]
        if type(v) is Fn and v.frame is not None and v.frame.l is not v.module.g:
            r = Fn.__new__(Fn)
            mp[id(v)] = r
            keep.append(v)
            r.__dict__.update(v.__dict__)
            r.frame = cpframe(v.frame)
            return r
        if type(v) is Bound and isinstance(v.obj, (Obj, Arr, list, dict)):
            r = Bound(cp(v.obj), v.fn)
            mp[id(v)] = r
            keep.append(v)
            return r
        if isinstance(v, Arr):
            r = Arr.__new__(Arr)
            mp[id(v)] = r
            keep.append(v)
            r.__dict__.update(v.__dict__)
            if v.base is not None:
                r.base = (cp(v.base[0]), v.base[1])
            return r
        if type(v) is list:
            r = []
            mp[id(v)] = r
            keep.append(v)
            r.extend(cp(x) for x in v)
            return r
        if type(v) is dict:
            r = {}
            mp[id(v)] = r
            keep.append(v)
            for k, x in v.items():
                r[k] = cp(x)
            return r
        if type(v) is tuple:
            r = tuple(cp(x) for x in v)
            if all(a is b for a, b in zip(r, v)):
                return v
            return r
        if isinstance(v, Obj):
            r = Obj(v.cls)
            mp[id(v)] = r
            keep.append(v)
            for k, x in v.attrs.items():
                r.attrs[k] = cp(x)
            return r
        if isinstance(v, np.ndarray):
            r = v.copy()
            mp[id(v)] = r
            keep.append(v)
            return r
        if isinstance(v, set):
            r = set(v)
            mp[id(v)] = r
            keep.append(v)
            return r
        return v
    sub.parent = cpframe(fr.parent)
    for k, v in fr.l.items():
        sub.l[k] = cp(v)
    return sub.l, mp, keep, [(f, dict(f.l)) for i, f in frames.items() if f is not sub], fkeep


def kind_of(v):
    if isinstance(v, (bool, int, float, complex, np.number)):
        return "num"
    if isinstance(v, Arr):
        return "num" if v.ndim == 0 else "arr"
    if S.foreign(v):
        return "op"
    if isinstance(v, np.ndarray):
        return "num" if v.ndim == 0 else "arr"
    if isinstance(v, list):
        return "list"
    return "other"


def placeholder_arr(name, axes, dt, sparse=None, py=None):
    props = ["real"] if dt != "c" else []
    if dt == "i":
        props.append("int")

    def flat(ix):
        out = []
        for i in ix:
            if isinstance(i, tuple):
                out += flat(i)
            else:
                out.append(E(i))
        return out
    return Arr(axes, lambda ix: X.fn(name, flat(ix), *props) if ix else X.sym(name, *props), dt, sparse, py)


def mentions(e, name):
    """does the value mention the placeholder"""
    if isinstance(e, Cond):
        if e.op in ("eq", "le", "lt", "atom"):
            return any(mentions(x, name) for x in e.e)
        return any(mentions(c, name) for c in (e.subs or ()))

    def am(a):
        return (a.kind in ("fn", "sym", "op") and a.name.rstrip("~") == name) or any(mentions(x, name) for x in a.args)
    for k in e.d:
        if any(am(a) for a, p in k[0]) or any(am(a) for a in k[1]) or any(mentions(c, name) for c in k[3]):
            return True
    return False


def summarise(I, st, fr, it):
    from .interp import _Return, _Break, _Continue, Poison, Frame
    n = it.n
    if I.wl is not None:
        return I.wl.loop(I, st, fr, it)
    h = I.invariants.get((fr.fn.qual if fr.fn else "")) if I.invariants else None
    if h is not None:
        r = h(I, st, fr, it)
        if r is not NotImplemented:
            return
    if X.implied(le(n, 0)):
        return
    v = X.fresh_int("i")
    rng = [le(0, E(v)), lt(E(v), n)]
    base_depth = X.hyp_depth()

    def run_body(tweak):
        """explore the body on a copy of the state; tweak(copy, map) installs placeholders"""
        def once():
            sub = Frame(I, fr.module, None, fr.fn)
            sub.globals_, sub.nonlocals = fr.globals_, fr.nonlocals
            if sub.nonlocals:
                raise Unsupported("nonlocal in a symbolic loop")
            loc, mp, keep, frames, fkeep = copy_state(fr, sub)
            tweak(loc, mp)
            start = {k: x for k, x in loc.items()}
            vers = {i: x.version for i, x in mp.items() if isinstance(x, Arr)}
            lens = {i: list(x) for i, x in mp.items() if type(x).__name__ in ("list", "GhostList")}
            objs = {i: dict(x.attrs) for i, x in mp.items() if type(x).__name__ == "Obj"}
            dicts = {i: dict(x) for i, x in mp.items() if type(x) is dict}
            nds = {i: x.copy() for i, x in mp.items() if isinstance(x, np.ndarray)}
            I.assign(st.target, it.item(E(v)), sub)
            status = "next"
            try:
                I.block(st.body, sub)
            except _Continue:
                pass
            except _Break:
                status = "break"
            except _Return:
                status = "return"
            except Raised as e:
                status = "raise " + e.exc
            for f, l0 in frames:
                if set(f.l) != set(l0) or any(f.l[k] is not x for k, x in l0.items()):
                    raise Unsupported("a variable of an enclosing function is assigned in a symbolic loop")
            return dict(status=status, loc=loc, start=start, mp=mp, keep=keep, vers=vers, lens=lens, objs=objs, dicts=dicts, nds=nds)
        X.push_hyps(rng)
        try:
            return I.explore(once)
        finally:
            X.pop_to(base_depth)

    target_names = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)}
    # ---- phase 1: what changes
    names, objs = {}, {}
    arr0 = {}
    for rnd in range(3):
        def tweak(loc, mp, names=dict(names), objs=dict(objs)):
            for nm, (kind, ph) in names.items():
                loc[nm] = ph()
            for oid, (kind, ph) in objs.items():
                c = mp[oid]
                if kind == "arr":
                    c._f = ph
                elif kind == "list":
                    c.clear()
        paths = run_body(tweak)
        grew = False
        for conds, o in paths:
            if o["status"] in ("break", "return"):
                raise Unsupported(f"{o['status']} inside a loop over a symbolic range")
            if o["status"].startswith("raise"):
                continue
            rev = {id(c): i for i, c in o["mp"].items()}
            for nm, val in o["loc"].items():
                if nm in target_names:
                    continue
                if nm in o["start"] and o["start"][nm] is val:
                    continue
                if nm in names:
                    if names[nm][0] != kind_of(val) and names[nm][0] not in ("other", "fresh"):
                        if not (names[nm][0] == "num" and kind_of(val) in ("op", "arr")):
                            raise Unsupported(f"type of {nm} changes in the loop")
                        names.pop(nm)
                    else:
                        continue
                grew = True
                names[nm] = mkplace(I, nm, fr.l.get(nm, MISSING), val)
            for i, c in o["mp"].items():
                if i in objs:
                    continue
                if isinstance(c, Arr) and c.version != o["vers"].get(i, c.version):
                    orig = next(x for x in o["keep"] if id(x) == i)
                    nmx = f"X:{next(X._ids)}"
                    ph = placeholder_arr(nmx, orig.axes, orig.dt)
                    objs[i] = ("arr", ph._f)
                    arr0[i] = (orig, nmx)
                    grew = True
                elif type(c) is list and (len(c) != len(o["lens"][i]) or any(a is not b for a, b in zip(c, o["lens"][i]))):
                    orig = next(x for x in o["keep"] if id(x) == i)
                    objs[i] = ("list", None)
                    arr0[i] = (orig, None)
                    grew = True
                elif i in o["objs"] and any(c.attrs.get(k) is not x for k, x in o["objs"][i].items()) or i in o["objs"] and len(c.attrs) != len(o["objs"][i]):
                    raise Unsupported("object attribute assigned in a symbolic loop")
                elif i in o["dicts"] and (len(c) != len(o["dicts"][i]) or any(c.get(k) is not x for k, x in o["dicts"][i].items())):
                    raise Unsupported("dict changed in a symbolic loop")
                elif i in o["nds"] and not np.array_equal(c, o["nds"][i]):
                    raise Unsupported("concrete array changed in a symbolic loop")
            for nm_id, pr in list(I.promoted.items()):
                if any(c is pr[0] for c in o["mp"].values()):
                    # a concrete array receives symbolic values: restart with it promoted
                    orig = next((x for x in o["keep"] if o["mp"][id(x)] is pr[0]), None)
                    del I.promoted[nm_id]
                    if orig is not None:
                        for k2, x2 in fr.l.items():
                            if x2 is orig:
                                fr.l[k2] = toarr(orig.copy())
                        return summarise(I, st, fr, it)
        if not grew and rnd > 0:
            break
        if not names and not objs:
            break
    else:
        raise Unsupported("loop state did not stabilise")
    # paths is now the run with all placeholders installed
    live = []
    for conds, o in paths:
        if o["status"].startswith("raise"):
            raise Unsupported(f"the loop body may raise ({o['status']})")
        live.append((cand(*conds), o))
    # ---- summaries
    results = {}
    for nm, (kind, ph) in names.items():
        x0 = fr.l.get(nm, MISSING)
        vals = []
        for c, o in live:
            vals.append((c, o["loc"].get(nm, MISSING)))
        results[nm] = close(I, nm, kind, ph, x0, vals, v, n)
    newf = {}
    for i, (kind, ph) in objs.items():
        orig, nmx = arr0[i]
        if kind == "arr":
            fs = [(c, o["mp"][i].snap()) for c, o in live]
            newf[i] = (orig, close_arr(orig.snap(), nmx, fs, v, n, orig.axes, ph))
        else:
            if len(live) != 1:
                raise Unsupported("conditional append in a symbolic loop")
            c, o = live[0]
            add = list(o["mp"][i])
            newf[i] = (orig, ("append", add))
    for nm, val in results.items():
        fr.l[nm] = val
    for i, (orig, f) in newf.items():
        if isinstance(orig, Arr):
            orig.set(f)
        else:
            _, add = f
            if len(add) != 1:
                raise Unsupported("several appends per iteration")
            if orig:
                raise Unsupported("append to a non-empty list in a symbolic loop")
            e = add[0]
            seq = SymSeq(n, lambda k, e=e: subst_value(e, {v: E(k)}))
            hit = False
            for k2, x2 in list(fr.l.items()):
                if x2 is orig:
                    fr.l[k2] = seq
                    hit = True
            if not hit:
                raise Unsupported("appended list is not a local variable")
    for nm in target_names:
        fr.l[nm] = Poison("loop variable used after a symbolic loop")


class _Missing:
    pass


MISSING = _Missing()


def mkplace(I, nm, x0, val):
    """(kind, factory) of the placeholder for a changed name"""
    from .interp import Poison, Text
    k = kind_of(val)
    if x0 is MISSING or (isinstance(x0, Poison) and not isinstance(x0, Text)):
        return ("fresh", lambda: Poison(f"{nm} read before it is assigned in the loop"))
    tag = f"X:{next(X._ids)}"
    if k == "num":
        if kind_of(x0) != "num":
            return ("other", lambda: Poison(f"{nm} changes type in the loop"))
        dt = S.join(toarr(x0).dt, toarr(val).dt)
        if dt == "b":
            return ("other", lambda: Poison(f"boolean {nm} changes in the loop"))
        p = placeholder_arr(tag, (), dt, py=toarr(val).py)
        p.tag = tag
        return ("num", lambda: p)
    if k == "arr":
        val = toarr(val)
        dt = val.dt
        if kind_of(x0) == "arr":
            dt = S.join(dt, toarr(x0).dt)
        elif kind_of(x0) != "num":
            return ("other", lambda: Poison(f"{nm} changes type in the loop"))
        p = placeholder_arr(tag, val.axes, dt, val.sparse)
        p.tag = tag

        def mk():
            r = Arr(p.axes, p._f, p.dt, p.sparse)
            r.tag = tag
            return r
        mk.tag = tag
        mk.axes = p.axes
        return ("arr", mk)
    if k == "op":
        p = val.placeholder(tag)
        p.tag = tag
        return ("op", lambda: p)
    if isinstance(x0, (str, Text)):
        return ("other", lambda: Text())
    return ("other", lambda: Poison(f"{nm} is carried between iterations"))


def subst_value(e, env):
    if isinstance(e, Arr):
        f = e.snap()
        axes = [subst_ax(a, env) for a in e.axes]
        return Arr(axes, lambda ix: vsubst(f(ix), env), e.dt, e.sparse, e.py)
    if isinstance(e, tuple):
        return tuple(subst_value(x, env) for x in e)
    if isinstance(e, list):
        return [subst_value(x, env) for x in e]
    if S.foreign(e):
        return e.subst(env)
    if isinstance(e, (int, float, complex, str, bool, type(None), np.ndarray, np.number)):
        return e
    raise Unsupported("list element")


def subst_ax(a, env):
    if a.kind == "plain":
        return S.plain(X.subst(a.n, env))
    if a.kind in ("prod", "cat"):
        return S.Ax(a.kind, subs=[subst_ax(s, env) for s in a.subs])
    if a.kind == "sel":
        m = a.mask
        return S.Ax("sel", subs=[subst_ax(s, env) for s in a.subs], mask=lambda ix: m(ix).subst(env))
    raise Unsupported("axis substitution")


def vsubst(v, env):
    return v.subst(env) if isinstance(v, Cond) else X.subst(v, env)


def close(I, nm, kind, ph, x0, vals, v, n):
    """value of the name after the loop"""
    from .interp import Poison, Text
    if kind == "other" and isinstance(ph(), Text):
        return Text()
    if kind in ("fresh", "other"):
        return Poison(f"{nm} is local to the loop body")
    if any(x is MISSING for _, x in vals):
        return Poison(f"{nm} is not assigned on every path")
    p = ph()
    if kind == "op":
        return p.close(p.tag, x0, vals, v, n)
    if kind == "num":
        a0 = toarr(x0)
        tag = p.tag
        xs = X.sym(tag, *sorted(next(iter(E(p).d))[0][0][0].props))
        f = close_arr(a0.snap(), tag, [(c, toarr(x).snap()) for c, x in vals], v, n, (), lambda ix: E(p))
        if f is None:
            return Poison(f"{nm} is overwritten in the loop")
        dt = S.join(a0.dt, *[toarr(x).dt for _, x in vals])
        val = f(())
        return mkscalar(val, dt, toarr(vals[0][1]).py)
    if kind == "arr":
        a0 = toarr(x0)
        f0 = a0.snap()
        nd = len(p.axes)
        if a0.ndim == 0:
            z = f0(())
            g0 = lambda ix: z
        else:
            if len(a0.axes) != nd or not all(S.ax_same(a, b) for a, b in zip(a0.axes, p.axes)):
                raise Unsupported(f"shape of {nm} changes in the loop")
            g0 = f0
        f = close_arr(g0, p.tag, [(c, toarr(x).snap()) for c, x in vals], v, n, p.axes, p._f)
        if f is None:
            return Poison(f"{nm} is overwritten in the loop")
        dt = S.join(a0.dt, *[toarr(x).dt for _, x in vals])
        return Arr(p.axes, f, dt, toarr(vals[0][1]).sparse)
    raise Unsupported(kind)


def close_arr(f0, tag, paths, v, n, axes, ph):
    """closed form of the element recurrence; f0: initial values, paths: [(cond, f)] after one iteration from ph"""
    alts = S.fresh_index(S.Ax("prod", subs=axes)) if axes else [((), [])]
    H = list(X.GLOBAL.hyps) + [le(0, E(v)), lt(E(v), n)]

    def under(f):
        def g(ix):
            old = X.GLOBAL.hyps
            ks = {h.key for h in H}
            X.GLOBAL.hyps = H + [h for h in old if h.key not in ks]
            try:
                return f(ix)
            finally:
                X.GLOBAL.hyps = old
        return g
    forms = []
    for ix, cs in alts:
        dep = X.hyp_depth()
        X.push_hyps([le(0, E(v)), lt(E(v), n)] + cs)
        try:
            cur = E(0)
            for c, f in paths:
                val = numv(f(ix))
                cur = cur + (X.with_cond(val, [c]) if c.const is None else val if c.const else E(0))
            d = X.simplify(cur - E(ph(ix)))
            if mentions(d, tag) and not mentions(drop(cur, ph(ix), tag), tag):
                d = mergeconds(d, ph(ix), tag)
            forms.append((ix, cur, d))
        finally:
            X.pop_to(dep)
    if all(not mentions(d, tag) for _, _, d in forms):
        def acc_(ix):
            dd = E(0)
            for c, f in paths:
                val = numv(f(ix)) - E(ph(ix))
                dd = dd + (X.with_cond(val, [c]) if c.const is None else val if c.const else E(0))
            dd = mergeconds(dd, ph(ix), tag)
            if mentions(dd, tag):
                dd = X.simplify(dd)
                if mentions(dd, tag):
                    raise Unsupported("accumulator mentioned after merging")
            return numv(f0(ix)) + X.sum_over(dd, v, 0, n)
        return memo(under(acc_))
    r = recursive_fill(f0, tag, paths, v, n, axes, ph, forms)
    if r is not None:
        return memo(under(r))
    # fill form
    oks = True
    for ix, cur, d in forms:
        K, R = coef(cur, ph(ix), tag)
        if K is None:
            oks = False
            break
        if not K.d:
            if axes == ():
                return None          # scalar overwritten: only defined by the last iteration
        dep = X.hyp_depth()
        X.push_hyps([le(0, E(v)), lt(E(v), n)])
        try:
            if not X.iszero(K * R):
                oks = False
                break
            zero = (cnot(cor(*condsof(K))) if all(c == X.ONE for c in K.d.values()) else cor(*overwritten(K))) if K.d else TRUE
            v2 = X.fresh_int("i")
            z2 = zero.subst({v: E(v2)})
            if X.feasible([zero, z2, cnot(eq(E(v), E(v2))), le(0, E(v2)), lt(E(v2), n)]):
                oks = False
                break
        finally:
            X.pop_to(dep)
    if not oks:
        raise Unsupported("loop-carried dependence that is neither an accumulation nor a fill")

    def fill(ix):
        cur = E(0)
        for c, f in paths:
            val = numv(f(ix))
            cur = cur + (X.with_cond(val, [c]) if c.const is None else val if c.const else E(0))
        K, R = coef(cur, ph(ix), tag)
        W = X.sum_over(written(K), v, 0, n) if (E(1) - K).d else E(0)
        return numv(f0(ix)) * (E(1) - W) + X.sum_over(R, v, 0, n)
    return memo(under(fill))


def written(K):
    """1 - K for an indicator K of disjoint conditions, as a sum of conjunctions where that is short"""
    if not K.d:
        return E(1)
    if any(v != X.ONE for v in K.d.values()):
        return E(1) - K
    z = cnot(cor(*condsof(K)))
    alts = list(z.subs) if z.op == "or" else [z]
    if len(alts) > 3:
        return E(1) - K
    out = E(0)
    for m in range(1, 2 ** len(alts)):
        pick = [a for i, a in enumerate(alts) if m >> i & 1]
        out = out + (X.with_cond(E(1), [cand(*pick)]) if cand(*pick).const is None else E(1 if cand(*pick).const else 0)) * (-1) ** (len(pick) + 1)
    return out


def recursive_fill(f0, tag, paths, v, n, axes, ph, forms):
    """iteration i overwrites exactly the entries whose first index is i, with values that may depend on the array:
         w(i, ..) = R(i, ..)[X(j, ..) := w(j, ..) if j < i else x0(j, ..)]      (0 <= i < n)
    The result is the sequence w defined by this recurrence (well founded: only smaller first indices occur)."""
    if not axes or axes[0].kind != "plain" or any(a.kind != "plain" for a in axes):
        return None
    rec = False
    for ix, cur, d in forms:
        (xk, xv), = E(ph(ix)).d.items()
        xa = xk[0][0][0]
        K, R = {}, {}
        for k, c in cur.d.items():
            if k[0] == ((xa, 1),) and not k[1] and not k[2] and c == X.ONE and not any(mentions(q, tag) for q in k[3]):
                X.acc(K, ((), (), X.NIL, k[3]), c)
            else:
                X.acc(R, k, c)
        K, R = Expr(K), Expr(R)
        if not mentions(R, tag):
            return None
        rec = True
        here = eq(E(ix[0]), E(v))
        dep = X.hyp_depth()
        X.push_hyps([le(0, E(v)), lt(E(v), n), le(0, E(ix[0])), lt(E(ix[0]), axes[0].n)])
        try:
            if not X.iszero(K - X.indicator(cnot(here))):
                return None
            if not all(k[3] and not X.feasible(list(k[3]) + [cnot(here)]) for k in R.d):
                return None
        finally:
            X.pop_to(dep)
    if not rec or len(forms) != 1:
        return None
    ix0, cur, _ = forms[0]
    (xk, xv), = E(ph(ix0)).d.items()
    xa = xk[0][0][0]
    R = Expr({k: c for k, c in cur.d.items() if not (k[0] == ((xa, 1),) and not k[1] and not k[2])})
    name = "rec:" + str(next(X._ids))
    props = sorted(xa.props)

    def step(*args):
        i, rest = args[0], args[1:]
        env = {v: i}
        for a, b in zip(ix0, args):
            env[next(iter(E(a).free()))] = b
        r = X.subst(R, env)
        return X.replace_fn(r, tag, lambda j, *q: ite(lt(j, i), X.fn(name, (j,) + q, *props), numv(f0((j,) + q))))
    X.RECUR[name] = step

    def value(ix):
        if E(n).key == axes[0].n.key:
            return X.fn(name, ix, *props)
        return ite(lt(E(ix[0]), n), X.fn(name, ix, *props), numv(f0(ix)))
    return value


def drop(cur, x, tag):
    K, R = coef(cur, x, tag)
    return R if K is not None else cur


def condsof(K):
    out = []
    for k, c in K.d.items():
        out.append(cand(*k[3]) if k[3] else TRUE)
    return out


def coef(cur, x, tag):
    """cur = K x + R with K a 0/1 indicator expression and R free of the placeholder"""
    (xk, xv), = E(x).d.items()
    xa = xk[0][0][0]
    K, R = {}, {}
    for k, c in cur.d.items():
        if any(a is xa for a, p in k[0]):
            if k[0] != ((xa, 1),) or k[1] or k[2] or any(mentions(q, tag) for q in k[3]):
                return None, None
            X.acc(K, ((), (), X.NIL, k[3]), c)
        else:
            X.acc(R, k, c)
    R = Expr(R)
    if mentions(R, tag):
        return None, None
    K = Expr(K)
    if any(c != X.ONE for c in K.d.values()):
        K = X.simplify(K)
        if any(c != X.ONE for c in K.d.values()) and overwritten(K) is None:
            return None, None
    return K, R


def overwritten(K):
    """[C1, C2, ..] with K = 1 - [C1] - [C2] - .. and pairwise exclusive conditions, or None"""
    W = E(1) - K
    if any(c != X.ONE or k[2] for k, c in W.d.items()):
        return None
    cs = condsof(W)
    if any(X.feasible([a, b]) for i, a in enumerate(cs) for b in cs[:i]):
        return None
    return cs


def mergeconds(d, x, tag):
    """drop the placeholder terms if they cancel semantically"""
    (xk, xv), = E(x).d.items()
    xa = xk[0][0][0]
    px, rest = {}, {}
    for k, c in d.d.items():
        (px if any(a is xa for a, p in k[0]) else rest)[k] = c
    if px and X.iszero(Expr(px)):
        return Expr(rest)
    return d
