"""C20: saving and reloading (ed_base.save, ed_base.load) over the assumed contracts of pickle, savemat/loadmat and the file system"""
import os, tempfile
from ..contract import *
P = "C20"
B = "ed_base.ed_base"


def attrs(v, extra=()):
    return dict({"ts": v.a, "us": v.b, "nsites": v.k, "flag": True, "name": "x", "none": None, "_hidden": v.b, "__x": v.k}, **dict(extra))


def session(call, v, f):
    """f(make) in an empty file system; make(**attrs) is an object with these attributes"""
    if call.symbolic:
        call.I.fs.__init__(call.I)
        r = f(lambda **k: call.obj(B, **k), lambda o: o.attrs)
        return r, [n for n, m in call.I.fs.touched if "r" not in m]
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            os.makedirs("dir.x")

            r = f(lambda **k: call.obj(B, **k), lambda o: o.__dict__)
            return r, [os.path.join(p, q) for p, _, qs in os.walk(".") for q in qs]
        finally:
            os.chdir(here)


def same(a, b):
    """same keys, every value the identical symbolic value (copies of a symbolic value are the value) or an equal concrete one"""
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if x is y:
            continue
        if isinstance(x, Arr) or isinstance(y, Arr) or type(x) is not type(y) or not np.array_equal(x, y):
            return False
    return True


def arrays(c):
    n, m = c.dim("n", 1, 3), c.dim("m", 1, 3)
    c.arr("a", (n, m), "c")
    c.arr("b", (n, m))
    c.integer("k", -3, 5)


NAMES = ("a.pkl", "dir.x/b.c.pkl", None)
for name in NAMES:
    @contract(P, B + ".save", B + ".load", name="saving to " + (name or "the default file") + " and loading restores every attribute")
    def _pkl(c, name=name):
        arrays(c)

        def run(call, v):
            def f(make, d):
                o = make(**attrs(v))
                before = dict(d(o))
                fn = call.method(o, "save", *([] if name is None else [name]))
                q = make(stale=v.k, nsites=v.a)
                w = call.method(q, "load", fn)
                return before, d(o), d(q), d(w), fn, type(fn) is str and (fn == name or name is None and fn.endswith(".pkl"))
            (b, o, q, w, fn, ok), files = session(call, v, f)
            return b, o, q, w, ok and len(files) == 1
        c.calls(run)
        yes = lambda z: (TRUE if z else FALSE)
        for tx, f in (("the loaded object has exactly the attributes of the saved one", lambda r: same(r[0], r[2])), ("the saved object is unchanged", lambda r: same(r[0], r[1])),
                      ("the returned object has them as well", lambda r: same(r[0], r[3])), ("one file with the returned name is written", lambda r: r[4])):
            c.ensures_cond(tx, lambda r, v, symbolic, f=f: yes(f(r)) if symbolic else f(r))


@contract(P, B + ".save", B + ".load", name="a file that is saved again holds the later object, also after loading")
def _twice(c):
    arrays(c)

    def run(call, v):
        def f(make, d):
            o, o2 = make(**attrs(v)), make(other=v.b, ts=v.k)
            b, b2 = dict(d(o)), dict(d(o2))
            q, q2 = make(), make(stale=v.a)
            call.method(o, "save", "a.pkl"), call.method(q, "load", "a.pkl")
            first = dict(d(q))
            call.method(o2, "save", "a.pkl"), call.method(q2, "load", "a.pkl")
            return b, b2, first, dict(d(q2)), dict(d(q))
        return session(call, v, f)[0]
    c.calls(run)
    ok = lambda r: same(r[0], r[2]) and same(r[1], r[3]) and same(r[2], r[4])
    c.ensures_cond("each load returns the object saved last before it", lambda r, v, symbolic: (TRUE if ok(r) else FALSE) if symbolic else ok(r))


@contract(P, B + ".save", B + ".load", name="MATLAB files restore the public two-dimensional arrays")
def _mat(c):
    arrays(c)

    def run(call, v):
        def f(make, d):
            o, q = make(ts=v.a, us=v.b), make(stale=v.k)
            b = dict(d(o))
            call.method(o, "save", "a.mat")
            call.method(q, "load", "a.mat")
            return b, d(o), d(q)
        return session(call, v, f)[0]
    c.calls(run)
    ok = lambda r: same(r[0], r[2]) and same(r[0], r[1])
    c.ensures_cond("the loaded object has exactly the arrays of the saved one", lambda r, v, symbolic: (TRUE if ok(r) else FALSE) if symbolic else ok(r))


for name in ("a.txt", "a", "pkl", "a.pkl.bak", "a.pkl2", "a.matx", "mat.h5"):
    @contract(P, B + ".save", B + ".load", name=f"the file name {name} is rejected without writing")
    def _bad(c, name=name):
        arrays(c)

        def run(call, v):
            def f(make, d):
                o = make(**attrs(v))
                b = dict(d(o))
                out = []
                for m in ("save", "load"):
                    try:
                        call.method(o, m, name)
                        out.append(False)
                    except Exception as e:
                        out.append((e.exc if call.symbolic else type(e).__name__) == "ValueError")
                return b, d(o), out
            r, files = session(call, v, f)
            return r + (files,)
        c.calls(run)
        ok = lambda r: same(r[0], r[1]) and r[2] == [True, True] and r[3] == []
        c.ensures_cond("ValueError, object unchanged, no file", lambda r, v, symbolic: (TRUE if ok(r) else FALSE) if symbolic else ok(r))
