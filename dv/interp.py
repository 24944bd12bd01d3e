"""Symbolic interpreter of the real source.

Parses /repo/exact_diag/*.py on every run and executes the function bodies on symbolic values (sym.py):
  * a branch on an undecided condition is explored both ways (decision replay, infeasible sides pruned by z3);
  * a loop over a symbolic range is replaced by its summary: accumulation  x0 + sum_i f(i), fill  x[i] = v(i), append, or by a
    stated loop invariant that is itself checked (initialisation and preservation);
  * a call to a function under contract is replaced by that contract (stubs); any other call is executed (inlined).
Anything outside of the subset raises Unsupported (obligation undecided, never an alarm).
"""
import ast, copy, importlib, itertools, os, operator
import numpy as np
from . import expr as X
from . import sym as S
from . import symnp
from . import files
from .expr import E, Unsupported, cand, cor, cnot, eq, le, lt, ite, TRUE, FALSE, Cond, Expr
from .sym import Arr, Raised, toarr, issym, mkscalar, SymRange, SymSeq, plain, numv, tocond, memo


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Module:
    def __init__(self, name):
        self.name = name
        self.g = {}


class Fn:
    def __init__(self, interp, node, frame, module, qual):
        self.interp, self.node, self.frame, self.module, self.qual = interp, node, frame, module, qual
        self.name = getattr(node, "name", "<lambda>")
        a = node.args
        self.defaults = [interp.ev(d, frame) for d in a.defaults]
        self.kwdefaults = [None if d is None else interp.ev(d, frame) for d in a.kw_defaults]
        self.cls = None

    def __deepcopy__(self, memo_):
        return self

    def __call__(self, *args, **kw):
        return self.interp.call_fn(self, args, kw)


class Bound:
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn
        self.qual = getattr(fn, "qual", "")

    def __call__(self, *args, **kw):
        return self.fn(self.obj, *args, **kw)


class Cls:
    def __init__(self, interp, name, bases, d):
        self.interp, self.name, self.bases, self.d = interp, name, bases, d

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, n):
        for c in self.mro():
            if n in c.d:
                return c.d[n]
        raise KeyError(n)

    def __deepcopy__(self, memo_):
        return self

    def __call__(self, *a, **k):
        o = Obj(self)
        try:
            init = self.find("__init__")
        except KeyError:
            return o
        init(o, *a, **k)
        return o


class Prop:
    def __init__(self, f):
        self.f = f


class Static:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Obj:
    partial = False

    def __init__(self, cls, **attrs):
        self.__dict__["cls"] = cls
        self.__dict__["attrs"] = dict(attrs)

    def __repr__(self):
        return f"<{self.cls.name}>"


class Frame:
    def __init__(self, interp, module, parent=None, fn=None):
        self.l = {}
        self.module, self.parent, self.fn = module, parent, fn
        self.globals_ = set()
        self.nonlocals = set()


class Poison:
    def __init__(self, why):
        self.why = why


class Text(Poison):
    """some text: only concatenation and formatting are known to give text again"""
    def __init__(self):
        self.why = "a text built in a loop"


class GhostList(list):
    """placeholder of a list that is appended to in a symbolic loop"""
    ghost = True


class Explorer:
    def __init__(self, script):
        self.script, self.pos, self.taken, self.conds = script, 0, [], []

    def branch(self, c):
        v = self.script[self.pos] if self.pos < len(self.script) else True
        self.pos += 1
        self.taken.append(v)
        k = c if v else cnot(c)
        self.conds.append(k)
        X.push_hyps([k])
        return v


BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
       ast.Mod: operator.mod, ast.Pow: operator.pow, ast.MatMult: operator.matmul, ast.BitAnd: operator.and_, ast.BitOr: operator.or_,
       ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}


class Interp:
    MAXPATHS = 96

    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        self.stubs = {}          # qualified name -> callable(interp, fn, bound-arguments dict)
        self.invariants = {}     # qualified name -> loop handler
        self.wl = None           # worklist domain (dv/worklist.py): loops by invariant
        self.used = set()        # functions executed (inlined) on this run
        self.stubbed = set()
        self.fs = files.FS(self)
        self.np = symnp.make_np()
        self.sp = symnp.make_sp()
        self.stack = []
        self.depth = 0
        self.promoted = {}

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, "exact_diag", name + ".py")
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        m = Module(name)
        self.modules[name] = m
        fr = Frame(self, m)
        fr.l = m.g
        for st in tree.body:
            if isinstance(st, ast.If):
                continue
            self.stmt(st, fr)
        return m

    def fn(self, module, qual):
        m = self.module(module)
        parts = qual.split(".")
        v = m.g.get(parts[0])
        if v is None:
            raise Unsupported(f"{module}.{qual} not found")
        for p in parts[1:]:
            try:
                v = v.find(p)
            except KeyError:
                raise Unsupported(f"{module}.{qual} not found")
        if isinstance(v, Static):
            return v.f
        if isinstance(v, ClassM):
            return Bound(m.g[parts[0]], v.f)
        return v

    def do_import(self, st, fr):
        if isinstance(st, ast.Import):
            for a in st.names:
                nm = a.asname or a.name.split(".")[0]
                fr.l[nm] = self.import_name(a.name if a.asname else a.name.split(".")[0])
        else:
            mod = st.module or ""
            for a in st.names:
                fr.l[a.asname or a.name] = self.import_from(mod, a.name)

    def import_name(self, n):
        if n == "numpy":
            return self.np
        if n == "scipy.sparse":
            return self.sp
        if n.startswith("exact_diag"):
            if n == "exact_diag":
                raise Unsupported("import exact_diag")
            return self.module(n.split(".")[1])
        if n.startswith("scipy") or n.startswith("numpy"):
            return symnp.Proxy(importlib.import_module(n), n + ".")
        if n.startswith("matplotlib"):
            return None
        if n in ("os", "pickle"):
            return (files.Os if n == "os" else files.Pickle)(self.fs)
        if n in ("shutil", "subprocess", "tempfile", "pathlib", "io", "os.path"):
            return Poison("module " + n)
        return importlib.import_module(n)

    def import_from(self, mod, n):
        if mod.startswith("exact_diag"):
            if "." in mod:
                return self.module(mod.split(".")[1]).g[n]
            return self.module(n)
        if mod == "numpy":
            return getattr(self.np, n)
        if mod == "scipy.sparse":
            return getattr(self.sp, n)
        if mod == "warnings" and n == "warn":
            return lambda *a, **k: None
        if mod == "time":
            return lambda *a, **k: 0.0
        if mod in ("os", "pickle"):
            return getattr(self.import_name(mod), n)
        if mod == "os.path":
            return getattr(files.OsPath(self.fs), n)
        if mod == "scipy.io" and n in ("savemat", "loadmat"):
            return getattr(self.fs, n)
        if mod in ("shutil", "subprocess", "tempfile", "pathlib", "io"):
            return Poison("module " + mod)
        if mod.startswith("scipy") or mod.startswith("numpy"):
            return getattr(symnp.Proxy(importlib.import_module(mod), mod + "."), n)
        if mod.startswith("matplotlib"):
            return None
        return getattr(importlib.import_module(mod), n)

    # ------------------------------------------------------------ calls
    def bind_args(self, fn, args, kw):
        a = fn.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(names):
            if not a.vararg:
                raise Raised("TypeError", f"{fn.name}() takes {len(names)} positional arguments")
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg:
            out[a.vararg.arg] = ()
        for n, v in zip(names, args):
            out[n] = v
        kwn = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in out and k in names:
                raise Raised("TypeError", f"multiple values for {k}")
            if k in names or k in kwn:
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise Raised("TypeError", f"unexpected keyword argument {k}")
        if a.kwarg:
            out[a.kwarg.arg] = extra
        d0 = len(names) - len(fn.defaults)
        for i, n in enumerate(names):
            if n not in out:
                if i >= d0:
                    out[n] = fn.defaults[i - d0]
                else:
                    raise Raised("TypeError", f"missing argument {n}")
        for n, d in zip(kwn, fn.kwdefaults):
            if n not in out:
                out[n] = d
        return out

    def call_fn(self, fn, args, kw):
        loc = self.bind_args(fn, args, kw)
        st = self.stubs.get(fn.qual)
        if st is not None and not getattr(st, "off", False):
            r = st(self, fn, loc)
            if r is not NotImplemented:
                self.stubbed.add(fn.qual)
                return r
        if fn.qual:
            self.used.add(fn.qual)
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported("recursion depth")
        fr = Frame(self, fn.module, fn.frame if fn.frame is not None and fn.frame.l is not fn.module.g else None, fn)
        fr.l.update(loc)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, fr)
            try:
                self.block(fn.node.body, fr)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def call(self, f, args, kw):
        if f is None:
            raise Raised("TypeError", "'NoneType' object is not callable")
        h = BUILTIN.get(f) if isinstance(f, type) or callable(f) and getattr(f, "__hash__", None) else None
        if h is not None:
            return h(self, *args, **kw)
        if isinstance(f, (Fn, Bound, Cls)):
            return f(*args, **kw)
        sy = issym(list(args)) or issym(list(kw.values())) or symnp.opargs(args, kw)
        slf = getattr(f, "__self__", None)
        if isinstance(slf, (np.ndarray, np.generic)) and sy:
            return getattr(toarr(slf), f.__name__)(*args, **kw)
        if isinstance(slf, (list, dict, set)) or hasattr(slf, "wl_list") or isinstance(slf, (Arr, SymSeq)) or hasattr(slf, "is_symbolic_operator") or isinstance(f, symnp.ClassProxy) or hasattr(f, "full") or getattr(f, "symbolic_ok", False):
            if isinstance(slf, list) and sy and f.__name__ == "index":
                return self.list_index(slf, args[0])
            return f(*args, **kw)
        if isinstance(f, type) and issubclass(f, Exception):
            return f("message")
        if sy and f is chr:
            return "formatted"
        if sy:
            raise Unsupported(f"call of {getattr(f, '__name__', f)} on symbolic values")
        if f not in (print, id, callable) and any(isinstance(a, Obj) for a in (*args, *kw.values())):
            raise Unsupported(f"call of {getattr(f, '__name__', f)} on an object")
        try:
            return f(*args, **kw)
        except (Unsupported, Raised):
            raise
        except Exception as e:
            raise Raised(type(e).__name__, str(e))

    def list_index(self, lst, v):
        for i, x in enumerate(lst):
            if S.truth(S.compare(x, v, "eq")):
                return i
        raise Raised("ValueError", "not in list")

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        t = type(st)
        if t is ast.Expr:
            if isinstance(st.value, ast.Constant):
                return
            self.ev(st.value, fr)
        elif t is ast.Assign:
            v = self.ev(st.value, fr)
            for tg in st.targets:
                self.assign(tg, v, fr)
        elif t is ast.AugAssign:
            self.aug(st, fr)
        elif t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, fr), fr)
        elif t is ast.Return:
            raise _Return(None if st.value is None else self.ev(st.value, fr))
        elif t is ast.If:
            if self.truth(self.ev(st.test, fr)):
                self.block(st.body, fr)
            else:
                self.block(st.orelse, fr)
        elif t is ast.For:
            self.for_(st, fr)
        elif t is ast.While:
            self.while_(st, fr)
        elif t is ast.FunctionDef:
            q = (fr.fn.qual + "." if fr.fn is not None and fr.fn.qual else fr.module.name + ".") + st.name
            f = Fn(self, st, fr, fr.module, q)
            v = f
            for d in reversed(st.decorator_list):
                v = self.decorate(d, v, fr)
            self.setname(st.name, v, fr)
        elif t is ast.ClassDef:
            self.classdef(st, fr)
        elif t in (ast.Import, ast.ImportFrom):
            self.do_import(st, fr)
        elif t is ast.Pass:
            pass
        elif t is ast.Break:
            raise _Break()
        elif t is ast.Continue:
            raise _Continue()
        elif t is ast.Raise:
            e = st.exc
            if e is None:
                raise Raised("Exception", "re-raised")
            nm = e.func if isinstance(e, ast.Call) else e
            nm = nm.id if isinstance(nm, ast.Name) else "Exception"
            raise Raised(nm, "")
        elif t is ast.Assert:
            if not self.truth(self.ev(st.test, fr)):
                raise Raised("AssertionError", "")
        elif t is ast.Try:
            try:
                self.block(st.body, fr)
            except Raised as e:
                for h in st.handlers:
                    if h.type is None or e.exc in names_of(h.type) or "Exception" in names_of(h.type):
                        if h.name:
                            fr.l[h.name] = e
                        self.block(h.body, fr)
                        break
                else:
                    self.block(st.finalbody, fr)
                    raise
            else:
                self.block(st.orelse, fr)
            self.block(st.finalbody, fr)
        elif t is ast.Global:
            fr.globals_.update(st.names)
        elif t is ast.Nonlocal:
            fr.nonlocals.update(st.names)
        elif t is ast.Delete:
            for tg in st.targets:
                if isinstance(tg, ast.Name):
                    fr.l.pop(tg.id, None)
                elif isinstance(tg, ast.Subscript):
                    del self.ev(tg.value, fr)[self.index(tg.slice, fr)]
                else:
                    raise Unsupported("del")
        elif t is ast.With:
            cms = []
            for it in st.items:
                cm = self.ev(it.context_expr, fr)
                if not hasattr(cm, "dv_enter"):
                    raise Unsupported("with statement")
                cms.append(cm)
                v = cm.dv_enter()
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
            try:
                self.block(st.body, fr)
            finally:
                for cm in cms:
                    cm.dv_exit()
        else:
            raise Unsupported(t.__name__)

    def decorate(self, d, v, fr):
        nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
        if nm == "property":
            return Prop(v)
        if nm == "staticmethod":
            return Static(v)
        if nm == "classmethod":
            return ClassM(v)
        raise Unsupported("decorator")

    def classdef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        cf = Frame(self, fr.module, fr if fr.l is not fr.module.g else None)
        cf.fn = type("F", (), {"qual": fr.module.name + "." + st.name})()
        for s in st.body:
            self.stmt(s, cf)
        for k, v in cf.l.items():
            f = v.f if isinstance(v, (Prop, Static, ClassM)) else v
            if isinstance(f, Fn):
                f.frame = fr
        c = Cls(self, st.name, bases, cf.l)
        for v in cf.l.values():
            f = v.f if isinstance(v, (Prop, Static, ClassM)) else v
            if isinstance(f, Fn):
                f.cls = c
        fr.l[st.name] = c

    def setname(self, n, v, fr):
        if n in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if n in p.l:
                    p.l[n] = v
                    return
                p = p.parent
            raise Unsupported("nonlocal")
        if n in fr.globals_:
            raise Unsupported("write to a global")
        fr.l[n] = v

    def assign(self, tg, v, fr):
        if isinstance(tg, ast.Name):
            self.setname(tg.id, v, fr)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if isinstance(v, Arr):
                c = S.size(v.axes[0]).const() if v.axes else None
                if c is None:
                    raise Unsupported("unpacking a symbolic array")
                v = [v[i] for i in range(int(c[0]))]
            if isinstance(v, (SymSeq, SymRange)):
                raise Unsupported("unpacking a symbolic list")
            v = list(v)
            st = [i for i, t in enumerate(tg.elts) if isinstance(t, ast.Starred)]
            if st:
                k = st[0]
                rest = len(tg.elts) - k - 1
                for t, x in zip(tg.elts[:k], v[:k]):
                    self.assign(t, x, fr)
                self.assign(tg.elts[k].value, v[k:len(v) - rest], fr)
                for t, x in zip(tg.elts[k + 1:], v[len(v) - rest:]):
                    self.assign(t, x, fr)
                return
            if len(v) != len(tg.elts):
                raise Raised("ValueError", "wrong number of values to unpack")
            for t, x in zip(tg.elts, v):
                self.assign(t, x, fr)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, fr)
            self.setitem(o, self.index(tg.slice, fr), v)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, fr)
            if isinstance(o, Obj) and tg.attr == "__dict__":
                if not isinstance(v, dict):
                    raise Unsupported("__dict__ assignment")
                o.__dict__["attrs"] = v
            elif isinstance(o, Obj):
                o.attrs[tg.attr] = v
            else:
                raise Unsupported("attribute assignment")
        else:
            raise Unsupported("assignment target")

    def setitem(self, o, k, v):
        if hasattr(o, "wl_set"):
            return o.wl_set(k, v)
        if isinstance(o, np.ndarray):
            if issym(v) or issym(k):
                a = toarr(o.copy())
                self.promoted[id(o)] = (o, a)
                a[k] = v
                return
            try:
                o[k] = v
            except Exception as e:
                raise Raised(type(e).__name__, str(e))
            return
        if isinstance(o, (SymSeq, SymRange)):
            raise Unsupported("assignment into a symbolic list")
        if isinstance(o, list) and isinstance(k, Arr):
            k = k.__index__()
        if isinstance(o, tuple):
            raise Raised("TypeError", "tuple does not support item assignment")
        try:
            o[k] = v
        except (IndexError, KeyError, TypeError) as e:
            raise Raised(type(e).__name__, str(e))

    def aug(self, st, fr):
        op = type(st.op)
        if isinstance(st.target, ast.Name):
            old = self.ev(ast.Name(st.target.id, ast.Load()), fr)
            v = self.ev(st.value, fr)
            if isinstance(old, list):
                if not isinstance(v, (list, tuple)):
                    raise Unsupported("list +=")
                old.extend(v)
                return
            r = self.binop(op, old, v)
            # in-place numpy semantics: aliases see the change, the dtype of the target is kept
            if isinstance(old, Arr) and old.ndim > 0 and not old.sparse and isinstance(r, Arr):
                if old.base is not None:
                    raise Unsupported("in-place update of a view")
                if len(r.axes) != len(old.axes) or not all(S.ax_same(x, y) for x, y in zip(r.axes, old.axes)):
                    raise Raised("ValueError", "non-broadcastable output operand")
                if S.ORDER.index(r.dt) > S.ORDER.index(old.dt):
                    raise Raised("UFuncTypeError", "cannot cast output")
                old.set(r.snap())
                return
            self.setname(st.target.id, r, fr)
        elif isinstance(st.target, ast.Subscript):
            o = self.ev(st.target.value, fr)
            k = self.index(st.target.slice, fr)
            self.setitem(o, k, self.binop(op, self.getitem(o, k), self.ev(st.value, fr)))
        elif isinstance(st.target, ast.Attribute):
            o = self.ev(st.target.value, fr)
            old = self.getattr(o, st.target.attr)
            v = self.binop(op, old, self.ev(st.value, fr))
            self.assign(st.target, v, fr)
        else:
            raise Unsupported("augmented assignment")

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, (Arr,)):
            return S.truth(v)
        if isinstance(v, Cond):
            return S.decide(v)
        if isinstance(v, Expr):
            return S.decide(cnot(eq(v, 0)))
        if isinstance(v, SymSeq):
            return S.decide(lt(0, v.n))
        if hasattr(v, "wl_truth"):
            return v.wl_truth()
        if isinstance(v, np.ndarray) and v.size != 1:
            raise Raised("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, Poison) and not isinstance(v, Text):
            raise Unsupported(v.why)
        if hasattr(v, "is_symbolic_operator"):
            raise Unsupported("truth value of an operator")
        return bool(v)

    def ev(self, n, fr):
        return getattr(self, "e_" + type(n).__name__, self.e_bad)(n, fr)

    def e_bad(self, n, fr):
        raise Unsupported(type(n).__name__)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        f = fr
        while f is not None:
            if n.id in f.l and not (n.id in f.globals_):
                v = f.l[n.id]
                if isinstance(v, Poison) and not isinstance(v, Text):
                    raise Unsupported(f"{n.id}: {v.why}")
                if isinstance(v, np.ndarray) and id(v) in self.promoted:
                    return self.promoted[id(v)][1]
                return v
            f = f.parent
        if n.id in fr.module.g:
            return fr.module.g[n.id]
        import builtins
        if n.id == "open":
            return self.fs.open_
        if n.id in ("exec", "eval", "compile", "__import__", "input"):
            raise Unsupported(n.id)
        if hasattr(builtins, n.id):
            return getattr(builtins, n.id)
        raise Raised("NameError", n.id)

    def e_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr)

    def getattr(self, o, a):
        if isinstance(o, Obj):
            if a in o.attrs:
                v = o.attrs[a]
                if isinstance(v, np.ndarray) and id(v) in self.promoted:
                    return self.promoted[id(v)][1]
                return v
            if a == "__dict__":
                return o.attrs
            if a == "__class__":
                return o.cls
            try:
                v = o.cls.find(a)
            except KeyError:
                if o.partial:
                    raise Unsupported(f"attribute {o.cls.name}.{a} is not part of the contract's object")
                raise Raised("AttributeError", f"{o.cls.name}.{a}")
            if isinstance(v, Fn):
                return Bound(o, v)
            if isinstance(v, Prop):
                return v.f(o)
            if isinstance(v, Static):
                return v.f
            if isinstance(v, ClassM):
                return Bound(o.cls, v.f)
            return v
        if isinstance(o, Cls):
            try:
                v = o.find(a)
            except KeyError:
                raise Raised("AttributeError", a)
            if isinstance(v, Static):
                return v.f
            if isinstance(v, ClassM):
                return Bound(o, v.f)
            return v
        if isinstance(o, Module):
            return o.g[a]
        if isinstance(o, Super):
            for c in o.mro:
                if a in c.d:
                    v = c.d[a]
                    return Bound(o.obj, v) if isinstance(v, Fn) else v
            raise Raised("AttributeError", a)
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, SymSeq):
            if a == "append":
                raise Unsupported("append to a symbolic list")
            raise Unsupported("list method")
        if isinstance(o, Arr) and o.py and a in ("shape", "ndim", "size", "transpose", "dot"):
            raise Raised("AttributeError", f"'{o.py}' object has no attribute '{a}'")
        if isinstance(o, Arr) and o.sparse and a in ("flatten", "ravel", "any", "all", "squeeze"):
            raise Raised("AttributeError", f"sparse matrix has no attribute {a}")
        try:
            return getattr(o, a)
        except AttributeError as e:
            if isinstance(o, Arr) and hasattr(np.ndarray, a):
                raise Unsupported(f"ndarray.{a}")
            raise Raised("AttributeError", str(e))

    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            return Super(self, fr)
        if isinstance(n.func, ast.Name) and n.func.id in ("print",):
            return None
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "warnings":
            return None
        if isinstance(n.func, ast.Name) and n.func.id == "locals":
            raise Unsupported("locals()")
        f = self.ev(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                if isinstance(v, (SymSeq, SymRange)):
                    raise Unsupported("star argument of a symbolic list")
                if isinstance(v, Arr):
                    v = [v[i] for i in range(int(toint(v.shape[0])))]
                args.extend(x for x in v)
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, fr))
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)

    def e_BinOp(self, n, fr):
        return self.binop(type(n.op), self.ev(n.left, fr), self.ev(n.right, fr))

    def binop(self, op, a, b):
        if isinstance(a, (Text, str)) and isinstance(b, (Text, str)) and op is ast.Add and (isinstance(a, Text) or isinstance(b, Text)):
            return Text()
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("poisoned value")
        if op is ast.Mod and isinstance(a, str):
            return "formatted"
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op is ast.Add:
            return a + b
        if op is ast.Add and isinstance(a, (SymSeq, list)) and isinstance(b, (SymSeq, list)):
            return S.SymCat(a, b)
        if isinstance(a, (SymSeq, SymRange)) or isinstance(b, (SymSeq, SymRange)):
            if op is ast.Mult and not (isinstance(a, (SymSeq,)) or isinstance(b, SymSeq)):
                pass
            raise Unsupported("list arithmetic on a symbolic list")
        if op is ast.Mult and isinstance(a, list) and not isinstance(b, Arr) and not isinstance(b, int):
            raise Unsupported("list multiplication")
        if op is ast.Mult and isinstance(a, list) and isinstance(b, Arr):
            el = list(a)
            if len(el) == 1:
                return SymSeq(E(b), lambda k: el[0])
            raise Unsupported("list repetition")
        sa, sb = issym(a), issym(b)
        if S.foreign(a) or S.foreign(b):
            r = BIN[op](a, b)
            return r
        if sa or sb:
            x = a if isinstance(a, Arr) else toarr(a)
            y = b if isinstance(b, Arr) else toarr(b)
            r = BIN[op](x, y)
            return r
        try:
            return BIN[op](a, b)
        except (Unsupported, Raised):
            raise
        except Exception as e:
            raise Raised(type(e).__name__, str(e))

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            if isinstance(v, Arr) and (not v.axes or all(S.isone(a) for a in v.axes)):
                c = cnot(tocond(v.val()))
                return mkscalar(c)
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        return ~v

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        for i, x in enumerate(n.values):
            v = self.ev(x, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not issym(v) else False
            if not isand and t:
                return v if not issym(v) else True
        return v

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, fr)
            v = self.compare(type(op), left, right)
            if res is None:
                res = v
            else:
                res = S.logical(res, v, cand) if (issym(res) or issym(v)) else (res and v)
            if len(n.ops) > 1 and not issym(res) and not self.truth(res):
                return res
            left = right
        return res

    def compare(self, op, a, b):
        if op is ast.Is or op is ast.IsNot:
            r = a is b
            if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
                r = bool(a) == bool(b)
            return r if op is ast.Is else not r
        if hasattr(a, "wl_compare") or hasattr(b, "wl_compare"):
            if op not in (ast.Eq, ast.NotEq):
                raise Unsupported("comparison of a worklist")
            a, b = (a, b) if hasattr(a, "wl_compare") else (b, a)
            return a.wl_compare("eq" if op is ast.Eq else "ne", b)
        if op in (ast.In, ast.NotIn):
            if isinstance(b, (dict, set, str)):
                r = a in b
            elif isinstance(b, SymSeq) and isinstance(a, tuple):
                v = X.fresh_int()
                c = tocond(toarr(self.compare(ast.Eq, b.item(E(v)), a)).val())
                r = mkscalar(cnot(eq(X.sum_over(X.indicator(c), v, E(0), b.n), 0)), "b")
            else:
                if isinstance(b, Arr):
                    r = S.anyall(S.compare(b, a, "eq"), True)
                elif isinstance(b, (SymSeq, SymRange)):
                    r = S.anyall(S.compare(toarr(b), a, "eq"), True)
                else:
                    cs = []
                    for x in b:
                        c = self.compare(ast.Eq, x, a)
                        if isinstance(c, Arr):
                            cs.append(tocond(c.val()))
                        elif isinstance(c, np.ndarray):
                            cs.append(TRUE if c.all() else FALSE)
                        else:
                            cs.append(TRUE if c else FALSE)
                    r = mkscalar(cor(*cs))
            if op is ast.In:
                return r
            return mkscalar(cnot(tocond(r.val()))) if isinstance(r, Arr) else not r
        nm = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[op]
        if isinstance(a, Obj) or isinstance(b, Obj):
            if nm in ("eq", "ne") and isinstance(a, Obj):
                try:
                    m = a.cls.find("__eq__" if nm == "eq" else "__ne__")
                    return m(a, b)
                except KeyError:
                    if nm == "ne":
                        r = self.compare(ast.Eq, a, b)
                        return not self.truth(r)
                    return a is b
            if nm in ("eq", "ne") and (b is None or isinstance(a, Obj)):
                return nm == "ne"
            if nm in ("eq", "ne") and a is None:      # None == object: Python asks the object
                return self.compare(op, b, a)
            raise Unsupported("object comparison")
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (issym(a) or issym(b)) and nm in ("eq", "ne"):
            if type(a) is not type(b) or len(a) != len(b):
                return nm == "ne"
            cs = [tocond(toarr(self.compare(ast.Eq, x, y)).val()) for x, y in zip(a, b)]
            c = cand(*cs)
            return mkscalar(c if nm == "eq" else cnot(c))
        if issym(a) or issym(b):
            for p, q in ((a, b), (b, a)):
                cnt = getattr(p, "counted", None)
                if nm in ("eq", "ne") and cnt is not None and not S.foreign(q):
                    try:
                        full = X.iszero(S.numv(toarr(q).val()) - S.size(S.Ax("prod", subs=cnt.axes)))
                        none = not full and X.iszero(S.numv(toarr(q).val()))
                    except Unsupported:
                        break
                    if full or none:         # all / none of the entries are true
                        r = S.anyall(cnt, bool(none))
                        c = tocond(toarr(r).val())
                        return mkscalar(c if (nm == "eq") == full else cnot(c), "b")
            if nm in ("gt", "ge"):
                return S.compare(b, a, "lt" if nm == "gt" else "le")
            return S.compare(a, b, nm)
        f = {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}[nm]
        try:
            return f(a, b)
        except Exception as e:
            raise Raised(type(e).__name__, str(e))

    def e_IfExp(self, n, fr):
        return self.ev(n.body, fr) if self.truth(self.ev(n.test, fr)) else self.ev(n.orelse, fr)

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n, fr))

    def e_List(self, n, fr):
        return self.elts(n, fr)

    def elts(self, n, fr):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.ev(x.value, fr))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                m = self.ev(v, fr)
                if not isinstance(m, dict):
                    raise Unsupported("unpacking into a dictionary")
                d.update(m)
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return d

    def e_Set(self, n, fr):
        return set(self.elts(n, fr))

    def e_JoinedStr(self, n, fr):
        try:
            out = ""
            for v in n.values:
                if isinstance(v, ast.Constant):
                    out += v.value
                else:
                    x = self.ev(v.value, fr)
                    if issym(x):
                        return "formatted"
                    out += format(x, self.e_JoinedStr(v.format_spec, fr) if v.format_spec else "")
            return out
        except Raised:
            raise
        except (Unsupported, ValueError, TypeError):
            return "formatted"

    def e_Lambda(self, n, fr):
        return Fn(self, n, fr, fr.module, "")

    def e_Slice(self, n, fr):
        g = lambda x: None if x is None else self.ev(x, fr)
        return slice(g(n.lower), g(n.upper), g(n.step))

    def index(self, n, fr):
        return self.ev(n, fr)

    def e_Subscript(self, n, fr):
        return self.getitem(self.ev(n.value, fr), self.index(n.slice, fr))

    def getitem(self, o, k):
        if hasattr(o, "wl_item"):
            return o.wl_item(k)
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, SymSeq):
            if isinstance(k, slice):
                raise Unsupported("slice of a symbolic list")
            i = S.norm_int(E(k), o.n)
            return o.item(i)
        if isinstance(o, SymRange):
            return o.item(S.norm_int(E(k), o.n))
        if isinstance(o, np.ndarray) and issym(k):
            return toarr(o)[k]
        if isinstance(o, (list, tuple, range)):
            if isinstance(k, Arr):
                c = E(k).const()
                if c is None:
                    return toarr(list(o))[k]
                k = int(c[0])
            if isinstance(k, (np.integer,)):
                k = int(k)
            if isinstance(o, range) and issym(k):
                raise Unsupported("symbolic index into a range")
        try:
            return o[k]
        except (Unsupported, Raised):
            raise
        except (IndexError, KeyError, TypeError) as e:
            raise Raised(type(e).__name__, str(e))

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, n, fr):
        return self.comp(n.generators, 0, n.elt, fr, list)

    def e_GeneratorExp(self, n, fr):
        return self.comp(n.generators, 0, n.elt, fr, list)

    def e_SetComp(self, n, fr):
        return set(self.comp(n.generators, 0, n.elt, fr, list))

    def comp(self, gens, k, elt, fr, kind):
        out = []
        sub = Frame(self, fr.module, fr, fr.fn)
        g = gens[0]
        raw = self.ev(g.iter, sub)
        if self.wl is not None and len(gens) == 1 and g.ifs:
            if isinstance(raw, (list, SymSeq)) or hasattr(raw, "wl_len"):
                return self.wl.comp(self, raw, g, elt, fr)
        it = self.iterable(raw)
        if isinstance(it, (SymRange, SymSeq)):
            if len(gens) > 1 or g.ifs:
                raise Unsupported("comprehension over a symbolic range with filters")
            snap = Frame(self, fr.module, fr.parent, fr.fn)
            snap.l = dict(fr.l)

            def elem(i):
                s2 = Frame(self, fr.module, snap, fr.fn)
                self.assign(g.target, it.item(i), s2)
                return self.ev(elt, s2)
            v = X.fresh_int()
            dep = X.hyp_depth()
            X.push_hyps([le(0, E(v)), lt(E(v), it.n)])
            try:
                elem(E(v))
            finally:
                X.pop_to(dep)
            return SymSeq(it.n, elem)

        def rec(j, s):
            if j == len(gens):
                out.append(self.ev(elt, s))
                return
            itj = self.iterable(self.ev(gens[j].iter, s))
            if isinstance(itj, (SymRange, SymSeq)):
                raise Unsupported("nested symbolic comprehension")
            for x in itj:
                self.assign(gens[j].target, x, s)
                if all(self.truth(self.ev(c, s)) for c in gens[j].ifs):
                    rec(j + 1, s)
        rec(0, sub)
        return out

    def e_DictComp(self, n, fr):
        sub = Frame(self, fr.module, fr, fr.fn)
        if len(n.generators) != 1:
            raise Unsupported("dict comprehension")
        out = {}
        for x in self.iterable(self.ev(n.generators[0].iter, sub)):
            self.assign(n.generators[0].target, x, sub)
            if all(self.truth(self.ev(c, sub)) for c in n.generators[0].ifs):
                out[self.ev(n.key, sub)] = self.ev(n.value, sub)
        return out

    def iterable(self, v):
        """python iterable, or SymRange/SymSeq for symbolic length"""
        if isinstance(v, (SymRange, SymSeq)):
            c = v.n.const()
            if c is not None:
                return [v.item(i) for i in range(int(c[0]))]
            return v
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise Raised("TypeError", "iteration over a 0-d array")
            n = S.size(v.axes[0])
            c = n.const()
            if c is not None:
                return [v[i] for i in range(int(c[0]))]
            if v.axes[0].kind == "plain" and not v.sparse and not getattr(v, "matrix", False):
                g = v.snap()        # the index runs over the axis: in range by construction
                return SymSeq(n, lambda k, v=v, g=g: mkscalar(g((E(k),)), v.dt) if v.ndim == 1 else Arr(v.axes[1:], lambda ix: g((E(k),) + tuple(ix)), v.dt))
            return SymSeq(n, lambda k, v=v: v[mkscalar(k, "i")])
        if isinstance(v, np.ndarray) and id(v) in self.promoted:
            return self.iterable(self.promoted[id(v)][1])
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if hasattr(v, "wl_len"):
            raise Unsupported("iteration over a worklist")
        if isinstance(v, SymNest):
            raise Unsupported("iteration over a symbolic product")
        try:
            return iter(v)
        except TypeError as e:
            raise Raised("TypeError", str(e))

    # ------------------------------------------------------------ loops
    def for_(self, st, fr):
        it = self.ev(st.iter, fr)
        if self.wl is not None and (type(it).__name__ == "Orbit" or isinstance(it, list) and self.wl.splits(st, fr)):
            return self.wl.loop(self, st, fr, it)
        if isinstance(it, SymNest):
            if any(isinstance(x, ast.Break) for b in st.body for x in ast.walk(b)) or st.orelse:
                raise Unsupported("break inside a loop over a product")
            tag = f"_nest{next(X._ids)}_"
            loc = lambda x: ast.copy_location(x, st)
            names = [f"{tag}{k}" for k in range(len(it.levels))]
            body = [loc(ast.Assign([st.target], loc(ast.Tuple([loc(ast.Name(x, ast.Load())) for x in names], ast.Load()))))] + st.body
            for k in reversed(range(len(names))):
                f = it.levels[k]
                f.symbolic_ok = True
                fr.l[names[k] + "f"] = f
                src = loc(ast.Call(loc(ast.Name(names[k] + "f", ast.Load())), [loc(ast.Name(x, ast.Load())) for x in names[:k]], []))
                body = [loc(ast.For(loc(ast.Name(names[k], ast.Store())), src, body, []))]
            self.block(body, fr)
            return
        it = self.iterable(it)
        if isinstance(it, (SymRange, SymSeq)):
            self.sym_for(st, fr, it)
            self.block(st.orelse, fr)
            return
        cnt = 0
        for x in it:
            cnt += 1
            if cnt > 5000:
                raise Unsupported("long concrete loop")
            self.assign(st.target, x, fr)
            try:
                self.block(st.body, fr)
            except _Break:
                return
            except _Continue:
                continue
        self.block(st.orelse, fr)

    def counting(self, st, fr):
        """(name, low, high) when the loop counts a name up by one to a bound that the body does not change"""
        c = st.test
        if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE))):
            return None
        lt = isinstance(c.ops[0], (ast.Lt, ast.LtE))
        nm, hi = (c.left, c.comparators[0]) if lt else (c.comparators[0], c.left)
        if not isinstance(nm, ast.Name):
            return None
        nm = nm.id
        incs = 0
        for b in st.body:
            one = None
            if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and b.target.id == nm:
                one = b.value if isinstance(b.op, ast.Add) else False
            elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and b.targets[0].id == nm and isinstance(b.value, ast.BinOp) and isinstance(b.value.op, ast.Add):
                l, r = b.value.left, b.value.right
                one = r if isinstance(l, ast.Name) and l.id == nm else l if isinstance(r, ast.Name) and r.id == nm else False
            if one is not None:
                if not (isinstance(one, ast.Constant) and one.value == 1 and type(one.value) is int):
                    return None
                incs += 1
                continue
        stores = {x.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        n_st = sum(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, (ast.Store, ast.Del)) for b in st.body for x in ast.walk(b))
        if incs != 1 or n_st != 1 or any(isinstance(x, (ast.Continue, ast.Break)) for b in st.body for x in ast.walk(b)):
            return None
        for x in ast.walk(hi):
            if isinstance(x, ast.Name) and x.id in stores:
                return None
            if isinstance(x, (ast.Attribute, ast.Subscript, ast.Call)) and not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("len", "int", "min", "max")):
                if isinstance(x, (ast.Subscript, ast.Call)) and not (isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr == "shape"):
                    return None
                if any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) for b in st.body for y in ast.walk(b)):
                    return None
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "pop", "extend", "remove", "insert") for b in st.body for x in ast.walk(b)) and any(isinstance(x, ast.Call) for x in ast.walk(hi)):
            return None
        lo, h = self.e_Name(ast.copy_location(ast.Name(nm, ast.Load()), st), fr), self.ev(hi, fr)
        if isinstance(c.ops[0], (ast.LtE, ast.GtE)):
            h = self.binop(ast.Add, h, 1) if hasattr(self, "binop") else h + 1
        return nm, lo, h

    def while_(self, st, fr):
        k = self.counting(st, fr)
        if k is not None:
            nm, lo, h = k
            isint = lambda x: isinstance(x, (int, np.integer)) or isinstance(x, Arr) and x.ndim == 0 and x.dt == "i"
            if isint(lo) and isint(h) and not (isinstance(lo, (int, np.integer)) and isinstance(h, (int, np.integer))):
                rng = b_range(self, lo, h)
                if isinstance(rng, S.SymRange):
                    v = f"_while{st.lineno}_{nm}"
                    ld = lambda i: ast.copy_location(ast.Name(i, ast.Load()), st)
                    sto = lambda i: ast.copy_location(ast.Name(i, ast.Store()), st)
                    first = ast.copy_location(ast.Assign([sto(nm)], ld(v)), st)
                    loop = ast.copy_location(ast.For(sto(v), ld("range"), [first] + st.body, []), st)
                    fr.l.pop(nm, None)
                    self.sym_for(loop, fr, rng)
                    self.setname(nm, h if S.decide(le(E(lo), E(h))) else lo, fr)
                    self.block(st.orelse, fr)
                    return
        n, d0 = 0, X.hyp_depth()
        while self.truth(self.ev(st.test, fr)):
            n += 1
            if n > 200 or X.hyp_depth() - d0 > 12:
                raise Unsupported("unbounded while loop")
            try:
                self.block(st.body, fr)
            except _Break:
                return
            except _Continue:
                continue
        self.block(st.orelse, fr)

    def explore(self, run):
        """[(conds, outcome)] over all feasible paths of run()"""
        out, script = [], []
        outer = S.BRANCH[0]
        while True:
            ex = Explorer(script)
            S.BRANCH[0] = ex.branch
            depth = X.hyp_depth()
            d0 = self.depth
            try:
                r = run()
            finally:
                X.pop_to(depth)
                S.BRANCH[0] = outer
                self.depth = d0
            out.append((ex.conds, r))
            if len(out) > self.MAXPATHS:
                raise Unsupported("too many paths")
            t = list(ex.taken)
            while t and t[-1] is False:
                t.pop()
            if not t:
                return out
            t[-1] = False
            script = t

    def sym_for(self, st, fr, it):
        from . import loops
        loops.summarise(self, st, fr, it)


class Super:
    def __init__(self, interp, fr):
        f = fr
        while f is not None and getattr(f.fn, "cls", None) is None:
            f = f.parent
        if f is None:
            raise Unsupported("super()")
        a = f.fn.node.args
        self.obj = f.l[(a.posonlyargs + a.args)[0].arg]
        m = self.obj.cls.mro()
        self.mro = m[m.index(f.fn.cls) + 1:]


def names_of(t):
    if isinstance(t, ast.Tuple):
        return [x for e in t.elts for x in names_of(e)]
    return [t.id if isinstance(t, ast.Name) else getattr(t, "attr", "?")]


def toint(v):
    if isinstance(v, (int, np.integer)):
        return int(v)
    return v.__index__()


# ---------------------------------------------------------------- builtins on symbolic values
def b_len(I, x):
    if hasattr(x, "wl_len"):
        return x.wl_len()
    if isinstance(x, (SymSeq, SymRange)):
        return mkscalar(x.n, "i", "int")
    if isinstance(x, Arr):
        if x.sparse:
            raise Raised("TypeError", "sparse matrix length is ambiguous")
        if x.ndim == 0:
            raise Raised("TypeError", "len() of unsized object")
        return S.dimval(x.axes[0])
    try:
        return len(x)
    except TypeError as e:
        raise Raised("TypeError", str(e))


def b_range(I, *a):
    if not issym(list(a)):
        return range(*[int(x) if isinstance(x, np.integer) else x for x in a])
    for x in a:
        if isinstance(x, Arr) and x.dt != "i":
            raise Raised("TypeError", "range argument is not an integer")
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    r = SymRange(E(lo), E(hi), E(st))
    if r.n.const() is not None:
        c = int(r.n.const()[0])
        return [r.item(i) for i in range(max(c, 0))]
    if not X.implied(le(0, r.n)):
        if X.implied(le(r.n, 0)):
            return []
        r.n = ite(le(0, r.n), r.n, 0)
    return r


class SymNest:
    """iteration over tuples: level k runs over levels[k](items of the levels before)"""
    def __init__(self, levels):
        self.levels = levels


def b_product(I, *its, repeat=1):
    its = [I.iterable(x) for x in its]
    its = [x if isinstance(x, (SymSeq, S.SymRange)) else list(x) for x in its]
    if not any(isinstance(x, (SymSeq, S.SymRange)) for x in its):
        return list(itertools.product(*its, repeat=repeat))
    return SymNest([lambda *p, x=x: x for x in its * int(repeat)])


def b_ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    its = [b_range(None, n) for n in shape]
    if not any(isinstance(x, S.SymRange) for x in its):
        return list(itertools.product(*its))
    return SymNest([lambda *p, x=x: x for x in its])


symnp.TABLE["np.ndindex"] = b_ndindex


def b_combinations(I, it, r):
    it = I.iterable(it)
    if not isinstance(it, (SymSeq, S.SymRange)):
        return list(itertools.combinations(list(it), r))
    if not isinstance(it, S.SymRange) or r != 2 or not it.step.isconst(1):
        raise Unsupported("combinations")
    return SymNest([lambda: it, lambda i: b_range(I, mkscalar(E(i) + 1, "i", "int"), mkscalar(it.lo + it.n, "i", "int"))])


def b_enumerate(I, x, start=0):
    if hasattr(x, "wl_list"):
        if start != 0:
            raise Unsupported("enumeration of a worklist")
        from .worklist import Enum
        return Enum(x)
    it = I.iterable(x)
    if isinstance(it, (SymSeq, SymRange)):
        return SymSeq(it.n, lambda k: (mkscalar(k + E(start), "i", "int"), it.item(k)))
    return enumerate(it, start)


def b_zip(I, *xs):
    its = [I.iterable(x) for x in xs]
    if any(isinstance(i, (SymSeq, SymRange)) for i in its):
        if not all(isinstance(i, (SymSeq, SymRange)) for i in its):
            raise Unsupported("zip of symbolic and concrete lists")
        n = its[0].n
        for i in its[1:]:
            if not X.implied(eq(i.n, n)):
                raise Unsupported("zip of lists of different length")
        return SymSeq(n, lambda k: tuple(i.item(k) for i in its))
    return zip(*its)


def b_float(I, x=0.0):
    if isinstance(x, Arr):
        if x.dt == "c":
            raise Raised("TypeError", "can't convert complex to float")
        return mkscalar(numv(x.val()), "f", "float")
    if issym(x):
        raise Unsupported("float()")
    try:
        return float(x)
    except Exception as e:
        raise Raised(type(e).__name__, str(e))


def b_int(I, x=0):
    if isinstance(x, Arr):
        v = numv(x.val())
        return mkscalar(v if v.intlike() else S.trunc(v), "i", "int")
    try:
        return int(x)
    except Exception as e:
        raise Raised(type(e).__name__, str(e))


def b_complex(I, x=0, y=0):
    if issym(x) or issym(y):
        return mkscalar(E(x) + X.I * E(y), "c", "complex")
    return complex(x, y)


def b_bool(I, x=False):
    return I.truth(x)


def b_abs(I, x):
    return abs(x)


def b_minmax(which):
    def f(I, *a, **k):
        if not issym(list(a)):
            return {"min": min, "max": max}[which](*a, **k)
        if k:
            raise Unsupported("min/max key")
        if len(a) == 1:
            if isinstance(a[0], (list, tuple)):
                a = tuple(a[0])
            else:
                return S.extremum(a[0] if isinstance(a[0], Arr) else toarr(a[0]), which)
        r = toarr(a[0])
        for x in a[1:]:
            x = toarr(x)
            c = le(numv(r.val()), numv(x.val()))
            v = ite(c if which == "min" else cnot(c), numv(r.val()), numv(x.val()))
            if c.const is None:
                if X.implied(c):
                    v = numv((r if which == "min" else x).val())
                elif X.implied(cnot(c)):
                    v = numv((x if which == "min" else r).val())
            r = toarr(mkscalar(v, S.join(r.dt, x.dt), "int" if r.dt == x.dt == "i" else "float"))
        return mkscalar(r.val(), r.dt, r.py)
    return f


def b_sum(I, x, start=0):
    it = I.iterable(x)
    if isinstance(it, (SymSeq, SymRange)):
        q, d = E(X.fresh_int("q")), X.hyp_depth()
        X.push_hyps([le(0, q), lt(q, it.n)])
        try:
            one = it.item(q)
        finally:
            X.pop_to(d)
        if S.foreign(one) or not isinstance(one, (int, float, complex, Arr)) or isinstance(one, Arr) and (one.ndim or one.sparse) or isinstance(start, Arr) and start.ndim or S.foreign(start):
            fr = Frame(I, I.main_module() if hasattr(I, "main_module") else Module("sum"))
            fr.l.update(_acc=start, _seq=it)
            src = ast.parse("for _x in _seq:\n    _acc = _acc + _x").body
            I.block(src, fr)
            return I.e_Name(ast.Name("_acc", ast.Load()), fr)
        return I.binop(ast.Add, start, S.npsum(toarr(it)))
    r = start
    for v in it:
        r = I.binop(ast.Add, r, v)
    return r


def b_anyall(isany):
    def f(I, x):
        it = I.iterable(x)
        if isinstance(it, (SymSeq, SymRange)):
            return S.anyall(toarr(it), isany)
        for v in it:
            t = I.truth(v)
            if t and isany:
                return True
            if not t and not isany:
                return False
        return not isany
    return f


def b_list(I, x=()):
    it = I.iterable(x)
    if isinstance(it, SymRange):
        return SymSeq(it.n, it.item)
    if isinstance(it, SymSeq):
        return it
    return list(it)


def b_tuple(I, x=()):
    it = I.iterable(x)
    if isinstance(it, (SymRange, SymSeq)):
        raise Unsupported("tuple of symbolic length")
    return tuple(it)


def b_isinstance(I, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for q in ts:
        if isinstance(q, symnp.ClassProxy):
            q = q.real
        if isinstance(q, Cls):
            if isinstance(x, Obj) and q in x.cls.mro():
                return True
            continue
        if isinstance(x, Arr):
            if x.py:
                if q is {"int": int, "float": float, "complex": complex, "bool": bool}[x.py]:
                    return True
                if x.py == "bool" and q is int:
                    return True
            elif x.sparse:
                if "spmatrix" in q.__name__ or q.__name__ == f"{x.sparse}_matrix":
                    return True
            elif x.ndim or True:
                if q is np.ndarray and (x.ndim > 0 or not getattr(x, "npscalar", False)):
                    return True
            continue
        if isinstance(x, (SymSeq,)):
            if q is list:
                return True
            continue
        if isinstance(x, SymRange):
            if q is range:
                return True
            continue
        if isinstance(q, type) and isinstance(x, q):
            return True
    return False


def b_hasattr(I, o, a):
    try:
        I.getattr(o, a)
        return True
    except Raised:
        return False


def b_getattr(I, o, a, *d):
    try:
        return I.getattr(o, a)
    except Raised:
        if d:
            return d[0]
        raise


def b_reversed(I, x):
    it = I.iterable(x)
    if isinstance(it, (SymSeq, SymRange)):
        return SymSeq(it.n, lambda k: it.item(it.n - 1 - k))
    return list(it)[::-1]


def b_round(I, x, n=None):
    if issym(x):
        return symnp.nround(x, n or 0)
    return round(x, n) if n is not None else round(x)


def b_pow(I, a, b):
    return I.binop(ast.Pow, a, b)


def b_str(I, x=""):
    return "formatted" if issym(x) else str(x)


def b_sorted(I, x, **k):
    if isinstance(x, Arr) and not k:
        return S.npsort(x)
    if issym(x):
        raise Unsupported("sorted of symbolic values")
    return sorted(x, **k)


def b_setattr(I, o, a, v):
    if isinstance(o, Obj):
        o.attrs[a] = v
        return
    raise Unsupported("setattr")


def b_vars(I, o):
    if isinstance(o, Obj):
        return I.getattr(o, "__dict__")
    raise Unsupported("vars")


def b_type(I, o, *a):
    if a:
        raise Unsupported("type with several arguments")
    if isinstance(o, Obj):
        return o.cls
    if issym(o) and not isinstance(o, (list, tuple, dict)):
        raise Unsupported("type of a symbolic value")
    return type(o)


def b_delattr(I, o, a):
    if isinstance(o, Obj) and isinstance(a, str):
        if a not in o.attrs:
            raise Raised("AttributeError", a)
        del o.attrs[a]
        return
    raise Unsupported("delattr")


def b_dict(I, x=(), **k):
    if isinstance(x, dict):
        return dict(x, **k)
    it = I.iterable(x)
    if isinstance(it, (SymSeq, SymRange)):
        raise Unsupported("dict of a symbolic sequence")
    d = {}
    for e in it:
        q = list(I.iterable(e))
        if len(q) != 2 or issym(q[0]):
            raise Unsupported("dict of other items")
        d[q[0]] = q[1]
    d.update(k)
    return d


def b_map(I, f, *xs):
    its = [I.iterable(x) for x in xs]
    if any(isinstance(i, (SymSeq, SymRange)) for i in its):
        z = b_zip(I, *xs)
        return SymSeq(z.n, lambda k: I.call(f, z.item(k), {}))
    return [I.call(f, a, {}) for a in zip(*its)]


import builtins as _b
BUILTIN = {len: b_len, range: b_range, enumerate: b_enumerate, zip: b_zip, float: b_float, int: b_int, complex: b_complex, bool: b_bool,
           itertools.product: b_product, itertools.combinations: b_combinations, abs: b_abs, min: b_minmax("min"), max: b_minmax("max"), sum: b_sum, any: b_anyall(True), all: b_anyall(False), list: b_list,
           tuple: b_tuple, isinstance: b_isinstance, hasattr: b_hasattr, getattr: b_getattr, reversed: b_reversed, round: b_round,
           pow: b_pow, str: b_str, sorted: b_sorted, setattr: b_setattr, map: b_map, vars: b_vars, type: b_type, delattr: b_delattr, dict: b_dict}
