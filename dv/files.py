"""File system, pickle and MATLAB files as assumed library contracts: a file opened for writing is empty, pickle.dump appends a copy of
the object (all attributes), pickle.load returns the next stored object with equal attributes, savemat stores the public attributes and
loadmat returns them together with the header entries; nothing is ever written to a real disk"""
import os
from .expr import Unsupported
from .sym import Raised


class File:
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode, self.pos, self.open = fs, name, mode, 0, True

    def dv_enter(self):
        return self

    def dv_exit(self):
        self.open = False

    def close(self):
        self.open = False

    def write(self, b):
        self.fs.check(self, "w")
        if not isinstance(b, Blob):
            raise Unsupported("writing other data")
        self.fs.data[self.name].append(("pickle", self.fs.copy(b.obj)))

    def read(self, *a):
        self.fs.check(self, "r")
        d = self.fs.data[self.name]
        if a or self.pos or len(d) != 1 or d[0][0] != "pickle":
            raise Unsupported("reading part of a file")
        self.pos = 1
        return Blob(self.fs.copy(d[0][1]))

    def other(self, *a, **k):
        raise Unsupported("file method")

    other.symbolic_ok = True
    seek = tell = flush = readline = readlines = writelines = readinto = truncate = fileno = other


class Blob:
    def __init__(self, obj):
        self.obj = obj


class FS:
    HIGHEST_PROTOCOL = 5
    DEFAULT_PROTOCOL = 4

    def __init__(self, I):
        self.I, self.data, self.touched = I, {}, []

    def open_(self, name, mode="r", *a, **k):
        if not isinstance(name, str) or not isinstance(mode, str):
            raise Unsupported("file name")
        self.touched.append((name, mode))
        m = mode.replace("b", "").replace("t", "")
        if m == "w":
            self.data[name] = []
        elif m == "x":
            if name in self.data:
                raise Raised("FileExistsError", name)
            self.data[name] = []
        elif m == "a":
            self.data.setdefault(name, [])
        elif m == "r":
            if name not in self.data:
                raise Raised("FileNotFoundError", name)
        else:
            raise Unsupported("file mode " + mode)
        return File(self, name, mode)

    def check(self, f, what):
        if not isinstance(f, File):
            raise Unsupported("another file object")
        if not f.open:
            raise Raised("ValueError", "I/O operation on closed file")
        if "b" not in f.mode or (("r" in f.mode) != (what == "r")):
            raise Raised("TypeError", "file mode")

    def copy(self, o):
        from .interp import Obj
        if not isinstance(o, Obj):
            if isinstance(o, dict):
                return dict(o)
            raise Unsupported("pickle of another object")
        for a in ("__getstate__", "__setstate__", "__reduce__", "__reduce_ex__", "__getnewargs__", "__new__", "__setattr__", "__getattr__", "__slots__"):
            try:
                o.cls.find(a)
            except KeyError:
                continue
            raise Unsupported("pickling hook " + a)
        q = Obj(o.cls, **o.attrs)
        q.__dict__["partial"] = o.partial
        return q

    # pickle
    def dump(self, obj, file, protocol=None, **k):
        self.check(file, "w")
        self.data[file.name].append(("pickle", self.copy(obj)))

    def load(self, file, **k):
        self.check(file, "r")
        d = self.data[file.name]
        if file.pos >= len(d) or d[file.pos][0] != "pickle":
            raise Raised("EOFError", "")
        file.pos += 1
        return self.copy(d[file.pos - 1][1])

    def dumps(self, obj, protocol=None, **k):
        return Blob(self.copy(obj))

    def loads(self, b, **k):
        if not isinstance(b, Blob):
            raise Unsupported("pickle.loads of other data")
        return self.copy(b.obj)

    # scipy.io
    def savemat(self, name, mdict, *a, **k):
        if a or k or not isinstance(name, str):
            raise Unsupported("options of savemat")
        self.touched.append((name, "wb"))
        self.data[name] = [("mat", {q: v for q, v in dict(mdict).items() if not q.startswith("_")})]

    def loadmat(self, name, *a, **k):
        if a or k or not isinstance(name, str):
            raise Unsupported("options of loadmat")
        if name not in self.data:
            raise Raised("FileNotFoundError", name)
        d = self.data[name]
        if len(d) != 1 or d[0][0] != "mat":
            raise Raised("ValueError", "not a MATLAB file")
        return {"__header__": b"", "__version__": "1.0", "__globals__": [], **d[0][1]}


for f in ("open_", "dump", "load", "dumps", "loads", "savemat", "loadmat"):
    getattr(FS, f).symbolic_ok = True
for f in ("write", "read", "close"):
    getattr(File, f).symbolic_ok = True


class Pickle:
    HIGHEST_PROTOCOL, DEFAULT_PROTOCOL = 5, 4

    def __init__(self, fs):
        self.dump, self.load, self.dumps, self.loads = fs.dump, fs.load, fs.dumps, fs.loads


class OsPath:
    """the pure functions on path names"""
    splitext, basename, dirname, join, split, normpath = staticmethod(os.path.splitext), staticmethod(os.path.basename), staticmethod(os.path.dirname), staticmethod(os.path.join), staticmethod(os.path.split), staticmethod(os.path.normpath)

    def __init__(self, fs):
        self.exists = self.isfile = lambda n: n in fs.data

    def __getattr__(self, a):
        raise Unsupported("os.path." + a)


class Os:
    sep = os.sep
    fspath = staticmethod(os.fspath)

    def __init__(self, fs):
        self.path = OsPath(fs)

    def __getattr__(self, a):
        raise Unsupported("os." + a)
