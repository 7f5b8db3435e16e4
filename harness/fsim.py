"""
A file system in memory under the caching code: which step of it an earlier run
did not survive, and how much of a write reached the file, is decided by the
solver (or by a script, in replays).
"""
import builtins
import fnmatch
import glob as _glob
import io
import json
import os
import pickle
import shutil

import numpy as np

from symx import core
from symx.core import S


class Crash(BaseException):
    """the process is gone"""


class File:
    def __init__(self, data=None, part=1.0):
        self.data, self.part = data, part


class Tok:
    """text of an object, before it is cut anywhere"""

    def __init__(self, fmt, obj):
        self.fmt, self.obj = fmt, obj


def copy(o, fmt):
    """what is read back from the text of o"""
    if isinstance(o, dict):
        if fmt == "json":
            return {(k if isinstance(k, str) else json.dumps(k)): copy(v, fmt) for k, v in o.items()}
        return {k: copy(v, fmt) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        r = [copy(v, fmt) for v in o]
        return r if fmt == "json" or isinstance(o, list) else tuple(r)
    if isinstance(o, np.ndarray):
        if fmt == "json":
            raise TypeError("Object of type ndarray is not JSON serializable")
        return o.copy()
    if isinstance(o, S) or o is None or isinstance(o, (str, bool, int, float)):
        return o
    if fmt == "json":
        raise TypeError(f"Object of type {type(o).__name__} is not JSON serializable")
    return o


class FS:
    def __init__(self, symbolic, crash_at=None, part=None, error=None):
        self.sym = symbolic
        self.files = {}
        self.dirs = set()
        self.crash_at, self.part = crash_at, part
        self.error = error or (lambda: 0)  # which exception a cut pickle raises
        self.n = 0
        self.log = []

    # one step that changes the disk; True: the process dies in it
    def step(self, what):
        self.n += 1
        self.log.append(what)
        return self.crash_at is not None and bool(self.crash_at == self.n)

    def exists(self, p):
        return p in self.files or p in self.dirs

    def open(self, p, mode="r", *a, **k):
        p = os.fspath(p)
        if "w" in mode or "x" in mode:
            if self.step(f"open {p}"):
                raise Crash
            self.files[p] = File("" if "b" not in mode else b"", 1.0)
            return Writer(self, p)
        if "a" in mode or "+" in mode:
            raise core.Unsupported(f"open mode {mode}")
        if p not in self.files:
            raise FileNotFoundError(2, "No such file or directory", p)
        return Reader(self, p)

    def remove(self, p):
        if p not in self.files:
            raise FileNotFoundError(2, "No such file or directory", p)
        if self.step(f"remove {p}"):
            raise Crash
        del self.files[p]

    def replace(self, a, b):
        if a not in self.files:
            raise FileNotFoundError(2, "No such file or directory", a)
        if self.step(f"replace {b}"):
            raise Crash
        self.files[b] = self.files.pop(a)

    def makedirs(self, p, mode=0o777, exist_ok=False):
        if p in self.dirs and not exist_ok:
            raise FileExistsError(17, "File exists", p)
        while p and p != "/":
            self.dirs.add(p)
            p = os.path.dirname(p)

    def rmtree(self, p, ignore_errors=False, **k):
        for f in sorted(self.files):
            if f.startswith(p + "/"):
                if self.step(f"remove {f}"):
                    raise Crash
                del self.files[f]
        self.dirs = {d for d in self.dirs if d != p and not d.startswith(p + "/")}

    def glob(self, pat, **k):
        return [f for f in sorted(self.files, reverse=True) + sorted(self.dirs) if f.count("/") == pat.count("/") and fnmatch.fnmatch(f, pat)]

    def listdir(self, p):
        return sorted({f[len(p) + 1:].split("/")[0] for f in list(self.files) + list(self.dirs) if f.startswith(p + "/")}, reverse=True)

    # what is read back
    def content(self, p):
        f = self.files[p]
        if not self.sym:
            return f.data
        return f

    def load(self, p, fmt):
        f = self.files[p]
        whole = f.part if isinstance(f.part, bool) else bool(f.part >= 1)
        if isinstance(f.data, Tok) and whole:
            if f.data.fmt != fmt:
                raise core.Unsupported("one format read as another")
            return copy(f.data.obj, fmt)
        if fmt == "json":
            raise json.JSONDecodeError("cut", "", 0)
        if not isinstance(f.data, Tok) or bool(f.part <= 0):
            raise EOFError("Ran out of input")
        raise (EOFError, pickle.UnpicklingError, UnicodeDecodeError)[k]("cut") if (k := self.error()) < 2 else UnicodeDecodeError("utf-8", b"", 0, 1, "cut")

    def fakes(self):
        fs = self

        class OsPath:
            def __getattr__(self, k):
                if k in ("exists", "isfile", "lexists"):
                    return lambda p: fs.exists(p) if k != "isfile" else p in fs.files
                if k == "isdir":
                    return lambda p: p in fs.dirs
                if k in ("join", "basename", "dirname", "split", "splitext", "sep", "normpath", "abspath"):
                    return getattr(os.path, k)
                raise core.Unsupported(f"os.path.{k}")

        class Os:
            path = OsPath()

            def __getattr__(self, k):
                t = {"remove": fs.remove, "unlink": fs.remove, "makedirs": fs.makedirs, "mkdir": fs.makedirs, "replace": fs.replace,
                     "rename": fs.replace, "listdir": fs.listdir, "fsync": lambda *a: None, "sep": os.sep, "linesep": os.linesep, "fspath": os.fspath,
                     "getpid": os.getpid}
                if k in t:
                    return t[k]
                raise core.Unsupported(f"os.{k}")

        class Glob:
            glob = staticmethod(fs.glob)
            iglob = staticmethod(lambda p, **k: iter(fs.glob(p)))

        class Shutil:
            rmtree = staticmethod(fs.rmtree)

        class Json:
            JSONDecodeError = json.JSONDecodeError
            dumps = staticmethod(lambda o, **k: Tok("json", copy(o, "json")))
            dump = staticmethod(lambda o, f, **k: f.write(Tok("json", copy(o, "json"))))
            load = staticmethod(lambda f, **k: fs.load(f.path, "json"))
            loads = staticmethod(lambda t, **k: fs.load(t.path, "json"))

        class Pickle:
            UnpicklingError = pickle.UnpicklingError
            PickleError = pickle.PickleError
            HIGHEST_PROTOCOL = pickle.HIGHEST_PROTOCOL
            dump = staticmethod(lambda o, f, *a, **k: f.write(Tok("pickle", copy(o, "pickle"))))
            dumps = staticmethod(lambda o, *a, **k: Tok("pickle", copy(o, "pickle")))
            load = staticmethod(lambda f, **k: fs.load(f.path, "pickle"))
            loads = staticmethod(lambda t, **k: fs.load(t.path, "pickle"))

        t = [(os, Os()), (_glob, Glob()), (shutil, Shutil())]
        if self.sym:
            t += [(json, Json()), (pickle, Pickle())]
        return t, self.open


class Reader:
    def __init__(self, fs, p):
        self.fs, self.path = fs, p
        if not fs.sym:
            d = fs.files[p].data
            self._io = io.BytesIO(d) if isinstance(d, bytes) else io.StringIO(d)

    def read(self, *a):
        if self.fs.sym:
            return self
        return self._io.read(*a)

    def readline(self, *a):
        return self._io.readline(*a)

    def readinto(self, b):
        return self._io.readinto(b)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Writer:
    def __init__(self, fs, p):
        self.fs, self.path = fs, p
        self.closed = False
        self.pending = None

    def fileno(self):
        return 99

    def write(self, d):
        if isinstance(d, (bytearray, memoryview)):
            d = bytes(d)
        if self.fs.sym and not isinstance(d, Tok):
            raise core.Unsupported("text that is not one document")
        if self.pending is not None:
            if self.fs.sym:
                raise core.Unsupported("several writes to one file")
            self.pending = self.pending + d
        else:
            self.pending = d
        return None  # buffered: what reaches the file is decided when it is flushed

    # how much reaches the file when the process dies here: any part of it
    def _out(self, what):
        if self.pending is None or self.path not in self.fs.files:
            return
        f = self.fs.files[self.path]
        if self.fs.step(f"{what} {self.path}"):
            p = self.fs.part
            if self.fs.sym:
                f.data, f.part = self.pending, p
            else:
                f.data = self.pending[:len(self.pending) if p >= 1 else min(int(p * len(self.pending)), len(self.pending) - 1)]
            raise Crash
        f.data, f.part = self.pending, 1.0

    def flush(self):
        self._out("flush")

    def close(self):
        if not self.closed:
            self.closed = True
            self._out("close")

    def __enter__(self):
        return self

    def __exit__(self, t, *a):
        if t is not None and issubclass(t, Crash):
            return  # nobody is left to close the file
        self.close()


class mounted:
    """the modules of the package see this file system"""

    def __init__(self, mods, fs):
        self.mods, self.fs = mods, fs

    def __enter__(self):
        fakes, op = self.fs.fakes()
        self.old = []
        for m in self.mods:
            for k, v in list(vars(m).items()):
                for r, f in fakes:
                    if v is r:
                        self.old.append((m, k, v))
                        setattr(m, k, f)
                    elif callable(v) and getattr(v, "__module__", None) and not k.startswith("__") and getattr(r, k, None) is v and not isinstance(v, type):
                        self.old.append((m, k, v))
                        setattr(m, k, getattr(f, k))
            m.open = op
        return self.fs

    def __exit__(self, *a):
        for m, k, v in self.old:
            setattr(m, k, v)
        for m in self.mods:
            del m.open
        assert open is builtins.open


def modules(sv):
    import sys

    import types

    out = [sv.base._base]
    for k, v in vars(sv.evaluation).items():
        if isinstance(v, types.ModuleType) and v.__name__.startswith("smote_variants.evaluation."):
            out.append(v)
    return out
