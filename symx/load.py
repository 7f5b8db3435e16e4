"""
Loads /repo's current smote_variants sources with `numpy`, `scipy`, `sklearn`,
`math`, ... seen through symbolic stand-ins.  Only modules of smote_variants get
the stand-ins (the import hook looks at who is importing); nothing is cached.
"""
import ast
import builtins
import contextlib
import importlib as _importlib
import importlib.machinery as _machinery
import logging
import math as _math
import os
import sys
import types
import warnings

sys.dont_write_bytecode = True

# third-party modules are imported with their normal bytecode caches; while the
# package under test is imported, caches are ignored (always its current source)
NO_CACHE = "/nonexistent/symx-pycache"
PRELOAD = """joblib metric_learn minisom pandas seaborn matplotlib.pyplot scipy.stats
scipy.spatial scipy.special scipy.optimize scipy.interpolate scipy.cluster.hierarchy
sklearn.cluster sklearn.decomposition sklearn.discriminant_analysis sklearn.ensemble
sklearn.linear_model sklearn.manifold sklearn.metrics sklearn.mixture
sklearn.model_selection sklearn.naive_bayes sklearn.neighbors sklearn.neural_network
sklearn.preprocessing sklearn.svm sklearn.tree sklearn.datasets sklearn.covariance
sklearn.gaussian_process""".split()


def preload():
    for n in PRELOAD:
        try:
            _importlib.import_module(n)
        except Exception:  # noqa: BLE001 - optional
            pass


def parts():
    """subpackages the package does not import itself"""
    with contextlib.suppress(ImportError):
        _importlib.import_module("smote_variants.undersampling")


class no_cache:
    def __enter__(self):
        self.old = sys.pycache_prefix
        sys.pycache_prefix = NO_CACHE

    def __exit__(self, *a):
        sys.pycache_prefix = self.old

REPO = os.environ.get("VERIF_REPO", "/repo")

import numpy as np  # noqa: E402

from . import core, snp, stubs  # noqa: E402
from .core import S  # noqa: E402


class Overlay(types.ModuleType):
    """a module with some attributes replaced"""

    def __init__(self, real, table):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_table"] = table
        self.__dict__["__path__"] = getattr(real, "__path__", [])
        self.__dict__["__spec__"] = getattr(real, "__spec__", None)

    def __getattr__(self, name):
        real, table = self.__dict__["_real"], self.__dict__["_table"]
        key = (real.__name__, name)
        if key in table:
            return table[key]
        v = getattr(real, name)
        if isinstance(v, types.ModuleType):
            return overlay(v, table)
        return v


_OV = {}


def overlay(mod, table):
    k = (mod.__name__, id(table))
    if k not in _OV:
        _OV[k] = Overlay(mod, table)
    return _OV[k]


def _math_overlay():
    def un(name, sym):
        real = getattr(_math, name)

        def f(x, *a):
            if isinstance(x, S):
                return sym(x)
            return real(x, *a)

        f.__name__ = name
        return f

    t = {
        ("math", "sqrt"): un("sqrt", core.sqrt),
        ("math", "exp"): un("exp", snp._f_exp),
        ("math", "log"): un("log", snp._f_log),
        ("math", "floor"): un("floor", lambda x: core.astype(core.floor(x), int)),
        ("math", "ceil"): un("ceil", lambda x: core.astype(core.ceil(x), int)),
        ("math", "fabs"): un("fabs", abs),
        ("math", "isnan"): un("isnan", lambda x: False),
        ("math", "isfinite"): un("isfinite", lambda x: True),
        ("math", "isinf"): un("isinf", lambda x: False),
        ("math", "acos"): un("acos", snp.UF["arccos"]),
        ("math", "cos"): un("cos", snp.UF["cos"]),
        ("math", "sin"): un("sin", snp.UF["sin"]),
    }
    return t


class Rewriter(ast.NodeTransformer):
    """float(x) and isinstance(x, float) look through symbolic reals"""

    MAP = {"float": "__symx_float__", "isinstance": "__symx_isinstance__", "round": "__symx_round__"}

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.MAP:
            node.func = ast.copy_location(ast.Name(self.MAP[node.func.id], ast.Load()), node.func)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name("__symx_mod__", ast.Load()), [node.left, node.right], []), node)
        return node


def _sx_float(x=0.0):
    if isinstance(x, S):
        return core.astype(x, float)
    if isinstance(x, snp.SymArray) and x.size == 1:
        return _sx_float(x.reshape(-1)[0])
    return float(x)


def _sx_isinstance(o, t):
    if isinstance(o, S):
        ts = t if isinstance(t, tuple) else (t,)
        for k in ts:
            if k in (float, np.floating, np.float64) and o.is_real():
                return True
            if k in (int, np.integer, np.int64) and o.is_int():
                return True
            if k in (bool, np.bool_) and o.is_bool():
                return True
            if k is not float and k is not int and isinstance(k, type) and isinstance(o, k):
                return True
        return False
    return isinstance(o, t)


def _sx_mod(a, b):
    """% : a message with symbolic values in it is only a message"""
    if isinstance(a, str):
        def plain(v):
            if isinstance(v, tuple):
                return tuple(plain(x) for x in v)
            return 0 if isinstance(v, S) else v

        return a % plain(b)
    return a % b


def _sx_round(x, nd=None):
    if isinstance(x, S):
        if nd in (None, 0):
            r = snp.round_(x)
            return core.astype(r, int) if nd is None else r
        raise core.Unsupported("round to digits")
    return round(x) if nd is None else round(x, nd)


class SymLoader(_machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        tree = ast.fix_missing_locations(Rewriter().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__symx_float__"] = _sx_float
        module.__dict__["__symx_isinstance__"] = _sx_isinstance
        module.__dict__["__symx_round__"] = _sx_round
        module.__dict__["__symx_mod__"] = _sx_mod
        super().exec_module(module)


class SymFinder:
    """finds the package under test for the symbolic import"""

    def find_spec(self, name, path=None, target=None):
        if not name.startswith("smote_variants"):
            return None
        spec = _machinery.PathFinder.find_spec(name, path)
        if spec is not None and isinstance(spec.loader, _machinery.SourceFileLoader):
            spec.loader = SymLoader(spec.loader.name, spec.loader.path)
        return spec


def numpy_proxy(concrete_rng=False):
    rnd = stubs.GlobalRandom()
    if concrete_rng:
        rnd.__dict__["_cache"]["RandomState"] = stubs.ConcreteRandomState
    linalg = snp.ModuleProxy(np.linalg, "numpy.linalg")
    npx = snp.ModuleProxy(np, "numpy", {"random": rnd, "linalg": linalg, "poly1d": snp.Poly1d})
    return npx, rnd, linalg


def load(concrete_rng=False, extra_table=None):
    """import smote_variants.* afresh; returns the package module"""
    preload()

    npx, rnd, linalg = numpy_proxy(concrete_rng)
    table = dict(stubs.patch_table())
    table.update(_math_overlay())
    if extra_table:
        table.update(extra_table)
    real_import = builtins.__import__

    def fake_import_module(name, package=None):
        m = _importlib.import_module(name, package)
        return wrapmod(m)

    table[("importlib", "import_module")] = fake_import_module
    roots = {k[0].split(".")[0] for k in table}

    def wrapmod(m):
        n = m.__name__
        if n == "numpy":
            return npx
        if n == "numpy.random":
            return rnd
        if n == "numpy.linalg":
            return linalg
        if n.startswith("numpy."):
            return snp.ModuleProxy(m, n)
        if n.split(".")[0] in roots:
            return overlay(m, table)
        return m

    def hook(name, globals=None, locals=None, fromlist=(), level=0):
        m = real_import(name, globals, locals, fromlist, level)
        who = (globals or {}).get("__name__", "")
        if who.startswith("smote_variants.datasets"):
            return m
        if level == 0 and (who == "smote_variants" or who.startswith("smote_variants.")):
            if not (m.__name__ == "smote_variants" or m.__name__.startswith("smote_variants.")):
                return wrapmod(m)
        return m

    for k in [k for k in sys.modules if k == "smote_variants" or k.startswith("smote_variants.")]:
        del sys.modules[k]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    builtins.__import__ = hook
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, SymFinder)]
    sys.meta_path.insert(0, SymFinder())
    with warnings.catch_warnings(), no_cache():
        warnings.simplefilter("ignore")
        import smote_variants as sv
        parts()
    assert os.path.dirname(os.path.dirname(os.path.abspath(sv.__file__))) == os.path.abspath(REPO), sv.__file__
    logging.getLogger("smote_variants").setLevel(logging.CRITICAL)
    sv._symx_np = npx
    sv._symx_table = table
    return sv


def load_real():
    """the unpatched package from /repo (replays)"""
    preload()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    with warnings.catch_warnings(), no_cache():
        warnings.simplefilter("ignore")
        import smote_variants as sv
        parts()
    logging.getLogger("smote_variants").setLevel(logging.CRITICAL)
    return sv


def load_both(**kw):
    """(real, symbolic) instances side by side in one process"""
    real = load_real()
    stash = {
        k: m for k, m in sys.modules.items() if k == "smote_variants" or k.startswith("smote_variants.")
    }
    sym = load(**kw)
    _STASH.update(stash)
    return real, sym


_STASH = {}


@contextlib.contextmanager
def real_modules():
    """imports by name (importlib, pickle) see the unpatched package"""
    if not _STASH:
        yield
        return
    mine = lambda k: k == "smote_variants" or k.startswith("smote_variants.")  # noqa: E731
    old = {k: m for k, m in sys.modules.items() if mine(k)}
    for k in old:
        del sys.modules[k]
    sys.modules.update(_STASH)
    try:
        yield
    finally:
        for k in [k for k in sys.modules if mine(k)]:
            del sys.modules[k]
        sys.modules.update(old)
