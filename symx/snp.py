"""
Symbolic numpy: an ndarray subclass (object dtype) whose elements are `S` terms
or concrete numpy scalars, and a stand-in for the `numpy` module that the code
under test imports.  A call whose arguments are all concrete is forwarded to the
real numpy; a call with symbolic arguments goes to a handler here.
"""
import builtins
import functools
import itertools
import types

import numpy as np

from . import core
from .core import (
    S,
    SF,
    Unsupported,
    astype as s_astype,
    b_and,
    b_not,
    b_or,
    ctx,
    ite,
    nonfinite,
    z3,
)

_nd = np.ndarray


def norm(x):
    """canonical concrete scalars"""
    if isinstance(x, S):
        return x
    if isinstance(x, (np.float64, np.int64, np.bool_)):
        return x
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, (int, np.integer)):
        return np.int64(x) if -(2**62) < int(x) < 2**62 else x
    if isinstance(x, (float, np.floating)):
        return np.float64(x)
    return x


_vnorm = np.frompyfunc(norm, 1, 1)


def _to_obj(x):
    """any array-like -> plain object ndarray"""
    if isinstance(x, SymArray):
        return x.view(_nd)
    if isinstance(x, _nd):
        if x.dtype == object:
            return x
        out = np.empty(x.shape, dtype=object)
        if x.size:
            flat = out.reshape(-1)
            for i, v in enumerate(x.reshape(-1)):
                flat[i] = v
        return out
    if isinstance(x, S) or np.isscalar(x) or x is None:
        out = np.empty((), dtype=object)
        out[()] = norm(x)
        return out
    if isinstance(x, (list, tuple, range)):
        items = [
            _to_obj(v) if isinstance(v, (_nd, list, tuple, range)) else v for v in x
        ]
        if not items:
            return np.empty((0,), dtype=object)
        if any(isinstance(v, _nd) for v in items):
            shapes = {np.shape(v) for v in items}
            if len(shapes) > 1:
                raise ValueError(
                    "setting an array element with a sequence. inhomogeneous shape"
                )
            sh = shapes.pop()
            out = np.empty((len(items),) + sh, dtype=object)
            for i, v in enumerate(items):
                out[i] = v if isinstance(v, _nd) and v.ndim else (v[()] if isinstance(v, _nd) else v)
            return out
        out = np.empty((len(items),), dtype=object)
        for i, v in enumerate(items):
            out[i] = norm(v)
        return out
    if hasattr(x, "__array__"):
        return _to_obj(np.asarray(x))
    if isinstance(x, (map, zip, filter, types.GeneratorType, dict, set)):
        out = np.empty((), dtype=object)
        out[()] = x
        return out
    out = np.empty((), dtype=object)
    out[()] = x
    return out


def wrap(x):
    """array-like -> SymArray"""
    o = _to_obj(x)
    if o.dtype == object and not isinstance(x, SymArray) and o.size:
        o = _vnorm(o)
        if not isinstance(o, _nd):
            t = np.empty((), dtype=object)
            t[()] = o
            o = t
    return o.view(SymArray)


def unwrap0(x):
    """0-d arrays become scalars"""
    if isinstance(x, _nd) and x.ndim == 0:
        return x[()]
    return x


def has_sym(x):
    if isinstance(x, S):
        return True
    if isinstance(x, _nd):
        if x.dtype != object:
            return False
        for v in x.view(_nd).reshape(-1):
            if isinstance(v, S):
                return True
            if isinstance(v, (list, tuple, _nd)) and has_sym(v):
                return True
        return False
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinstance(x, dict):
        return any(has_sym(v) for v in x.values())
    return False


def nat(x):
    """concrete SymArray -> natural-dtype ndarray (recursively in containers)"""
    if isinstance(x, SymArray):
        o = x.view(_nd)
        return nat_obj(o, getattr(x, "_kind", None))
    if isinstance(x, list):
        return [nat(v) for v in x]
    if isinstance(x, tuple):
        return tuple(nat(v) for v in x)
    if isinstance(x, dict):
        return {k: nat(v) for k, v in x.items()}
    return x


def nat_obj(o, kind=None):
    if o.size == 0:
        return o.astype(kind if kind is not None else float)
    flat = o.reshape(-1)
    isb = isi = isf = True
    for v in flat:
        if isinstance(v, (bool, np.bool_)):
            isi = isi and True
            continue
        isb = False
        if isinstance(v, (int, np.integer)):
            continue
        isi = False
        if isinstance(v, (float, np.floating)):
            continue
        isf = False
        break
    if isb and isf:
        return o.astype(bool)
    if isi and isf:
        return o.astype(np.int64)
    if isf:
        return o.astype(np.float64)
    if all(isinstance(v, (str, np.str_)) for v in flat):
        return o.astype(str)
    if all(isinstance(v, (complex, np.complexfloating, float, np.floating)) for v in flat):
        return o.astype(complex)
    return o


def rewrap(r):
    if isinstance(r, _nd):
        return wrap(r) if r.ndim else norm(r[()])
    if isinstance(r, tuple):
        t = [rewrap(v) for v in r]
        if hasattr(r, "_fields"):
            return type(r)(*t)
        return tuple(t)
    if isinstance(r, list):
        return [rewrap(v) for v in r]
    if isinstance(r, (np.generic, float, int, bool)) and not isinstance(r, S):
        return norm(r)
    return r


# ---------------------------------------------------------------------------
# scalar functions
# ---------------------------------------------------------------------------


def havoc_fn(name, args, *, lo=None, hi=None, pos=False):
    """an uninterpreted function of its arguments (deterministic)"""
    c = ctx()
    key = (name,) + tuple(
        ("s", a.e.get_id()) if isinstance(a, S) else ("c", repr(a)) for a in args
    )
    hit = c.memo.get(key)
    if hit is not None:
        return hit[0]
    v = z3.Real(c.fresh_name("f_" + name))
    if lo is not None:
        c.add(v >= lo)
    if hi is not None:
        c.add(v <= hi)
    if pos:
        c.add(v > 0)
    r = S(v, pos or (lo is not None and lo >= 0))
    c.memo[key] = (r, list(args))
    return r


def _f_exp(x):
    if not isinstance(x, S):
        with np.errstate(all="ignore"):
            return np.float64(np.exp(np.float64(x)))
    r = havoc_fn("exp", [x], pos=True)
    c = ctx()
    key = ("expax", r.e.get_id())
    if key not in c.memo:
        c.memo[key] = True
        e = core.to_real(x.e)
        c.add(z3.And(z3.Implies(e <= 0, r.e <= 1), z3.Implies(e >= 0, r.e >= 1 + e)))
    return r


def _f_log(x):
    if not isinstance(x, S):
        with np.errstate(all="ignore"):
            return np.float64(np.log(np.float64(x)))
    e = core.to_real(x.e)
    if ctx().fork(e <= 0):
        return np.float64("-inf") if ctx().fork(e == 0) else np.float64("nan")
    r = havoc_fn("log", [x])
    c = ctx()
    key = ("logax", r.e.get_id())
    if key not in c.memo:
        c.memo[key] = True
        c.add(z3.And(z3.Implies(e >= 1, r.e >= 0), z3.Implies(e < 1, r.e < 0), r.e <= e - 1))
    return r


def s_min(a, b):
    if nonfinite(a) or nonfinite(b):
        if a != a or b != b:
            return np.float64("nan")
        if nonfinite(a):
            return b if a > 0 else a
        return a if b > 0 else b
    if not isinstance(a, S) and not isinstance(b, S):
        return a if a <= b else b
    return ite(CMP['le'](a, b), a, b)


def s_max(a, b):
    if nonfinite(a) or nonfinite(b):
        if a != a or b != b:
            return np.float64("nan")
        if nonfinite(a):
            return a if a > 0 else b
        return b if b > 0 else a
    if not isinstance(a, S) and not isinstance(b, S):
        return a if a >= b else b
    return ite(CMP['ge'](a, b), a, b)


def _truth(a):
    if isinstance(a, S):
        return a if a.is_bool() else core.mk(z3.simplify(core.tobool(a)))
    return np.bool_(bool(a))


def _isfinite(a):
    return np.bool_(True) if isinstance(a, S) else np.bool_(np.isfinite(a))


def _isnan(a):
    return np.bool_(False) if isinstance(a, S) else np.bool_(np.isnan(a))


def _isinf(a):
    return np.bool_(False) if isinstance(a, S) else np.bool_(np.isinf(a))


def _sign(a):
    if not isinstance(a, S):
        return np.sign(a)
    e = core.as_arith(a.e)
    return S(z3.If(e > 0, z3.IntVal(1), z3.If(e < 0, z3.IntVal(-1), z3.IntVal(0))))


def _un(name, **kw):
    fn = getattr(np, name)

    def f(x):
        if not isinstance(x, S):
            with np.errstate(all="ignore"):
                return fn(np.float64(x))
        return havoc_fn(name, [x], **kw)

    return f


def _invert(a):
    if isinstance(a, S):
        return b_not(a)
    if isinstance(a, (bool, np.bool_)):
        return np.bool_(not a)
    return ~a


def _negate(a):
    return -a


def bin_(a, b, op):
    """scalar arithmetic without a detour through numpy's dispatch"""
    if isinstance(a, S):
        r = a._bin(b, op)
    elif isinstance(b, S):
        r = b._bin(a, op, True)
    else:
        r = a + b if op == "+" else (a - b if op == "-" else a * b)
    if r is NotImplemented:
        raise TypeError(f"unsupported operand types for {op}")
    return r


def _mul(a, b):
    return bin_(a, b, "*")


def _pow(a, b):
    if not isinstance(a, S) and not isinstance(b, S):
        with np.errstate(all="ignore"):
            return np.float64(a) ** b if not isinstance(a, (int, np.integer)) or b < 0 else a**b
    return a**b if isinstance(a, S) else b.__rpow__(a)


def _cmpf(op):
    import operator

    f = getattr(operator, op)
    sym = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}[op]
    rev = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[sym]

    def g(a, b):
        if isinstance(a, S):
            r = a._cmp(b, sym)
        elif isinstance(b, S):
            r = b._cmp(a, rev)
        else:
            r = f(a, b)
        if r is NotImplemented:
            raise TypeError("unorderable")
        return norm(r)

    return g


CMP = {k: _cmpf(k) for k in ("lt", "le", "gt", "ge", "eq", "ne")}


def _sub(a, b):
    if isinstance(a, S) and isinstance(b, S) and a.e.eq(b.e):
        return np.int64(0) if a.is_int() else np.float64(0.0)
    return bin_(a, b, "-")


def _add(a, b):
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return np.bool_(a or b)
    return bin_(a, b, "+")


def _sum_add(a, b):
    """addition as np.sum does it: booleans count as integers"""
    if isinstance(a, (bool, np.bool_)):
        a = np.int64(a)
    if isinstance(b, (bool, np.bool_)):
        b = np.int64(b)
    return bin_(a, b, "+")


def _prod_mul(a, b):
    if isinstance(a, (bool, np.bool_)):
        a = np.int64(a)
    if isinstance(b, (bool, np.bool_)):
        b = np.int64(b)
    return bin_(a, b, "*")


def _mod(a, b):
    return a % b


def _square(a):
    return a * a if not isinstance(a, S) else a**2


UF = {
    "add": _add,
    "subtract": _sub,
    "multiply": _mul,
    "divide": lambda a, b: core.div(a, b) if isinstance(a, S) or isinstance(b, S) else _cdiv(a, b),
    "true_divide": lambda a, b: core.div(a, b) if isinstance(a, S) or isinstance(b, S) else _cdiv(a, b),
    "floor_divide": lambda a, b: core.floordiv(a, b) if isinstance(a, S) or isinstance(b, S) else a // b,
    "remainder": _mod,
    "mod": _mod,
    "power": _pow,
    "float_power": _pow,
    "negative": _negate,
    "positive": lambda a: a,
    "absolute": abs,
    "fabs": abs,
    "sqrt": core.sqrt,
    "square": _square,
    "exp": _f_exp,
    "log": _f_log,
    "log2": lambda x: _f_log(x) / np.log(2.0) if isinstance(x, S) else np.log2(x),
    "log10": lambda x: _f_log(x) / np.log(10.0) if isinstance(x, S) else np.log10(x),
    "sin": _un("sin", lo=-1, hi=1),
    "cos": _un("cos", lo=-1, hi=1),
    "tanh": _un("tanh", lo=-1, hi=1),
    "arccos": _un("arccos", lo=0, hi=4),
    "arctan": _un("arctan", lo=-2, hi=2),
    "nextafter": core.nextafter,
    "floor": core.floor,
    "ceil": core.ceil,
    "rint": core.rint,
    "trunc": lambda a: s_astype(s_astype(a, int), float) if isinstance(a, S) else np.trunc(a),
    "sign": _sign,
    "less": _cmpf("lt"),
    "less_equal": _cmpf("le"),
    "greater": _cmpf("gt"),
    "greater_equal": _cmpf("ge"),
    "equal": _cmpf("eq"),
    "not_equal": _cmpf("ne"),
    "logical_and": lambda a, b: norm(b_and(_truth(a), _truth(b))),
    "logical_or": lambda a, b: norm(b_or(_truth(a), _truth(b))),
    "logical_not": lambda a: norm(b_not(_truth(a))),
    "logical_xor": lambda a, b: _truth(a) ^ _truth(b),
    "bitwise_and": lambda a, b: norm(b_and(a, b)) if isinstance(a, S) or isinstance(b, S) else a & b,
    "bitwise_or": lambda a, b: norm(b_or(a, b)) if isinstance(a, S) or isinstance(b, S) else a | b,
    "bitwise_xor": lambda a, b: a ^ b,
    "invert": _invert,
    "minimum": s_min,
    "maximum": s_max,
    "fmin": s_min,
    "fmax": s_max,
    "isfinite": _isfinite,
    "isnan": _isnan,
    "isinf": _isinf,
    "conjugate": lambda a: a,
}


def _cdiv(a, b):
    with np.errstate(all="ignore"):
        return np.float64(a) / np.float64(b)


_FP = {}


def _fp(name):
    if name not in _FP:
        f = UF[name]
        nin = f.__code__.co_argcount if isinstance(f, types.FunctionType) else 1
        _FP[name] = np.frompyfunc(f, nin, 1)
    return _FP[name]


def _elementwise(name, inputs):
    if name not in UF:
        raise Unsupported(f"ufunc {name}")
    objs = [_to_obj(x) for x in inputs]
    r = _fp(name)(*objs)
    return _done(r)


def _done(r):
    if isinstance(r, _nd):
        if r.ndim == 0:
            return norm(r[()])
        if r.size:
            r = _vnorm(r)
        return r.view(SymArray)
    return norm(r)


def scalar_ufunc(ufunc, method, inputs, kwargs):
    return array_ufunc(ufunc, method, inputs, kwargs)


REDUCERS = {
    "add": (_sum_add, np.int64(0)),
    "multiply": (_prod_mul, np.int64(1)),
    "minimum": (s_min, None),
    "maximum": (s_max, None),
    "logical_and": (lambda a, b: b_and(_truth(a), _truth(b)), np.bool_(True)),
    "logical_or": (lambda a, b: b_or(_truth(a), _truth(b)), np.bool_(False)),
}


def array_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop("out", None)
    kwargs.pop("dtype", None)
    where = kwargs.pop("where", True)
    kwargs.pop("casting", None)
    if where is not True:
        raise Unsupported("ufunc where=")
    if method == "__call__":
        if not any(has_sym(i) for i in inputs):
            with np.errstate(all="ignore"):
                r = rewrap(getattr(ufunc, method)(*[nat(i) for i in inputs], **nat(kwargs)))
        else:
            if name == "matmul":
                r = dot(*inputs)
            else:
                r = _elementwise(name, inputs)
    elif method == "reduce":
        r = _reduce(name, inputs[0], **kwargs)
    elif method == "outer":
        a, b = _to_obj(inputs[0]), _to_obj(inputs[1])
        r = _elementwise(name, [a.reshape(a.shape + (1,) * b.ndim), b])
    elif method == "accumulate":
        r = _accumulate(name, inputs[0], **kwargs)
    elif method == "at":
        a, idx, *rest = inputs
        idx = nat(idx)
        if has_sym(idx):
            raise Unsupported("ufunc.at symbolic index")
        f = UF[name]
        for n, i in enumerate(np.atleast_1d(idx)):
            b = rest[0]
            a[i] = f(a[i], b[n] if isinstance(b, _nd) and b.ndim else b)
        return None
    else:
        raise Unsupported(f"ufunc method {method}")
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, SymArray):
            o[...] = r
            return o
        raise Unsupported("ufunc out=")
    return r


def _axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(int(a) % ndim for a in axis)
    ax = int(axis)
    if ax >= ndim or ax < -ndim:
        raise np.AxisError(ax, ndim)
    return (ax % ndim,)


def _fold(f, items, init):
    it = iter(items)
    if init is None:
        try:
            acc = next(it)
        except StopIteration:
            raise ValueError("zero-size array to reduction operation which has no identity")
    else:
        try:
            acc = f(init, next(it))
        except StopIteration:
            return init
    for v in it:
        acc = f(acc, v)
    return acc


def _reduce(name, a, axis=0, keepdims=False, initial=None, **_):
    if name not in REDUCERS:
        raise Unsupported(f"reduce {name}")
    f, init = REDUCERS[name]
    if initial is not None and not isinstance(initial, type(np._NoValue)):
        init = initial
    return reduce_axis(lambda items: _fold(f, items, init), a, axis, keepdims)


def reduce_axis(fn, a, axis=None, keepdims=False):
    o = _to_obj(a)
    if o.ndim == 0:
        return norm(fn([o[()]]))
    axes = _axes(axis, o.ndim)
    rest = [i for i in range(o.ndim) if i not in axes]
    t = o.transpose(rest + list(axes)).reshape([o.shape[i] for i in rest] + [-1] if o.size else [o.shape[i] for i in rest] + [int(np.prod([o.shape[i] for i in axes]))])
    shape = tuple(o.shape[i] for i in rest)
    out = np.empty(shape, dtype=object)
    if shape == ():
        r = norm(fn(list(t)))
        if keepdims:
            return wrap(np.array(r, dtype=object).reshape((1,) * o.ndim))
        return r
    for idx in np.ndindex(shape):
        out[idx] = norm(fn(list(t[idx])))
    if keepdims:
        out = out.reshape([1 if i in axes else o.shape[i] for i in range(o.ndim)])
    return out.view(SymArray)


def _accumulate(name, a, axis=0, **_):
    f, _i = REDUCERS[name]
    return _cum(f, a, axis)


def _cum(f, a, axis):
    o = _to_obj(a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    t = np.moveaxis(o, axis, 0)
    out = np.empty(t.shape, dtype=object)
    for idx in np.ndindex(t.shape[1:]):
        acc = None
        for k in range(t.shape[0]):
            v = t[(k,) + idx]
            acc = v if acc is None else f(acc, v)
            out[(k,) + idx] = norm(acc)
    return np.moveaxis(out, 0, axis).view(SymArray)


# ---------------------------------------------------------------------------
# the array
# ---------------------------------------------------------------------------


def _idx_kind(k):
    """bool / int / sym classification of one index component"""
    if isinstance(k, S):
        return "symbool" if k.is_bool() else "symint"
    if isinstance(k, (list, SymArray)) or (isinstance(k, _nd) and k.dtype == object):
        o = wrap(k)
        if o.size == 0:
            return "empty"
        if not has_sym(o):
            return "conc"
        for v in o.view(_nd).reshape(-1):
            if isinstance(v, S):
                if v.is_bool():
                    return "symboolarr"
                if v.is_real():
                    raise IndexError(
                        "arrays used as indices must be of integer (or boolean) type"
                    )
            elif isinstance(v, (bool, np.bool_)):
                return "symboolarr"
        return "symintarr"
    return "other"


def conc_mask(m):
    """fork a symbolic boolean array to a concrete one"""
    o = _to_obj(m)
    out = np.empty(o.shape, dtype=bool)
    for idx in np.ndindex(o.shape):
        out[idx] = bool(o[idx])
    return out


def conc_ints(m):
    o = _to_obj(m)
    out = np.empty(o.shape, dtype=np.int64)
    for idx in np.ndindex(o.shape):
        out[idx] = int(o[idx])
    return out


def _bounds(v):
    if isinstance(v, S):
        return v.rng
    return (int(v), int(v))


def _prep_key(key):
    """-> (tuple of components, has symbolic ints?)"""
    comps = list(key) if isinstance(key, tuple) else [key]
    sym = False
    for i, k in enumerate(comps):
        kind = _idx_kind(k)
        if kind == "symbool":
            comps[i] = bool(k)
        elif kind == "symint":
            sym = True
        elif kind == "conc":
            n = nat(wrap(k))
            if n.dtype == float:
                raise IndexError(
                    "arrays used as indices must be of integer (or boolean) type"
                )
            comps[i] = n
        elif kind == "empty":
            sh = np.shape(k)
            comps[i] = np.zeros(sh, dtype=int)
        elif kind == "symboolarr":
            comps[i] = conc_mask(k)
        elif kind == "symintarr":
            comps[i] = wrap(k)
            sym = True
        elif isinstance(k, slice):
            comps[i] = slice(*[int(v) if isinstance(v, S) else (int(v) if isinstance(v, np.integer) else v) for v in (k.start, k.stop, k.step)])
            for v in (k.start, k.stop, k.step):
                if isinstance(v, (float, np.floating)) or (isinstance(v, S) and v.is_real()):
                    raise TypeError("slice indices must be integers")
        elif isinstance(k, (float, np.floating)):
            raise IndexError(
                "only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices"
            )
    return comps, sym


def _in_range(idx_o, dim):
    """raise IndexError on the path where some index is out of range; wrap negatives"""
    c = ctx()
    bad = []
    out = np.empty(idx_o.shape, dtype=object)
    for p in np.ndindex(idx_o.shape):
        v = idx_o[p]
        if isinstance(v, S):
            r = v.rng
            if r is not None and 0 <= r[0] and r[1] < dim:
                out[p] = v
                continue
            e = core.as_arith(v.e)
            if r is not None and 0 <= r[0]:
                bad.append(e >= dim)
                out[p] = v
            else:
                bad.append(z3.Or(e >= dim, e < -dim))
                w = S(z3.If(e < 0, e + dim, e))
                out[p] = w
        else:
            iv = int(v)
            if iv >= dim or iv < -dim:
                raise IndexError(
                    f"index {iv} is out of bounds for axis with size {dim}"
                )
            out[p] = iv % dim
    if bad and c.fork(z3.Or(bad) if len(bad) > 1 else bad[0]):
        raise IndexError("index out of bounds (symbolic)")
    return out


def _select(idx, vals, nn=None):
    """value vals[idx] for a symbolic int idx with 0 <= idx < len(vals)"""
    if not isinstance(idx, S):
        return vals[int(idx)]
    r = idx.rng
    lo, hi = (0, len(vals) - 1) if r is None else (max(0, r[0]), min(len(vals) - 1, r[1]))
    cand = list(range(lo, hi + 1))
    if not cand:
        raise core.PathAbort("empty select")
    first = vals[cand[0]]
    if all(vals[k] is first for k in cand):
        return first
    if all(not isinstance(vals[k], S) for k in cand):
        try:
            if all(vals[k] == first and type(vals[k]) is type(first) for k in cand):
                return first
        except Exception:
            pass
    acc = vals[cand[-1]]
    e = core.as_arith(idx.e)
    # arrays of float64 and int64 keep one sort
    for k in reversed(cand[:-1]):
        acc = ite(core.mk(e == k), vals[k], acc)
    if isinstance(acc, S) and acc.is_int():
        bs = [_bounds(vals[k]) if isinstance(vals[k], (S, int, np.integer)) and not isinstance(vals[k], (bool, np.bool_)) else None for k in cand]
        if all(b is not None for b in bs):
            acc = S(acc.e, acc.nn, (min(b[0] for b in bs), max(b[1] for b in bs)))
            if acc.rng[0] >= 0:
                acc.nn = True
    return acc


def _expand(comps, ndim):
    """fill in Ellipsis / trailing slices; returns list aligned with axes (None kept)"""
    n_real = 0
    for k in comps:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, _nd) and k.dtype == bool:
            n_real += k.ndim
        else:
            n_real += 1
    out = []
    seen = False
    for k in comps:
        if k is Ellipsis:
            out.extend([slice(None)] * (ndim - n_real))
            seen = True
        else:
            out.append(k)
    if not seen:
        out.extend([slice(None)] * (ndim - n_real))
    return out


def _sym_index_plan(shape, comps):
    """
    returns (pre, sel) where `pre` turns the array into one with the advanced
    axes first, and the advanced index arrays are returned broadcast
    """
    comps = _expand(comps, len(shape))
    # split boolean arrays into integer arrays
    flat = []
    for k in comps:
        if isinstance(k, _nd) and k.dtype == bool:
            flat.extend(np.nonzero(k))
        else:
            flat.append(k)
    comps = flat
    adv = []
    basic = []
    axis = 0
    adv_pos = []
    has_arr = any(isinstance(k, _nd) or isinstance(k, list) for k in comps)
    for pos, k in enumerate(comps):
        if k is None:
            basic.append(None)
            continue
        if isinstance(k, slice):
            basic.append(k)
        elif isinstance(k, (S, int, np.integer, list, _nd)):
            adv.append((axis, k))
            adv_pos.append(pos)
            basic.append(slice(None))
        else:
            raise Unsupported(f"index component {type(k)}")
        axis += 1
    return comps, basic, adv, adv_pos, has_arr


class SymArray(_nd):
    __array_priority__ = 500

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, "_kind", None) if obj is not None else None

    # -- protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        return dispatch(func.__name__, func, args, kwargs)

    def __bool__(self):
        if self.size != 1:
            raise ValueError(
                "The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()"
            )
        return bool(self.view(_nd).reshape(-1)[0])

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, v):
        o = _elementwise("equal", [self, v])
        return bool(any_(o))

    def __int__(self):
        return int(self.view(_nd).reshape(-1)[0])

    def __float__(self):
        return float(self.view(_nd).reshape(-1)[0])

    def __index__(self):
        if self.ndim == 0:
            return self[()].__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __repr__(self):
        return "Sym" + repr(self.view(_nd))

    __str__ = __repr__

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    # -- indexing
    def __getitem__(self, key):
        if isinstance(key, (int, np.integer)) and not isinstance(key, (bool, np.bool_)):
            r = _nd.__getitem__(self, int(key))
            return r
        if isinstance(key, str):
            raise IndexError("only integers, slices... are valid indices")
        comps, sym = _prep_key(key)
        if not sym:
            r = _nd.__getitem__(self, tuple(comps))
            return r
        return _getitem_sym(self, comps)

    def __setitem__(self, key, val):
        if isinstance(val, SymArray) or isinstance(val, (S,)):
            v = val
        else:
            v = wrap(val)
            if v.ndim == 0:
                v = v[()]
        v = v.view(_nd) if isinstance(v, SymArray) else v
        # masked assignment of a scalar under a symbolic mask: no fork needed
        if (
            isinstance(key, SymArray)
            and key.shape == self.shape
            and _idx_kind(key) == "symboolarr"
            and not isinstance(v, _nd)
            and not nonfinite(v)
        ):
            o = self.view(_nd)
            m = key.view(_nd)
            for p in np.ndindex(self.shape):
                if isinstance(m[p], S) and nonfinite(o[p]):
                    o[p] = v if bool(m[p]) else o[p]
                else:
                    o[p] = norm(ite(m[p], v, o[p]))
            return
        comps, sym = _prep_key(key)
        if not sym:
            _nd.__setitem__(self.view(_nd), tuple(comps), v)
            return
        _setitem_sym(self, comps, v)

    # -- methods -> functions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return sum_(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, **k):
        return reduce_call("prod", self, axis)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return mean(self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, ddof=0, **k):
        return std(self, axis=axis, ddof=ddof)

    def var(self, axis=None, ddof=0, **k):
        return var(self, axis=axis, ddof=ddof)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_call("min", self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_call("max", self, axis, keepdims)

    def any(self, axis=None, **k):
        return any_(self, axis=axis)

    def all(self, axis=None, **k):
        return all_(self, axis=axis)

    def argmax(self, axis=None, **k):
        return argmax(self, axis)

    def argmin(self, axis=None, **k):
        return argmin(self, axis)

    def argsort(self, axis=-1, **k):
        return argsort(self, axis)

    def sort(self, axis=-1, **k):
        r = sort(self, axis)
        self.view(_nd)[...] = r.view(_nd)

    def cumsum(self, axis=None, **k):
        return cumsum(self, axis)

    def dot(self, b, **k):
        return dot(self, b)

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def round(self, decimals=0, **k):
        if decimals:
            raise Unsupported("round decimals")
        return array_ufunc(np.rint, "__call__", (self,), {})

    def clip(self, a_min=None, a_max=None, **k):
        return clip(self, a_min, a_max)

    def nonzero(self):
        return nonzero(self)

    def repeat(self, repeats, axis=None):
        return dispatch("repeat", np.repeat, (self, repeats), {"axis": axis})

    def take(self, indices, axis=None, **k):
        return take(self, indices, axis)

    def conj(self):
        return self

    def astype(self, dtype, **k):
        return astype(self, dtype)

    def tolist(self):
        o = self.view(_nd)

        def un(v):
            if isinstance(v, list):
                return [un(x) for x in v]
            return v.item() if isinstance(v, np.generic) else v

        return un(o.tolist()) if o.ndim else un(o[()])

    def item(self, *a):
        o = self.view(_nd)
        if a:
            return o.item(*a)
        if o.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return o.reshape(-1)[0]

    def fill(self, v):
        self.view(_nd)[...] = norm(v)

    def diagonal(self, *a, **k):
        return wrap(self.view(_nd).diagonal(*a, **k))

    def trace(self, *a, **k):
        return sum_(self.diagonal())

    def tobytes(self, *a, **k):
        raise Unsupported("tobytes")

    def ptp(self, axis=None, **k):
        return self.max(axis=axis) - self.min(axis=axis)


def _getitem_sym(arr, comps):
    o = arr.view(_nd)
    comps, basic, adv, adv_pos, has_arr = _sym_index_plan(o.shape, comps)
    # apply the basic part first (slices and newaxis); advanced axes kept whole
    o2 = o[tuple(basic)]
    # where did each advanced axis go after the basic part
    axmap = []
    for pos in adv_pos:
        axmap.append(pos)  # basic keeps one output axis per component
    idxs = []
    for (axis, k), pos in zip(adv, axmap):
        dim = o2.shape[pos]
        io = _to_obj(k)
        idxs.append(_in_range(io, dim))
    b = np.broadcast(*idxs) if len(idxs) > 1 else None
    bshape = b.shape if b is not None else idxs[0].shape
    idxs = [np.broadcast_to(i, bshape) for i in idxs]
    # advanced axes to the front
    rest = [i for i in range(o2.ndim) if i not in axmap]
    t = o2.transpose(list(axmap) + rest)
    rshape = t.shape[len(axmap):]
    out = np.empty(bshape + rshape, dtype=object)
    dims = t.shape[: len(axmap)]
    for p in np.ndindex(bshape):
        ii = [i[p] for i in idxs]
        cur = t
        # concrete comps first
        sl = tuple(int(v) if not isinstance(v, S) else slice(None) for v in ii)
        cur = t[sl]
        syms = [v for v in ii if isinstance(v, S)]
        for v in syms:
            # select along axis 0 of cur
            nxt = np.empty(cur.shape[1:], dtype=object)
            for q in np.ndindex(cur.shape[1:]):
                nxt[q] = _select(v, [cur[(k,) + q] for k in range(cur.shape[0])])
            cur = nxt
        if isinstance(cur, _nd):
            out[p] = cur if cur.ndim else cur[()]
        else:
            out[p] = cur
    # place advanced dims
    contiguous = all(b - a == 1 for a, b in zip(adv_pos, adv_pos[1:]))
    nb = len(bshape)
    if contiguous:
        lead = len([1 for i in rest if i < axmap[0]])
        order = list(range(nb, nb + lead)) + list(range(nb)) + list(range(nb + lead, out.ndim))
        out = out.transpose(order)
    if out.ndim == 0:
        return norm(out[()])
    return np.ascontiguousarray(out).view(SymArray) if out.size else out.view(SymArray)


def _setitem_sym(arr, comps, val):
    o = arr.view(_nd)
    comps, basic, adv, adv_pos, has_arr = _sym_index_plan(o.shape, comps)
    if any(k is None for k in basic):
        raise Unsupported("newaxis in symbolic assignment")
    view = o[tuple(basic)]
    idxs = [
        _in_range(_to_obj(k), view.shape[pos]) for (axis, k), pos in zip(adv, adv_pos)
    ]
    bshape = np.broadcast(*idxs).shape if len(idxs) > 1 else idxs[0].shape
    idxs = [np.broadcast_to(i, bshape) for i in idxs]
    rest = [i for i in range(view.ndim) if i not in adv_pos]
    t = view.transpose(list(adv_pos) + rest)
    rshape = t.shape[len(adv_pos):]
    nb = len(bshape)
    contiguous = all(b - a == 1 for a, b in zip(adv_pos, adv_pos[1:]))
    v = _to_obj(val)
    if contiguous:
        lead = len([1 for i in rest if i < adv_pos[0]])
        tgt_shape = rshape[:lead] + bshape + rshape[lead:]
        v = np.broadcast_to(v, tgt_shape)
        v = v.transpose(
            list(range(lead, lead + nb)) + list(range(lead)) + list(range(lead + nb, v.ndim))
        )
    else:
        v = np.broadcast_to(v, bshape + rshape)
    for p in np.ndindex(bshape):
        ii = [i[p] for i in idxs]
        ranges = []
        for a, x in enumerate(ii):
            if isinstance(x, S):
                r = x.rng
                ranges.append(range(t.shape[a]) if r is None else range(max(0, r[0]), min(t.shape[a] - 1, r[1]) + 1))
            else:
                ranges.append([int(x)])
        for combo in itertools.product(*ranges):
            cond = np.bool_(True)
            for x, k in zip(ii, combo):
                if isinstance(x, S):
                    cond = b_and(cond, core.mk(z3.simplify(core.as_arith(x.e) == k)))
            for q in np.ndindex(rshape):
                t[combo + q] = norm(ite(cond, v[p + q], t[combo + q]))


# ---------------------------------------------------------------------------
# functions
# ---------------------------------------------------------------------------


def astype(a, dtype, **_):
    if dtype in (str, "str") or (isinstance(dtype, np.dtype) and dtype.kind == "U"):
        return wrap(nat(a).astype(str)) if not has_sym(a) else wrap([str(v) for v in a])
    try:
        dt = np.dtype(dtype)
    except TypeError:
        raise Unsupported(f"astype {dtype}")
    o = _to_obj(a)
    if dt == object:
        return wrap(o.copy())
    t = {"i": int, "u": int, "f": float, "b": bool}.get(dt.kind)
    if t is None:
        raise Unsupported(f"astype {dtype}")
    if o.size == 0:
        r = o.copy().view(SymArray)
        r._kind = t
        return r
    narrow = dt.kind == "f" and dt.itemsize < 8

    def f(v):
        if narrow:
            return s_astype(v, dt.type)
        if not isinstance(v, S):
            if t is int and isinstance(v, (float, np.floating)) and not np.isfinite(v):
                return np.int64(-(2**62))
            return norm(t(v))
        return norm(s_astype(v, t))

    r = np.frompyfunc(f, 1, 1)(o)
    return wrap(r)


def _cond_count(a):
    return a


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    a = wrap(a)
    if not has_sym(a):
        with np.errstate(all="ignore"):
            return rewrap(np.sum(nat(a), axis=axis, keepdims=keepdims))

    def f(items):
        # a sum of terms in one go keeps z3 terms flat
        if any(nonfinite(v) for v in items):
            return _fold(_sum_add, items, np.int64(0))
        conc = [v for v in items if not isinstance(v, S)]
        syms = [v for v in items if isinstance(v, S)]
        c0 = np.int64(0)
        for v in conc:
            c0 = _sum_add(c0, v)
        if not syms:
            return c0
        es = [core.as_arith(v.e) for v in syms]
        if any(z3.is_real(e) for e in es) or isinstance(c0, (float, np.floating)):
            es = [core.to_real(e) for e in es]
        nn = all(v.nn or v.is_bool() for v in syms) and c0 >= 0
        bs = [(0, 1) if v.is_bool() else v.rng for v in syms]
        rng = None
        if all(b is not None for b in bs) and isinstance(c0, np.integer):
            rng = (sum(b[0] for b in bs) + int(c0), sum(b[1] for b in bs) + int(c0))
        r = z3.Sum(es) if len(es) > 1 else es[0]
        if c0 != 0:
            r = r + core.zval(c0)
        return S(r, nn, rng)

    return reduce_axis(f, a, axis, bool(keepdims))


def reduce_call(name, a, axis=None, keepdims=False):
    a = wrap(a)
    fn = {"prod": np.prod, "min": np.min, "max": np.max}[name]
    if not has_sym(a):
        with np.errstate(all="ignore"):
            return rewrap(fn(nat(a), axis=axis, keepdims=keepdims))
    f, init = REDUCERS[{"prod": "multiply", "min": "minimum", "max": "maximum"}[name]]
    return reduce_axis(lambda items: _fold(f, items, init), a, axis, keepdims)


def min_(a, axis=None, out=None, keepdims=False, **k):
    return reduce_call("min", a, axis, keepdims)


def max_(a, axis=None, out=None, keepdims=False, **k):
    return reduce_call("max", a, axis, keepdims)


def prod_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_call("prod", a, axis, keepdims)


def any_(a, axis=None, out=None, keepdims=False, **k):
    a = wrap(a)
    f, init = REDUCERS["logical_or"]
    return reduce_axis(lambda items: _fold(f, items, init), a, axis, keepdims)


def all_(a, axis=None, out=None, keepdims=False, **k):
    a = wrap(a)
    f, init = REDUCERS["logical_and"]
    return reduce_axis(lambda items: _fold(f, items, init), a, axis, keepdims)


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = wrap(a)
    if not has_sym(a):
        with np.errstate(all="ignore"):
            return rewrap(np.mean(nat(a), axis=axis, keepdims=keepdims))
    axes = _axes(axis, a.ndim)
    n = int(np.prod([a.shape[i] for i in axes]))
    s = sum_(a, axis=axis, keepdims=keepdims)
    return array_ufunc(np.true_divide, "__call__", (s, np.int64(n)), {})


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = wrap(a)
    if not has_sym(a):
        with np.errstate(all="ignore"):
            return rewrap(np.var(nat(a), axis=axis, ddof=ddof, keepdims=keepdims))
    axes = _axes(axis, a.ndim)
    n = int(np.prod([a.shape[i] for i in axes]))
    m = mean(a, axis=axis, keepdims=True)
    d = a - m
    s = sum_(d**2, axis=axis, keepdims=keepdims)
    return array_ufunc(np.true_divide, "__call__", (s, np.int64(n - ddof)), {})


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    v = var(a, axis=axis, ddof=ddof, keepdims=keepdims)
    return array_ufunc(np.sqrt, "__call__", (v,), {})


def median(a, axis=None, **k):
    a = wrap(a)
    s = sort(a if axis is not None else a.ravel(), axis if axis is not None else 0)
    ax = axis if axis is not None else 0
    n = s.shape[ax]
    t = np.moveaxis(s.view(_nd), ax, 0).view(SymArray)
    if n % 2:
        return unwrap0(t[n // 2])
    return (t[n // 2 - 1] + t[n // 2]) / 2


def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    m = wrap(m)
    if m.ndim == 1:
        m = m.reshape(1, -1)
    if not rowvar and m.shape[0] != 1:
        m = m.T
    n = m.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    d = m - mean(m, axis=1).reshape(-1, 1)
    r = dot(d, d.T) / np.int64(n - ddof)
    if r.shape == (1, 1):
        return r[0, 0]
    return r


def cumsum(a, axis=None, **k):
    return _cum(_sum_add, a, axis)


def cumprod(a, axis=None, **k):
    return _cum(_prod_mul, a, axis)


def diff(a, n=1, axis=-1, **k):
    a = wrap(a)
    t = np.moveaxis(a.view(_nd), axis, 0).view(SymArray)
    r = t[1:] - t[:-1]
    return np.moveaxis(r.view(_nd), 0, axis).view(SymArray)


def dot(a, b, out=None):
    if isinstance(a, S) or isinstance(b, S) or np.isscalar(a) or np.isscalar(b):
        return a * b
    a, b = wrap(a), wrap(b)
    if not has_sym(a) and not has_sym(b):
        return rewrap(np.dot(nat(a), nat(b)))
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
        return sum_(a * b)
    A = a if a.ndim > 1 else a.reshape(1, -1)
    B = b if b.ndim > 1 else b.reshape(-1, 1)
    if A.ndim != 2 or B.ndim != 2:
        raise Unsupported("dot ndim>2")
    if A.shape[1] != B.shape[0]:
        raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            out[i, j] = sum_(A[i] * B[:, j])
    r = out.view(SymArray)
    if a.ndim == 1:
        r = r[0]
    elif b.ndim == 1:
        r = r[:, 0]
    return r


def inner(a, b):
    a, b = wrap(a), wrap(b)
    if a.ndim <= 1 and b.ndim <= 1:
        return dot(a, b)
    return dot(a, b.T if b.ndim > 1 else b)


def outer(a, b, out=None):
    a, b = wrap(a).ravel(), wrap(b).ravel()
    return a.reshape(-1, 1) * b.reshape(1, -1)


def einsum(spec, *ops, **k):
    spec = spec.replace(" ", "")
    lhs, rhs = spec.split("->")
    ins = lhs.split(",")
    ops = [wrap(o) for o in ops]
    if "..." in spec:
        nell = max(o.ndim - len(i.replace("...", "")) for o, i in zip(ops, ins))
        ell = "ABCDEFG"[:nell]
        ins = [i.replace("...", ell) for i in ins]
        rhs = rhs.replace("...", ell)
    dims = {}
    for i, o in zip(ins, ops):
        for ch, d in zip(i, o.shape):
            if dims.setdefault(ch, d) != d:
                raise ValueError("einsum: operands could not be broadcast")
    summed = [ch for ch in dims if ch not in rhs]
    out = np.empty([dims[ch] for ch in rhs], dtype=object)
    for p in np.ndindex(*[dims[ch] for ch in rhs]):
        env = dict(zip(rhs, p))
        terms = []
        for q in itertools.product(*[range(dims[ch]) for ch in summed]):
            env.update(zip(summed, q))
            t = None
            for i, o in zip(ins, ops):
                v = o.view(_nd)[tuple(env[ch] for ch in i)]
                t = v if t is None else t * v
            terms.append(t)
        out[p] = sum_(wrap(terms)) if terms else np.float64(0)
        # squared sums are non-negative: x*t*x with a diagonal identity is kept as is
    if out.ndim == 0:
        return norm(out[()])
    return out.view(SymArray)


def where(cond, *xy):
    if not xy:
        return nonzero(cond)
    x, y = xy
    c, x, y = _to_obj(cond), _to_obj(x), _to_obj(y)
    f = np.frompyfunc(lambda a, b, d: norm(ite(_truth(a), b, d)), 3, 1)
    return _done(f(c, x, y))


def nonzero(a):
    m = conc_mask(wrap(a))
    return tuple(wrap(v) for v in np.nonzero(m))


def argwhere(a):
    return wrap(np.argwhere(conc_mask(wrap(a))))


def flatnonzero(a):
    return wrap(np.flatnonzero(conc_mask(wrap(a).ravel())))


def _sorted_perm(items):
    """fresh permutation ordering `items` (1-D list) ascending"""
    n = len(items)
    c = ctx()
    if n <= 1:
        return [np.int64(i) for i in range(n)]
    if any(nonfinite(v) for v in items):
        # finite ones first (inf/nan last, -inf first)
        fin = [i for i, v in enumerate(items) if not nonfinite(v)]
        neg = [i for i, v in enumerate(items) if nonfinite(v) and v == v and v < 0]
        pos = [i for i, v in enumerate(items) if nonfinite(v) and v == v and v > 0]
        nan = [i for i, v in enumerate(items) if nonfinite(v) and v != v]
        sub = _sorted_perm([items[i] for i in fin])
        mid = [_select(s, [np.int64(i) for i in fin]) for s in sub]
        return [np.int64(i) for i in neg] + mid + [np.int64(i) for i in pos] + [np.int64(i) for i in nan]
    key = ("perm",) + tuple(
        ("s", v.e.get_id()) if isinstance(v, S) else ("c", float(v)) for v in items
    )
    hit = c.memo.get(key)
    if hit is not None:
        return hit[0]
    base = c.fresh_name("perm")
    ps = []
    for i in range(n):
        v = z3.Int(f"{base}_{i}")
        c.add(z3.And(v >= 0, v < n))
        ps.append(S(v, True, (0, n - 1)))
    c.add(z3.Distinct([p.e for p in ps]))
    vals = [_select(p, items) for p in ps]
    for a, b in zip(vals, vals[1:]):
        cond = CMP['le'](a, b)
        if isinstance(cond, S):
            c.add(cond.e)
    c.memo[key] = (ps, list(items), vals)
    return ps


def argsort(a, axis=-1, **k):
    a = wrap(a)
    if not has_sym(a):
        return rewrap(np.argsort(nat(a), axis=axis, **k))
    if axis is None:
        a, axis = a.ravel(), 0
    t = np.moveaxis(a.view(_nd), axis, -1)
    out = np.empty(t.shape, dtype=object)
    for p in np.ndindex(t.shape[:-1]):
        row = _sorted_perm(list(t[p]))
        for j, v in enumerate(row):
            out[p + (j,)] = v
    return np.moveaxis(out, -1, axis).view(SymArray)


def sort(a, axis=-1, **k):
    a = wrap(a)
    if not has_sym(a):
        return rewrap(np.sort(nat(a), axis=axis))
    if axis is None:
        a, axis = a.ravel(), 0
    t = np.moveaxis(a.view(_nd), axis, -1)
    out = np.empty(t.shape, dtype=object)
    for p in np.ndindex(t.shape[:-1]):
        row = list(t[p])
        if len(row) == 2:
            out[p + (0,)] = norm(s_min(*row))
            out[p + (1,)] = norm(s_max(*row))
            continue
        ps = _sorted_perm(row)
        for j, v in enumerate(ps):
            out[p + (j,)] = _select(v, row) if isinstance(v, S) else row[int(v)]
    return np.moveaxis(out, -1, axis).view(SymArray)


def argpartition(a, kth, axis=-1, **k):
    return argsort(a, axis)


def partition(a, kth, axis=-1, **k):
    return sort(a, axis)


def _arg_ext(items, less):
    """index of the first extreme element, as a symbolic int"""
    best, bi = items[0], np.int64(0)
    for i, v in enumerate(items[1:], 1):
        c = less(v, best)
        if isinstance(c, S):
            bi = ite(c, np.int64(i), bi)
            best = ite(c, v, best)
        elif c:
            bi, best = np.int64(i), v
    if isinstance(bi, S):
        bi = S(bi.e, True, (0, len(items) - 1))
    return bi


def _lt(a, b):
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return (not a) and b
    if isinstance(a, S) and a.is_bool():
        a = S(core.as_arith(a.e), True)
    if isinstance(b, S) and b.is_bool():
        b = S(core.as_arith(b.e), True)
    return CMP['lt'](a, b)


def argmin(a, axis=None, **k):
    a = wrap(a)
    if not has_sym(a):
        return rewrap(np.argmin(nat(a), axis=axis))
    if a.size == 0:
        raise ValueError("attempt to get argmin of an empty sequence")
    return reduce_axis(lambda it: _arg_ext(it, _lt), a, axis)


def argmax(a, axis=None, **k):
    a = wrap(a)
    if not has_sym(a):
        return rewrap(np.argmax(nat(a), axis=axis))
    if a.size == 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    return reduce_axis(lambda it: _arg_ext(it, lambda v, b: _lt(b, v)), a, axis)


def clip(a, a_min=None, a_max=None, **k):
    r = a
    if a_min is not None:
        r = array_ufunc(np.maximum, "__call__", (r, a_min), {})
    if a_max is not None:
        r = array_ufunc(np.minimum, "__call__", (r, a_max), {})
    return r


def take(a, indices, axis=None, **k):
    a = wrap(a)
    if axis is None:
        return a.ravel()[indices]
    key = [slice(None)] * a.ndim
    key[axis] = indices
    return a[tuple(key)]


def _same(a, b):
    """equality of two elements, as python bool (forks when symbolic)"""
    if isinstance(a, S) and isinstance(b, S) and a.e.eq(b.e):
        return True
    return bool(a == b)


def unique(
    ar,
    return_index=False,
    return_inverse=False,
    return_counts=False,
    axis=None,
    **k,
):
    ar = wrap(ar)
    if not has_sym(ar):
        return rewrap(
            np.unique(
                nat(ar),
                return_index=return_index,
                return_inverse=return_inverse,
                return_counts=return_counts,
                axis=axis,
            )
        )
    if axis is not None and axis != 0:
        r = unique(
            np.moveaxis(ar.view(_nd), axis, 0).view(SymArray),
            return_index=return_index,
            return_inverse=return_inverse,
            return_counts=return_counts,
            axis=0,
        )
        head = r[0] if isinstance(r, tuple) else r
        head = np.moveaxis(head.view(_nd), 0, axis).view(SymArray)
        return (head,) + r[1:] if isinstance(r, tuple) else head
    if axis is None:
        rows = [(v,) for v in ar.view(_nd).reshape(-1)]
    elif axis == 0:
        t = ar.view(_nd).reshape(ar.shape[0], -1)
        rows = [tuple(r) for r in t]
    else:
        raise Unsupported("unique axis")
    groups = []  # (row, first index, members)
    for i, r in enumerate(rows):
        for g in groups:
            if all(_same(x, y) for x, y in zip(r, g[0])):
                g[2].append(i)
                break
        else:
            groups.append((r, i, [i]))

    def cmp(g, h):
        for x, y in zip(g[0], h[0]):
            if isinstance(x, S) and isinstance(y, S) and x.e.eq(y.e):
                continue
            if bool(x < y):
                return -1
            if bool(y < x):
                return 1
        return 0

    groups = sorted(groups, key=functools.cmp_to_key(cmp))
    if axis is None:
        vals = wrap([g[0][0] for g in groups])
    else:
        vals = wrap([list(g[0]) for g in groups]).reshape((len(groups),) + ar.shape[1:])
    out = [vals]
    if return_index:
        out.append(wrap([g[1] for g in groups]))
    if return_inverse:
        inv = [0] * len(rows)
        for gi, g in enumerate(groups):
            for m in g[2]:
                inv[m] = gi
        out.append(wrap(inv))
    if return_counts:
        out.append(wrap([len(g[2]) for g in groups]))
    return out[0] if len(out) == 1 else tuple(out)


def isin(element, test_elements, assume_unique=False, invert=False, **k):
    a, t = wrap(element), wrap(test_elements).ravel()
    out = np.empty(a.shape, dtype=object)
    for p in np.ndindex(a.shape):
        r = np.bool_(False)
        for v in t.view(_nd):
            r = b_or(r, a.view(_nd)[p] == v)
        out[p] = norm(b_not(r) if invert else r)
    return _done(out)


def bincount(x, weights=None, minlength=0):
    x = wrap(x)
    if weights is not None:
        raise Unsupported("bincount weights")
    if has_sym(x):
        x = conc_ints(x)
    return rewrap(np.bincount(nat(x), minlength=int(minlength)))


def repeat(a, repeats, axis=None):
    a = _to_obj(a)
    if isinstance(repeats, S):
        repeats = int(repeats)
    elif has_sym(repeats):
        repeats = conc_ints(repeats)
    else:
        repeats = nat(repeats) if isinstance(repeats, SymArray) else repeats
        if isinstance(repeats, (float, np.floating)):
            raise TypeError("Cannot cast scalar from dtype('float64') to dtype('int64')")
    return wrap(np.repeat(a, repeats, axis=axis))


def delete(arr, obj, axis=None):
    a = wrap(arr).view(_nd)
    if isinstance(obj, slice):
        return wrap(np.delete(a, obj, axis=axis))
    o = wrap(obj)
    if has_sym(o):
        kind = _idx_kind(o)
        o = conc_mask(o) if kind == "symboolarr" else conc_ints(o)
    elif o.size == 0:
        o = np.zeros(0, dtype=int)
    else:
        o = nat(o)
    if isinstance(o, _nd) and o.dtype == float:
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    return wrap(np.delete(a, o, axis=axis))


def arange(*args, **k):
    args = [int(a) if isinstance(a, S) else nat(a) for a in args]
    return rewrap(np.arange(*args))


def linspace(start, stop, num=50, endpoint=True, **k):
    num = int(num)
    if not (isinstance(start, S) or isinstance(stop, S)):
        return rewrap(np.linspace(start, stop, num, endpoint=endpoint))
    d = num - 1 if endpoint else num
    step = (stop - start) / np.float64(max(d, 1))
    return wrap([start + step * np.float64(i) for i in range(num)])


def _shape(s):
    if isinstance(s, (list, tuple, _nd)):
        return tuple(int(v) for v in s)
    return (int(s),)


def _filled(shape, v):
    out = np.empty(shape, dtype=object)
    out[...] = v
    return out.view(SymArray)


def _default(dtype, one=False):
    if dtype is None:
        return np.float64(1.0 if one else 0.0)
    k = np.dtype(dtype).kind
    v = 1 if one else 0
    return {"f": np.float64(v), "i": np.int64(v), "u": np.int64(v), "b": np.bool_(v)}.get(
        k, v if k == "O" else np.float64(v)
    )


def zeros(shape, dtype=None, **k):
    r = _filled(_shape(shape), _default(dtype))
    if dtype is not None:
        r._kind = np.dtype(dtype)
    return r


def ones(shape, dtype=None, **k):
    return _filled(_shape(shape), _default(dtype, True))


def empty(shape, dtype=None, **k):
    return zeros(shape, dtype)


def full(shape, fill_value, dtype=None, **k):
    return _filled(_shape(shape), norm(fill_value))


def zeros_like(a, dtype=None, **k):
    a = wrap(a)
    if dtype is None:
        n = None if has_sym(a) else nat(a).dtype
        dtype = n
    return _filled(a.shape, _default(dtype))


def ones_like(a, dtype=None, **k):
    a = wrap(a)
    if dtype is None:
        n = None if has_sym(a) else nat(a).dtype
        dtype = n
    return _filled(a.shape, _default(dtype, True))


def full_like(a, fill_value, dtype=None, **k):
    return _filled(wrap(a).shape, norm(fill_value))


def array(obj, dtype=None, copy=True, **k):
    if isinstance(obj, (map, zip, filter, types.GeneratorType)):
        return wrap(obj)
    if dtype in (object, "object") and not has_sym(obj):
        r = np.array(nat(obj) if not isinstance(obj, list) else [nat(v) for v in obj], dtype=object)
        out = np.empty(r.shape, dtype=object)
        for p in np.ndindex(r.shape):
            v = r[p]
            out[p] = wrap(v) if isinstance(v, _nd) else v
        return out.view(SymArray)
    if dtype in (object, "object") and isinstance(obj, (list, tuple)) and obj and all(isinstance(v, _nd) and v.ndim for v in obj) and len({v.shape for v in obj}) > 1:
        r = np.empty(len(obj), dtype=object)
        for i, v in enumerate(obj):
            r[i] = wrap(v)
        return r.view(SymArray)
    if isinstance(obj, _nd):
        r = wrap(_to_obj(obj).copy())
        r._kind = getattr(obj, "_kind", None)
    else:
        r = wrap(obj)
        if r.size:
            nat_k = None
            if not has_sym(r):
                n = nat(r)
                if n.dtype == np.float64:
                    r = wrap(n)
    if dtype is not None:
        if r.size == 0:
            r._kind = np.dtype(dtype)
            return r
        r = astype(r, dtype)
    return r


def asarray(obj, dtype=None, **k):
    if isinstance(obj, SymArray) and dtype is None:
        return obj
    return array(obj, dtype=dtype)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = wrap(x)

    def f(v):
        if nonfinite(v):
            if v != v:
                return np.float64(nan)
            if v > 0:
                return np.float64(1.7976931348623157e308 if posinf is None else posinf)
            return np.float64(-1.7976931348623157e308 if neginf is None else neginf)
        return v

    return _done(np.frompyfunc(f, 1, 1)(a.view(_nd)))


def nansum(a, axis=None, **k):
    a = wrap(a)

    def f(items):
        return sum_(wrap([v for v in items if not (nonfinite(v) and v != v)]))

    return reduce_axis(f, a, axis)


def nanmean(a, axis=None, **k):
    a = wrap(a)

    def f(items):
        return mean(wrap([v for v in items if not (nonfinite(v) and v != v)]))

    return reduce_axis(f, a, axis)


def allclose(a, b, rtol=1e-05, atol=1e-08, **k):
    d = abs(wrap(a) - wrap(b))
    return bool(all_(d <= atol + rtol * abs(wrap(b))))


def array_equal(a, b, **k):
    a, b = wrap(a), wrap(b)
    if a.shape != b.shape:
        return False
    return bool(all_(a == b))


def norm_(x, ord=None, axis=None, keepdims=False):
    x = wrap(x)
    if not has_sym(x):
        return rewrap(np.linalg.norm(nat(x), ord=ord, axis=axis, keepdims=keepdims))
    if ord not in (None, 2, "fro") or (ord == 2 and x.ndim == 2 and axis is None):
        if ord == 1 and (x.ndim == 1 or axis is not None):
            return sum_(abs(x), axis=axis, keepdims=keepdims)
        raise Unsupported(f"norm ord={ord}")
    s = sum_(x**2, axis=axis, keepdims=keepdims)
    return array_ufunc(np.sqrt, "__call__", (s,), {})


def det(a):
    a = wrap(a)
    if not has_sym(a):
        return rewrap(np.linalg.det(nat(a)))
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    if n == 3:
        r = np.float64(0)
        for p in itertools.permutations(range(3)):
            s = 1
            for i in range(3):
                for j in range(i + 1, 3):
                    if p[i] > p[j]:
                        s = -s
            r = r + a[0, p[0]] * a[1, p[1]] * a[2, p[2]] * np.float64(s)
        return r
    raise Unsupported("det n>3")


def inv(a):
    a = wrap(a)
    if not has_sym(a):
        return rewrap(np.linalg.inv(nat(a)))
    n = a.shape[0]
    d = det(a)
    if ctx().fork(core.to_real(d.e) == 0) if isinstance(d, S) else d == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    if n == 1:
        return wrap([[np.float64(1.0) / a[0, 0]]])
    if n == 2:
        return wrap([[a[1, 1] / d, -a[0, 1] / d], [-a[1, 0] / d, a[0, 0] / d]])
    return havoc_array("inv", (n, n), a)


def solve(a, b):
    a, b = wrap(a), wrap(b)
    if not has_sym(a) and not has_sym(b):
        return rewrap(np.linalg.solve(nat(a), nat(b)))
    if a.shape[0] <= 2:
        return dot(inv(a), b)
    x = havoc_array("solve", b.shape, a, b)
    r = dot(a, x)
    for p in np.ndindex(b.shape):
        v = r.view(_nd)[p] == b.view(_nd)[p]
        if isinstance(v, S):
            ctx().add(v.e)
    return x


def eigh(a, *_, **k):
    a = wrap(a)
    if not has_sym(a):
        return rewrap(np.linalg.eigh(nat(a)))
    n = a.shape[0]
    if n == 1:
        return wrap([a[0, 0]]), wrap([[np.float64(1.0)]])
    w = havoc_array("eigw", (n,), a)
    v = havoc_array("eigv", (n, n), a)
    for i in range(n - 1):
        ctx().add(w[i].e <= w[i + 1].e)
    for i in range(n):
        for j in range(n):
            ctx().add(z3.And(v[i, j].e >= -1, v[i, j].e <= 1))
    return w, v


def eig(a, *_, **k):
    a = wrap(a)
    if not has_sym(a):
        w, v = np.linalg.eig(nat(a))
        return rewrap(np.real(w)), rewrap(np.real(v))
    n = a.shape[0]
    if n == 1:
        return wrap([a[0, 0]]), wrap([[np.float64(1.0)]])
    w = havoc_array("eigw", (n,), a)
    v = havoc_array("eigv", (n, n), a)
    for i in range(n):
        for j in range(n):
            ctx().add(z3.And(v[i, j].e >= -1, v[i, j].e <= 1))
    return w, v


def cond(a, *_, **k):
    a = wrap(a)
    if not has_sym(a):
        return rewrap(np.linalg.cond(nat(a)))
    r = havoc_array("cond", (1,), a)[0]
    ctx().add(r.e >= 1)
    return S(r.e, True)


def cholesky(a):
    a = wrap(a)
    if not has_sym(a):
        return rewrap(np.linalg.cholesky(nat(a)))
    return havoc_array("chol", a.shape, a)


def corrcoef(x, *_, **k):
    x = wrap(x)
    if not has_sym(x):
        with np.errstate(all="ignore"):
            return rewrap(np.corrcoef(nat(x)))
    n = x.shape[0] if x.ndim > 1 else 1
    if n == 1:
        return np.float64(1.0)
    r = havoc_array("corr", (n, n), x)
    o = r.view(_nd)
    for i in range(n):
        o[i, i] = np.float64(1.0)
        for j in range(i):
            ctx().add(z3.And(o[i, j].e >= -1, o[i, j].e <= 1))
            o[j, i] = o[i, j]
    return r


def polyfit(x, y, deg, **k):
    x, y = wrap(x), wrap(y)
    if not has_sym(x) and not has_sym(y):
        return rewrap(np.polyfit(nat(x), nat(y), deg))
    if y.ndim == 1:
        return havoc_array("polyfit", (deg + 1,), x, y)
    return havoc_array("polyfit", (deg + 1, y.shape[1]), x, y)


class Poly1d:
    """numpy.poly1d restricted to evaluation"""

    def __init__(self, c):
        self.c = wrap(c)

    def __call__(self, x):
        return polyval(self.c, x)


def polyval(p, x):
    r = np.float64(0)
    for c in wrap(p):
        r = r * x + c
    return r


def key_of(*arrs):
    ks = []
    for a in arrs:
        if isinstance(a, S):
            ks.append(("s", a.e.get_id()))
            continue
        if not isinstance(a, (_nd, list, tuple)):
            ks.append(("c", repr(a)))
            continue
        o = _to_obj(a)
        ks.append(o.shape)
        for v in o.reshape(-1):
            ks.append(v.e.get_id() if isinstance(v, S) else ("c", repr(v)))
    return tuple(ks)


def havoc_array(name, shape, *args, keep=True):
    """array of fresh reals that is a function of the arguments (memoised)"""
    c = ctx()
    key = ("hv", name, tuple(shape)) + key_of(*args)
    hit = c.memo.get(key)
    if hit is None:
        base = c.fresh_name(name)
        out = np.empty(shape, dtype=object)
        for p in np.ndindex(*shape):
            out[p] = S(z3.Real(base + "_" + "_".join(map(str, p))))
        hit = c.memo[key] = (out, [a for a in args])
    return hit[0].copy().view(SymArray)


def apply_along_axis(func, axis, arr, *args, **kw):
    a = wrap(arr)
    t = np.moveaxis(a.view(_nd), axis, -1)
    res = {}
    for p in np.ndindex(t.shape[:-1]):
        res[p] = wrap(func(t[p].copy().view(SymArray), *args, **kw))
    if not res:
        raise ValueError("Cannot apply_along_axis when any iteration dimensions are 0")
    sh = next(iter(res.values())).shape
    out = np.empty(t.shape[:-1] + sh, dtype=object)
    for p, v in res.items():
        out[p] = v.view(_nd) if v.ndim else v[()]
    # the function's dimensions replace `axis`
    ax = axis % a.ndim
    k = len(sh)
    lead = len(t.shape) - 1
    order = list(range(ax)) + list(range(lead, lead + k)) + list(range(ax, lead))
    return out.transpose(order).view(SymArray)


def round_(a, decimals=0, **k):
    if decimals:
        raise Unsupported("round decimals")
    return array_ufunc(np.rint, "__call__", (a,), {})


def real_(x):
    return x


def ix_(*args):
    return tuple(wrap(v) for v in np.ix_(*[nat(wrap(a)) for a in args]))


def result_type(*args):
    return np.dtype(object)


def may_share_memory(a, b, *_):
    return np.may_share_memory(a, b)


def fill_diagonal(a, val, wrap=False):
    o = a.view(_nd)
    for i in range(min(o.shape)):
        o[(i,) * o.ndim] = norm(val)


def diag(v, k=0):
    o = wrap(v)
    if o.ndim == 1:
        n = len(o)
        r = zeros((n, n))
        for i in range(n):
            r.view(_nd)[i, i] = o.view(_nd)[i]
        if k:
            raise Unsupported("diag k")
        return r
    return wrap(np.diag(o.view(_nd), k))


def searchsorted(a, v, side="left", **k):
    a = wrap(a)
    if not has_sym(a) and not has_sym(v):
        return rewrap(np.searchsorted(nat(a), nat(v), side=side))

    def one(x):
        cnt = sum_((a < x) if side == "left" else (a <= x))
        if isinstance(cnt, S):
            cnt = S(cnt.e, True, (0, len(a)))
        return cnt

    if isinstance(v, (_nd, list, tuple)):
        return wrap([one(x) for x in wrap(v)])
    return one(v)


def percentile(a, q, axis=None, **k):
    a = wrap(a)
    if not has_sym(a) and not has_sym(q):
        return rewrap(np.percentile(nat(a), nat(q), axis=axis))
    raise Unsupported("percentile")


STRUCTURAL = {
    "vstack", "hstack", "dstack", "concatenate", "stack", "column_stack", "row_stack",
    "tile", "insert", "append", "reshape", "ravel", "transpose",
    "expand_dims", "squeeze", "broadcast_to", "roll", "flip", "flipud", "fliplr", "split",
    "array_split", "vsplit", "hsplit", "atleast_1d", "atleast_2d", "copy", "block", "moveaxis",
    "swapaxes", "meshgrid", "shape", "ndim", "size", "broadcast_arrays", "rot90", "tril", "triu",
}

HANDLERS = {
    "sum": sum_, "min": min_, "max": max_, "amin": min_, "amax": max_, "prod": prod_,
    "any": any_, "all": all_, "mean": mean, "average": mean, "var": var, "std": std, "median": median,
    "cov": cov, "cumsum": cumsum, "cumprod": cumprod, "diff": diff, "dot": dot, "inner": inner,
    "matmul": dot, "outer": outer, "einsum": einsum, "where": where, "nonzero": nonzero,
    "argwhere": argwhere, "flatnonzero": flatnonzero, "argsort": argsort, "sort": sort,
    "argmin": argmin, "argmax": argmax, "clip": clip, "take": take, "unique": unique,
    "argpartition": argpartition, "partition": partition,
    "isin": isin, "in1d": isin, "bincount": bincount, "repeat": repeat, "delete": delete,
    "arange": arange, "linspace": linspace, "zeros": zeros, "ones": ones, "empty": empty,
    "full": full, "zeros_like": zeros_like, "ones_like": ones_like, "empty_like": zeros_like,
    "full_like": full_like, "array": array, "asarray": asarray, "nan_to_num": nan_to_num,
    "nansum": nansum, "nanmean": nanmean, "allclose": allclose, "array_equal": array_equal,
    "norm": norm_, "det": det, "inv": inv, "pinv": inv, "solve": solve, "eigh": eigh, "eig": eig,
    "cond": cond, "cholesky": cholesky, "corrcoef": corrcoef, "polyfit": polyfit,
    "polyval": polyval, "apply_along_axis": apply_along_axis, "round": round_, "around": round_,
    "round_": round_, "real": real_, "ix_": ix_, "result_type": result_type,
    "fill_diagonal": fill_diagonal, "diag": diag, "searchsorted": searchsorted,
    "percentile": percentile, "count_nonzero": lambda a, axis=None, **k: sum_(array_ufunc(np.not_equal, "__call__", (wrap(a), np.int64(0)), {}) if not (wrap(a).size and isinstance(wrap(a).view(_nd).reshape(-1)[0], (bool, np.bool_))) else a, axis=axis),
    "asfortranarray": asarray, "ascontiguousarray": asarray, "ptp": lambda a, axis=None, **k: max_(a, axis) - min_(a, axis),
    "dtype": np.dtype,
}

ALWAYS = {  # handled here even when every argument is concrete
    "zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like",
    "array", "asarray", "apply_along_axis", "ix_", "result_type", "fill_diagonal", "diag",
    "dtype", "delete", "repeat", "einsum",
}


def _strip(x):
    if isinstance(x, SymArray):
        return x.view(_nd)
    if isinstance(x, list):
        return [_strip(v) for v in x]
    if isinstance(x, tuple):
        return tuple(_strip(v) for v in x)
    if isinstance(x, _nd) and x.dtype != object:
        return _to_obj(x)
    return x


def _concrete_arg(v):
    if isinstance(v, S):
        return int(v)
    if isinstance(v, (list, tuple)):
        return type(v)(_concrete_arg(x) for x in v)
    return v


def dispatch(name, fn, args, kwargs):
    if name in ALWAYS:
        return HANDLERS[name](*args, **kwargs)
    sym = has_sym(args) or has_sym(kwargs)
    if name in STRUCTURAL:
        if name in ("vstack", "hstack", "concatenate", "stack", "column_stack", "dstack", "row_stack"):
            seq = list(args[0])
            parts = [_to_obj(v) for v in seq]
            r = fn(parts, *args[1:], **kwargs)
            w = wrap(r)
            return _unify(w, seq)
        if name in ("reshape", "tile", "broadcast_to", "roll", "expand_dims"):
            args = (args[0],) + tuple(_concrete_arg(nat(v)) for v in args[1:])
        return rewrap(fn(*_strip(tuple(args)), **{k: _concrete_arg(v) for k, v in kwargs.items()}))
    if not sym:
        with np.errstate(all="ignore"):
            return rewrap(fn(*nat(tuple(args)), **nat(kwargs)))
    h = HANDLERS.get(name)
    if h is None:
        raise Unsupported(f"np.{name}")
    return h(*args, **kwargs)


def _unify(w, parts):
    """stacking int and float arrays makes floats"""
    o = w.view(_nd)
    if o.size == 0:
        return w
    anyf = anyi = False
    for v in o.reshape(-1):
        if isinstance(v, (float, np.floating)) or (isinstance(v, S) and v.is_real()):
            anyf = True
        elif isinstance(v, (int, np.integer)) or (isinstance(v, S) and v.is_int()):
            anyi = True
    if not anyf and not anyi:
        return w
    # an empty float part (np.zeros((0, d)), np.array([])) also promotes
    if not anyf:
        for p in parts:
            if isinstance(p, _nd) and p.size == 0 and getattr(p, "_kind", None) is None:
                pass
    if anyf and anyi:
        return astype(w, float)
    return w


class UfuncProxy:
    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        return array_ufunc(self.uf, "__call__", a, dict(k))

    def reduce(self, a, axis=0, **k):
        return array_ufunc(self.uf, "reduce", (a,), dict(k, axis=axis))

    def outer(self, a, b, **k):
        return array_ufunc(self.uf, "outer", (a, b), dict(k))

    def accumulate(self, a, axis=0, **k):
        return array_ufunc(self.uf, "accumulate", (a,), dict(k, axis=axis))

    def at(self, a, idx, *b):
        return array_ufunc(self.uf, "at", (a, idx) + b, {})


class FnProxy:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.__name__ = name

    def __call__(self, *a, **k):
        return dispatch(self.name, self.fn, a, k)


class ModuleProxy(types.ModuleType):
    def __init__(self, real, name=None, extra=None):
        super().__init__(name or real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_cache"] = dict(extra or {})
        self.__dict__["__path__"] = getattr(real, "__path__", [])
        self.__dict__["__spec__"] = getattr(real, "__spec__", None)
        self.__dict__["__file__"] = getattr(real, "__file__", None)

    def __getattr__(self, name):
        c = self.__dict__["_cache"]
        if name in c:
            return c[name]
        real = self.__dict__["_real"]
        v = getattr(real, name)
        if isinstance(v, np.ufunc):
            r = UfuncProxy(v)
        elif isinstance(v, type):
            r = v
        elif callable(v):
            r = FnProxy(name, v)
        else:
            r = v
        c[name] = r
        return r
