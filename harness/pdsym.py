"""lets pandas aggregate columns of symbolic values: the compiled reductions of pandas need floats, these do the same on objects"""
import contextlib

import numpy as np
from pandas.core import nanops
from pandas.core.groupby import ops

from symx import core
from symx.core import S


def symbolic(x):
    return isinstance(x, np.ndarray) and x.dtype == object and any(isinstance(v, S) for v in x.ravel())


def missing(v):
    return v is None or (isinstance(v, (float, np.floating)) and v != v)


def mean(v):
    return sum(v[1:], v[0]) / len(v) if v else float("nan")


def var(v, ddof):
    if len(v) - ddof <= 0:
        return float("nan")
    m = mean(v)
    s = [(x - m) * (x - m) for x in v]
    return sum(s[1:], s[0]) / (len(v) - ddof)


def least(v, sign=1):
    b = v[0]
    for x in v[1:]:
        if sign * x < sign * b:
            b = x
    return b


def root(v):
    return v.sqrt() if isinstance(v, S) else np.sqrt(v)


def reduce(how, v, ddof=1):
    """v: list of the values present"""
    if how == "count":
        return len(v)
    if not v:
        return float("nan") if how != "sum" else 0
    if how == "mean":
        return mean(v)
    if how == "sum":
        return sum(v[1:], v[0])
    if how == "var":
        return var(v, ddof)
    if how == "std":
        r = var(v, ddof)
        return root(r)
    if how in ("min", "max"):
        return least(v, 1 if how == "min" else -1)
    if how in ("first", "last"):
        return v[0 if how == "first" else -1]
    if how == "median":
        w = [v[0]]
        for x in v[1:]:
            i = 0
            while i < len(w) and w[i] < x:
                i += 1
            w.insert(i, x)
        n = len(w)
        return w[n // 2] if n % 2 else (w[n // 2 - 1] + w[n // 2]) / 2
    raise core.Unsupported(f"pandas aggregation {how} of symbolic values")


@contextlib.contextmanager
def patched():
    old_num, old_op = nanops._ensure_numeric, ops.WrappedCythonOp.cython_operation

    def ensure(x):
        if isinstance(x, S) or symbolic(x):
            return x
        return old_num(x)

    def operation(self, *, values, axis, min_count=-1, comp_ids, ngroups, **kw):
        if not symbolic(values):
            return old_op(self, values=values, axis=axis, min_count=min_count, comp_ids=comp_ids, ngroups=ngroups, **kw)
        if self.kind != "aggregate":
            raise core.Unsupported(f"pandas operation {self.how} of symbolic values")
        rows = values if values.ndim == 2 else values[None, :]
        if axis == 0 and values.ndim == 2:
            rows = values.T
        out = np.empty((len(rows), ngroups), dtype=object)
        for i, r in enumerate(rows):
            for g in range(ngroups):
                out[i, g] = reduce(self.how, [v for v, k in zip(r, comp_ids) if k == g and not missing(v)], kw.get("ddof", 1))
        if axis == 0 and values.ndim == 2:
            return out.T
        return out if values.ndim == 2 else out[0]

    nanops._ensure_numeric, ops.WrappedCythonOp.cython_operation = ensure, operation
    try:
        yield
    finally:
        nanops._ensure_numeric, ops.WrappedCythonOp.cython_operation = old_num, old_op
