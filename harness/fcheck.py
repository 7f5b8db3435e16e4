"""driver of the checks of single components: a list of symbolic units"""
import signal

import numpy as np

from symx import core, load
from symx.core import S, z3
from symx.snp import SymArray, wrap

from . import common
from .common import Path

ASSUMPTIONS = ["values are exact reals; rounding is covered only by the replays", "sizes are the bounds named with each unit"]


class _Endless(BaseException):
    pass


def _endless(*_):
    raise _Endless()


def ending(replay, cpu_s=20.0):
    """the replay, with a run that does not end as a violation of its own"""

    def go(sv, case):
        old = signal.signal(signal.SIGVTALRM, _endless)
        signal.setitimer(signal.ITIMER_VIRTUAL, cpu_s)
        try:
            return replay(sv, case)
        except (_Endless, RecursionError) as e:
            return [("endless", f"{'unbounded recursion' if isinstance(e, RecursionError) else f'no result after {cpu_s:.0f} s of computation'} for {str(case)[:600]}")]
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)

    return go


def unit(name, body, replay, *, bounds="", quick=True, **kw):
    """body(env, c) runs the code symbolically, sets c.tags['cases'], returns the goals"""
    lim = dict(max_paths=60 if quick else 600, wall_s=10 if quick else 90, timeout_ms=2500 if quick else 10000)
    lim.update(kw)
    run_ = ending(replay)

    def go(env):
        return common.explore(name, lambda c: Path(body(env, c)), lambda case: run_(env.real, case), bounds=bounds, **lim)

    return (name, go)


def run(ID, tier, t0, units_of, *, assumptions=ASSUMPTIONS, setup=None, level="model_checking", deadline=None):
    real, sym = load.load_both()
    env = common.Env(real, sym)
    if setup:
        setup(env)
    quick = tier == "quick"
    res = common.run_units(units_of(env, quick), env, unit_timeout=90 if quick else 400, deadline_s=deadline or (240 if quick else 2700))
    return common.finish(ID, tier, res, t0=t0, level=level, assumptions=assumptions)


# -- symbolic inputs ---------------------------------------------------------


def real(c, name, lo=None, hi=None, strict=False):
    v = z3.Real(name)
    if lo is not None:
        c.add(v > core.zval(lo) if strict else v >= core.zval(lo))
    if hi is not None:
        c.add(v < core.zval(hi) if strict else v <= core.zval(hi))
    return S(v, lo is not None and lo >= 0)


def integer(c, name, lo, hi):
    v = z3.Int(name)
    c.add(z3.And(v >= lo, v <= hi))
    return S(v, lo >= 0, (lo, hi))


def pick(c, name, lo, hi):
    """an integer whose value is forked on: concrete on each path"""
    v = integer(c, name, lo, hi)
    return int(c.concretize(v.e))


def reals(c, name, shape, lo=None, hi=None, strict=False):
    sh = (shape,) if isinstance(shape, int) else tuple(shape)
    out = np.empty(sh, dtype=object)
    for p in np.ndindex(*sh):
        out[p] = real(c, name + "_" + "_".join(map(str, p)), lo, hi, strict)
    return out.view(SymArray)


def le(a, b, tol=0.0):
    """a <= b + tol as a goal"""
    if not isinstance(a, S) and not isinstance(b, S):
        return bool(a <= b + tol)
    if core.nonfinite(a) or core.nonfinite(b):
        return False
    r = a <= b + tol
    return r.e if isinstance(r, S) else bool(r)


def near(a, b, tol):
    return conj([le(a, b, tol), le(b, a, tol)])


def conj(xs):
    out = []
    for x in xs:
        if isinstance(x, S):
            x = x.e
        if isinstance(x, (bool, np.bool_)):
            if not x:
                return False
            continue
        out.append(x)
    return z3.And(out) if out else True


def disj(xs):
    out = []
    for x in xs:
        if isinstance(x, S):
            x = x.e
        if isinstance(x, (bool, np.bool_)):
            if x:
                return True
            continue
        out.append(x)
    return z3.Or(out) if out else False


def raised(f, *a, **k):
    """(result, exception of the code under test)"""
    try:
        return f(*a, **k), None
    except (core.Unsupported, core.BoundHit, core.PathAbort):
        raise
    except Exception as e:  # noqa: BLE001
        return None, e


def blame(e):
    """the exception is the code's under test, not a gap of the harness"""
    import traceback

    fr = traceback.extract_tb(e.__traceback__)
    if fr and fr[-1].filename.startswith(common.VERIF) and isinstance(e, (AttributeError, TypeError, NameError, AssertionError)):
        raise core.Unsupported(f"harness: {e!r}")
    return f"{type(e).__name__}: {str(e)[:100]}"
