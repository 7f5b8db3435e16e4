"""
Path-wise symbolic execution by re-execution.

The code under test runs as ordinary Python; inputs are `S` values wrapping z3
terms.  When the code branches on a symbolic condition the engine asks z3 which
sides are feasible under the path condition, follows one and queues the other.
A run is a complete exploration when the queue empties before the path budget.
"""
import random
import sys
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402
import numpy as np  # noqa: E402

z3.set_param("model.completion", True)


class Unsupported(Exception):
    """the code did something the encoding has no model for"""


class PathAbort(BaseException):
    """stop the current path (infeasible / assumption violated / bound hit)"""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class BoundHit(PathAbort):
    """path cut by a stated bound"""


CTX = None


def ctx():
    if CTX is None:
        raise RuntimeError("no symbolic context")
    return CTX


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.bound_hits = 0
        self.unsupported = {}
        self.unknown = 0
        self.infeasible = 0
        self.asserts = 0
        self.complete = True
        self.exceptions = {}
        self.notes = []

    def merge(self, o):
        self.queries += o.queries
        self.solver_s += o.solver_s
        self.paths += o.paths
        self.bound_hits += o.bound_hits
        self.unknown += o.unknown
        self.infeasible += o.infeasible
        self.asserts += o.asserts
        self.complete = self.complete and o.complete
        for k, v in o.unsupported.items():
            self.unsupported[k] = self.unsupported.get(k, 0) + v
        for k, v in o.exceptions.items():
            self.exceptions[k] = self.exceptions.get(k, 0) + v
        self.notes.extend(o.notes)

    def as_dict(self):
        return {
            "paths": self.paths,
            "queries": self.queries,
            "solver_s": round(self.solver_s, 2),
            "asserts": self.asserts,
            "bound_hits": self.bound_hits,
            "unknown": self.unknown,
            "infeasible": self.infeasible,
            "complete": self.complete,
            "unsupported": self.unsupported,
            "exceptions": self.exceptions,
        }


class Ctx:
    """one path"""

    def __init__(self, prefix, stats, *, timeout_ms=4000, max_forks=400):
        self.prefix = prefix
        self.pos = 0
        self.trace = []  # decisions taken: (value, forced)
        self.pending = []
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.counter = {}
        self.model = None
        self.max_forks = max_forks
        self.nforks = 0
        self.coin = None
        self.draws = []
        self.inputs = {}
        self.memo = {}
        self.float_ok = 0
        self.pc = []
        self.soft = []
        self.tags = {}
        self.known = {}

    # -- naming -----------------------------------------------------------
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return f"{base}!{n}"

    # -- solving ----------------------------------------------------------
    def add(self, e):
        e = z3.simplify(e) if not isinstance(e, bool) else z3.BoolVal(e)
        if z3.is_true(e):
            return
        self.pc.append(e)
        self.solver.add(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def add_def(self, e):
        """a definitional (non-linear) fact: kept out of feasibility queries,
        used when an assertion is decided (over-approximates the path set)"""
        e = z3.simplify(e)
        if not z3.is_true(e):
            self.soft.append(e)

    def check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            m = self.solver.model()
            return "sat", m
        if r == z3.unsat:
            return "unsat", None
        self.stats.unknown += 1
        return "unknown", None

    def entails(self, e):
        """e follows from the path condition and the definitional facts"""
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*self.pc, *self.soft, z3.Not(e))
        t = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r == z3.unsat

    def assume(self, e):
        """constrain the path; abort if impossible"""
        if isinstance(e, S):
            e = e.e
        if isinstance(e, (bool, np.bool_)):
            if not e:
                raise PathAbort("assume false")
            return
        self.add(e)

    def feasible(self):
        r, m = self.check()
        if r == "sat":
            self.model = m
        return r != "unsat"

    # -- branching --------------------------------------------------------
    def fork(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            return bool(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        known = self.known.get(cond.get_id())
        if known is not None:
            return known[0]
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            assert isinstance(val, bool), "replay diverged"
            self.pos += 1
            self.trace.append(val)
            self.add(cond if val else z3.Not(cond))
            self.know(cond, val)
            return val
        # which sides are feasible?
        side = None
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if z3.is_true(v):
                side = True
            elif z3.is_false(v):
                side = False
        res = {}
        models = {}
        for val in (True, False):
            if side is val:
                res[val] = "sat"
                models[val] = self.model
                continue
            r, m = self.check(cond if val else z3.Not(cond))
            res[val] = r
            models[val] = m
            if val is True and r == "unsat" and side is None:
                # the path condition itself may be infeasible
                pass
        if res[True] == "unsat" and res[False] == "unsat":
            raise PathAbort("infeasible")
        if res[True] == "unsat":
            val = False
        elif res[False] == "unsat":
            val = True
        else:
            val = True if self.coin is None else self.coin()
            self.pending.append(tuple(self.trace) + (not val,))
            self.nforks += 1
            if self.nforks > self.max_forks:
                raise BoundHit("max forks on one path")
        self.pos += 1
        self.trace.append(val)
        self.prefix = tuple(self.trace)
        self.model = models[val]
        c = cond if val else z3.Not(cond)
        self.pc.append(c)
        self.solver.add(c)
        self.know(cond, val)
        return val

    def know(self, cond, val):
        self.known[cond.get_id()] = (val, cond)
        n = z3.simplify(z3.Not(cond))
        self.known[n.get_id()] = (not val, n)

    def concretize(self, e, limit=64):
        """pick a concrete value for an Int/Real term, forking over its values"""
        e = z3.simplify(e)
        for _ in range(limit):
            if z3.is_int_value(e):
                return e.as_long()
            if z3.is_rational_value(e):
                return Fraction(e.numerator_as_long(), e.denominator_as_long())
            if self.pos < len(self.prefix):
                # replay: the candidate value was recorded next to the decision
                cand = self.memo_next_value()
            else:
                if self.model is None:
                    r, m = self.check()
                    if r == "unsat":
                        raise PathAbort("infeasible")
                    if r == "unknown":
                        raise Unsupported("concretize: solver unknown")
                    self.model = m
                v = self.model.eval(e, model_completion=True)
                if not (z3.is_int_value(v) or z3.is_rational_value(v)):
                    raise Unsupported("concretize: irrational")
                cand = v
                cand = (
                    ("i", v.as_long())
                    if z3.is_int_value(v)
                    else ("q", v.numerator_as_long(), v.denominator_as_long())
                )
            self.push_value(cand)
            zv = (
                z3.IntVal(cand[1])
                if cand[0] == "i"
                else z3.RealVal(f"{cand[1]}/{cand[2]}")
            )
            if self.fork(e == zv):
                if cand[0] == "i":
                    return cand[1]
                return Fraction(cand[1], cand[2])
        raise BoundHit("concretize: more values than the bound")

    # candidate values are stored inside the decision trace as tuples
    def memo_next_value(self):
        v = self.prefix[self.pos]
        assert isinstance(v, tuple), v
        return v

    def push_value(self, cand):
        if self.pos < len(self.prefix):
            self.pos += 1
            self.trace.append(cand)
        else:
            self.pos += 1
            self.trace.append(cand)
            self.prefix = tuple(self.trace)

    # -- assertions -------------------------------------------------------
    def prove(self, goal, timeout_ms=None):
        """returns ('holds', None) | ('fails', model) | ('unknown', None)"""
        self.stats.asserts += 1
        if isinstance(goal, S):
            goal = goal.e
        if isinstance(goal, (bool, np.bool_)):
            if goal:
                return "holds", None
            r, m = self.check()
            if r == "sat" and self.soft and self.entails(z3.BoolVal(False)):
                return "holds", None  # the definitional facts rule the path out
            if r == "sat":
                return "fails", m
            return ("holds", None) if r == "unsat" else ("unknown", None)
        g = z3.simplify(goal)
        if z3.is_true(g):
            # still a solver verdict: record the (trivial) query
            self.stats.queries += 1
            return "holds", None
        if timeout_ms:
            self.solver.set("timeout", timeout_ms)
        r, m = self.check(z3.Not(g))
        if r != "unsat" and (self.soft or r == "unknown"):
            # refine with the definitional facts, one shot
            s = z3.Solver()
            s.set("timeout", timeout_ms or 2 * self.timeout_ms)
            for c in self.pc:
                s.add(c)
            for c in self.soft:
                s.add(c)
            s.add(z3.Not(g))
            t = time.time()
            rr = s.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            if rr == z3.unsat:
                r, m = "unsat", None
            elif rr == z3.sat:
                r, m = "sat", s.model()
            elif r == "sat":
                # the relaxed model is kept as a candidate for replay
                self.stats.unknown += 1
                r = "sat"
        if timeout_ms:
            self.solver.set("timeout", self.timeout_ms)
        if r == "unsat":
            return "holds", None
        if r == "sat":
            return "fails", m
        return "unknown", None


class Explorer:
    """drives fn(ctx) over all feasible paths"""

    def __init__(self, *, max_paths=500, timeout_ms=4000, max_forks=400, wall_s=None, order=1):
        self.order = order  # seed of the exploration order (None: depth first)
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.max_forks = max_forks
        self.wall_s = wall_s
        self.stats = Stats()

    def run(self, fn, stop=None):
        """yields fn's return value per completed path"""
        global CTX
        work = [()]
        rnd = None if self.order is None else random.Random(self.order)
        results = []
        t0 = time.time()
        done = 0
        while work:
            if done >= self.max_paths or (
                self.wall_s is not None and time.time() - t0 > self.wall_s
            ):
                self.stats.complete = False
                self.stats.notes.append(
                    f"path budget hit with {len(work)} prefixes left"
                )
                break
            if rnd is not None and len(work) > 1 and done % 3:
                k = rnd.randrange(len(work))
                work[k], work[-1] = work[-1], work[k]
            prefix = work.pop()
            c = Ctx(
                prefix, self.stats, timeout_ms=self.timeout_ms, max_forks=self.max_forks
            )
            if rnd is not None and done % 4:
                # preferred side of fresh branches: differs from path to path
                bias = (0.5, 0.15, 0.85)[done % 4 - 1]
                c.coin = lambda b=bias: rnd.random() < b
            CTX = c
            try:
                res = fn(c)
                self.stats.paths += 1
                results.append(res)
            except BoundHit as b:
                self.stats.bound_hits += 1
                self.stats.complete = False
                if b.why not in self.stats.notes:
                    self.stats.notes.append(b.why)
                res = None
            except PathAbort:
                self.stats.infeasible += 1
                res = None
            except Unsupported as u:
                key = str(u)
                self.stats.unsupported[key] = self.stats.unsupported.get(key, 0) + 1
                res = None
            finally:
                CTX = None
            done += 1
            work.extend(c.pending)
            if stop is not None and res is not None and stop(res):
                break
        return results


# ---------------------------------------------------------------------------
# symbolic scalars
# ---------------------------------------------------------------------------


def is_sym(x):
    return isinstance(x, S)


def zval(x):
    """a Python/numpy number (or S) as a z3 term"""
    if isinstance(x, S):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if f != f or f in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant mixed with a symbolic term")
        fr = Fraction(f)
        return z3.RealVal(f"{fr.numerator}/{fr.denominator}")
    raise Unsupported(f"zval {type(x)}")


def as_arith(e):
    if z3.is_bool(e):
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def both(a, b):
    """coerce to a common arithmetic sort"""
    a, b = as_arith(a), as_arith(b)
    if z3.is_int(a) and z3.is_real(b):
        a = z3.ToReal(a)
    elif z3.is_real(a) and z3.is_int(b):
        b = z3.ToReal(b)
    return a, b


def nonfinite(x):
    return isinstance(x, (float, np.floating)) and (
        x != x or x in (float("inf"), float("-inf"))
    )


def conc(e):
    """a constant z3 term back to a numpy scalar, else None"""
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_int_value(e):
        return np.int64(e.as_long())
    return None


def mk(e, nn=None):
    """wrap a z3 term"""
    if z3.is_app(e) and e.num_args() == 0:
        c = conc(e)
        if c is not None:
            return c
    return S(e, nn)


NUM = (int, float, np.integer, np.floating, bool, np.bool_, Fraction)


class S:
    """a symbolic scalar; nn: known to be non-negative (syntactically)"""

    __array_priority__ = 1000

    def __init__(self, e, nn=None, rng=None):
        self.e = e
        self.nn = bool(nn)
        self.rng = rng  # known integer range (lo, hi)

    # numpy scalars look for these
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import snp

        return snp.scalar_ufunc(ufunc, method, inputs, kwargs)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return np.dtype(object)

    def is_bool(self):
        return z3.is_bool(self.e)

    def is_int(self):
        return z3.is_int(self.e)

    def is_real(self):
        return z3.is_real(self.e)

    # -- arithmetic
    def _bin(self, o, op, refl=False):
        if isinstance(o, S):
            pass
        elif isinstance(o, NUM):
            if nonfinite(o):
                return self._nonfinite(o, op, refl)
            # identities
            if op == "+" and o == 0 and not self.is_bool():
                return self
            if op == "-" and o == 0 and not refl and not self.is_bool():
                return self
            if op == "*":
                if o == 0:
                    return np.float64(0.0) if isinstance(o, (float, np.floating)) or self.is_real() else np.int64(0)
                if o == 1 and not self.is_bool():
                    return self if not self.is_int() or not isinstance(o, (float, np.floating)) else S(z3.ToReal(self.e), self.nn)
        else:
            return NotImplemented
        onn = o.nn if isinstance(o, S) else o >= 0
        onn = onn or (isinstance(o, S) and o.is_bool())
        snn = self.nn or self.is_bool()
        a, b = both(self.e, zval(o))
        if isinstance(o, (float, np.floating)) and z3.is_int(a):
            a, b = z3.ToReal(a), z3.ToReal(b) if z3.is_int(b) else b
        if op in "+*":
            r = a + b if op == "+" else a * b
            if op == "*" and not z3.is_int(r):
                r = rounded(exact_product(a, b, r))
            nn = (snn and onn) or (op == "*" and isinstance(o, S) and a.eq(b))
            return S(r, nn)
        if op == "-":
            return S(b - a if refl else a - b)
        raise AssertionError(op)

    def _nonfinite(self, o, op, refl):
        if o != o:
            return np.float64("nan")
        if op == "+":
            return np.float64(o)
        if op == "-":
            return np.float64(o if refl else -o)
        if op == "*":
            e = as_arith(self.e)
            if ctx().fork(e == 0):
                return np.float64("nan")
            if ctx().fork(e > 0):
                return np.float64(o)
            return np.float64(-o)
        raise Unsupported("nonfinite " + op)

    def __add__(self, o):
        return self._bin(o, "+")

    def __radd__(self, o):
        return self._bin(o, "+", True)

    def __sub__(self, o):
        return self._bin(o, "-")

    def __rsub__(self, o):
        return self._bin(o, "-", True)

    def __mul__(self, o):
        return self._bin(o, "*")

    def __rmul__(self, o):
        return self._bin(o, "*", True)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        if self.is_int() and isinstance(o, (int, np.integer)) and o > 0:
            return S(self.e % int(o), True)
        raise Unsupported("mod")

    def __neg__(self):
        return S(-as_arith(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.nn:
            return self
        a = as_arith(self.e)
        return S(z3.If(a >= 0, a, -a), True)

    def __pow__(self, o):
        if isinstance(o, NUM):
            if o == 2:
                a = as_arith(self.e)
                return S(a * a, True)
            if o == 1:
                return self
            if o == 0:
                return np.int64(1)
            if o == 0.5:
                return sqrt(self)
            if o == -1:
                return div(np.float64(1.0), self)
            if float(o) == int(o) and 0 < o <= 4:
                r = self
                for _ in range(int(o) - 1):
                    r = r * self
                return r
        from . import snp

        return snp.havoc_fn("pow", [self, o])

    def __rpow__(self, o):
        from . import snp

        return snp.havoc_fn("rpow", [o, self])

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, S):
            pass
        elif isinstance(o, NUM):
            if nonfinite(o):
                if o != o:
                    return op == "!="
                pos = o > 0
                return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]
        else:
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        if self.is_bool() and (isinstance(o, (bool, np.bool_)) or (isinstance(o, S) and o.is_bool())) and op in ("==", "!="):
            a, b = self.e, zval(o)
        else:
            if self.nn and not isinstance(o, S):
                if o < 0 or (o == 0 and op in ("<", ">=")):
                    return {"<": False, "<=": False, ">": True, ">=": True, "==": False, "!=": True}[op]
            a, b = both(self.e, zval(o))
        r = {
            "<": lambda: a < b,
            "<=": lambda: a <= b,
            ">": lambda: a > b,
            ">=": lambda: a >= b,
            "==": lambda: a == b,
            "!=": lambda: a != b,
        }[op]()
        r = z3.simplify(r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return S(r)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    # -- booleans
    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return mk(z3.simplify(z3.Xor(tobool(self), tobool(o))))

    # -- conversions
    def __bool__(self):
        return ctx().fork(tobool(self))

    def __index__(self):
        if self.is_real():
            raise TypeError("real used as an index")
        return int(ctx().concretize(as_arith(self.e)))

    def __int__(self):
        e = as_arith(self.e)
        if z3.is_real(e):
            e = trunc_e(e)
        return int(ctx().concretize(e))

    def __float__(self):
        c = ctx()
        if c.float_ok:
            m = c.model
            if m is None:
                _, m = c.check()
            v = m.eval(as_arith(self.e), model_completion=True)
            return num_of(v)
        raise Unsupported("float() of a symbolic value")

    def __hash__(self):
        if self.is_bool():
            return hash(bool(self))
        if self.is_int():
            return hash(int(self))
        return hash(ctx().concretize(self.e))

    def __round__(self, n=0):
        return rint(self)

    def __repr__(self):
        return f"S({str(self.e)[:60]})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # numpy-scalar-like methods
    def copy(self):
        return self

    def item(self):
        return self

    def astype(self, t, **_):
        return astype(self, t)

    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def ravel(self):
        from . import snp

        return snp.wrap([self])

    def reshape(self, *a):
        from . import snp

        return snp.wrap([self]).reshape(*a)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SF(S, float):
    """a symbolic real that is also an instance of float (scalar parameters)"""

    def __new__(cls, e, nn=None, rng=None):
        return float.__new__(cls, float("nan"))

    __hash__ = S.__hash__

    def __reduce__(self):
        raise Unsupported("pickling a symbolic scalar")


def num_of(v):
    """numeric value of a z3 constant"""
    if z3.is_int_value(v):
        return float(v.as_long())
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return a.numerator_as_long() / a.denominator_as_long()
    if z3.is_true(v):
        return 1.0
    if z3.is_false(v):
        return 0.0
    raise Unsupported(f"num_of {v}")


def tobool(x):
    if isinstance(x, S):
        e = x.e
        return e if z3.is_bool(e) else e != 0
    return z3.BoolVal(bool(x))


def b_not(a):
    if not isinstance(a, S):
        return not bool(a)
    return mk(z3.simplify(z3.Not(tobool(a))))


def b_and(a, b):
    if not isinstance(a, S):
        return b if bool(a) else False
    if not isinstance(b, S):
        return a if bool(b) else False
    return mk(z3.simplify(z3.And(tobool(a), tobool(b))))


def b_or(a, b):
    if not isinstance(a, S):
        return True if bool(a) else b
    if not isinstance(b, S):
        return True if bool(b) else a
    return mk(z3.simplify(z3.Or(tobool(a), tobool(b))))


def ite(c, a, b):
    """symbolic select"""
    if not isinstance(c, S):
        return a if bool(c) else b
    if a is b:
        return a
    if nonfinite(a) or nonfinite(b):
        return a if bool(c) else b
    if not isinstance(a, (S,) + NUM) or not isinstance(b, (S,) + NUM):
        return a if bool(c) else b
    za, zb = zval(a), zval(b)
    if z3.is_bool(za) != z3.is_bool(zb) or not z3.is_bool(za):
        if not (z3.is_bool(za) and z3.is_bool(zb)):
            za, zb = both(za, zb)
    if za.eq(zb):
        return a
    nn = (a.nn if isinstance(a, S) else a >= 0) and (b.nn if isinstance(b, S) else b >= 0)
    return mk(z3.If(tobool(c), za, zb), nn)


def to_real(e):
    e = as_arith(e)
    return z3.ToReal(e) if z3.is_int(e) else e


def linear(e):
    """no product of two terms that are not constants"""
    todo = [e]
    n = 0
    while todo:
        x = todo.pop()
        n += 1
        if n > 60:
            return False
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_MUL and sum(1 for ch in x.children() if not z3.is_rational_value(ch) and not z3.is_int_value(ch)) > 1:
            return False
        if k in (z3.Z3_OP_POWER, z3.Z3_OP_DIV, z3.Z3_OP_ITE):
            return False
        todo.extend(x.children())
    return True


def div(a, b):
    """numpy float division: x/0 is inf or nan, not an error"""
    if nonfinite(a) or nonfinite(b):
        if nonfinite(b):
            return np.float64("nan") if (nonfinite(a) or b != b) else np.float64(0.0)
        if a != a:
            return np.float64("nan")
        if isinstance(b, S):
            be = as_arith(b.e)
            if b.nn or ctx().fork(be >= 0):
                return np.float64(a)
            return np.float64(-a)
        return np.float64(a) / np.float64(b)
    if not isinstance(b, S):
        if isinstance(b, (bool, np.bool_)):
            b = int(b)
        if b == 0:
            if not isinstance(a, S):
                with np.errstate(all="ignore"):
                    return np.float64(a) / np.float64(b)
            ae = as_arith(a.e)
            if ctx().fork(ae == 0):
                return np.float64("nan")
            return np.float64("inf") if ctx().fork(ae > 0) else np.float64("-inf")
        if b == 1:
            return S(to_real(a.e), a.nn)
        inv = Fraction(1) / Fraction(float(b) if isinstance(b, (float, np.floating)) else int(b))
        return S(to_real(a.e) * zval(inv), a.nn and b > 0)
    be = to_real(b.e)
    if ctx().fork(be == 0):
        if isinstance(a, S):
            ae = as_arith(a.e)
            if ctx().fork(ae == 0):
                return np.float64("nan")
            return np.float64("inf") if ctx().fork(ae > 0) else np.float64("-inf")
        with np.errstate(all="ignore"):
            return np.float64(a) / np.float64(0.0)
    if not isinstance(a, S) and a == 0:
        return np.float64(0.0)
    ae = to_real(zval(a))
    ann = a.nn if isinstance(a, S) else a >= 0
    ka, kb = z3.simplify(ae), z3.simplify(be)
    key = ("div", ka.get_id(), kb.get_id())
    c = ctx()
    hit = c.memo.get(key)
    if hit is not None:
        return hit[0]
    # q with q*b = a : a fresh quotient keeps later terms polynomial
    q = z3.Real(c.fresh_name("q"))
    c.add_def(q * be == ae)
    (c.add if linear(ae) else c.add_def)((q == 0) == (ae == 0))
    if ann and b.nn:
        c.add(q >= 0)
    r = S(rounded(q), ann and b.nn)
    if r.e is not q:
        c.memo[("quotient", r.e.get_id())] = (ae, be, -U, U, r)
    c.memo[key] = (r, ka, kb)
    shares_of_sum(c, ae, be, q)
    return r


U = Fraction(1, 2 ** 53)


def rounded(e):
    """with the tag 'rounding', a float operation returns a value within half an ulp of the exact one (and on its side of every integer)"""
    c = ctx()
    if not c.tags.get("rounding"):
        return e
    y = z3.Real(c.fresh_name("fl"))
    c.add_def(z3.And(y - e <= zval(U) * z3.If(e >= 0, e, -e), e - y <= zval(U) * z3.If(e >= 0, e, -e)))
    fl = z3.ToReal(z3.ToInt(e))
    c.add_def(z3.And(y >= fl, y <= fl + 1, z3.Implies(e == fl, y == e)))
    c.memo[("ideal", y.get_id())] = (e, y)
    return y


def exact_product(a, b, r):
    """a rounded quotient x/y times y: x up to the relative error of the quotient"""
    c = ctx()
    if not c.tags.get("rounding"):
        return r
    for f, o in ((a, b), (b, a)):
        q = c.memo.get(("quotient", f.get_id()))
        if q is None or not z3.is_rational_value(z3.simplify(to_real(o) - q[1])) or z3.simplify(to_real(o) - q[1]).as_fraction() != 0:
            continue
        x = q[0]
        ab = z3.If(x >= 0, x, -x)
        t = z3.Real(c.fresh_name("err"))
        c.add_def(z3.And(t >= zval(q[2]) * ab, t <= zval(q[3]) * ab))
        return x + t
    return r


def nextafter(x, to):
    """the float next to x > 0 upwards; x may be the rounded value of an exact one"""
    if not isinstance(x, S):
        return np.nextafter(x, to)
    if isinstance(to, S) or not to > 0 or np.isfinite(to):
        raise Unsupported("nextafter")
    c = ctx()
    e = to_real(x.e)
    if not c.entails(e > 0) and not c.fork(e > 0):
        raise Unsupported("nextafter of a number not positive")
    q = c.memo.get(("ideal", e.get_id()), (e,))[0]
    r = z3.Real(c.fresh_name("na"))
    c.add_def(z3.And(r > e, r >= q, r <= q * zval(1 + 4 * U)))
    k = c.memo.get(("quotient", e.get_id()))
    if k is not None:
        c.memo[("quotient", r.get_id())] = (k[0], k[1], 0, 4 * U, r)
    return S(r, True)


def addends(e, out, limit=48):
    if z3.is_add(e):
        for ch in e.children():
            if not addends(ch, out, limit):
                return False
        return True
    out.append(e)
    return len(out) <= limit


def shares_of_sum(c, ae, be, q):
    """the quotients of all addends of a denominator by it sum to one: a linear fact"""
    key = ("shares", be.get_id())
    g = c.memo.get(key)
    if g is None:
        parts = []
        if not z3.is_add(be) or not addends(be, parts):
            parts = []
        g = c.memo[key] = (parts, {}, be)
    parts, have, _ = g
    if not parts:
        return
    have[ae.get_id()] = (q, ae)
    if all(t.get_id() in have for t in parts):
        c.add(z3.Sum([have[t.get_id()][0] for t in parts]) == 1)
        parts.clear()


def floordiv(a, b):
    if isinstance(b, (int, np.integer)) and b > 0 and isinstance(a, S) and a.is_int():
        return S(a.e / int(b), a.nn)
    return astype(floor(div(a, b)), float)


def trunc_e(e):
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def floor(a):
    if not isinstance(a, S):
        return np.floor(a)
    if a.is_int():
        return a
    return S(z3.ToReal(z3.ToInt(to_real(a.e))), a.nn)


def ceil(a):
    if not isinstance(a, S):
        return np.ceil(a)
    if a.is_int():
        return a
    return S(z3.ToReal(-z3.ToInt(-to_real(a.e))), a.nn)


def rint(a):
    if not isinstance(a, S):
        return np.rint(a)
    if a.is_int():
        return a
    e = to_real(a.e)
    f = z3.ToInt(e)
    fr = e - z3.ToReal(f)
    half = z3.RealVal("1/2")
    r = z3.If(fr < half, f, z3.If(fr > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return S(z3.ToReal(r), a.nn)


def sqrt(a):
    if not isinstance(a, S):
        with np.errstate(all="ignore"):
            return np.sqrt(np.float64(a))
    c = ctx()
    e = to_real(a.e)
    if not a.nn and not c.fork(e >= 0):
        return np.float64("nan")
    # sqrt(x*x) = |x|
    se = z3.simplify(e)
    key = ("sqrt", se.get_id())
    hit = c.memo.get(key)
    if hit is not None:
        return hit[0]
    if z3.is_mul(e) and e.num_args() == 2 and e.arg(0).eq(e.arg(1)):
        x = e.arg(0)
        r = S(z3.If(x >= 0, x, -x), True)
    else:
        s = z3.Real(c.fresh_name("sqrt"))
        c.add(s >= 0)
        (c.add if linear(se) else c.add_def)((s == 0) == (e == 0))
        c.add_def(s * s == e)
        r = S(s, True)
    c.memo[key] = (r, se)
    return r


def astype(a, t):
    if t in (int, np.int64, np.int32, np.intp, "int", "int64") or t is np.integer:
        if isinstance(a, S):
            e = as_arith(a.e)
            return mk(trunc_e(e), a.nn) if z3.is_real(e) else mk(e, a.nn)
        return np.int64(a)
    if t in (np.float32, np.float16, "float32", "float16"):
        if not isinstance(a, S):
            return np.float64(np.dtype(t).type(a))
        return narrow(a, 2.0**-24 if np.dtype(t).itemsize == 4 else 2.0**-11)
    if t in (float, np.float64, "float", "float64"):
        if isinstance(a, S):
            return S(to_real(a.e), a.nn or a.is_bool())
        return np.float64(a)
    if t in (bool, np.bool_, "bool"):
        if isinstance(a, S):
            return mk(z3.simplify(tobool(a)))
        return bool(a)
    if t in (object, np.object_, "object", "O"):
        return a
    if t in (str, "str"):
        return str(a)
    raise Unsupported(f"astype {t}")


def narrow(a, eps):
    """rounding to a narrower float: the same value for the same argument, within eps"""
    c = ctx()
    e = z3.simplify(to_real(a.e))
    key = ("narrow", eps, e.get_id())
    hit = c.memo.get(key)
    if hit is None:
        r = z3.Real(c.fresh_name("narrow"))
        m = z3.If(e >= 0, e, -e) * zval(eps)
        c.add(r - e <= m)
        c.add(e - r <= m)
        hit = c.memo[key] = (S(r, a.nn), e)
    return hit[0]


def real(name):
    return S(z3.Real(name))


def integer(name):
    return S(z3.Int(name))


def boolean(name):
    return S(z3.Bool(name))
