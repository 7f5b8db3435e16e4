"""
Shared machinery of the checks: forks one process per unit of work, explores
symbolically, replays what the solver returns on the unpatched code, confirms in
a fresh process, writes the evidence.
"""
import json
import os
import pickle
import re
import select
import signal
import subprocess
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = sys.executable

import numpy as np  # noqa: E402

from symx import core, load, snp, stubs  # noqa: E402
from symx.core import BoundHit, PathAbort, S, Unsupported, z3  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


class Env:
    """what a unit gets: the two instances of the package"""

    def __init__(self, real=None, sym=None):
        self.real = real
        self.sym = sym


# ---------------------------------------------------------------------------
# which functions of /repo ran symbolically
# ---------------------------------------------------------------------------


class FnTrace:
    """names of /repo functions entered (sys.monitoring, one event each)"""

    def __init__(self):
        self.names = set()
        self.root = os.path.abspath(load.REPO) + "/smote_variants/"

    def __enter__(self):
        mon = sys.monitoring
        self.tool = 3
        try:
            mon.use_tool_id(self.tool, "symx")
        except ValueError:
            self.tool = None
            return self

        def start(code, off):
            fn = code.co_filename
            if fn.startswith(self.root) and not code.co_name.startswith("<"):
                self.names.add(fn[len(self.root):] + ":" + code.co_qualname)
            return mon.DISABLE

        mon.register_callback(self.tool, mon.events.PY_START, start)
        mon.set_events(self.tool, mon.events.PY_START)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        if self.tool is not None:
            mon = sys.monitoring
            mon.set_events(self.tool, 0)
            mon.register_callback(self.tool, mon.events.PY_START, None)
            mon.free_tool_id(self.tool)


# ---------------------------------------------------------------------------
# model values
# ---------------------------------------------------------------------------


def num(model, e):
    """a z3 term's value in the model as a Python number"""
    if isinstance(e, S):
        e = e.e
    if not z3.is_expr(e):
        return e
    v = model.eval(e, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    raise Unsupported(f"model value {v}")


def values(model, arr):
    """a (nested) structure of symbolic values -> plain Python lists"""
    if isinstance(arr, np.ndarray):
        return [values(model, v) for v in arr]
    if isinstance(arr, (list, tuple)):
        return [values(model, v) for v in arr]
    if isinstance(arr, S):
        return num(model, arr)
    if isinstance(arr, np.generic):
        return arr.item()
    return arr


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


# ---------------------------------------------------------------------------
# exploration of one unit
# ---------------------------------------------------------------------------


class Stuck(BaseException):
    """a symbolic path does not end"""


def _stuck(*_):
    raise Stuck()


class Path:
    """outcome of one symbolic run"""

    def __init__(self, goals=(), note=None):
        self.goals = list(goals)  # (label, z3 Bool / S / bool)
        self.note = note


def blank(name, bounds=""):
    return {
        "name": name,
        "bounds": bounds,
        "stats": core.Stats().as_dict(),
        "decisions": 0,
        "functions": [],
        "violations": [],
        "unconfirmed": {},
        "witnesses": 0,
        "samples": [],
        "exceptions": {},
        "inconclusive": [],
        "assumptions": [],
    }


def explore(
    name,
    fn,
    replay,
    *,
    bounds="",
    max_paths=40,
    wall_s=20,
    timeout_ms=3000,
    max_forks=400,
    max_witness=4,
    max_confirm=4,
    order=None,
    goal_timeout_ms=None,
    stop_on_violation=True,
):
    """
    fn(c) runs the code under test symbolically and returns a Path; before the
    code under test runs it sets c.tags["cases"] = f(model or None) -> iterable of
    JSON-able cases.  replay(case) runs the unpatched code on a case and returns
    the list of violated clauses as (key, text).
    """
    out = blank(name, bounds)
    ex = core.Explorer(
        max_paths=max_paths, timeout_ms=timeout_ms, max_forks=max_forks, wall_s=wall_s, order=SEED if order is None else order
    )
    seen_keys = set()
    seen_cases = set()
    confirms = [0]
    last = []

    def try_cases(c, model, why):
        gen = c.tags.get("cases")
        if gen is None:
            return False
        n = 0
        for case in gen(model):
            n += 1
            try:
                with load.real_modules():
                    bad = replay(case)
            except (Unsupported, PathAbort):
                continue
            if bad:
                for key, text in bad:
                    if key not in seen_keys:
                        seen_keys.add(key)
                        out["violations"].append({"key": key, "text": text, "case": case, "found": why})
                return True
        return False

    def wrapped(c):
        try:
            signal.signal(signal.SIGPROF, _stuck)
            signal.setitimer(signal.ITIMER_PROF, max(12.0, 2.0 * wall_s))
            try:
                p = fn(c)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            exc = None
        except Stuck:
            out["inconclusive"].append("a path did not end")
            p, exc = None, "stuck"
        except Unsupported as u:
            where = _where()
            out["inconclusive"].append(f"not encoded: {u} @ {where}")
            c.stats.unsupported[str(u)] = c.stats.unsupported.get(str(u), 0) + 1
            p, exc = None, "unsupported"
        except (BoundHit, PathAbort):
            out["decisions"] += len(c.trace)
            raise
        except RecursionError:
            out["inconclusive"].append("recursion limit")
            p, exc = None, "recursion"
        except Exception as e:  # noqa: BLE001 - the code under test raised
            key = f"{type(e).__name__}: {str(e)[:80]} @ {_where()}"
            out["exceptions"][key] = out["exceptions"].get(key, 0) + 1
            p, exc = None, key
        out["decisions"] += len(c.trace)
        model = None
        if c.model is None:
            r, c.model = c.check()
        model = c.model
        if model is not None and "cases" in c.tags:
            last[:] = [c, model]
        if exc is not None:
            # candidate violation or an unencoded step: let the real code decide
            if model is not None and confirms[0] < max_confirm and "cases" in c.tags:
                confirms[0] += 1
                if not try_cases(c, model, exc) and exc not in ("unsupported", "recursion", "stuck"):
                    k = "exception on a symbolic path not reproduced"
                    out["unconfirmed"][k] = out["unconfirmed"].get(k, 0) + 1
            return None
        failed = False
        for label, goal in p.goals:
            r, m = c.prove(goal, timeout_ms=goal_timeout_ms)
            if r == "unknown":
                out["inconclusive"].append(f"solver unknown: {label}")
            elif r == "fails":
                failed = True
                if confirms[0] >= max_confirm:
                    out["unconfirmed"][label] = out["unconfirmed"].get(label, 0) + 1
                    continue
                confirms[0] += 1
                if not try_cases(c, m, label):
                    out["unconfirmed"][label] = out["unconfirmed"].get(label, 0) + 1
        if not failed and model is not None and out["witnesses"] < max_witness and "cases" in c.tags:
            # encoding check: the path's model, run on the real code, satisfies the property too
            for case in c.tags["cases"](model):
                k = repr(case)
                if k in seen_cases:
                    break
                seen_cases.add(k)
                out["witnesses"] += 1
                if len(out["samples"]) < 1:
                    out["samples"].append(jsonable(case))
                try:
                    with load.real_modules():
                        bad = replay(case)
                except (Unsupported, PathAbort):
                    bad = []
                for key, text in bad:
                    if key not in seen_keys:
                        seen_keys.add(key)
                        out["violations"].append({"key": key, "text": text, "case": case, "found": "witness"})
                break
        return True

    def stop(_):
        return stop_on_violation and bool(out["violations"])

    with FnTrace() as tr:
        ex.run(wrapped, stop=stop)
    if ex.stats.unknown and last and not out["violations"]:
        # branches the solver could not settle: let the real code run this configuration
        try_cases(last[0], last[1], "solver unknown")
    out["functions"] = sorted(tr.names)
    out["stats"] = ex.stats.as_dict()
    out["inconclusive"] = dedupe(out["inconclusive"])
    return out


def absorb(out, more):
    """adds the result of a further exploration to that of a unit"""
    for k, v in more["stats"].items():
        if k == "complete":
            out["stats"][k] = out["stats"][k] and v
        elif isinstance(v, dict):
            for a, b in v.items():
                out["stats"][k][a] = out["stats"][k].get(a, 0) + b
        else:
            out["stats"][k] += v
    for k in ("decisions", "witnesses"):
        out[k] += more[k]
    out["functions"] = sorted(set(out["functions"]) | set(more["functions"]))
    for k in ("violations", "inconclusive"):
        out[k] = out[k] + more[k]
    for k in ("unconfirmed", "exceptions"):
        for a, b in more[k].items():
            out[k][a] = out[k].get(a, 0) + b
    if more["bounds"] and more["bounds"] not in out["bounds"]:
        out["bounds"] += "; " + more["bounds"]


def dedupe(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return [k if v == 1 else f"{k} (x{v})" for k, v in d.items()]


def _where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    root = os.path.abspath(load.REPO)
    fr = [f for f in tb if f.filename.startswith(root)]
    f = fr[-1] if fr else tb[-1]
    return f"{os.path.basename(f.filename)}:{f.lineno}"


# ---------------------------------------------------------------------------
# process pool
# ---------------------------------------------------------------------------


def run_units(units, env, *, nproc=None, unit_timeout=60, deadline_s=600):
    """units: list of (name, callable(env) -> result dict); one forked child each"""
    nproc = nproc or NPROC
    t0 = time.time()
    queue = list(units)[::-1]
    live = {}
    results = []
    while queue or live:
        while queue and len(live) < nproc:
            if time.time() - t0 > deadline_s:
                for nm, _ in queue[::-1]:
                    r = blank(nm)
                    r["inconclusive"].append("not reached within the time budget")
                    results.append(r)
                queue = []
                break
            nm, fn = queue.pop()
            rfd, wfd = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                try:
                    os.setpgid(0, 0)
                    dn = os.open(os.devnull, os.O_WRONLY)
                    if not os.environ.get("VERIF_DEBUG"):
                        os.dup2(dn, 1)
                        os.dup2(dn, 2)
                    warnings.simplefilter("ignore")
                    np.seterr(all="ignore")
                    sys.setrecursionlimit(4000)
                    try:
                        r = fn(env)
                    except BaseException as e:  # noqa: BLE001
                        r = blank(nm)
                        r["inconclusive"].append(
                            "harness error: " + type(e).__name__ + " " + str(e)[:200] + " | " + "".join(traceback.format_tb(e.__traceback__)[-3:])[-600:]
                        )
                    data = pickle.dumps(r)
                    with os.fdopen(wfd, "wb") as f:
                        f.write(data)
                except BaseException:  # noqa: BLE001
                    pass
                os._exit(0)
            os.close(wfd)
            live[rfd] = [pid, nm, time.time(), b""]
        if not live:
            continue
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rd:
            b = os.read(fd, 1 << 20)
            if b:
                live[fd][3] += b
                continue
            pid, nm, st, data = live.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                r = pickle.loads(data)
            except Exception:  # noqa: BLE001
                r = blank(nm)
                r["inconclusive"].append("the unit's process died")
            r["wall"] = round(time.time() - st, 2)
            results.append(r)
        now = time.time()
        for fd in list(live):
            pid, nm, st, _ = live[fd]
            if now - st > unit_timeout:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                os.waitpid(pid, 0)
                os.close(fd)
                live.pop(fd)
                r = blank(nm)
                r["inconclusive"].append(f"unit exceeded {unit_timeout} s")
                r["wall"] = round(now - st, 2)
                results.append(r)
    return results


# ---------------------------------------------------------------------------
# check driver
# ---------------------------------------------------------------------------


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k.get("status") != "fixed"]


def confirm(prop, path, timeout=300):
    """run the stored case on the unpatched code in a fresh process"""
    env = dict(os.environ)
    env["OMP_NUM_THREADS"] = "1"
    try:
        r = subprocess.run(
            [PY, os.path.join(VERIF, "harness", "replay.py"), prop, path],
            cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
        )
    except subprocess.TimeoutExpired:
        return False, "replay timed out"
    return r.returncode == 1, r.stdout.decode(errors="replace")[-2000:]


def finish(prop, tier, results, *, t0, level, assumptions=(), extra=None, note=""):
    """confirms violations, prints the verdict lines, writes the evidence; returns the exit code"""
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    known = known_findings(prop)
    known_keys = {k["key"] for k in known}
    by_key = {}
    for r in results:
        for v in r["violations"]:
            by_key.setdefault(v["key"], []).append((r["name"], v))
    # one representative per (unit family) is confirmed in a fresh process
    confirmed, dropped = [], []
    for key, vs in by_key.items():
        if key in known_keys:
            continue
        done = False
        for nm, v in vs[:3]:
            slug = re.sub(r"[^A-Za-z0-9_.-]+", "_", f"{prop}-{key}")[:90]
            path = os.path.join(VERIF, "evidence", "replays", slug + ".json")
            with open(path, "w") as f:
                json.dump({"property": prop, "unit": nm, "key": key, "text": v["text"], "case": jsonable(v["case"])}, f, indent=1)
            ok, log = confirm(prop, path)
            if ok:
                confirmed.append((key, path, v["text"]))
                done = True
                break
            dropped.append({"key": key, "log": log[-300:]})
            os.remove(path)
        if done and len(confirmed) >= 3:
            break
    for k in known:
        if k.get("case") is not None:
            p = os.path.join(VERIF, "evidence", "replays", f"known-{prop}.json")
            with open(p, "w") as f:
                json.dump({"property": prop, "case": k["case"]}, f)
            ok, _ = confirm(prop, p)
            if ok:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
        elif k["key"] in by_key:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    tot = core.Stats()
    agg = {"paths": 0, "queries": 0, "solver_s": 0.0, "asserts": 0, "bound_hits": 0, "unknown": 0, "infeasible": 0}
    decisions = 0
    fns = set()
    wit = 0
    samples, inconc, unconf, excs, bounds = [], {}, {}, {}, []
    complete = 0
    for r in results:
        for k in agg:
            agg[k] += r["stats"].get(k, 0)
        decisions += r["decisions"]
        fns.update(r["functions"])
        wit += r["witnesses"]
        if len(samples) < 6:
            samples.extend(r["samples"][: 6 - len(samples)])
        for x in r["inconclusive"]:
            inconc.setdefault(x, []).append(r["name"])
        for k, v in r["unconfirmed"].items():
            unconf[f"{r['name']}: {k}"] = v
        for k, v in r["exceptions"].items():
            excs[f"{r['name']}: {k}"] = v
        if r["stats"]["paths"] and r["stats"]["complete"] and not r["inconclusive"]:
            complete += 1
        if r["bounds"] and r["bounds"] not in bounds:
            bounds.append(r["bounds"])
    ev = {
        "property": prop,
        "tier": tier,
        "seed": SEED,
        "level": level,
        "coverage": {
            "states": agg["paths"],
            "transitions": decisions,
            "traces_validated_against_impl": wit,
            "samples": samples[:6] or [{"note": "no witness"}],
            "exhaustive": False,
            "units": len(results),
            "units_fully_explored_within_bounds": complete,
            "assertions_decided": agg["asserts"],
            "solver_queries": agg["queries"],
            "solver_seconds": round(agg["solver_s"], 1),
            "solver_unknown": agg["unknown"],
            "paths_cut_by_a_bound": agg["bound_hits"],
            "infeasible_paths": agg["infeasible"],
            "functions_encoded": sorted(fns),
            "bounds": bounds[:40],
            "inconclusive": {k: (v if len(v) <= 6 else v[:6] + [f"... {len(v)} units"]) for k, v in sorted(inconc.items())[:60]},
            "counterexamples_not_reproduced": dict(list(unconf.items())[:40]),
            "exceptions_on_symbolic_paths": dict(list(excs.items())[:40]),
            "dropped_after_fresh_replay": dropped[:10],
            "meaning": "states = symbolic paths decided, transitions = branch decisions taken on them, traces_validated_against_impl = path models re-run on the unpatched code",
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(confirmed),
    }
    if extra:
        ev["coverage"].update(extra)
    if note:
        ev["coverage"]["note"] = note
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for key, p, text in confirmed:
        print(f"{prop}: {text}")
        print(f"VIOLATION property={prop} replay={p}")
    c = ev["coverage"]
    print(
        f"{prop} {tier}: {len(results)} units ({complete} complete), {c['states']} paths, {c['assertions_decided']} assertions, "
        f"{c['solver_queries']} queries, {c['solver_seconds']} s solver, {wit} witnesses, {len(confirmed)} violations, {ev['wall_s']} s"
    )
    if agg["paths"] == 0:
        print(f"{prop}: no path completed (nothing decided)")
    return 1 if confirmed else 0
