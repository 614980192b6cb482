"""Runs the scenarios of a property: exploration, replay, evidence."""
import gc
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from engine import core, instrument, scenario as sc_mod
from engine.core import SymBool, SymInt, z3

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# -- concrete runs ------------------------------------------------------------


def _plainval(x):
    if isinstance(x, (bool, int, str, float, type(None))):
        return x
    if isinstance(x, (tuple, list)):
        return [_plainval(e) for e in x]
    return repr(type(x).__name__)


def run_concrete(sc, values):
    env = sc_mod.ConcreteEnv(values)
    try:
        env.run(sc.body)
    except core.Infeasible:
        return {"infeasible": True}
    fails = [label for label, c in env.requires if not c]
    return {
        "fails": fails,
        "n_requires": len(env.requires),
        "observed": [[label, _plainval(v)] for label, v in env.observed],
        "crash": getattr(env, "crash", None),
    }


class Replayer:
    """A forked process that never sees instrumented code or patched sympy."""

    def __init__(self, scenarios):
        self.conn, child = mp.Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            self.conn.close()
            try:
                while True:
                    msg = child.recv()
                    if msg is None:
                        break
                    idx, values = msg
                    try:
                        child.send(run_concrete(scenarios[idx], values))
                    except Exception:
                        child.send({"error": traceback.format_exc()})
            except (EOFError, KeyboardInterrupt):
                pass
            finally:
                sc_mod.drop_scratch()
                os._exit(0)
        child.close()

    def run(self, idx, values, timeout=120):
        self.conn.send((idx, values))
        if not self.conn.poll(timeout):
            return {"error": "replay timed out"}
        try:
            return self.conn.recv()
        except EOFError:
            return {"error": "replay process died"}

    def close(self):
        try:
            self.conn.send(None)
            os.waitpid(self.pid, 0)
        except Exception:
            pass


# -- symbolic runs --------------------------------------------------------------


class Mismatch(Exception):
    pass


def _eval(v, values, inputs):
    """Concrete value of an observed value under an assignment."""
    if type(v) in (SymBool, SymInt):
        subs = []
        for name, (t, kind) in inputs.items():
            val = values[name]
            subs.append((t, z3.BoolVal(val) if kind == "bool" else z3.IntVal(val)))
        r = z3.simplify(z3.substitute(v.z, *subs))
        if z3.is_int_value(r):
            return r.as_long()
        return z3.is_true(r)
    if isinstance(v, (tuple, list)):
        return [_eval(e, values, inputs) for e in v]
    if isinstance(v, str) and core.OPEN in v:
        return None
    return _plainval(v)


def _same(a, b):
    if a is None and isinstance(b, str):
        return True  # token string: not compared
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or a == b
    return a == b


class ScenarioRun:
    def __init__(self, idx, sc, replayer, seed, deadline, validate, functions, slice_s):
        self.slice = slice_s
        self.idx, self.sc, self.replayer = idx, sc, replayer
        self.deadline = deadline
        self.rng = random.Random("%s/%s" % (seed, sc.name))
        self.validate = validate
        self.functions = functions
        self.n_ints = 0

    def go(self):
        t0 = time.time()
        # One scenario must not use up the time of all others.
        self.limit = self.deadline
        self.deadline = min(self.limit, t0 + self.slice)
        res = {"name": self.sc.name, "mode": "symbolic", "violation": None, "note": None}
        try:
            self.explore(res, None)
        except (Mismatch, core.Inconclusive, AssertionError) as err:
            res["note"] = "symbolic: %s: %s" % (type(err).__name__, str(err)[:600])
            self.fallback(res)
        except Exception as err:
            res["note"] = "symbolic: %s: %s" % (type(err).__name__, str(err)[:600])
            self.fallback(res)
        res["wall_s"] = time.time() - t0
        res["late"] = time.time() > self.deadline - 0.5
        return res

    def fallback(self, res):
        self.deadline = min(self.limit, time.time() + self.slice / 2)
        if time.time() > self.deadline:
            res["mode"] = "inconclusive"
            return
        ints = max(1, self.n_ints)
        widths = sorted({max(2, min(5, int(1500 ** (1.0 / ints)))), 2}, reverse=True)
        for width in widths:
            res["mode"] = "enumerated(width %d)" % width
            try:
                self.explore(res, width)
                return
            except (core.Inconclusive, Mismatch) as err:
                res["note"] += " | enumerated(%d): %s: %s" % (
                    width, type(err).__name__, str(err)[:300])
                if time.time() > self.deadline:
                    break
        res["mode"] = "inconclusive"

    def explore(self, res, width):
        sc = self.sc
        deadline = self.deadline
        if width is not None:
            deadline = min(deadline, time.time() + 150)
        ctx = core.Ctx(deadline=deadline, max_paths=200000 if width is None else 6000)
        validated = [0]
        witnessed = set()
        samples = []
        n_req = [0]

        def fn():
            env = sc_mod.SymEnv() if width is None else sc_mod.EnumEnv(width)
            ctx.str_mode = sc.str_mode
            ctx.hash_mode = sc.hash_mode
            ctx.presence = None
            if ctx.stats.paths < 2 and width is None:
                sys.setprofile(self.profile)
            try:
                env.run(sc.body)
            finally:
                sys.setprofile(None)
                self.n_ints = max(self.n_ints, sum(
                    1 for _t, k in ctx.inputs.values() if k == "int"))
            return env

        def replay(values):
            out = self.replayer.run(self.idx, values)
            if "error" in out:
                raise Mismatch("replay failed: " + out["error"][-400:])
            if out.get("infeasible"):
                raise Mismatch("assignment infeasible in replay")
            return out

        def on_path(env):
            n_req[0] += len(env.requires)
            witnessed.update(env.witnessed)
            conds, broken = [], []
            for label, c in env.requires:
                if type(c) is SymBool:
                    conds.append((label, c.z))
                elif not c:
                    broken.append(label)
            ctx.stats.assertion_queries += 1
            bad = None
            if broken:
                bad = ctx.model()
            elif conds:
                neg = z3.Not(z3.And(*[c for _l, c in conds]))
                if ctx.check(neg):
                    bad = ctx.model(neg)
            if bad is not None:
                out = replay(bad)
                if out["fails"]:
                    res["violation"] = {
                        "values": bad, "fails": out["fails"],
                        "observed": out["observed"], "crash": out.get("crash"),
                    }
                    return "stop"
                raise Mismatch(
                    "counterexample %r (%s) does not reproduce; %s"
                    % (bad, broken or "symbolic", getattr(env, "crash", ""))
                )
            n = ctx.stats.paths
            if width is None and (n <= self.validate or self.rng.random() < self.validate / n):
                values = ctx.model()
                out = replay(values)
                validated[0] += 1
                if out["fails"]:
                    res["violation"] = {
                        "values": values, "fails": out["fails"],
                        "observed": out["observed"], "crash": out.get("crash"),
                    }
                    return "stop"
                mine = [[l, _eval(v, values, ctx.inputs)] for l, v in env.observed]
                if not _same(mine, out["observed"]):
                    raise Mismatch("path for %r: encoding %r, code %r" % (values, mine, out["observed"]))
                if len(samples) < 3:
                    samples.append({"scenario": sc.name, "input": values, "observed": out["observed"]})
            return None

        try:
            ctx.explore(fn, on_path)
        finally:
            for k, v in ctx.stats.as_dict().items():
                res[k] = res.get(k, 0) + v
            res["validated"] = res.get("validated", 0) + validated[0]
            res["requires"] = res.get("requires", 0) + n_req[0]
            res["samples"] = samples
        if res["violation"] is None:
            missing = [w for w in sc.witness if w not in witnessed]
            if missing:
                res["missing"] = missing
            elif "missing" in res:
                del res["missing"]
            if res["paths"] == 0:
                res["missing"] = ["any path"]

    def profile(self, frame, event, arg):
        if event == "call":
            code = frame.f_code
            if code.co_filename.startswith(instrument.REPO + "/asta/"):
                self.functions.add(
                    os.path.basename(code.co_filename)[:-3] + "." + code.co_qualname
                )


def worker(wid, scenarios, tasks, results, seed, deadline, validate):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    replayer = Replayer(scenarios)
    from engine import exprs

    exprs.install()
    try:
        while True:
            task = tasks.get()
            if task is None:
                break
            idx, slice_s = task
            functions = set()
            try:
                res = ScenarioRun(
                    idx, scenarios[idx], replayer, seed, deadline, validate, functions,
                    slice_s,
                ).go()
            except Exception:
                res = {"name": scenarios[idx].name, "mode": "error",
                       "note": traceback.format_exc(), "violation": None}
            res["functions"] = sorted(functions)
            res["idx"] = idx
            results.put(res)
            if "replay process died" in (res.get("note") or "") or "timed out" in (res.get("note") or ""):
                replayer = Replayer(scenarios)
    finally:
        results.put(None)
        results.close()
        results.join_thread()
        replayer.close()
        sc_mod.drop_scratch()
        os._exit(0)


def run_property(*args, **kwargs):
    sc_mod.base = tempfile.mkdtemp(prefix="verif-asta-")
    try:
        return _run_property(*args, **kwargs)
    finally:
        # A worker that was stopped has not removed its directory.
        shutil.rmtree(sc_mod.base, ignore_errors=True)
        sc_mod.base = None


def _run_property(prop, tier, seed, jobs=8, budget=None, only=None, verbose=False):
    t0 = time.time()
    scenarios = prop.scenarios(tier)
    names = [s.name for s in scenarios]
    assert len(set(names)) == len(names), "duplicate scenario names"
    if only:
        scenarios = [s for s in scenarios if only in s.name]
    need_tf = any(s.tf for s in scenarios)
    preload(need_tf)
    gc.collect()
    gc.freeze()  # the libraries' objects never go away
    budget = budget or (640 if tier == "quick" else getattr(prop, "THOROUGH_BUDGET", 3000))
    deadline = t0 + budget
    validate = getattr(prop, "VALIDATE", 60)
    order = list(range(len(scenarios)))
    order.sort(key=lambda i: -(scenarios[i].budget or 0))
    results = mp.Queue()
    tasks = mp.Queue()
    procs = []
    jobs = max(1, min(jobs, len(scenarios)))
    # First round: a slice of the time for each; what it cannot decide in that
    # gets all the time that is left once the others are done.
    slice_s = max(20.0, min(budget / 8.0, budget * jobs / (3.0 * max(1, len(scenarios)))))
    for i in order:
        tasks.put((i, slice_s))
    pending = len(order)
    again = []
    second = False
    for w in range(jobs):
        p = mp.Process(
            target=worker,
            args=(w, scenarios, tasks, results, seed, deadline, validate),
        )
        p.start()
        procs.append(p)
    got = {}
    violation = None
    hard = deadline + 90
    while pending:
        try:
            r = results.get(timeout=5)
        except Exception:
            if time.time() > hard:
                break
            if not any(p.is_alive() for p in procs):
                break
            continue
        if r is None:
            continue  # a worker ended before its time
        pending -= 1
        got[r["idx"]] = r
        if verbose:
            print(json.dumps({k: r[k] for k in r if k not in ("samples", "functions")}), file=sys.stderr)
        if r["violation"]:
            violation = r
            break
        if r["mode"] == "inconclusive" and r.get("late") and not second:
            again.append(r["idx"])
        if not pending and again and not second and time.time() < deadline - 10:
            second = True
            rest = deadline - time.time()
            each = max(slice_s, rest / (1 + (len(again) - 1) // jobs) * 0.6)
            for i in again:
                tasks.put((i, each))
            pending = len(again)
    for p in procs:
        tasks.put(None)
    for p in procs:
        if violation is not None or time.time() > hard:
            p.terminate()
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    tasks.cancel_join_thread()
    return scenarios, list(got.values()), violation, time.time() - t0


def preload(need_tf):
    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    os.environ.setdefault("CUDA_VISIBLE_DEVICES", "-1")
    os.environ.setdefault("TF_ENABLE_ONEDNN_OPTS", "0")
    import numpy  # noqa
    import sympy  # noqa
    import oxentiel  # noqa
    import toml  # noqa

    if need_tf:
        from engine import models

        models.tf_module()
        models.tf_classes()
