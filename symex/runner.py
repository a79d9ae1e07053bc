"""Explores the cases of a property in parallel and decides them with Z3; replays counterexamples on the real package."""
import gc
import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback
from fractions import Fraction
from multiprocessing.connection import Pipe, wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORKERS = 8


class Case:
    def __init__(self, name, fn, bounds="", time=40, max_paths=300, conc=20, query_ms=5000, setup=None):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.time, self.max_paths, self.conc, self.query_ms = time, max_paths, conc, query_ms


def case(cases, bounds="", name=None, **k):
    def d(fn):
        cases.append(Case(name or fn.__name__, fn, bounds, **k))
        return fn

    return d


# ---------------------------------------------------------------------------------------
# concrete server


def concrete_run(fn, values, seed, tries=1):
    """One run of the harness on the real package (in this process)."""
    from .harness import ConH, Excluded, Failed

    res = None
    for t in range(tries):
        h = ConH(values, seed + t)
        res = {"status": "ok", "label": "", "detail": ""}
        try:
            fn(h)
            if not h.nchecks:
                res["status"] = "unchecked"
        except Excluded as e:
            res["status"] = "excluded"
            res["detail"] = str(e)
        except Failed as e:
            res.update(status="fail", label=e.label, detail=e.detail)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            res.update(status="exception", label="unexpected {}".format(type(e).__name__),
                       detail="{}: {} [{}]".format(type(e).__name__, str(e)[:300],
                                                    " < ".join("{}:{}".format(os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))))
        res["values"] = {k: str(v) for k, v in h.used.items()}
        res["obs"] = h.observations
        res["trace"] = h.trace
        if res["status"] != "excluded":
            break
    return res


def in_child(f, timeout):
    """Run f in a forked child; None when it does not answer in time."""
    a, b = Pipe(duplex=False)
    pid = os.fork()
    if pid == 0:
        try:
            a.close()
            b.send(f())
        except BaseException as e:  # noqa
            try:
                b.send({"status": "broken", "label": "", "detail": repr(e)[:300], "values": {}, "obs": [], "trace": []})
            except BaseException:
                pass
        finally:
            os._exit(0)
    b.close()
    r = None
    try:
        if a.poll(timeout):
            r = a.recv()
    except EOFError:
        r = None
    finally:
        a.close()
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    return r


def serve(conn, cases):
    by_name = {c.name: c for c in cases}
    while True:
        try:
            rid, name, values, seed, tries, timeout = conn.recv()
        except (EOFError, OSError):
            os._exit(0)
        fn = by_name[name].fn
        r = in_child(lambda: concrete_run(fn, values, seed, tries), timeout)
        if r is None:
            r = {"status": "timeout", "label": "", "detail": "", "values": {}, "obs": [], "trace": []}
        try:
            conn.send((rid, r))
        except OSError:
            os._exit(0)


def start_servers(prop, tier, n):
    """Fork a zygote holding the unmodified package and n servers below it; returns our ends of the pipes."""
    pairs = [Pipe() for _ in range(n)]
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            sys.path.insert(0, REPO)
            cases = load_cases(prop, tier)
            import openscm

            assert os.path.realpath(openscm.__file__).startswith(REPO + "/"), openscm.__file__
            preload()
            gc.collect()
            gc.freeze()
            gc.disable()
            for i in range(n):
                if os.fork() == 0:
                    for j, (a, b) in enumerate(pairs):
                        a.close()
                        if j != i:
                            b.close()
                    serve(pairs[i][1], cases)
        except BaseException:
            traceback.print_exc()
        os._exit(0)
    for a, b in pairs:
        b.close()
    os.waitpid(pid, 0)
    return [a for a, b in pairs]


def preload():
    for m in ("core", "core.time", "core.units", "core.views", "core.parameters", "core.parameterset", "core.regions", "adapters",
              "adapters.dice", "scmdataframe", "scmdataframe.base", "scmdataframe.filters", "scmdataframe.offsets",
              "scmdataframe.parameter_type", "errors"):
        importlib.import_module("openscm." + m)


def load_cases(prop, tier):
    m = importlib.import_module("props." + prop.lower())
    return m.cases(tier)


class Concrete:
    """Client of a concrete server."""

    def __init__(self, conn, name):
        self.conn, self.name, self.rid = conn, name, os.getpid() * 100000
        self.runs = 0

    def run(self, values, seed=0, tries=1, timeout=20):
        self.rid += 1
        self.runs += 1
        self.conn.send((self.rid, self.name, values, seed, tries, timeout))
        while True:
            if not self.conn.poll(timeout + 10):
                return {"status": "timeout", "label": "", "detail": "", "values": {}, "obs": [], "trace": []}
            rid, r = self.conn.recv()
            if rid == self.rid:
                return r


# ---------------------------------------------------------------------------------------
# exploration of one case


class CaseRun:
    def __init__(self, case_, conc, seed, send, tier, stack=None, fork_cache=None):
        from . import core

        self.stack = [[]] if stack is None else stack
        self.fork_cache = {} if fork_cache is None else fork_cache
        self.quota = case_.conc if stack is None else max(3, case_.conc // 4)
        self.last_split = time.monotonic() - (6.0 if stack is None else 0.0)
        self.first_split = stack is None

        self.core = core
        self.case, self.conc, self.seed, self.send, self.tier = case_, conc, seed, send, tier
        self.stats = core.Stats()
        self.rng = random.Random("{}/{}/{}".format(seed, case_.name, self.stack[0]))
        self.res = dict(case=case_.name, paths=0, complete=0, infeasible=0, excluded=0, limits={}, flags={}, checks=0, discharged=0,
                        undecided=0, unreproduced={}, validated=0, diverged=[], concrete_runs=0, unfinished=0, functions=set(), branches=0,
                        fallback_runs=0, exceptions={}, path_s=0.0)
        self.deadline = time.monotonic() + case_.time
        self.violation = None

    def bump(self, d, k, n=1):
        self.res[d][k] = self.res[d].get(k, 0) + n

    def explore(self):
        core = self.core
        stack, fork_cache = self.stack, self.fork_cache
        hashes = {}
        n = 0
        while stack and not self.violation:
            if n >= self.case.max_paths or time.monotonic() > self.deadline:
                break
            prefix = stack.pop()
            ctx = core.Ctx(prefix, self.stats, self.rng, self.deadline, self.case.query_ms)
            ctx.fork_cache = fork_cache
            ctx.hashes = hashes
            self.one_path(ctx)
            n += 1
            stack.extend(ctx.pending)
            self.res["functions"] |= ctx.functions
            self.res["branches"] += ctx.branches
            for f in ctx.flags:
                self.bump("flags", f)
            if n % 10 == 0:
                self.flush()
            self.share(stack)
        self.res["unfinished"] = len(stack)
        if stack and not self.violation:
            # what the budget leaves over is at least sampled on the real code
            self.fallback(None, 6)
        self.flush(done=True)

    def share(self, stack):
        """Hand over some of the work to other processes."""
        if len(stack) < 2 or time.monotonic() - self.last_split < 8.0:
            return
        groups = min(8 if self.first_split else 2, len(stack))
        parts = [stack[i::groups] for i in range(groups)]
        for part in parts[1:]:
            self.send(dict(split=part, fork_cache=dict(self.fork_cache)))
        stack[:] = parts[0]
        self.first_split = False
        self.last_split = time.monotonic()

    def flush(self, done=False):
        r = dict(self.res)
        r["functions"] = sorted(r["functions"])
        r["stats"] = dict(self.stats.__dict__)
        r["concrete_runs"] = self.conc.runs
        r["done"] = done
        r["violation"] = self.violation
        self.send(r)

    # -- one path
    def one_path(self, ctx):
        core = self.core
        from .harness import SymH

        h = SymH(ctx)
        core.CTX = ctx
        self.res["paths"] += 1
        outcome, exc = "complete", None
        try:
            self.case.fn(h)
        except core.PathEnd:
            outcome = "end"
        except core.EngineLimit as e:
            outcome, exc = "limit", str(e)
        except RecursionError as e:
            outcome, exc = "limit", "recursion"
        except Exception as e:
            outcome, exc = "exception", e
        try:
            if outcome == "end":
                self.res["infeasible"] += 1
                if h.obligs and ctx.check()[0] == core.z3.sat:
                    self.decide(ctx, h)
                return
            feasible, _ = ctx.check()
            if feasible == core.z3.unsat:
                self.res["infeasible"] += 1
                return
            self.decide(ctx, h)
            if self.violation:
                return
            if outcome == "complete":
                self.res["complete"] += 1
                self.validate(ctx, h)
            elif outcome == "limit":
                self.bump("limits", exc)
                self.fallback(ctx, 4, h)
            else:
                self.exception(ctx, h, exc)
        except core.EngineLimit as e:
            self.bump("limits", str(e))
        except core.PathEnd:
            self.res["infeasible"] += 1
        finally:
            core.CTX = None

    def decide(self, ctx, h):
        """Are all obligations of the path valid?"""
        core, z3 = self.core, self.core.z3
        todo = []
        for o in h.obligs:
            self.res["checks"] += 1
            if z3.is_true(o.exact):
                self.res["discharged"] += 1
                self.stats.trivial += 1
            else:
                todo.append(o)
        if not todo:
            return
        if len(todo) > 1:
            r, _ = ctx.check(z3.Or([z3.Not(o.exact) for o in todo]))
            if r == z3.unsat:
                self.res["discharged"] += len(todo)
                return
            if any(o.loose is not None for o in todo):
                r, _ = ctx.check(z3.Or([z3.Not(o.loose if o.loose is not None else o.exact) for o in todo]))
                if r == z3.unsat:
                    self.res["discharged"] += len(todo)
                    return
        for o in todo:
            if self.violation:
                return
            if time.monotonic() > self.deadline:
                self.res["undecided"] += 1
                self.bump("limits", "time budget of the case used up")
                continue
            r, m = ctx.check(z3.Not(o.exact))
            if r != z3.unsat and o.loose is not None:
                r, m = ctx.check(z3.Not(o.loose))
            if r == z3.unsat:
                self.res["discharged"] += 1
                continue
            if r == z3.unknown:
                self.res["undecided"] += 1
                self.fallback(ctx, 3, h)
                continue
            self.refute(ctx, h, o, m)

    def refute(self, ctx, h, o, m):
        """The solver found values that break an obligation: replay them on the real code."""
        z3 = self.core.z3
        tried = 0
        models = []
        if o.margin is not None:
            for mg in (1.0, 0.3, 0.1, 1e-2, 1e-3, 1e-4, 1e-5):
                r, mm = ctx.check(o.margin(mg), ms=3000)
                if r == z3.sat:
                    models.append(mm)
                    if len(models) >= 2:
                        break
        models.append(m)
        mm = self.diversify(ctx, h, [z3.Not(o.loose if o.loose is not None else o.exact)])
        if mm is not None:
            models.append(mm)
        for mm in models:
            r = self.conc.run(self.values(h, mm), self.seed, 1)
            tried += 1
            if r["status"] in ("fail", "exception"):
                self.found(r, "counterexample of obligation '{}'".format(o.label))
                return
        self.bump("unreproduced", o.label[:120])
        self.res["undecided"] += 1
        if self.res.get("unrep_sample") is None:
            self.res["unrep_sample"] = {"label": o.label, "values": {k: str(v) for k, v in self.values(h, models[0]).items()}}

    def exception(self, ctx, h, e):
        tb = traceback.extract_tb(e.__traceback__)
        text = "{}: {} [{}]".format(type(e).__name__, str(e)[:150],
                                    " < ".join("{}:{}".format(os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:])))
        for m in (ctx.model(), self.diversify(ctx, h, [])):
            if m is None:
                continue
            r = self.conc.run(self.values(h, m), self.seed, 2)
            if r["status"] in ("fail", "exception"):
                self.found(r, "path raises " + text)
                return
        self.bump("limits", "exception only in the symbolic run: " + text)

    def validate(self, ctx, h):
        """Run path models on the real code and compare the observations."""
        from .harness import same_snapshot, sym_snapshot

        if self.res["validated"] + len(self.res["diverged"]) >= self.quota:
            # keep on sampling some later paths
            if self.rng.random() > 0.05 or self.res["validated"] >= 4 * self.quota:
                return
        m = tm = None
        for _ in range(4):
            m = self.diversify(ctx, h, [])
            if m is None:
                m = ctx.model()
            tm = self.true_model(ctx, h, m)
            if tm is not None:
                break
        r = self.conc.run(self.values(h, m), self.seed, 1)
        if r["status"] in ("fail", "exception"):
            self.found(r, "real run at a solver model of a path")
            return
        if r["status"] == "ok" and tm is None:
            self.bump("flags", "path not confirmed: true function values leave the model's path")
        elif r["status"] == "ok":
            m = tm
            sym = [(n, sym_snapshot(v, m)) for n, v in h.observations]
            real = [(n, v) for n, v in r["obs"]]
            if len(sym) == len(real) and all(a[0] == b[0] and same_snapshot(a[1], b[1], h.obs_tol.get(a[0], (1e-5, 1.0))) for a, b in zip(sym, real)):
                self.res["validated"] += 1
            else:
                d = next((dict(obs=a[0], symbolic=repr(a[1])[:200], real=repr(b[1])[:200]) for a, b in zip(sym, real)
                          if a[0] != b[0] or not same_snapshot(a[1], b[1], h.obs_tol.get(a[0], (1e-5, 1.0)))), dict(obs="count", symbolic=len(sym), real=len(real)))
                if not self.float_boundary(ctx, h, m):
                    d["values"] = r["values"]
                    self.res["diverged"].append(d)
        elif r["status"] in ("timeout", "broken"):
            self.bump("flags", "real run: " + r["status"] + " " + r["detail"][:80])

    def true_model(self, ctx, h, m):
        """The model with the true values of log2 etc.; None when it leaves the path."""
        if not self.core.UF:
            return m
        from .harness import sym_exprs

        tm = self.core.TrueModel(m, list(ctx.pc) + [e for _, v in h.observations for e in sym_exprs(v)])
        if not tm.pairs:
            return m
        if not tm.ok or any(not self.core.z3.is_true(tm.eval(c)) for c in ctx.pc):
            return None
        return tm

    def float_boundary(self, ctx, h, m):
        """Does the model leave the path once it is rounded to floats?"""
        z3 = self.core.z3
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(*ctx.pc)
        inexact = False
        for name, (kind, e, lo, hi) in h.inputs.items():
            v = self.core.model_fraction(m, e)
            if kind == "real":
                f = Fraction(float(v))
                inexact |= f != v
                s.add(e == self.core.rval(f))
            else:
                s.add(e == int(v))
        return inexact and s.check() != z3.sat

    def fallback(self, ctx, n, h=None):
        """Solver models (diversified) of what could not be decided, run on the real code."""
        if self.res["fallback_runs"] > 60 or self.violation:
            return
        for i in range(n):
            values = {}
            if ctx is not None:
                m = None
                try:
                    m = self.diversify(ctx, h, []) if i else ctx.model()
                except (self.core.EngineLimit, self.core.PathEnd):
                    pass
                if m is not None:
                    values = self.values(h, m)
            r = self.conc.run(values, self.rng.randrange(10 ** 9), 6)
            self.res["fallback_runs"] += 1
            if r["status"] in ("fail", "exception"):
                self.found(r, "real run at values of an undecided path")
                return

    def found(self, r, how):
        # a violation must repeat
        r2 = self.conc.run(r["values"], self.seed, 1)
        if r2["status"] not in ("fail", "exception"):
            self.bump("flags", "violation that did not repeat: " + r["label"][:80])
            return
        self.violation = dict(case=self.case.name, label=r2["label"], detail=r2["detail"], values=r2["values"], how=how, trace=r2["trace"][:50])

    # -- models
    def values(self, h, m):
        out = {}
        for name, (kind, e, lo, hi) in h.inputs.items():
            out[name] = self.core.model_fraction(m, e)
        return out

    def diversify(self, ctx, h, extra):
        """A model with random values where the path allows them."""
        from .harness import uniform

        z3 = self.core.z3
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*ctx.pc)
        s.add(*extra)
        t = time.monotonic()
        m = None
        items = list(h.inputs.items())
        self.rng.shuffle(items)
        if s.check() != z3.sat:
            return None
        m = s.model()
        # all at once first
        picks = []
        for name, (kind, e, lo, hi) in items:
            if kind == "real":
                picks.append(e == self.core.rval(Fraction(uniform(self.rng, lo, hi)).limit_denominator(4096)))
            elif lo is not None and lo < hi:
                picks.append(e == self.rng.randint(lo, hi))
        chunk = [picks]
        while chunk and time.monotonic() - t < 1.5:
            p = chunk.pop()
            s.push()
            s.add(*p)
            if s.check() == z3.sat:
                m = s.model()
                s.pop()
                s.add(*p)
            else:
                s.pop()
                if len(p) > 1:
                    chunk.append(p[: len(p) // 2])
                    chunk.append(p[len(p) // 2:])
        return m


# ---------------------------------------------------------------------------------------


def run_property(prop, tier, seed, only=None, workers=WORKERS, verbose=False, limit_s=None, keep_going=False):
    """Returns (results by case name, wall seconds)."""
    from . import loader

    t0 = time.monotonic()
    servers = start_servers(prop, tier, workers)
    loader.install()
    cases = load_cases(prop, tier)
    import openscm  # noqa: the transformed package

    preload()
    gc.collect()
    gc.freeze()
    if only:
        cases = [c for c in cases if c.name in only]
    limit_s = limit_s or (600 if tier == "quick" else 6 * 3600)
    queue = [(c, None, None) for c in cases]
    free = list(range(workers))
    active = {}
    parts = {}  # case name -> results of its processes
    waiting = {c.name: 1 for c in cases}
    stop = False

    def leave(conn, why=None):
        pid, c, slot, dl, key = active.pop(conn)
        os.waitpid(pid, 0)
        conn.close()
        free.append(slot)
        waiting[c.name] -= 1
        r = parts[c.name].setdefault(key, dict(case=c.name, killed="ended without a report"))
        if why and not r.get("done"):
            r["killed"] = why
        if verbose and not waiting[c.name]:
            print(summary_line(merge(c.name, parts[c.name].values())), flush=True)

    while (queue and not stop) or active:
        while queue and free and not stop:
            c, stack, cache = queue.pop(0)
            here = parts.setdefault(c.name, {})
            if time.monotonic() - t0 > limit_s:
                here[len(here)] = dict(case=c.name, killed="no time left")
                continue
            slot = free.pop()
            a, b = Pipe(duplex=False)
            pid = os.fork()
            if pid == 0:
                try:
                    a.close()
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    CaseRun(c, Concrete(servers[slot], c.name), seed, b.send, tier, stack, cache).explore()
                except BaseException:
                    try:
                        b.send(dict(case=c.name, killed="engine failure: " + traceback.format_exc()[-600:]))
                    except BaseException:
                        pass
                finally:
                    os._exit(0)
            b.close()
            active[a] = (pid, c, slot, time.monotonic() + c.time * 1.5 + 45, pid)
        for conn in wait(list(active), timeout=1.0):
            pid, c, slot, dl, key = active[conn]
            try:
                r = conn.recv()
                if "split" in r:
                    queue.append((c, r["split"], r["fork_cache"]))
                    waiting[c.name] += 1
                    continue
                parts[c.name][key] = r
                if r.get("violation"):
                    if keep_going:
                        for t in queue:
                            if t[0] is c:
                                waiting[c.name] -= 1
                        queue = [t for t in queue if t[0] is not c]
                    else:
                        stop = True
                        queue = []
            except (EOFError, OSError):
                leave(conn)
        now = time.monotonic()
        for conn in list(active):
            pid, c, slot, dl, key = active[conn]
            if now > dl or (stop and not (parts[c.name].get(key) or {}).get("violation")):
                os.kill(pid, signal.SIGKILL)
                leave(conn, "stopped" if stop else "over its time limit")
    for s in servers:
        s.close()
    results = {n: merge(n, ps.values()) for n, ps in parts.items()}
    return [results[c.name] for c in cases if c.name in results], cases, time.monotonic() - t0


def merge(name, parts):
    """One result from those of the processes that worked on a case."""
    out = dict(case=name, done=True)
    for r in parts:
        for k, v in r.items():
            if k == "case":
                continue
            if k == "done":
                out["done"] = out["done"] and v
            elif k == "functions":
                out[k] = sorted(set(out.get(k, [])) | set(v))
            elif k in ("limits", "flags", "unreproduced", "exceptions", "stats"):
                d = out.setdefault(k, {})
                for n, x in v.items():
                    d[n] = d.get(n, 0) + x if isinstance(x, (int, float)) else x
            elif isinstance(v, list):
                out[k] = out.get(k, []) + v
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                out[k] = out.get(k, 0) + v
            elif v is not None or k not in out:
                out[k] = out.get(k) or v
    if out.get("violation"):
        out.pop("killed", None)
    return out


def inconclusive_reasons(r):
    out = []
    if r.get("killed"):
        out.append(r["killed"])
        if "paths" not in r:
            return out
    if not r.get("complete"):
        out.append("no path was completed")
    elif not r.get("checks"):
        out.append("nothing was checked")
    for k, n in sorted(r.get("limits", {}).items()):
        out.append("{} x {}".format(n, k))
    if r.get("unfinished"):
        out.append("{} branches left unexplored".format(r["unfinished"]))
    if r.get("undecided"):
        out.append("{} obligations undecided".format(r["undecided"]))
    for k, n in sorted(r.get("unreproduced", {}).items()):
        out.append("{} counterexamples not reproduced by the real code: {}".format(n, k))
    if r.get("diverged"):
        out.append("{} divergences between encoding and real code, e.g. {}".format(len(r["diverged"]), r["diverged"][0]))
    return out


def summary_line(r):
    if "paths" not in r:
        return "  {}: {}".format(r["case"], r.get("killed"))
    s = r["stats"]
    return "  {}: paths {} (complete {}, excluded {}), obligations {}/{}, queries {} ({:.1f}s), real runs {} (agreeing {}){}{}{}".format(
        r["case"], r["paths"], r["complete"], r["infeasible"], r["discharged"], r["checks"], s["queries"], s["solver_time"], r["concrete_runs"],
        r["validated"], " flags {}".format(r["flags"]) if r["flags"] else "",
        " VIOLATED: {}".format(r["violation"]["label"]) if r.get("violation") else "",
        " INCONCLUSIVE: {}".format("; ".join(inconclusive_reasons(r))[:700]) if inconclusive_reasons(r) else "")


def digest(v):
    return hashlib.sha1(json.dumps([v["case"], v["label"], v["values"]], sort_keys=True).encode()).hexdigest()[:12]
