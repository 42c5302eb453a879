"""Run the harnesses of one property: scheduling, replay of counterexamples, evidence."""
import importlib
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from multiprocessing.connection import wait

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = sys.executable
NPROC = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)

PATH_ALARM_S = 40


class Harness:
    def __init__(self, name, fn, shapes, strings=False, fakes=(), setup=None, weight=1.0,
                 hash_uf=False, hang_is_violation=True):
        self.name = name
        self.fn = fn
        self.shapes = shapes if callable(shapes) else (lambda tier, s=shapes: s)
        self.strings = strings
        self.fakes = tuple(fakes)
        self.setup = setup
        self.hash_uf = hash_uf

    def mode(self):
        return (self.strings, self.fakes, self.hash_uf)


class Prop:
    def __init__(self, pid, harnesses, bounds, outside, assumptions=(), covers=()):
        self.pid = pid
        self.harnesses = {h.name: h for h in harnesses}
        self.bounds = bounds
        self.outside = outside
        self.assumptions = list(assumptions)
        self.covers = list(covers)


def load_prop(pid):
    import importlib

    from harness import INDEX

    return importlib.import_module("harness." + INDEX[pid]).PROPS[pid]


# ---------------------------------------------------------------------- worker side
class _Alarm(BaseException):
    pass


def _on_alarm(sig, frame):
    raise _Alarm()


class _Funcs:
    """Records the functions of the code under test that are executed."""

    def __init__(self, store, prefix):
        self.store, self.prefix = store, prefix
        self.mon = sys.monitoring

    def _start(self, co, offset):
        if co.co_filename.startswith(self.prefix):
            self.store.add(os.path.relpath(co.co_filename, REPO) + ":" + co.co_qualname)
        return self.mon.DISABLE

    def __enter__(self):
        m = self.mon
        m.use_tool_id(m.COVERAGE_ID, "functions")
        m.register_callback(m.COVERAGE_ID, m.events.PY_START, self._start)
        m.set_events(m.COVERAGE_ID, m.events.PY_START)
        m.restart_events()

    def __exit__(self, *a):
        m = self.mon
        m.set_events(m.COVERAGE_ID, 0)
        m.free_tool_id(m.COVERAGE_ID)


def init_worker(mode, degraded):
    import warnings

    import logging

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(5000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from . import loader

    strings, fakes, hash_uf = mode
    sys.path.insert(0, REPO)
    if degraded:
        loader.install(False)
        return
    loader.STRING_MODE = strings
    if fakes:
        from . import fakes as fk

        fk.install(fakes, loader)
    loader.install(True)
    if hash_uf:
        loader.enable_hash_uf()


def run_task(task):
    """One (harness, shape, prefix) exploration inside a worker."""
    from . import api, core

    prop = load_prop(task["pid"])
    har = prop.harnesses[task["harness"]]
    shape = task["shape"]
    res = {
        "task": task,
        "status": "complete",
        "covers": {},
        "samples": [],
        "funcs": [],
        "prefixes": [],
        "violation": None,
        "note": None,
    }
    t0 = time.time()
    cx = core.Ctx(
        prefix=[tuple(p) for p in task["prefix"]] if task.get("prefix") else None,
        split_depth=task.get("split"),
        deadline=task.get("deadline"),
    )
    funcs = set()
    hcls = api.ConcretizedH if task.get("degraded") else api.SymH
    state = {"h": None}

    def one():
        h = hcls(shape, cx)
        state["h"] = h
        signal.setitimer(signal.ITIMER_REAL, PATH_ALARM_S)
        if task.get("degraded"):
            h.tmp = tempfile.mkdtemp(prefix="sxd")
        try:
            har.fn(h, shape)
        except core.Abort:
            raise
        except _Alarm:
            raise core.Violation("does not terminate", "no answer after %d s" % PATH_ALARM_S)
        except api.Infeasible:
            raise core.Infeasible()
        except api.Skip:
            raise core.Infeasible()
        except RecursionError as e:
            cx._ensure_model()
            raise core.Violation("uncaught RecursionError", str(e)[:200])
        except Exception as e:
            cx._ensure_model()
            raise core.Violation(
                "uncaught %s" % type(e).__name__, traceback.format_exc(limit=-6)[-1500:]
            )
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if task.get("degraded"):
                shutil.rmtree(h.tmp, ignore_errors=True)

    want = task.get("nsamples", 2)

    def on_path(c):
        n = c.stats.paths
        if len(res["samples"]) < want and (n & (n - 1)) == 0:
            try:
                res["samples"].append(
                    {
                        "inputs": api.eval_inputs(c),
                        "covers": list(c.path_covers),
                        "observed": [[l, api.eval_value(c, v)] for l, v in c.observed],
                    }
                )
            except core.Abort:
                pass

    def on_violation(v):
        res["violation"] = {
            "label": v.label,
            "detail": str(v.detail)[:2000],
            "inputs": api.eval_inputs(cx),
        }
        return True

    signal.signal(signal.SIGALRM, _on_alarm)
    try:
        with _Funcs(funcs, os.path.join(REPO, "vistautils")):
            res["status"] = cx.explore(one, on_path, on_violation)
    except core.Unsupported as e:
        res["status"] = "unsupported"
        res["note"] = str(e)
        if os.environ.get("SX_TRACE"):
            traceback.print_exc()
    except core.Inconclusive as e:
        res["status"] = "inconclusive"
        res["note"] = str(e)
    except MemoryError:
        res["status"] = "inconclusive"
        res["note"] = "memory"
    res["covers"] = cx.covers
    res["prefixes"] = cx.split_prefixes
    res["stats"] = cx.stats.as_dict()
    res["funcs"] = sorted(funcs)
    res["wall"] = time.time() - t0
    return res


def worker_main(conn, mode, degraded):
    os.setpgid(0, 0) if False else None
    try:
        init_worker(mode, degraded)
    except BaseException:
        conn.send({"init_error": traceback.format_exc()[-3000:]})
        return
    while True:
        try:
            task = conn.recv()
        except EOFError:
            return
        if task is None:
            return
        try:
            r = run_task(task)
        except BaseException:
            r = {
                "task": task,
                "status": "error",
                "note": traceback.format_exc()[-3000:],
                "covers": {},
                "samples": [],
                "funcs": [],
                "prefixes": [],
                "violation": None,
                "stats": {},
                "wall": 0,
            }
        conn.send(r)


class Worker:
    def __init__(self, mode, degraded):
        self.conn, child = mp.Pipe()
        self.proc = mp.get_context("fork").Process(
            target=worker_main, args=(child, mode, degraded), daemon=True
        )
        self.proc.start()
        child.close()
        self.task = None
        self.since = None

    def send(self, task):
        self.task = task
        self.since = time.time()
        self.conn.send(task)

    def kill(self):
        try:
            self.proc.kill()
            self.proc.join(5)
            self.conn.close()
        except Exception:
            pass


class Pool:
    """Runs tasks of one mode; calls on_result(res) -> list of new tasks or None to stop."""

    def __init__(self, mode, degraded=False, n=NPROC):
        self.mode, self.degraded, self.n = mode, degraded, n

    def run(self, tasks, on_result, start_deadline, hard_deadline):
        queue = list(tasks)
        workers = []
        skipped = []
        stop = False
        try:
            while (queue or any(w.task for w in workers)) and not stop:
                now = time.time()
                while queue and now < start_deadline:
                    w = next((w for w in workers if w.task is None), None)
                    if w is None:
                        if len(workers) < self.n:
                            w = Worker(self.mode, self.degraded)
                            workers.append(w)
                        else:
                            break
                    t = queue.pop(0)
                    t.setdefault("deadline", hard_deadline)
                    w.send(t)
                if queue and now >= start_deadline and not any(w.task for w in workers):
                    break
                busy = {w.conn: w for w in workers if w.task}
                for c in wait(list(busy), timeout=1.0):
                    w = busy[c]
                    try:
                        r = c.recv()
                    except (EOFError, OSError):
                        r = None
                    if r is not None and "init_error" in r:
                        # the code under test does not even import when instrumented
                        r = dict(status="unsupported", note=r["init_error"], task=w.task,
                                 covers={}, samples=[], funcs=[], prefixes=[],
                                 violation=None, stats={}, wall=0)
                        w.kill()
                        workers.remove(w)
                    elif r is None:
                        r = dict(status="crashed", note="worker died", task=w.task, covers={},
                                 samples=[], funcs=[], prefixes=[], violation=None, stats={},
                                 wall=0)
                        w.kill()
                        workers.remove(w)
                    else:
                        w.task = None
                    more = on_result(r)
                    if more is None:
                        stop = True
                        break
                    queue[0:0] = more
                for w in list(workers):
                    if w.task and time.time() > max(
                        w.task["deadline"], w.since
                    ) + PATH_ALARM_S + 30:
                        r = dict(status="timeout", note="killed", task=w.task, covers={},
                                 samples=[], funcs=[], prefixes=[], violation=None, stats={},
                                 wall=0)
                        w.kill()
                        workers.remove(w)
                        if on_result(r) is None:
                            stop = True
            skipped = queue
        finally:
            for w in workers:
                w.kill()
        return skipped


# ---------------------------------------------------------------------- concrete replay
def concrete_run(pid, items, timeout=60):
    """Run harnesses on concrete inputs against the plain code, in a fresh interpreter.

    ``items``: list of {harness, shape, inputs}.  Returns a list of results.
    """
    d = tempfile.mkdtemp(prefix="sxreplay")
    try:
        inp = os.path.join(d, "in.json")
        out = os.path.join(d, "out.json")
        with open(inp, "w") as f:
            json.dump({"pid": pid, "items": items}, f)
        try:
            p = subprocess.run(
                [PY, "-B", os.path.join(ROOT, "check.py"), "--concrete", inp, out, d],
                stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
                timeout=timeout,
                cwd=d,
            )
            msg = p.stdout.decode("utf-8", "replace")[-2000:]
        except subprocess.TimeoutExpired:
            msg = "timeout"
        results = []
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    results.append(json.loads(line))
        while len(results) < len(items):
            if len(results) < len(items):
                results.append(
                    {"status": "hang" if msg == "timeout" else "died", "detail": msg}
                )
                if msg == "timeout":
                    msg = "not run (after a hang)"
                    results[-1]["status"] = "hang"
                    while len(results) < len(items):
                        results.append({"status": "notrun", "detail": msg})
        return results
    finally:
        shutil.rmtree(d, ignore_errors=True)


def concrete_main(inp, out, tmp):
    import warnings

    import logging

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    from . import api, loader

    sys.path.insert(0, REPO)
    loader.install(False)
    with open(inp) as f:
        data = json.load(f)
    prop = load_prop(data["pid"])
    with open(out, "w") as f:
        for i, it in enumerate(data["items"]):
            har = prop.harnesses[it["harness"]]
            d = os.path.join(tmp, "t%d" % i)
            os.mkdir(d)
            h = api.H(it["shape"], it["inputs"], d)
            r = {"status": "ok"}
            try:
                har.fn(h, it["shape"])
            except api.Infeasible:
                r = {"status": "infeasible"}
            except api.Skip:
                r = {"status": "skip"}
            except api.ConcreteViolation as e:
                r = {"status": "violation", "label": e.label, "detail": str(e.detail)[:2000]}
            except Exception as e:
                r = {
                    "status": "violation",
                    "label": "uncaught %s" % type(e).__name__,
                    "detail": traceback.format_exc(limit=-6)[-1500:],
                }
            r["covers"] = h.covers
            r["observed"] = h.observed
            f.write(json.dumps(r) + "\n")
            f.flush()
            shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------- driver
def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


class Driver:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.prop = load_prop(pid)
        self.t0 = time.time()
        self.agg = {}
        self.covers = {}
        self.funcs = set()
        self.samples = []
        self.status = {}
        self.violation = None
        self.degrade = []
        self.notes = []
        self.validated = 0
        self.mismatch = 0
        self.findings = [f for f in known_findings() if f["property"] == pid]
        self.hit_findings = {}
        self.shape_status = {}
        self.walls = {}
        self.pending_samples = []

    # -- budgets
    def budgets(self):
        if self.tier == "quick":
            return 45.0, 420.0
        b = float(os.environ.get("VERIF_THOROUGH_S", "1500"))
        return b, b + 300.0

    def key(self, t):
        return t["harness"] + json.dumps(t["shape"], sort_keys=True)

    def run(self):
        soft, hard = self.budgets()
        groups = {}
        for har in self.prop.harnesses.values():
            for sh in har.shapes(self.tier):
                sh = dict(sh)
                opt = sh.pop("_opt", 0)
                split = sh.pop("_split", None)
                nsamples = sh.pop("_samples", None)
                t = {"pid": self.pid, "harness": har.name, "shape": sh, "opt": opt}
                if split:
                    t["split"] = split
                t["nsamples"] = nsamples if nsamples is not None else 2
                groups.setdefault(har.mode(), []).append(t)
        for mode, tasks in groups.items():
            if self.violation:
                break
            core_tasks = [t for t in tasks if not t["opt"]]
            opt_tasks = sorted([t for t in tasks if t["opt"]], key=lambda t: t["opt"])
            sk = Pool(mode).run(
                core_tasks, self.on_result, self.t0 + hard, self.t0 + hard
            )
            self.skip(sk)
            if self.violation:
                break
            if opt_tasks:
                sk = Pool(mode).run(
                    opt_tasks, self.on_result, self.t0 + soft, self.t0 + soft
                )
                self.skip(sk)
        if not self.violation:
            self.flush_samples()
        if not self.violation and self.degrade:
            self.run_degraded(min(hard, (time.time() - self.t0) + (120 if self.tier == "quick" else 600)))
        return self.finish()

    def skip(self, tasks):
        for t in tasks:
            self.shape_status[self.key(t)] = "not explored (time budget)"

    def run_degraded(self, hard):
        tasks = []
        seen = set()
        groups = {}
        for t in self.degrade:
            k = self.key(t)
            if k in seen:
                continue
            seen.add(k)
            t = {k: v for k, v in t.items() if k not in ("prefix", "split", "deadline")}
            t["degraded"] = True
            tasks.append(t)
        per = max(2.0, min(60.0, (self.t0 + hard - time.time()) * NPROC / max(1, len(tasks))))
        end = self.t0 + hard
        pool = Pool((False, (), False), degraded=True)

        def stamp(ts):
            return ts

        # deadlines are assigned at dispatch through a wrapper
        queue = tasks

        def on_result(r):
            self.merge(r)
            k = self.key(r["task"])
            if r["violation"]:
                if self.handle_violation(r) and self.violation:
                    return None
                self.shape_status[k] = "degraded: unreproduced counterexample ignored"
                return []
            self.shape_status[k] = "concretised fallback: %s" % r["status"]
            return []

        i = 0
        while queue and time.time() < end and not self.violation:
            batch, queue = queue[: NPROC * 4], queue[NPROC * 4 :]
            dl = min(end, time.time() + per * 4)
            for t in batch:
                t["deadline"] = dl
            sk = pool.run(batch, on_result, dl, dl)
            self.skip(sk)
        self.skip(queue)

    def merge(self, r):
        for k, v in (r.get("stats") or {}).items():
            self.agg[k] = self.agg.get(k, 0) + v
        for k, v in r["covers"].items():
            self.covers[k] = self.covers.get(k, 0) + v
        self.funcs.update(r["funcs"])
        k = self.key(r["task"])
        self.walls[k] = self.walls.get(k, 0) + r.get("wall", 0)

    def on_result(self, r):
        self.merge(r)
        t = r["task"]
        k = self.key(t)
        if r["violation"]:
            if self.handle_violation(r):
                if self.violation:
                    return None
                # a known finding: finish this shape without the listed failure
                self.shape_status[k] = "known finding"
                return []
            self.notes.append(
                "unreproduced counterexample in %s %s: %s %s"
                % (t["harness"], t["shape"], r["violation"]["label"], r["violation"]["inputs"])
            )
            self.mismatch += 1
            self.degrade.append(t)
            self.shape_status[k] = "encoding mismatch"
            return []
        if r["status"] in ("unsupported", "inconclusive", "error", "crashed", "timeout"):
            self.notes.append(
                "%s in %s %s: %s" % (r["status"], t["harness"], t["shape"], (r["note"] or "")[-600:])
            )
            self.degrade.append(t)
            self.shape_status[k] = r["status"]
            return []
        for s in r["samples"]:
            self.pending_samples.append(
                {"harness": t["harness"], "shape": t["shape"], **s}
            )
        prev = self.shape_status.get(k)
        if prev in (None, "complete"):
            self.shape_status[k] = r["status"]
        more = []
        for p in r["prefixes"]:
            nt = {x: y for x, y in t.items() if x not in ("split", "prefix", "deadline")}
            nt["prefix"] = p
            nt["nsamples"] = 1
            more.append(nt)
        return more

    def flush_samples(self):
        """Replay sampled models of passing paths against the plain code."""
        limit = 300 if self.tier == "quick" else 3000
        todo = self.pending_samples
        if len(todo) > limit:
            step = len(todo) / limit
            todo = [todo[int(i * step)] for i in range(limit)]
        n = max(1, min(NPROC, len(todo) // 8 + 1))
        chunks = [todo[i::n] for i in range(n)]
        import concurrent.futures as cf

        with cf.ThreadPoolExecutor(n) as ex:
            futs = [
                (c, ex.submit(concrete_run, self.pid, [
                    {"harness": s["harness"], "shape": s["shape"], "inputs": s["inputs"]}
                    for s in c], 150))
                for c in chunks if c
            ]
            for c, f in futs:
                for s, r in zip(c, f.result()):
                    self.judge_sample(s, r)
                    if self.violation:
                        return

    def judge_sample(self, s, r):
        if r["status"] == "ok":
            obs = json.loads(json.dumps(s["observed"]))
            if r["covers"] == s["covers"] and r["observed"] == obs:
                self.validated += 1
                if len(self.samples) < 6:
                    self.samples.append(
                        {k: s[k] for k in ("harness", "shape", "inputs", "covers")}
                    )
                return
            self.mismatch += 1
            self.notes.append(
                "trace differs in %s %s %s: symbolic %s %s / real %s %s"
                % (s["harness"], s["shape"], s["inputs"], s["covers"], obs, r["covers"],
                   r["observed"])
            )
            self.degrade.append(
                {"pid": self.pid, "harness": s["harness"], "shape": s["shape"]}
            )
            self.shape_status[self.key(s)] = "encoding mismatch"
        elif r["status"] == "violation" or r["status"] == "hang":
            self.report(s["harness"], s["shape"], s["inputs"], r.get("label", "hang"),
                        r.get("detail", ""))
        elif r["status"] in ("skip", "notrun"):
            pass
        else:
            self.mismatch += 1
            self.notes.append("sample %s: %s" % (r["status"], s))

    def handle_violation(self, r):
        """Replay; True when reproduced on the real code."""
        t, v = r["task"], r["violation"]
        rr = concrete_run(
            self.pid,
            [{"harness": t["harness"], "shape": t["shape"], "inputs": v["inputs"]}],
            timeout=45,
        )[0]
        if rr["status"] == "violation":
            self.report(t["harness"], t["shape"], v["inputs"], rr["label"], rr["detail"])
            return True
        if rr["status"] == "hang" and v["label"] == "does not terminate":
            self.report(t["harness"], t["shape"], v["inputs"], "does not terminate", "")
            return True
        return False

    def report(self, harness, shape, inputs, label, detail):
        for f in self.findings:
            if f["harness"] == harness and f["label"] == label and all(
                shape.get(k) == v for k, v in f.get("shape", {}).items()
            ) and all(inputs.get(k) == v for k, v in f.get("inputs", {}).items()):
                self.hit_findings[f["id"]] = f
                return
        if self.violation:
            return
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.pid, harness))
        with open(path, "w") as f:
            json.dump(
                {
                    "pid": self.pid,
                    "harness": harness,
                    "shape": shape,
                    "inputs": inputs,
                    "label": label,
                    "detail": detail,
                    "how": "python check.py --replay %s" % path,
                },
                f,
                indent=1,
            )
        self.violation = {"label": label, "path": path, "harness": harness, "shape": shape,
                          "inputs": inputs, "detail": detail}

    def finish(self):
        from . import core

        st = {}
        for v in self.shape_status.values():
            st[v] = st.get(v, 0) + 1
        missing = [c for c in self.prop.covers if c not in self.covers]
        cov = {
            "states": self.agg.get("paths", 0),
            "transitions": self.agg.get("forks", 0) + self.agg.get("forced", 0),
            "traces_validated_against_impl": self.validated,
            "samples": self.samples[:6] or ["no passing path was sampled in this run"],
            "meaning": "states = feasible symbolic paths explored (each stands for every input "
            "satisfying its path condition); transitions = branch decisions settled by the "
            "solver; traces = sampled path models re-run on the plain code with the same "
            "verdict, covers and observations",
            "bounds": self.prop.bounds,
            "outside_bounds": self.prop.outside,
            "shapes": len(self.shape_status),
            "shape_status": st,
            "solver": {k: self.agg.get(k, 0) for k in (
                "queries", "checks", "check_queries", "trivial_checks", "forks", "forced",
                "infeasible")},
            "solver_s": round(self.agg.get("solver_s", 0), 2),
            "functions_encoded": sorted(self.funcs),
            "covers": self.covers,
            "covers_missing": missing,
            "encoding_mismatches": self.mismatch,
            "notes": self.notes[:20],
            "exhaustive": all(v == "complete" for v in self.shape_status.values()),
        }
        if self.violation:
            cov["violation"] = self.violation
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": self.prop.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": 1 if self.violation else 0,
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for f in self.hit_findings.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        print(
            "%s %s: %d shapes %s, %d paths, %d queries (%.1f s solver), %d traces validated, %.1f s"
            % (
                self.pid,
                self.tier,
                len(self.shape_status),
                st,
                self.agg.get("paths", 0),
                self.agg.get("queries", 0),
                self.agg.get("solver_s", 0),
                self.validated,
                time.time() - self.t0,
            )
        )
        if os.environ.get("SX_WALLS"):
            for k, w in sorted(self.walls.items(), key=lambda x: -x[1])[:12]:
                print("%8.1f cpu-s  %s  %s" % (w, k, self.shape_status.get(k)))
        if missing:
            print("covers not reached: %s" % missing)
        for n in self.notes[:8]:
            print("note: " + n[:500])
        if self.violation:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violation["path"]))
            print("  %s: %s shape=%s inputs=%s" % (
                self.violation["harness"], self.violation["label"], self.violation["shape"],
                self.violation["inputs"]))
            if self.violation["detail"]:
                print("  " + self.violation["detail"].strip()[-600:])
            return 1
        return 0
