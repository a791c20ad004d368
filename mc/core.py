"""Check runner: job pool, watchdogs, violations, known findings, evidence."""
import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known-findings.txt")
REPLAYS = os.path.join(HERE, "replays")


class Hang(BaseException):
    """the code under test did not come back"""


class StopJob(BaseException):
    pass


def known_findings():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                f = line[len("finding:"):].split(None, 2)
                prop = f[0].split("=", 1)[1]
                key = f[1].split("=", 1)[1]
                out[(prop, key)] = f[2] if len(f) > 2 else ""
    return out


class Ctx(object):
    """what a job gets: counters, guards and the way to report"""

    def __init__(self, prop, tier, seed, job, known):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.job = job
        self.known = known
        self.states = set()
        self.nstates = 0          # states counted by explorers (distinct by construction)
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.fails = []
        self.known_hit = {}
        self.notes = {}
        self.spawned = []
        self.outcomes = {}
        self.capped = False
        self.replay = None
        self.max_fails = 3
        self._t0 = time.time()
        self.deadline = None

    # -- counting
    def state(self, key):
        try:
            h = hash(key)
        except TypeError:
            h = hash(repr(key))
        self.states.add(h)

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def note(self, k, v):
        self.notes[k] = v

    def spawn(self, func, *args):
        self.spawned.append((func, args))

    def outcome(self, key):
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def tidy(self):
        """collect the garbage of a long job from time to time (the collector is off, so that it never runs within the code under test)"""
        self._tidy = getattr(self, "_tidy", 0) + 1
        if self._tidy % 2000 == 0:
            gc.collect()

    def out_of_time(self):
        return self.deadline is not None and time.time() > self.deadline

    # -- reporting
    def fail(self, what, case=None, key=None, extra=None):
        """report a violation; `key` identifies the failing input/history for the known-findings file"""
        if key is not None and (self.prop, key) in self.known:
            self.known_hit[key] = self.known[(self.prop, key)]
            return
        self.fails.append({"what": what, "case": case, "key": key, "extra": extra, "job": self.job})
        if len(self.fails) >= self.max_fails:
            raise StopJob()

    def check(self, cond, what, case=None, key=None):
        if not cond:
            self.fail(what, case, key)
        return cond

    # -- watchdog for code that runs in the job's own thread
    def guard(self, what="call", cpu=20, wall=200):
        return _Guard(self, what, cpu, wall)


class _Guard(object):
    def __init__(self, ctx, what, cpu, wall):
        self.ctx, self.what, self.cpu, self.wall = ctx, what, cpu, wall

    def __enter__(self):
        def onsig(sig, frame):
            raise Hang("%s did not return (%s)" % (self.what, "".join(traceback.format_stack(frame)[-3:])))
        self.old = (signal.signal(signal.SIGPROF, onsig), signal.signal(signal.SIGALRM, onsig))
        signal.setitimer(signal.ITIMER_PROF, self.cpu)
        signal.setitimer(signal.ITIMER_REAL, self.wall)
        return self

    def again(self, what=None):
        if what is not None:
            self.what = what
        signal.setitimer(signal.ITIMER_PROF, self.cpu)
        signal.setitimer(signal.ITIMER_REAL, self.wall)

    def __exit__(self, et, ev, tb):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGPROF, self.old[0])
        signal.signal(signal.SIGALRM, self.old[1])
        return False


def _result(ctx, ok=True, error=None):
    return {"states": ctx.states, "nstates": ctx.nstates, "transitions": ctx.transitions, "traces": ctx.traces,
            "samples": ctx.samples, "fails": ctx.fails, "known": ctx.known_hit, "notes": ctx.notes,
            "spawned": ctx.spawned, "outcomes": ctx.outcomes, "capped": ctx.capped, "error": error,
            "job": ctx.job}


def run_job(modname, func, args, ctx):
    mod = importlib.import_module(modname)
    error = None
    try:
        getattr(mod, func)(ctx, *args)
    except StopJob:
        pass
    except Hang as e:
        ctx.max_fails = 10 ** 9
        ctx.fail("does not terminate: %s" % e)
    except Exception as e:
        error = traceback.format_exc()
        frame = _repo_frame(e)
        if frame:
            # an error out of the code under test which no check expected
            ctx.max_fails = 10 ** 9
            ctx.fail("unexpected %r raised in %s" % (e, frame), {"traceback": error[-1500:]})
            error = None
    return _result(ctx, error=error)


def _repo_frame(e):
    from . import loader
    base = os.path.join(loader.REPO, loader.PKG) + os.sep
    hit = None
    for fr in traceback.extract_tb(e.__traceback__):
        if fr.filename.startswith(base):
            hit = "%s:%d %s" % (os.path.basename(fr.filename), fr.lineno, fr.name)
    return hit


def _worker(conn, modname, prop, tier, seed, known, deadline):
    gc.disable()
    sys.setswitchinterval(0.0005)
    try:
        importlib.import_module(modname)
        while True:
            msg = conn.recv()
            if msg is None:
                break
            func, args = msg
            ctx = Ctx(prop, tier, seed, [func, list(args)], known)
            ctx.deadline = deadline
            res = run_job(modname, func, args, ctx)
            conn.send(res)
            gc.collect()
    except (EOFError, KeyboardInterrupt):
        pass
    finally:
        sys.stdout.flush()
        os._exit(0)


class Runner(object):
    def __init__(self, modname, prop, tier, seed):
        self.modname, self.prop, self.tier, self.seed = modname, prop, tier, seed
        self.known = known_findings()
        self.t0 = time.time()
        self.budget = float(os.environ.get("MC_BUDGET", "420" if tier == "quick" else "5400"))
        self.acc = {"states": set(), "nstates": 0, "transitions": 0, "traces": 0, "samples": [], "fails": [],
                    "known": {}, "notes": {}, "outcomes": {}, "capped": False, "errors": [], "jobs": 0}

    def merge(self, r):
        a = self.acc
        a["states"] |= r["states"]
        for k in ("nstates", "transitions", "traces"):
            a[k] += r[k]
        for s in r["samples"]:
            if len(a["samples"]) < 6:
                a["samples"].append(s)
        a["fails"].extend(r["fails"])
        a["known"].update(r["known"])
        for k, v in r["notes"].items():
            if isinstance(v, (int, float)) and not isinstance(v, bool) and k in a["notes"]:
                a["notes"][k] = max(a["notes"][k], v) if k.startswith("max_") else a["notes"][k] + v
            else:
                a["notes"][k] = v
        for k, v in r["outcomes"].items():
            a["outcomes"][k] = a["outcomes"].get(k, 0) + v
        a["capped"] = a["capped"] or r["capped"]
        if r["error"]:
            a["errors"].append((r["job"], r["error"]))
        a["jobs"] += 1

    def run(self, jobs, nworkers=None):
        nworkers = nworkers or int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
        ctxm = mp.get_context("fork")
        queue = list(jobs)
        random.Random(self.seed).shuffle(queue) if len(queue) > 64 else None
        deadline = self.t0 + self.budget
        workers = {}

        def start():
            a, b = ctxm.Pipe()
            p = ctxm.Process(target=_worker, args=(b, self.modname, self.prop, self.tier, self.seed, self.known, deadline))
            p.daemon = True
            p.start()
            b.close()
            workers[a] = [p, None]
            return a
        idle = [start() for _ in range(min(nworkers, max(1, len(queue))))]
        stop = False
        while True:
            if not stop and time.time() > deadline:
                stop = True
                if queue:
                    self.acc["capped"] = True
                    self.acc["notes"]["jobs_not_run"] = len(queue)
            while queue and not stop and (idle or len(workers) < nworkers):
                if not idle:
                    idle.append(start())
                c = idle.pop()
                j = queue.pop(0)
                workers[c][1] = j
                try:
                    c.send(j)
                except (BrokenPipeError, OSError):
                    workers[c][0].join(1)
                    del workers[c]
                    queue.insert(0, j)
            busy = [c for c in workers if workers[c][1] is not None]
            if not busy:
                break
            for c in mpc.wait(busy, timeout=5):
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    p, j = workers.pop(c)
                    p.join(1)
                    self.acc["errors"].append((j, "worker died (exit code %s)" % p.exitcode))
                    continue
                workers[c][1] = None
                idle.append(c)
                self.merge(r)
                if r.get("spawned"):
                    queue = list(r["spawned"]) + queue
                if self.acc["fails"]:
                    stop = True
            if stop and self.acc["fails"]:
                # give running jobs a moment, then leave
                t = time.time() + 2
                while time.time() < t and any(w[1] is not None for w in workers.values()):
                    for c in mpc.wait([c for c in workers if workers[c][1] is not None], timeout=0.2):
                        try:
                            self.merge(c.recv())
                        except (EOFError, OSError):
                            pass
                        workers[c][1] = None
                break
        for c, (p, j) in workers.items():
            if j is None:
                try:
                    c.send(None)
                except OSError:
                    pass
        for c, (p, j) in workers.items():
            if j is not None:
                p.kill()
            p.join(3)
            if p.is_alive():
                p.kill()

    def finish(self, level_note_bounds=None):
        a = self.acc
        if a["errors"] and not a["fails"]:
            for j, e in a["errors"][:3]:
                sys.stdout.write("CHECK-ERROR %s job=%r\n%s\n" % (self.prop, j, e))
        seen = set()
        n = 0
        for key, what in sorted(a["known"].items()):
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, what, key))
        paths = []
        for f in a["fails"]:
            sig = (f["key"] or "", f["what"][:160])
            if sig in seen:
                continue
            seen.add(sig)
            n += 1
            if n > 8:
                continue
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "%s-%d.json" % (self.prop, n))
            f = dict(f, property=self.prop, tier=self.tier, module=self.modname)
            with open(path, "w") as fh:
                json.dump(f, fh, indent=1, default=repr)
            paths.append(path)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  what: %s" % f["what"])
            print("  case: %s" % (json.dumps(f["case"], default=repr)[:600]))
        cov = {"states": len(a["states"]) + a["nstates"], "transitions": a["transitions"],
               "traces_validated_against_impl": a["traces"], "samples": a["samples"],
               "exhaustive": not a["capped"] and not a["errors"] and not a["fails"], "jobs": a["jobs"],
               "distinct_outcomes": len(a["outcomes"]),
               "outcomes": dict(sorted(a["outcomes"].items(), key=lambda kv: -kv[1])[:12])}
        cov.update(a["notes"])
        if level_note_bounds:
            cov["bounds"] = level_note_bounds
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": n}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=repr)
        print("%s %s: states=%d transitions=%d traces=%d outcomes=%d jobs=%d wall=%.1fs rss=%dM%s%s" % (
            self.prop, self.tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
            len(a["outcomes"]), a["jobs"], ev["wall_s"], resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss >> 10, " CAPPED" if a["capped"] else "",
            " VIOLATIONS=%d" % n if n else ""))
        if n:
            return 1
        if a["errors"]:
            return 2
        return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--job", help="run only jobs whose name contains this text")
    ap.add_argument("--workers", type=int)
    o = ap.parse_args(argv)
    tier = o.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    prop = o.prop.upper()
    modname = "checks." + prop.lower()
    sys.path.insert(0, HERE)
    mod = importlib.import_module(modname)
    if o.replay:
        with open(o.replay) as fh:
            d = json.load(fh)
        ctx = Ctx(prop, d.get("tier", tier), seed, d["job"], {})
        ctx.replay = d
        ctx.max_fails = 1
        gc.disable()
        r = run_job(modname, d["job"][0], [_tup(x) for x in d["job"][1]], ctx)
        for f in r["fails"]:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(o.replay)))
            print("  what: %s\n  case: %s" % (f["what"], json.dumps(f["case"], default=repr)))
        if r["error"]:
            print(r["error"])
        if not r["fails"]:
            print("replay: no violation")
        return 1 if r["fails"] else 0
    runner = Runner(modname, prop, tier, seed)
    try:
        jobs = mod.jobs(tier, seed)
    except Exception:
        traceback.print_exc()
        jobs = []
        runner.acc["errors"].append(("jobs", traceback.format_exc()))
    if o.job:
        jobs = [j for j in jobs if o.job in repr(j)]
    runner.run(jobs, o.workers)
    return runner.finish(getattr(mod, "BOUNDS", None))


def _tup(x):
    return tuple(_tup(i) for i in x) if isinstance(x, list) else x
