"""Check runner: turns a property module (checks/<id>.py) into quick/thorough runs.

A property module defines SUBS, a list of Sub(name, strategy, prop, quick, thorough, shards, rule).
`prop(case, ctx)` raises Violation when the property does not hold for `case`; `case` is one plain
value built by the hypothesis strategy, so the whole case shrinks and can be saved and replayed.

Outcome rules:
  * Violation, or an exception that escaped from code under /repo on an input the property says is
    valid -> the property is violated (exit 1, VIOLATION line, replay file);
  * any other exception is an error of the harness (exit 2);
  * running out of time is inconclusive (fewer cases are counted), never a violation.
"""
import base64
import collections
import contextlib
import hashlib
import importlib
import io
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback

import boot

VERIF = os.path.dirname(boot.HERE)
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
SOFT_BUDGET = float(os.environ.get("VERIF_BUDGET", "330" if TIER == "quick" else "5400"))
HARD_BUDGET = 820.0 if TIER == "quick" else 7200.0
SHRINK_BUDGET = 75.0 if TIER == "quick" else 300.0
CASE_LIMIT = 120.0      # of processor time, so that a busy machine does not count
CASE_WALL = 700.0


class Violation(AssertionError):
    pass


class Skip(Exception):
    """The case is outside the domain (counted, not evaluated)."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Ctx:
    def __init__(self):
        self.nontrivial = False
        self.labels = []

    def mark(self, cond=True):
        if cond:
            self.nontrivial = True

    def label(self, *names):
        self.labels.extend(str(n) for n in names)


class Sub:
    def __init__(self, name, strategy, prop, quick, thorough=None, shards=1, rule="", exhaustive=None,
                 tshards=None):
        self.name = name
        self.strategy = strategy
        self.prop = prop
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 8
        self.shards = shards
        self.tshards = tshards if tshards is not None else max(shards, 4)
        self.rule = rule
        self.exhaustive = exhaustive  # a function returning a list of cases, run instead of a search

    def plan(self):
        if TIER == "quick":
            return self.shards, max(1, -(-self.quick // self.shards))
        return self.tshards, max(1, -(-self.thorough // self.tshards))


# ---------------------------------------------------------------- determinism

_REAL_SYSTEM_RANDOM = random.SystemRandom
_sys_rng = random.Random(0)


class SeededSystemRandom(random.Random):
    """Stands in for random.SystemRandom so that a case is a pure function of its input."""

    def __init__(self, *a):
        super().__init__(_sys_rng.getrandbits(256))

    def seed(self, *a, **k):
        if a and isinstance(a[0], int):
            super().seed(a[0])


def real_system_random():
    random.SystemRandom = _REAL_SYSTEM_RANDOM


def case_blob(case):
    return pickle.dumps(case, protocol=4)


def case_digest(case):
    try:
        return hashlib.sha256(repr(case).encode()).hexdigest()
    except Exception:
        return hashlib.sha256(case_blob(case)).hexdigest()


def reset_randomness(case):
    import numpy as np
    h = int(case_digest(case)[:15], 16)
    random.seed(h)
    np.random.seed(h & 0xFFFFFFFF)
    _sys_rng.seed(h ^ 0x5EED)
    random.SystemRandom = SeededSystemRandom


def derived_seed(*parts):
    return int(hashlib.sha256("/".join(map(str, parts)).encode()).hexdigest()[:12], 16)


# ---------------------------------------------------------------- one case

def frames_in_repo(tb):
    return any(boot.in_repo(f.filename) for f in traceback.extract_tb(tb))


def chain_in_repo(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if frames_in_repo(e.__traceback__):
            return True
        e = getattr(e, "vf_cause", None) or e.__cause__ or e.__context__
    return False


class HarnessError(Exception):
    pass


def run_case(sub, case):
    """-> (ctx, None | message).  Raises HarnessError for errors of the harness."""
    ctx = Ctx()
    reset_randomness(case)
    try:
        sub.prop(case, ctx)
        return ctx, None
    except Skip:
        ctx.labels.append("skipped")
        return ctx, "skip"
    except Violation as e:
        return ctx, "%s" % (e,)
    except KeyboardInterrupt:
        raise
    except Exception as e:
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
        if chain_in_repo(e):
            return ctx, "unexpected %s from the code under test: %s\n%s" % (type(e).__name__, e, text)
        raise HarnessError(text)


class StopShrinking(KeyboardInterrupt):
    pass


# ---------------------------------------------------------------- hang detection

class HangWatch:
    """A case that uses CASE_LIMIT seconds of processor time is examined: if code under /repo is on some thread's
    stack and keeps taking loop back-edges in one place, it is reported as non-termination."""

    def __init__(self, on_hang):
        self.on_hang = on_hang
        self.counts = collections.Counter()
        self.phase = 0

    def start_case(self):
        self.phase = 0
        self.cpu, self.wall = time.process_time(), time.time()
        signal.signal(signal.SIGALRM, self._alarm)
        signal.setitimer(signal.ITIMER_REAL, 60.0)

    def end_case(self):
        signal.setitimer(signal.ITIMER_REAL, 0)

    def _alarm(self, *_):
        cpu, wall = time.process_time() - self.cpu, time.time() - self.wall
        if self.phase == 0 and cpu < CASE_LIMIT and wall < CASE_WALL and (wall < 90 or cpu > 2):
            signal.setitimer(signal.ITIMER_REAL, min(30.0, max(2.0, CASE_LIMIT - cpu)))
        elif self.phase == 0:
            self.phase = 1
            self.slow = cpu < CASE_LIMIT    # blocked or starved rather than looping
            mon = sys.monitoring
            try:
                mon.use_tool_id(4, "hang")
            except ValueError:
                pass
            E = mon.events

            def cb(code, a, b):
                if b >= a or not boot.in_repo(code.co_filename):
                    return mon.DISABLE
                self.counts[(code.co_filename, code.co_name, a)] += 1

            mon.register_callback(4, E.JUMP, cb)
            mon.register_callback(4, E.BRANCH, cb)
            mon.set_events(4, E.JUMP | E.BRANCH)
            mon.restart_events()
            signal.setitimer(signal.ITIMER_REAL, 20.0)
        else:
            where = ""
            for f in sys._current_frames().values():
                st = traceback.extract_stack(f)
                if any(boot.in_repo(x.filename) for x in st):
                    where += "".join(traceback.format_list(st[-6:])) + "\n"
            top = self.counts.most_common(1)
            self.on_hang(where, None if self.slow else top)


# ---------------------------------------------------------------- one worker (sub, shard)

def worker(modname, subname, shard, ncases, seed, deadline, outpath):
    out = {"sub": subname, "shard": shard, "evaluations": 0, "nontrivial": set(), "distinct": set(),
           "labels": collections.Counter(), "samples": [], "failure": None, "error": None,
           "skipped": 0, "unrun": 0, "seed": seed}

    def flush():
        with open(outpath + ".tmp", "wb") as fh:
            pickle.dump(out, fh)
        os.replace(outpath + ".tmp", outpath)

    current = {"case": None}

    def on_hang(where, top):
        if where and top and top[0][1] >= 200:
            out["failure"] = {"case": current["case"], "msg":
                              "no termination: after %.0f s the code under test still loops (%d loop turns in 20 s at %s)\n%s"
                              % (CASE_LIMIT, top[0][1], top[0][0], where), "flaky": False}
        else:
            out["error"] = "inconclusive: one case ran for more than %.0f s\n%s" % (CASE_LIMIT + 20, where)
        flush()
        os._exit(0)

    watch = HangWatch(on_hang)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    try:
        mod = importlib.import_module(modname)
        sub = {s.name: s for s in mod.SUBS}[subname]
        best = {"case": None, "msg": None, "size": None, "t0": None}

        def record_failure(case, msg):
            size = len(case_blob(case))
            if best["t0"] is None:
                best["t0"] = time.time()
            if best["size"] is None or size <= best["size"]:
                best.update(case=case, msg=msg, size=size)

        def one(case):
            if time.time() > deadline and best["t0"] is None:
                out["unrun"] += 1
                return
            current["case"] = case
            watch.start_case()
            try:
                ctx, msg = run_case(sub, case)
            finally:
                watch.end_case()
            if msg == "skip":
                out["skipped"] += 1
                return
            out["evaluations"] += 1
            d = case_digest(case)[:16]
            out["distinct"].add(d)
            out["labels"].update(set(ctx.labels))
            if ctx.nontrivial:
                if d not in out["nontrivial"] and len(out["samples"]) < 3:
                    r = repr(case)
                    out["samples"].append(r if len(r) < 700 else r[:700] + "...")
                out["nontrivial"].add(d)
            if msg is not None:
                record_failure(case, msg)
                if time.time() - best["t0"] > SHRINK_BUDGET:
                    raise StopShrinking()
                raise Violation(msg)
            if best["t0"] is not None and time.time() - best["t0"] > SHRINK_BUDGET:
                raise StopShrinking()

        if sub.exhaustive is not None:
            cases = sub.exhaustive()
            for i, case in enumerate(cases):
                if i % ncases["of"] != shard:
                    continue
                try:
                    one(case)
                except Violation:
                    break
        else:
            import hypothesis
            from hypothesis import given, settings, HealthCheck, Phase

            @hypothesis.seed(seed)
            @settings(max_examples=ncases["n"], database=None, deadline=None, derandomize=False,
                      phases=(Phase.generate, Phase.shrink), print_blob=False,
                      report_multiple_bugs=False,
                      suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                             HealthCheck.large_base_example])
            @given(sub.strategy)
            def test(case):
                one(case)

            try:
                test()
            except StopShrinking:
                pass
            except HarnessError:
                raise
            except BaseException as e:
                if best["case"] is None:
                    raise
        if best["t0"] is not None:
            ctx, msg = run_case(sub, best["case"])
            out["failure"] = {"case": best["case"], "msg": best["msg"], "flaky": msg is None or msg == "skip"}
    except HarnessError as e:
        out["error"] = str(e)
    except BaseException:
        out["error"] = traceback.format_exc()
    flush()


# ---------------------------------------------------------------- parent

def load(pid):
    boot.install()
    with contextlib.redirect_stdout(io.StringIO()):
        return importlib.import_module("checks." + pid.lower())


def save_replay(pid, sub, failure, seed, shard, dirname):
    os.makedirs(dirname, exist_ok=True)
    path = os.path.join(dirname, "%s-%s.json" % (pid, "".join(c if c.isalnum() else "-" for c in sub)))
    with open(path, "w") as fh:
        json.dump({"property": pid, "sub": sub, "message": failure["msg"], "case": repr(failure["case"])[:20000],
                   "case_pickle": base64.b64encode(case_blob(failure["case"])).decode(),
                   "flaky": failure["flaky"], "seed": seed, "shard": shard, "tier": TIER,
                   "how": "bash /verif/check.sh %s --replay %s" % (pid, path)}, fh, indent=1)
    return path


def known_findings(pid):
    """known_findings.txt: "known: property=<id> key=<key> <what fails>" and
    "fixed: property=<id> <commit> <what failed>" (the latter suppress nothing)."""
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                parts = line.strip().split(" ", 3)
                if len(parts) == 4 and parts[0] == "known:" and parts[1] == "property=" + pid:
                    res.append({"key": parts[2].split("=", 1)[1], "what": parts[3]})
    return res


def run(pid, only=None, scratch=None):
    t0 = time.time()
    mod = load(pid)
    import multiprocessing as mp
    mpc = mp.get_context("fork")
    tmp = scratch or tempfile.mkdtemp(prefix="vf_")
    deadline = t0 + SOFT_BUDGET
    tasks = []
    for s in mod.SUBS:
        if only and s.name not in only:
            continue
        shards, n = s.plan()
        for k in range(shards):
            tasks.append((s, k, {"n": n, "of": shards}))
    tasks.sort(key=lambda t: t[1])
    pending = list(tasks)
    running = []
    results = []
    ncpu = min(8, os.cpu_count() or 2)
    stop = False
    idx = 0
    while (pending and not stop) or running:
        while pending and not stop and len(running) < ncpu:
            s, k, n = pending.pop(0)
            outpath = os.path.join(tmp, "r%d.pkl" % idx)
            idx += 1
            seed = derived_seed(SEED, pid, s.name, k)
            p = mpc.Process(target=worker, args=(mod.__name__, s.name, k, n, seed, deadline, outpath))
            p.start()
            running.append((p, s, k, outpath))
        time.sleep(0.02)
        still = []
        for p, s, k, outpath in running:
            if p.is_alive() and time.time() - t0 < HARD_BUDGET:
                still.append((p, s, k, outpath))
                continue
            if p.is_alive():
                p.kill()
            p.join()
            if os.path.exists(outpath):
                with open(outpath, "rb") as fh:
                    results.append(pickle.load(fh))
            else:
                results.append({"sub": s.name, "shard": k, "evaluations": 0, "nontrivial": set(), "distinct": set(),
                                "labels": {}, "samples": [], "failure": None, "skipped": 0, "unrun": 0, "seed": 0,
                                "error": "worker ended with code %s and no result" % p.exitcode})
            if results[-1]["failure"]:
                stop = True
        running = still
        if stop and running:
            # one violation decides the check: let the others finish only briefly
            for p, s, k, outpath in running:
                p.join(0.5)
                if p.is_alive():
                    p.kill()
                    p.join()
            running = []

    known_lines = []
    probe_error = None
    if not only:
        for e in known_findings(pid):
            probe = getattr(mod, "KNOWN", {}).get(e["key"])
            if probe is None:
                probe_error = "known finding %s has no probe" % e["key"]
                continue
            reset_randomness(e["key"])
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    still_fails = probe()
            except Exception:
                probe_error = traceback.format_exc()
                continue
            if still_fails:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
            else:
                print("note: listed finding no longer reproduces: %s" % e["key"])

    ev = summarise(pid, mod, results, time.time() - t0)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, "%s.json" % pid), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    for line in known_lines:
        print(line)
    fails = [r for r in results if r["failure"]]
    for r in fails[:1]:
        path = save_replay(pid, r["sub"], r["failure"], r["seed"], r["shard"], os.path.join(evdir, "replays"))
        print("sub-check %s: %s" % (r["sub"], r["failure"]["msg"]))
        print("minimal case: %s" % (repr(r["failure"]["case"])[:3000],))
        if r["failure"]["flaky"]:
            print("(the failure depends on earlier cases of the same run; replay repeats the whole run)")
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if not scratch:
        shutil.rmtree(tmp, ignore_errors=True)
    c = ev["coverage"]
    print("%s tier=%s seed=%d evaluations=%d nontrivial=%d wall=%.1fs" %
          (pid, TIER, SEED, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"]))
    for k, v in sorted(c["by_sub"].items()):
        print("   %-28s eval=%d nontrivial=%d skipped=%d unrun=%d labels=%s"
              % (k, v["evaluations"], v["distinct_nontrivial"], v["skipped"], v["not_run_for_time"], v["labels"]))
    if fails:
        return 1
    errs = [r for r in results if r["error"]]
    for r in errs:
        print("ERROR in %s/%d: %s" % (r["sub"], r["shard"], r["error"]))
    if probe_error:
        print("ERROR in known-finding probe: %s" % probe_error)
    if errs or probe_error:
        return 2
    for s in mod.SUBS:
        if only and s.name not in only:
            continue
        if not sum(r["evaluations"] for r in results if r["sub"] == s.name):
            print("ERROR: sub-check %s evaluated nothing" % s.name)
            return 2
    return 0


def summarise(pid, mod, results, wall):
    by = {}
    samples = []
    for s in mod.SUBS:
        rs = [r for r in results if r["sub"] == s.name]
        if not rs:
            continue
        labels = collections.Counter()
        non = set()
        dist = set()
        for r in rs:
            labels.update(r["labels"])
            non |= r["nontrivial"]
            dist |= r["distinct"]
        by[s.name] = {"evaluations": sum(r["evaluations"] for r in rs), "distinct": len(dist),
                      "distinct_nontrivial": len(non), "skipped": sum(r["skipped"] for r in rs),
                      "not_run_for_time": sum(r["unrun"] for r in rs), "labels": dict(sorted(labels.items())),
                      "rule": s.rule}
        for r in rs[:1]:
            for x in r["samples"][:2]:
                samples.append({"sub": s.name, "case": x})
    return {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": sum(v["evaluations"] for v in by.values()),
            "distinct_nontrivial": sum(v["distinct_nontrivial"] for v in by.values()),
            "rule": " | ".join("%s: %s" % (k, v["rule"]) for k, v in by.items()),
            "samples": samples, "by_sub": by,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": sum(1 for r in results if r["failure"]),
    }


def replay(pid, path):
    mod = load(pid)
    with open(path) as fh:
        rec = json.load(fh)
    sub = {s.name: s for s in mod.SUBS}[rec["sub"]]
    if rec.get("flaky"):
        return run(pid, only=[rec["sub"]])
    case = pickle.loads(base64.b64decode(rec["case_pickle"]))
    with contextlib.redirect_stdout(io.StringIO()):
        ctx, msg = run_case(sub, case)
    if msg is None or msg == "skip":
        print("replay: the property holds for the saved case")
        return 0
    print(msg)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def main(argv):
    pid = argv[0].upper()
    cwd = tempfile.mkdtemp(prefix="vf_cwd_")
    os.chdir(cwd)
    try:
        if len(argv) > 2 and argv[1] == "--replay":
            return replay(pid, argv[2])
        only = argv[2].split(",") if len(argv) > 2 and argv[1] == "--only" else None
        return run(pid, only)
    finally:
        os.chdir("/")
        shutil.rmtree(cwd, ignore_errors=True)
