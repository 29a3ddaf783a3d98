"""check <property> | replay <file> : the parent process. It never imports the library."""
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import simos
from .core import derive

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
HASHSEEDS = 8

BUDGET = {       # runs: (quick, thorough); quick takes about a minute and a half at most on 8 idle cores
    "C01": (24000, 240000), "C04": (12000, 200000), "C07": (9000, 120000), "C09": (15000, 250000),
    "C11": (20000, 200000), "C17": (6000, 80000), "C19": (12000, 120000),
}
FLEETS = {       # properties about several interpreters: their configurations
    "C17": [{},
            {"PYTHONOPTIMIZE": "2", "TZ": "Asia/Kathmandu", "LANG": "de_DE.UTF-8", "HOME": "/nonexistent", "USER": "someone"},
            {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONMALLOC": "malloc", "TZ": "America/St_Johns"},
            {"PYTHONMALLOC": "debug", "PYTHONNODEBUGRANGES": "1", "PYTHONUNBUFFERED": "1", "CI": "true", "HOSTNAME": "elsewhere"}],
}
SOFT = {"quick": 480, "thorough": 3000}     # seconds after which no new run is started
MIN_DONE = .25                              # with fewer of the runs done, the check has no answer


class Worker:
    """One zygote process with a given hash seed."""

    def __init__(self, prop, hashseed, shim, scratch, config=None):
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON") and k != "LD_PRELOAD"}
        env.update(PYTHONHASHSEED=str(hashseed), PYTHONPATH=":".join((os.environ.get("VERIF_REPO", "/repo"), ROOT)),
                   PYTHONDONTWRITEBYTECODE="1", LD_PRELOAD=shim, TZ="UTC", DST_SCRATCH=scratch,
                   DST_SHIM=shim, LC_ALL="C.UTF-8")
        env.update(config or {})
        self.hashseed = hashseed
        self.p = subprocess.Popen([PY, "-m", "dst.worker", prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=env, cwd=scratch, text=True)
        self.lock = threading.Lock()
        line = self.p.stdout.readline()
        first = json.loads(line) if line else {}
        if "ready" not in first:
            raise HarnessError("worker did not start: %s" % (first.get("fatal") or line))

    def ask(self, cmd):
        with self.lock:
            self.send(cmd)
            return self.receive()

    def send(self, cmd):
        try:
            self.p.stdin.write(json.dumps(cmd) + "\n")
            self.p.stdin.flush()
        except OSError as e:
            raise HarnessError("worker died: %s" % e)

    def receive(self):
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError("worker died (exit %s)" % self.p.poll())
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()


def open_workers(makers):
    """Start several at once; all of them, or none."""
    made, errs = [None] * len(makers), []

    def start(i):
        try:
            made[i] = makers[i]()
        except Exception as e:
            errs.append(e)
    ths = [threading.Thread(target=start, args=(i,)) for i in range(len(makers))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errs:
        for w in made:
            if w is not None:
                w.close()
        raise errs[0]
    return made


class Fleet:
    """Interpreters that differ in everything but the property's inputs; they must agree."""

    def __init__(self, prop, hashseed, shim, scratch, configs):
        self.prop, self.hashseed = prop, hashseed
        self.lanes = open_workers([
            lambda i=i, c=c: Worker(prop, derive(hashseed, "lane", i) % (2 ** 32), shim, scratch, c)
            for i, c in enumerate(configs)])

    def ask(self, cmd):
        for i, w in enumerate(self.lanes):
            w.send({**cmd, "lane": i})
        rs = [w.receive() for w in self.lanes]
        for r in rs:
            if "error" in r or r.get("timeout"):
                return r
        out = dict(rs[0])
        out["digest"] = "%016x" % derive(*[r.get("digest") for r in rs])
        out["stats"], out["sets"] = {}, {}
        for r in rs:
            for k, v in r["stats"].items():
                out["stats"][k] = out["stats"].get(k, 0) + v
            for k, v in r["sets"].items():
                out["sets"][k] = sorted(set(out["sets"].get(k, ())) | set(v))
            if "violation" in r and "violation" not in out:
                out["violation"], out["plan"] = r["violation"], r["plan"]
        if "violation" in out:
            return out
        for i, r in enumerate(rs[1:], 1):
            if r.get("values") != rs[0].get("values"):
                a, b = rs[0].get("values"), r.get("values")
                if a is None or b is None:
                    n, x, y = None, a, b
                else:
                    n = next((j for j, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
                    x, y = (a + ["(none)"])[n], (b + ["(none)"])[n]
                out["violation"] = {
                    "class": self.prop + ":interpreters",
                    "msg": "two interpreters gave different values for the same seed and schemas",
                    "detail": {"position": n, "one": str(x)[:400], "other": str(y)[:400],
                               "hash_seeds": "%d, %d" % (self.lanes[0].hashseed, self.lanes[i].hashseed)}}
                if "plan" not in cmd:
                    out["plan"] = self.lanes[0].ask({**cmd, "lane": 0, "want_plan": True})["plan"]
                else:
                    out["plan"] = cmd["plan"]
                break
        return out

    def close(self):
        for w in self.lanes:
            w.close()


class HarnessError(Exception):
    pass


def hashseeds(seed):
    return [derive(seed, "hash", i) % (2 ** 32) for i in range(HASHSEEDS)]


def open_worker(prop, hashseed, shim, scratch):
    """Start a zygote; if the library cannot even be imported, say so as an error."""
    configs = FLEETS.get(prop)
    if configs:
        return Fleet(prop, hashseed, shim, scratch, configs)
    return Worker(prop, hashseed, shim, scratch)


class Batch:
    def __init__(self, prop, tier, seed, scratch, shim):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch, self.shim = scratch, shim
        self.stats, self.sets, self.samples = {}, {}, []
        self.done = self.skipped = 0
        self.violations = []
        self.errors = []
        self.undecided = []
        self.stop = False
        self.lock = threading.Lock()

    def absorb(self, idx, res):
        with self.lock:
            if res.get("crashed") and self.stats.get("interpreter_crashes", 0) < 3:
                # CPython itself died (3.12 is not sound under threads + tracing): not an answer
                self.stats["interpreter_crashes"] = self.stats.get("interpreter_crashes", 0) + 1
                return
            if "slow" in res:
                self.undecided.append((idx, res["slow"]))
                return
            if "error" in res:
                self.errors.append((idx, res["error"]))
                return
            self.done += 1
            if "skip" in res:
                self.skipped += 1
            for k, v in res.get("stats", {}).items():
                self.stats[k] = self.stats.get(k, 0) + v
            for k, v in res.get("sets", {}).items():
                self.sets.setdefault(k, set()).update(v)
            if res.get("sample") is not None and len(self.samples) < 400:
                self.samples.append((idx, res["sample"]))

    def run_range(self, n, deadline, stop_on=1):
        seeds = hashseeds(self.seed)
        workers = []
        try:
            with_threads = []
            workers += open_workers([lambda h=h: open_worker(self.prop, h, self.shim, self.scratch) for h in seeds])

            def drive(w, lane):
                for idx in range(lane, n, len(workers)):
                    if self.stop or time.monotonic() > deadline:
                        return
                    try:
                        res = self.one(w, idx)
                    except HarnessError as e:
                        with self.lock:
                            self.errors.append((idx, str(e)))
                        return
                    self.absorb(idx, res)
                    if "violation" in res:
                        with self.lock:
                            self.violations.append((idx, w.hashseed, res))
                            if len(self.violations) >= stop_on:
                                self.stop = True
            for lane, w in enumerate(workers):
                t = threading.Thread(target=drive, args=(w, lane))
                t.start()
                with_threads.append(t)
            for t in with_threads:
                t.join()
        finally:
            for w in workers:
                w.close()

    def one(self, w, idx):
        cmd = {"id": idx, "seed": derive(self.seed, self.prop, idx), "tier": self.tier, "timeout": 20}
        res = w.ask(cmd)
        if res.get("timeout"):
            # decide by counted steps, not by the wall clock
            res = w.ask({**cmd, "step_check": True, "timeout": 120})
            if res.get("timeout"):
                return {"slow": "run %d exceeded its wall-clock cap twice" % idx}
            if "violation" in res:
                res["step_check"] = True
            else:
                res.setdefault("stats", {})["slow_runs"] = 1
        return res


# --------------------------------------------------------------------------- minimisation

def minimise(batch, hashseed, res, seconds=60, limit=1500):
    """Greedy: keep any simpler plan that fails in the same way."""
    import importlib
    from .worker import SCENARIOS
    scen = importlib.import_module("." + SCENARIOS[batch.prop], "dst")
    w = open_worker(batch.prop, hashseed, batch.shim, batch.scratch)
    cls = res["violation"]["class"]
    plan, tries, kept = res["plan"], 0, 0
    t0 = time.monotonic()
    sc = bool(res.get("step_check"))
    try:
        def fails(cand, record=False):
            r = w.ask({"plan": cand, "timeout": 20 if not sc else 60, "step_check": sc, "record": record})
            return r if r.get("violation", {}).get("class") == cls else None

        def descend():
            nonlocal plan, tries, kept
            progress = True
            while progress:
                progress = False
                for cand in scen.shrinks(plan):
                    if time.monotonic() - t0 > seconds or tries > limit:
                        return
                    tries += 1
                    if fails(cand):
                        plan, progress = cand, True
                        kept += 1
                        break

        descend()
        r = fails(plan, record=True)
        if r and r.get("recorded"):
            rec = r["recorded"]
            if fails(rec):
                plan = rec
                t0 = time.monotonic()
                seconds = seconds / 2
                tries = 0
                descend()
        final = w.ask({"plan": plan, "timeout": 60, "step_check": sc})
    finally:
        w.close()
    if final.get("violation", {}).get("class") != cls:
        plan, final = res["plan"], res
    return plan, final, {"candidates": tries, "accepted": kept}


def plain(text):
    """For a terminal or a log: whatever does not print is shown escaped."""
    return "".join(c if c.isprintable() or c == "\n" else ascii(c)[1:-1] for c in text)


def write_replay(batch, hashseed, plan, final, info, index):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (batch.prop, batch.seed, index))
    body = {"property": batch.prop, "seed": batch.seed, "run": index,
            "run_seed": derive(batch.seed, batch.prop, index), "tier": batch.tier, "hashseed": hashseed,
            "step_check": bool(final.get("step_check")), "violation": final["violation"],
            "digest": final.get("digest"), "minimisation": info, "plan": plan}
    with open(path, "w") as f:
        json.dump(body, f, indent=1, ensure_ascii=True)
    return path


# ------------------------------------------------------------------------------- commands

def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "known"]


def probe_known(batch):
    """Listed findings are re-run as they stand; they must fail as listed, or they are gone."""
    out = []
    ks = known_findings(batch.prop)
    if not ks:
        return out
    w = open_worker(batch.prop, hashseeds(batch.seed)[0], batch.shim, batch.scratch)
    try:
        for k in ks:
            r = w.ask({"plan": k["plan"], "timeout": 60})
            if "error" in r or r.get("timeout"):
                raise HarnessError("probe of a known finding: %s" % (r.get("error") or "timeout"))
            if r.get("violation", {}).get("class") == k["class"]:
                out.append(k)
            elif "violation" in r:
                raise NewViolation(k, r)
    finally:
        w.close()
    return out


class NewViolation(Exception):
    pass


def check(prop, tier, seed, runs=None, replay_ok=True):
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="dst-%s-" % prop)
    try:
        return _check(prop, tier, seed, runs, scratch, t0)
    except HarnessError as e:
        print("ERROR property=%s %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(prop, tier, seed, runs, scratch, t0):
    shim = simos.build(os.path.join(scratch, "shim"))
    batch = Batch(prop, tier, seed, scratch, shim)
    n = runs or BUDGET[prop][0 if tier == "quick" else 1]
    print("property=%s tier=%s VERIF_SEED=%s runs=%d" % (prop, tier, seed, n), flush=True)
    known = []
    try:
        known = probe_known(batch)
    except NewViolation as e:
        k, r = e.args
        batch.violations.append((-1, hashseeds(seed)[0], {**r, "plan": k["plan"]}))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
    if not batch.violations:
        batch.run_range(n, t0 + SOFT[tier])
    wall = time.monotonic() - t0
    code = 0
    if batch.violations:
        batch.violations.sort(key=lambda v: v[0])
        idx, h, res = batch.violations[0]
        print("run %d (seed %d) violates: %s" % (idx, derive(seed, prop, idx), plain(res["violation"]["msg"])), flush=True)
        plan, final, info = minimise(batch, h, res, 90 if tier == "quick" else 240)
        path = write_replay(batch, h, plan, final, info, idx)
        same = replay_file(path, batch.shim, scratch)
        print("  minimised: %s" % plain(final["violation"]["msg"]))
        for k, v in sorted(final["violation"]["detail"].items()):
            print("    %s: %s" % (k, plain(str(v)[:500])))
        print("  replay %s" % ("reproduces it exactly" if same else "DIFFERS"))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, ROOT)), flush=True)
        code = 1
    elif len(batch.undecided) > max(2, n // 1000):
        print("ERROR property=%s %d runs exceeded their wall-clock caps" % (prop, len(batch.undecided)))
        code = 2
    elif batch.errors:
        for idx, e in batch.errors[:3]:
            print("run %s: %s" % (idx, e))
        print("ERROR property=%s harness errors in %d runs" % (prop, len(batch.errors)))
        code = 2
    elif batch.done < n * MIN_DONE:
        print("ERROR property=%s only %d of %d runs fitted into the time" % (prop, batch.done, n))
        code = 2
    evidence(batch, n, wall, len(batch.violations), known)
    if code == 0:
        print("OK property=%s %d runs in %.1f s" % (prop, batch.done, wall))
    return code


MEASURES = {
    "interleavings": "different sequences of (steps until the switch, who runs next)",
    "switch_sites": "different function:line at which a running caller was preempted",
    "fault_sites": "different functions (or fault@system call) at which a fault was delivered",
}


def is_fault(counter):
    return counter.startswith(("fault:", "entropy:")) or counter in ("clock_jumps", "crashes")


def evidence(batch, n, wall, violations, known):
    import importlib
    from .worker import SCENARIOS
    scen = importlib.import_module("." + SCENARIOS[batch.prop], "dst")
    st = dict(sorted(batch.stats.items()))
    faults = {k.split(":", 1)[1] if k.startswith("fault:") else k: v for k, v in st.items() if is_fault(k)}
    cov = {
        "evaluations": batch.done,
        "distinct_nontrivial": len(batch.sets.get(scen.NONTRIVIAL, ())),
        "rule": scen.RULE,
        "samples": [s for _, s in sorted(batch.samples, key=lambda x: x[0])[:4]],
        "runs_planned": n,
        "runs_per_hour": int(batch.done / wall * 3600) if wall else 0,
        "seeds": "one per run, derived from VERIF_SEED, the property and the run's number",
        "interpreters": HASHSEEDS * len(FLEETS.get(batch.prop, (0,))),
        "simulated_time": scen.SIM_TIME,
        "faults_fired": faults,
        "counters": {k: v for k, v in st.items() if not is_fault(k)},
        "distinct": {k: len(v) for k, v in sorted(batch.sets.items()) if k != scen.NONTRIVIAL},
        "distinct_measures": MEASURES,
        "runs_skipped": batch.skipped,
        "runs_undecided": [w for _, w in batch.undecided],
        "components": scen.COMPONENTS,
        "known_findings": [k["what"] for k in known],
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", batch.prop + ".json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump({"property": batch.prop, "tier": batch.tier, "seed": batch.seed, "level": "exploration",
                   "coverage": cov, "assumptions": scen.ASSUMPTIONS, "wall_s": round(wall, 2),
                   "violations": violations}, f, indent=1)
    os.replace(tmp, path)


def replay_file(path, shim, scratch, show=False):
    with open(path) as f:
        body = json.load(f)
    w = open_worker(body["property"], body["hashseed"], shim, scratch)
    try:
        r = w.ask({"plan": body["plan"], "timeout": 120, "step_check": body["step_check"]})
    finally:
        w.close()
    if show:
        print(json.dumps({k: r.get(k) for k in ("violation", "digest", "error", "timeout", "events")}, indent=1))
    return r.get("violation") == body["violation"] and r.get("digest") == body["digest"]


def replay(path):
    scratch = tempfile.mkdtemp(prefix="dst-replay-")
    try:
        shim = simos.build(os.path.join(scratch, "shim"))
        same = replay_file(path, shim, scratch, show=True)
        print("reproduced exactly" if same else "not reproduced")
        with open(path) as f:
            prop = json.load(f)["property"]
        if same:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if same else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def selftest(prop, n, seed):
    """The same runs: twice, from differently ordered workers, under other hash seeds."""
    scratch = tempfile.mkdtemp(prefix="dst-self-")
    bad = 0
    try:
        shim = simos.build(os.path.join(scratch, "shim"))
        digests = {}

        def lane(h, order, results, hs):
            w = open_worker(prop, hs, shim, scratch)
            try:
                for i in order:
                    r = w.ask({"seed": derive(seed, prop, i), "tier": "quick", "timeout": 60})
                    results[(h, i)] = (r.get("digest"), json.dumps(r.get("violation")), r.get("error"),
                                       json.dumps(r.get("stats"), sort_keys=True))
            finally:
                w.close()

        results = {}
        ths = [threading.Thread(target=lane, args=("a", range(n), results, 1)),
               threading.Thread(target=lane, args=("b", range(n - 1, -1, -1), results, 1)),
               threading.Thread(target=lane, args=("c", range(n), results, 777))]
        mid = n // 2
        ths += [threading.Thread(target=lane, args=("d", range(mid), results, 1)),
                threading.Thread(target=lane, args=("d", range(mid, n), results, 1))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        del digests
        for i in range(n):
            base = results[("a", i)]
            for h in "bcd":
                if results[(h, i)] != base:
                    bad += 1
                    if bad <= 5:
                        print("run %d differs in %s: %s / %s" % (i, h, base, results[(h, i)]))
        print("selftest property=%s runs=%d divergences=%d" % (prop, n, bad))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 1 if bad else 0


def setup():
    """Nothing is kept built: see that everything needed is here and works."""
    scratch = tempfile.mkdtemp(prefix="dst-setup-")
    try:
        shim = simos.build(os.path.join(scratch, "shim"))
        for prop in sorted(BUDGET):
            w = open_worker(prop, 1, shim, scratch)
            try:
                r = w.ask({"seed": 1, "tier": "quick", "timeout": 60})
            finally:
                w.close()
            print("%s %s" % (prop, "error: %s" % r["error"] if "error" in r else "ready"))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


def main(argv):
    if argv and argv[0] == "setup":
        return setup()
    if argv and argv[0] == "replay":
        return replay(argv[1])
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    runs = None
    args = list(argv)
    rest = []
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--runs":
            runs = int(args.pop(0))
        elif a == "--seed":
            seed = int(args.pop(0))
        else:
            rest.append(a)
    if rest and rest[0] == "selftest":
        return selftest(rest[1], runs or 300, seed)
    return check(rest[0], tier, seed, runs)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
