"""A zygote: an interpreter with the seams in place and the library imported, which forks one child
per simulated run. Commands and answers are JSON lines on stdin/stdout."""
import gc
import hashlib
import importlib
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

from . import core, simos, specs

SCENARIOS = {"C01": "scen_c01", "C04": "scen_c04", "C07": "scen_c07", "C09": "scen_c09",
             "C11": "scen_c11", "C17": "scen_c17", "C19": "scen_c19"}


def one(scen, plan, step_check=False, record=False, lane=0):
    """Execute a plan here (in a child). Returns a JSON-able result."""
    from . import runtime
    R = runtime.Run(plan, step_check, lane)
    out = {}
    try:
        simos.clock(1709208000, 0)
        simos.entropy(simos.ENT_STREAM, 12345)
        scen.execute(plan, R)
    except runtime.Violation as v:
        out["violation"] = {"class": v.cls, "msg": v.msg, "detail": v.detail}
    except runtime.Skip as s:
        out["skip"] = str(s)[:200]
    finally:
        sys.settrace(None)
        simos.clock_off()
        simos.entropy(simos.ENT_REAL)
    R.finish()
    if R.sim is not None:
        out["digest"] = R.sim.digest()
        if os.environ.get("DST_EVENTS"):
            out["events"] = [repr(e) for e in R.sim.events]
    elif R.log:
        out["digest"] = hashlib.sha256(repr(R.log).encode("utf-8", "backslashreplace")).hexdigest()[:24]
    if R.values is not None:
        out["values"] = R.values
    out["stats"] = R.stats
    out["sets"] = {k: sorted(v) for k, v in R.sets.items()}
    if R.sample is not None:
        out["sample"] = R.sample
    if record and hasattr(scen, "record"):
        out["recorded"] = scen.record(plan, R)
    return out


def child(scen, prop, cmd, wfd):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    # anything the code under test prints goes nowhere
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get("DST_DEBUG"):
        os.dup2(null, 2)
    try:
        if "plan" in cmd:
            plan = cmd["plan"]
        else:
            rng = core.RealRandom(cmd["seed"])
            for again in range(8):
                try:
                    plan = scen.plan(rng, cmd.get("tier", "quick"))
                    break
                except specs.Unsat:     # no witness found this time: another plan, still from this seed
                    if again == 7:
                        raise
        res = one(scen, plan, cmd.get("step_check", False), cmd.get("record", False),
                  cmd.get("lane", 0))
        if "violation" in res or cmd.get("want_plan"):
            res["plan"] = plan
    except BaseException:
        res = {"error": traceback.format_exc()[-3000:]}
    data = json.dumps(res).encode()
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os._exit(0)


def run(scen, prop, cmd):
    rfd, wfd = os.pipe()
    t0 = time.monotonic()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        os.setpgid(0, 0)
        child(scen, prop, cmd, wfd)
    os.close(wfd)
    chunks = []
    deadline = t0 + cmd.get("timeout", 20)
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([rfd], [], [], left)
        if not ready:
            timed_out = True
            break
        b = os.read(rfd, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    if timed_out:
        for p in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
            try:
                p()
            except OSError:
                pass
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {"timeout": True}
    try:
        res = json.loads(b"".join(chunks))
    except ValueError:
        return {"error": "child ended without an answer (status %d)" % status,
                "crashed": os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGSEGV}
    return res


def compile_from_source():
    """Never run a stale compiled file of the library under test."""
    import importlib._bootstrap_external as be
    real = be.cache_from_source

    def cache_from_source(path, *a, **k):
        if os.fspath(path).startswith(core.REPO):
            raise NotImplementedError
        return real(path, *a, **k)
    be.cache_from_source = cache_from_source


def main():
    prop = sys.argv[1]
    compile_from_source()
    os.environ.pop("LD_PRELOAD", None)
    core.install_locks()
    if prop != "C17":
        core.install_random()
    scen = importlib.import_module("." + SCENARIOS[prop], "dst")
    from . import runtime
    runtime.lib()
    import d42
    if not os.path.realpath(d42.__file__).startswith(os.path.realpath(core.REPO)):
        print(json.dumps({"fatal": "d42 comes from " + d42.__file__}), flush=True)
        return 2
    import re._parser  # noqa: F401  loaded before the forks
    if hasattr(scen, "warm"):
        scen.warm()
    gc.collect()
    gc.freeze()
    print(json.dumps({"ready": sys.version.split()[0]}), flush=True)
    for line in sys.stdin:
        cmd = json.loads(line)
        print(json.dumps({"id": cmd.get("id"), **run(scen, prop, cmd)}), flush=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
