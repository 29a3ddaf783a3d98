"""Seams and scheduler.

Imported before d42: it takes over the `random` module (every draw of any generator in the process
goes to the current task's tape) and the lock constructors, so that the simulator decides every
random outcome and every interleaving.
"""
import hashlib
import os
import random as _random_module
import sys
import threading
import _thread

RealRandom = _random_module.Random
_raw_lock = _thread.allocate_lock

REPO = os.environ.get("VERIF_REPO", "/repo").rstrip("/") + "/"
TRACED = (REPO + "d42/", "/site-packages/th/", "/site-packages/niltype/")


def derive(*parts):
    """A PRNG seed from any parts: one integer decides everything below it."""
    h = hashlib.sha256("\x1f".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Livelock(BaseException):
    """An operation made no progress within its step budget."""


class SimCancelled(BaseException):
    """A caller's cancellation, delivered asynchronously."""


FAULTS = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "SimCancelled": SimCancelled,
}

# ------------------------------------------------------------------------------------- tapes

UNIT = 2 ** 53
DRAW_CAP = 400_000
FAIR_AFTER = 20_000     # the adversary turns fair: rejection loops end with probability one

MODES = ("natural", "min", "max", "extreme", "mixed", "sticky", "alternate", "sweep")


class Tape:
    """Outcomes of random draws. Fresh: an adversary policy fed by a PRNG. Replay: a list."""

    def __init__(self, seed=0, mode="natural", p=0.5, replay=None):
        self.rng = RealRandom(seed)
        self.mode = mode
        self.p = p
        self.replay = replay
        self.pos = 0
        self.rec = []
        self.draws = 0
        self.extremes = 0
        self.last = (0, 1)
        self.wheel = {}
        self.bits_run = 0
        self.cap = DRAW_CAP

    def arm(self):
        self.draws = 0

    def _natural(self, n):
        return self.rng.randrange(n)

    def _edge(self, n):
        c = self.rng.randrange(8)
        if c < 3:
            return 0
        if c < 6:
            return n - 1
        return (1 if c == 6 else n - 2) % n

    def draw(self, n, kind):
        self.draws += 1
        if self.draws > self.cap:
            raise Livelock("draw budget exhausted")
        if kind == "g":
            self.bits_run += 1
        else:
            self.bits_run = 0
        if self.replay is not None:
            if self.pos < len(self.replay):
                out = self.replay[self.pos] % n
            else:
                out = 0
            self.pos += 1
        else:
            mode = self.mode
            if self.bits_run > 64 or self.draws > FAIR_AFTER:
                mode = "natural"
            if mode == "natural":
                out = self._natural(n)
            elif mode == "min":
                out = 0
            elif mode == "max":
                out = n - 1
            elif mode == "extreme":
                out = self._edge(n)
            elif mode == "mixed":
                out = self._edge(n) if self.rng.random() < self.p else self._natural(n)
            elif mode == "sticky":
                if self.rng.random() < self.p:
                    out = self.last[0] * n // self.last[1]
                else:
                    out = self._natural(n)
                    self.last = (out, n)
            elif mode == "sweep":     # each kind of draw goes through its outcomes one after the other
                out = self.wheel[n] = (self.wheel[n] + 1) % n if n in self.wheel else self._natural(n)
            else:  # alternate
                out = 0 if self.draws % 2 else n - 1
            self.rec.append(out)
        if out == 0 or out == n - 1:
            self.extremes += 1
        return out


class _Current:
    tape = None
    total_draws = 0


CURRENT = _Current()


def _draw(n, kind):
    CURRENT.total_draws += 1
    t = CURRENT.tape
    if t is None:
        raise RuntimeError("random draw outside a simulated operation")
    return t.draw(n, kind)


class SimRandom(RealRandom):
    """Every method of random.Random bottoms out in these three."""

    def __init__(self, x=None):
        super().__init__(0)

    def seed(self, *args, **kwargs):
        return None

    def random(self):
        return _draw(UNIT, "u") * 2.0 ** -53

    def getrandbits(self, k):
        if k < 0:
            raise ValueError("number of bits must be non-negative")
        return _draw(2 ** k, "g") if k else 0

    def _randbelow(self, n):
        return _draw(n, "b")


def install_random():
    """Point the random module at the simulator. Must run before d42 is imported."""
    m = _random_module
    inst = SimRandom()
    for name in ("seed", "random", "uniform", "triangular", "randint", "choice", "randrange",
                 "sample", "shuffle", "choices", "normalvariate", "lognormvariate",
                 "expovariate", "vonmisesvariate", "gammavariate", "gauss", "betavariate",
                 "binomialvariate", "paretovariate", "weibullvariate", "getrandbits",
                 "randbytes"):
        if hasattr(inst, name):
            setattr(m, name, getattr(inst, name))
    m.Random = SimRandom
    m._inst = inst


# --------------------------------------------------------------------------------- scheduler

class SimLock:
    """Lock for code under test: blocking means yielding to the scheduler."""

    def __init__(self, reentrant=False):
        self._owner = None
        self._count = 0
        self._re = reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self._count:
            if self._re and self._owner == me:
                self._count += 1
                return True
            if not blocking or SIM is None or SIM.current is None:
                return False
            SIM.blocked_yield()
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if not self._count:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if not self._count:
            self._owner = None

    def locked(self):
        return bool(self._count)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def install_locks():
    threading.Lock = lambda: SimLock()
    threading.RLock = lambda *a, **k: SimLock(True)


SIM = None


def _trace_nothing(frame, event, arg):
    return None


class Task:
    def __init__(self, index, body):
        self.index = index
        self.body = body
        self.done = False
        self.gate = _raw_lock()
        self.gate.acquire()
        self.op_steps = 0
        self.steps = 0
        self.fault_at = None
        self.fault_exc = None
        self.fired = None
        self.error = None
        self.tape = None
        self.in_op = False


class Sim:
    """Runs task bodies one at a time; switches at traced lines of the code under test."""

    STEP_CAP = 6_000_000
    OP_STEP_CAP = 2_000_000

    def __init__(self, seed, trace="none", gap=50, replay=None):
        self.rng = RealRandom(seed)
        self.trace = trace            # none | line | call
        self.gap = gap
        self.replay = replay
        self.rpos = 0
        self.rec = []
        self.tasks = []
        self.current = None
        self.countdown = None
        self.switches = 0
        self.steps = 0
        self.faults_fired = []
        self.events = []
        self.main_gate = _raw_lock()
        self.main_gate.acquire()
        self._next = None
        self.switch_sites = set()

    # -- logging: never draws, never reads a clock
    def log(self, *ev):
        self.events.append(ev)

    def digest(self):
        return hashlib.sha256(repr(self.events).encode("utf-8", "backslashreplace")).hexdigest()[:24]

    # -- schedule decisions
    def _decide(self, finishing):
        alive = [t.index for t in self.tasks if not t.done]
        if not alive:
            return None
        if self.replay is not None:
            if finishing:
                while self.rpos < len(self.replay) and self.replay[self.rpos][0] >= 0:
                    self.rpos += 1
                if self.rpos < len(self.replay):
                    idx = self.replay[self.rpos][1]
                    self.rpos += 1
                    if idx in alive:
                        return idx
                return alive[0]
            return self._next if self._next in alive else self.current.index
        idx = alive[self.rng.randrange(len(alive))]
        if finishing:
            self.rec.append([-1, idx])
        return idx

    def _arm(self):
        """How many steps until the next preemption."""
        if len(self.tasks) < 2 or self.trace == "none":
            self.countdown = None
            return
        if self.replay is not None:
            if self.rpos < len(self.replay) and self.replay[self.rpos][0] >= 0:
                self.countdown, self._next = self.replay[self.rpos]
                self.rpos += 1
            else:
                self.countdown = None
            return
        g = 1 + int(self.rng.expovariate(1.0 / self.gap))
        self._gap = g
        self.countdown = g

    def _handoff(self, to):
        me = self.current
        if to is me:
            return
        self.switches += 1
        self.current = to
        CURRENT.tape = to.tape
        to.gate.release()
        me.gate.acquire()

    def _preempt(self, frame):
        me = self.current
        idx = self._decide(False)
        if self.replay is None:
            self.rec.append([self._gap, idx])
        self._arm()
        if idx != me.index:
            self.switch_sites.add((frame.f_code.co_name, frame.f_lineno))
            self.log("switch", me.index, idx)
            self._handoff(self.tasks[idx])

    def blocked_yield(self):
        alive = [t.index for t in self.tasks if not t.done]
        me = self.current
        self.steps += 1
        if self.steps > self.STEP_CAP or len(alive) < 2:
            raise Livelock("deadlock on a lock")
        i = alive.index(me.index)
        self._handoff(self.tasks[alive[(i + 1) % len(alive)]])

    # -- tracing
    def _global_trace(self, frame, event, arg):
        if event != "call":
            return None
        fn = frame.f_code.co_filename
        if not (fn.startswith(TRACED[0]) or TRACED[1] in fn or TRACED[2] in fn):
            return None
        if self.trace == "call":
            self._local_trace(frame, "line", None)
        return self._local_trace

    def _local_trace(self, frame, event, arg):
        # "call" also stops on entering and leaving functions, that is inside lines. (Stopping at
        # every opcode would be finer, but CPython 3.12 crashes when threads do it together.)
        if event != "line" and (event != "return" or self.trace != "call"):
            return self._local_trace
        t = self.current
        if not t.in_op:
            return self._local_trace
        t.op_steps += 1
        self.steps += 1
        if t.fault_at is not None and t.op_steps >= t.fault_at:
            t.fault_at = None
            t.fired = t.fault_exc
            self.faults_fired.append((t.fault_exc, frame.f_code.co_name))
            self.log("fault", t.index, t.fault_exc, frame.f_code.co_name)
            raise FAULTS[t.fault_exc]("injected")
        if t.op_steps > self.OP_STEP_CAP:
            raise Livelock("step budget exhausted")
        if self.countdown is not None:
            self.countdown -= 1
            if self.countdown <= 0:
                self._preempt(frame)
        return self._local_trace

    # -- operations
    def op(self, fn, tape=None, fault=None):
        """Run one operation of the current task; returns (status, value)."""
        t = self.current
        t.op_steps = 0
        t.fired = None
        t.tape = tape
        CURRENT.tape = tape
        if tape is not None:
            tape.arm()
        if fault and self.trace != "none":
            t.fault_exc, t.fault_at = fault[0], fault[1]
        else:
            t.fault_at = None
        t.in_op = True
        try:
            if self.trace != "none":
                sys.settrace(self._global_trace)
            try:
                res = ("ok", fn())
            finally:
                sys.settrace(_trace_nothing if self.trace != "none" else None)
        except Livelock as e:
            res = ("livelock", e)
        except BaseException as e:
            # an injected exception may come out as another (OrderedDict's iterator makes KeyErrors of them)
            res = ("fault", t.fired) if t.fired else ("exc", e)
        finally:
            t.in_op = False
            t.fault_at = None
            t.tape = None
            if self.current is t:
                CURRENT.tape = None
        return res

    # -- running
    def run(self, bodies):
        global SIM
        SIM = self
        self.tasks = [Task(i, b) for i, b in enumerate(bodies)]
        if self.trace != "none":
            # The interpreter rewrites shared code objects whenever tracing starts or stops
            # somewhere; keep it on for the whole run so that it never happens under a parked task.
            sys.settrace(_trace_nothing)
        try:
            if len(self.tasks) == 1:
                t = self.current = self.tasks[0]
                t.body(t)
                t.done = True
                return
            for t in self.tasks:
                _thread.start_new_thread(self._main, (t,))
            self._arm()
            self.current = self.tasks[self._decide(True)]
            self.current.gate.release()
            self.main_gate.acquire()
            for t in self.tasks:
                if t.error is not None:
                    raise t.error
        finally:
            sys.settrace(None)
            SIM = None
            CURRENT.tape = None

    def _main(self, t):
        t.gate.acquire()
        if self.trace != "none":
            sys.settrace(_trace_nothing)
        try:
            t.body(t)
        except BaseException as e:   # harness error: reported by run()
            t.error = e
        t.done = True
        idx = self._decide(True)
        if idx is None:
            self.main_gate.release()
            return
        self.current = self.tasks[idx]
        CURRENT.tape = self.current.tape
        self.current.gate.release()


