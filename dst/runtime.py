"""What a scenario run has at hand: statistics, tapes, the simulator, violations."""
import copy
import types

from . import core, simos


class Violation(Exception):
    def __init__(self, cls, msg, **detail):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg
        self.detail = detail


class Skip(Exception):
    """The plan is not a case of the property (a shrink that left the domain)."""


class Run:
    def __init__(self, plan, step_check=False, lane=0):
        self.plan = plan
        self.lane = lane
        self.log = []           # what decides the digest of a run without a simulator of its own
        self.values = None      # compared between the interpreters of a fleet
        self.stats = {}
        self.sets = {}
        self.tapes = {}
        self.sim = None
        self.step_check = step_check
        self.sample = None

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def mark(self, name, item):
        self.sets.setdefault(name, set()).add(item)

    # -- tapes: op["tape"] is a policy; op["tapes"] the recorded outcomes, per attempt
    def tape(self, op, key, attempt=0):
        rec = op.get("tapes")
        if rec is not None and attempt < len(rec):
            t = core.Tape(replay=rec[attempt])
            t.rec = rec[attempt]
        else:
            cfg = op.get("tape") or {"seed": 0, "mode": "natural"}
            t = core.Tape(core.derive(cfg["seed"], attempt), cfg["mode"], cfg.get("p", .5))
        self.tapes.setdefault(key, []).append(t)
        return t

    def storm(self, fn, cfg):
        """The same operation abandoned again and again, each time at another point."""
        rng = core.RealRandom(cfg["seed"])
        sim = self.sim
        steps = 1
        for i in range(cfg["n"]):
            tape = core.Tape(core.derive(cfg["seed"], i), "natural")
            if sim.trace == "none" or i == 0:
                sim.op(fn, tape)
                steps = max(1, sim.current.op_steps)
                if sim.trace == "none":
                    break
                continue
            st, _ = sim.op(fn, tape, (rng.choice(("KeyboardInterrupt", "MemoryError", "SimCancelled")),
                                      rng.randint(1, steps)))
            if st == "fault":
                self.count("interrupted_ops")
        self.count("storms")

    def make_sim(self):
        cfg = self.plan.get("sim") or {}
        trace = cfg.get("trace", "none")
        if self.step_check and trace == "none":
            trace = "line"
        self.sim = core.Sim(cfg.get("seed", 0), trace, cfg.get("gap", 50), cfg.get("sched"))
        return self.sim

    def finish(self):
        """Counters read off the simulator after the run."""
        s = self.sim
        if s is None:
            return
        self.count("steps", s.steps)
        self.count("switches", s.switches)
        for name, site in s.faults_fired:
            self.count("fault:" + name)
            self.mark("fault_sites", site)
        for site in s.switch_sites:
            self.mark("switch_sites", "%s:%s" % site)
        if s.switches:
            self.count("runs_with_switches")
            self.mark("interleavings", "%x" % (core.derive(*[repr(x) for x in s.rec]) & 0xffffffffffff))
        for ts in self.tapes.values():
            for t in ts:
                self.count("draws", max(t.pos, len(t.rec)))
                self.count("extreme_draws", t.extremes)


def library():
    """The public surface of the library under test (imported after the seams are in)."""
    import d42
    import d42.custom_type
    import d42.declaration
    import d42.generation
    import d42.representation
    import d42.substitution
    import d42.utils
    import d42.validation
    ns = types.SimpleNamespace(
        schema=d42.schema, optional=d42.optional, fake=d42.fake, validate=d42.validate,
        validate_or_fail=d42.validate_or_fail, substitute=d42.substitute, represent=d42.represent,
        ValidationException=d42.ValidationException,
        generate=d42.generation.generate, Generator=d42.generation.Generator,
        Random=d42.generation.Random, RegexGenerator=d42.generation.RegexGenerator,
        make_required=d42.utils.make_required, from_native=d42.utils.from_native,
        rollout=d42.utils.rollout, eq=d42.validation.eq, format_result=d42.validation.format_result,
        ValidationResult=d42.validation.ValidationResult,
        DeclarationError=d42.declaration.errors.DeclarationError,
        SubstitutionError=d42.substitution.errors.SubstitutionError,
        Schema=d42.declaration.Schema, PathHolder=d42.custom_type.PathHolder,
    )
    import builtins
    from d42.custom_type import CustomSchema, Props

    class Boom(CustomSchema[Props]):
        """A user's own type that fails whatever it is asked."""
        error = MemoryError

        def fail(self, *a, **k):
            raise self.error("user code failed")

        __generate__ = __validate__ = __represent__ = __substitute__ = fail

    class WrapProps(Props):
        @property
        def inner(self):
            return self.get("inner")

    class Wrap(CustomSchema[WrapProps]):
        """A user's own type in front of another schema."""

        def __call__(self, inner):
            return self.__class__(self.props.update(inner=inner))

        def __represent__(self, visitor, indent=0, **kwargs):
            return "wrap(%s)" % self.props.inner.__accept__(visitor, indent=indent, **kwargs)

        def __generate__(self, visitor, **kwargs):
            return self.props.inner.__accept__(visitor, **kwargs)

        def __validate__(self, visitor, value=..., path=None, **kwargs):
            return self.props.inner.__accept__(visitor, value=value, path=path, **kwargs)

        def __substitute__(self, visitor, value=..., **kwargs):
            return self(self.props.inner.__accept__(visitor, value=value, **kwargs))

    ns.wrap = Wrap()
    made = {}

    def boom(name):
        if name not in made:
            made[name] = type("Boom" + name, (Boom,), {"error": getattr(builtins, name),
                                                       "__orig_bases__": Boom.__orig_bases__})
        return made[name]()
    ns.boom = boom
    return ns


LIB = None


def lib():
    global LIB
    if LIB is None:
        LIB = library()
    return LIB


class poking:
    """While schemas are built: everything they are derived from is used in between, as people do who
    print, check and try their schemas as they go."""

    VALUES = (None, 1, "banana", [], [1, "a"], {}, {"id": 1, "a": "x"}, 1.5, b"", True)
    OF_TYPE = {"DictSchema": ({}, {"id": 1, "a": "x"}), "ListSchema": ([], [1, "a"]), "StrSchema": ("", "banana"),
               "IntSchema": (0, 7), "FloatSchema": (0.0, 1.5), "BytesSchema": (b"", b"b"), "BoolSchema": (True, False)}

    def __init__(self, seed, L, R, fake=True):
        self.R = R
        self.seed = seed
        self.rng = core.RealRandom(seed)
        self.L = L
        self.fake = fake
        self.left = 60

    def __call__(self, sch, spec=None):
        from . import specs as S
        L, rng = self.L, self.rng
        if rng.random() < .4 or self.left <= 0:
            return
        fits = None
        if spec is not None and rng.random() < .3:
            try:
                fits = S.witness(spec, rng)
            except Exception:
                pass
        for _ in range(rng.choice((1, 1, 2, 4))):
            self.left -= 1
            self.R.count("used_before_derived_from")
            how = rng.choice(("repr", "validate", "validate", "eq", "fake", "fake", "mod", "iter", "req"))
            v = fits if fits is not None and rng.random() < .7 else \
                rng.choice(self.OF_TYPE.get(type(sch).__name__, self.VALUES) if rng.random() < .6 else self.VALUES)
            try:
                if how == "repr":
                    repr(sch)
                elif how == "validate":
                    L.validate(sch, v).get_errors()
                elif how == "eq":
                    sch == v
                elif how == "iter":
                    list(sch)
                elif how == "req":
                    L.make_required(sch)
                elif not self.fake:
                    sch % v
                elif how == "fake":
                    L.fake(sch)
                else:
                    sch % L.fake(sch)
            except Exception:
                pass

    def __enter__(self):
        from . import specs
        if self.seed is not None:
            specs.POKE = self
            if core.CURRENT is not None:
                self.old = core.CURRENT.tape
                core.CURRENT.tape = core.Tape(replay=[])

    def __exit__(self, *a):
        from . import specs
        if self.seed is not None:
            specs.POKE = None
            if core.CURRENT is not None:
                core.CURRENT.tape = self.old


def gen_poke(rng, p=.25):
    return rng.getrandbits(40) if rng.random() < p else None


# ------------------------------------------------------------------------- plan ingredients

def gen_tape(rng):
    return {"seed": rng.getrandbits(40), "mode": rng.choice(core.MODES + ("extreme", "mixed", "max", "min")),
            "p": rng.choice((.1, .3, .5, .8))}


def gen_sim(rng, clients, p_line=.35, p_op=.1):
    c = rng.random()
    trace = "call" if c < p_op else "line" if c < p_op + p_line else "none"
    if clients > 1 and trace == "none" and rng.random() < .6:
        trace = "line"
    return {"trace": trace, "gap": rng.choice((1, 2, 3, 5, 8, 13, 25, 60, 150)), "seed": rng.getrandbits(40)}


def gen_storm(rng, p, traced):
    if not traced or rng.random() >= p:
        return None
    return {"n": rng.choice((3, 8, 20, 40)), "seed": rng.getrandbits(40)}


def gen_fault(rng, p):
    if rng.random() >= p:
        return None
    return [rng.choice(("KeyboardInterrupt", "MemoryError", "SimCancelled")),
            rng.choice((1, 2, 3, 5, 8, 12, 20, 30, 45, 70, 110, 200))]


CLOCKS = [1709208000, 951782400 + 43200, 0, 1, 2 ** 31 - 1, 2 ** 31, 4102444799, 1735689599, 4107542400,
          -1, -86400 * 365 * 60, 1583020799, 9223372036 - 100000, 1717200000]


def gen_clock(rng):
    return [rng.choice(CLOCKS) + rng.choice((0, 0, 1, -1, 3599)), rng.choice((0, 1, 999_999_999, 500_000_000))]


def set_clock(R, op):
    c = op.get("clock")
    if c:
        simos.clock(c[0], c[1])
        R.count("clock_jumps")
    e = op.get("ent")
    if e:
        simos.entropy(e[0], e[1])
        if e[0] in (2, 3, 4, 5):
            R.count("entropy:" + {2: "zeros", 3: "ones", 4: "EIO", 5: "short"}[e[0]])


# ----------------------------------------------------------------------- generic minimisation

def concretise(plan, R, ops_of):
    """The same plan with every random outcome and every switch written out."""
    plan = copy.deepcopy(plan)
    for key, op in ops_of(plan):
        ts = R.tapes.get(key)
        if ts:
            op["tapes"] = [list(t.rec) for t in ts]
    if R.sim is not None and R.sim.replay is None:
        plan.setdefault("sim", {})["sched"] = list(R.sim.rec)
    return plan


def list_drops(xs):
    """Sub-lists, biggest cuts first."""
    n = len(xs)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield xs[:i] + xs[i + size:]
        size //= 2


def client_shrinks(plan, min_clients=1):
    """Drop clients, operations, faults, switches, clock and entropy changes; calm the tapes."""
    cl = plan["clients"]
    if len(cl) > min_clients:
        for i in range(len(cl)):
            yield {**plan, "clients": cl[:i] + cl[i + 1:]}
    for i, ops in enumerate(cl):
        for cut in list_drops(ops):
            yield {**plan, "clients": cl[:i] + [cut] + cl[i + 1:]}
    sim = plan.get("sim") or {}
    if sim.get("trace") == "call":
        yield {**plan, "sim": {k: v for k, v in {**sim, "trace": "line"}.items() if k != "sched"}}
    if sim.get("trace") not in (None, "none"):
        yield {**plan, "sim": {"trace": "none", "gap": 50, "seed": 0}}
    if sim.get("sched"):
        for cut in list_drops(sim["sched"]):
            yield {**plan, "sim": {**sim, "sched": cut}}
    for i, ops in enumerate(cl):
        for j, op in enumerate(ops):
            if (op.get("storm") or {}).get("n", 0) > 2:
                yield _with(plan, i, j, {**op, "storm": {**op["storm"], "n": op["storm"]["n"] // 2}})
                yield _with(plan, i, j, {**op, "storm": {**op["storm"], "n": op["storm"]["n"] - 1}})
            if op.get("times", 0) > 1:
                yield _with(plan, i, j, {**op, "times": op["times"] // 2})
                yield _with(plan, i, j, {**op, "times": op["times"] - 1})
            for k, v in (("fault", None), ("storm", None), ("clock", None), ("ent", None), ("mut", False), ("fresh", False),
                         ("knobs", None), ("via", "fake")):
                if op.get(k) and op[k] != v:
                    yield _with(plan, i, j, {**op, k: v})
            if op.get("tapes"):
                for a, tp in enumerate(op["tapes"]):
                    if any(tp):
                        for new in ([0] * len(tp), []):
                            yield _with(plan, i, j, {**op, "tapes": op["tapes"][:a] + [new] + op["tapes"][a + 1:]})
                        if len(tp) <= 12:
                            for b in range(len(tp)):
                                if tp[b]:
                                    new = tp[:b] + [0] + tp[b + 1:]
                                    yield _with(plan, i, j, {**op, "tapes": op["tapes"][:a] + [new] +
                                                             op["tapes"][a + 1:]})
            elif op.get("tape") and op["tape"]["mode"] not in ("min", "max"):
                for m in ("min", "max"):
                    yield _with(plan, i, j, {**op, "tape": {**op["tape"], "mode": m}})


def _with(plan, i, j, op):
    cl = plan["clients"]
    return {**plan, "clients": cl[:i] + [cl[i][:j] + [op] + cl[i][j + 1:]] + cl[i + 1:]}


def client_ops(plan):
    for i, ops in enumerate(plan["clients"]):
        for j, op in enumerate(ops):
            yield (i, j), op


def exc_text(e):
    return "%s: %s" % (type(e).__name__, str(e)[:300])
