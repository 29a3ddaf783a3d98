"""C01: whatever the draws, the clock, the entropy, the other callers and their interrupts do,
fake() returns and its own schema accepts the value."""
from . import specs as S
from .runtime import (Skip, Violation, client_ops, client_shrinks, concretise, exc_text, gen_clock, gen_fault, gen_poke, poking,
                      gen_sim, gen_storm, gen_tape, lib, set_clock)

VIAS = ("fake", "fake", "generate", "inv", "gen")


def plan(rng, tier):
    big = tier == "thorough"
    n_clients = rng.choice((1, 1, 1, 2, 2, 3, 4))
    sim = gen_sim(rng, n_clients)
    traced = sim["trace"] != "none"
    kinds = None
    if rng.random() < .3:       # swarm: only a few kinds of schema in this run
        kinds = set(rng.sample(S.SCALARS, 3)) | set(rng.sample(
            ("list", "dict", "any", "or", "add", "alias", "req"), 3))
    ctx = {"deep": True, "inf": rng.random() < .3, "big": 300 if traced else 1500, "kinds": kinds,
           "never": .15 if rng.random() < .15 else 0}
    pool = []
    for _ in range(rng.choice((1, 2, 3, 4))):
        spec = S.gen(rng, rng.choice((0, 1, 2, 2, 3) if not big else (0, 1, 2, 3, 4)), ctx)
        wit = None
        if rng.random() < .3:
            spec, wit = gen_sub(rng, spec)
        pool.append({"spec": spec, "wit": wit})
    churn = rng.random() < .15      # look-alikes, built and dropped: what is kept by id or by looks goes wrong
    if churn:
        for item in [x for x in pool if x["spec"]["t"] != "sub"]:
            for _ in range(rng.choice((1, 2, 3))):
                pool.append({"spec": S.sibling(rng, item["spec"], ctx), "wit": None})
    faulty = traced and rng.random() < .4
    env = rng.random() < .5
    clients = []
    for _ in range(n_clients):
        ops = []
        for _ in range(rng.choice((1, 2, 3, 4, 6)) * (1 + 2 * churn)):
            op = {"k": "fake", "s": rng.randrange(len(pool)), "via": rng.choice(VIAS), "tape": gen_tape(rng)}
            if rng.random() < .12:
                op["k"] = rng.choice(("repr", "validate", "iter"))
            elif rng.random() < .08:
                op["k"] = "boom"
                op["spec"] = S.with_boom(rng, pool[op["s"]]["spec"])
                op["times"] = rng.choice((1, 3, 10, 40))
            if op["via"] == "gen":
                op["knobs"] = {"max_repeat": rng.choice((0, 1, 2, 8, 32, 100))}
            if faulty:
                op["fault"] = gen_fault(rng, .3)
                op["storm"] = gen_storm(rng, .12, S.size(pool[op["s"]]["spec"]) < 200)
            if env:
                if rng.random() < .5:
                    op["clock"] = gen_clock(rng)
                if rng.random() < .4:
                    op["ent"] = [rng.choice((1, 1, 2, 3, 4, 5)), rng.getrandbits(40)]
            op["mut"] = rng.random() < .25
            op["fresh"] = rng.random() < (.8 if churn else .25)
            ops.append(op)
        clients.append(ops)
    return {"pool": pool, "clients": clients, "sim": sim, "poke": gen_poke(rng)}


def gen_sub(rng, spec):
    """spec % value, with a value cut out of a conforming one; the full one is the witness that
    the result is satisfiable."""
    try:
        w = S.witness(spec, rng)
    except S.Unsat:
        return spec, None
    v = cut(rng, w, S.norm(spec))
    return {"t": "sub", "of": spec, "value": S.enc(v)}, S.enc(w)


def cut(rng, w, n):
    """Leave out dict keys anywhere, put `...` where the library allows placeholders."""
    if isinstance(w, dict) and n["t"] == "dict" and n["keys"] is not None and n["keys"]:
        subs = {S.dec(k): s for k, _, s in n["keys"]}
        out = {}
        for k, x in w.items():
            if k not in subs or rng.random() < .3:
                continue
            out[k] = ... if rng.random() < .1 else cut(rng, x, subs[k])
        return out
    if isinstance(w, list) and n["t"] == "list":
        if n.get("of") is not None:
            out = [cut(rng, x, n["of"]) for x in w]
            if out and rng.random() < .15 and not n.get("len"):
                k = rng.randrange(2)
                out = out + [...] if k else [...] + out
            return out
        if n.get("items") is None and w and rng.random() < .3:
            return w + [...] if rng.random() < .5 else [...] + w
    return w


def mutate(v):
    if isinstance(v, list):
        for x in v:
            mutate(x)
        v.append("mutated")
    elif isinstance(v, dict):
        for x in v.values():
            mutate(x)
        v["mutated"] = 1


def prepare(plan, R):
    L = lib()
    pool = []
    for item in plan["pool"]:
        spec = item["spec"]
        if spec["t"] == "sub":
            if not S.all_sat(spec["of"]):
                raise Skip("unsatisfiable")
            try:
                sch = S.build(spec, L)
            except Exception:
                pool.append(None)        # substitution refused: nothing to generate from
                R.count("substitution_refused")
                continue
            try:
                ok = not L.validate(sch, S.dec(item["wit"])).has_errors()
            except Exception:
                ok = False
            if not ok:
                pool.append(None)        # not shown satisfiable: C04 and C12 look at these
                R.count("substitution_not_shown_satisfiable")
                continue
        else:
            if not item.get("probe") and not S.all_sat(spec):
                raise Skip("unsatisfiable")
            try:
                sch = S.build(spec, L)
            except Exception as e:
                raise Skip("declaration refused: %s" % exc_text(e))
        R.mark("shapes", S.shape(spec))
        pool.append(sch)
    return pool


def execute(plan, R):
    L = lib()
    with poking(plan.get("poke"), L, R):
        pool = prepare(plan, R)
    sim = R.make_sim()
    uses_entropy = [p is not None and "uuid4" in S.shape(plan["pool"][i]["spec"]) for i, p in enumerate(pool)]

    def client(ci):
        def body(task):
            for oi, op in enumerate(plan["clients"][ci]):
                one(ci, oi, op)
        return body

    def generate(sch, op):
        via = op["via"]
        if via == "fake":
            return L.fake(sch)
        if via == "generate":
            return L.generate(sch)
        if via == "inv":
            return ~sch
        r = L.Random()
        kn = op.get("knobs") or {}
        return sch.__accept__(L.Generator(r, L.RegexGenerator(r, max_repeat=kn.get("max_repeat", 32))))

    def one(ci, oi, op):
        i = op["s"]
        if i >= len(pool) or pool[i] is None:
            return
        sch = S.build(plan["pool"][i]["spec"], L) if op.get("fresh") else pool[i]
        set_clock(R, op)
        if op["k"] == "boom":
            try:
                bad = S.build(op["spec"], L)
            except Exception:
                return
            for n in range(op["times"]):
                st, v = sim.op(lambda: generate(bad, op), R.tape({"tape": op["tape"]}, (ci, oi, "boom"), n))
            R.count("fault:failing user type", op["times"])
            return
        if op["k"] != "fake":
            noise = {"repr": lambda: repr(sch), "validate": lambda: L.validate(sch, [1, {"a": 2}]).get_errors(),
                     "iter": lambda: [x for x in sch] if hasattr(sch, "__iter__") else None}[op["k"]]
            sim.op(noise, R.tape(op, (ci, oi)), op.get("fault"))
            return
        where = {"client": ci, "op": oi, "schema": repr_of(sch)}
        if op.get("storm"):
            R.storm(lambda: generate(sch, op), op["storm"])
        for attempt in range(3):
            st, v = sim.op(lambda: generate(sch, op), R.tape(op, (ci, oi), attempt),
                           op.get("fault") if attempt == 0 else None)
            if st != "fault":
                break
            sim.log("interrupted", ci, oi, v)
            R.count("interrupted_ops")
        R.count("fakes")
        ent_eio = (op.get("ent") or [0])[0] == 4
        if st == "exc" and isinstance(v, OSError) and uses_entropy[i] and simulated_entropy_failure():
            R.count("entropy_refusals")
            return
        if st == "livelock":
            raise Violation("C01:hang", "fake() made no progress within its budget", **where)
        if st == "exc":
            raise Violation("C01:raises:%s" % type(v).__name__, "fake() raised %s" % exc_text(v), **where)
        sim.log("value", ci, oi, S.canon(v))
        for attempt in range(2):
            st2, res = sim.op(lambda: L.validate(sch, v).get_errors())
            if st2 != "fault":
                break
        if st2 == "exc":
            raise Violation("C01:validate-raises:%s" % type(res).__name__,
                            "validating the generated value raised %s" % exc_text(res),
                            value=S.canon(v)[:400], **where)
        if st2 == "livelock":
            raise Violation("C01:validate-hang", "validate() made no progress", **where)
        if res:
            raise Violation("C01:rejected:%s" % type(res[0]).__name__,
                            "fake() returned a value its schema rejects: %r" % (res[0],),
                            value=S.canon(v)[:400], **where)
        R.count("validated")
        if op.get("mut"):
            mutate(v)
            R.count("mutated_results")

    sim.run([client(i) for i in range(len(plan["clients"]))])
    if R.sample is None:
        R.sample = {"schemas": [repr_of(s)[:160] for s in pool[:3] if s is not None],
                    "callers": [len(ops) for ops in plan["clients"]], "sim": {**plan["sim"], "sched": None}}


def simulated_entropy_failure():
    from . import simos
    return simos.lib().sim_entropy_faults() > 0


def repr_of(sch):
    try:
        return repr(sch)[:600]
    except Exception as e:
        return exc_text(e)


def record(plan, R):
    return concretise(plan, R, client_ops)


def shrinks(plan):
    yield from client_shrinks(plan)
    if plan.get("poke") is not None:
        yield {**plan, "poke": None}
    used = {op["s"] for _, op in client_ops(plan)}
    for i in range(len(plan["pool"])):
        if i not in used and len(plan["pool"]) > 1:
            cl = [[{**op, "s": op["s"] - (op["s"] > i)} for op in ops] for ops in plan["clients"]]
            yield {**plan, "pool": plan["pool"][:i] + plan["pool"][i + 1:], "clients": cl}
    for i, item in enumerate(plan["pool"]):
        if item["spec"]["t"] == "sub":
            continue
        for s in S.shrinks(item["spec"]):
            yield {**plan, "pool": plan["pool"][:i] + [{**item, "spec": s}] + plan["pool"][i + 1:]}


NONTRIVIAL = "shapes"
RULE = ("one evaluation is one simulated run: a pool of schemas, 1-4 callers generating from them under an "
        "adversary that picks every random outcome, clock and entropy changes, preemption and interrupts; "
        "distinct_nontrivial counts distinct schema structures (parameters left out) that were generated from")
SIM_TIME = "the wall clock is simulated (set per operation between 1910 and 2100+); no timers exist to wait on"
COMPONENTS = {
    "real": ["d42 (declaration, generation, validation, substitution, representation)", "th", "niltype", "re",
             "random.Random methods above random()/getrandbits()/_randbelow()", "uuid", "datetime"],
    "simulated": ["random outcomes (tape)", "clock_gettime/time", "getrandom", "which caller runs next",
                  "asynchronous exceptions"],
}
ASSUMPTIONS = [
    "every sub-schema of a generated schema that a value must contain is itself satisfiable (members of optional keys "
    "need not be); any(...) with an unsatisfiable alternative and "
    "lists of an unsatisfiable type are the two known findings and are only probed",
    "patterns keep to the constructs listed for C09 (no flags, look-around, back-references, \\b, inner anchors)",
    "negative exact lengths are not used (no value conforms)",
    "the simulated date stays between 1900 and 2262",
    "substituted schemas are generated from when the library's own validator accepts a known witness",
    "when the simulated OS refuses entropy, uuid4 may raise OSError",
]
