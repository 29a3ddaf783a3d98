"""C11: replicas of a set of schemas receive the same refinements as messages, each in its own order;
crashes, redeliveries and preemption included, they all end up rejecting or all with equal schemas."""
import itertools

from . import specs as S
from .runtime import Skip, Violation, concretise, exc_text, gen_fault, gen_sim, lib, list_drops, poking

NONTRIVIAL = "sets"
RULE = ("one evaluation is one simulated run: a cluster of up to six replicas receives, for each of several records, "
        "an optional fixed value and then the same 2-4 refinements in a different order each (all orders, of four six of "
        "are present), interleaved between records and replicas, with crashes in the middle of applying a message, "
        "recovery from the last durable schema, and duplicate deliveries; distinct_nontrivial counts distinct "
        "(base, set of refinements) records of which every order was applied")
SIM_TIME = "delivery order is logical time: up to 300 deliveries per run; no clock is read"
COMPONENTS = {
    "real": ["d42.declaration (refinement chains, ==)"],
    "simulated": ["message delivery: order per replica, duplicates", "replica crash in the middle of a message and "
                  "recovery from the last stored schema", "which replica runs next"],
}
ASSUMPTIONS = [
    "parameters come from a boundary universe of valid argument types (see UNIVERSE); equality is the library's ==",
    "fixing the elements or the element type of a list counts as fixing a value first",
]

E = "..."
LEN_STR = [["len", n] for n in (0, 1, 2, 3, 6, 7, -1)] + [["len", n, E] for n in (0, 1, 2, 6, 7, -1)] + \
    [["len", E, n] for n in (0, 1, 2, 6, 7, -1)] + \
    [["len", a, b] for a, b in ((0, 0), (1, 3), (2, 2), (3, 1), (2, 6), (6, 7), (0, 40))]
UNIVERSE = {
    "int": {"base": [None, 0, 1, 5, -3, 2 ** 63, True, False],
            "ref": [[m, v] for m in ("min", "max") for v in (-3, 0, 1, 2, 5, 6, 2 ** 63, 2 ** 63 + 1, True, False)]},
    "float": {"base": [None, 0.0, 1.0, 1.05, -2.5, 1e300, 1.005, 1.0449999, {"$f": "nan"}, {"$f": "inf"}],
              "ref": [[m, S.enc(v)] for m in ("min", "max")
                      for v in (-2.5, 0.0, -0.0, 1.0, 1.004, 1.005, 1.006, 1.04, 1.05, 1.1, 1e300, float("inf"),
                                float("-inf"))] +
              [["precision", p] for p in (1, 2, 3, 10, 15, 0, 16, -1)]},
    "str": {"base": [None, "", "a", "ab", "banana", "Banana", "b a", "é", "a\n"],
            "ref": LEN_STR + [["alphabet", a] for a in ("", "a", "ab", "abn", "xyz", "banana", "AB", "é", "e\u0301",
                                                        " ab", "a\n", "Bnab")] +
            [["contains", c] for c in ("", "a", "an", "x", "banana", "bananas", "A", "B", "b a", "é", "\n", "nn", "aaaa")] +
            [["regex", r] for r in ("a+", "^ab$", "^$", "[xyz]{2}", ".*", "an", "(?i)A", "é", "a$", "^[AB]", "a{3}", "\\d")]},
    "list": {"base": [None, [], ["i"], ["i", "i"], ["i", "i", "i"], [E], [E, "i"], ["i", E], [E, "i", "i"], ["i", "i", E],
                      [E, "i", E], "of"],
             "ref": [["len", n] for n in (0, 1, 2, 3, 4, -1)] + [["len", n, E] for n in (0, 1, 2, 3, -1)] +
             [["len", E, n] for n in (0, 1, 2, 3, -1)] + [["len", a, b] for a, b in ((0, 0), (1, 2), (2, 1), (2, 2), (0, 9))]},
}
PROBES = {
    "int": [-3, 0, 1, 3, 5, 6, 2 ** 63],
    "float": [-2.5, 0.0, 1.0, 1.005, 1.04, 1.05, 1.1, 1e300],
    "str": ["", "a", "ab", "an", "xx", "banana", "Banana", "aaa", "b a", "\u00e9"],
    "list": [[], [0], [0, 1], [0, 1, 2], [0, 0, 0, 0], [1]],
}


def plan(rng, tier):
    sim = gen_sim(rng, 6, p_line=.3, p_op=.05)
    if rng.random() < .5:
        sim["trace"] = "none"
    traced = sim["trace"] != "none"
    records = []
    for _ in range(rng.choice((2, 4, 6)) if traced else rng.choice((6, 10, 16))):
        t = rng.choice(("str", "str", "str", "float", "int", "list"))
        u = UNIVERSE[t]
        k = rng.choice((2, 2, 3, 3, 3, 4))
        if t == "str" and rng.random() < .7:
            # prefer different methods: same-method sets are mostly decided by the first guard
            ms = rng.sample(("len", "alphabet", "contains", "regex"), k)
            refs = [rng.choice([r for r in u["ref"] if r[0] == m]) for m in ms]
        elif t == "float" and rng.random() < .7:
            refs = [rng.choice([r for r in u["ref"] if r[0] == m])
                    for m in rng.sample(("min", "max", "precision"), min(k, 3))]
        else:
            refs = rng.sample(u["ref"], k)
        records.append({"t": t, "base": rng.choice(u["base"]) if rng.random() < .6 else None, "refs": refs})
    faulty = traced and rng.random() < .6
    orders = []
    for rec in records:
        perms = list(itertools.permutations(range(len(rec["refs"]))))
        if len(perms) > 6:          # more orders than replicas: a seeded choice of them
            rng.shuffle(perms)
        orders.append(perms)
    replicas = []
    for r in range(6):
        queues = []
        for i, rec in enumerate(records):
            perms = orders[i]
            queues.append([[i, j] for j in perms[r % len(perms)]])
        msgs = []
        while any(queues):
            q = rng.choice([q for q in queues if q])
            m = {"m": q.pop(0)}
            if faulty:
                m["fault"] = gen_fault(rng, .1)
            if rng.random() < .1:
                m["dup"] = True
            if rng.random() < .08:
                m["look"] = rng.getrandbits(40)     # the stored schema is used before it is refined
            msgs.append(m)
        replicas.append(msgs)
    return {"records": records, "replicas": replicas, "sim": sim}


def start(L, rec, base=None):
    s = getattr(L.schema, rec["t"])
    b = rec["base"]
    if b is None:
        return s
    if isinstance(b, dict):
        b = base
    if rec["t"] == "list":
        if b == "of":
            return s(L.schema.int)
        return s([... if x == E else L.schema.int(i) for i, x in enumerate(b)])
    return s(b)


def name(rec):
    return "schema.%s%s" % (rec["t"], "" if rec["base"] is None else "(%r)" % (rec["base"],))


def ref_text(r):
    return ".%s(%s)" % (r[0], ", ".join("..." if a == E else repr(S.dec(a)) for a in r[1:]))


def execute(plan, R):
    L = lib()
    sim = R.make_sim()
    n = len(plan["replicas"])
    # nan is equal to itself only as one object: replicas fix the same one
    bases = [S.dec(rec["base"]) if isinstance(rec["base"], dict) else None for rec in plan["records"]]
    for rec, base in zip(plan["records"], bases):
        try:
            start(L, rec, base)
        except Exception as e:
            raise Skip(exc_text(e))
    disk = [[None] * len(plan["records"]) for _ in range(n)]     # durable: schema, or ("rejected", text)
    order = [[[] for _ in plan["records"]] for _ in range(n)]

    def replica(ri):
        def body(task):
            store = disk[ri]
            for i, rec in enumerate(plan["records"]):
                store[i] = start(L, rec, bases[i])
            for msg in plan["replicas"][ri]:
                i, j = msg["m"]
                if i >= len(store) or j >= len(plan["records"][i]["refs"]):
                    continue
                order[ri][i].append(j)
                if isinstance(store[i], tuple):
                    sim.log("late", ri, i, j)
                    continue
                apply(ri, i, j, msg, store)
        return body

    def apply(ri, i, j, msg, store):
        rec = plan["records"][i]
        cur = store[i]
        call, *args = rec["refs"][j]
        attempts = 1 + bool(msg.get("fault")) + bool(msg.get("dup"))
        result = None
        if msg.get("look"):
            look = poking(msg["look"], L, R, False)
            sim.op(lambda: look(cur))
        for a in range(attempts):
            # a crash loses everything but the store; a duplicate is applied to the same stored schema
            st, r = sim.op(lambda: S.call(cur, call, args), None, msg.get("fault") if a == 0 else None)
            if st == "fault":
                R.count("crashes")
                continue
            if st == "exc" and isinstance(r, L.DeclarationError):
                new = ("rejected", str(r))
            elif st == "ok":
                new = r
            else:
                raise Violation("C11:raises:%s" % type(r).__name__, "a refinement raised %s" % exc_text(r),
                                program=program(rec, order[ri][i]), replica=ri)
            if result is not None:
                R.count("duplicates")
                if not same(result, new, rec["t"]):
                    raise Violation("C11:redelivery", "the same refinement of the same schema gave something else",
                                    program=program(rec, order[ri][i]), first=show(result), second=show(new))
            result = new
        if result is None:
            st, r = sim.op(lambda: S.call(cur, call, args))
            result = ("rejected", str(r)) if st == "exc" else r
        R.count("deliveries")
        sim.log("applied", ri, i, j, show(result))
        store[i] = result

    def same(a, b, t):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return isinstance(a, tuple) and isinstance(b, tuple)
        if not ((a == b) and (b == a) and not (a != b)):
            return False
        # equal schemas accept the same values
        return a is b or all(accepted(a, v) == accepted(b, v) for v in PROBES[t])

    def accepted(s, v):
        return not L.validate(s, v).has_errors()

    def show(x):
        return "rejected: %s" % x[1][:200] if isinstance(x, tuple) else repr(x)

    sim.run([replica(r) for r in range(n)])

    for i, rec in enumerate(plan["records"]):
        for ri in range(1, n):
            if sorted(order[ri][i]) != sorted(order[0][i]):
                continue            # a minimised plan that lost a message: not the same set
            if not same(disk[0][i], disk[ri][i], rec["t"]):
                raise Violation("C11:order", "two orders of the same refinements end differently",
                                one=program(rec, order[0][i]) + "  ->  " + show(disk[0][i]),
                                other=program(rec, order[ri][i]) + "  ->  " + show(disk[ri][i]))
        R.mark("sets", repr((rec["t"], rec["base"], sorted(map(repr, rec["refs"])))))
        R.count("records_rejected" if isinstance(disk[0][i], tuple) else "records_accepted")
    if R.sample is None:
        R.sample = {"records": [program(rec, range(len(rec["refs"]))) + " -> " + show(disk[0][i])[:100]
                                for i, rec in enumerate(plan["records"][:4])]}


def program(rec, js):
    return name(rec) + "".join(ref_text(rec["refs"][j]) for j in js)


def ops(plan):
    return iter(())


def record(plan, R):
    return concretise(plan, R, ops)


def shrinks(plan):
    recs = plan["records"]
    for keep in list_drops(list(range(len(recs)))):
        if keep:
            yield select(plan, keep)
    for i in range(len(recs)):
        for j in range(len(recs[i]["refs"])):
            refs = recs[i]["refs"]
            if len(refs) > 1:
                new = [{**r, "refs": refs[:j] + refs[j + 1:]} if a == i else r for a, r in enumerate(recs)]
                reps = [[{**m, "m": [i, m["m"][1] - (m["m"][1] > j)]} if m["m"][0] == i else m
                         for m in msgs if m["m"] != [i, j]] for msgs in plan["replicas"]]
                yield {**plan, "records": new, "replicas": reps}
    sim = plan["sim"]
    if sim.get("trace") not in (None, "none"):
        yield {**plan, "sim": {"trace": "none", "gap": 50, "seed": 0}}
    if len(plan["replicas"]) > 2:
        for r in range(len(plan["replicas"])):
            yield {**plan, "replicas": plan["replicas"][:r] + plan["replicas"][r + 1:]}
    if sim.get("sched"):
        for cut in list_drops(sim["sched"]):
            yield {**plan, "sim": {**sim, "sched": cut}}
    for r, msgs in enumerate(plan["replicas"]):
        for k, m in enumerate(msgs):
            for f in ("fault", "dup", "look"):
                if m.get(f):
                    new = msgs[:k] + [{x: y for x, y in m.items() if x != f}] + msgs[k + 1:]
                    yield {**plan, "replicas": plan["replicas"][:r] + [new] + plan["replicas"][r + 1:]}
    for i, rec in enumerate(recs):
        if rec["base"] is not None:
            yield {**plan, "records": recs[:i] + [{**rec, "base": None}] + recs[i + 1:]}


def select(plan, keep):
    m = {old: new for new, old in enumerate(keep)}
    return {**plan, "records": [plan["records"][i] for i in keep],
            "replicas": [[{**x, "m": [m[x["m"][0]], x["m"][1]]} for x in msgs if x["m"][0] in m]
                         for msgs in plan["replicas"]]}
