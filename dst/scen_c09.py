"""C09: whatever is drawn, and whoever else is generating, a supported pattern yields a string it
matches entirely; an unsupported construct never yields a string that does not match."""
import re

from . import regexlang as rl
from .runtime import (Skip, Violation, client_ops, client_shrinks, concretise, exc_text, gen_fault, gen_sim,
                      gen_storm, gen_tape, lib)

NONTRIVIAL = "shapes"
RULE = ("one evaluation is one simulated run: 1-3 callers generate from 1-4 patterns, sharing generators, under an "
        "adversary that picks every branch, repeat count and character, with preemption and interrupts; "
        "distinct_nontrivial counts distinct pattern structures (literals and bounds collapsed) generated from")
SIM_TIME = "no timers and no clock"
COMPONENTS = {
    "real": ["d42.generation (RegexGenerator, Random, Generator)", "schema.str.regex and its validation",
             "re._parser", "random.Random methods above random()/getrandbits()/_randbelow()"],
    "simulated": ["random outcomes (tape)", "which caller runs next", "asynchronous exceptions"],
}
ASSUMPTIONS = [
    "the oracle is an independent matcher over the tree the pattern was rendered from; re is asked as well where "
    "its backtracking stays cheap",
    "flags, boundaries (\\b \\B), anchors inside the pattern and \\s-like classes inside supported patterns are "
    "outside the listed grammar",
    "a pattern with an unsupported construct may also yield a string, as long as the string matches",
    "replacement alphabets keep to the meaning of their names (letters without a newline, digits that are digits)",
]

ALPHABETS = [None, None, None, None, {"letters": "xyz"}, {"digits": "01"}, {"word": "ab_"}, {"letters": "a"},
             {"letters": "é日 -", "word": "éa9", "digits": "٣7"}]


def plan(rng, tier):
    n = rng.choice((1, 1, 1, 2, 2, 3))
    sim = gen_sim(rng, n)
    traced = sim["trace"] != "none"
    gens = [{"max_repeat": rng.choice((32, 32, 0, 1, 2, 7, 33, 43, 100)), "alphabet": rng.choice(ALPHABETS)}
            for _ in range(rng.choice((1, 1, 2)))]
    cap = max(g["max_repeat"] for g in gens + [{"max_repeat": 32}])
    pool = []
    for _ in range(rng.choice((1, 2, 3, 4))):
        bad = rng.random() < .25
        depth = rng.choice((0, 1, 1, 2) if bad else (0, 1, 2, 2, 3, 3) + ((4, 5) if tier == "thorough" else ()))
        for _ in range(30):
            p = rl.gen(rng, depth, cap, 200 if traced else 800, unsupported=bad)
            if rl.max_len(p["node"], cap) <= (400 if traced else 2500) and (not bad or rl.safe_for_re(p)):
                break
        else:
            p = {"pre": "", "node": ["lit", "a"], "post": ""}
        pool.append(p)
        if rng.random() < .2:
            q = {**p, "node": rl.sibling(rng, p["node"])}
            if not rl.has_raw(q["node"]) or rl.safe_for_re(q):
                pool.append(q)
    pairs = []
    if rng.random() < (.02 if traced else .15):       # classes that look much alike, every character they may yield
        items = [["c", c] for c in rng.sample(rl.LITS, rng.choice((2, 3, 5, 8)))]
        if rng.random() < .4:
            items.append(rng.choice((["d"], ["w"], ["r", *rng.choice(rl.RANGES[:9])])))
        i = rng.randrange(len(items))
        near = items[:i] + [["c", rng.choice(rl.LITS)]] + items[i + 1:]
        neg = rng.random() < .7
        for it in (items, near):
            cls = ["cls", neg, it]
            if any(True for _ in rl.class_example(cls)):
                pairs.append(len(pool))
                pool.append({"pre": "", "node": ["rep", cls, 100, 100, False], "post": ""})
    faulty = traced and rng.random() < .4
    clients = []
    for _ in range(n):
        ops = []
        for _ in range(rng.choice((1, 2, 3, 5))):
            op = {"p": rng.randrange(len(pool)), "via": rng.choice(("gen", "gen", "schema", "list")),
                  "g": rng.randrange(len(gens)), "tape": gen_tape(rng)}
            if faulty:
                op["fault"] = gen_fault(rng, .3)
                op["storm"] = gen_storm(rng, .15, True)
            ops.append(op)
        for i in pairs:
            ops.insert(rng.randrange(len(ops) + 1), {"p": i, "via": "gen", "g": 0, "tape": {**gen_tape(rng), "mode": "sweep"}})
        clients.append(ops)
    return {"pool": pool, "gens": gens, "clients": clients, "sim": sim}


def skeleton(node):
    k = node[0]
    if k in ("lit", "dot", "d", "w"):
        return {"lit": "a"}.get(k, k)
    if k == "at":
        return node[1]
    if k == "raw":
        return "<%s>" % node[1]
    if k == "cls":
        return "[%s%s]" % ("^" if node[1] else "", "".join(sorted({it[0] for it in node[2]})))
    if k == "grp":
        return "(%s%s)" % (node[1] if node[1][0] == "?" else node[1][0], skeleton(node[2]))
    if k in ("alt", "top", "seq"):
        return k[0] + "(" + "|".join(skeleton(x) for x in node[1]) + ")"
    lo, hi = node[2], node[3]
    b = "%s,%s" % ("0" if lo == 0 else "1" if lo == 1 else "n" if lo <= 32 else "N",
                   "" if hi is None else "1" if hi == 1 else "m" if hi <= 32 else "M")
    return skeleton(node[1]) + "{" + b + "}" + ("?" if node[4] else "")


def execute(plan, R):
    L = lib()
    pool = []
    for p in plan["pool"]:
        text = rl.render(p)
        try:
            re.compile(text)
        except (re.error, OverflowError, RecursionError):
            raise Skip("not a pattern")
        bad = rl.has_raw(p["node"])
        pool.append((p, text, bad, rl.safe_for_re(p)))
    shared = L.Random()
    gens = [L.RegexGenerator(shared, max_repeat=g["max_repeat"], **({"alphabet": g["alphabet"]} if g["alphabet"] else {}))
            for g in plan["gens"]]
    sim = R.make_sim()

    def client(ci):
        def body(task):
            for oi, op in enumerate(plan["clients"][ci]):
                one(ci, oi, op)
        return body

    def one(ci, oi, op):
        p, text, bad, safe = pool[op["p"] % len(pool)]
        via = op["via"]
        sch = None
        if via == "schema" and safe:
            sch = L.schema.str.regex(text)

            def fn():
                return L.fake(sch)
        elif via == "list" and safe:
            sch = L.schema.list([L.schema.str.regex(text), L.schema.dict({"k": L.schema.str.regex(text)})])

            def fn():
                return L.fake(sch)
        else:
            g = gens[op["g"] % len(gens)]

            def fn():
                return g.generate(text)
        where = {"client": ci, "op": oi, "pattern": text, "knobs": plan["gens"][op["g"] % len(gens)] if sch is None else None}
        if op.get("storm"):
            R.storm(fn, op["storm"])
        for attempt in range(3):
            st, v = sim.op(fn, R.tape(op, (ci, oi), attempt), op.get("fault") if attempt == 0 else None)
            if st != "fault":
                break
            R.count("interrupted_ops")
        R.count("generated")
        R.mark("shapes", skeleton(p["node"]) + ("^" if p["pre"] else "") + ("$" if p["post"] else ""))
        if st == "livelock":
            raise Violation("C09:hang", "generating from a pattern made no progress", **where)
        if st == "exc":
            sim.log("refused", ci, oi, type(v).__name__)
            if bad or rl.has_flags(p["node"]):      # groups with flags are not in the listed grammar: they may be refused
                R.count("refused_unsupported")
                return
            raise Violation("C09:raises:%s" % type(v).__name__, "a supported pattern raised %s" % exc_text(v), **where)
        outs = [v] if sch is None or via == "schema" else [v[0], v[1]["k"]]
        sim.log("out", ci, oi, repr(outs))
        for s in outs:
            if not isinstance(s, str):
                raise Violation("C09:mismatch", "not a string: %r" % (s,), **where)
            if bad:
                R.count("unsupported_but_matching")
                if safe and re.fullmatch(text, s) is None:
                    raise Violation("C09:unsupported", "an unsupported construct yielded a string that does not match",
                                    generated=repr(s)[:400], **where)
                continue
            if not rl.fullmatch(p, s):
                raise Violation("C09:mismatch", "the generated string does not match the entire pattern",
                                generated=repr(s)[:400], **where)
            if safe:
                R.count("checked_by_re_too")
                if re.fullmatch(text, s) is None:
                    raise Violation("C09:mismatch", "re.fullmatch refuses the generated string",
                                    generated=repr(s)[:400], **where)
            R.count("matched")
        if sch is not None and not bad:
            st, errs = sim.op(lambda: L.validate(sch, v).get_errors())
            if st != "ok" or errs:
                raise Violation("C09:rejected", "schema.str.regex(p) does not accept what it generated: %r" % (errs,),
                                generated=repr(v)[:400], **where)
            R.count("validated")

    sim.run([client(i) for i in range(len(plan["clients"]))])
    if R.sample is None:
        R.sample = {"patterns": [t for _, t, _, _ in pool]}


def record(plan, R):
    return concretise(plan, R, client_ops)


def shrinks(plan):
    yield from client_shrinks(plan)
    used = {op["p"] % len(plan["pool"]) for _, op in client_ops(plan)}
    if len(used) == 1 and len(plan["pool"]) > 1:
        i = used.pop()
        yield {**plan, "pool": [plan["pool"][i]], "clients": [[{**op, "p": 0} for op in ops] for ops in plan["clients"]]}
    for i, g in enumerate(plan["gens"]):
        if g["alphabet"]:
            yield {**plan, "gens": plan["gens"][:i] + [{**g, "alphabet": None}] + plan["gens"][i + 1:]}
        if g["max_repeat"] != 32:
            yield {**plan, "gens": plan["gens"][:i] + [{**g, "max_repeat": 32}] + plan["gens"][i + 1:]}
    for i, p in enumerate(plan["pool"]):
        for q in rl.shrinks(p):
            yield {**plan, "pool": plan["pool"][:i] + [q] + plan["pool"][i + 1:]}
