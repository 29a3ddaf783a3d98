"""C04: S % v is usable, accepts v if v conforms, and everything it generates or accepts carries v;
dict keys that v leaves out keep their schema and optionality."""
import math
import unicodedata
from datetime import date, datetime, timezone

from . import specs as S
from .core import RealRandom
from .runtime import (Skip, Violation, client_ops, client_shrinks, concretise, exc_text, gen_clock, gen_fault, gen_poke, poking,
                      gen_sim, gen_storm, gen_tape, lib, set_clock)
from .scen_c01 import repr_of

NONTRIVIAL = "shapes"
RULE = ("one evaluation is one simulated run: 1-3 callers substitute values (complete, partial, or generated) into "
        "shared schemas, generate from the results under adversarial draws, and offer them probe values with a "
        "known verdict, under preemption and interrupts; distinct_nontrivial counts distinct (schema structure, "
        "value kind) pairs whose substitution succeeded and whose result was probed")
SIM_TIME = "no timers; the wall clock is simulated"
COMPONENTS = {
    "real": ["d42 (declaration, substitution, generation, validation, utils)", "th", "niltype", "re"],
    "simulated": ["random outcomes (tape)", "clock_gettime/time", "getrandom", "which caller runs next",
                  "asynchronous exceptions"],
}
ASSUMPTIONS = [
    "schemas are satisfiable in every part; values are plain (no `...` placeholders)",
    "carrying a float means equality up to the library's documented tolerance; True/1 and False/0 are identified",
    "nothing is claimed when substitution raises (C12 is about that)",
]


def plan(rng, tier):
    n = rng.choice((1, 1, 1, 2, 2, 3))
    sim = gen_sim(rng, n)
    traced = sim["trace"] != "none"
    ctx = {"deep": True, "big": 120 if traced else 400, "inf": rng.random() < .15}
    if rng.random() < .35:
        ctx["kinds"] = set(rng.sample(S.SCALARS, 3)) | set(rng.sample(("list", "dict", "any", "or", "alias"), 3))
    pool = []
    for _ in range(rng.choice((1, 2, 3))):
        if rng.random() < .2:
            pool.append({**readings(rng), "pseed": rng.getrandbits(40)})
            continue
        spec = S.gen(rng, rng.choice((0, 1, 2, 2, 3)), ctx)
        pool.append({"spec": spec, **value_for(rng, spec), "pseed": rng.getrandbits(40)})
    if rng.random() < .25:      # the same value given to schemas that look alike, one after the other
        item = rng.choice(pool)
        for _ in range(rng.choice((1, 1, 2))):
            s = S.sibling(rng, item["spec"], ctx)
            pool.append({**item, "spec": s, "kind": "sibling", "pseed": rng.getrandbits(40)})
            if rng.random() < .3:
                pool[-1].update(value_for(rng, s))
    faulty = traced and rng.random() < .5
    clients = []
    for _ in range(n):
        ops = []
        for _ in range(rng.choice((1, 2, 2, 3))):
            ops.append({"s": rng.randrange(len(pool)), "tape": gen_tape(rng), "fakes": rng.choice((1, 1, 2)),
                        "fault": gen_fault(rng, .4) if faulty else None,
                        "storm": gen_storm(rng, .15, faulty),
                        "boom": S.with_boom(rng, pool[0]["spec"]) if rng.random() < .06 else None,
                        "times": rng.choice((1, 3, 20)),
                        "chain": [rng.choice(("whole", "part")) for _ in range(rng.choice((0, 0, 1, 1, 2)))],
                        "cseed": rng.getrandbits(40), "fresh": rng.random() < .2,
                        "clock": gen_clock(rng) if rng.random() < .2 else None})
        clients.append(ops)
    return {"pool": pool, "clients": clients, "sim": sim, "poke": gen_poke(rng)}


def value_for(rng, spec):
    w = S.witness(spec, rng)
    if rng.random() < .15:
        t = S.twins(rng, w)
        if S.accepts(spec, t):
            w = t
    c = rng.random()
    if c < .45:
        return {"value": S.enc(w), "kind": "complete"}
    if c < .9:
        return {"value": S.enc(partial(rng, w)), "kind": "partial"}
    return {"value": S.enc(nudge(rng, w)), "kind": "nudged"}


def readings(rng, depth=0):
    """A schema and a value the value can be given to in more than one way: a `..., x, ...` window
    that may sit at several places, or alternatives that overlap, over members that look alike."""
    def leaf():
        return rng.choice(({"t": "int", "calls": []}, {"t": "int", "calls": [["value", rng.choice((1, 2))]]},
                           {"t": "int", "calls": [["min", 2]]}, {"t": "str", "calls": []},
                           {"t": "any", "alts": [{"t": "int", "calls": []}, {"t": "str", "calls": []}]},
                           {"t": "str", "calls": [["len", 1]]}, {"t": "none", "calls": []},
                           {"t": "list", "of": {"t": "int", "calls": []}}))

    def member(d):
        c = rng.random()
        if c < .6 or d > 2:
            return {"t": "dict", "relaxed": rng.random() < .3,
                    "keys": [[k, rng.random() < .4, leaf() if d > 1 or rng.random() < .8 else member(d + 1)]
                             for k in rng.sample("abc", rng.choice((1, 1, 2, 2, 3)))]}
        if c < .7:
            return leaf()
        if c < .85:
            return {"t": "any", "alts": [member(d + 1) for _ in range(rng.choice((2, 2, 3)))]}
        return window(d + 1)

    def window(d):
        els = [member(d + 1) for _ in range(rng.choice((1, 1, 1, 2)))]
        form = rng.choice(("body", "body", "body", "tail", "head"))
        return {"t": "list", "items": (["..."] if form != "head" else []) + els + (["..."] if form != "tail" else [])}

    def like(n, d=0):
        """Something of the look of n: conforming in full, in part, or nearly."""
        t = n["t"]
        if rng.random() < .06 and d:
            return rng.choice((1, 2, "x", None, {}, [], {"a": 1}, {"b": 2}))
        if t == "any":
            return like(rng.choice(n["alts"]), d)
        if t == "dict":
            return {S.dec(k): like(s, d + 1) for k, o, s in n["keys"] if rng.random() < .65}
        if t == "list" and n.get("items"):
            els = [x for x in n["items"] if x != "..."]
            return [like(rng.choice(els), d + 1) for _ in range(rng.choice((1, 2, 2, 3, 4)))] if rng.random() < .6 else \
                [rng.choice((like(els[0], d + 1), 1, "x")) for _ in range(rng.randrange(3))] + \
                [like(e, d + 1) for e in els] + [like(els[-1], d + 1) for _ in range(rng.randrange(3))]
        try:
            return S.witness(n, rng)
        except S.Unsat:
            return 1

    spec = window(0) if rng.random() < .65 else {"t": "any", "alts": [member(1) for _ in range(rng.choice((2, 2, 3)))]}
    v = like(spec)
    for _ in range(6):
        if S.accepts(spec, v) or rng.random() < .3:
            break
        v = like(spec)
    if rng.random() < .3:
        spec, v = rng.choice((
            lambda: ({"t": "dict", "keys": [["k", False, spec], ["o", True, {"t": "int", "calls": []}]], "relaxed": False}, {"k": v}),
            lambda: ({"t": "alias", "name": "A", "of": spec}, v),
            lambda: ({"t": "list", "of": spec}, [v, v])))()
    return {"spec": spec, "value": S.enc(v), "kind": "readings"}


def partial(rng, w):
    if isinstance(w, dict):
        return {k: partial(rng, x) for k, x in w.items() if rng.random() < .6}
    if isinstance(w, list):
        return [partial(rng, x) for x in w]
    return w


def nudge(rng, w):
    """Change one place; the result may or may not still fit."""
    paths = list(leaves(w))
    if not paths:
        return w
    path, leaf = rng.choice(paths)
    return replace(w, path, rng.choice(other_values(leaf)))


# ------------------------------------------------------------------------------------ model

def tolerance(spec):
    """The coarsest float precision declared anywhere."""
    best = None
    todo = [spec]
    while todo:
        s = todo.pop()
        if isinstance(s, dict):
            for c in s.get("calls") or ():
                if c[0] == "precision":
                    best = c[1] if best is None else min(best, c[1])
            todo += [v for k, v in s.items() if k != "calls"]
        elif isinstance(s, list):
            todo += s
    return 0.0 if best is None else 10.0 ** -best


def carries(v, w, tol):
    if isinstance(v, dict):
        return isinstance(w, dict) and all(k in w and carries(x, w[k], tol) for k, x in v.items())
    if isinstance(v, list):
        return isinstance(w, list) and len(v) == len(w) and all(carries(a, b, tol) for a, b in zip(v, w))
    if isinstance(v, float):
        return isinstance(w, float) and (v == w or (v != v and w != w) or math.isclose(v, w) or (tol and abs(v - w) <= tol * 1.001 + 1e-9 * abs(v)))
    if isinstance(w, (dict, list, float)):
        return False
    if isinstance(v, (bool, int)) and isinstance(w, (bool, int)):
        return v == w
    return type(v) is type(w) and v == w


def leaves(v, path=()):
    if isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    else:
        yield path, v


def containers(v, path=()):
    if isinstance(v, (dict, list)):
        yield path, v
        for k, x in (v.items() if isinstance(v, dict) else enumerate(v)):
            yield from containers(x, path + (k,))


def replace(v, path, new):
    if not path:
        return new
    if isinstance(v, dict):
        return {k: (replace(x, path[1:], new) if _k(k) == _k(path[0]) else x) for k, x in v.items()}
    return [(replace(x, path[1:], new) if i == path[0] else x) for i, x in enumerate(v)]


def _k(k):
    return k


def other_values(x):
    """Values that differ from x beyond any tolerance."""
    if x is None:
        return [0, "", False]
    if isinstance(x, bool):
        return [not x, "true", None]
    if isinstance(x, int):
        return [x + 1, x - 1, -x - 1, str(x)]
    if isinstance(x, float):
        if not math.isfinite(x):
            return [0.0, 1.5, -x if x == x else math.inf]
        return [x + max(2.0, abs(x) * .5), x - max(2.0, abs(x) * .5), "x"]
    if isinstance(x, str):
        near = [y for y in (x.upper(), x.swapcase(), x.strip(), x + " ", unicodedata.normalize("NFC", x),
                            unicodedata.normalize("NFD", x), x.replace("\r", "\n"), x[::-1]) if y != x]
        return [x + "x", "x" + x, x[:-1] if x else "y", None] + near
    if isinstance(x, bytes):
        return [x + b"x", "x"] + [y for y in (x.upper(), x.strip(), x[::-1], x[:-1]) if y != x]
    if hasattr(x, "hex"):
        return [S.dec({"$u": "a1b9a5b0-7c6e-4d39-8a43-1d2c3b4a5f60"}), str(x), type(x)(int=x.int ^ 1), type(x)(int=x.int ^ 1 << 127)]
    near = []
    if isinstance(x, datetime):
        near = [x.replace(microsecond=(x.microsecond + 1) % 10 ** 6), x.replace(second=(x.second + 1) % 60),
                x.replace(tzinfo=timezone.utc if x.tzinfo is None else None), x.replace(year=x.year % 9998 + 1, day=1)]
    elif isinstance(x, date):
        near = [x.replace(month=x.month % 12 + 1, day=1), x.replace(year=x.year % 9998 + 1, day=1)]
    near = [y for y in near if y != x]
    return [S.dec({"$dt": "2001-02-03T04:05:06"}), S.dec({"$d": "2001-02-03"}), "x"] + near


class NoModel(Exception):
    pass


def complete(n, v, rng, unspecified, path=()):
    """A value that conforms to n and carries v, adding only dict keys v leaves out. Where v is
    given through any(...) or a `..., x, ...` window there is more than one reading: NoModel.
    `unspecified` collects (path of the dict, key, optional, spec, present)."""
    t = n["t"]
    if t == "any":
        if n["alts"] is not None and len(n["alts"]) == 1:
            return complete(n["alts"][0], v, rng, unspecified, path)
        if not isinstance(v, (dict, list)) and S._acc(n, v):
            return v
        raise NoModel()
    if t == "dict":
        if not isinstance(v, dict):
            raise NoModel()
        if n["keys"] is None:
            return v
        out = {}
        known = {S.dec(k) for k, _, _ in n["keys"]}
        if any(k not in known for k in v):
            if not n["keys"] and n["relaxed"]:
                return v
            raise NoModel()
        for k, opt, s in n["keys"]:
            k = S.dec(k)
            if k in v:
                out[k] = complete(s, v[k], rng, unspecified, path + (k,))
            else:
                present = not opt or rng.random() < .5
                unspecified.append((path, k, opt, s, present))
                if present:
                    out[k] = S._wit(s, rng, False)
        if n["relaxed"]:
            unspecified.append((path, ..., None, None, False))
        return out
    if t == "list":
        if not isinstance(v, list):
            raise NoModel()
        if n.get("of") is not None:
            return [complete(n["of"], x, rng, unspecified, path + (i,)) for i, x in enumerate(v)]
        if n.get("items") is None:
            return v
        form, els = S.list_form(n["items"])
        if form == "body" or len(v) < len(els):
            raise NoModel()
        at = len(v) - len(els) if form == "tail" else 0
        return [complete(els[i - at], x, rng, unspecified, path + (i,)) if at <= i < at + len(els) else x
                for i, x in enumerate(v)]
    return v


def get(v, path):
    for k in path:
        v = v[k]
    return v


def drop_key(v, path, key):
    d = dict(get(v, path))
    d.pop(key)
    return replace(v, path, d)


def add_key(v, path, key, x):
    return replace(v, path, {**get(v, path), key: x})


def probes(spec, v, rng):
    """[(verdict, value, why)]"""
    n = S.norm(spec)
    tol = tolerance(spec)
    out = []
    conforms = S._acc(n, v)
    if conforms:
        out.append((True, v, "the substituted value conforms to the original schema"))
    elif not any(isinstance(x, float) for _, x in leaves(v)):
        out.append((False, v, "the original schema refuses it: keys the value leaves out keep schema and optionality"))
    base = v if conforms else None
    try:
        un = []
        full = complete(n, v, rng, un)
        if S._acc(n, full):
            base = full
            out.append((True, full, "completes the substituted value under the original schema"))
            for path, k, opt, s, present in un:
                if k is ...:
                    new = "zz_unknown_key"
                    if new not in get(full, path):
                        out.append((True, add_key(full, path, new, 1), "the relaxed dict is still relaxed"))
                    continue
                if present:
                    other = S._wit(s, rng, False)
                    out.append((True, replace(full, path + (k,), other),
                                "unspecified key %r holds another conforming value" % (k,)))
                    out.append((bool(opt), drop_key(full, path, k),
                                "unspecified %s key %r is absent" % ("optional" if opt else "required", k)))
                bad = [x for x in (None, 0, "zz-unlikely", [], {}, 1.5, b"zz") if not S._acc(s, x)]
                if bad:
                    out.append((False, add_key(full, path, k, rng.choice(bad)),
                                "unspecified key %r holds a non-conforming value" % (k,)))
            probe_accept = [(a, x, y) for a, x, y in out if a]
            for a, x, y in probe_accept:
                if not S._acc(n, x):
                    out.remove((a, x, y))
    except (NoModel, S.Unsat):
        pass
    if base is None:
        base = v
    ls = list(leaves(v))
    rng.shuffle(ls)
    for path, x in ls[:4]:
        for y in rng.sample(other_values(x), 2) if len(other_values(x)) > 1 else other_values(x):
            out.append((False, replace(base, path, y), "a different value at %r" % (path,)))
    cs = list(containers(v))
    rng.shuffle(cs)
    for path, x in cs[:3]:
        if isinstance(x, list):
            if x:
                out.append((False, replace(base, path, get(base, path)[:-1]), "one element less at %r" % (path,)))
                out.append((False, replace(base, path, get(base, path)[1:]), "first element gone at %r" % (path,)))
            out.append((False, replace(base, path, get(base, path) + [1]), "one element more at %r" % (path,)))
        else:
            for k in list(x)[:2]:
                out.append((False, drop_key(base, path, k), "substituted key %r is absent" % (k,)))
    for _ in range(3):
        try:
            w = S.witness(n, rng)
        except S.Unsat:
            break
        if not carries(v, w, tol):
            out.append((False, w, "conforms to the original schema but does not carry the value"))
    good = []
    for verdict, w, why in out:
        if not verdict and why.split()[0] in ("a", "one", "first", "substituted") and carries(v, w, tol):
            continue        # e.g. a removed element that leaves an equal list
        good.append((verdict, w, why))
    rng.shuffle(good)
    keep = [g for g in good if g[1] is v] + [g for g in good if g[1] is not v]
    return keep[:14]


# ---------------------------------------------------------------------------------- execution

def execute(plan, R):
    L = lib()
    pool = []
    for item in plan["pool"]:
        spec = item["spec"]
        if not S.all_sat(spec):
            raise Skip("unsatisfiable")
        try:
            with poking(plan.get("poke"), L, R):
                sch = S.build(spec, L)
        except Exception as e:
            raise Skip("declaration refused: %s" % exc_text(e))
        v = S.dec(item["value"])
        pool.append((sch, v, S.accepts(spec, v), probes(spec, v, RealRandom(item["pseed"])), tolerance(spec),
                     S.norm(spec)))
    sim = R.make_sim()

    def client(ci):
        def body(task):
            for oi, op in enumerate(plan["clients"][ci]):
                if op["s"] < len(pool):
                    one(ci, oi, op)
        return body

    def retried(fn, op=None, tape=None):
        """Interrupted once if the plan says so; the retry must do."""
        st, v = sim.op(fn, tape, (op or {}).get("fault"))
        if st == "fault":
            R.count("interrupted_ops")
            st, v = sim.op(fn, tape)
        return st, v

    def one(ci, oi, op):
        sch, v, conforms, prs, tol, n = pool[op["s"]]
        item = plan["pool"][op["s"]]
        if op.get("fresh"):
            # nobody else holds this one; once done with, its place in memory is another's
            sch = S.build(item["spec"], L)
        set_clock(R, op)
        tape = R.tape(op, (ci, oi))
        where = {"client": ci, "op": oi, "schema": repr_of(sch), "value": repr(v)[:300]}
        if op.get("boom"):
            for _ in range(op["times"]):
                sim.op(lambda: S.build(op["boom"], L) % S.dec(item["value"]), tape)
            R.count("fault:failing user type", op["times"])
        if op.get("storm"):
            R.storm(lambda: L.fake(sch % S.dec(item["value"])), op["storm"])
        # the caller hands over its own copy
        st, r = retried(lambda: sch % S.dec(item["value"]), op, tape)
        if st != "ok":
            R.count("substitution_refused" if st == "exc" and isinstance(r, L.SubstitutionError)
                    else "substitution_failed_otherwise")
            sim.log("refused", ci, oi, type(r).__name__)
            return
        R.count("substitutions")
        R.mark("shapes", S.shape(item["spec"]) + "%" + item["kind"])
        R.mark("outcomes", (("conforming" if conforms else "partial")))
        where["result"] = repr_of(r)
        sim.log("result", ci, oi, where["result"])
        for _ in range(op["fakes"]):
            st, w = retried(lambda: L.fake(r), op, tape)
            if st == "livelock":
                raise Violation("C04:unusable:hang", "generating from the result does not end", **where)
            if st == "exc":
                raise Violation("C04:unusable:%s" % type(w).__name__,
                                "generating from the result raised %s" % exc_text(w), **where)
            sim.log("value", ci, oi, S.canon(w))
            if not carries(v, w, tol):
                raise Violation("C04:generated-other", "a value generated from the result does not carry the "
                                "substituted data", generated=repr(w)[:300], **where)
            R.count("generated")
            # pinned where given and unchanged elsewhere, so whatever the reading it conforms to the original
            if not S._acc(n, w):
                raise Violation("C04:generated-nonconforming", "a value generated from the result does not conform to "
                                "the original schema", generated=repr(w)[:300], **where)
            ok = verdict(r, w, where)
            if not ok:
                raise Violation("C04:unusable:rejects-own", "the result rejects a value generated from it",
                                generated=repr(w)[:300], **where)
        for want, w, why in prs:
            got = verdict(r, w, where)
            R.count("probes_accept" if want else "probes_reject")
            if got != want:
                raise Violation("C04:%s" % ("rejects" if want else "accepts"),
                                "the result %s a value it must %s: %s" % (
                                    "accepts" if got else "rejects", "accept" if want else "reject", why),
                                probe=repr(w)[:300], **where)

        cur, crng = r, RealRandom(op["cseed"])
        for how in op["chain"]:
            st, w = retried(lambda: L.fake(cur), op, tape)
            if st != "ok":
                break           # already judged above
            if how == "part":
                w = partial(crng, w)
            own = S.enc(w)
            st, nxt = retried(lambda: cur % S.dec(own), None, tape)
            if st != "ok":
                R.count("chained_refused")
                break
            R.count("chained")
            more = {**where, "result": repr_of(cur), "then": repr(w)[:300], "final": repr_of(nxt)}
            sim.log("chained", ci, oi, more["final"])
            if verdict(cur, w, more) and not verdict(nxt, w, more):
                raise Violation("C04:rejects", "a value conforms to a schema that is itself the result of a "
                                "substitution, yet substituting it there makes a schema that rejects it", **more)
            st, g = retried(lambda: L.fake(nxt), op, tape)
            if st != "ok":
                raise Violation("C04:unusable:%s" % type(g).__name__,
                                "generating from a twice substituted schema: %s" % exc_text(g), **more)
            if not carries(w, g, tol) or not carries(v, g, tol):
                raise Violation("C04:generated-other", "a value generated after two substitutions does not carry "
                                "the substituted data", generated=repr(g)[:300], **more)
            if not verdict(nxt, g, more):
                raise Violation("C04:unusable:rejects-own", "the result rejects a value generated from it",
                                generated=repr(g)[:300], **more)
            cur = nxt

    def verdict(r, w, where):
        st, errs = retried(lambda: L.validate(r, w).get_errors())
        if st != "ok":
            raise Violation("C04:unusable:validate", "validating against the result raised %s" % exc_text(errs),
                            probe=repr(w)[:300], **where)
        return not errs

    sim.run([client(i) for i in range(len(plan["clients"]))])
    if R.sample is None and pool:
        R.sample = {"schema": repr_of(pool[0][0]), "value": repr(pool[0][1])[:200],
                    "probes": [[a, repr(w)[:80], y] for a, w, y in pool[0][3][:3]]}


def record(plan, R):
    return concretise(plan, R, client_ops)


def shrinks(plan):
    yield from client_shrinks(plan)
    if plan.get("poke") is not None:
        yield {**plan, "poke": None}
    for (ci, oi), op in client_ops(plan):
        if op.get("chain"):
            cl = [list(ops) for ops in plan["clients"]]
            cl[ci][oi] = {**op, "chain": op["chain"][:-1]}
            yield {**plan, "clients": cl}
    used = {op["s"] for _, op in client_ops(plan)}
    for i in range(len(plan["pool"])):
        if i not in used and len(plan["pool"]) > 1:
            cl = [[{**op, "s": op["s"] - (op["s"] > i)} for op in ops] for ops in plan["clients"]]
            yield {**plan, "pool": plan["pool"][:i] + plan["pool"][i + 1:], "clients": cl}
    for i, item in enumerate(plan["pool"]):
        def put(new):
            return {**plan, "pool": plan["pool"][:i] + [{**item, **new}] + plan["pool"][i + 1:]}
        # descend into a member together with its part of the value
        for spec, v in members(item["spec"], S.dec(item["value"])):
            yield put({"spec": spec, "value": S.enc(v)})
        for s in S.shrinks(item["spec"]):
            yield put({"spec": s})
        for v in value_shrinks(S.dec(item["value"])):
            yield put({"value": S.enc(v)})


def members(spec, v):
    n = spec
    t = n["t"]
    if t == "dict" and isinstance(v, dict):
        for k, o, s in n.get("keys") or ():
            k = S.dec(k)
            if k in v:
                yield s, v[k]
                keys = [x for x in n["keys"] if S.dec(x[0]) != k]
                yield {**n, "keys": keys}, {a: b for a, b in v.items() if a != k}
    if t == "list" and isinstance(v, list) and n.get("of") is not None:
        for x in v:
            yield n["of"], x
    if t == "list" and isinstance(v, list) and n.get("items"):
        form, els = S.list_form(n["items"])
        at = len(v) - len(els) if form == "tail" else 0
        if form != "body" and len(v) >= len(els):
            for i, e in enumerate(els):
                yield e, v[at + i]
                idx = n["items"].index(e)
                yield {**n, "items": n["items"][:idx] + n["items"][idx + 1:]}, v[:at + i] + v[at + i + 1:]


def value_shrinks(v):
    if isinstance(v, list):
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
        for i, x in enumerate(v):
            for y in value_shrinks(x):
                yield v[:i] + [y] + v[i + 1:]
    elif isinstance(v, dict):
        for k in list(v):
            yield {a: b for a, b in v.items() if a != k}
        for k in list(v):
            for y in value_shrinks(v[k]):
                yield {**v, k: y}
    elif isinstance(v, str) and v:
        yield v[:len(v) // 2]
        yield v[1:]
    elif isinstance(v, int) and not isinstance(v, bool) and v:
        yield 0
        yield v // 2
    elif isinstance(v, float) and v not in (0.0, 1.0):
        yield 0.0
        yield 1.0
