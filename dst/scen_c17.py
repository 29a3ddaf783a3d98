"""C17: a fleet of interpreters that differ in everything the seed is not - hash randomisation, optimisation
level, allocator, locale, time zone, clock, entropy, heap, earlier operations (some of them interrupted), other
threads at work, which thread seeds and which generates - is given the same seed and the same schemas. All must
produce the same values, every time they are asked again."""
import _thread
import decimal
import gc
import itertools
import os
import random
import re
import sys
import warnings

from . import core
from . import regexlang as rl
from . import simos
from . import specs as S
from .runtime import Skip, Violation, exc_text, gen_clock, gen_fault, gen_poke, lib, list_drops, poking

NONTRIVIAL = "shapes"
RULE = ("one evaluation is one seed and one sequence of schemas, generated repeatedly on each of the interpreters of "
        "a fleet whose configuration, surroundings and history differ; distinct_nontrivial counts distinct "
        "schema structures (parameters left out) generated from")
SIM_TIME = "the wall clock is simulated and jumps between 1910 and 2100+ before and during generation"
COMPONENTS = {
    "real": ["d42 (everything)", "the random module, seeded only through d42", "CPython and its hash randomisation"],
    "simulated": ["clock_gettime/time", "getrandom", "which thread runs next", "asynchronous exceptions",
                  "interpreter configuration (hash seed, -O, allocator, locale, time zone)"],
}
ASSUMPTIONS = [
    "nothing outside d42 draws from the random module between set_seed and the last value",
    "other threads at work meanwhile validate, print, compare, declare and substitute; they do not generate",
    "dicts are compared as mappings (key order is not part of the value)",
]

LANES = 4


# ----------------------------------------------------------------------------------- planning

def fixed(spec, rng):
    """The same schema with every uuid4, datetime and date given a value."""
    t = spec["t"]
    if t in ("uuid4", "datetime", "date") and not any(c[0] == "value" for c in spec.get("calls", ())):
        v = {"uuid4": {"$u": rng.choice(S.UUIDS)}, "datetime": {"$dt": rng.choice(S.DATETIMES)},
             "date": {"$d": rng.choice(S.DATES)}}[t]
        return {**spec, "calls": [["value", v]]}
    out = dict(spec)
    if isinstance(spec.get("of"), dict):
        out["of"] = fixed(spec["of"], rng)
    if spec.get("items") is not None:
        out["items"] = [x if x == "..." else fixed(x, rng) for x in spec["items"]]
    if t == "dict" and spec.get("keys") is not None:
        out["keys"] = [[k, o, fixed(s, rng)] for k, o, s in spec["keys"]]
    if spec.get("alts") is not None:
        out["alts"] = [fixed(s, rng) for s in spec["alts"]]
    if t == "add":
        out["a"], out["b"] = fixed(spec["a"], rng), fixed(spec["b"], rng)
    return out


def with_custom(spec, rng):
    """Some ints become a user's own type, which draws through the library's Random."""
    t = spec["t"]
    if t == "int" and rng.random() < .5:
        return {"t": "custom", "n": rng.randrange(5)}
    out = dict(spec)
    if isinstance(spec.get("of"), dict) and t != "req":
        out["of"] = with_custom(spec["of"], rng)
    if spec.get("items") is not None:
        out["items"] = [x if x == "..." else with_custom(x, rng) for x in spec["items"]]
    if t == "dict" and spec.get("keys") is not None:
        out["keys"] = [[k, o, with_custom(s, rng)] for k, o, s in spec["keys"]]
    if spec.get("alts") is not None:
        out["alts"] = [with_custom(s, rng) for s in spec["alts"]]
    return out


def custom_types(L):
    """What a user would write against d42.custom_type."""
    from d42.custom_type import CustomSchema, Props

    class Own(CustomSchema[Props]):
        n = 0

        def __represent__(self, visitor, *, indent=0, **kw):
            return "own%d" % self.n

        def __validate__(self, visitor, *, value, path, **kw):
            return visitor.make_validation_result()

        def __generate__(self, visitor, **kw):
            return self.draw(visitor.random)

    class Deck(Own):
        n = 0

        def draw(self, r):
            deck = list(range(12))
            r.shuffle_list(deck)
            return deck

    class Pick(Own):
        n = 1

        def draw(self, r):
            return r.random_choice(["a", 1, None, (2, 3), 4.5, "z"])

    class Code(Own):
        n = 2

        def draw(self, r):
            return r.random_str(9, "αβγδ01") + "-" + str(r.random_int(-10 ** 30, 10 ** 30))

    class Price(Own):
        n = 3

        def draw(self, r):
            return [r.random_float(-5.0, 5.0), r.random_float(0.0, 99.99, 2), r.random_float(-1e308, 1e308)]

    class Mixed(Own):
        n = 4

        def draw(self, r):
            two = ["x", "y"]
            r.shuffle_list(two)
            return {r.random_choice(two): r.random_int(0, 1), "n": two}
    kinds = [Deck, Pick, Code, Price, Mixed]
    return lambda n: kinds[n]()


def gen_key(rng):
    c = rng.randrange(7)
    if c == 0:
        return rng.choice((0, 1, -1, 42, 2 ** 32, 2 ** 64, -2 ** 100))
    if c == 1:
        return rng.choice(("", "seed", "é", "0", "42"))
    if c == 2:
        return {rng.choice(("$b", "$ba")): rng.choice(("", "00", "736565640a"))}
    if c == 3:
        return rng.choice((0.0, 0.5, -1.5, 1e300))
    return rng.getrandbits(rng.choice((8, 16, 31, 64, 200)))


QUIET = ("validate", "repr", "eq", "sub", "build", "badbuild", "req", "iter", "generator", "custom", "rollout", "native")


def gen_pert(rng, n_pool, n_seq, pool, quiet_only=False):
    p = {"rs": rng.getrandbits(40)}
    before = []
    if not quiet_only:
        for _ in range(rng.choice((0, 1, 2, 4))):
            op = {"k": rng.choice(("fake",) * 5 + ("seed", "purge", "alloc", "gc") + QUIET),
                  "s": rng.randrange(n_pool), "x": rng.getrandbits(30)}
            f = gen_fault(rng, .4)
            if f:
                op["fault"] = f
            elif rng.random() < .15 and pool[op["s"]]["t"] not in ("sub", "req"):
                op.update(k="boom", spec=S.with_boom(rng, pool[op["s"]]), times=rng.choice((1, 3, 30)))
            before.append(op)
    p["before"] = before
    p["between"] = [[rng.randrange(n_seq + 1), {"k": rng.choice(QUIET + ("purge", "alloc", "gc")),
                                                "s": rng.randrange(n_pool), "x": rng.getrandbits(30)}]
                    for _ in range(rng.choice((0, 0, 1, 3)))]
    if rng.random() < .5:
        p["clock"] = gen_clock(rng)
        p["jump"] = gen_clock(rng)
    if rng.random() < .5:
        p["ent"] = [rng.choice((1, 1, 2, 3, 4, 5)), rng.getrandbits(40)]
    if rng.random() < .4:
        # what a process sets for itself: decimal precision and rounding, recursion limit, switch interval, warnings
        p["ambient"] = [rng.choice((2, 6, 28, 60)), rng.randrange(8), rng.choice((0, 500, 5000)), rng.random() < .5,
                        rng.choice((0, 0, rng.getrandbits(30)))]
    p["thread"] = [{"k": rng.choice(QUIET), "s": rng.randrange(n_pool), "x": rng.getrandbits(30)}
                   for _ in range(rng.choice((1, 2, 4)))] if rng.random() < .3 else []
    p["split"] = rng.random() < .25
    p["fresh"] = rng.random() < .3
    p["poke"] = gen_poke(rng, .5) if p["fresh"] else None
    p["seeder"] = rng.choice(("new", "new", "module", "kept"))
    p["gap"] = rng.choice((1, 2, 5, 13, 40))
    return p


def plan(rng, tier):
    kinds = None
    if rng.random() < .3:
        kinds = set(rng.sample(("bool", "int", "float", "str", "bytes"), 2)) | set(rng.sample(
            ("list", "dict", "any", "or", "add", "alias", "req"), 3))
    ctx = {"inf": rng.random() < .3, "big": 250, "kinds": kinds}
    pool = []
    for _ in range(rng.choice((1, 2, 3, 4))):
        c = rng.random()
        if c < .3:
            for _ in range(20):
                tree = rl.gen(rng, rng.choice((0, 1, 2, 3)), 32, 200)
                if rl.max_len(tree["node"], 32) <= 800:
                    break
            else:
                tree = {"pre": "", "node": ["lit", "a"], "post": ""}
            spec = {"t": "str", "calls": [["regex", rl.render(tree), tree]]}
        else:
            spec = fixed(S.gen(rng, rng.choice((0, 1, 2, 3)), ctx), rng)
            if c < .45 and spec["t"] in ("dict", "list", "any", "or"):
                try:
                    w = S.witness(spec, rng)
                    spec = {"t": "sub", "of": spec, "value": S.enc(cut(rng, w))}
                except S.Unsat:
                    pass
            elif c < .7:
                spec = with_custom(spec, rng)
        pool.append(spec)
    n = rng.choice((1, 2, 3, 5, 8, 8, 30))
    seq = [[rng.randrange(len(pool)), rng.choice(("fake", "fake", "invert", "generate"))] for _ in range(n)]
    lanes = []
    for i in range(LANES):
        reps = [gen_pert(rng, len(pool), n, pool) for _ in range(rng.choice((1, 1, 2)))]
        if i == 0:
            reps = [{"rs": 0, "before": [], "between": [], "thread": [], "seeder": "new"}] + reps[:1]
        lanes.append(reps)
    return {"k": gen_key(rng), "pool": pool, "seq": seq, "lanes": lanes, "sim": {"seed": rng.getrandbits(40)}}


def cut(rng, w):
    if isinstance(w, dict) and w and rng.random() < .8:
        return {k: cut(rng, v) for k, v in w.items() if rng.random() < .5}
    return w


# ----------------------------------------------------------------------------------- executing

def canon(v):
    """Text equal for equal values: exact floats, kinds kept apart, dicts as mappings."""
    if isinstance(v, dict):
        return "{%s}" % ", ".join(sorted("%s: %s" % (canon(k), canon(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + "[%s]" % ", ".join(canon(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return type(v).__name__ + "[%s]" % ", ".join(sorted(canon(x) for x in v))
    return "%s:%s" % (type(v).__name__, ascii(v))


def usable(spec):
    """Only schemas the property speaks of."""
    t = spec["t"]
    if t in ("uuid4", "datetime", "date"):
        return any(c[0] == "value" for c in spec.get("calls", ()))
    subs = []
    if isinstance(spec.get("of"), dict):
        subs.append(spec["of"])
    subs += [x for x in spec.get("items") or () if x != "..."]
    if t == "dict":
        subs += [s for _, _, s in spec.get("keys") or ()]
    subs += list(spec.get("alts") or ())
    if t == "add":
        subs += [spec["a"], spec["b"]]
    return all(usable(s) for s in subs)


KEEP = []


class Ambient:
    """Settings of the process and the thread that no seed knows of; put back afterwards."""

    def __init__(self, cfg):
        self.cfg = cfg

    def __enter__(self):
        if self.cfg:
            prec, rounding, more, warn, *rest = self.cfg
            self.old = decimal.getcontext(), sys.getrecursionlimit(), sys.getswitchinterval(), list(warnings.filters)
            decimal.setcontext(decimal.Context(prec=prec, rounding=ROUNDINGS[rounding]))
            sys.setrecursionlimit(self.old[1] + more)
            sys.setswitchinterval(.005 if not more else .0001)
            if warn:
                warnings.simplefilter("ignore")
            self.around = (dict(os.environ), os.getcwd(), list(sys.argv)) if rest and rest[0] else None
            if self.around:
                x = rest[0]
                for i, k in enumerate(VARIABLES):
                    if x >> i & 1:
                        os.environ[k] = "v%d" % (x % 97)
                os.chdir(("/", "/usr", "/tmp")[x % 3])
                sys.argv[:] = ["prog%d" % (x % 89), "--seed", str(x)]

    def __exit__(self, *a):
        if self.cfg:
            if self.around:
                os.environ.clear()
                os.environ.update(self.around[0])
                os.chdir(self.around[1])
                sys.argv[:] = self.around[2]
            decimal.setcontext(self.old[0])
            sys.setrecursionlimit(self.old[1])
            sys.setswitchinterval(self.old[2])
            warnings.filters[:] = self.old[3]
            warnings._filters_mutated()


VARIABLES = ["LANG", "HOME", "USER", "TERM", "PATH", "LC_ALL", "LC_CTYPE", "HOSTNAME", "CI", "SEED", "RANDOM", "D42_SEED", "TMPDIR",
             "PYTEST_CURRENT_TEST", "PYTHONHASHSEED", "TZ", "SHELL", "LOGNAME", "PWD", "DEBUG", "EDITOR", "VIRTUAL_ENV"]
ROUNDINGS = [decimal.ROUND_CEILING, decimal.ROUND_DOWN, decimal.ROUND_FLOOR, decimal.ROUND_HALF_DOWN,
             decimal.ROUND_HALF_EVEN, decimal.ROUND_HALF_UP, decimal.ROUND_UP, decimal.ROUND_05UP]


def execute(plan, R):
    L = lib()
    L.custom = custom_types(L)
    import d42.generation as G
    if not plan["seq"] or not plan["pool"] or not plan["lanes"]:
        raise Skip("nothing to generate")
    lane = R.lane % len(plan["lanes"])
    try:
        if not all(usable(s) for s in plan["pool"]):
            raise Skip("draws from the clock or the OS")
        pool = [S.build(s, L) for s in plan["pool"]]
    except Skip:
        raise
    except Exception as e:
        raise Skip(exc_text(e))
    k = S.dec(plan["k"])
    seq = [[i % len(pool), via] for i, via in plan["seq"]]
    kept = L.Random()
    values = []
    reps = plan["lanes"][lane]
    sims = []

    slow = not all(cheap(s) for s in plan["pool"])

    def noise(op, sch):
        kind, x = op["k"], op["x"]
        if slow and kind in ("validate", "sub"):
            kind = "repr"       # the backtracking of re may take for ever
        if kind == "fake":
            return lambda: L.fake(sch)
        if kind == "boom":
            return lambda: L.fake(S.build(op["spec"], L))
        if kind == "seed":
            return lambda: L.Random().set_seed(x)
        if kind == "validate":
            vals = [None, x, str(x), [x, "a"], {"a": x}, b"", 1.5]
            return lambda: L.validate(sch, vals[x % 7]).get_errors()
        if kind == "repr":
            return lambda: repr(sch)
        if kind == "eq":
            return lambda: (sch == pool[x % len(pool)], hash(sch) if sch.__hash__ else 0)
        if kind == "sub":
            return lambda: L.substitute(sch, [None, x, {}, [], "a"][x % 5])
        if kind == "build":
            return lambda: S.build(plan["pool"][op["s"] % len(pool)], L)
        if kind == "badbuild":
            return lambda: [L.schema.int(1).min(2), 0][0]
        if kind == "req":
            return lambda: L.make_required(sch)
        if kind == "iter":
            return lambda: list(iter(sch))
        if kind == "generator":
            return lambda: G.Generator(L.Random(), L.RegexGenerator(L.Random(), max_repeat=x % 50))
        if kind == "custom":
            return lambda: (L.schema.any(sch, sch), L.schema.list(sch), L.schema.dict({"k": sch}))
        if kind == "rollout":
            return lambda: L.rollout({"a.b": x, "a": {"c": 1}, L.optional("q.r"): sch})
        if kind == "native":
            return lambda: L.from_native({"a": [x, "s", None, 1.5]})
        if kind == "purge":
            return re.purge
        if kind == "gc":
            return lambda: (gc.unfreeze() if x % 2 else None, gc.collect(), gc.set_threshold(1 + x % 700))
        return lambda: KEEP.extend([object() for _ in range(x % 3000)] + ["s%d" % i for i in range(x % 500)])

    def rep(ri, p):
        objs = pool
        if p.get("fresh"):
            with poking(None if slow else p.get("poke"), L, R):
                objs = [S.build(s, L) for s in plan["pool"]]
            R.count("rebuilt_pools")
        random.seed(p["rs"])
        traced = bool(p["thread"]) or any(op.get("fault") for op in p["before"])
        sim = core.Sim(core.derive(plan["sim"]["seed"], lane, ri), "line" if traced else "none", p.get("gap", 50))
        sims.append(sim)
        out = []

        def seed_all():
            rnd = {"new": L.Random, "module": lambda: G._random, "kept": lambda: kept}[p["seeder"]]() \
                if p["seeder"] != "module" or hasattr(G, "_random") else L.Random()
            rnd.set_seed(k)

        def seeding():
            if p.get("split"):
                run_elsewhere(seed_all)
                R.count("seeded_in_another_thread")
            else:
                seed_all()

        def main(task):
            for op in p["before"]:
                for _ in range(op.get("times", 1) - 1):
                    sim.op(noise(op, objs[op["s"] % len(objs)]))
                    R.count("fault:failing user type")
                st, v = sim.op(noise(op, objs[op["s"] % len(objs)]), None, op.get("fault"))
                R.count("ops_before")
                if st == "fault":
                    R.count("interrupted_ops")
            set_env(R, p)
            if p.get("ambient"):
                R.count("ambient_changes")
            with Ambient(p.get("ambient")):
                seeding()
                draws()

        def draws():
            for n in range(len(seq) + 1):
                for at, op in p["between"]:
                    if at == n:
                        sim.op(noise(op, objs[op["s"] % len(objs)]))
                        R.count("ops_between")
                if n == len(seq):
                    break
                if p.get("jump") and n == len(seq) // 2:
                    simos.clock(*p["jump"])
                    R.count("clock_jumps")
                i, via = seq[n]
                sch = objs[i]
                fn = {"fake": lambda: L.fake(sch), "invert": lambda: ~sch, "generate": lambda: L.generate(sch)}[via]
                st, v = sim.op(fn)
                if st == "livelock":
                    raise Violation("C17:hang", "fake() made no progress", schema=repr(sch)[:400])
                out.append(canon(v) if st == "ok" else "raised " + type(v).__name__)
                R.count("values")

        def other(task):
            for op in p["thread"]:
                sim.op(noise(op, objs[op["s"] % len(objs)]))
                R.count("ops_meanwhile")

        sim.run([main, other] if p["thread"] else [main])
        set_env(R, {})
        R.count("steps", sim.steps)
        R.count("switches", sim.switches)
        for name, site in sim.faults_fired:
            R.count("fault:" + name)
            R.mark("fault_sites", site)
        if sim.switches:
            R.mark("interleavings", "%x" % (core.derive(*[repr(x) for x in sim.rec]) & 0xffffffffffff))
        return out

    first = None
    for ri, p in enumerate(reps):
        got = rep(ri, p)
        R.count("repetitions")
        R.log.append(("rep", ri, got))
        if first is None:
            first = got
        elif got != first:
            n = next(i for i, (a, b) in enumerate(itertools.zip_longest(first, got)) if a != b)
            raise Violation("C17:process", "the same seed and schemas gave other values when repeated in the process",
                            position=n, schema=repr(pool[seq[n][0]])[:600], first=first[n][:400],
                            again=got[n][:400], seed=repr(k), repetition=ri)
    values = first
    for i, _ in seq:
        R.mark("shapes", S.shape(plan["pool"][i]) if plan["pool"][i]["t"] != "str" or not regex_of(plan["pool"][i])
               else "str:" + regex_of(plan["pool"][i]))
    R.values = values
    if R.lane == 0:
        R.sample = {"seed": plan["k"], "schemas": [repr(s)[:120] for s in pool[:3]], "values": [v[:80] for v in values[:3]]}


def cheap(spec):
    """No pattern in it that re may take exponential time for."""
    if isinstance(spec, dict):
        return (not ("pre" in spec and "node" in spec) or rl.safe_for_re(spec)) and all(cheap(x) for x in spec.values())
    return not isinstance(spec, list) or all(cheap(x) for x in spec)


def regex_of(spec):
    for c in spec.get("calls", ()):
        if c[0] == "regex":
            from .scen_c09 import skeleton
            return skeleton(c[2]["node"])
    return None


def run_elsewhere(fn):
    err = []

    def go():
        try:
            fn()
        except BaseException as e:
            err.append(e)
    gate = core._raw_lock()
    gate.acquire()

    def body():
        go()
        gate.release()
    _thread.start_new_thread(body, ())
    gate.acquire()
    if err:
        raise err[0]


def set_env(R, p):
    c = p.get("clock") or [1709208000, 0]
    simos.clock(*c)
    if p.get("clock"):
        R.count("clock_jumps")
    e = p.get("ent") or [simos.ENT_STREAM, 12345]
    simos.entropy(*e)
    if e[0] in (2, 3, 4, 5):
        R.count("entropy:" + {2: "zeros", 3: "ones", 4: "EIO", 5: "short"}[e[0]])


# ----------------------------------------------------------------------------------- minimising

def shrinks(plan):
    for cut_ in list_drops(plan["seq"]):
        if cut_:
            yield {**plan, "seq": cut_}
    lanes = plan["lanes"]
    calm = {"rs": 0, "before": [], "between": [], "thread": [], "seeder": "new"}
    for i, reps in enumerate(lanes):
        if len(reps) > 1:
            for j in range(len(reps)):
                yield {**plan, "lanes": lanes[:i] + [reps[:j] + reps[j + 1:]] + lanes[i + 1:]}
        for j, p in enumerate(reps):
            if p != calm:
                def put(q):
                    return {**plan, "lanes": lanes[:i] + [reps[:j] + [q] + reps[j + 1:]] + lanes[i + 1:]}
                yield put(calm)
                for key in ("thread", "before", "between"):
                    for c in list_drops(p[key]):
                        yield put({**p, key: c})
                for key in ("clock", "jump", "ent", "split", "poke", "fresh", "ambient"):
                    if p.get(key):
                        yield put({a: b for a, b in p.items() if a != key})
                if p["seeder"] != "new":
                    yield put({**p, "seeder": "new"})
    used = sorted({i % len(plan["pool"]) for i, _ in plan["seq"]})
    if len(used) < len(plan["pool"]):
        m = {old: new for new, old in enumerate(used)}
        yield {**plan, "pool": [plan["pool"][i] for i in used],
               "seq": [[m[i % len(plan["pool"])], v] for i, v in plan["seq"]]}
    for i, (s, via) in enumerate(plan["seq"]):
        if via != "fake":
            yield {**plan, "seq": plan["seq"][:i] + [[s, "fake"]] + plan["seq"][i + 1:]}
    if plan["k"] != 0:
        yield {**plan, "k": 0}
    for i, spec in enumerate(plan["pool"]):
        if spec["t"] == "sub":
            yield {**plan, "pool": plan["pool"][:i] + [spec["of"]] + plan["pool"][i + 1:]}
            continue
        for s in S.shrinks(spec):
            if usable(s):
                yield {**plan, "pool": plan["pool"][:i] + [s] + plan["pool"][i + 1:]}
