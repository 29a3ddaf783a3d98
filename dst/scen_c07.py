"""C07: schemas are values. Several callers run random histories of public operations over a shared
pool; nothing they do - successfully, with an error, or interrupted half-way - changes any schema or
any argument, and every operation gives what it gives on its own."""
import collections
import datetime as _dt
import os
import pickle
import traceback
import uuid as _uuid

from . import core, simos
from . import specs as S
from .runtime import (Skip, Violation, client_ops, client_shrinks, concretise, exc_text, gen_fault, gen_sim, gen_storm,
                      gen_tape, lib)

NONTRIVIAL = "op_kinds"
RULE = ("one evaluation is one simulated run: 1-3 callers run histories of 3-14 public operations over a shared pool "
        "and their own results, reusing and mutating the containers they passed in and the results they got, under "
        "preemption and interrupts with retry; after every operation the fingerprints (repr, verdicts, generated "
        "value) of the schemas are compared; every outcome is compared with the same operation on freshly rebuilt "
        "operands before and after the history; distinct_nontrivial counts distinct (operation, operand structure, "
        "outcome kind) triples")
SIM_TIME = "no timers; the wall clock is simulated and held still"
COMPONENTS = {
    "real": ["d42 (every public operation)", "th", "niltype", "re"],
    "simulated": ["random outcomes (tape)", "clock_gettime/time", "getrandom", "which caller runs next",
                  "asynchronous exceptions", "callers that mutate what they passed in or got back"],
}
ASSUMPTIONS = [
    "observable behaviour of a schema: repr, ==, validation errors on probe values, and the value generated under a "
    "fixed sequence of draws; reaching into props to mutate a container found there is not a public operation",
    "a container is mutated by the caller that owns it, between operations, never while an operation reads it",
    "generated uuid4 and date values count as equal",
]

KEYS = ["id", "name", "a", "b", "key", 1, None, {"$t": [1, 2]}]
SCALAR_CALLS = {
    "bool": [["value", True], ["value", False], ["value", 1]],
    "int": [["value", 5], ["value", 2 ** 70], ["min", 3], ["max", 7], ["min", 9], ["max", 1], ["min", "x"], ["len", 2],
            ["value", None]],
    "float": [["value", 1.5], ["min", 1.0], ["max", 2.0], ["max", .5], ["precision", 2], ["precision", 0],
              ["precision", 99], ["min", 1]],
    "str": [["value", "banana"], ["len", 3], ["len", 6], ["len", 2, "..."], ["len", "...", 7], ["len", 2, 7],
            ["len", 2, "x"], ["len", 9, "..."],
            ["alphabet", "abn"], ["alphabet", "xyz"], ["contains", "an"], ["contains", "zz"], ["regex", "b[an]+"], ["regex", "b[an]+$"], ["regex", "b[an]+x"], ["regex", "b[an]{2}$"],
            ["alphabet", "abx"], ["alphabet", "bna"], ["contains", "ana"],
            ["regex", "("], ["len", -1], ["len", "...", "..."], ["alphabet", 3]],
    "bytes": [["value", {"$b": "6162"}], ["value", "ab"]],
    "uuid4": [["value", {"$u": S.UUIDS[0]}], ["value", 1]],
    "datetime": [["value", {"$dt": S.DATETIMES[0]}], ["value", 1]],
    "date": [["value", {"$d": S.DATES[0]}], ["value", 1]],
    "list": [["len", 1], ["len", 2], ["len", 3, "..."], ["len", "...", 2], ["len", 1, 3], ["len", 1, "x"],
             ["len", "x"]],
    "none": [["value", None]],
}
BOXED = ("decl_list", "decl_dict", "from_native", "mod", "validate", "vof", "eqv", "rollout")
VERBS = (("decl_list", 5), ("decl_dict", 5), ("decl_any", 3), ("list_of", 2), ("alias", 2), ("wrap", 2), ("scalar", 2),
         ("refine", 7), ("add", 5), ("or", 4), ("mod", 9), ("inv", 1), ("fake", 4), ("validate", 6), ("vof", 2), ("fmt", 1),
         ("repr", 2), ("req", 4), ("getitem", 3), ("iter", 3), ("eq", 2), ("eqv", 2), ("from_native", 3),
         ("rollout", 2), ("boom", 2), ("mutate", 8), ("mutate_result", 4))


def plan(rng, tier):
    n = rng.choice((1, 1, 2, 2, 3))
    sim = gen_sim(rng, n, p_line=.4, p_op=.15)
    traced = sim["trace"] != "none"
    base = []
    for i in range(rng.choice((2, 3, 4, 5))):
        want = rng.choice((None, "dict", "list", "any", "str"))
        for _ in range(20):
            spec = S.gen(rng, rng.choice((0, 1, 2, 2)), {"big": 60, "inf": False})
            if want is None or spec["t"] == want:
                break
        base.append(spec)
    twins = rng.random() < .2
    if twins:       # equal numbers of several kinds, poured into schemas that take anything
        base = base[:2] + [{"t": "list"}, {"t": "dict", "keys": None}, {"t": "any", "alts": None},
                           {"t": "list", "of": {"t": "any", "alts": [{"t": t, "calls": []} for t in
                                                                     rng.sample(("int", "float", "bool"), 3)]}}]
    alike = {}
    if not twins and rng.random() < .25:
        for j in range(len(base)):
            s = S.sibling(rng, base[j])
            if s != base[j] and len(base) < 8:
                alike[j] = len(base)
                base.append(s)
    faulty = traced and rng.random() < .6
    kinds0 = [kind_of(s) for s in base]
    verbs = [v for v, _ in VERBS]
    weights = [w for _, w in VERBS]
    if rng.random() < .3:
        keep = set(rng.sample(verbs, 7)) | {"mutate"}
        weights = [w if v in keep else 0 for v, w in VERBS]
    if twins:
        weights = [w * 4 if v in ("mod", "from_native") else w for v, w in zip(verbs, weights)]
    clients = []
    long = rng.random() < (.5 if tier == "thorough" else .25)
    for _ in range(n):
        ops, kinds = [], {}
        for i in range(rng.choice((3, 5, 8)) if not long else rng.choice((10, 14))):
            k = rng.choices(verbs, weights)[0]
            op = {"k": k}

            def ref(want=None):
                cand = [["b", j] for j, t in enumerate(kinds0) if want is None or t == want]
                cand += [["o", j] for j, t in kinds.items() if want is None or t == want] * 2
                if not cand or rng.random() < .05:
                    return ["b", rng.randrange(len(base))]
                return rng.choice(cand)

            def any_ref():
                return ref(rng.choice((None, None, "dict", "list", "any", "str")))

            if k in ("decl_list", "decl_dict", "from_native", "mod", "validate", "vof", "fmt", "eqv", "rollout", "req"):
                op["reuse"] = rng.randrange(100) if rng.random() < .3 else None
                if rng.random() < .12:
                    op["dress"] = rng.choice(("default", "ordered", "sub"))
            if k == "decl_list":
                els = [any_ref() for _ in range(rng.choice((0, 1, 2, 3)))]
                c = rng.random()
                if c < .25:
                    els = els + ["..."]
                elif c < .5:
                    els = ["..."] + els
                elif c < .6:
                    els = ["..."] + els + ["..."]
                op["c"] = els
                kinds[i] = "list"
            elif k in ("decl_dict", "rollout"):
                ks = rng.sample(KEYS, min(len(KEYS), rng.choice((0, 1, 2, 3, 4, 6))))
                op["c"] = [[q, rng.random() < .35, any_ref()] for q in ks]
                op["relaxed"] = rng.random() < .3
                if k == "decl_dict":
                    kinds[i] = "dict"
                else:
                    op["nest"] = [rng.choice(("a", "b", "a.b", "b.c", "a.b.c")) for _ in range(rng.choice((1, 2, 3)))]
                    op["opt"] = rng.getrandbits(3) if rng.random() < .5 else 0
            elif k == "decl_any":
                op["refs"] = [any_ref() for _ in range(rng.choice((1, 2, 3)))]
                kinds[i] = "any"
            elif k == "list_of":
                op["a"] = any_ref()
                kinds[i] = "list"
            elif k == "alias":
                op["a"] = any_ref()
                op["name"] = rng.choice(S.ALIASES)
                kinds[i] = "alias"
            elif k == "wrap":
                op["a"] = any_ref()
                kinds[i] = "wrap"
            elif k == "scalar":
                t = rng.choice(list(SCALAR_CALLS))
                op["t"] = t
                op["calls"] = [rng.choice(SCALAR_CALLS[t])] if t != "list" and rng.random() < .4 else []
                kinds[i] = t
            elif k == "refine":
                t = rng.choice(("str", "str", "list", "list", "int", "float", "bool", "bytes", "date"))
                op["a"] = ref(t)
                op["call"] = rng.choice(SCALAR_CALLS[t if rng.random() < .95 else rng.choice(list(SCALAR_CALLS))])
                kinds[i] = t
            elif k == "add":
                op["a"] = ref("dict")
                op["b"] = ref("dict") if rng.random() < .95 else ref()
                if rng.random() < .25:      # a right operand that overrides some of the left one's own keys
                    op["over"] = [rng.choice((1, 1, 2, 9)), rng.random() < .4]
                kinds[i] = "dict"
            elif k in ("or", "eq"):
                op["a"], op["b"] = any_ref(), any_ref()
                if k == "or":
                    kinds[i] = "any"
            elif k in ("mod", "validate", "vof", "fmt", "eqv"):
                op["a"] = any_ref()
                op["v"] = gen_value(rng, op["a"], base, twins)
                if twins and rng.random() < .7:
                    v = twin_value(rng)
                    op["a"] = ["b", rng.choice((4,) if not isinstance(v, (list, dict)) else
                                               (2, 2, 5, 5, 4) if isinstance(v, list) else (3, 4)) - 2 + len(base) - 4]
                    op["v"] = ["lit", S.enc(v)]
                if k == "mod":
                    op["fn"] = rng.random() < .3
                    kinds[i] = "any"
                if k == "validate":
                    op["path"] = rng.random() < .4
            elif k in ("inv", "fake", "repr", "iter"):
                op["a"] = any_ref()
            elif k == "boom":
                op["a"] = any_ref()
                op["e"] = rng.choice(S.BOOMS)
                op["form"] = rng.choice(("before", "after", "dict", "any"))
                op["verb"] = rng.choice(("fake", "validate", "mod", "repr", "eq"))
                op["v"] = gen_value(rng, op["a"], base, twins)
                op["times"] = rng.choice((1, 1, 3, 30))
            elif k == "req":
                op["a"] = ref("dict")
                op["form"] = rng.choice(("none", "list", "set", "tuple"))
                op["ks"] = rng.sample(KEYS, rng.choice((0, 1, 2)))
                op["own"] = rng.random() < .7
                kinds[i] = "dict"
            elif k == "getitem":
                op["a"] = ref("dict")
                op["key"] = rng.choice(KEYS)
                op["nth"] = rng.randrange(4) if rng.random() < .7 else None
            elif k == "from_native":
                op["v"] = ["lit", S.enc(S.any_value(rng, 3) if not twins else twin_value(rng))]
                kinds[i] = "any"
            elif k in ("mutate", "mutate_result"):
                op["which"] = rng.randrange(100)
                op["how"] = rng.choice(("append", "pop", "clear", "set", "insert"))
                op["at"] = rng.randrange(100)
                op["a"] = any_ref()
            op["tape"] = gen_tape(rng)
            if faulty:
                op["fault"] = gen_fault(rng, .3)
            if k not in ("mutate", "mutate_result", "boom"):
                op["storm"] = gen_storm(rng, .04, traced)
            ops.append(op)
        if alike:       # the same done to look-alikes
            again = [x for x in (swapped(op, alike) for op in ops) if x is not None]
            rng.shuffle(again)
            ops += again[:rng.choice((1, 2, 3))]
        if rng.random() < .15:      # refinements of one kind that look alike
            for c in rivals(rng):
                ops.append({"k": "scalar", "t": c[0], "calls": [c[1]], "tape": gen_tape(rng)})
        if rng.random() < .35:      # a container changed, and the same asked of it again
            own = [j for j, op in enumerate(ops) if op["k"] in BOXED and op.get("reuse") is None]
            for j in rng.sample(own, min(len(own), rng.choice((1, 1, 2)))):
                again = {**ops[j], "boxof": j}
                if rng.random() < .3:
                    ops.append({**again, "tape": gen_tape(rng)})
                ops.append({"k": "mutate", "boxof": j, "which": 0, "how": rng.choice(("append", "pop", "clear", "set", "set")),
                            "at": rng.randrange(100), "a": ops[j].get("a") or ["b", 0]})
                ops.append(again)
        clients.append(ops)
    return {"base": base, "clients": clients, "sim": sim, "pristine": rng.random() < .3}


def rivals(rng):
    t = rng.choice(("str", "str", "str", "str", "int", "float", "bytes"))
    by = {}
    for c in SCALAR_CALLS[t]:
        by.setdefault(c[0], []).append(c)
    name = rng.choice(list(by) + ["regex"] * (t == "str"))
    calls = rng.sample(by[name], min(len(by[name]), rng.choice((2, 3, 4))))
    if name == "regex" and rng.random() < .6:
        x = S.gen_regex_call(rng)
        if x:
            calls = [x] + [S.tweak(rng, x) for _ in range(rng.choice((2, 3, 5)))]
    elif rng.random() < .5:
        try:
            calls += [S.tweak(rng, c) for c in calls if all(type(x) in (int, float, str) for x in c)]
        except (IndexError, ValueError):
            pass
    rng.shuffle(calls)
    return [(t, c) for c in calls]


def swapped(op, alike):
    """The operation with its base operands replaced by what looks like them; None if nothing is."""
    hit = []

    def go(x):
        if isinstance(x, list) and len(x) == 2 and x[0] == "b" and type(x[1]) is int and x[1] in alike:
            hit.append(1)
            return ["b", alike[x[1]]]
        if isinstance(x, list):
            return [go(y) for y in x]
        if isinstance(x, dict):
            return {k: go(y) for k, y in x.items()}
        return x
    out = {k: x if k in ("tape", "fault", "storm", "spec") else go(x) for k, x in op.items()}
    return out if hit else None


def kind_of(spec):
    t = spec["t"]
    return {"or": "any", "add": "dict", "req": "dict"}.get(t, t)


def twin_value(rng):
    """Numbers that are equal to numbers of other kinds, on their own or in containers."""
    c = rng.randrange(4)
    if c == 0:
        return S.twins(rng, 1, 1)
    xs = S.twins(rng, [1] * rng.choice((1, 2, 3)), 1)
    return xs if c < 3 else dict(zip(("id", "name", "a"), xs))


def gen_value(rng, ref, base, twins=False):
    """Where the value of an operation comes from."""
    c = rng.random()
    if twins and c < .5:
        return ["lit", S.enc(twin_value(rng))]
    if ref[0] == "b" and c < .6:
        try:
            w = S.witness(base[ref[1]], rng)
            if rng.random() < .5:
                w = thin(rng, w)
            return ["lit", S.enc(w)]
        except S.Unsat:
            pass
    if c < .85:
        return ["fake", gen_tape(rng), rng.random() < .5, rng.getrandbits(32)]
    return ["lit", S.enc(S.any_value(rng))]


def thin(rng, w):
    if isinstance(w, dict):
        return {k: thin(rng, x) for k, x in w.items() if rng.random() < .6}
    if isinstance(w, list):
        out = [thin(rng, x) for x in w]
        if out and rng.random() < .1:
            out.append(...)
        return out
    return w


# ----------------------------------------------------------------------------- observations

FIXED_U = _uuid.UUID(S.UUIDS[1])


def calm(v):
    """Identify what the OS and the clock decide."""
    if type(v) is list:
        return [calm(x) for x in v]
    if type(v) is dict:
        return {k: calm(x) for k, x in v.items()}
    if isinstance(v, _uuid.UUID):
        return FIXED_U
    if isinstance(v, _dt.datetime):
        return _dt.datetime(2020, 2, 2)
    if isinstance(v, _dt.date):
        return _dt.date(2020, 2, 2)
    return v


def text(v):
    try:
        return S.canon(v)
    except TypeError:
        return repr(v)


class Quiet:
    """Draws made while the harness looks, outside any simulated operation."""

    def __init__(self, tape=None):
        self.tape = tape or core.Tape(replay=[])

    def __enter__(self):
        self.old = core.CURRENT.tape
        core.CURRENT.tape = self.tape

    def __exit__(self, *a):
        core.CURRENT.tape = self.old


def attempt(fn):
    try:
        return fn()
    except Exception as e:
        return "!" + exc_text(e)


PROBES = [None, True, 1, "banana", 1.5, [], [1], ["a", "b"], {}, {"id": 1}, {"a": "x", "zz": 2}]


def errors_text(L, sch, v):
    return [str(type(e).__name__) + repr(e) for e in L.validate(sch, v).get_errors()]


def fingerprint(L, sch, own):
    out = [attempt(lambda: repr(sch))]
    for p in PROBES[:4] if len(own) > 1 else PROBES:
        out.append(attempt(lambda: errors_text(L, sch, p)))
    for v in own:
        out.append(attempt(lambda: errors_text(L, sch, v)))
    with Quiet():
        out.append(attempt(lambda: text(calm(L.fake(sch)))))
    return out


class Held:
    """A schema somebody holds, with what it looked like when they got it."""

    def __init__(self, L, sch, rebuild, name, lits=(), watch=True):
        self.sch = sch
        self.rebuild = rebuild
        self.name = name
        self.kind = type(sch).__name__
        if not watch:
            return
        own = list(lits)
        with Quiet():
            v = attempt(lambda: L.fake(sch))
        own.append(v)
        self.own = own
        self.print = fingerprint(L, sch, self.own)

    def get(self, real):
        return self.sch if real else self.rebuild()

    def check(self, L, when):
        now = fingerprint(L, self.sch, self.own)
        if now != self.print:
            i = [a == b for a, b in zip(now, self.print)].index(False)
            what = "repr" if i == 0 else "generated" if i == len(now) - 1 else "verdict"
            raise Violation("C07:changed:%s" % what, "a schema changed: its %s is not what it was" % what,
                            schema=self.name, was=str(self.print[i])[:500], now=str(now[i])[:500], after=when)


def outcome(L, st, r):
    """A comparable account of what an operation did."""
    if st == "livelock":
        return ("hang",)
    if st == "exc":
        return ("raised", type(r).__name__, attempt(lambda: str(r))[:3000])
    if isinstance(r, L.Schema):
        with Quiet():
            v = attempt(lambda: calm(L.fake(r)))
            g = attempt(lambda: text(v))
        return ("schema", type(r).__name__, attempt(lambda: repr(r)), g, str(attempt(lambda: errors_text(L, r, v))),
                tuple(str(attempt(lambda: errors_text(L, r, p))) for p in PROBES))
    return ("value", describe(L, calm(r)))


def describe(L, r):
    if isinstance(r, L.Schema):
        return "<%s>" % attempt(lambda: repr(r))
    if isinstance(r, dict):
        return "{%s}" % ", ".join("%s: %s" % (describe(L, k), describe(L, x)) for k, x in r.items())
    if isinstance(r, (list, tuple)):
        return "%s[%s]" % (type(r).__name__, ", ".join(describe(L, x) for x in r))
    if isinstance(r, L.optional):
        return "optional(%r)" % (r.key,)
    return text(r)


# -------------------------------------------------------------------------------- arguments

class OwnDict(dict):
    """A caller's mapping that fills itself when it is asked for what it hasn't got."""

    def __missing__(self, key):
        self[key] = None
        return None


class OwnList(list):
    pass


def dress(v, how):
    """The same content in the caller's own kinds of containers."""
    if isinstance(v, dict):
        items = [(k, dress(x, how)) for k, x in v.items()]
        return collections.defaultdict(list, items) if how == "default" else \
            collections.OrderedDict(items) if how == "ordered" else OwnDict(items)
    if isinstance(v, list):
        return (OwnList if how == "sub" else list)(dress(x, how) for x in v)
    return v


class Box:
    """A container a caller owns: the object handed to the library and how to make another one."""

    def __init__(self, kind, obj, make):
        self.kind = kind
        self.obj = obj
        self.make = make


def snapshot(L, x):
    """Identity and content of an argument, deep for plain containers."""
    if isinstance(x, list):
        return ("L", id(x), [snapshot(L, y) for y in x])
    if isinstance(x, tuple):
        return ("T", [snapshot(L, y) for y in x])
    if isinstance(x, dict):
        return ("D", id(x), [(snapshot(L, k), snapshot(L, y)) for k, y in x.items()])
    if isinstance(x, (set, frozenset)):
        return ("S", id(x), sorted(map(repr, x)))
    if isinstance(x, L.Schema):
        return ("schema", id(x))
    if isinstance(x, L.optional):
        return ("opt", snapshot(L, x.key))
    if isinstance(x, L.ValidationResult):
        return ("result", id(x), [(id(e), repr(e)) for e in x.get_errors()])
    if isinstance(x, float):
        return repr(x)
    return (type(x).__name__, repr(x))


class Actor:
    """One caller: what it holds, what it passed in, what it got back."""

    def __init__(self, L, base, ops):
        self.L = L
        self.base = base
        self.ops = ops
        self.got = {}           # op index -> Held
        self.boxes = []
        self.box_of = {}        # op index -> the container it was given
        self.at = None
        self.results = []

    def held(self, ref):
        if ref[0] == "o" and ref[1] in self.got:
            return self.got[ref[1]]
        return self.base[ref[1] % len(self.base)]

    # -- containers
    def box(self, op, kind, make):
        """A container for this call: a new one, or one used before (whatever it holds by now).
        Returns real -> container: the caller's own, or an equal one nobody has seen."""
        b = self.box_of.get(op.get("boxof"))
        if b is None and op.get("reuse") is not None:
            old = [b for b in self.boxes if b.kind == kind]
            if old:
                b = old[op["reuse"] % len(old)]
        if b is None:
            if op.get("dress"):
                plain = make

                def make(real, plain=plain):
                    return dress(plain(real), op["dress"])
            b = Box(kind, None, make)
            self.boxes.append(b)
        self.box_of[self.at] = b
        make = b.make

        def pick(real):
            if not real:
                return make(False)
            if b.obj is None:
                b.obj = make(True)
            return b.obj
        return pick

    def mutate(self, op, real):
        """The caller changes a container it passed to an earlier operation."""
        if not self.boxes:
            return
        b = self.box_of.get(op["boxof"]) if "boxof" in op else self.boxes[op["which"] % len(self.boxes)]
        if b is None:
            return
        h = self.held(op["a"])
        how, at, old = op["how"], op["at"], b.make

        def change(obj, real):
            x = 77 if b.kind == "value" else h.sch if real else h.rebuild()
            alter(obj, how, at, x)

        def make(real):
            obj = old(real)
            change(obj, real)
            return obj
        b.make = make
        if real and b.obj is not None:
            change(b.obj, True)

    # -- one operation: real -> (callable, arguments to watch); and the schemas involved
    def prepare(self, op, at):
        L = self.L
        self.at = at
        k = op["k"]
        if k == "decl_list":
            hs = [x if x == "..." else self.held(x) for x in op["c"]]

            def make(real):
                return [... if h == "..." else h.get(real) for h in hs]
            pick = self.box(op, "list", make)

            def build(real):
                c = pick(real)
                return lambda: L.schema.list(c), [c]
            return build, []
        if k == "decl_dict":
            hs = [(q, o, self.held(x)) for q, o, x in op["c"]]

            def make(real):
                out = {}
                for q, o, h in hs:
                    key = S.dec(q)
                    out[L.optional(key) if o else key] = h.get(real)
                if op["relaxed"]:
                    out[...] = ...
                return out
            pick = self.box(op, "dict", make)

            def build(real):
                c = pick(real)
                return lambda: L.schema.dict(c), [c]
            return build, []
        if k == "rollout":
            hs = [(q, o, self.held(x)) for q, o, x in op["c"] if isinstance(q, str)]
            hs = [(q, o, self.held(x)) for q, o, x in op["c"] if isinstance(q, str)]

            def make(real):
                out = {}
                for q, o, h in hs:
                    out[L.optional(q) if o else q] = h.get(real)
                for i, q in enumerate(op["nest"]):
                    k = L.optional(q) if op.get("opt", 0) >> i & 1 else q
                    out[k] = {"x.y": 1, "z": {"d": 1}} if "." not in q else 2
                return out
            pick = self.box(op, "nest", make)

            def build(real):
                c = pick(real)
                return lambda: L.rollout(c), [c]
            return build, []
        if k == "decl_any":
            hs = [self.held(r) for r in op["refs"]]

            def build(real):
                args = [h.get(real) for h in hs]
                return lambda: L.schema.any(*args), []
            return build, hs
        if k == "scalar":
            def scalar():
                s = getattr(L.schema, op["t"])
                for name, *args in op["calls"]:
                    s = S.call(s, name, args)
                return s
            return lambda real: (scalar, []), []
        if k == "from_native":
            pick = self.box(op, "value", lambda real: S.dec(op["v"][1]))

            def build(real):
                c = pick(real)
                return lambda: L.from_native(c), [c]
            return build, []
        h = self.held(op["a"])
        if k in ("add", "or", "eq"):
            h2 = self.held(op["b"])

            def build(real):
                a, b = h.get(real), h2.get(real)
                if op.get("over") and h.kind == "DictSchema":
                    n, opt = op["over"]
                    mine = [q for q in a if q is not ...][:n]
                    b = L.schema.dict({L.optional(q) if opt else q: b for q in mine})
                return {"add": lambda: a + b, "or": lambda: a | b, "eq": lambda: (a == b, a != b)}[k], []
            return build, [h, h2]
        if k in ("mod", "validate", "vof", "fmt", "eqv"):
            pick = self.box(op, "value", lambda real: self.value(op["v"], h, real))

            def build(real):
                a, c = h.get(real), pick(real)
                if k == "mod":
                    return (lambda: L.substitute(a, c)) if op.get("fn") else (lambda: a % c), [c]
                if k == "vof":
                    return lambda: L.validate_or_fail(a, c), [c]
                if k == "fmt":
                    r = attempt(lambda: L.validate(a, c))
                    return lambda: L.format_result(r), [c, r]
                if k == "eqv":
                    return lambda: (a == c, a != c), [c]
                if op.get("path"):
                    p = L.PathHolder()["root"]
                    return lambda: L.validate(a, c, path=p).get_errors(), [c, p]
                return lambda: L.validate(a, c).get_errors(), [c]
            return build, [h]

        def build(real):
            a = h.get(real)
            if k == "boom":
                b = L.boom(op["e"])
                s = {"before": lambda: L.schema.list([b, a]), "after": lambda: L.schema.list([a, b]),
                     "dict": lambda: L.schema.dict({"a": a, "b": b}), "any": lambda: L.schema.any(a, b)}[op["form"]]()
                v = self.value(op["v"], h, real)
                v = {"before": [v, v], "after": [v, v], "dict": {"a": v, "b": v}, "any": v}[op["form"]]
                return {"fake": lambda: L.fake(s), "validate": lambda: L.validate(s, v).get_errors(),
                        "mod": lambda: s % v, "repr": lambda: repr(s), "eq": lambda: s == v}[op["verb"]], [v]
            if k == "list_of":
                return lambda: L.schema.list(a), []
            if k == "wrap":
                return lambda: L.wrap(a), []
            if k == "alias":
                return lambda: L.schema.alias(op["name"], a), []
            if k == "refine":
                name, *args = op["call"]
                return lambda: S.call(a, name, args), []
            if k == "req":
                names = [S.dec(q) for q in op["ks"]]
                if op["own"] and h.kind == "DictSchema":
                    mine = [q for q in a if q is not ...]
                    names = [q for q in mine if q in names] or mine[:len(names)]
                if op["form"] == "none":
                    return lambda: L.make_required(a), []
                c = {"list": list, "set": set if op["own"] or len(names) < 2 else list, "tuple": tuple}[op["form"]](names)
                return lambda: L.make_required(a, c), [c]
            if k == "getitem":
                key = S.dec(op["key"])
                if op["nth"] is not None and h.kind == "DictSchema":
                    mine = list(a)
                    if mine:
                        key = mine[op["nth"] % len(mine)]
                return lambda: a[key], []
            if k == "iter":
                return lambda: list(a), []
            if k == "repr":
                return lambda: (repr(a), L.represent(a)), []
            if k == "inv":
                return lambda: ~a, []
            if k == "fake":
                return lambda: L.fake(a), []
            raise AssertionError(k)
        return build, [h]

    def value(self, src, h, real):
        if src[0] == "lit":
            return S.dec(src[1])
        with Quiet(core.Tape(src[1]["seed"], src[1]["mode"], src[1].get("p", .5))):
            v = attempt(lambda: calm(self.L.fake(h.get(real))))
        if src[2]:
            v = thin(core.RealRandom(src[3]), v)
        return v


def alter(obj, how, at, x):
    """Change a container, or one nested in it."""
    inner = [y for y in (obj.values() if isinstance(obj, dict) else obj if isinstance(obj, list) else ())
             if isinstance(y, (list, dict))]
    if inner and at % 3 == 1:
        return alter(inner[at // 3 % len(inner)], how, at // 2, x)
    if isinstance(obj, list):
        if how == "append":
            obj.append(x)
        elif how == "insert":
            obj.insert(0, x)
        elif how == "clear":
            obj.clear()
        elif obj:
            if how == "pop":
                obj.pop(at % len(obj))
            else:
                obj[at % len(obj)] = x
    elif isinstance(obj, dict):
        ks = list(obj)
        if how in ("append", "insert"):
            obj["new%d" % (at % 3)] = x
        elif how == "clear":
            obj.clear()
        elif ks:
            if how == "pop":
                obj.pop(ks[at % len(ks)])
            elif ks[at % len(ks)] is not ...:
                obj[ks[at % len(ks)]] = x


# -------------------------------------------------------------------------------- execution

def tape_of(op):
    t = op["tape"]
    return core.Tape(t["seed"], t["mode"], t.get("p", .5))


def execute(plan, R):
    L = lib()
    simos.clock(1709208000, 0)

    # what every operation gives on its own, on operands nobody else has ever seen
    def alone():
        base = build_base(L, plan)
        out = {}
        for ci, ops in enumerate(plan["clients"]):
            solo(L, base, ops, ci, out, R)
        for h in base:
            h.check(L, "the operations were run on fresh copies")
        return out, [h.kind for h in base]

    expected, kinds = elsewhere(alone)
    if plan.get("pristine"):        # one process per operation, in which nothing else ever happens
        for key in expected:
            got = elsewhere(lambda: untouched(L, plan, kinds, expected, key))
            R.count("processes")
            R.count("pristine_ops")
            if got != expected[key]:
                raise Violation("C07:repeat", "an operation gives something else than in a process in which nothing was "
                                "executed before", client=key[0], op=key[1],
                                operation=plan["clients"][key[0]][key[1]]["k"],
                                nothing_before=brief(got, expected[key]), after_others=brief(expected[key], got))
    shuffled = elsewhere(lambda: in_any_order(L, build_base(L, plan), plan, expected))
    base = build_base(L, plan)
    R.count("processes", 3)
    for key, got in shuffled.items():
        if got != expected[key]:
            raise Violation("C07:repeat", "the same operation on equal inputs gives something else when other "
                            "operations were executed before", client=key[0], op=key[1],
                            operation=plan["clients"][key[0]][key[1]]["k"],
                            after_those_before_it=brief(expected[key], got), after_others=brief(got, expected[key]))

    sim = R.make_sim()
    actors = [Actor(L, base, ops) for ops in plan["clients"]]

    def client(ci):
        me = actors[ci]

        def body(task):
            for oi, op in enumerate(me.ops):
                one(ci, oi, op, me)
        return body

    def one(ci, oi, op, me):
        if op["k"] == "nop":
            return
        if op["k"] == "mutate":
            me.mutate(op, True)
            R.count("mutations")
            look(me, (), "a caller mutated a container it had passed in", oi)
            return
        if op["k"] == "mutate_result":
            if me.results:
                r = me.results[op["which"] % len(me.results)]
                alter(r, op["how"], op["at"], "mutated")
                R.count("result_mutations")
                look(me, (), "a caller mutated a result", oi)
            return
        build, held = me.prepare(op, oi)
        fn, args = build(True)
        before = [snapshot(L, x) for x in args]
        where = {"client": ci, "op": oi, "operation": op["k"], "operands": [h.name for h in held]}
        for _ in range(op.get("times", 1) - 1):
            sim.op(fn, tape_of(op))
            R.count("failing_repeats")
        if op.get("storm"):
            R.storm(fn, op["storm"])
        for attempt_no in range(2):
            st, r = sim.op(fn, tape_of(op), op.get("fault") if attempt_no == 0 else None)
            after = [snapshot(L, x) for x in args]
            if after != before:
                raise Violation("C07:argument", "an operation changed a value passed to it",
                                argument=repr(args)[:400], **where)
            if st != "fault":
                break
            R.count("interrupted_ops")
            look(me, held, "an interrupted %s" % op["k"], oi)
        got = outcome(L, st, r)
        sim.log("op", ci, oi, op["k"], got)
        R.count("operations")
        R.count("op:" + op["k"])
        R.mark("op_kinds", "%s(%s)->%s" % (op["k"], ",".join(h.kind for h in held), got[1] if got[0] != "value" else "value"))
        want = expected[(ci, oi)]
        if got != want:
            raise Violation("C07:history", "an operation gives something else than on its own",
                            alone=brief(want, got), here=brief(got, want), **where)
        if got[0] == "schema":
            me.got[oi] = Held(L, r, lambda: build(False)[0](), "result of op %d of client %d (%s): %s" % (
                oi, ci, op["k"], got[2][:200]))
        elif isinstance(r, (list, dict)):
            me.results.append(r)
        look(me, held, op["k"], oi)

    def look(me, held, what, oi):
        for h in held:
            h.check(L, what)
        every = base + list(me.got.values())
        for d in range(min(2, len(every))):
            every[(oi * 2 + d) % len(every)].check(L, what)
        for h in every:
            if attempt(lambda: repr(h.sch)) != h.print[0]:
                h.check(L, what)

    sim.run([client(i) for i in range(len(plan["clients"]))])

    for h in base:
        h.check(L, "the whole history")
    for me in actors:
        for h in me.got.values():
            h.check(L, "the whole history")
    again = {}
    for ci in reversed(range(len(plan["clients"]))):
        solo(L, base, plan["clients"][ci], ci, again, R)
    for key, want in expected.items():
        if again.get(key) != want:
            raise Violation("C07:repeat", "the same operation on equal inputs gives something else after the history",
                            client=key[0], op=key[1], operation=plan["clients"][key[0]][key[1]]["k"],
                            before=brief(want, again.get(key)), after=brief(again.get(key), want))
    R.count("repeats", len(expected))
    if R.sample is None:
        R.sample = {"operations": ["%d.%d %s -> %s" % (k + (plan["clients"][k[0]][k[1]]["k"], str(v[1])[:80]))
                                   for k, v in list(expected.items())[:6]]}


def build_base(L, plan):
    base = []
    for i, spec in enumerate(plan["base"]):
        try:
            sch = S.build(spec, L)
        except Exception as e:
            raise Skip("declaration refused: %s" % exc_text(e))
        rng = core.RealRandom(i)
        lits = []
        try:
            lits.append(S.witness(spec, rng))
        except S.Unsat:
            pass
        base.append(Held(L, sch, (lambda spec=spec: S.build(spec, L)), "base %d: %s" % (i, attempt(lambda: repr(sch))[:300]),
                         lits))
    return base


def untouched(L, plan, kinds, known, key):
    """One operation where nothing has been executed but what builds its operands."""
    base = []
    for spec, kind in zip(plan["base"], kinds):
        h = Held(L, None, (lambda spec=spec: S.build(spec, L)), "", watch=False)
        h.kind = kind
        base.append(h)
    ci, at = key
    me = Actor(L, base, plan["clients"][ci])
    sim = core.Sim(0)
    out = []

    def body(task):
        for oi, op in enumerate(me.ops[:at + 1]):
            if op["k"] == "mutate":
                me.mutate(op, False)
            if op["k"] in ("nop", "mutate", "mutate_result"):
                continue
            build, held = me.prepare(op, oi)
            if oi == at:
                fn, args = build(False)
                st, r = sim.op(fn, tape_of(op))
                out.append(outcome(L, st, r))
            elif known[(ci, oi)][0] == "schema":
                h = me.got[oi] = Held(L, None, lambda build=build: build(False)[0](), "", watch=False)
                h.kind = known[(ci, oi)][1]
    sim.run([body])
    return out[0]


def brief(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return str(x)[:500]
    return str(a)[:500]


def solo(L, base, ops, ci, out, R):
    me = Actor(L, base, ops)
    sim = core.Sim(0)

    def body(task):
        for oi, op in enumerate(ops):
            if op["k"] == "nop":
                continue
            if op["k"] == "mutate":
                me.mutate(op, False)
                continue
            if op["k"] == "mutate_result":
                continue
            build, held = me.prepare(op, oi)
            fn, args = build(False)
            st, r = sim.op(fn, tape_of(op))
            out[(ci, oi)] = outcome(L, st, r)
            if out[(ci, oi)][0] == "schema":
                me.got[oi] = Held(L, r, lambda build=build: build(False)[0](), "", watch=False)
    sim.run([body])


def in_any_order(L, base, plan, known):
    """Every operation on its own again, in an order that has nothing to do with the callers' programs."""
    jobs = []
    for ci, ops in enumerate(plan["clients"]):
        me = Actor(L, base, ops)
        for oi, op in enumerate(ops):
            if op["k"] == "mutate":
                me.mutate(op, False)
            if op["k"] in ("nop", "mutate", "mutate_result"):
                continue
            build, held = me.prepare(op, oi)
            jobs.append(((ci, oi), build, op))
            was = known[(ci, oi)]
            if was[0] == "schema":
                h = me.got[oi] = Held(L, None, lambda build=build: build(False)[0](), "", watch=False)
                h.kind = was[1]
    rng = core.RealRandom(core.derive(plan["sim"].get("seed", 0), "order"))
    if rng.random() < .5:
        jobs.reverse()
    else:
        rng.shuffle(jobs)
    out = {}
    sim = core.Sim(0)

    def body(task):
        for key, build, op in jobs:
            fn, args = build(False)
            st, r = sim.op(fn, tape_of(op))
            out[key] = outcome(L, st, r)
    sim.run([body])
    return out


def elsewhere(fn):
    """In a process of its own, forked here; what happens there leaves no trace here."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                res = ("ok", fn())
            except Violation as v:
                res = ("violation", (v.cls, v.msg, v.detail))
            except Skip as e:
                res = ("skip", str(e))
            except BaseException:
                res = ("error", traceback.format_exc()[-2000:])
            with os.fdopen(wfd, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    how, res = pickle.loads(data)
    if how == "violation":
        raise Violation(res[0], res[1], **res[2])
    if how == "skip":
        raise Skip(res)
    if how == "error":
        raise RuntimeError(res)
    return res


def record(plan, R):
    return concretise(plan, R, client_ops)


def shrinks(plan):
    # operations are referred to by position: blank them out instead of cutting them
    for i in range(len(plan["clients"])):
        if len(plan["clients"]) > 1:
            yield {**plan, "clients": plan["clients"][:i] + plan["clients"][i + 1:]}
    for i, ops in enumerate(plan["clients"]):
        if ops:
            yield {**plan, "clients": plan["clients"][:i] + [ops[:-1]] + plan["clients"][i + 1:]}
        for j, op in enumerate(ops):
            if op["k"] != "nop":
                yield _with(plan, i, j, {"k": "nop"})
    for i, ops in enumerate(plan["clients"]):
        for j, op in enumerate(ops):
            for key in ("a", "b"):
                if op.get(key):
                    for n in range(len(plan["base"])):
                        if op[key] != ["b", n] and (op[key][0] == "o" or n < op[key][1]):
                            yield _with(plan, i, j, {**op, key: ["b", n]})
            if op.get("dress"):
                yield _with(plan, i, j, {**op, "dress": None})
            if op.get("over"):
                yield _with(plan, i, j, {**op, "over": None})
            if op.get("reuse") is not None:
                yield _with(plan, i, j, {**op, "reuse": None})
            if op.get("fault"):
                yield _with(plan, i, j, {**op, "fault": None})
            if op["k"] in ("decl_list", "decl_dict", "rollout"):
                for n in range(len(op["c"])):
                    yield _with(plan, i, j, {**op, "c": op["c"][:n] + op["c"][n + 1:]})
    yield from client_shrinks(plan, 99)
    for i, spec in enumerate(plan["base"]):
        for s in S.shrinks(spec):
            yield {**plan, "base": plan["base"][:i] + [s] + plan["base"][i + 1:]}
    if len(plan["base"]) > 1:
        yield {**plan, "base": plan["base"][:-1]}


def _with(plan, i, j, op):
    cl = plan["clients"]
    return {**plan, "clients": cl[:i] + [cl[i][:j] + [op] + cl[i][j + 1:]] + cl[i + 1:]}
