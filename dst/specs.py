"""Schemas as JSON trees, built into d42 schemas through the public DSL, with a reference model
(what a schema means) that shares no code with d42.

scalar  {"t": "int", "calls": [["value", 5], ["min", 1], ["len", 1, "..."], ...]}
list    {"t": "list", "of": spec | "items": [spec | "..."], "len": [..]}
dict    {"t": "dict", "keys": [[key, optional, spec], ...] | null, "relaxed": bool}
others  any/or {"alts": [...]}, add {"a", "b"}, alias {"name", "of"}, req {"of", "keys"},
        sub {"of", "value"}
Values are JSON with tags: {"$": "..."}, {"$b": hex}, {"$u": uuid}, {"$dt": iso}, {"$d": iso},
{"$f": "inf"}, {"$m": [[key, value], ...]} for dicts.
"""
import math
import re
from datetime import date, datetime, timedelta, timezone
from uuid import UUID

from . import regexlang as rl
from .core import RealRandom

SCALARS = ("none", "bool", "int", "float", "str", "bytes", "uuid4", "datetime", "date")
ELL = {"$": "..."}


class Unsat(Exception):
    pass


# ----------------------------------------------------------------------------------- values

def dec(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        (k, x), = v.items()
        if k == "$":
            return ...
        if k == "$b":
            return bytes.fromhex(x)
        if k == "$ba":
            return bytearray.fromhex(x)
        if k == "$u":
            return UUID(x)
        if k == "$dt":
            return datetime.fromisoformat(x)
        if k == "$d":
            return date.fromisoformat(x)
        if k == "$f":
            return float(x)
        if k == "$m":
            return {_key(dec(a)): dec(b) for a, b in x}
        if k == "$t":
            return tuple(dec(a) for a in x)
        raise AssertionError(k)
    return v


def _key(k):
    return k


def enc(v):
    if v is ...:
        return ELL
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, float):
        return v if math.isfinite(v) else {"$f": repr(v)}
    if isinstance(v, bytes):
        return {"$b": v.hex()}
    if isinstance(v, UUID):
        return {"$u": str(v)}
    if isinstance(v, datetime):
        return {"$dt": v.isoformat()}
    if isinstance(v, date):
        return {"$d": v.isoformat()}
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, tuple):
        return {"$t": [enc(x) for x in v]}
    if isinstance(v, dict):
        return {"$m": [[enc(a), enc(b)] for a, b in v.items()]}
    raise TypeError(type(v))


def same(a, b):
    """Equal in kind and content, recursively (so 1, 1.0 and True differ)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a == b


def canon(v):
    """A text that is equal for values that are `same`, in order, bit for bit."""
    return repr(enc(v))


# ---------------------------------------------------------------------------------- building

POKE = None     # what is done to every schema on the way to the one that is built, before anything is derived from it


def build(spec, lib):
    """lib: namespace with schema, optional, make_required (taken from d42)."""
    out = _build(spec, lib)
    if POKE is not None:
        POKE(out, spec)
    return out


def _build(spec, lib):
    s = lib.schema
    t = spec["t"]
    if t in SCALARS:
        cur = getattr(s, t)
        for name, *args in spec.get("calls", ()):
            if POKE is not None:
                POKE(cur)
            cur = call(cur, name, args)
        return cur
    if t == "custom":
        return lib.custom(spec["n"])
    if t == "boom":
        return lib.boom(spec["e"])
    if t == "list":
        cur = s.list
        if spec.get("of") is not None:
            cur = cur(build(spec["of"], lib))
        elif spec.get("items") is not None:
            cur = cur([... if x == "..." else build(x, lib) for x in spec["items"]])
        if spec.get("len"):
            if POKE is not None:
                POKE(cur)
            cur = call(cur, "len", spec["len"])
        return cur
    if t == "dict":
        if spec.get("keys") is None:
            return s.dict
        return s.dict(dict_arg(spec, lib))
    if t == "any":
        return s.any if spec.get("alts") is None else s.any(*[build(x, lib) for x in spec["alts"]])
    if t == "or":
        cur = build(spec["alts"][0], lib)
        for x in spec["alts"][1:]:
            cur = cur | build(x, lib)
        return cur
    if t == "add":
        return build(spec["a"], lib) + build(spec["b"], lib)
    if t == "alias":
        return s.alias(spec["name"], build(spec["of"], lib))
    if t == "req":
        keys = spec["keys"]
        return lib.make_required(build(spec["of"], lib), None if keys is None else [dec(k) for k in keys])
    if t == "sub":
        return build(spec["of"], lib) % dec(spec["value"])
    raise AssertionError(t)


def dict_arg(spec, lib):
    out = {}
    for key, opt, sub in spec["keys"]:
        k = dec(key)
        out[lib.optional(k) if opt else k] = build(sub, lib)
    if spec.get("relaxed"):
        out[...] = ...
    return out


def call(cur, name, args):
    if name == "regex":
        args = args[:1]     # the tree the pattern was rendered from stays with the model
    args = [... if a == "..." and name == "len" else dec(a) for a in args]
    if name == "value":
        return cur(*args)
    return getattr(cur, name)(*args)


# ------------------------------------------------------------------------------------- model

def norm(spec):
    """Resolve aliases, unions, sums and required-ness; leaves scalars, list, dict, any."""
    t = spec["t"]
    if t == "alias":
        return norm(spec["of"])
    if t in ("or", "any"):
        if spec.get("alts") is None:
            return {"t": "any", "alts": None}
        return {"t": "any", "alts": [norm(x) for x in spec["alts"]]}
    if t == "add":
        a, b = norm(spec["a"]), norm(spec["b"])
        if a["keys"] is None and b["keys"] is None:
            # two untyped dicts merge into a dict without any key
            return {"t": "dict", "keys": [], "relaxed": False}
        keys = {canon_key(k): [k, o, s] for k, o, s in (a["keys"] or [])}
        for k, o, s in (b["keys"] or []):
            keys[canon_key(k)] = [k, o, s]
        return {"t": "dict", "keys": list(keys.values()),
                "relaxed": bool(a.get("relaxed") or b.get("relaxed"))}
    if t == "req":
        d = norm(spec["of"])
        if d["keys"] is None:
            return d
        want = None if spec["keys"] is None else {canon_key(k) for k in spec["keys"]}
        return {**d, "keys": [[k, o and not (want is None or canon_key(k) in want), s]
                              for k, o, s in d["keys"]]}
    if t == "dict":
        if spec.get("keys") is None:
            return {"t": "dict", "keys": None}
        keys = {}
        for k, o, s in spec["keys"]:
            keys[canon_key(k)] = [k, o, norm(s)]
        return {"t": "dict", "keys": list(keys.values()), "relaxed": bool(spec.get("relaxed"))}
    if t == "list":
        out = dict(spec)
        if spec.get("of") is not None:
            out["of"] = norm(spec["of"])
        if spec.get("items") is not None:
            out["items"] = [x if x == "..." else norm(x) for x in spec["items"]]
        return out
    return spec


def canon_key(k):
    return dec(k)


def props(spec):
    p = {}
    for name, *args in spec.get("calls", ()):
        if name == "len":
            p.update(len_props(args))
        else:
            p[name] = args[0]
            if name == "regex" and len(args) > 1:
                p["tree"] = args[1]
    return p


def len_props(args):
    if len(args) == 1:
        return {"len": args[0]}
    out = {}
    if args[0] != "...":
        out["min_len"] = args[0]
    if args[1] != "...":
        out["max_len"] = args[1]
    return out


def len_ok(p, n):
    return ("len" not in p or n == p["len"]) and n >= p.get("min_len", 0) and \
        ("max_len" not in p or n <= p["max_len"])


TYPES = {"none": type(None), "bool": bool, "int": int, "float": float, "str": str,
         "bytes": bytes, "uuid4": UUID, "datetime": datetime, "date": date}


def accepts(spec, v):
    """The meaning of a schema: does v conform? (`sub` specs have no model.)"""
    return _acc(norm(spec), v)


def _acc(n, v):
    t = n["t"]
    if t in SCALARS:
        if not isinstance(v, TYPES[t]):
            return False
        p = props(n)
        if t == "none":
            return True
        if t == "uuid4" and v.version != 4:
            return False
        if "value" in p:
            want = dec(p["value"])
            if t == "float":
                if want != want:
                    if v == v:
                        return False
                elif "precision" in p:
                    s = 10 ** p["precision"]
                    if math.isfinite(v * s) and math.isfinite(want * s):
                        if round(v * s) != round(want * s):
                            return False
                    elif v != want:
                        return False
                elif not math.isclose(v, want):
                    return False
            elif v != want:
                return False
        if t in ("int", "float"):
            if "min" in p and v < dec(p["min"]):
                return False
            if "max" in p and v > dec(p["max"]):
                return False
        if t == "str":
            if not len_ok(p, len(v)):
                return False
            if "alphabet" in p and set(v) - set(p["alphabet"]):
                return False
            if "contains" in p and p["contains"] not in v:
                return False
            if "regex" in p and re.search(p["regex"], v) is None:
                return False
        return True
    if t == "any":
        return n["alts"] is None or any(_acc(x, v) for x in n["alts"])
    if t == "dict":
        if not isinstance(v, dict):
            return False
        if n["keys"] is None:
            return True
        ks = set()
        for k, opt, s in n["keys"]:
            k = dec(k)
            ks.add(k)
            if k in v:
                if not _acc(s, v[k]):
                    return False
            elif not opt:
                return False
        return n["relaxed"] or all(k in ks for k in v)
    if t == "list":
        if not isinstance(v, list):
            return False
        if n.get("len") and not len_ok(len_props(n["len"]), len(v)):
            return False
        if n.get("of") is not None:
            return all(_acc(n["of"], x) for x in v)
        if n.get("items") is None:
            return True
        form, els = list_form(n["items"])
        if form == "exact":
            return len(v) == len(els) and all(_acc(e, x) for e, x in zip(els, v))
        if len(v) < len(els):
            return False
        if form == "head":
            return all(_acc(e, x) for e, x in zip(els, v))
        if form == "tail":
            return all(_acc(e, x) for e, x in zip(els, v[len(v) - len(els):]))
        return any(all(_acc(e, x) for e, x in zip(els, v[i:])) for i in range(len(v) - len(els) + 1))
    raise AssertionError(t)


def list_form(items):
    if len(items) > 2 and items[0] == "..." and items[-1] == "...":
        return "body", items[1:-1]
    if len(items) >= 2 and items[-1] == "...":
        return "head", items[:-1]
    if items and items[0] == "...":
        return "tail", items[1:]
    return "exact", items


# ---------------------------------------------------------------------------------- witness

DATETIMES = ["2024-02-29T12:00:00", "1970-01-01T00:00:00", "2038-01-19T03:14:08.000001",
             "0001-01-01T00:00:00", "9999-12-31T23:59:59.999999", "2024-06-01T00:00:00+03:00",
             "2024-02-29T00:00:00"]
DATES = ["2024-02-29", "1970-01-01", "0001-01-01", "9999-12-31"]
UUIDS = ["f1b9a5b0-7c6e-4d39-8a43-1d2c3b4a5f60", "00000000-0000-4000-8000-000000000000",
         "ffffffff-ffff-4fff-bfff-ffffffffffff"]


# strings that a careless normalisation, encoding, strip or case folding would change
STRS = ["", "a", "banana", "x" * 40, "é", "e\u0301", "...", "None", " a", "a ", "\ta\n", "A", "Banana", "ß", "SS", "\ufb01x",
        "\u0130", "i\u0307", "\u00a0", "a\u200b", "\ufeffa", "a\r\nb", "a\rb", "a\x00b", "a\\nb", "%s {0} $x", "1", "1.0", "True",
        "nan", "\U0001f468\u200d\U0001f469", "\u05d0\u200fa", "日本", "y" * 300, "a,b;c", "'\"", "\u2028", "\x85", "ⅷ²½",
        "__class__", "_id", "$ref", "a-b", "value", "*", "#", "//x", "A" * 33, "a" * 65]


def rich_str(rng):
    c = rng.random()
    if c < .75:
        return rng.choice(STRS)
    if c < .9:
        return rng.choice(STRS) + rng.choice(STRS)
    return "".join(chr(rng.choice((rng.randrange(32, 127), rng.randrange(160, 0x600), rng.randrange(0x1f300, 0x1f600))))
                   for _ in range(rng.randrange(1, 9)))


def rich_int(rng):
    return rng.choice((0, 1, -1, 7, 42, 255, 256, 257, 2 ** 31, 2 ** 53 + 1, 2 ** 63, -2 ** 70, 10 ** 30 + 7,
                       rng.randrange(-1000, 1000), rng.getrandbits(rng.randrange(1, 90)) * rng.choice((1, -1))))


def rich_float(rng):
    return rng.choice((0.0, -0.0, 1.0, 1.5, -2.25, 1e300, 0.1, 0.1 + 0.2, 1e22, 5e-324, 2.0 ** 53 + 2, 123456789.123456789,
                       rng.uniform(-10, 10), rng.uniform(-1, 1) * 10.0 ** rng.randrange(-20, 30)))


def rich_bytes(rng):
    return rng.choice((b"", b"a", b"abc", b"ABC", b"\xff\x00", b"\xc3\xa9", b"\xc3(", b"a\r\n", b" a ", b"x" * 40, b"\x00" * 3,
                       bytes(rng.randrange(256) for _ in range(rng.randrange(1, 9)))))


def rich_datetime(rng):
    if rng.random() < .4:
        return dec({"$dt": rng.choice(DATETIMES)})
    d = datetime(rng.choice((1, 1582, 1899, 1969, 1970, 1999, 2000, 2024, 2038, 9998)), rng.randrange(1, 13), rng.randrange(1, 29),
                 rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.choice((0, 1, 500, 1000, 123456, 999999)))
    z = rng.randrange(6)
    if z < 3:
        return d
    return d.replace(tzinfo=timezone.utc if z == 3 else timezone(timedelta(minutes=rng.choice((180, -300, 330, 345, 839, -839)))))


def rich_date(rng):
    if rng.random() < .4:
        return dec({"$d": rng.choice(DATES)})
    return date(rng.choice((1, 4, 1582, 1900, 1970, 2000, 2024, 9999)), rng.randrange(1, 13), rng.randrange(1, 29))


def rich_uuid(rng):
    if rng.random() < .4:
        return UUID(rng.choice(UUIDS))
    return UUID(int=rng.getrandbits(128), version=4)


def any_value(rng, depth=2, hashable=False):
    c = rng.randrange(10)
    if c == 0:
        return None
    if c == 1:
        return rng.random() < .5
    if c == 2:
        return rich_int(rng)
    if c == 3:
        return rich_float(rng)
    if c == 4 or hashable:
        return rich_str(rng)
    if c == 5:
        return rich_bytes(rng)
    if c == 6:
        return rng.choice((rich_uuid, rich_datetime, rich_date))(rng)
    if depth <= 0:
        return "leaf"
    if c in (7, 8):
        return [any_value(rng, depth - 1) for _ in range(rng.choice((0, 1, 2, 3)))]
    return {any_value(rng, 0, True): any_value(rng, depth - 1) for _ in range(rng.choice((0, 1, 2)))}


def witness(spec, rng, lean=False):
    """A value that conforms (checked), or Unsat."""
    n = norm(spec)
    for _ in range(6):
        v = _wit(n, rng, lean)
        if _acc(n, v):
            return v
    raise Unsat(spec)


def _pick_len(p, rng, floor=0):
    if "len" in p:
        return p["len"]
    lo = max(floor, p.get("min_len", 0))
    hi = p.get("max_len", lo + 3)
    if hi < lo:
        raise Unsat()
    return lo + rng.choice((0, 0, 1, min(2, hi - lo), hi - lo if hi - lo < 50 else 3)) \
        if hi > lo else lo


def _few(rng, many):
    """How many members something without a bound gets."""
    return rng.choice((0, 1, 2, 3)) if rng.random() < .97 or not many else rng.choice((9, 17, 36, 70))


def _wit(n, rng, lean):
    t = n["t"]
    p = props(n) if t in SCALARS else None
    if t == "none":
        return None
    if p and "value" in p:
        return dec(p["value"])
    if t == "bool":
        return rng.random() < .5
    if t == "int":
        lo, hi = p.get("min"), p.get("max")
        if lo is None and hi is None:
            return rich_int(rng)
        lo = hi - 1000 if lo is None else lo
        hi = lo + 1000 if hi is None else hi
        if hi < lo:
            raise Unsat()
        return rng.choice((lo, hi, lo + (hi - lo) // 2, rng.randint(lo, hi)))
    if t == "float":
        lo = dec(p["min"]) if "min" in p else None
        hi = dec(p["max"]) if "max" in p else None
        if lo is None and hi is None:
            if rng.random() < .08:
                return rng.choice((math.nan, math.inf, -math.inf))
            return rich_float(rng)
        if lo is not None and hi is not None and hi < lo:
            raise Unsat()
        c = [x for x in (lo, hi) if x is not None]
        if lo is not None and hi is not None:
            c.append(lo / 2 + hi / 2)
            c = [x for x in c if lo <= x <= hi] or [math.nan]
        if lo is not None and hi is None:
            c.append(lo + abs(lo) * rng.random())
        if hi is not None and lo is None:
            c.append(hi - abs(hi) * rng.random())
        return rng.choice(c)
    if t == "str":
        if "regex" in p:
            return rl.witness(p["tree"], rng) if "tree" in p else ""
        if not p and rng.random() < .7:
            return rich_str(rng)
        sub = p.get("contains", "")
        k = _pick_len(p, rng, len(sub)) if ("len" in p or "min_len" in p or "max_len" in p) else \
            len(sub) + rng.choice((0, 0, 1, 3, 7))
        al = p.get("alphabet", "abcXYZ012 -_é")
        pad = k - len(sub)
        if pad > 0 and not al:
            if "len" in p or "min_len" in p:
                raise Unsat()
            pad = 0
        fill = "".join(rng.choice(al) for _ in range(pad))
        at = rng.randrange(len(fill) + 1)
        v = fill[:at] + sub + fill[at:]
        if not _acc(n, v):
            raise Unsat()
        return v
    if t == "bytes":
        return rich_bytes(rng)
    if t == "uuid4":
        return rich_uuid(rng)
    if t == "datetime":
        return rich_datetime(rng)
    if t == "date":
        return rich_date(rng)
    if t == "any":
        if n["alts"] is None:
            return any_value(rng)
        order = list(n["alts"])
        rng.shuffle(order)
        for a in order:
            try:
                return _wit(a, rng, lean)
            except Unsat:
                pass
        raise Unsat()
    if t == "dict":
        if n["keys"] is None:
            return {} if lean else {("k%d" % i if rng.random() < .8 else rich_str(rng)): any_value(rng, 1)
                                    for i in range(_few(rng, True))}
        out = {}
        for k, opt, s in n["keys"]:
            if opt and (lean or rng.random() < .5):
                continue
            try:
                out[dec(k)] = _wit(s, rng, lean)
            except Unsat:
                if not opt:
                    raise
        if n["relaxed"] and not lean and rng.random() < .4:
            k = rng.choice(("zz_extra", 99, None))
            if k not in {dec(k) for k, _, _ in n["keys"]}:
                out[k] = any_value(rng, 1)
        return out
    if t == "list":
        lp = len_props(n["len"]) if n.get("len") else {}
        if n.get("of") is not None:
            k = _pick_len(lp, rng) if lp else _few(rng, n["of"]["t"] in SCALARS)
            return [_wit(n["of"], rng, lean) for _ in range(max(0, k))]
        if n.get("items") is None:
            k = _pick_len(lp, rng) if lp else _few(rng, not lean)
            return [any_value(rng, 1) for _ in range(max(0, k))]
        form, els = list_form(n["items"])
        vals = [_wit(e, rng, lean) for e in els]
        if form == "exact":
            return vals
        k = _pick_len(lp, rng, len(els)) if lp else len(els) + (rng.choice((0, 0, 1, 2)) if rng.random() < .97 else _few(rng, not lean))
        extra = [any_value(rng, 1) for _ in range(k - len(els))]
        if form == "head":
            return vals + extra
        if form == "tail":
            return extra + vals
        at = rng.randrange(len(extra) + 1)
        return extra[:at] + vals + extra[at:]
    raise AssertionError(t)


# --------------------------------------------------------------------------------- generation

LENS = [0, 1, 2, 3, 5, 15, 16, 17, 31, 32, 33, 34, 40, 64, 100]
INTS = [0, 1, -1, 2, 7, 10, 255, 2 ** 31, -2 ** 31, 2 ** 63 - 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1,
        2 ** 64, 2 ** 70, -2 ** 70, 10 ** 30]
FLOATS = [0.0, 0.5, 1.0, -1.0, 0.1, 0.15, 0.29, 0.3, 1.005, 2.675, 3.14, -3.14, 100.0, 99.99, 1e-9,
          1e6, 123456.789, 9007199254740993.0, 9.223372036854775e18, 9.223372036854776e18, 1e19,
          -9.223372036854776e18, -1e19, 1e22, 1e300, -1e300, 1.7e308, -1.7e308, 5e-324, -0.0]
ALPHABETS = ["a", "ab", "abc", "0123456789", "äßЯ", "aab", " \t", "ab\n", "😀x", "ABC-_ ", "", "日本語аб", "αβγδ", "eе\u0301"]
WORDS = ["", "a", "b", "ab", "ba", "banana", "0", "é", " ", "x" * 10, "y" * 35]
KEYS = ["id", "name", "a", "b", "c", "key", "", "with space", "a.b", 1, 0, -5, None, True,
        {"$b": "6162"}, {"$t": [1, 2]}, "é", 2.5, "type", "keys",
        "ID", "Name", " id", "e\u0301", "x y", "1", "None", "__a__", "_id", "$ref", "value", "*", -1, 2 ** 70, False, {"$t": []}, {"$b": ""}, 1e100]
E3 = "..."
ALIASES = ["X", "Name", "my alias"]

BIG = 4000          # cap on the number of leaves an adversary may make fake() produce


def size(spec):
    """Upper bound of the number of draws an adversary can make fake() take."""
    t = spec["t"]
    if t == "str":
        p = props(spec)
        if "regex" in p:
            return 40
        return 4 + max(p.get("len", 0), p.get("min_len", 0), p.get("max_len", 0), 33) // 4
    if t in SCALARS:
        return 3
    if t == "list":
        lp = len_props(spec["len"]) if spec.get("len") else {}
        k = max(lp.get("len", 0), lp.get("min_len", 0), lp.get("max_len", 16), 1)
        if spec.get("of") is not None:
            return 1 + k * size(spec["of"])
        if spec.get("items") is not None:
            return 1 + sum(size(x) for x in spec["items"] if x != "...")
        return 1 + k
    if t == "dict":
        return 1 + sum(size(s) for _, _, s in spec.get("keys") or [])
    if t in ("any", "or"):
        return 1 + max((size(x) for x in spec.get("alts") or []), default=0)
    if t == "add":
        return size(spec["a"]) + size(spec["b"])
    return size(spec["of"]) + 1


def with_boom(rng, spec):
    """The same schema with one member replaced by a user's type whose every method fails."""
    t = spec["t"]
    boom = {"t": "boom", "e": rng.choice(BOOMS)}
    if rng.random() < .1:
        return boom
    if t == "list" and spec.get("items"):
        at = rng.choice([i for i, x in enumerate(spec["items"]) if x != "..."] or [None])
        if at is not None:
            items = list(spec["items"])
            items[at] = with_boom(rng, items[at])
            return {**spec, "items": items}
    if t == "list" and spec.get("of") is not None:
        return {**spec, "of": with_boom(rng, spec["of"])}
    if t == "dict" and spec.get("keys"):
        at = rng.randrange(len(spec["keys"]))
        keys = [list(k) for k in spec["keys"]]
        keys[at][2] = with_boom(rng, keys[at][2])
        return {**spec, "keys": keys}
    if t in ("any", "or") and spec.get("alts"):
        at = rng.randrange(len(spec["alts"]))
        return {**spec, "alts": [with_boom(rng, x) if i == at else x for i, x in enumerate(spec["alts"])]}
    if t == "add":
        k = rng.choice("ab")
        return {**spec, k: with_boom(rng, spec[k])} if spec[k]["t"] == "dict" and spec[k].get("keys") else spec
    if t == "alias":
        return {**spec, "of": with_boom(rng, spec["of"])}
    return {"t": "list", "items": [spec, boom] if rng.random() < .5 else [boom, spec]}


BOOMS = ("MemoryError", "KeyError", "ZeroDivisionError", "RecursionError")


def twins(rng, v, p=.6):
    """Numbers become equal numbers of other kinds (1, 1.0, True; 0, 0.0, False)."""
    if isinstance(v, dict):
        return {k: twins(rng, x, p) for k, x in v.items()}
    if isinstance(v, list):
        return [twins(rng, x, p) for x in v]
    if isinstance(v, (bool, int, float)) and rng.random() < p:
        return rng.choice((1, 1.0, True, 0, 0.0, False, 1, 1.0, True))
    return v


def gen_scalar(rng, t, ctx):
    while True:
        s = _gen_scalar(rng, t, ctx)
        if sat(s):
            return s


def sat(spec):
    """Some value conforms (found by the witness builder)."""
    try:
        witness(spec, RealRandom(7))
        return True
    except Unsat:
        return False


def all_sat(spec):
    """The schema and every schema nested in it admit a value."""
    t = spec["t"]
    if not sat(spec):
        return False
    if t == "list":
        subs = [spec["of"]] if spec.get("of") is not None else \
            [x for x in spec.get("items") or () if x != "..."]
    elif t == "dict":
        subs = [x for _, opt, x in spec.get("keys") or () if not opt or x not in NEVER]
    elif t in ("any", "or"):
        subs = spec.get("alts") or ()
    elif t == "add":
        subs = [spec["a"], spec["b"]]
    elif t in SCALARS:
        subs = ()
    else:
        subs = [spec["of"]]
    return all(all_sat(x) for x in subs)


def sibling(rng, spec, ctx=None):
    """A schema that looks much like this one: the same structure, names and keys with something else somewhere."""
    for _ in range(12):
        left = [rng.randrange(size(spec) + 1)]
        s = _sib(rng, spec, ctx or {}, left)
        if s != spec and all_sat(s):
            return s
    return spec


def _sib(rng, spec, ctx, left):
    t = spec["t"]
    left[0] -= 1
    hit = left[0] <= 0

    def deeper(x):
        return _sib(rng, x, ctx, left) if x != E3 else x
    if t in SCALARS:
        if not hit:
            return spec
        left[0] = 1 << 30
        c = rng.random()
        calls = spec.get("calls") or []
        if c < .15 and calls:
            i = rng.randrange(len(calls))
            return {"t": t, "calls": calls[:i] + calls[i + 1:]}
        if c < .4 and calls:
            i = rng.randrange(len(calls))
            return {"t": t, "calls": calls[:i] + [tweak(rng, calls[i])] + calls[i + 1:]}
        if c < .6:
            return gen_scalar(rng, t, ctx)
        if c < .75:
            return {"t": "any", "alts": [spec, gen_scalar(rng, rng.choice(SCALARS), ctx)]}
        if c < .85:
            return {"t": "any", "alts": None}
        return gen_scalar(rng, rng.choice(SCALARS), ctx)
    if t == "dict" and spec["keys"] is not None:
        keys = [list(k) for k in spec["keys"]]
        if hit and rng.random() < .5:
            left[0] = 1 << 30
            if keys and rng.random() < .6:
                i = rng.randrange(len(keys))
                keys[i][1] = not keys[i][1]
                return {**spec, "keys": keys}
            return {**spec, "relaxed": not spec["relaxed"]}
        return {**spec, "keys": [[k, o, deeper(s)] for k, o, s in keys]}
    if t == "list":
        if spec.get("of") is not None:
            return {**spec, "of": deeper(spec["of"])}
        if spec.get("items"):
            return {**spec, "items": [deeper(x) for x in spec["items"]]}
        return spec
    if t in ("any", "or") and spec.get("alts"):
        alts = list(spec["alts"])
        if hit and rng.random() < .5:
            left[0] = 1 << 30
            if len(alts) > 2 and rng.random() < .5:
                alts.pop(rng.randrange(len(alts)))
            else:
                rng.shuffle(alts)
            return {**spec, "alts": alts}
        return {**spec, "alts": [deeper(x) for x in alts]}
    if t in ("alias", "req"):
        return {**spec, "of": deeper(spec["of"])}
    if t == "add":
        return {**spec, "a": deeper(spec["a"]), "b": deeper(spec["b"])}
    return spec


def tweak(rng, call):
    """The same refinement with an argument next to this one."""
    if call[0] == "regex":
        tree = {**call[2], "node": rl.sibling(rng, call[2]["node"])} if len(call) > 2 else None
        if tree is None or rl.has_raw(tree["node"]) or not rl.safe_for_re(tree):
            return call
        return ["regex", rl.render(tree), tree]
    i = rng.randrange(1, len(call))
    x = call[i]
    if isinstance(x, bool):
        y = not x
    elif isinstance(x, int):
        y = max(0, x + rng.choice((1, -1))) if call[0] == "len" else x + rng.choice((1, -1))
    elif isinstance(x, float):
        y = x + rng.choice((.01, -.01, 1.0, -1.0))
    elif isinstance(x, str) and x and x != E3:
        j = rng.randrange(len(x))
        y = x[:j] + rng.choice(("b", "x", "0", "é", " ", x[j].swapcase())) + x[j + 1:]
    else:
        y = x
    if call[0] == "precision":
        y = min(15, max(1, y))
    return call[:i] + [y] + call[i + 1:]


def _gen_scalar(rng, t, ctx):
    calls = []
    if t in ("bool", "bytes", "uuid4", "datetime", "date"):
        if rng.random() < .4:
            calls.append(["value", {
                "bool": lambda: rng.random() < .5,
                "bytes": lambda: enc(rich_bytes(rng)),
                "uuid4": lambda: enc(rich_uuid(rng)),
                "datetime": lambda: enc(rich_datetime(rng)),
                "date": lambda: enc(rich_date(rng))}[t]()])
    elif t == "int":
        c = rng.random()
        if c < .25:
            v = rng.choice(INTS) if rng.random() < .7 else rich_int(rng)
            calls.append(["value", v])
            if rng.random() < .4:
                calls.append(["min", v - rng.choice((0, 1, 2 ** 65))])
            if rng.random() < .4:
                calls.append(["max", v + rng.choice((0, 1, 2 ** 65))])
        else:
            lo = rng.choice(INTS)
            hi = rng.choice((lo, lo + 1, lo + 9, lo + 2 ** 66, rng.choice(INTS)))
            lo, hi = min(lo, hi), max(lo, hi)
            m = rng.randrange(4)
            if m in (1, 3):
                calls.append(["min", lo])
            if m in (2, 3):
                calls.append(["max", hi])
            rng.shuffle(calls)
    elif t == "float":
        c = rng.random()
        prec = rng.choice((1, 1, 2, 2, 3, 5, 7, 12, 15))
        if c < .25:
            v = rng.choice(FLOATS) if rng.random() < .7 else rich_float(rng)
            if ctx.get("inf") and rng.random() < .1:
                v = rng.choice((math.nan, math.inf, -math.inf))
            calls.append(["value", enc(v)])
            opts = []
            if rng.random() < .3:
                opts.append(["min", v - abs(v) * rng.choice((0, .5))])
            if rng.random() < .3:
                opts.append(["max", v + abs(v) * rng.choice((0, .5))])
            if rng.random() < .5:
                opts.append(["precision", prec])
            opts = [o for o in opts if math.isfinite(o[1])]
            rng.shuffle(opts)
            calls += opts
        else:
            lo = rng.choice(FLOATS)
            if rng.random() < .3:
                lo = round(rng.uniform(-50, 50), rng.choice((1, 2, 3, 17)))
            d = rng.random()
            if d < .15:
                hi = lo
            elif d < .3:
                hi = math.nextafter(lo, math.inf)
            elif d < .6:
                hi = lo + rng.choice((.001, .01, .05, .1, .3, 1.0, 7.77))
            else:
                hi = rng.choice(FLOATS)
            lo, hi = min(lo, hi), max(lo, hi)
            fine = rng.random() < .4
            if fine:        # bounds a few steps of the precision apart, on or off its grid
                step = 10.0 ** -prec
                lo = rng.randrange(-30, 120) * step + rng.choice((0, 0, .1, .4, .5, .51, .9)) * step
                hi = lo + rng.choice((0, .05, .3, .6, 1, 1.2, 2.5, 3)) * step
            if ctx.get("inf") and rng.random() < .1:
                lo = -math.inf
            if ctx.get("inf") and rng.random() < .1:
                hi = math.inf
            if ctx.get("inf") and rng.random() < .05:
                lo, hi = rng.choice(((math.inf, math.inf), (-math.inf, -math.inf), (math.nan, hi), (lo, math.nan)))
            m = rng.choice((0, 1, 2, 3, 3, 3))
            if m in (1, 3):
                calls.append(["min", enc(lo)])
            if m in (2, 3):
                calls.append(["max", enc(hi)])
            if fine or rng.random() < .35:
                calls.append(["precision", prec])
            rng.shuffle(calls)
    elif t == "str":
        calls = gen_str(rng, ctx)
    return {"t": t, "calls": calls}


def gen_len(rng, lo=0, hi=None):
    """A len form whose range includes some k with lo <= k (<= hi)."""
    pool = [x for x in LENS if x >= lo and (hi is None or x <= hi)] or [lo]
    k = rng.choice(pool)
    c = rng.random()
    if c < .3:
        return ["len", k]
    if c < .5:
        return ["len", "...", k]
    if c < .75:
        return ["len", k if rng.random() < .9 else -rng.choice((1, 3)), "..."]
    a = rng.choice((0, k, k // 2, k, -2))
    return ["len", a, k]


def gen_regex_call(rng):
    tree = rl.gen(rng, depth=rng.choice((1, 2)), cap=32, limit=150)
    return ["regex", rl.render(tree), tree] if rl.safe_for_re(tree) else None


def gen_str(rng, ctx):
    c = rng.random()
    if c < .15 and ctx.get("regex", True):
        tree = rl.gen(rng, depth=2, cap=32, limit=150)
        if rl.safe_for_re(tree):
            return [["regex", rl.render(tree), tree]]
        return []
    if c < .3:
        v = rng.choice(WORDS + ["hello world", "a\nb", "\x00", "日本"]) if rng.random() < .6 else rich_str(rng)
        opts = []
        if rng.random() < .35:
            n = len(v)
            opts.append(rng.choice((["len", n], ["len", n, "..."], ["len", "...", n + rng.choice((0, 3))],
                                    ["len", max(0, n - 1), n + 1])))
        if rng.random() < .3:
            opts.append(["alphabet", "".join(sorted(set(v))) + rng.choice(("", "q"))])
        if rng.random() < .3:
            i = rng.randrange(len(v) + 1)
            opts.append(["contains", v[i:i + 3]])
        rng.shuffle(opts)
        return [["value", v]] + opts
    calls = []
    al = None
    sub = ""
    if rng.random() < .45:
        al = rng.choice(ALPHABETS)
        calls.append(["alphabet", al])
    if rng.random() < .45:
        sub = rng.choice(WORDS) if not al else "".join(rng.choice(al) for _ in range(rng.choice((0, 1, 2, 5))))
        if al == "":
            sub = ""
        calls.append(["contains", sub])
    if rng.random() < .6:
        if al == "":
            calls.append(rng.choice((["len", 0], ["len", "...", rng.choice(LENS)], ["len", 0, 5],
                                     ["len", 0, "..."])))
        else:
            calls.append(gen_len(rng, len(sub)))
    rng.shuffle(calls)
    return calls


def gen(rng, depth=3, ctx=None):
    """A satisfiable spec (every sub-schema is satisfiable too)."""
    ctx = ctx or {}
    deep = rng.random() < .05
    for _ in range(50):
        s = _gen(rng, depth, ctx) if not deep else gen_deep(rng, ctx)
        if size(s) > ctx.get("big", BIG):
            depth = max(0, depth - 1)
            continue
        try:
            witness(s, rng)
        except Unsat:
            continue
        if ctx.get("never") and not all_sat(s):
            continue
        return s
    return {"t": "int", "calls": []}


def _gen(rng, depth, ctx):
    kinds = ctx.get("kinds")
    c = rng.random()
    if depth <= 0 or c < .35:
        pool = [t for t in SCALARS if not kinds or t in kinds] or ["int"]
        if rng.random() < .5:
            pool = [t for t in ("int", "float", "str", "str") if t in pool] or pool
        return gen_scalar(rng, rng.choice(pool), ctx)
    comp = [t for t in ("list", "list", "list", "dict", "dict", "dict", "any", "or", "add", "alias", "req")
            if not kinds or t in kinds] or ["list"]
    t = rng.choice(comp)
    if t == "list":
        return gen_list(rng, depth, ctx)
    if t == "dict":
        return gen_dict(rng, depth, ctx)
    if t in ("any", "or"):
        if t == "any" and rng.random() < .12:
            return {"t": "any", "alts": None}
        if rng.random() < .1:
            alts = [{"t": x, "calls": []} for x in rng.sample(("int", "float", "bool", "str", "none"), rng.choice((2, 3, 4)))]
            return {"t": t, "alts": alts}
        if rng.random() < .08:      # wide
            return {"t": t, "alts": [_gen(rng, 0, ctx) for _ in range(rng.choice((5, 8, 13, 20)))]}
        alts = [_gen(rng, depth - 1, ctx) for _ in range(rng.choice((1, 2, 2, 3) if t == "any" else (2, 2, 3)))]
        return {"t": t, "alts": alts}
    if t == "add":
        return {"t": "add", "a": gen_dict(rng, depth - 1, ctx), "b": gen_dict(rng, depth - 1, ctx)}
    if t == "alias":
        return {"t": "alias", "name": rng.choice(ALIASES), "of": _gen(rng, depth - 1, ctx)}
    d = gen_dict(rng, depth, ctx)
    keys = None
    if d["keys"] is not None and rng.random() < .6:
        keys = [k for k, _, _ in d["keys"] if rng.random() < .5]
    elif d["keys"] is None:
        keys = None
    return {"t": "req", "of": d, "keys": keys}


def gen_deep(rng, ctx):
    """A long chain of containers around something small."""
    s = _gen(rng, 1, ctx)
    for _ in range(rng.choice((4, 6, 9, 12) + ((14, 30) if ctx.get("deep") else ()))):   # (== takes 2 ** depth)
        c = rng.randrange(6)
        if c == 0:
            s = {"t": "list", "of": s, "len": rng.choice(([1], [1, 1], ["...", 1], [0, 1]))}
        elif c == 1:
            s = {"t": "list", "items": rng.choice(([s], [s, "..."], ["...", s], ["...", s, "..."]))}
        elif c == 2:
            s = {"t": "any", "alts": [s] if rng.random() < .7 else [s, _gen(rng, 0, ctx)]}
        elif c == 3:
            s = {"t": "alias", "name": rng.choice(ALIASES), "of": s}
        else:
            s = {"t": "dict", "keys": [[rng.choice(KEYS), rng.random() < .08, s]], "relaxed": rng.random() < .2}
    return s


NEVER = (
    {"t": "int", "calls": [["min", 5], ["max", 3]]},
    {"t": "float", "calls": [["min", 1.5], ["max", -1.5]]},
    {"t": "str", "calls": [["len", 7, 2]]},
    {"t": "str", "calls": [["alphabet", ""], ["len", 3]]},
    {"t": "str", "calls": [["len", 2], ["contains", "banana"]]},
    {"t": "list", "len": [5, 2]},
    {"t": "list", "of": {"t": "int", "calls": [["max", 1], ["min", 2]]}, "len": [2]},
    {"t": "dict", "keys": [["a", False, {"t": "int", "calls": [["min", 5], ["max", 3]]}]], "relaxed": False},
)


def gen_dict(rng, depth, ctx):
    if rng.random() < .12:
        return {"t": "dict", "keys": None}
    keys, seen = [], set()
    wide = rng.choice((12, 30, 30, 70)) if rng.random() < .05 else 0
    names = wide and rng.random() < .6      # plain names only, most of them there
    if wide:
        depth = 1 if not names else 0
    for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4)) if not wide else wide):
        k = rng.choice(KEYS) if not names else rng.choice("abcdkxyz_") + str(rng.randrange(40))
        h = dec(k)
        if h in seen:
            continue
        seen.add(h)
        if rng.random() < ctx.get("never", 0):      # nothing conforms: the key can only be left out
            keys.append([k, True, rng.choice(NEVER)])
            continue
        keys.append([k, rng.random() < .35, _gen(rng, depth - 1, ctx)])
    return {"t": "dict", "keys": keys, "relaxed": rng.random() < .3}


def gen_list(rng, depth, ctx):
    c = rng.random()
    if c < .15:
        out = {"t": "list"}
        if rng.random() < .7:
            out["len"] = gen_len(rng)[1:]
        return out
    if c < .45:
        out = {"t": "list", "of": _gen(rng, depth - 1, ctx)}
        if rng.random() < .6:
            small = size(out["of"]) > 40
            out["len"] = gen_len(rng, 0, 3 if small else 34)[1:]
        elif size(out["of"]) > 60:
            out["len"] = ["...", 3]
        return out
    k = rng.choice((0, 1, 1, 2, 3, 4))
    if rng.random() < .05:
        k = rng.choice((7, 10, 12, 20))
        depth = min(depth, 1 + (rng.random() < .2))
    items = [_gen(rng, depth - 1, ctx) for _ in range(k)]
    form = rng.choice(("exact", "head", "tail", "body"))
    if form == "body" and k == 0:
        form = "tail"
    if form in ("tail", "body"):
        items = ["..."] + items
    if form in ("head", "body") and k:
        items = items + ["..."]
    out = {"t": "list", "items": items}
    if rng.random() < .5:
        if form == "exact" or (form == "head" and not k):
            out["len"] = rng.choice(([k], [k, "..."], [max(0, k - 1), "..."], ["...", k], ["...", k + 2],
                                     [0, k], [k, k + 5]))
        else:
            n = k + rng.choice((0, 1, 2, 5, 20))
            out["len"] = rng.choice(([n], [n], ["...", n], [k, "..."], [0, "..."], [k, n],
                                     [max(0, k - 1), n]))
    return out


# ----------------------------------------------------------------------------------- shape

def shape(spec):
    """What a spec is made of, without its parameters (a coverage measure)."""
    t = spec["t"]
    if t == "custom":
        return "custom%d" % spec["n"]
    if t in SCALARS:
        return t + "".join(":" + c[0] + (str(len(c)) if c[0] == "len" else "") for c in spec.get("calls", ()))
    if t == "list":
        if spec.get("of") is not None:
            s = "list<%s>" % shape(spec["of"])
        elif spec.get("items") is not None:
            s = "list[%s]" % ",".join(x if x == "..." else shape(x) for x in spec["items"])
        else:
            s = "list"
        return s + (":len%s" % "".join("e" if x == "..." else "n" for x in spec["len"]) if spec.get("len") else "")
    if t == "dict":
        if spec.get("keys") is None:
            return "dict"
        return "dict{%s%s}" % (",".join(("?" if o else "") + shape(s) for _, o, s in spec["keys"]),
                               "..." if spec.get("relaxed") else "")
    if t in ("any", "or"):
        return t + ("(%s)" % ",".join(shape(x) for x in spec["alts"]) if spec.get("alts") is not None else "")
    if t == "add":
        return "add(%s,%s)" % (shape(spec["a"]), shape(spec["b"]))
    return "%s(%s)" % (t, shape(spec["of"]))


# ---------------------------------------------------------------------------------- shrinking

def shrinks(spec):
    """Simpler specs (not necessarily satisfiable: the caller checks)."""
    t = spec["t"]
    if t == "custom":
        yield {"t": "int", "calls": []}
        return
    if t in SCALARS:
        calls = spec.get("calls", [])
        for i in range(len(calls)):
            yield {**spec, "calls": calls[:i] + calls[i + 1:]}
        for i, c in enumerate(calls):
            for a in _arg_shrinks(c):
                yield {**spec, "calls": calls[:i] + [a] + calls[i + 1:]}
        return
    if t == "list":
        if spec.get("of") is not None:
            yield spec["of"]
        for x in spec.get("items") or ():
            if x != "...":
                yield x
        if spec.get("len"):
            yield {k: v for k, v in spec.items() if k != "len"}
            for i, a in enumerate(spec["len"]):
                if isinstance(a, int) and a > 0:
                    for b in sorted({0, 1, a // 2, a - 1}):
                        yield {**spec, "len": spec["len"][:i] + [b] + spec["len"][i + 1:]}
        if spec.get("of") is not None:
            yield {k: v for k, v in spec.items() if k != "of"}
            for s in shrinks(spec["of"]):
                yield {**spec, "of": s}
        items = spec.get("items")
        if items:
            for i in range(len(items)):
                if items[i] != "...":
                    yield {**spec, "items": items[:i] + items[i + 1:]}
            for i, x in enumerate(items):
                if x != "...":
                    for s in shrinks(x):
                        yield {**spec, "items": items[:i] + [s] + items[i + 1:]}
        return
    if t == "dict":
        keys = spec.get("keys")
        if keys is None:
            return
        for _, _, s in keys:
            yield s
        if spec.get("relaxed"):
            yield {**spec, "relaxed": False}
        for i in range(len(keys)):
            yield {**spec, "keys": keys[:i] + keys[i + 1:]}
        for i, (k, o, s) in enumerate(keys):
            if o:
                yield {**spec, "keys": keys[:i] + [[k, False, s]] + keys[i + 1:]}
            for x in shrinks(s):
                yield {**spec, "keys": keys[:i] + [[k, o, x]] + keys[i + 1:]}
        return
    if t in ("any", "or"):
        alts = spec.get("alts")
        if alts is None:
            return
        yield from alts
        if len(alts) > (1 if t == "any" else 2):
            for i in range(len(alts)):
                yield {**spec, "alts": alts[:i] + alts[i + 1:]}
        for i, a in enumerate(alts):
            for s in shrinks(a):
                yield {**spec, "alts": alts[:i] + [s] + alts[i + 1:]}
        return
    if t == "add":
        yield spec["a"]
        yield spec["b"]
        for k in ("a", "b"):
            for s in shrinks(spec[k]):
                if norm(s)["t"] == "dict":
                    yield {**spec, k: s}
        return
    yield spec["of"]
    for s in shrinks(spec["of"]):
        if t != "req" or norm(s)["t"] == "dict":
            yield {**spec, "of": s}
    if t == "req" and spec["keys"] is not None:
        yield {**spec, "keys": None}


def _arg_shrinks(c):
    name, *args = c
    if name == "regex" and len(args) > 1:
        for tree in rl.shrinks(args[1]):
            yield ["regex", rl.render(tree), tree]
        return
    for i, a in enumerate(args):
        alts = []
        if isinstance(a, bool):
            continue
        if isinstance(a, int):
            alts = [x for x in (0, 1, a // 2, a - 1 if a > 0 else a + 1) if abs(x) < abs(a)]
        elif isinstance(a, float):
            alts = [x for x in (0.0, 1.0, float(int(a)) if abs(a) < 1e15 else 0.0, round(a, 1)) if
                    x != a and len(repr(x)) < len(repr(a))]
        elif isinstance(a, str) and a != "..." and a:
            alts = ["", a[:len(a) // 2], a[1:]]
        for x in alts:
            yield [name] + args[:i] + [x] + args[i + 1:]
