"""Patterns as JSON trees: a generator, a renderer and a matcher that does not use `re`.

Nodes: ["lit", c]  ["dot"]  ["d"]  ["w"]  ["cls", negated, items]  ["grp", kind, node]
       ["alt", nodes]  ["rep", node, lo, hi|None, lazy]  ["seq", nodes]  ["raw", text]
Class items: ["c", x]  ["r", a, b]  ["d"]  ["w"]
A pattern is {"pre": start anchor, "node": node, "post": end anchor}.
"""

META = set(".^$*+?{}[]\\|()")
LITS = ["\x07", "\x0b"] + list("abcxyzABZsSdDwWbkPu0159_ -~!#%&,:;<=>@'\"/`") + list(".^$*+?{}[]\\|()") + \
    ["\n", "\t", "\r", "\x00", "\x7f", "é", "ß", "Я", "日", "😀", "\u2028"]
RANGES = [("a", "z"), ("A", "Z"), ("0", "9"), ("a", "c"), ("x", "z"), (" ", "~"), ("!", "/"),
          ("0", "0"), ("A", "z"), ("\x00", "\x1f"), ("а", "я"), ("a", "a"), ("a", "b"),
          ("😀", "😃"), ("\x00", "\x7f"), ("\t", "\r"), ("\x00", "\xa9"), (" ", "\xff"), ("\x00", "\u04ff")]
# not inside negated classes: wide ones, over the surrogates
WIDE = [("\ud7f0", "\ue010"), ("a", "\uffff"), ("\u0100", "\U0010ffff"), ("\ud7ff", "\ue000"), ("\uff00", "\U0001ffff")]
# one before a character that is a digit (a word character) and that no alphabet holds
EVES = {"d": "\u065f\u06ef", "w": "\xa9\xb1\xb4\xb8\xbb\xbf\u02af\u036f\u065f"}
FLAGS = ["-i", "s", "m", "-s", "s-i", "ms", "-ims"]
STARTS = ["", "", "", "^", "\\A"]
ENDS = ["", "", "", "$", "\\Z"]
BOUNDS = [0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 40, 43, 44, 45, 47, 48, 64]

UNSUPPORTED = ["(?=a)", "(?!a)", "(?<=a)", "(?<!a)", "\\s", "\\S", "\\D", "\\W", "(?>ab?)",
               "a*+", "a++", "a?+", "a{1,2}+", "[\\s]", "[\\S]", "[\\D]", "[\\W]", "[^\\s]", "[^\\S]",
               "[^\\D]", "[^\\W]", "[a\\s]", "[a\\W]", "[^a\\D]", "(?=\\d)", "(?!b)", "(?<!z)",
               "[^\\Wa]", "\\w*+", "(?:ab)?+", "(?>a|ab)", "(a)\\1", "(?P<u>b?)(?P=u)", "(a|b)\\1",
               "(a)?(?(1)b|c)", "(?P<q>a)?(?(q)b|c)", "(a)?(?(1)b)", ".*+", "[ab]++", "(?:a|b)*+", "\\d?+", "(?<=ab)",
               "(?<!ab)", "(?=(?:a|b)c)", "(?!.)", "(?>\\d*)", "(?>(?:a|ab))b", "(?:(a)|b)\\1", "(.)(.)\\2", "[\\d\\s]",
               "a{2}+a", "a{2,}+a", "a{2,3}+a", "(?:ab){2,}+ab", "[ab]{2,4}+b", "\\d{3,}+\\d", "x{0,2}+x", ".++.", "(?>a{2,3})a",
               "(?:a|ab){1,2}+b", "(a|b)(c|d)\\2\\1", "(?P<x>\\d)(?P=x)", "(?=b)a", "a(?!b)b", "(?<=b)a", "(?<=a)b", "((.)\\2)",
               "(.)((.)\\3)\\1", "(?=a)a", "(?!a)a", "a(?<=a)", "a(?<=b)", "(?<!a)b", "[^\\s\\S]"]


def esc(c):
    if c in META or c == "#":
        return "\\" + c
    if c == "\n":
        return "\\n"
    if c == "\t":
        return "\\t"
    return c


def esc_cls(c):
    return "\\" + c if c in "]\\^-[&~|" else c


NAMED = {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\x07": "\\a", "\x0c": "\\f", "\x0b": "\\v"}


def encoded(c, how):
    """Other spellings of one character."""
    o = ord(c)
    if how == "x" and o < 256:
        return "\\x%02x" % o
    if how == "u" and o < 65536:
        return "\\u%04X" % o
    if how == "U":
        return "\\U%08x" % o
    if how == "o" and o < 256:
        return "\\%03o" % o if o < 64 else "\\" + "%03o" % o
    if how == "n" and c in NAMED:
        return NAMED[c]
    if how == "e" and not c.isalnum() and c != "\n" and o < 128:
        return "\\" + c
    return None


def render(p):
    n = [0]
    return p["pre"] + _r(p["node"], n) + p["post"]


def _r(node, n):
    k = node[0]
    if k == "lit":
        return (encoded(node[1], node[2]) if len(node) > 2 else None) or esc(node[1])
    if k == "at":
        return node[1]
    if k == "dot":
        return "."
    if k == "d":
        return "\\d"
    if k == "w":
        return "\\w"
    if k == "raw":
        return node[1]
    if k == "cls":
        out = "[^" if node[1] else "["
        for it in node[2]:
            if it[0] == "c":
                out += (encoded(it[1], it[2]) if len(it) > 2 else None) or esc_cls(it[1])
            elif it[0] == "r":
                out += esc_cls(it[1]) + "-" + esc_cls(it[2])
            else:
                out += "\\" + it[0]
        return out + "]"
    if k == "grp":
        inner = _r(node[2], n)
        if node[1] == "cap":
            return "(" + inner + ")"
        if node[1].startswith("?"):
            return "(" + node[1] + ":" + inner + ")"
        if node[1] == "named":
            n[0] += 1
            return "(?P<g%d>%s)" % (n[0], inner)
        return "(?:" + inner + ")"
    if k == "alt":
        return "(?:" + "|".join(_r(x, n) for x in node[1]) + ")"
    if k == "top":      # alternation without a group around it
        return "|".join(_r(x, n) for x in node[1])
    if k == "seq":
        return "".join(_r(x, n) for x in node[1])
    if k == "rep":
        inner = _r(node[1], n)
        if node[1][0] in ("seq", "rep", "raw", "top"):
            inner = "(?:" + inner + ")"
        lo, hi = node[2], node[3]
        if (lo, hi) == (0, None):
            q = "*"
        elif (lo, hi) == (1, None):
            q = "+"
        elif (lo, hi) == (0, 1):
            q = "?"
        elif hi is None:
            q = "{%d,}" % lo
        elif lo == 0 and hi % 3 == 2:
            q = "{,%d}" % hi
        elif lo == hi:
            q = "{%d}" % lo
        else:
            q = "{%d,%d}" % (lo, hi)
        return inner + q + ("?" if node[4] else "")
    raise AssertionError(k)


# ------------------------------------------------------------------------------- generation

def _items(rng, neg, mult):
    items = []
    if neg and mult <= 4 and rng.random() < .12:      # (slow when traced)
        c = rng.choice("dw")
        items = [["r", rng.choice("\x00\x00 "), rng.choice(EVES[c])], [c]]
        if rng.random() < .3:
            items.append(["c", rng.choice(LITS)])
        rng.shuffle(items)
        return items
    if not neg and rng.random() < .04:
        items.append(["r", *rng.choice(WIDE)])
    for _ in range(rng.choice((1, 1, 2, 3, 4)) if rng.random() < .95 else rng.choice((8, 13, 20))):
        c = rng.random()
        if c < .45:
            items.append(["c", rng.choice(LITS)] + ([rng.choice("xuUone")] if rng.random() < .15 else []))
        elif c < .8:
            items.append(["r", *rng.choice(RANGES)])
        else:
            items.append([rng.choice("dw")])
    return items


def _node(rng, depth, st):
    """st: {"mult": product of enclosing repeat bounds, "unb": inside an unbounded repeat}"""
    c = rng.random()
    if depth <= 0 or c < .4:
        c = rng.random()
        if c < .4:
            return ["lit", rng.choice(LITS)] + ([rng.choice("xuUone")] if rng.random() < .15 else [])
        if c < .5:
            return ["dot"]
        if c < .6:
            return ["d"]
        if c < .7:
            return ["w"]
        neg = rng.random() < .4
        items = _items(rng, neg, st["mult"])
        node = ["cls", neg, items]
        if neg and not any(True for _ in class_example(node)):
            node = ["cls", False, items]
        return node
    if c < .55:
        kind = rng.choice(("cap", "non", "named")) if rng.random() < .95 else "?" + rng.choice(FLAGS)
        return ["grp", kind, _node(rng, depth - 1, st)]
    if c < .68:
        alts = [_node(rng, depth - 1, st) for _ in range(rng.choice((2, 2, 3)) if rng.random() < .92 else
                                                         rng.choice((9, 17, 33)))]
        if rng.random() < .2:
            alts.append(["seq", []])
        return ["alt", alts]
    if c < .88:
        lo = rng.choice(BOUNDS)
        q = rng.random()
        if q < .35:
            hi = None
            if rng.random() < .6:
                lo = rng.choice((0, 1))
        elif q < .5:
            lo, hi = 0, 1
        else:
            hi = rng.choice(BOUNDS)
            lo, hi = min(lo, hi), max(lo, hi)
        top = max(lo, hi if hi is not None else max(lo, st["cap"]))
        if st["mult"] * max(1, top) > st["limit"]:
            lo, hi, top = 0, 2, 2
        inner = _node(rng, depth - 1, {**st, "mult": st["mult"] * max(1, top)})
        return ["rep", inner, lo, hi, rng.random() < .3]
    n = rng.choice((0, 1, 2, 2, 3, 4)) if rng.random() < .95 else rng.choice((10, 25, 50))
    return ["seq", [_node(rng, depth - 1 if n < 9 else min(depth - 1, 1), st) for _ in range(n)]]


def gen(rng, depth=3, cap=32, limit=600, unsupported=False):
    st = {"mult": 1, "cap": cap, "limit": limit}
    nodes = [_node(rng, depth, st) for _ in range(rng.choice((1, 1, 2, 3)))]
    if rng.random() < .02 and limit > 300:      # large bounds
        lo = rng.choice((65, 99, 100, 127, 128, 200, 255, 256, 257, 300, 500, 1000))
        hi = rng.choice((lo, lo, None, lo + 1, lo + 60))
        nodes.append(["rep", _node(rng, 0, {**st, "limit": 1}), lo, hi, rng.random() < .3])
    if rng.random() < .05:      # a long one, many groups
        for _ in range(rng.choice((9, 14, 40, 110))):
            x = _node(rng, 0 if rng.random() < .7 else 1, {**st, "limit": 3})
            nodes.insert(rng.randrange(len(nodes) + 1), ["grp", "cap", x] if rng.random() < .6 else x)
        rng.shuffle(nodes)
    if unsupported:
        raw = ["raw", rng.choice(UNSUPPORTED)]
        where = rng.random()
        if where < .25:
            raw = ["grp", rng.choice(("cap", "non", "named")), raw]
        elif where < .45:
            raw = ["alt", [raw, _node(rng, 1, st)] if rng.random() < .5 else
                   [_node(rng, 1, st), raw]]
        elif where < .6:
            raw = ["rep", raw, rng.choice((0, 1, 2)), rng.choice((2, 3)), False]
        nodes.insert(rng.randrange(len(nodes) + 1), raw)
    node = ["seq", nodes]
    p = {"pre": rng.choice(STARTS), "node": node, "post": rng.choice(ENDS)}
    if rng.random() < .1 and not unsupported:
        alts = [_node(rng, depth - 1, st) for _ in range(rng.choice((2, 2, 3)))]
        if rng.random() < .6:
            alts = [["seq", ([["at", rng.choice(("^", "\\A"))]] if rng.random() < .5 else []) + [a] +
                     ([["at", rng.choice(("$", "\\Z"))]] if rng.random() < .5 else [])] for a in alts]
        p = {"pre": "", "node": ["top", alts], "post": ""}
    return p


def sibling(rng, node):
    """A pattern that looks much like this one: other case, \\D for \\d, another literal or bound somewhere."""
    how = rng.choice(("case", "case", "class", "one"))
    leaves = [0]
    target = rng.randrange(max(1, size(node)))

    def go(x):
        leaves[0] += 1
        k = x[0]
        if k == "lit" and how == "case" and len(x[1].swapcase()) == 1:
            return ["lit", x[1].swapcase()]
        if k == "lit" and how == "one" and leaves[0] >= target:
            return ["lit", rng.choice(LITS)]
        if k in "dw" and how == "class":
            return ["raw", "\\" + k.upper()]
        if k == "cls":
            if how == "one" and leaves[0] >= target:
                i = rng.randrange(len(x[2]))
                new = ["cls", x[1], x[2][:i] + [["c", rng.choice(LITS)]] + x[2][i + 1:]]
                return new if any(True for _ in class_example(new)) else x
            items = [["c", it[1].swapcase()] if it[0] == "c" and how == "case" and len(it[1].swapcase()) == 1 else it
                     for it in x[2]]
            wide = any(it[0] == "r" and ord(it[2]) - ord(it[1]) > 0x600 for it in items)
            new = ["cls", x[1] if how != "class" or wide else not x[1], items]
            return new if any(True for _ in class_example(new)) else x
        if k in ("alt", "seq", "top"):
            return [k, [go(y) for y in x[1]]]
        if k == "grp":
            return ["grp", x[1], go(x[2])]
        if k == "rep":
            lo, hi = x[2], x[3]
            if how == "one" and rng.random() < .3 and lo > 0:
                lo -= 1
            return ["rep", go(x[1]), lo, hi, x[4]]
        return x
    return go(node)


def size(node):
    return 1 + sum(size(x) for x in children(node))


# ---------------------------------------------------------------------------------- matching

def is_d(c):
    return c.isdecimal()


def is_w(c):
    return c.isalnum() or c == "_"


def class_has(items, c):
    for it in items:
        if it[0] == "c" and it[1] == c:
            return True
        if it[0] == "r" and it[1] <= c <= it[2]:
            return True
        if it[0] == "d" and is_d(c):
            return True
        if it[0] == "w" and is_w(c):
            return True
    return False


def class_example(node):
    """Characters a class matches (a few, cheap)."""
    for o in list(range(32, 127)) + list(range(0, 32)) + list(range(127, 0xa00)) + [0x1F600]:
        c = chr(o)
        if class_has(node[2], c) != node[1]:
            yield c
            return


def char_ok(node, c):
    k = node[0]
    if k == "lit":
        return c == node[1]
    if k == "dot":
        return c != "\n"
    if k == "d":
        return is_d(c)
    if k == "w":
        return is_w(c)
    return class_has(node[2], c) != node[1]


def fullmatch(p, s):
    memo = {}

    def ends(node, i):
        key = (id(node), i)
        if key in memo:
            return memo[key]
        memo[key] = r = _ends(node, i)
        return r

    def _ends(node, i):
        k = node[0]
        if k in ("lit", "dot", "d", "w", "cls"):
            return frozenset((i + 1,)) if i < len(s) and char_ok(node, s[i]) else frozenset()
        if k == "at":
            ok = i == 0 if node[1] in ("^", "\\A") else \
                i == len(s) or (node[1] == "$" and i == len(s) - 1 and s[i] == "\n")
            return frozenset((i,)) if ok else frozenset()
        if k == "grp":
            return ends(node[2], i)
        if k in ("alt", "top"):
            return frozenset().union(*(ends(x, i) for x in node[1]))
        if k == "seq":
            cur = frozenset((i,))
            for x in node[1]:
                cur = frozenset().union(*(ends(x, j) for j in cur)) if cur else cur
            return cur
        if k == "rep":
            _, inner, lo, hi, _lazy = node
            cur = frozenset((i,))
            seen_same = False
            for _ in range(lo):
                nxt = frozenset().union(*(ends(inner, j) for j in cur)) if cur else cur
                if nxt == cur:
                    seen_same = True
                    break
                cur = nxt
            out = set(cur)
            left = (hi - lo) if hi is not None else None
            while cur and not seen_same and (left is None or left > 0):
                nxt = frozenset().union(*(ends(inner, j) for j in cur)) - out
                if left is not None:
                    left -= 1
                out |= nxt
                cur = nxt
            if seen_same:
                # a fixed point: every further repeat yields the same set
                return frozenset(out)
            return frozenset(out)
        raise AssertionError(k)

    return len(s) in ends(p["node"], 0)


def has_flags(node):
    return node[0] == "grp" and node[1].startswith("?") or any(has_flags(x) for x in children(node))


def has_raw(node):
    return node[0] == "raw" or any(has_raw(x) for x in children(node))


def children(node):
    k = node[0]
    if k in ("alt", "seq", "top"):
        return node[1]
    if k == "grp":
        return [node[2]]
    if k == "rep":
        return [node[1]]
    return []


def count(node, kinds):
    return (node[0] in kinds) + sum(count(x, kinds) for x in children(node))


def safe_for_re(p):
    """The backtracking engine stays cheap on this pattern (and on any string of ours)."""
    def walk(node, inside):
        if node[0] == "rep":
            if inside:
                return False
            inside = True
        if inside and node[0] in ("alt", "top", "raw"):
            return False
        return all(walk(x, inside) for x in children(node))
    return walk(p["node"], False) and count(p["node"], ("rep",)) <= 3


def max_len(node, cap):
    k = node[0]
    if k in ("lit", "dot", "d", "w", "cls"):
        return 1
    if k in ("alt", "top"):
        return max((max_len(x, cap) for x in node[1]), default=0)
    if k == "seq":
        return sum(max_len(x, cap) for x in node[1])
    if k == "grp":
        return max_len(node[2], cap)
    if k == "at":
        return 0
    if k == "rep":
        return max_len(node[1], cap) * (max(cap, node[2]) if node[3] is None else node[3])
    return 8


def witness(p, rng):
    """Some string the pattern matches entirely."""
    return _wit(p["node"], rng)


def _wit(node, rng):
    k = node[0]
    if k == "lit":
        return node[1]
    if k == "at":
        return ""
    if k == "dot":
        return rng.choice("aZ0 -é~")
    if k == "d":
        return rng.choice("0123456789")
    if k == "w":
        return rng.choice("azAZ09_")
    if k == "cls":
        cands = [it[1] for it in node[2] if it[0] in "cr"] + [it[2] for it in node[2] if it[0] == "r"]
        cands += list("az09AZ_ -~!\t")
        ok = [c for c in cands if char_ok(node, c)] or list(class_example(node))
        return rng.choice(ok)
    if k == "grp":
        return _wit(node[2], rng)
    if k in ("alt", "top"):
        return _wit(rng.choice(node[1]), rng)
    if k == "seq":
        return "".join(_wit(x, rng) for x in node[1])
    lo, hi = node[2], node[3]
    n = lo + rng.choice((0, 0, 1, 2))
    if hi is not None:
        n = min(n, hi)
    return "".join(_wit(node[1], rng) for _ in range(n))


# ---------------------------------------------------------------------------------- shrinking

def node_shrinks(node):
    for ch in children(node):
        yield ch
    k = node[0]
    if k in ("alt", "seq", "top"):
        for i in range(len(node[1])):
            if k == "seq" or len(node[1]) > 1:
                yield [k, node[1][:i] + node[1][i + 1:]]
        for i, ch in enumerate(node[1]):
            for s in node_shrinks(ch):
                yield [k, node[1][:i] + [s] + node[1][i + 1:]]
    elif k == "grp":
        for s in node_shrinks(node[2]):
            yield ["grp", node[1], s]
    elif k == "rep":
        _, inner, lo, hi, lazy = node
        if lazy:
            yield ["rep", inner, lo, hi, False]
        if lo > 0:
            yield ["rep", inner, 0, hi, lazy]
        if hi is None or hi > 2:
            for h in (1, 2, (hi or 40) // 2, (hi or 40) - 1):
                if h >= lo:
                    yield ["rep", inner, lo, h, lazy]
        for s in node_shrinks(inner):
            yield ["rep", s, lo, hi, lazy]
    elif k == "cls":
        if len(node[2]) > 1:
            for i in range(len(node[2])):
                yield ["cls", node[1], node[2][:i] + node[2][i + 1:]]
    elif k == "lit" and len(node) > 2:
        yield node[:2]
    elif k in ("lit",) and node[1] != "a":
        yield ["lit", "a"]


def shrinks(p):
    if p["pre"]:
        yield {**p, "pre": ""}
    if p["post"]:
        yield {**p, "post": ""}
    for n in node_shrinks(p["node"]):
        yield {**p, "node": n}
