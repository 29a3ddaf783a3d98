"""C19: the v1-to-v2 migration. Several callers rewrite module sources at once, preempted and interrupted; then the
command itself migrates a tree on a simulated disk - short and interrupted system calls, I/O errors, a full disk,
crashes at any disk call and restarts - and what it leaves is compared statement by statement with the originals."""
import ast
import copy
import importlib
import json
import locale
import os
import shutil
import sys
import tempfile

from . import core, simos
from .runtime import Skip, Violation, exc_text, gen_fault, gen_sim, list_drops

NONTRIVIAL = "sources"
RULE = ("one evaluation is one simulated run: 1-5 module sources rewritten by 1-3 interleaved callers, and in half "
        "of the runs a tree of them migrated by the command under disk faults, crashes and restarts; "
        "distinct_nontrivial counts distinct sources with at least one mapped import")
SIM_TIME = "no timers; disk time is counted in system calls"
COMPONENTS = {
    "real": ["d42.migration.migrate_v1_to_v2", "d42._main (argument parsing, directory walk)", "ast", "io", "os.walk"],
    "simulated": ["results of open/read/write/close/rename/unlink/truncate/fsync under the scratch tree",
                  "order of directory entries", "the locale", "process crash and restart", "which caller runs next",
                  "asynchronous exceptions"],
}
ASSUMPTIONS = [
    "within one import statement no two names bind the same local name",
    "a file whose own write was hit by a hard error or a crash is not judged (the property is about the rewriting, "
    "not about durability); every other file is, after every pass",
    "comments and layout are not statements",
    "the expected counterparts of the mapped names (93 at the base commit) are the objects the base commit maps them to",
]


# ----------------------------------------------------------------------------------- mapping

E = ("make_incorrect_min_error make_incorrect_max_error make_incorrect_len_error make_incorrect_min_len_error "
     "make_incorrect_max_len_error make_incorrect_precision_error")
TYPES = "Any Bool Bytes Date DateTime Dict Float Int List None Str UUID4"
EXPECTED = {}


def _expect(old, new, names):
    for n in names.split():
        EXPECTED[(old, n)] = (new, n)


_expect("district42", "d42", "schema optional")
_expect("district42", "d42.declaration", "GenericSchema Props PropsType SchemaVisitor SchemaVisitorReturnType")
_expect("district42", "d42.utils", "from_native make_required")
_expect("district42", "d42.custom_type", "register_type")
_expect("district42", "d42.representation", "represent")
_expect("district42.errors", "d42.declaration", "DeclarationError")
_expect("district42.errors", "d42.declaration.errors", "make_invalid_type_error make_already_declared_error " + E)
_expect("district42.representor", "d42.representation", "Representor")
for _t in TYPES.split():
    _expect("district42.types", "d42.declaration.types", "%sSchema %sProps" % (_t, _t))
_expect("district42.types", "d42.declaration.types",
        "GenericTypeAliasSchema TypeAliasSchema TypeAliasProps TypeAliasPropsType")
_expect("district42.types", "d42.declaration", "GenericSchema Schema")
_expect("district42.types", "d42", "optional")
_expect("district42.types", "d42.utils", "make_required")
_expect("district42.utils", "d42.utils", "is_ellipsis EllipsisType TypeOrEllipsis rollout")
_expect("blahblah", "d42", "fake")
_expect("blahblah", "d42.generation", "generate Generator Random RegexGenerator")
_expect("valera", "d42", "validate validate_or_fail ValidationException")
_expect("valera", "d42.validation", "eq format_result Validator ValidationResult Formatter AbstractFormatter")
_expect("valera.errors", "d42.validation.errors",
        " ".join(x + "ValidationError" for x in ("", "Type", "Value", "MinValue", "MaxValue", "Length", "MinLength",
                                                  "MaxLength", "Alphabet", "Substr", "Regex", "MissingElement",
                                                  "ExtraElement", "MissingKey", "ExtraKey", "SchemaMismatch",
                                                  "InvalidUUIDVersion")))
_expect("revolt", "d42", "substitute")
_expect("revolt", "d42.substitution", "Substitutor SubstitutorValidator")
_expect("revolt.errors", "d42.substitution.errors", "SubstitutionError make_substitution_error")
MODULES = sorted({m for m, _ in EXPECTED})
NAMES = {m: sorted(n for a, n in EXPECTED if a == m) for m in MODULES}


def check_mapping(table):
    """Every target importable, and the same thing the name has always stood for."""
    for mod in sorted(table):
        for name in sorted(table[mod]):
            new_mod, new_name = table[mod][name]
            where = {"v1": "%s.%s" % (mod, name), "v2": "%s.%s" % (new_mod, new_name)}
            try:
                obj = getattr(importlib.import_module(new_mod), new_name)
            except (ImportError, AttributeError) as e:
                raise Violation("C19:mapping:import", "a target of the mapping cannot be imported: %s" % exc_text(e),
                                **where)
            exp = EXPECTED.get((mod, name))
            if exp is not None:
                try:
                    want = getattr(importlib.import_module(exp[0]), exp[1])
                except (ImportError, AttributeError):
                    continue        # moved: the mapping's own target is what counts then
                if want is not obj:
                    raise Violation("C19:mapping:counterpart", "a name is mapped to something that is not its "
                                    "counterpart", expected="%s.%s" % exp, **where)
    for mod, name in sorted(EXPECTED):
        if name not in table.get(mod, {}):
            raise Violation("C19:mapping:missing", "a v1 name is no longer mapped", v1="%s.%s" % (mod, name))


# ------------------------------------------------------------------------------------ sources

PLAIN = [
    "x = 1", "pass", "...", "print('from valera import eq')", "y: int = 2", "del x", "assert True, 'ok'",
    "s = 'é日本😀'", "'😀'", "z = (1,\n     2)", "t = '''from district42 import schema\n'''",
    "u = '''a\nfrom valera import eq\nb'''", "w = f'{x!r:>{3}} from'", "global_ = lambda a, *b, **c: (a, b, c)",
    "import os", "import district42, valera as v", "import district42.types as types", "import blahblah.fake",
    "k = {'a': [1, {2}], **{}}", "q = 'one' \\\n    'two'", "n = not x in (1, 2)", "xs = [i for i in range(3) if i]",
    "b = b'\\x00from'", "r = r'\\d+'", "(yes := 5)", "raise_ = 0x1F + 1_000", "schema = schema.int", "eq(1, 2)",
    "sep = '\x0b \x0c \x1c \x1d \x1e \x85 \u2028 \u2029'", "doc = '''\x0c\n\u2028from revolt import substitute\x85'''",
    "a = b = c = None", "a, *rest = 1, 2, 3", "a @= b", "type X = int", "from_ = import_ = 1", "é = 'non-ascii name'",
    "fs = f'''{\n x\n}'''", "raise SystemExit",
]
BLOCKS = [
    "if True:\n    from valera import eq\nelse:\n    from district42 import schema",
    "try:\n    from district42 import schema\nexcept ImportError:\n    from valera import (\n        eq,\n    )\nfinally: pass",
    "def f():\n    '''doc'''\n    from blahblah import fake; return fake",
    "class A(B, metaclass=C):\n    from revolt import substitute\n    x: int = 1",
    "@dec\n@dec2(1)\nasync def g(a, /, b=1, *, c) -> None:\n    await a\n    async with b as c, d: pass",
    "for i in xs: from valera import eq", "while x:\n\tx -= 1\nelse:\n\tbreak_ = 1",
    "with open('f') as f:\n    # from valera import eq\n    pass",
    "match x:\n    case {'a': [1, *_]} if y: pass\n    case _:\n        from district42 import optional",
    "if x: pass\nelif y: from valera import eq as e; z = 1", "def deco(): return 1\n\n\nclass D: '''from valera import eq'''",
]
COMMENTS = ["# plain", "# from valera import eq", "# é日本 😀", "# \u2028 \x0c \x85 odd separators", "#", "#!shebang",
            "# -*- coding: utf-8 -*-", "", "   ", "\t", "\x0c", "# trailing backslash \\", "  # indented"]
OTHER_MODULES = ["os", "typing", "d42", "district", "district42.unknown", "valeraX", "blahblah.errors", "revolt.types",
                 "d42.declaration", "District42", "district42.errors.more"]
OTHER_NAMES = ["path", "thing", "Schema_", "scheme", "_private", "errors", "types", "é", "eqq"]
LOCALS = ["s", "sc", "_x", "é", "local_name", "schema", "eq", "fake", "X", "from_native"]


def gen_import(rng):
    c = rng.random()
    if c < .72:
        mod = rng.choice(MODULES)
    else:
        mod = rng.choice(OTHER_MODULES)
    pool = list(NAMES.get(mod, ()))
    if rng.random() < .08:
        names = [["*", None]]
    else:
        names, used = [], set()
        for _ in range(rng.choice((1, 1, 1, 2, 2, 3, 5, 9))):
            d = rng.random()
            if pool and d < .7:
                n = rng.choice(pool)
            elif d < .85:
                n = rng.choice(OTHER_NAMES)
            else:
                n = rng.choice(NAMES[rng.choice(MODULES)])
            a = rng.choice((None, None, None, rng.choice(LOCALS), n))
            if (a or n) in used:
                continue
            used.add(a or n)
            names.append([n, a])
    level = rng.choice((1, 1, 2, 3)) if rng.random() < .1 else 0
    form = rng.choice(("plain", "plain", "plain", "paren", "multi", "multi", "comment", "slash", "spaces", "gap"))
    if names[0][0] == "*" and form in ("paren", "multi", "comment", "gap"):
        form = "plain"
    if level and rng.random() < .4 and names[0][0] != "*":
        mod = ""
    return {"mod": mod, "level": level, "names": names, "form": form, "eol": rng.choice(("\n", "\n", "\n", "\r\n"))}


def import_text(i):
    mod = "." * i["level"] + i["mod"]
    names = [n if a is None else "%s as %s" % (n, a) for n, a in i["names"]]
    f, nl = i["form"], i.get("eol", "\n")
    if f == "paren":
        return "from %s import (%s)" % (mod, ", ".join(names))
    if f == "multi":
        return "from %s import (%s    %s,%s)" % (mod, nl, (",%s    " % nl).join(names), nl)
    if f == "comment":
        return "from %s import (  # é why%s    %s  # last; x = 1%s)" % (
            mod, nl, (",  # 日本 \u2028%s    " % nl).join(names), nl)
    if f == "slash":
        return "from %s \\%s  import %s" % (mod, nl, (", \\%s" % nl).join(names))
    if f == "spaces":
        return "from\t%s   import  %s" % (" . ".join(mod.split(".")) if not i["level"] else mod, " , ".join(names))
    if f == "gap":
        return "from %s import(%s%s%s%s)" % (mod, nl, nl, ",\n\x0c\n".join(names), nl)
    return "from %s import %s" % (mod, ", ".join(names))


def gen_source(rng, big=False):
    lines = []
    wild = rng.random() < .25
    nls = rng.choice((("\n",), ("\n",), ("\n",), ("\r\n",), ("\r",), ("\n", "\r\n", "\r")))
    n = rng.choice((1, 2, 3, 5, 8) + ((20, 40) if big else ()))
    if rng.random() < .3:
        lines.append({"s": [["t", rng.choice(('"""doc"""', "'''é doc\nfrom valera import eq\n'''", "'doc'"))]],
                      "eol": nls[0]})
    if rng.random() < .15:
        lines.append({"s": [["t", "from __future__ import annotations"]], "eol": nls[0]})
    for _ in range(n):
        c = rng.random()
        if c < .12:
            lines.append({"s": [["t", rng.choice(BLOCKS)]], "eol": rng.choice(nls), "block": True})
            continue
        if c < .25:
            lines.append({"s": [], "tail": rng.choice(COMMENTS), "eol": rng.choice(nls)})
            continue
        k = rng.choice((1, 1, 1, 1, 2, 2, 3, 5))
        seen = [x for line in lines for kind, x in line["s"] if kind == "i"]
        if seen and rng.random() < .15:     # the same import once more, perhaps written another way
            again = {**rng.choice(seen), "form": rng.choice(("plain", rng.choice(seen)["form"]))}
            if again["names"][0][0] == "*":
                again["form"] = "plain"
            lines.append({"s": [["i", again]], "eol": rng.choice(nls), "tail": rng.choice(("", ";", "  # again"))})
            continue
        stmts = [["i", gen_import(rng)] if rng.random() < .6 else ["t", rng.choice(PLAIN)] for _ in range(k)]
        line = {"s": stmts, "eol": rng.choice(nls),
                "sep": [rng.choice(("; ", ";", " ; ", ";\t", "; \\\n", ";\\\r\n  ")) for _ in stmts[1:]]}
        line["tail"] = rng.choice(("", "", "", ";", " ;", "  # tail", "# é \u2028 from valera import eq", ";# x", " \x0c"))
        if wild and rng.random() < .3:
            line["pre"] = rng.choice(("\x0c", " \x0c", "\\\n", "\x0c\x0c"))
        lines.append(line)
    if rng.random() < .04:      # a long one: many statements, or more text than a buffer holds
        for _ in range(rng.choice((1, 1, 2))):
            text = rng.choice(('x = "' + "é" * 30 + '"', "x = 1", "import os", "# " + "日本" * 20, "", "pass; pass"))
            at = rng.randrange(1 if lines and lines[0]["s"][:1] and lines[0]["s"][0][0] == "t" else 0, len(lines) + 1)
            lines.insert(at, {"s": [], "tail": text, "eol": rng.choice(nls), "rep": rng.choice((40, 120, 260, 600, 1500))})
    return {"lines": lines, "last_eol": rng.random() < .7}


def source_text(m):
    out = []
    for n, line in enumerate(m["lines"]):
        text = line.get("pre", "")
        for j, (k, x) in enumerate(line["s"]):
            if j:
                seps = line.get("sep") or []
                text += seps[j - 1] if j - 1 < len(seps) else "; "
            text += x if k == "t" else import_text(x)
        text += line.get("tail", "") or ""
        if n < len(m["lines"]) - 1 or m.get("last_eol", True):
            text += line["eol"]
        if line.get("rep"):
            text = (line.get("tail", "") + line["eol"]) * line["rep"]
        out.append(text)
    return "".join(out)


def parses(text):
    try:
        return ast.parse(text)
    except (SyntaxError, ValueError):
        return None


# --------------------------------------------------------------------------------------- plan

def plan(rng, tier):
    mods = []
    for i in range(rng.choice((1, 2, 3, 5))):
        for _ in range(20):
            m = gen_source(rng, tier == "thorough" or rng.random() < .05)
            if parses(source_text(m)) is not None:
                break
        else:
            m = {"lines": [{"s": [["t", "from valera import eq"]], "eol": "\n"}]}
        m["path"] = rng.choice(("", "", "pkg/", "pkg/sub/", "x y/")) + "m%d.py" % i
        if rng.random() < .25:      # file names that mean something to somebody
            m["path"] = rng.choice(("pkg/__init__.py", "__init__.py", "pkg/__main__.py", "_private%d.py" % i, "test_%d.py" % i,
                                    "a.b%d.py" % i, "setup.py", "d42/s%d.py" % i, "district42/s%d.py" % i, ".py",
                                    "sch\u00e9ma%d.py" % i))
            if m["path"] in {x["path"] for x in mods}:
                m["path"] = "n%d.py" % i
        mods.append(m)
    n = rng.choice((1, 1, 2, 3))
    sim = gen_sim(rng, n)
    faulty = sim["trace"] != "none" and rng.random() < .4
    clients = []
    for _ in range(n):
        ops = []
        for _ in range(rng.choice((1, 2, 4))):
            op = {"m": rng.randrange(len(mods)), "table": rng.choice(("shared", "shared", "copy"))}
            if faulty:
                op["fault"] = gen_fault(rng, .4)
            ops.append(op)
        clients.append(ops)
    disk = None
    if rng.random() < .5:
        passes = []
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            faults = []
            for _ in range(rng.choice((0, 1, 1, 2, 4))):
                kind = rng.choice((simos.F_EINTR, simos.F_SHORT, simos.F_SHORT, simos.F_EIO, simos.F_ENOSPC,
                                   simos.F_CRASH, simos.F_CRASH_AFTER, simos.F_EACCES))
                faults.append([rng.randrange(rng.choice((4, 10, 30))), kind, rng.getrandbits(16)])
            passes.append({"faults": faults, "order": rng.getrandbits(32)})
        # the last pass meets only what the I/O layer must absorb
        passes.append({"faults": [[rng.randrange(30), rng.choice((simos.F_EINTR, simos.F_SHORT)), rng.getrandbits(16)]
                                  for _ in range(rng.choice((0, 0, 2, 5)))], "order": rng.getrandbits(32)})
        for p in passes:
            if rng.random() < .3:
                p["loc"] = "C"          # the command runs under a locale that knows only ASCII
        disk = {"passes": passes, "extra": rng.sample(range(len(EXTRAS)), rng.choice((0, 1, 2, 4))),
                "via": rng.choice(("command", "command", "function"))}
    return {"mods": mods, "clients": clients, "sim": sim, "disk": disk}


# ------------------------------------------------------------------------------------- oracle

def mapped(node, table):
    return (isinstance(node, ast.ImportFrom) and node.level == 0 and
            any(a.name in table.get(node.module, {}) for a in node.names))


def compiles(text):
    try:
        compile(text, "m", "exec", dont_inherit=True)
        return True
    except (SyntaxError, ValueError):
        return False


def differs(src_tree, out_tree, table):
    """What is wrong with a rewritten module, or None."""
    out = list(out_tree.body)
    i = 0
    for n, node in enumerate(src_tree.body):
        if not mapped(node, table):
            if i >= len(out):
                return "statement %d is lost: %s" % (n, show(node))
            if ast.dump(node) != ast.dump(out[i]):
                return "statement %d is not preserved: %s became %s" % (n, show(node), show(out[i]))
            i += 1
            continue
        need = []
        for a in node.names:
            if a.name in table.get(node.module, {}):
                need.append((*table[node.module][a.name], a.asname or a.name))
            else:
                need.append((node.module, a.name, a.asname or a.name))
        while need:
            if i >= len(out):
                return "names of statement %d are no longer imported: %r" % (n, need)
            o = out[i]
            if not isinstance(o, ast.ImportFrom) or o.level:
                return "names of statement %d are no longer imported: %r (%s comes next)" % (n, need, show(o))
            for a in o.names:
                item = (o.module, a.name, a.asname or a.name)
                if item not in need:
                    return "statement %d: %s became %s" % (n, show(node), show(o))
                need.remove(item)
            i += 1
    if i < len(out):
        return "a statement appeared: %s" % show(out[i])
    return None


def show(node):
    return ast.unparse(node)[:200]


def judge(src, out, table):
    """Violation class and message for rewrite(src) == out, or None."""
    tree = ast.parse(src)
    if out is None:
        for node in tree.body:
            if mapped(node, table):
                return "C19:missed", "the rewriter reports nothing to do for %s" % show(node)
        return None
    if not isinstance(out, str):
        return "C19:type", "the rewriter returned %r" % type(out)
    new = parses(out)
    if new is None or (compiles(src) and not compiles(out)):
        return "C19:invalid", "the rewritten module is not valid Python"
    d = differs(tree, new, table)
    if d:
        return "C19:statements", d
    return None


# ------------------------------------------------------------------------------------ running

def execute(plan, R):
    import d42.migration.migrate_v1_to_v2 as M
    table = M.mapping
    check_mapping(table)
    frozen = copy.deepcopy(table)
    srcs = []
    for m in plan["mods"]:
        text = source_text(m)
        if parses(text) is None:
            raise Skip("not a module")
        for line in m["lines"]:
            for k, x in line["s"]:
                if k == "i":
                    loc = [a or n for n, a in x["names"]]
                    if len(set(loc)) != len(loc):
                        raise Skip("a local name bound twice")
        srcs.append(text)
        if any(mapped(node, table) for node in ast.parse(text).body):
            R.mark("sources", "%x" % (core.derive(text) & 0xffffffffffff))
    sim = R.make_sim()

    def client(ci):
        def body(task):
            for oi, op in enumerate(plan["clients"][ci]):
                one(ci, oi, op)
        return body

    def one(ci, oi, op):
        src = srcs[op["m"] % len(srcs)]
        t = table if op["table"] == "shared" else copy.deepcopy(frozen)
        for attempt in range(3):
            st, out = sim.op(lambda: M.rewrite_imports(src, t), None, op.get("fault") if attempt == 0 else None)
            if st != "fault":
                break
            R.count("interrupted_ops")
        R.count("rewrites")
        if st == "exc":
            raise Violation("C19:raises:%s" % type(out).__name__, "rewriting a valid module raised %s" % exc_text(out),
                            source=ascii(src)[:1200])
        if st == "livelock":
            raise Violation("C19:hang", "rewriting made no progress", source=ascii(src)[:1200])
        sim.log("out", ci, oi, out)
        bad = judge(src, out, frozen)
        if bad:
            raise Violation(bad[0], bad[1], source=ascii(src)[:1200], result=ascii(out)[:1200])
        R.count("nothing_to_do" if out is None else "rewritten")
        if out is not None:
            st, again = sim.op(lambda: M.rewrite_imports(out, t))
            bad = judge(out, again, frozen) if st == "ok" else ("C19:raises", exc_text(again))
            if bad:
                raise Violation(bad[0], "second pass: " + bad[1], source=ascii(out)[:1200],
                                result=ascii(again)[:1200])

    sim.run([client(i) for i in range(len(plan["clients"]))])
    if table != frozen:
        raise Violation("C19:mapping:changed", "rewriting changed the mapping")
    if plan.get("disk"):
        on_disk(plan, R, srcs, frozen, sim)
    if R.sample is None:
        R.sample = {"source": ascii(srcs[0])[:300], "disk": plan.get("disk") and plan["disk"]["passes"][:2]}


EXTRAS = [
    ("bad.py", b"def (:\nfrom valera import eq\n"), ("latin.py", b"# -*- coding: latin-1 -*-\nfrom valera import eq\ns = '\xe9'\n"),
    ("empty.py", b""), ("notes.txt", b"from valera import eq\n"), (".hidden/h.py", b"from valera import eq\n"),
    ("bom.py", b"\xef\xbb\xbffrom valera import eq\nx = 1\n"),
    ("cyr.py", b"#!/usr/bin/python\n# vim: set fileencoding=cp1251 :\nfrom valera import (eq,\n    validate as v)  # \xe4\xe0\nt = b'\x31' + b'x'; u = '\xff'\n"),
    ("ascii.py", b"# coding: ascii\nfrom district42 import schema; x = 1\nfrom valera import validate_or_fail\n"),
    ("shift.py", b"# -*- coding: shift_jis -*-\nfrom blahblah import fake\ns = '\x83\x5c'\n"),
]


def on_disk(plan, R, srcs, table, sim):
    d = plan["disk"]
    root = tempfile.mkdtemp(prefix="c19-", dir=os.environ["DST_SCRATCH"])
    tree = os.path.join(root, "tree")
    files = {}
    try:
        os.mkdir(tree)
        for m, src in zip(plan["mods"], srcs):
            files[m["path"]] = src.encode("utf-8")
        for i in d["extra"]:
            files[EXTRAS[i][0]] = EXTRAS[i][1]
        for path, data in files.items():
            full = os.path.join(tree, path)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write(data)
        valid = [m["path"] for m in plan["mods"]]
        torn = set()
        import d42.migration.migrate_v1_to_v2 as M
        for pi, p in enumerate(d["passes"]):
            before = {path: read(os.path.join(tree, path)) for path in valid}
            res = run_pass(tree, p, d["via"])
            R.count("passes")
            if p.get("loc"):
                R.count("fault:ascii locale")
            hard = False
            for k, op, path in res["fired"]:
                R.count("fault:" + simos.FAULT_NAMES[k])
                R.mark("fault_sites", "%s@%s" % (simos.FAULT_NAMES[k], simos.OP_NAMES.get(op, op)))
                if k not in (simos.F_EINTR, simos.F_SHORT):
                    hard = True
                    if op != 2 and path.startswith(tree + "/"):
                        torn.add(os.path.relpath(path, tree))
            R.count("crashes" if res["crashed"] else "completed_passes")
            R.count("disk_calls", res["calls"])
            sim.log("pass", pi, res["status"], res["crashed"], sorted(torn),
                    [(k, o, path.replace(root, "")) for k, o, path in res["fired"]])
            if res["status"] not in (0, 77) and not hard:
                raise Violation("C19:command", "the migration command failed: %s" % res["out"][-800:],
                                sources=[ascii(s)[:400] for s in srcs])
            for path, data in files.items():
                if path.endswith(".txt") and read(os.path.join(tree, path)) != data:
                    raise Violation("C19:file", "after pass %d, %s, which is no module, was changed" % (pi, path))
                if path in valid or not path.endswith(".py") or path in torn or path == "bad.py":
                    continue
                now = read(os.path.join(tree, path))
                if now == data:
                    continue        # not UTF-8: the command may leave it alone, but not spoil it
                if res["crashed"]:
                    torn.add(path)
                    continue
                bad = judge_other(data, now, table)
                if bad:
                    raise Violation(bad[0], "after pass %d, %s: %s" % (pi, path, bad[1]),
                                    source=ascii(data)[:1200], left_on_disk=ascii(now)[:1200], output=res["out"][-300:])
            last = pi == len(d["passes"]) - 1
            for path in valid:
                if path in torn:
                    R.count("torn_files")
                    continue
                orig, now = files[path], read(os.path.join(tree, path))
                sim.log("file", pi, path, repr(now))
                if now == orig and (hard or res["crashed"]) and not last:
                    continue
                if res["crashed"] and now != before[path] and partial(now, orig, M):
                    torn.add(path)
                    continue
                bad = judge_file(orig, now, table)
                if bad:
                    raise Violation(bad[0], "after pass %d, %s: %s" % (pi, path, bad[1]),
                                    source=ascii(orig)[:1200], left_on_disk=ascii(now)[:1200], output=res["out"][-300:])
                R.count("files_checked")
    finally:
        shutil.rmtree(root, ignore_errors=True)


def read(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


def partial(now, orig, M):
    if now is None:
        return False
    try:
        full = M.rewrite_imports(orig.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n"), M.mapping)
    except Exception:
        return False
    full = (full or "").encode("utf-8")
    return len(now) < len(full) and full.startswith(now)


def judge_file(orig, now, table):
    if now is None:
        return "C19:file", "the file is gone"
    tree = ast.parse(orig.decode("utf-8"))
    if now == orig:
        for node in tree.body:
            if mapped(node, table):
                return "C19:missed", "the command left %s" % show(node)
        return None
    try:
        text = now.decode("utf-8")
    except UnicodeDecodeError as e:
        return "C19:invalid", "the migrated file is not UTF-8: %s" % e
    new = parses(text)
    if new is None or (compiles(orig.decode("utf-8")) and not compiles(text)):
        return "C19:invalid", "the migrated file is not valid Python"
    d = differs(tree, new, table)
    return ("C19:statements", d) if d else None


def judge_other(orig, now, table):
    """A module in another encoding than UTF-8, judged as Python reads it."""
    try:
        tree = ast.parse(orig)
    except (SyntaxError, ValueError):
        return None
    try:
        new = ast.parse(now or b"")
    except (SyntaxError, ValueError):
        return "C19:invalid", "the migrated file is not valid Python"
    d = differs(tree, new, table)
    return ("C19:statements", d) if d else None


def run_pass(tree, p, via):
    """The command in a process of its own, on the simulated disk."""
    rfd, wfd = os.pipe()
    cr, cw = os.pipe()
    out = tempfile.TemporaryFile(dir=os.path.dirname(tree))
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.close(rfd)
            os.close(cr)
            os.dup2(out.fileno(), 1)
            os.dup2(out.fileno(), 2)
            sys.stdout = os.fdopen(1, "w", encoding="utf-8", closefd=False)
            sys.stderr = os.fdopen(2, "w", encoding="utf-8", closefd=False)
            order(p["order"])
            if p.get("loc"):
                locale.setlocale(locale.LC_CTYPE, p["loc"])
            L = simos.lib()
            from d42 import _main
            import d42.migration.migrate_v1_to_v2 as M
            sys.argv = ["d42", "v1-to-v2", tree]
            L.sim_disk(1, (tree + "/").encode())
            L.sim_disk_crash_fd(cw)
            for n, kind, arg in p["faults"]:
                L.sim_disk_fault(n, kind, arg)
            try:
                if via == "command":
                    _main.run()
                else:
                    M.migrate_v1_to_v2(tree)
                status = 0
            except SystemExit as e:
                status = e.code or 0
            except BaseException:
                import traceback
                traceback.print_exc()
            calls = L.sim_disk_calls()
            fired = [[f[1], L.sim_disk_fired(i), os.fsdecode(L.sim_disk_fault_path(i) or b"")]
                     for i, f in enumerate(p["faults"]) if L.sim_disk_fired(i)]
            sys.stdout.flush()
            sys.stderr.flush()
            os.write(wfd, json.dumps({"calls": calls, "fired": fired}).encode())
        finally:
            os._exit(status if isinstance(status, int) else 1)
    os.close(wfd)
    os.close(cw)
    data = b""
    while True:
        b = os.read(rfd, 65536)
        if not b:
            break
        data += b
    crash = os.read(cr, 4096)
    os.close(rfd)
    os.close(cr)
    _, st = os.waitpid(pid, 0)
    out.seek(0)
    text = out.read().decode("utf-8", "replace")
    out.close()
    res = json.loads(data) if data else {"calls": 0, "fired": []}
    res.update(status=os.waitstatus_to_exitcode(st), out=text, crashed=bool(crash))
    if crash:
        i, calls, op, path = crash.decode("utf-8", "replace").rstrip("\n").split(" ", 3)
        res["calls"] = int(calls)
        res["fired"] = [[p["faults"][int(i)][1], int(op), path]]
    elif not data:
        raise RuntimeError("a migration pass ended without an answer: %r %s" % (st, text[-500:]))
    return res


def order(seed):
    """Directory entries come in the simulator's order."""
    rng = core.RealRandom(seed)
    scandir, listdir = os.scandir, os.listdir

    class Entries:
        def __init__(self, path):
            with scandir(path) as it:
                self.items = sorted(it, key=lambda e: e.name)
            rng.shuffle(self.items)
            self.it = iter(self.items)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def close(self):
            return None

    def listed(path="."):
        names = sorted(listdir(path))
        rng.shuffle(names)
        return names
    os.scandir = lambda path=".": Entries(path)
    os.listdir = listed


# ---------------------------------------------------------------------------------- minimising

def shrinks(plan):
    if plan.get("disk"):
        yield {**plan, "disk": None}
        yield {**plan, "clients": [], "sim": {"trace": "none", "gap": 50, "seed": 0}}
        d = plan["disk"]
        for i in range(len(d["passes"]) - 1):
            yield {**plan, "disk": {**d, "passes": d["passes"][:i] + d["passes"][i + 1:]}}
        for i, p in enumerate(d["passes"]):
            for c in list_drops(p["faults"]):
                yield {**plan, "disk": {**d, "passes": d["passes"][:i] + [{**p, "faults": c}] + d["passes"][i + 1:]}}
        for c in list_drops(d["extra"]):
            yield {**plan, "disk": {**d, "extra": c}}
    mods = plan["mods"]
    for i in range(len(mods)):
        if len(mods) > 1:
            cl = [[{**op, "m": op["m"] % len(mods) - (op["m"] % len(mods) > i)} for op in ops
                   if op["m"] % len(mods) != i] for ops in plan["clients"]]
            yield {**plan, "mods": mods[:i] + mods[i + 1:], "clients": [c for c in cl if c]}
    cl = plan["clients"]
    if len(cl) > 1:
        for i in range(len(cl)):
            yield {**plan, "clients": cl[:i] + cl[i + 1:]}
    for i, ops in enumerate(cl):
        for c in list_drops(ops):
            yield {**plan, "clients": cl[:i] + [c] + cl[i + 1:]}
        for j, op in enumerate(ops):
            if op.get("fault"):
                yield {**plan, "clients": cl[:i] + [ops[:j] + [{**op, "fault": None}] + ops[j + 1:]] + cl[i + 1:]}
    sim = plan["sim"]
    if sim.get("trace") != "none":
        yield {**plan, "sim": {"trace": "none", "gap": 50, "seed": 0}}
    if sim.get("sched"):
        for c in list_drops(sim["sched"]):
            yield {**plan, "sim": {**sim, "sched": c}}
    for i, m in enumerate(mods):
        for q in source_shrinks(m):
            yield {**plan, "mods": mods[:i] + [q] + mods[i + 1:]}


def source_shrinks(m):
    lines = m["lines"]
    for c in list_drops(lines):
        yield {**m, "lines": c}
    if not m.get("last_eol", True):
        yield {**m, "last_eol": True}
    for i, line in enumerate(lines):
        def put(new):
            return {**m, "lines": lines[:i] + [new] + lines[i + 1:]}
        if line.get("rep"):
            yield put({**line, "rep": line["rep"] // 2})
        for k, v in (("pre", ""), ("tail", ""), ("eol", "\n"), ("sep", [])):
            if line.get(k) not in (None, v):
                yield put({**line, k: v})
        for j in range(len(line["s"])):
            if len(line["s"]) > 1:
                yield put({**line, "s": line["s"][:j] + line["s"][j + 1:]})
        for j, (k, x) in enumerate(line["s"]):
            def put_stmt(new):
                return put({**line, "s": line["s"][:j] + [new] + line["s"][j + 1:]})
            if k == "t" and x != "pass":
                yield put_stmt(["t", "pass"])
                continue
            if k == "i":
                if x["form"] != "plain":
                    yield put_stmt(["i", {**x, "form": "plain"}])
                if len(x["names"]) > 1:
                    for c in list_drops(x["names"]):
                        if c:
                            yield put_stmt(["i", {**x, "names": c}])
                for a, (n, al) in enumerate(x["names"]):
                    if al:
                        yield put_stmt(["i", {**x, "names": x["names"][:a] + [[n, None]] + x["names"][a + 1:]}])


def record(plan, R):
    plan = copy.deepcopy(plan)
    if R.sim is not None and R.sim.replay is None:
        plan["sim"]["sched"] = list(R.sim.rec)
    return plan
