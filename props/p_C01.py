"""C01: `use` expansion is depth-first in file order, last writer wins."""
from lib import CORE, PRINT, EXOTIC, without, Opt, Use, Op, render, expand, distinct_keys, Missing, find

ASSUMPTIONS = []


def entry(sx, tag, kinds, targets, keys):
    k = sx.choice(tag + ".kind", kinds)
    if k == "use" or k == "useq":
        q = "'" if k == "useq" else ""
        if isinstance(targets, list):
            return Use(sx.choice(tag + ".target", targets), q)
        return Use(sx.word(tag + ".target", [targets]), q)
    if k == "op":
        return Op("rec", [sx.word(tag + ".key", [keys])], sx.word(tag + ".val", ["xyz"]))
    if k == "usev":
        return Use(sx.word(tag + ".target", [targets]), "", "", sx.word(tag + ".val", ["xyz"]))
    if k == "nov":
        return Opt(sx.word(tag + ".key", [keys]), None)
    if k == "none":
        return None
    return Opt(sx.word(tag + ".key", [keys]), sx.word(tag + ".val", ["xyz"]))


def build(sx, names, sizes, kinds, targets, keys):
    secs = []
    for n, size in zip(names, sizes):
        es = []
        for i in range(size):
            e = entry(sx, n + str(i), kinds, targets, keys)
            if e is not None:
                es.append(e)
        secs.append((n, es))
    return secs


def subclass(mod):
    class Rec(mod.ConfigParserEnhanced):
        def __init__(self, f):
            super().__init__(f)
            self.seen = []

        @mod.ConfigParserEnhanced.operation_handler
        def handler_rec(self, section_name, hp):
            self.seen.append((section_name, hp.op, list(hp.params), hp.value, hp.section_root))
            return 0
    return Rec


def graph(sx, names, sizes, kinds, targets, keys="pq", before=()):
    mod = sx.module("configparserenhanced")
    secs = build(sx, names, sizes, kinds, targets, keys)
    sx.assume(distinct_keys(secs))
    p = sx.file("c.ini", render(secs))
    root = "A"
    cpe = subclass(mod)(p)
    cpe.exception_control_level = 4
    cpe.exception_control_silent_warnings = True
    try:
        data, events, cycles = expand(secs, root)
        want = "ok"
    except Missing:
        want = "missing"
    if before:
        b = sx.choice("before", before)
        if b == "all":
            sx.attempt(lambda: cpe.parse_all_sections())
        elif b == "force":
            sx.attempt(lambda: cpe.configparserenhanceddata.sections(parse="force"))
        elif b != "none":
            sx.attempt(lambda: cpe.configparserenhanceddata[b])
        cpe.seen = []
        if b in ("all", "force", root):
            sx.attempt(lambda: cpe.parse_section(root))
    r = sx.attempt(lambda: cpe.configparserenhanceddata[root])
    sx.observe(r.kind, dict(r.value) if r.ok else None, list(cpe.seen))
    if want == "missing":
        sx.require(r.kind == "KeyError", "`use` of a section that is not there must raise KeyError")
        return
    sx.require(r.ok, "expansion of a well-formed section raised " + r.kind)
    sx.require_eq(dict(r.value), data, "options of the expanded section")
    sx.require_eq(cpe.seen, [e + (root,) for e in events], "handled operations in order")


def deep(sx, depth):
    """A chain of sections; options before and after each link, and one extra
    link anywhere."""
    mod = sx.module("configparserenhanced")
    names = ["s%d" % i for i in range(depth)]
    at = sx.int("at", 0, depth - 1)
    to = sx.int("to", 0, depth - 1)
    where = sx.choice("where", ["first", "middle", "last"])
    key = sx.word("key", ["kx"])
    secs = []
    for i in range(depth):
        es = [Opt("k", "pre%d" % i)]
        x = Use(names[to])
        if i == at and where == "first":
            es.insert(0, x)
        if i + 1 < depth:
            es.append(Use(names[i + 1]))
        if i == at and where == "middle":
            es.append(x)
        if i == at:
            es.append(Opt(key + "2", "at"))
        es.append(Opt("o%d" % i, "post%d" % i))
        if i == at and where == "last":
            es.append(x)
        secs.append((names[i], es))
    sx.assume(distinct_keys(secs))
    p = sx.file("c.ini", render(secs))
    cpe = mod.ConfigParserEnhanced(p)
    cpe.exception_control_silent_warnings = True
    got = dict(cpe.configparserenhanceddata["s0"])
    sx.observe(got)
    sx.require_eq(got, expand(secs, "s0")[0], "options of the expanded chain")


def chain(sx, lo, hi):
    """Nesting has no limit of its own; text after `use X:` means nothing."""
    mod = sx.module("configparserenhanced")
    n = sx.choice("n", list(range(lo, hi + 1)))
    value = sx.choice("value", [None, "", "v"])
    at = sx.choice("at", ["none", "all", "last"])
    names = ["s%d" % i for i in range(n)]
    secs = []
    for i in range(n):
        es = [Opt("k", "a%d" % i)]
        if i + 1 < n:
            es.append(Use(names[i + 1], value=value if at == "all" or at == "last" and i + 2 == n else None))
        es += [Opt("o%d" % i, "b%d" % i), Op("rec", ["p"], "c%d" % i)]
        secs.append((names[i], es))
    p = sx.file("c.ini", render(secs))
    cpe = subclass(mod)(p)
    data, events, cycles = expand(secs, "s0")
    got = dict(cpe.configparserenhanceddata["s0"])
    sx.observe(got, list(cpe.seen))
    sx.require_eq(got, data, "options of the expanded chain")
    sx.require_eq(cpe.seen, [e + ("s0",) for e in events], "handled operations in order")


def diamond(sx):
    """Sections reached twice: the later visit counts."""
    mod = sx.module("configparserenhanced")
    ks = [sx.word("k%d" % i, ["pq"]) for i in range(4)]
    mid = sx.choice("mid", ["L", "M", "N", None])
    end = sx.choice("end", ["L", "M", "N", None])
    secs = [("T", [Opt(ks[0], "t0"), Use("M"), Opt("x" + ks[1], "t1"), Use("N")]),
            ("M", [Opt(ks[1], "m"), Use("L")] + ([Use(mid, "'")] if mid else [])),
            ("N", [Use("L"), Opt(ks[2], "n")] + ([Use(end, "'")] if end else [])),
            ("L", [Opt(ks[3], "l"), Opt("own", "l")])]
    sx.assume(distinct_keys(secs))
    p = sx.file("c.ini", render(secs))
    cpe = mod.ConfigParserEnhanced(p)
    cpe.exception_control_silent_warnings = True
    got = dict(cpe.configparserenhanceddata["T"])
    sx.observe(got)
    sx.require_eq(got, expand(secs, "T")[0], "options of the diamond")


def order(sx):
    """The order in which a section presents its options is file order of the
    first appearance."""
    mod = sx.module("configparserenhanced")
    secs = build(sx, ["A", "B"], [3, 2], ["opt", "use"], "B", "pqr")
    sx.assume(distinct_keys(secs))
    p = sx.file("c.ini", render(secs))
    cpe = mod.ConfigParserEnhanced(p)
    cpe.exception_control_silent_warnings = True
    data, events, cycles = expand(secs, "A")
    got = cpe.configparserenhanceddata.items("A")
    got = [(k, v) for k, v in got]
    sx.observe(got)
    sx.require_eq(got, [(k, v) for k, v in data.items()], "items of the expanded section in order")


KEYCH = without(PRINT + EXOTIC, "=:%" + chr(34) + chr(39) + chr(92))


def nearkeys(sx):
    """Keys that differ in any way are different keys, wherever they stand."""
    mod = sx.module("configparserenhanced")
    k = [sx.choice("pre%d" % i, ["xa", "xA"]) + sx.string("k%d" % i, 0, 1, KEYCH) + "y" for i in range(3)]
    secs = [("A", [Opt(k[0], "1"), Use("B"), Opt("last", "2")]), ("B", [Opt(k[1], "3"), Use("C"), Opt("xay z", "4")]),
            ("C", [Opt(k[2], "5"), Opt("last", "6")])]
    sx.assume(distinct_keys(secs))
    cpe = mod.ConfigParserEnhanced(sx.file("c.ini", render(secs)))
    got = cpe.configparserenhanceddata.items("A")
    got = [(a, b) for a, b in got]
    sx.observe(got)
    sx.require_eq(got, [(a, b) for a, b in expand(secs, "A")[0].items()], "options")


NAMECH = "AaéÉe\u0301\u00a0 _-.1"


def similar(sx):
    """Two sections with similar names are two sections."""
    mod = sx.module("configparserenhanced")
    n1 = sx.string("n1", 1, 2, NAMECH)
    n2 = sx.string("n2", 1, 3, NAMECH)
    sx.assume(n1 != n2)
    back = sx.choice("back", [0, 1])
    secs = [("ROOT", [Opt("k", "r"), Use(n1, "'"), Opt("l", "r")]),
            (n1, [Opt("k", "1"), Opt("m", "1"), Use(n2, "'"), Opt("o", "1")]),
            (n2, [Opt("k", "2"), Opt("o", "2"), Use([n1, n2][back], "'")])]
    cpe = mod.ConfigParserEnhanced(sx.file("c.ini", render(secs)))
    cpe.exception_control_silent_warnings = True
    root = ["ROOT", n1, n2][sx.choice("root", [0, 1, 2])]
    got = dict(cpe.configparserenhanceddata[root])
    sx.observe(got)
    sx.require_eq(got, expand(secs, root)[0], "options")


def spelled(sx):
    """`use` accepts any section name shlex can spell: quoted, with blanks."""
    mod = sx.module("configparserenhanced")
    name = sx.string("name", 1, 3, "aZ0-. _/:=é")
    sx.assume(name == name.strip())
    sx.assume(":" not in name and "=" not in name)
    q = sx.choice("quote", ["'", '"', ""])
    if q == "":
        sx.assume(" " not in name)
    extra = sx.choice("extra", ["", " again", " 'x y'"])
    tail = sx.choice("tail", [None, "", "ignored"])
    other = sx.string("other", 1, 1, "ab")
    sx.assume(other != name)
    u = Use(name, q, extra, tail)
    secs = [("ROOT", [Opt("k1", "v1"), u, Opt("k2", "v2")]), (other, [Opt("k1", "bad")]),
            (name, [Opt("k1", "n1"), Opt("k2", "n2")])]
    sx.assume(name != "DEFAULT")
    p = sx.file("c.ini", render(secs))
    cpe = mod.ConfigParserEnhanced(p)
    got = dict(cpe.configparserenhanceddata["ROOT"])
    sx.observe(got)
    sx.require_eq(got, {"k1": "n1", "k2": "v2"}, "options through a quoted `use`")


def override(sx):
    """The value met last counts, whatever it is and wherever it comes from."""
    mod = sx.module("configparserenhanced")
    vals = [None, "", "0", "v", "FALSE", "v " * 40 + "v"]
    v1 = sx.choice("v1", vals)
    v2 = sx.choice("v2", vals)
    v3 = sx.choice("v3", vals[:4])
    order = sx.choice("order", ["B k", "k B", "B C", "C B", "B D"])
    es = {"B": Use("B"), "C": Use("C"), "D": Use("D"), "k": Opt("k", v3)}
    secs = [("A", [es[x] for x in order.split()]), ("B", [Opt("k", v1)]), ("C", [Opt("k", v2), Opt("l", v1)]),
            ("D", [Use("B"), Use("C")])]
    dflt = sx.bool("default")
    if dflt:
        secs.append(("DEFAULT", [Opt("l", v2), Opt("k", "d")]))
    cpe = mod.ConfigParserEnhanced(sx.file("c.ini", render(secs)))
    want = expand(secs, "DEFAULT")[0] if dflt else {}
    want.update(expand(secs, "A")[0])
    got = dict(cpe.configparserenhanceddata["A"])
    sx.observe(got)
    sx.require_eq(got, want, "options")
    sx.require_eq(cpe.configparserenhanceddata.get("A", "k"), want["k"], "value met last")


SCENARIOS = [
    dict(name="override", fn="override", paths=CORE, bounds="6 x 6 x 4 values (none, empty, long) met in 5 orders, with default section or not"),
    dict(name="graph-2x3", fn="graph", paths=CORE,
         kw=dict(names="AB", sizes=[3, 3], kinds=["opt", "use", "op"], targets="AB"),
         bounds="2 sections x 3 entries, each an option / handled operation / use; "
                "symbolic keys (2), values (3), use targets (2)"),
    dict(name="graph-3x2", fn="graph", paths=CORE,
         kw=dict(names="ABC", sizes=[2, 2, 2], kinds=["opt", "use", "none"], targets="ABCD"),
         bounds="3 sections x up to 2 entries, use targets A..C or a section that is missing"),
    dict(name="valueless", fn="graph", paths=CORE,
         kw=dict(names="AB", sizes=[3, 2], kinds=["opt", "use", "usev", "nov"], targets="AB", keys="pq"),
         bounds="2 sections x 2..3 entries, options and `use` with and without value"),
    dict(name="names", fn="graph", paths=CORE,
         kw=dict(names=["A", "AB", "B", "a"], sizes=[2, 2, 2, 1], kinds=["use", "opt"],
                 targets=["A", "AB", "B", "a"], keys="p"),
         bounds="4 sections whose names contain or differ only in case from each other"),
    dict(name="deep", fn="deep", paths=CORE, kw=dict(depth=6),
         bounds="a chain of 6 sections with one more link from any section to any section"),
    dict(name="chain", fn="chain", paths=CORE, kw=dict(lo=2, hi=24),
         bounds="chains of 2..24 sections, the links with and without a value"),
    dict(name="diamond", fn="diamond", paths=CORE,
         bounds="diamonds over 4 sections with up to two further links, 4 symbolic keys"),
    dict(name="order", fn="order", paths=CORE,
         bounds="2 sections, 3 and 2 entries, 3 symbolic keys: order of the options"),
    dict(name="spelled", fn="spelled", paths=CORE,
         bounds="section names of 1..3 characters over 11 symbols, quoting style, trailing text"),
    dict(name="after", fn="graph", paths=CORE,
         kw=dict(names="AB", sizes=[2, 3], kinds=["opt", "use"], targets="AB", before=["B", "A", "all", "force"]),
         bounds="2 sections x 2..3 entries, other sections (or the same) expanded before"),
    dict(name="after-3", fn="graph", paths=CORE,
         kw=dict(names="ABC", sizes=[1, 2, 1], kinds=["opt", "use"], targets="ABC", keys="p",
                 before=["B", "C", "force"]),
         bounds="3 sections x 1..2 entries, other sections expanded before"),
    dict(name="near-keys", fn="nearkeys", paths=CORE,
         bounds="3 keys of 3..4 characters over %d symbols in 3 linked sections" % len(KEYCH)),
    dict(name="similar", fn="similar", paths=CORE,
         bounds="two section names of 1..3 characters over %d symbols linked to each other" % len(NAMECH)),
    dict(name="graph-4x2", fn="graph", paths=CORE, tiers=("thorough",),
         kw=dict(names="ABCD", sizes=[2, 2, 2, 1], kinds=["use", "opt"], targets="ABCD", keys="p"),
         bounds="4 sections x up to 2 entries"),
    dict(name="graph-2x4", fn="graph", paths=CORE, tiers=("thorough",),
         kw=dict(names="AB", sizes=[4, 3], kinds=["opt", "use", "op", "nov", "useq"], targets="ABD",
                 keys="pqr"),
         bounds="2 sections x 3..4 entries, 5 entry kinds"),
]
