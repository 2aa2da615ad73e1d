"""C06: what a query returns depends on the configuration, not on the queries
made before it."""
from lib import CORE, Opt, Use, Op, render, distinct_keys, expand

ASSUMPTIONS = ["returned dictionaries are not modified by the caller between queries"]

READS = ["getitem", "options", "get", "get-opt", "has_option", "has_section", "items-sec",
         "parse_section"]
GLOBALS = ["sections", "sections-parse", "sections-force", "items", "keys", "len", "parse_all",
           "raw", "unroll", "unroll-own", "assert-file"]


def subclass(mod):
    oh = mod.ConfigParserEnhanced.operation_handler

    class Rec(mod.ConfigParserEnhanced):
        @oh
        def handler_put(self, s, hp):
            hp.data_shared[hp.params[0]] = hp.value
            return 0

        @oh
        def handler_boom(self, s, hp):
            raise ArithmeticError("boom")
    return Rec


def query(cpe, what, sec, opt):
    d = cpe.configparserenhanceddata
    if what == "getitem":
        return dict(d[sec])
    if what == "options":
        return dict(d.options(sec))
    if what == "get":
        return dict(d.get(sec))
    if what == "get-opt":
        return d.get(sec, opt)
    if what == "has_option":
        return d.has_option(sec, opt)
    if what == "has_section":
        return d.has_section(sec)
    if what == "items-sec":
        return [(k, v) for k, v in d.items(sec)]
    if what == "parse_section":
        return dict(cpe.parse_section(sec))
    if what == "sections":
        return list(d.sections())
    if what == "sections-parse":
        return list(d.sections(parse=True))
    if what == "sections-force":
        return list(d.sections(parse="force"))
    if what == "items":
        return {k: dict(v) for k, v in d.items()}
    if what == "keys":
        return [k for k in d]
    if what == "len":
        return len(d)
    if what == "parse_all":
        return cpe.parse_all_sections()
    if what == "raw":
        return {s: dict(cpe.configparserdata[s]) for s in cpe.configparserdata.sections()}
    if what == "unroll":
        return cpe.unroll_to_str()
    if what == "unroll-own":
        return cpe.unroll_to_str(section=sec, use_base_class_parser=False)
    if what == "assert-file":
        return cpe.assert_file_all_sections_handled() != 0
    raise RuntimeError(what)


def ask(sx, cpe, what, sec, opt):
    r = sx.attempt(lambda: query(cpe, what, sec, opt))
    return (r.kind, r.value)


def history(sx, steps, whats, level, last, bad):
    """Ask `steps` queries of one object; the last answer must be the one a
    fresh object gives."""
    mod = sx.module("configparserenhanced")
    cls = subclass(mod)
    b0 = sx.choice("B0", bad)
    e = {"use-A": Use("A"), "use-missing": Use("NOPE"), "opt": Opt("k", "b"),
         "boom": Op("boom", ["x"], "1"), "put": Op("put", ["y"], "2")}[b0]
    secs = [("A", [Opt("k", "a"), Use("B"), Opt("m", "1")]),
            ("B", [Opt("n", "2"), e, Opt("k", "bb") if b0 != "opt" else Opt("o", "3")]),
            ("C", [Opt("k", "c")])]
    p = sx.file("c.ini", render(secs))

    def make():
        c = cls(p)
        c.exception_control_level = level
        c.exception_control_silent_warnings = True
        return c
    cpe = make()
    sx.capture()
    for i in range(steps):
        sec = sx.choice("sec%d" % i, ["A", "B", "C", "Z"])
        what = sx.choice("what%d" % i, whats)
        opt = sx.choice("opt%d" % i, ["k", "zz"]) if what in ("get-opt", "has_option") else None
        r1 = ask(sx, cpe, what, sec, opt)
    sec = sx.choice("sec", ["A", "B", "Z"])
    what = sx.choice("what", last)
    opt = sx.choice("opt", ["k", "zz"]) if what in ("get-opt", "has_option") else None
    got = ask(sx, cpe, what, sec, opt)
    want = ask(sx, make(), what, sec, opt)
    sx.observe(got)
    sx.require_eq(got, want, "answer to %s(%s) after other queries" % (what, sec))


def reassign(sx):
    """A new file name or new delimiters: as if the object were new."""
    mod = sx.module("configparserenhanced")
    v1 = sx.string("v1", 1, 1, "abc")
    v2 = sx.string("v2", 1, 1, "abc")
    s2 = sx.choice("s2", ["A", "B"])
    p1 = sx.file("one.ini", "[A]\nk = " + v1 + "\nold = 1\n[B]\nk = b\n")
    p2 = sx.file("two.ini", "[" + s2 + "]\nk = " + v2 + "\n")
    cpe = mod.ConfigParserEnhanced(p1)
    pre = sx.choice("pre", ["none", "getitem", "items", "raw", "parse_section", "has_option"])
    if pre != "none":
        ask(sx, cpe, pre, "A", "k")
    kind = sx.choice("kind", ["delims", "file", "rewritten", "both"])
    if kind == "rewritten":
        # the file itself has changed and is assigned again
        sx.file("one.ini", "[" + s2 + "]\nk = " + v2 + "\n")
        cpe.inifilepath = p1
        fresh = mod.ConfigParserEnhanced(p1)
    elif kind == "both":
        cpe.inifilepath = p2
        cpe.configparser_delimiters = ["|"]
        cpe.inifilepath = [p1, p2]
        cpe.configparser_delimiters = ("=",)
        fresh = mod.ConfigParserEnhanced([p1, p2])
        fresh.configparser_delimiters = ("=",)
    elif kind == "delims":
        d = sx.choice("d", [("=",), ("b",), [":"], "|"])
        cpe.configparser_delimiters = d
        fresh = mod.ConfigParserEnhanced(p1)
        fresh.configparser_delimiters = d
    else:
        cpe.inifilepath = p2
        fresh = mod.ConfigParserEnhanced(p2)
    sx.require_eq(cpe.parse_section_last_result, fresh.parse_section_last_result,
                  "last result after reconfiguration")
    if sx.bool("mid"):
        ask(sx, cpe, "getitem", "B", "k")
    what = sx.choice("what", ["getitem", "items", "raw", "sections", "has_section", "unroll-own"])
    sec = sx.choice("sec", ["A", "B"])
    got = ask(sx, cpe, what, sec, "k")
    want = ask(sx, fresh, what, sec, "k")
    sx.observe(got)
    sx.require_eq(got, want, "answer to %s(%s) after reconfiguration" % (what, sec))


def settings(sx):
    """The exception level of the moment decides, whatever it was before."""
    mod = sx.module("configparserenhanced")
    secs = [("A", [Opt("k", "a"), Use("B"), Opt("m", "1")]), ("B", [Opt("n", "2"), Use("A"), Opt("o", "3")]),
            ("C", [Opt("k", "c")]), ("D", [Op("put", ["x"], "1"), Use("D"), Opt("k", "1")])]
    p = sx.file("c.ini", render(secs))
    cls = subclass(mod)
    cpe = cls(p)
    cpe.exception_control_silent_warnings = True
    sx.capture()
    l1 = sx.choice("l1", [None, 0, 4, 5])
    if l1 is not None:
        cpe.exception_control_level = l1
    pre = sx.choice("pre", ["none", "getitem", "options", "sections", "has_section", "raw", "keys", "parse_section", "get-opt"])
    if pre != "none":
        ask(sx, cpe, pre, sx.choice("presec", ["C", "Z", "D"]), "k")
    l2 = sx.int("l2", 0, 5)
    cpe.exception_control_level = l2
    what = sx.choice("what", ["getitem", "options", "has_option", "get-opt", "parse_section", "sections-force", "parse_all",
                              "unroll-own"])
    fresh = cls(p)
    fresh.exception_control_silent_warnings = True
    fresh.exception_control_level = l2
    for i in range(2):
        got = ask(sx, cpe, what, "A", "k")
        sx.observe(got)
        sx.require_eq(got, ask(sx, fresh, what, "A", "k"), "answer to %s after the level was set" % what)
        sx.require_eq(cpe.exception_control_level, l2, "level")


def independent(sx):
    """Two objects do not influence each other."""
    mod = sx.module("configparserenhanced")
    cls = subclass(mod)
    v1 = sx.string("v1", 1, 1, "ab")
    v2 = sx.string("v2", 1, 1, "ab")
    p1 = sx.file("one.ini", "[A]\nk: " + v1 + "\nput x: 1\nuse B\n[B]\nq: 1\n")
    p2 = sx.file("two.ini", "[A]\nk: " + v2 + "\nput y: 2\n[C]\nr: 2\n")
    a = cls(p1)
    b = cls(p2)
    if sx.bool("lvl"):
        a.exception_control_level = 1
        a.debug_level = 0
        a.default_section_name = "C"
    first = sx.choice("first", ["getitem", "parse_section", "items"])
    second = sx.choice("second", ["getitem", "parse_section", "items", "sections"])
    ra = ask(sx, a, first, "A", "k")
    rb = ask(sx, b, second, "A", "k")
    ra2 = ask(sx, a, second, "A", "k")
    sx.observe(ra, rb, ra2)
    want = ask(sx, cls(p2), second, "A", "k")
    sx.require_eq(rb, want, "second object")
    sx.require_eq(b.exception_control_level, 4, "level of the second object")
    fresh = cls(p1)
    if a.exception_control_level == 1:
        fresh.exception_control_level = 1
        fresh.default_section_name = "C"
    sx.require_eq(ra2, ask(sx, fresh, second, "A", "k"), "first object afterwards")


def nested(sx):
    """A handler asks for other sections while its own is being expanded."""
    mod = sx.module("configparserenhanced")
    oh = mod.ConfigParserEnhanced.operation_handler
    hows = ["getitem", "options", "has_option", "get-opt", "items-sec", "parse_section", "raw", "has_section", "sections",
            "unroll"]

    class Nest(mod.ConfigParserEnhanced):
        @oh
        def handler_put(self, s, hp):
            hp.data_shared[hp.params[0]] = hp.value
            return 0

        @oh
        def handler_ask(self, s, hp):
            got.append(ask(sx, self, how, hp.params[0], "n"))
            hp.data_shared["asked " + hp.params[0]] = hp.value
            return 0
    got = []
    how = sx.choice("how", hows)
    target = sx.choice("target", ["B", "D", "Z"])
    secs = [("A", [Opt("k", "a"), Op("put", ["x"], "1"), Opt("m", "1")]), ("B", [Opt("n", "2"), Use("D"), Opt("k", "b")]),
            ("C", [Opt("c", "c"), Opt("k", "c")]), ("D", [Opt("d", "4"), Op("put", ["y"], "5"), Opt("n", "5")])]
    where = sx.choice("where", ["A", "C"])
    at = sx.choice("at", [0, 1, 2])
    dict(secs)[where].insert(at, Op("ask", [target], "v"))
    link = sx.choice("link", [None, "B", "D", "C"])
    if link:
        secs[0][1].insert(sx.choice("linkat", [1, 3]), Use(link))
    if sx.bool("twice"):
        secs[0][1].append(Op("ask", ["D"], "w"))
    sx.assume(distinct_keys(secs))
    p = sx.file("c.ini", render(secs))
    cpe = Nest(p)
    cpe.exception_control_silent_warnings = True
    sx.capture()
    root = sx.choice("root", ["A", "C"])
    out = sx.attempt(lambda: cpe.parse_section(root))
    last = cpe.parse_section_last_result
    plain = subclass(mod)(p)
    plain.exception_control_silent_warnings = True
    data, events, cycles = expand(secs, root)
    asked = [(e[2][0], e[3]) for e in events if e[1] == "ask"]
    sx.observe(out.kind, out.value, got)
    sx.require_eq(got, [ask(sx, plain, how, t, "n") for t, v in asked], "answers given to the handler")
    want = {}
    for s, op, params, value in events:
        want[params[0] if op == "put" else "asked " + params[0]] = value
    sx.require_eq((out.kind, out.value), ("ok", want), "data of the operations")
    sx.require_eq(last, want, "last result")
    for s in ["A", "B", "C", "D"]:
        sx.require_eq(dict(cpe.configparserenhanceddata[s]), expand(secs, s)[0], "options of " + s)
    sx.require_eq(cpe.configparserenhanceddata.has_section("Z"), False, "missing section")


def missing(sx):
    """A section that is not in the file is reported absent by every query,
    every time, and never appears because it was asked for."""
    mod = sx.module("configparserenhanced")
    p = sx.file("c.ini", "[A]\nk: a\n[B]\nuse A\n")
    cpe = mod.ConfigParserEnhanced(p)
    n = sx.string("n", 1, 2, "ABa ")
    sx.assume(n != "A" and n != "B")
    for i in range(2):
        w = sx.choice("w%d" % i, ["getitem", "options", "get", "get-opt", "parse_section",
                                  "has_section", "items-sec"])
        r = ask(sx, cpe, w, n, "k")
        if w == "has_section":
            sx.require_eq(r, ("ok", False), "has_section of a missing section")
        else:
            sx.require_eq(r[0], "KeyError", w + " of a missing section")
    s = ask(sx, cpe, "sections-parse", None, None)
    sx.require_eq(s, ("ok", ["A", "B"]), "sections")
    its = ask(sx, cpe, "items", None, None)
    sx.observe(s, its)
    sx.require_eq(its, ("ok", {"A": {"k": "a"}, "B": {"k": "a"}}), "items")


SCENARIOS = [
    dict(name="nested", fn="nested", paths=CORE,
         bounds="a handler that asks for another or a missing section in 10 ways, at 6 places, twice or once, 4 links"),
    dict(name="history-1", fn="history", paths=CORE,
         kw=dict(steps=1, whats=READS + GLOBALS, level=4, last=READS + GLOBALS,
                 bad=["use-A", "opt", "put"]),
         bounds="one earlier query of 19 kinds, then any query; 3 well-formed files"),
    dict(name="history-2", fn="history", paths=CORE,
         kw=dict(steps=2, whats=["getitem", "parse_section", "has_option", "items", "has_section",
                                 "sections-force"],
                 level=4, last=["getitem", "items", "has_option", "get-opt"], bad=["use-A", "put"]),
         bounds="two earlier queries of 6 kinds, then one of 4"),
    dict(name="failures-1", fn="history", paths=CORE,
         kw=dict(steps=1, whats=READS + GLOBALS, level=4, last=READS + GLOBALS,
                 bad=["use-missing", "boom"]),
         bounds="as history-1 on files whose expansion fails"),
    dict(name="failures-5", fn="history", paths=CORE,
         kw=dict(steps=1, whats=READS + ["items", "sections-force"], level=5,
                 last=READS + ["items"], bad=["use-A"]),
         bounds="as failures-1 with cycles raising (level 5)"),
    dict(name="reassign", fn="reassign", paths=CORE,
         bounds="6 earlier queries, new file, the same file rewritten, 4 delimiter settings or both, 6 later queries"),
    dict(name="settings", fn="settings", paths=CORE,
         bounds="3 earlier levels or the default, 9 earlier queries, levels 0..5, 8 later queries, each twice"),
    dict(name="independent", fn="independent", paths=CORE, bounds="two objects, 12 interleavings"),
    dict(name="missing", fn="missing", paths=CORE, bounds="missing names of 1..2 characters, 2 queries"),
    dict(name="history-3", fn="history", paths=CORE, tiers=("thorough",),
         kw=dict(steps=2, whats=READS + GLOBALS, level=4, last=READS + GLOBALS,
                 bad=["use-A", "put", "use-missing"]),
         bounds="two earlier queries of 19 kinds, then any query"),
]
