"""C02: cyclic `use` links terminate; only back-links are skipped."""
from lib import CORE, Opt, Use, render, expand, distinct_keys, Missing, Cycle

ASSUMPTIONS = ["a skipped link is announced by one `EXCEPTION SKIPPED` notice on stdout"]


def graph(sx, names, sizes, levels, opt):
    mod = sx.module("configparserenhanced")
    secs = []
    for n, size in zip(names, sizes):
        es = []
        if opt == "first":
            es.append(Opt("k", "first " + n))
        for i in range(size):
            if sx.bool(n + str(i) + ".there"):
                if isinstance(names, list):
                    es.append(Use(sx.choice(n + str(i) + ".target", names)))
                else:
                    es.append(Use(sx.word(n + str(i) + ".target", [names])))
        if opt == "last":
            es.append(Opt("k", "last " + n))
        es.append(Opt("own" + n, n))
        secs.append((n, es))
    sx.assume(distinct_keys(secs))
    p = sx.file("c.ini", render(secs))
    cpe = mod.ConfigParserEnhanced(p)
    level = sx.int("level", levels[0], levels[1])
    silent = sx.bool("silent") if levels[0] != levels[1] else False
    cpe.exception_control_level = level
    cpe.exception_control_silent_warnings = silent
    out = sx.capture()
    data, events, cycles = expand(secs, "A")
    r = sx.attempt(lambda: cpe.parse_section("A"))
    text = out.getvalue()
    notices = text.count("EXCEPTION SKIPPED")
    sx.observe(r.kind, notices)
    if cycles and level == 5:
        sx.require(r.kind == "ValueError", "a cycle at level 5 must raise ValueError, got " + r.kind)
        return
    sx.require(r.ok, "a cyclic `use` must not stop the parse below level 5: " + r.kind)
    got = dict(cpe.configparserenhanceddata["A"])
    sx.require_eq(got, data, "only links back to an open section may be skipped")
    if silent or level == 0:
        sx.require_eq(text, "", "no output expected")
    else:
        sx.require_eq(notices, len(cycles), "one notice per skipped link")


NAMECH = "AaéÉ\u0301\u00a0 _-.1"


def similar(sx):
    """A link to a section with a similar name is no cycle."""
    mod = sx.module("configparserenhanced")
    n1 = sx.string("n1", 1, 2, NAMECH)
    n2 = sx.string("n2", 1, 3, NAMECH)
    sx.assume(n1 != n2)
    back = sx.choice("back", ["none", "n1", "n2"])
    es = [Opt("y", "2")]
    if back != "none":
        es.append(Use(n1 if back == "n1" else n2, "'"))
    secs = [(n1, [Opt("x", "1"), Use(n2, "'")]), (n2, es)]
    cpe = mod.ConfigParserEnhanced(sx.file("c.ini", render(secs)))
    cpe.exception_control_level = sx.choice("level", [1, 4, 5])
    out = sx.capture()
    r = sx.attempt(lambda: dict(cpe.configparserenhanceddata[n1]))
    notices = out.getvalue().count("EXCEPTION SKIPPED")
    sx.observe(r.kind, notices)
    if back != "none" and cpe.exception_control_level == 5:
        sx.require_eq(r.kind, "ValueError", "a cycle at level 5")
        return
    sx.require(r.ok, "expansion raised " + r.kind)
    sx.require_eq(r.value, {"x": "1", "y": "2"}, "options")
    sx.require_eq(notices, 0 if back == "none" else 1, "notices")


def all_sections(sx):
    """Expanding every section of a cyclic file, in any order, terminates and
    gives each section its own expansion."""
    mod = sx.module("configparserenhanced")
    names = "ABC"
    secs = []
    for n in names:
        es = [Opt("k", n)]
        if sx.bool(n + ".there"):
            es.append(Use(sx.word(n + ".target", [names])))
        es.append(Opt("own" + n, n))
        secs.append((n, es))
    p = sx.file("c.ini", render(secs))
    cpe = mod.ConfigParserEnhanced(p)
    cpe.exception_control_silent_warnings = True
    how = sx.choice("how", ["all", "force", "items", "each"])
    if how == "all":
        cpe.parse_all_sections()
    elif how == "force":
        cpe.configparserenhanceddata.sections(parse="force")
    elif how == "items":
        cpe.configparserenhanceddata.items()
    got = {}
    for n in sx.choice("perm", ["ABC", "CAB", "BCA"]):
        got[n] = dict(cpe.configparserenhanceddata.options(n))
    sx.observe(got)
    for n in names:
        sx.require_eq(got[n], expand(secs, n)[0], "expansion of section " + n)


def with_default(sx, sizes):
    """The default section is expanded first, but it is no open section of
    the expansion that follows: a link to it is followed."""
    mod = sx.module("configparserenhanced")
    dname = sx.choice("dname", ["DEFAULT", "D"])
    names = [dname, "A", "B"]
    secs = []
    for n, size in zip(names, sizes):
        es = [Opt("k", "first " + n)]
        for i in range(size):
            if sx.bool(n + str(i) + ".there"):
                es.append(Use(sx.choice(n + str(i) + ".target", names)))
        es.append(Opt("l", "last " + n))
        es.append(Opt("own" + n, n))
        secs.append((n, es))
    sx.assume(distinct_keys(secs))
    cpe = mod.ConfigParserEnhanced(sx.file("c.ini", render(secs)))
    cpe.default_section_name = dname
    level = sx.choice("level", [4, 5])
    cpe.exception_control_level = level
    root = sx.choice("root", names)
    out = sx.capture()
    data, cycles = {}, []
    for r in ([dname] if root != dname else []) + [root]:
        d, e, c = expand(secs, r)
        data.update(d)
        cycles += c
    r = sx.attempt(lambda: dict(cpe.configparserenhanceddata[root]))
    notices = out.getvalue().count("EXCEPTION SKIPPED")
    sx.observe(r.kind, r.value, notices)
    if cycles and level == 5:
        sx.require_eq(r.kind, "ValueError", "a cycle at level 5")
        return
    sx.require(r.ok, "expansion raised " + r.kind)
    sx.require_eq(r.value, data, "only links back to an open section may be skipped")
    sx.require_eq(notices, len(cycles), "one notice per skipped link")


SCENARIOS = [
    dict(name="default", fn="with_default", paths=CORE, kw=dict(sizes=[1, 2, 1]),
         bounds="a default section of 2 names and two others, 1..2 uses each with any targets, level 4 and 5"),
    dict(name="default-2", fn="with_default", paths=CORE, kw=dict(sizes=[2, 2, 2]), tiers=("thorough",),
         bounds="as default, up to 2 uses each"),
    dict(name="two", fn="graph", paths=CORE,
         kw=dict(names="AB", sizes=[2, 2], levels=(0, 5), opt="first"),
         bounds="2 sections, up to 2 uses each with any targets, level 0..5, silent flag"),
    dict(name="three", fn="graph", paths=CORE,
         kw=dict(names="ABC", sizes=[2, 2, 2], levels=(4, 4), opt="last"),
         bounds="3 sections, up to 2 uses each with any targets, default level"),
    dict(name="three-raise", fn="graph", paths=CORE,
         kw=dict(names="ABC", sizes=[2, 1, 1], levels=(5, 5), opt="first"),
         bounds="3 sections, level 5"),
    dict(name="names", fn="graph", paths=CORE,
         kw=dict(names=["A", "B", "AB", "BA"], sizes=[2, 2, 1, 1], levels=(4, 4), opt="last"),
         bounds="4 sections whose names contain each other, 1..2 uses each"),
    dict(name="all-sections", fn="all_sections", paths=CORE,
         bounds="3 sections, one use each, all expansion entry points and orders"),
    dict(name="similar", fn="similar", paths=CORE,
         bounds="two section names of 1..3 characters over %d symbols linked to each other, level 1, 4, 5"
                % len(NAMECH)),
    dict(name="four", fn="graph", paths=CORE, tiers=("thorough",),
         kw=dict(names="ABCD", sizes=[2, 2, 2, 2], levels=(4, 4), opt="last"),
         bounds="4 sections, up to 2 uses each"),
]
