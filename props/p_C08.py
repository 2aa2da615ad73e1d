"""C08: the default section comes first in every expansion."""
from lib import CORE, Opt, Use, Op, render, distinct_keys, find, Missing

ASSUMPTIONS = ["the name of the default section is chosen before anything is parsed"]


def reference(secs, root, dname):
    data = {}
    events = []

    def walk(name, active):
        es = find(secs, name)
        if es is None:
            raise Missing(name)
        for e in es:
            if isinstance(e, Use):
                if e.target not in active:
                    walk(e.target, active + [e.target])
            elif isinstance(e, Op):
                events.append((name, root, e.op, list(e.params), e.value))
            else:
                data[e.key] = e.value
    if find(secs, dname) is not None and dname != root:
        walk(dname, [dname])
    walk(root, [root])
    return data, events


def subclass(mod):
    oh = mod.ConfigParserEnhanced.operation_handler

    class Rec(mod.ConfigParserEnhanced):
        def __init__(self, f=None):
            super().__init__(f)
            self.seen = []

        @oh
        def handler_initialize(self, s, hp):
            self.seen.append(("init", s))
            return 0

        @oh
        def handler_finalize(self, s, hp):
            self.seen.append(("final", s))
            return 0

        @oh
        def handler_rec(self, s, hp):
            self.seen.append((s, hp.section_root, hp.op, list(hp.params), hp.value))
            return 0
    return Rec


def entry(sx, t, kinds, targets, keys):
    k = sx.choice(t + ".kind", kinds)
    if k == "use":
        return Use(sx.choice(t + ".to", targets))
    if k == "op":
        return Op("rec", [sx.word(t + ".key", [keys])], t)
    return Opt(sx.word(t + ".key", [keys]), t)


def expansion(sx, names, sizes, kinds, dname, roots, setname, keys="pq"):
    mod = sx.module("configparserenhanced")
    secs = []
    for n, size in zip(names, sizes):
        es = [entry(sx, n + str(i), kinds, names, keys) for i in range(size)]
        secs.append((n, es))
    sx.assume(distinct_keys(secs))
    cpe = subclass(mod)(sx.file("c.ini", render(secs)))
    cpe.exception_control_silent_warnings = True
    if setname:
        cpe.default_section_name = dname
    root = sx.choice("root", roots)
    how = sx.choice("how", ["item", "parse", "items"])
    data, events = reference(secs, root, dname)
    if how == "item":
        r = sx.attempt(lambda: dict(cpe.configparserenhanceddata[root]))
        got = r.value
    elif how == "parse":
        r = sx.attempt(lambda: cpe.parse_section(root))
        got = dict(cpe.configparserenhanceddata[root]) if r.ok else None
    else:
        r = sx.attempt(lambda: {k: dict(v) for k, v in cpe.configparserenhanceddata.items()})
        sx.observe(r.kind, r.value)
        sx.require(r.ok, "expanding all sections raised " + r.kind)
        want = {n: reference(secs, n, dname)[0] for n, es in secs}
        sx.require_eq(r.value, want, "all sections")
        return
    sx.observe(r.kind, got, list(cpe.seen))
    sx.require(r.ok, "expansion raised " + r.kind)
    sx.require_eq(got, data, "options of the section")
    sx.require_eq(cpe.seen, [("init", root)] + events + [("final", root)], "operations in order")


def dangling(sx):
    """A link of the default section that leads nowhere is as bad as one of
    the section itself."""
    mod = sx.module("configparserenhanced")
    dname = sx.choice("dname", ["DEFAULT", "COMMON"])
    missing = sx.choice("missing", ["NONE", "default", "DEFAULT"])
    sx.assume(missing != dname)
    at = sx.choice("at", ["default", "through", "section", "nowhere"])
    before = sx.bool("before")

    def body(key, link):
        es = [Opt(key, "1"), Op("rec", [key], "2")]
        if link is not None:
            es.insert(0 if before else 2, Use(link))
        return es
    secs = [(dname, body("d", missing if at == "default" else "T" if at == "through" else None)),
            ("T", body("t", missing if at == "through" else None)), ("B", []),
            ("A", body("a", missing if at == "section" else None))]
    cpe = subclass(mod)(sx.file("c.ini", render(secs)))
    if dname != "DEFAULT":
        cpe.default_section_name = dname
    d = cpe.configparserenhanceddata
    for i in range(2):
        root = sx.choice("root%d" % i, ["A", "B", dname])
        how = sx.choice("how%d" % i, ["item", "parse", "options", "option", "all"])
        r = sx.attempt(lambda: {"item": lambda: d[root], "parse": lambda: cpe.parse_section(root),
                                "options": lambda: d.options(root), "option": lambda: d.get(root, "d"),
                                "all": lambda: d.items()}[how]())
        sx.observe(r.kind)
        bad = at in ("default", "through") or at == "section" and (root == "A" or how == "all")
        sx.require_eq(r.kind, "KeyError" if bad else "ok", how + " of a section" + (" with a dangling link" if bad else ""))
        if not bad and how == "item":
            sx.require_eq(dict(r.value), reference(secs, root, dname)[0], "options of the section")


def similar(sx):
    """A section with a name like the default section's is an ordinary one."""
    mod = sx.module("configparserenhanced")
    dname = sx.choice("dname", ["DEFAULT", "Com mon", "d"])
    ext = sx.string("ext", 0, 1, "S _-1é")
    base = {"DEFAULT": ["Dd", "Ee", "F", "A", "U", "Ll", "Tt "],
            "Com mon": ["Cc", "o", "mM", " -_", "m", "oO", "n"], "d": ["dD \u0434"]}[dname]
    pre = sx.string("pre", 0, 1, "N _-xD") if dname != "Com mon" else ""
    name = pre + sx.word("name", base) + ext
    sx.assume(name != dname)
    cpe = subclass(mod)(sx.file("c.ini", render([(name, [Opt("k", "n"), Op("rec", ["y"], "2")]),
                                                (dname, [Opt("k", "d"), Opt("z", "d"), Op("rec", ["x"], "1")]),
                                                ("A", [Use(name, "'")])])))
    cpe.default_section_name = dname
    root = sx.choice("root", ["name", "A", "default"])
    r = {"name": name, "A": "A", "default": dname}[root]
    got = dict(cpe.configparserenhanceddata[r])
    sx.observe(got, list(cpe.seen))
    ev = [(dname, r, "rec", ["x"], "1")]
    if root != "default":
        ev.append((name, r, "rec", ["y"], "2"))
    sx.require_eq(got, {"k": "d" if root == "default" else "n", "z": "d"}, "options")
    sx.require_eq(cpe.seen, [("init", r)] + ev + [("final", r)], "operations in order")


def ask(sx, t, cpe, names):
    """Any access; returns the section that must be presented afterwards."""
    d = cpe.configparserenhanceddata
    sec = sx.choice(t + ".sec", names)
    q = sx.choice(t, ["item", "get", "options", "items", "has_section", "has_option", "option", "parse", "all-items",
                      "sections", "force", "parse_all", "unroll", "unroll-own", "assert", "assert-file"])
    if q == "item":
        d[sec]
    elif q == "get":
        d.get(sec)
    elif q == "options":
        d.options(sec)
    elif q == "items":
        d.items(sec)
    elif q == "has_section":
        d.has_section(sec)
    elif q == "has_option":
        d.has_option(sec, "z")
    elif q == "option":
        sx.attempt(lambda: d.get(sec, "z"))
    elif q == "parse":
        cpe.parse_section(sec)
    elif q == "all-items":
        d.items()
    elif q == "sections":
        d.sections(True)
    elif q == "force":
        d.sections("force")
    elif q == "parse_all":
        cpe.parse_all_sections()
    elif q == "unroll":
        cpe.unroll_to_str(sec)
    elif q == "unroll-own":
        cpe.unroll_to_str(use_base_class_parser=False)
    elif q == "assert":
        sx.attempt(lambda: cpe.assert_section_all_options_handled(sec))
    else:
        sx.attempt(lambda: cpe.assert_file_all_sections_handled())


def access(sx, n, kinds):
    """Whatever is asked, in whatever order: every parse that happens expands
    the default section first, exactly once, and then the section."""
    mod = sx.module("configparserenhanced")
    names = ["A", "DEFAULT", "B"]
    e1 = entry(sx, "A0", kinds, ["B", "DEFAULT"], "pq")
    e2 = entry(sx, "D0", kinds, ["B", "A"], "pq")
    e3 = entry(sx, "B0", ["opt", "op"], [], "p")
    secs = [("A", [e1, Opt("q q", "a")]), ("DEFAULT", [e2, Opt("q q", "d"), Op("rec", ["dd"], "1")]), ("B", [e3])]
    cpe = subclass(mod)(sx.file("c.ini", render(secs)))
    cpe.exception_control_silent_warnings = True
    sx.capture()
    for i in range(n):
        ask(sx, "q%d" % i, cpe, names)
    cpe.configparserenhanceddata.has_section("B")
    groups = []
    for x in cpe.seen:
        if x[0] == "init":
            groups.append([])
        groups[-1].append(x)
    for g in groups:
        root = g[0][1]
        sx.require_eq(g, [("init", root)] + reference(secs, root, "DEFAULT")[1] + [("final", root)],
                      "operations of a parse of " + root)
    roots = [g[0][1] for g in groups]
    sx.observe(roots)
    for s in names:
        data, events = reference(secs, s, "DEFAULT")
        sx.require_eq(dict(cpe.configparserenhanceddata[s]), data, "options of " + s)


def raw(sx):
    """The default section is a section like others in the raw data, and
    leaks into none of them."""
    mod = sx.module("configparserenhanced")
    dname = sx.choice("dname", ["DEFAULT", "COMMON", "default"])
    k = sx.word("k", ["pq"])
    l = sx.word("l", ["pq"])
    secs = [("A", [Opt(k, "a")]), (dname, [Opt(l, "d"), Opt("z", "d")]), ("B", [])]
    cpe = mod.ConfigParserEnhanced(sx.file("c.ini", render(secs)))
    if dname != "DEFAULT" and sx.bool("set"):
        cpe.default_section_name = dname
    d = dname == cpe.default_section_name
    got = {s: dict(cpe.configparserdata[s]) for s in cpe.configparserdata.sections()}
    want = {"A": {k: "a"}, dname: {l: "d", "z": "d"}, "B": {}}
    sx.observe(got)
    sx.require_eq(got, want, "raw data")
    sx.require_eq(list(cpe.configparserenhanceddata.sections()), ["A", dname, "B"], "section names")
    both = dict({l: "d", "z": "d"})
    both[k] = "a"
    sx.require_eq(dict(cpe.configparserenhanceddata["A"]), both if d else {k: "a"}, "A")
    sx.require_eq(dict(cpe.configparserenhanceddata["B"]), {l: "d", "z": "d"} if d else {}, "B")
    sx.require_eq(dict(cpe.configparserenhanceddata[dname]), {l: "d", "z": "d"}, "default section")
    got = {s: dict(cpe.configparserdata[s]) for s in cpe.configparserdata.sections()}
    sx.require_eq(got, want, "raw data after expansion")
    sx.require_eq(cpe.configparserenhanceddata.has_option("B", "z"), d, "has_option through the default")


SCENARIOS = [
    dict(name="dangling", fn="dangling", paths=CORE,
         bounds="a missing section linked from the default section, directly or through another, 2 queries of 5 kinds"),
    dict(name="default-2", fn="expansion", paths=CORE,
         kw=dict(names=["DEFAULT", "A"], sizes=[2, 2], kinds=["opt", "use", "op"], dname="DEFAULT",
                 roots=["A", "DEFAULT"], setname=False),
         bounds="default section and one other, 2 entries each"),
    dict(name="default-3", fn="expansion", paths=CORE,
         kw=dict(names=["A", "DEFAULT", "B"], sizes=[1, 2, 2], kinds=["opt", "use"], dname="DEFAULT",
                 roots=["A", "B"], setname=False, keys="p"),
         bounds="default section and two others, 1..2 entries each"),
    dict(name="renamed", fn="expansion", paths=CORE,
         kw=dict(names=["A", "COMMON", "DEFAULT"], sizes=[2, 1, 1], kinds=["opt", "use", "op"],
                 dname="COMMON", roots=["A", "DEFAULT", "COMMON"], setname=True, keys="p"),
         bounds="default section renamed, a section DEFAULT beside it"),
    dict(name="absent", fn="expansion", paths=CORE,
         kw=dict(names=["A", "default", "Default"], sizes=[2, 1, 1], kinds=["opt", "use"],
                 dname="DEFAULT", roots=["A", "default"], setname=False),
         bounds="no default section, similar names"),
    dict(name="similar", fn="similar", paths=CORE,
         bounds="3 names of the default section, similar names (case, blanks, one more character)"),
    dict(name="access", fn="access", paths=CORE, kw=dict(n=1, kinds=["opt", "use", "op"]),
         bounds="default section and two others, 16 kinds of access"),
    dict(name="access-2", fn="access", paths=CORE, kw=dict(n=2, kinds=["opt"]),
         bounds="two accesses of 16 kinds to any of three sections"),
    dict(name="access-2-all", fn="access", paths=CORE, kw=dict(n=2, kinds=["opt", "use", "op"]), tiers=("thorough",),
         bounds="two accesses of 16 kinds to any of three sections, entries of 3 kinds"),
    dict(name="raw", fn="raw", paths=CORE, bounds="3 names of default section, symbolic keys"),
    dict(name="default-4", fn="expansion", paths=CORE, tiers=("thorough",),
         kw=dict(names=["A", "DEFAULT", "B"], sizes=[2, 2, 2], kinds=["opt", "use", "op"], dname="DEFAULT",
                 roots=["A", "B", "DEFAULT"], setname=False),
         bounds="default section and two others, 2 entries each of 3 kinds"),
]
