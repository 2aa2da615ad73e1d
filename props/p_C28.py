"""C28: all accessors present the same data, including what was set by hand."""
from lib import CORE, PRINT, EXOTIC, Opt, Use, render, expand, distinct_keys, Missing

ASSUMPTIONS = ["returned dictionaries are not modified by the caller",
               "what a forced new parse does to options set by hand is left open"]


def entry(sx, t, names):
    k = sx.choice(t + ".kind", ["opt", "novalue", "use", "none"])
    if k == "none":
        return None
    if k == "use":
        return Use(sx.choice(t + ".to", names))
    key = sx.word(t + ".k", ["ab"])
    return Opt(key, sx.word(t + ".v", ["12"]) if k == "opt" else None)


def agree(sx, sizes):
    """Every way to ask gives the options of the expansion."""
    mod = sx.module("configparserenhanced")
    names = ["A", "B", "DEF"][:len(sizes)]
    secs = []
    for n, z in zip(names, sizes):
        secs.append((n, [e for e in [entry(sx, n + str(i), names[:2]) for i in range(z)] if e is not None]))
    sx.assume(distinct_keys(secs))
    cpe = mod.ConfigParserEnhanced(sx.file("c.ini", render(secs)))
    cpe.exception_control_silent_warnings = True
    sx.capture()
    d = cpe.configparserenhanceddata
    sec = sx.choice("section", names[:2] + ["a", "NO"])
    opt = sx.word("option", ["abc"])
    first = sx.choice("first", ["has_section", "has_option", "get", "getopt", "item", "options", "items", "in", "all"])

    def ask(what):
        if what == "has_section":
            return d.has_section(sec)
        if what == "has_option":
            return d.has_option(sec, opt)
        if what == "get":
            return dict(d.get(sec))
        if what == "getopt":
            return d.get(sec, opt)
        if what == "item":
            return dict(d[sec])
        if what == "options":
            return dict(d.options(sec))
        if what == "items":
            return dict(d.items(sec))
        if what == "in":
            return sec in [k for k in d]
        return {k: dict(v) for k, v in d.items()}
    have = sec in names
    data = expand(secs, sec)[0] if have else None
    for what in [first, "has_section", "has_option", "get", "getopt", "item", "options", "items", "in", "all"]:
        r = sx.attempt(lambda: ask(what))
        sx.observe(what, r.kind, r.value)
        if what in ("has_section", "in"):
            want = ("ok", have)
        elif what == "all":
            want = ("ok", {n: expand(secs, n)[0] for n in names})
        elif not have:
            want = ("KeyError", None)
        elif what == "has_option":
            want = ("ok", opt in data)
        elif what == "getopt":
            want = ("ok", data[opt]) if opt in data else ("KeyError", None)
        else:
            want = ("ok", data)
        sx.require_eq((r.kind, r.value), want, what)
    sx.require_eq(list(d.keys()), names, "keys")
    sx.require_eq(list(d.sections()), names, "sections")
    sx.require_eq(len(d), len(names), "len")


TEXT = [("A", [Opt("a", "1"), Use("B"), Opt("b", "2")]), ("B", [Opt("c", "3"), Opt("b", "4")])]


def edit(sx, steps, ops):
    """What was set or added is presented afterwards by every accessor."""
    mod = sx.module("configparserenhanced")
    cpe = mod.ConfigParserEnhanced(sx.file("c.ini", render(TEXT)))
    sx.capture()
    d = cpe.configparserenhanceddata
    model = {}
    file = {n: expand(TEXT, n)[0] for n in ["A", "B"]}

    def data(s):
        if s not in model and s in file:
            model[s] = dict(file[s])
        return model.get(s)
    for i in range(steps):
        t = "s%d" % i
        op = sx.choice(t, ops)
        s = sx.choice(t + ".sec", ["A", "B", "N"])
        if op == "set":
            o = sx.word(t + ".opt", ["ad"])
            v = sx.word(t + ".val", ["xy"])
            r = sx.attempt(lambda: d.set(s, o, v))
            sx.require_eq((r.kind, r.value), ("ok", v), "set")
            if data(s) is None:
                model[s] = {}
            model[s][o] = v
        elif op == "add":
            r = sx.attempt(lambda: dict(d.add_section(s)))
            if s in model or s not in file:
                sx.require_eq((r.kind, r.value), ("ok", model.get(s, {})), "add_section")
                model.setdefault(s, {})
            else:
                sx.require(r.ok, "add_section raised " + r.kind)
        elif op == "force":
            r = sx.attempt(lambda: dict(d.add_section(s, force=True)))
            sx.require_eq((r.kind, r.value), ("ok", {}), "add_section(force)")
            model[s] = {}
        elif op == "has":
            r = sx.attempt(lambda: d.has_option(s, "a"))
            want = ("KeyError", None) if data(s) is None else ("ok", "a" in data(s))
            sx.require_eq((r.kind, r.value), want, "has_option")
        elif op == "get":
            r = sx.attempt(lambda: d.get(s, "d"))
            want = ("ok", data(s)["d"]) if data(s) is not None and "d" in data(s) else ("KeyError", None)
            sx.require_eq((r.kind, r.value), want, "get")
        elif op == "item":
            r = sx.attempt(lambda: dict(d[s]))
            want = ("KeyError", None) if data(s) is None else ("ok", data(s))
            sx.require_eq((r.kind, r.value), want, "[]")
        else:
            r = sx.attempt(lambda: list(d.sections(parse=True)))
            sx.require_eq((r.kind, r.value), ("ok", ["A", "B"]), "sections(parse=True)")
            data("A")
            data("B")
        sx.observe(r.kind, r.value)
    how = sx.choice("how", ["get", "item", "options", "items"])
    for s in ["A", "B", "N"]:
        m = data(s)
        sx.require_eq(d.has_section(s), m is not None, "has_section " + s)
        f = {"get": lambda: dict(d.get(s)), "item": lambda: dict(d[s]), "options": lambda: dict(d.options(s)),
             "items": lambda: dict(d.items(s))}[how]
        r = sx.attempt(f)
        sx.observe(r.kind, r.value)
        sx.require_eq((r.kind, r.value), ("KeyError", None) if m is None else ("ok", m), how + " " + s)
        for o in "abcd":
            if m is not None:
                sx.require_eq(d.has_option(s, o), o in m, "has_option %s %s" % (s, o))
                r = sx.attempt(lambda: d.get(s, o))
                sx.require_eq((r.kind, r.value), ("ok", m[o]) if o in m else ("KeyError", None), "get %s %s" % (s, o))
    sx.require_eq({k: dict(v) for k, v in d.items()}, {s: data(s) for s in model}, "items()")
    sx.require_eq(list(d.keys()), ["A", "B"], "sections of the file")
    sx.require_eq(len(d), 2, "number of sections of the file")


def falsy(sx):
    """Whatever value was set is presented, in whatever section."""
    mod = sx.module("configparserenhanced")
    cpe = mod.ConfigParserEnhanced(sx.file("c.ini", "[A]\na:\nb\nc: 0\n[a]\n[B b]\nuse A\nd: 1\n"))
    sx.capture()
    d = cpe.configparserenhanceddata
    model = {"A": {"a": "", "b": None, "c": "0"}, "a": {}, "B b": {"a": "", "b": None, "c": "0", "d": "1"}}
    for i in range(2):
        s = sx.choice("sec%d" % i, [["A", "a", "B b", "b"], ["A", "b"]][i])
        o = sx.choice("opt%d" % i, [["a", "A", "", "use"], ["a", ""]][i])
        v = sx.choice("val%d" % i, [["", None, 0, "x", [], " v "], ["", "x"]][i])
        r = sx.attempt(lambda: d.set(s, o, v))
        sx.require_eq((r.kind, r.value), ("ok", v), "set")
        model.setdefault(s, {})[o] = v
        if i == 0 and sx.bool("look"):
            sx.require_eq(dict(d[s]), model[s], "[] after set")
    how = sx.choice("how", ["get", "item", "options", "items"])
    for s in ["A", "a", "B b", "b", "B"]:
        sx.require_eq(d.has_section(s), s in model, "has_section " + s)
        f = {"get": lambda: dict(d.get(s)), "item": lambda: dict(d[s]), "options": lambda: dict(d.options(s)),
             "items": lambda: dict(d.items(s))}[how]
        r = sx.attempt(f)
        sx.observe(r.kind, r.value)
        sx.require_eq((r.kind, r.value), ("ok", model[s]) if s in model else ("KeyError", None), how + " of " + s)
        for o in ["a", "A", "b", "", "use", "z"]:
            if s in model:
                sx.require_eq(d.has_option(s, o), o in model[s], "has_option")
                r = sx.attempt(lambda: d.get(s, o))
                sx.require_eq((r.kind, r.value), ("ok", model[s][o]) if o in model[s] else ("KeyError", None), "get")


def names(sx):
    """Sections and options set by hand, with any character in their names."""
    mod = sx.module("configparserenhanced")
    cpe = mod.ConfigParserEnhanced(sx.file("c.ini", "[A]\na: 1\n"))
    sx.capture()
    d = cpe.configparserenhanceddata
    c = sx.string("c", 0, 1, PRINT + EXOTIC)
    n = sx.choice("pre", ["", "a"]) + c + sx.choice("post", ["", "b"])
    sec = "A" if sx.bool("known") else n
    if sx.bool("add"):
        d.add_section(sec)
    r = sx.attempt(lambda: d.set(sec, n, "2"))
    sx.require_eq((r.kind, r.value), ("ok", "2"), "set")
    model = {"A": {"a": "1"}}
    model.setdefault(sec, {})[n] = "2"
    for s in ["A", "a", "b", sec, sec.strip(), sec + " "]:
        r = sx.attempt(lambda: dict(d[s]))
        sx.observe(r.kind, r.value)
        sx.require_eq((r.kind, r.value), ("ok", model[s]) if s in model else ("KeyError", None), "[]")
        sx.require_eq(d.has_section(s), s in model, "has_section")
        if s in model:
            for o in ["a", "b", n, n.strip(), n + " ", n.lower(), n.upper()]:
                sx.require_eq(d.has_option(s, o), o in model[s], "has_option")
                r = sx.attempt(lambda: d.get(s, o))
                sx.require_eq((r.kind, r.value), ("ok", model[s][o]) if o in model[s] else ("KeyError", None), "get")


def separate(sx):
    """What is set in one object is not in another of the same file."""
    mod = sx.module("configparserenhanced")
    p = sx.file("c.ini", render(TEXT))
    cs = [mod.ConfigParserEnhanced(p) for i in range(2)]
    sx.capture()
    model = [{n: expand(TEXT, n)[0] for n in ["A", "B"]} for c in cs]
    for i in range(3):
        k = sx.choice("obj%d" % i, [0, 1])
        d = cs[k].configparserenhanceddata
        op = sx.choice("op%d" % i, ["set", "force", "read", "unroll"])
        s = sx.choice("sec%d" % i, ["A", "B", "N"])
        if op == "set":
            v = sx.word("v%d" % i, ["xy"])
            d.set(s, "a", v)
            model[k].setdefault(s, {})["a"] = v
        elif op == "force":
            d.add_section(s, force=True)
            model[k][s] = {}
        elif op == "unroll" and s in ("A", "B"):
            cs[k].unroll_to_str(section=s)
        else:
            r = sx.attempt(lambda: dict(d[s]))
            sx.require_eq((r.kind, r.value), ("ok", model[k][s]) if s in model[k] else ("KeyError", None), "read")
    for k in [0, 1]:
        d = cs[k].configparserenhanceddata
        for s in ["A", "B", "N"]:
            r = sx.attempt(lambda: dict(d[s]))
            sx.observe(r.kind, r.value)
            sx.require_eq((r.kind, r.value), ("ok", model[k][s]) if s in model[k] else ("KeyError", None),
                          "object %d, section %s" % (k, s))


def parse(sx, n):
    """The argument of sections(); forced parses present the file again."""
    mod = sx.module("configparserenhanced")
    runs = []
    oh = mod.ConfigParserEnhanced.operation_handler

    class Rec(mod.ConfigParserEnhanced):
        @oh
        def handler_run(self, s, hp):
            runs.append(hp.section_root)
            return 0
    cpe = Rec(sx.file("c.ini", "[A]\nrun\nuse B\na: 1\n[B]\nrun\nb: 2\n"))
    sx.capture()
    d = cpe.configparserenhanceddata
    parsed = set()
    for i in range(n):
        how = sx.choice("how%d" % i, ["false", "true", "force", "Force", "other", "empty", "int", "none", "A", "B"])
        arg = {"false": False, "true": True, "force": "force", "Force": "FoRCE", "other": "parse", "empty": "",
               "int": 1, "none": None}.get(how)
        del runs[:]
        if how in ("A", "B"):
            sx.require_eq(dict(d[how]), {"A": {"a": "1", "b": "2"}, "B": {"b": "2"}}[how], "data")
            todo = [] if how in parsed else [how]
            parsed.add(how)
        else:
            r = sx.attempt(lambda: list(d.sections(parse=arg)))
            sx.observe(r.kind)
            todo = []
            if how in ("other", "empty"):
                sx.require_eq(r.kind, "ValueError", "unknown text")
            elif how in ("int", "none"):
                sx.require_eq(r.kind, "TypeError", "argument type")
            else:
                sx.require_eq((r.kind, r.value), ("ok", ["A", "B"]), "sections")
            if how == "true":
                todo = [s for s in ["A", "B"] if s not in parsed]
            elif how in ("force", "Force"):
                todo = ["A", "B"]
            for s in todo:
                parsed.add(s)
        want = []
        for s in todo:
            want += ["A", "A"] if s == "A" else ["B"]
        sx.observe(runs)
        sx.require_eq(runs, want, "operations run by request %d" % i)
    sx.require_eq({k: dict(v) for k, v in d.items()}, {"A": {"a": "1", "b": "2"}, "B": {"b": "2"}}, "data")


ALL = ["set", "add", "force", "has", "get", "item", "parse"]
SCENARIOS = [
    dict(name="agree", fn="agree", paths=CORE, kw=dict(sizes=[2, 1]),
         bounds="3 entries in 2 linked sections, every way to ask first"),
    dict(name="agree-default", fn="agree", paths=CORE, kw=dict(sizes=[1, 1, 1]),
         bounds="1 entry in each of 3 sections"),
    dict(name="edit", fn="edit", paths=CORE, kw=dict(steps=2, ops=ALL), bounds="2 of 7 operations on 3 sections"),
    dict(name="edit-3", fn="edit", paths=CORE, kw=dict(steps=3, ops=["set", "add", "force", "item"]),
         bounds="3 of 4 operations on 3 sections"),
    dict(name="falsy", fn="falsy", paths=CORE, bounds="2 assignments of up to 6 values to 4 options in 4 sections"),
    dict(name="names", fn="names", paths=CORE, bounds="any character in a section and an option set by hand"),
    dict(name="separate", fn="separate", paths=CORE, bounds="3 operations of 4 kinds on two objects"),
    dict(name="parse", fn="parse", paths=CORE, kw=dict(n=3), bounds="3 requests of 10 kinds"),
    dict(name="agree-22", fn="agree", paths=CORE, kw=dict(sizes=[2, 2]), tiers=("thorough",),
         bounds="4 entries in 2 linked sections"),
    dict(name="edit-all-3", fn="edit", paths=CORE, kw=dict(steps=3, ops=ALL), tiers=("thorough",),
         bounds="3 of 7 operations"),
]
