"""C19: the actions of a section are its operations in expansion order."""
from lib import SEV, PRINT, EXOTIC, without, render, expand, distinct_keys
import setenv

WIDE = without(PRINT + EXOTIC, "%")


def listed(sx, names, sizes, kinds, roots, varnames=("X", "Y"), mods=("gcc", "ompi")):
    mod = sx.module("setenvironment")
    secs = setenv.sections(sx, names, sizes, kinds, varnames, mods, lambda t: sx.word(t + ".v", ["ab"]))
    s = mod.SetEnvironment(sx.file("env.ini", render(secs)))
    s.exception_control_silent_warnings = True
    sx.capture()
    for i, root in enumerate(roots):
        r = sx.attempt(lambda: s.parse_section(root))
        sx.require(r.ok, "parsing raised " + r.kind)
        want = setenv.actions(secs, root)
        sx.observe(s.actions)
        sx.require_eq(s.actions[root], want, "actions of " + root)
        sx.require_eq(r.value["setenvironment"], want, "result of the parse")
        sx.require_eq(sorted(s.actions), sorted(set(roots[:i + 1])), "sections with actions")
    for root in roots:
        sx.require_eq(s.actions[root], setenv.actions(secs, root), "actions of %s afterwards" % root)
        sx.require_eq(dict(s.configparserenhanceddata[root]), expand(secs, root)[0], "options left")


def removal(sx):
    """Removals go by the whole name."""
    from lib import Op
    mod = sx.module("setenvironment")
    n = sx.choice("pre", ["", "g", "G1"]) + sx.string("n", 1, 2, "gG1/_")
    mods = setenv.ENVOPS[:3] + ["module-load", "module-unload", "module-swap", "module-use", "swapto", "version"]
    k = sx.choice("kind", mods)
    m = sx.choice("mpre", ["", "g", "G1"]) + sx.string("m", 1, 2, "gG1/_")
    if k == "module-unload":
        op = Op(k, [m], None)
    elif k == "module-use":
        op = Op(k, [], m)
    elif k == "swapto":
        op = Op("module-swap", ["z"], m)
    elif k == "version":
        op = Op("module-load", ["z"], m)
    else:
        op = Op(k, [m], "z")
    es = [Op("envvar-set", ["z"], n), op, Op("module-unload", ["z/" + n], None)]
    late = sx.bool("late")
    rm = [Op("envvar-remove", [n], None), Op("module-remove", [n], None)]
    if sx.bool("other"):
        rm.reverse()
    es = es[:1] + rm + es[1:] if late else es + rm
    secs = [("A", es)]
    sx.assume(distinct_keys(secs))
    s = mod.SetEnvironment(sx.file("env.ini", render(secs)))
    r = sx.attempt(lambda: s.parse_section("A"))
    sx.observe(r.kind, s.actions.get("A"))
    sx.require(r.ok, "parsing raised " + r.kind)
    sx.require_eq(s.actions["A"], setenv.actions(secs, "A"), "actions")


def wide(sx):
    """Any character in values and names."""
    from lib import Op
    mod = sx.module("setenvironment")
    c = sx.string("c", 1, 1, WIDE)
    d = sx.string("d", 0, 1, "a $:")
    v = "p" + c + d + "q"
    nc = sx.word("nc", [without(PRINT + EXOTIC, "%=:\"'\\ \t\x0b\x0c\x1c\x1f\x85\u2028\u00a0\u2003\u3000")])
    name = "X" + nc + "X"
    es = []
    for i, op in enumerate([sx.choice("op", setenv.ENVOPS), "module-load", "module-swap"]):
        es.append(Op(op, [name], v))
    es += [Op("module-use", [], v), Op("envvar-set", ["X"], "1"), Op("envvar-remove", ["X" + d.strip()], None)]
    sx.assume(d != ":")
    secs = [("A", es)]
    s = mod.SetEnvironment(sx.file("env.ini", render(secs)))
    r = sx.attempt(lambda: s.parse_section("A"))
    sx.observe(r.kind, s.actions.get("A"))
    sx.require(r.ok, "parsing raised " + r.kind)
    sx.require_eq(s.actions["A"], setenv.actions(secs, "A"), "actions")


def repeated(sx, kinds):
    """The same operation met again counts again."""
    from lib import Use, Opt
    mod = sx.module("setenvironment")
    (n, es), = setenv.sections(sx, ["B"], [2], kinds, ["X"], ["gcc"], lambda t: "v")
    mid = setenv.sections(sx, ["m"], [1], kinds + ["rmvar", "rmmod"], ["X"], ["gcc"], lambda t: sx.choice(t + ".v", ["v", "w"]))[0][1]
    sx.assume(distinct_keys([(n, es)]))
    secs = [("A", [Use("B")] + mid + [Use("B", "'")] + [Use("C")]), ("B", es), ("C", [Opt("k", "1"), Use("B")])]
    sx.assume(distinct_keys(secs))
    s = mod.SetEnvironment(sx.file("env.ini", render(secs)))
    for i in range(2):
        r = sx.attempt(lambda: s.parse_section("A"))
        sx.observe(r.kind, s.actions.get("A"))
        sx.require(r.ok, "parsing raised " + r.kind)
        sx.require_eq(s.actions["A"], setenv.actions(secs, "A"), "actions")


def default(sx):
    """The operations of the default section come first, each time."""
    from lib import Use
    mod = sx.module("setenvironment")
    secs = setenv.sections(sx, ["A", "DEFAULT"], [2, 2], ["envvar-append", "module-load", "rmvar"], ["X"], ["gcc"],
                           lambda t: sx.word(t + ".v", ["ab"]))
    secs.append(("B", [Use("A"), Use("A", "'")]))
    s = mod.SetEnvironment(sx.file("env.ini", render(secs)))
    s.exception_control_silent_warnings = True
    sx.capture()
    for i in range(2):
        root = sx.choice("root%d" % i, ["A", "B", "DEFAULT"])
        r = sx.attempt(lambda: s.parse_section(root))
        sx.require(r.ok, "parsing raised " + r.kind)
        full = [(n, ([] if n == "DEFAULT" or n != root else [Use("DEFAULT")]) + es) for n, es in secs]
        sx.observe(s.actions)
        sx.require_eq(s.actions[root], setenv.actions(full, root), "actions of " + root)


def text(sx):
    """Names and values arrive as written."""
    mod = sx.module("setenvironment")
    op = sx.choice("op", setenv.ENVOPS)
    name = sx.string("name", 1, 2, "aA_-1")
    val = sx.string("val", 0, 3, "a$\\':#\"")
    sx.assume(val == val.strip('"').strip() and val[:1] not in (":", "="))
    t = "[A]\n" + op + " " + name + " : " + val + "\nmodule-load " + name + ": " + val + "\nmodule-use: " + val + "\n"
    s = mod.SetEnvironment(sx.file("env.ini", t))
    r = sx.attempt(lambda: s.parse_section("A"))
    sx.require(r.ok, "parsing raised " + r.kind)
    sx.observe(s.actions["A"])
    sx.require_eq(s.actions["A"], [
        {"op": op.replace("-", "_"), "envvar": name, "value": val},
        {"op": "module_load", "module": name, "value": val},
        {"op": "module_use", "module": None, "value": val}], "actions")


def reload(sx):
    """Other files, other actions."""
    mod = sx.module("setenvironment")
    p1 = sx.file("a.ini", "[A]\nenvvar-set X: " + sx.word("v1", ["pq"]) + "\n[B]\nenvvar-unset X\n")
    v2 = sx.word("v2", ["pq"])
    p2 = sx.file("b.ini", "[A]\nenvvar-set Y: " + v2 + "\n[C]\nuse NO\n")
    s = mod.SetEnvironment(p1)
    sx.capture()
    for i in range(2):
        how = sx.choice("how%d" % i, ["parse", "apply", "script", "data", "none"])
        sec = sx.choice("sec%d" % i, ["A", "B"])
        sx.environ({"HOME": "/"})
        if how == "parse":
            s.parse_section(sec)
        elif how == "apply":
            s.apply(sec)
        elif how == "script":
            s.generate_actions_script(sec)
        elif how == "data":
            s.configparserenhanceddata[sec]
    s.inifilepath = p2
    sx.require_eq(s.actions, {}, "actions after assigning another file")
    what = sx.choice("what", ["apply", "script"])
    sec = sx.choice("sec", ["A", "B", "C"])
    sx.environ({"HOME": "/"})
    import logging
    sx.patch(logging, "exception", lambda *a, **k: None)
    r = sx.attempt(lambda: s.apply(sec) if what == "apply" else s.generate_actions_script(sec, interp="python", incl_hdr=False))
    env = dict(sx.env_items())
    sx.observe(r.kind, env)
    if sec != "A":
        sx.require_eq(r.kind, "KeyError", "section that is missing or cannot be parsed")
        sx.require_eq(env, {"HOME": "/"}, "environment")
    else:
        sx.require(r.ok, "raised " + r.kind)
        if what == "apply":
            sx.require_eq(env, {"HOME": "/", "Y": v2}, "environment")
        else:
            cmds = [l for l in r.value.split("\n") if l.startswith("envvar_op")]
            sx.require_eq(cmds, ['envvar_op("set","Y","' + v2 + '")'], "commands")


SCENARIOS = [
    dict(name="list-4", fn="listed", paths=SEV,
         kw=dict(names=["A"], sizes=[4], kinds=["envvar-set", "module-load", "rmvar", "rmmod"], roots=["A"]),
         bounds="4 operations of 4 kinds"),
    dict(name="similar", fn="listed", paths=SEV,
         kw=dict(names=["A"], sizes=[3], kinds=["envvar-set", "module-load", "module-swap", "rmvar", "rmmod"],
                 roots=["A"], varnames=["X", "x", "XX"], mods=["gcc", "GCC", "gcc2"]),
         bounds="3 operations of 5 kinds on similar names"),
    dict(name="removal", fn="removal", paths=SEV,
         bounds="2 removals of names of 1..4 characters over 5 after or before one of 9 operations"),
    dict(name="wide", fn="wide", paths=SEV, bounds="any character in values, almost any in names"),
    dict(name="repeated", fn="repeated", paths=SEV, kw=dict(kinds=setenv.ENVOPS[:4] + setenv.MODOPS),
         bounds="2 operations of 9 kinds met three times, one more in between"),
    dict(name="default", fn="default", paths=SEV, bounds="2 operations in a section and 2 in DEFAULT, parsed twice"),
    dict(name="kinds", fn="listed", paths=SEV,
         kw=dict(names=["A"], sizes=[2], kinds=setenv.ENVOPS + setenv.MODOPS + ["rmvar", "rmmod", "opt"], roots=["A"]),
         bounds="2 options of 17 kinds"),
    dict(name="linked", fn="listed", paths=SEV,
         kw=dict(names=["A", "B"], sizes=[2, 2], kinds=["envvar-append", "module-swap", "rmvar", "rmmod", "use"],
                 roots=["A", "B", "A"]),
         bounds="2 sections x 2 operations with links, parsed in turn"),
    dict(name="text", fn="text", paths=SEV, bounds="names of 1..2, values of 0..3 symbolic characters"),
    dict(name="reload", fn="reload", paths=SEV, bounds="2 uses of the first file, then another file"),
    dict(name="linked-3", fn="listed", paths=SEV, tiers=("thorough",),
         kw=dict(names=["A", "B"], sizes=[3, 2], kinds=["envvar-append", "module-swap", "rmvar", "rmmod", "use"],
                 roots=["A", "B"]), bounds="3 and 2 operations"),
]
