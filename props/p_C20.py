"""C20: applying a section performs its actions, in order, and no others."""
from lib import SEV, PRINT, EXOTIC, without, Op, render, expand, Use
import envref
import setenv

ASSUMPTIONS = ["the module command and the search for executables are stand-ins",
               "every operation has the arguments it needs"]
WIDE = without(PRINT + EXOTIC, "%")
NAMES = without(PRINT + EXOTIC, "%=:\"'\\ \t\x0b\x0c\x1c\x1f\x85\u2028\u00a0\u2003\u3000\x00")
EXES = {"a": "/opt/a", "ab": "/opt/ab"}


def run(sx, secs, root, env, fail, level, times=1):
    """Apply a section; fail: status of each module command (0 where missing)."""
    mod = sx.module("setenvironment")
    mh = sx.module("setenvironment.ModuleHelper")
    calls = []

    def module(command, *arguments):
        calls.append([command] + list(arguments))
        return fail[len(calls) - 1] if len(calls) <= len(fail) else 0
    sx.patch(mh, "module", module)
    envref.stub_search(sx, EXES)
    s = mod.SetEnvironment(sx.file("env.ini", render(secs)))
    s.exception_control_level = level
    s.exception_control_silent_warnings = True
    sx.capture()
    sx.environ(env)
    sx.assume(level < 5 or not expand(secs, root)[2])
    acts = setenv.actions(secs, root)
    want = dict(env)
    wcalls = []
    for i in range(times):
        r = sx.attempt(lambda: s.apply(root))
        after = dict(sx.env_items())
        sx.observe(r.kind, r.value, after, calls)
        kind, rv = "ok", []
        for a in acts:
            if "envvar" in a:
                try:
                    want = envref.op(want, a["op"][7:], a["envvar"], a["value"], EXES)
                except envref.Refused:
                    kind = "ValueError"
                    break
            else:
                wcalls.append(setenv.module_args(a))
                if len(wcalls) <= len(fail) and fail[len(wcalls) - 1] != 0:
                    rv.append(fail[len(wcalls) - 1])
                    if level >= 2:
                        kind = "RuntimeError"
                        break
        sx.require_eq(r.kind, kind, "apply")
        if kind == "ok":
            if rv:
                sx.require(any(r.value == x for x in rv), "result of apply is the status of a failed command")
            else:
                sx.require_eq(r.value, 0, "result of apply")
        sx.require_eq(calls, wcalls, "module commands")
        sx.require_eq(after, want, "environment")


def envvars(sx, size, kinds, vals):
    env = {"Y": "y:a", "HOME": "/"}
    if sx.bool("X"):
        env["X"] = sx.choice("x", ["", "a:b"])
    secs = setenv.sections(sx, ["A"], [size], kinds, ["X", "Y"], ["gcc"], lambda t: sx.choice(t + ".v", vals))
    run(sx, secs, "A", env, [], 4)


def quoting(sx, n, chars):
    """Values arrive in the environment as written."""
    op = sx.choice("op", ["envvar-set", "envvar-append", "envvar-remove-substr", "envvar-find-in-path"])
    v = sx.string("v", 0, n, chars)
    sx.assume(v == v.strip().strip('"').strip())
    m = sx.string("m", 1, 2, "a\\'")
    secs = [("A", [Op(op, ["X"], v), Op("module-use", [], v), Op("module-load", [m], "1")])]
    sx.assume(not any(c in m for c in "'\\"))
    run(sx, secs, "A", {"X": "a'", "V": "v"}, [], 4)


def multiline(sx):
    mod = sx.module("setenvironment")
    a = sx.string("a", 1, 2, "a\"\\n'{")
    b = sx.string("b", 1, 2, "b\"\\t'{")
    s = mod.SetEnvironment(sx.file("e.ini", "[A]\nenvvar-set X: m" + a + "m\n    m" + b + "m\n"))
    sx.environ({})
    r = sx.attempt(lambda: s.apply("A"))
    sx.observe(r.kind, dict(sx.env_items()))
    sx.require_eq((r.kind, r.value), ("ok", 0), "apply")
    sx.require_eq(dict(sx.env_items()), {"X": "m" + a + "m\nm" + b + "m"}, "environment")


def modules(sx, size):
    secs = setenv.sections(sx, ["A", "B"], [size, 1],
                           ["module-load", "module-purge", "module-swap", "module-unload", "envvar-set", "use"],
                           ["X"], ["gcc"], lambda t: "v" + t)
    run(sx, secs, "A", {"X": "old"}, [sx.int("status%d" % i, -2, 3) for i in range(3)], sx.int("level", 0, 5))


def wide(sx):
    """Any character in values, names, module names and versions."""
    what = sx.choice("what", ["value", "name"])
    op = sx.choice("op", setenv.ENVOPS)
    n, m, v = "X", "gcc", "v"
    if what == "value":
        v = sx.choice("pre", ["", "p"]) + sx.string("c", 1, 1, WIDE) + sx.string("d", 0, 1, " a:{") + "q"
        sx.assume(v == v.strip().strip('"').strip())
    else:
        m = n = "X" + sx.string("c", 1, 1, NAMES) + sx.choice("rest", ["", "X", "/1"])
    how = sx.choice("mod", ["load", "swap", "use", "unload"])
    if how == "load":
        mod = Op("module-load", [m], v)
    elif how == "swap":
        mod = Op("module-swap", ["g" + m], v)
    elif how == "unload":
        mod = Op("module-unload", [m], None)
    else:
        mod = Op("module-use", [], v)
    secs = [("A", [Op(op, [n], None if op == "envvar-unset" else v), mod])]
    run(sx, secs, "A", {"X": "pq:pq", "XX": "1", "aq": "z"}, [], 4)


def similar(sx):
    """Variables with similar names are other variables."""
    names = ["X", "x", "XX", "X_1"]
    env = {"x": "ax"}
    for n in ["X", "XX"]:
        if sx.bool("has " + n):
            env[n] = "a" + n
    ops = []
    for i in range(2):
        op = sx.choice("op%d" % i, setenv.ENVOPS)
        v = sx.choice("v%d" % i, ["aX", "$x:$XX${X_1}"])
        ops.append(Op(op, [sx.choice("n%d" % i, names)], None if op == "envvar-unset" else v))
    sx.assume(ops[0].key != ops[1].key)
    run(sx, [("A", ops)], "A", env, [], 4)


def already(sx):
    """Actions are carried out also where their effect seems to be there."""
    v = sx.choice("v", ["$AB", "${AB}:$AB", "AB", "c", "$AB:c", "/a/$AB", "$$AB"])
    op = sx.choice("op", setenv.ENVOPS)
    env = {"AB": sx.choice("AB", ["c", "$AB", "AB", ""])}
    old = sx.choice("old", ["same", "bare", "expanded", "ends", "starts", "other"])
    full = envref.op(dict(env), "set", "X", v, EXES)["X"]
    env["X"] = {"same": v, "bare": v.replace("$", ""), "expanded": full, "ends": "p:" + full, "starts": full + ":p", "other": "p"}[old]
    twice = sx.bool("twice")
    ops = [Op(op, ["X"], None if op == "envvar-unset" else v)]
    if twice:
        ops += [Op("module-purge", [], None), Op("envvar-append", ["X"], v), Op("envvar-set", ["AB"], "z")]
    sx.assume(len(ops) == 1 or op != "envvar-append")
    run(sx, [("A", ops)], "A", env, [], 4, times=2 if twice else 1)


def again(sx):
    """Applying twice performs the actions twice."""
    secs = setenv.sections(sx, ["A", "B"], [2, 1], ["envvar-append", "envvar-prepend", "envvar-unset", "module-load",
                                                     "use", "rmvar"],
                           ["X", "Y"], ["gcc"], lambda t: sx.word(t + ".v", ["ab"]))
    run(sx, secs, sx.choice("root", ["A", "B"]), {"X": "a"}, [], 4, times=2)


def repeated(sx):
    """Operations met again, through sections used several times, are carried out again."""
    def op(t, kinds):
        k = sx.choice(t, kinds)
        return {"purge": Op("module-purge", [], None), "load": Op("module-load", ["m"], "1"),
                "unload": Op("module-unload", ["m"], None), "swap": Op("module-swap", ["m"], "n"),
                "umask": Op("module-use", [], "/p"), "set": Op("envvar-set", ["X"], "1"),
                "append": Op("envvar-append", ["X"], "1"), "prepend": Op("envvar-prepend", ["X"], "$X"),
                "unset": Op("envvar-unset", ["X"], None), "remove": Op("envvar-remove-substr", ["X"], "1")}[k]
    kinds = ["purge", "load", "unload", "swap", "umask", "set", "append", "prepend", "unset", "remove"]
    a = op("op", kinds)
    b = op("mid", ["purge", "load", "append", "set"])
    secs = [("A", [Use("B"), Op("envvar-append", ["Y"], "0"), Use("C"), Use("D")]), ("B", [a]), ("C", [b, Use("B")]),
            ("D", [Use("B"), Use("C")] if sx.bool("more") else [Op("module-purge", [], None)])]
    run(sx, secs, "A", {"X": "1"}, [sx.int("status%d" % i, -1, 1) for i in range(3)], sx.choice("level", [0, 4]))


def missing(sx):
    """A section that is not there, or not parsable, applies nothing."""
    mod = sx.module("setenvironment")
    import logging
    sx.patch(logging, "exception", lambda *a, **k: None)
    s = mod.SetEnvironment(sx.file("e.ini", "[A]\nenvvar-set X: 1\nuse NO\n[B]\nenvvar-set X: 2\n"))
    n = sx.string("n", 1, 2, "ABC")
    sx.environ({"X": "0"})
    for i in range(2):
        r = sx.attempt(lambda: s.apply(n))
        sx.observe(r.kind)
        sx.require_eq(r.kind, "ok" if n == "B" else "KeyError", "apply")
        sx.require_eq(dict(sx.env_items()), {"X": "2" if n == "B" else "0"}, "environment")


SCENARIOS = [
    dict(name="envvars-2", fn="envvars", paths=SEV,
         kw=dict(size=2, kinds=setenv.ENVOPS, vals=["", "a", "b:$Y", "${X}"]),
         bounds="2 operations of 9 kinds on 2 variables"),
    dict(name="envvars-3", fn="envvars", paths=SEV,
         kw=dict(size=3, kinds=["envvar-set", "envvar-append", "envvar-unset"], vals=["a", "$Y:b"]),
         bounds="3 operations of 3 kinds on 2 variables"),
    dict(name="quoting", fn="quoting", paths=SEV, kw=dict(n=2, chars="a\"\\'{$Vn"),
         bounds="values of 0..2 characters over 8"),
    dict(name="multiline", fn="multiline", paths=SEV, bounds="2 lines of 1..2 symbolic characters"),
    dict(name="modules", fn="modules", paths=SEV, kw=dict(size=2), bounds="up to 3 actions, every command with status -2..3, all levels"),
    dict(name="wide", fn="wide", paths=SEV, bounds="any character in values and almost any in names of 13 operations"),
    dict(name="similar", fn="similar", paths=SEV, bounds="2 operations of 9 kinds on 4 similar variables"),
    dict(name="already", fn="already", paths=SEV, bounds="9 operations, 7 values, variable holding 6 values related to it, once or twice"),
    dict(name="repeated", fn="repeated", paths=SEV, bounds="10 x 4 operations met up to 4 times, 3 symbolic statuses"),
    dict(name="again", fn="again", paths=SEV, bounds="2 sections, applied twice"),
    dict(name="missing", fn="missing", paths=SEV, bounds="section names of 1..2 characters, twice"),
    dict(name="quoting-3", fn="quoting", paths=SEV, kw=dict(n=3, chars="a\"\\'{$Vn"), tiers=("thorough",),
         bounds="values of 0..3 characters over 8"),
    dict(name="envvars-3a", fn="envvars", paths=SEV, tiers=("thorough",),
         kw=dict(size=3, kinds=setenv.ENVOPS, vals=["", "a", "${X}"]), bounds="3 operations of 9 kinds"),
]
