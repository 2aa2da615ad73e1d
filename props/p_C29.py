"""C29: printed listings show what is there and hide what was not asked for."""
from lib import CORE, SEV, PRINT, EXOTIC, without, Op, render
import setenv

ASSUMPTIONS = ["the layout of lines is not checked beyond names and values"]
MARK = "[envvar]:"


def entries(out):
    """(name, value or None) per line."""
    r = []
    for l in out.split("\n"):
        if l.startswith(MARK):
            l = l[len(MARK):].strip(" ")
            n, e, v = l.partition(" = ")
            if e == "" and l.endswith(" ="):
                n, e, v = l[:-2], "=", ""
            r.append((n, None if e == "" else v))
    return r


def envvars(sx, nlen, vlen, nf, both):
    """Values of variables the filter does not name are never shown."""
    mod = sx.module("setenvironment")
    s = mod.SetEnvironment(sx.file("e.ini", "[A]\n"))
    names = [sx.string("n%d" % i, 1, nlen, "AB_") for i in range(2)]
    sx.assume(names[0] != names[1])
    vals = [sx.string("v%d" % i, 0, vlen, "x=") for i in range(2)]
    env = dict(zip(names, vals))
    sx.environ(env)
    n = sx.choice("filters", nf)
    flt = None if n is None else [sx.string("f%d" % i, 1, 2, "AB_") for i in range(n)]
    only = sx.choice("only", [False, True])
    out = sx.capture()
    for i in range(2 if both else 1):
        r = sx.attempt(lambda: s.pretty_print_envvars(flt, only) if sx.bool("pos%d" % i)
                       else s.pretty_print_envvars(envvar_filter=flt, filtered_keys_only=only))
        sx.observe(r.kind, r.value)
        sx.require_eq((r.kind, r.value), ("ok", 0), "result")
        got = entries(out.getvalue())
        want = []
        for k in names:
            hit = flt is None or any(f in k for f in flt)
            if hit:
                want.append((k, env[k]))
            elif not only:
                want.append((k, None))
        sx.require_eq(sorted(got), sorted(want * (i + 1)), "variables shown")
    sx.require_eq(dict(sx.env_items()), env, "environment")


def wide(sx):
    """Names, values and filters with any character; letter case matters."""
    mod = sx.module("setenvironment")
    s = mod.SetEnvironment(sx.file("e.ini", "[A]\n"))
    where = sx.choice("where", ["name", "value", "filter"])
    c = sx.string("c", 1, 1, without(PRINT + EXOTIC, "=" if where == "name" else ""))
    n = "Ab" + (c if where == "name" else "") + "K"
    sx.assume(n.strip() == n and " = " not in n)
    v = "s" + (c if where == "value" else "=") + "t"
    env = {n: v, "x": ""}
    sx.environ(env)
    f = sx.choice("f", ["", "A", "a", "B", "bK", "AbK", "b.K", "b*", "s", "x"]) + (c if where == "filter" else "")
    only = sx.bool("only")
    flt = sx.choice("flt", [[f], ["zz", f], None])
    out = sx.capture()
    r = sx.attempt(lambda: s.pretty_print_envvars(flt, only))
    sx.observe(r.kind)
    sx.require_eq((r.kind, r.value), ("ok", 0), "result")
    if flt is None:
        f = ""
    want = [(k, env[k] if f in k else None) for k in env if f in k or not only]
    got = out.getvalue()
    sx.require_eq(got.count(MARK), len(want), "number of variables")
    for k, w in want:
        line = MARK + " " + k + ("" if w is None else " = " + w)
        sx.require((line + "\n") in got, "line of " + k)


def actwide(sx):
    """Values and names of actions are shown as they are."""
    mod = sx.module("setenvironment")
    c = sx.string("c", 1, 1, without(PRINT + EXOTIC, "%"))
    v = sx.choice("v", ["0", "None", "False", "/", "v" + c + "w", "v" + c + " {}w", "v" + c + "{0}w"])
    n = "X" + sx.choice("n", ["", "x", "-9", "{}"])
    es = [Op("module-load", [n], v), Op("envvar-set", [n], v), Op("module-swap", [n], v), Op("module-use", [], v),
          Op("envvar-append", [n], v), Op("module-purge", [], None), Op("envvar-unset", [n], None),
          Op("module-unload", [n], None)]
    s = mod.SetEnvironment(sx.file("env.ini", render([("A", es)])))
    out = sx.capture()
    r = sx.attempt(lambda: s.pretty_print_actions("A"))
    sx.observe(r.kind, out.getvalue())
    sx.require(r.ok, "raised " + r.kind)
    got = [l for l in out.getvalue().split("\n") if l.startswith("--> ")]
    want = [n + "/" + v, n + '="' + v + '"', n + " " + v, v, n + '="${' + n + "}:" + v + '"', "", n, n]
    ops = ["module_load", "envvar_set", "module_swap", "module_use", "envvar_append", "module_purge", "envvar_unset",
           "module_unload"]
    sx.require_eq([l.partition(" : ")[2] for l in got], want, "names and values")
    sx.require_eq([l.partition(" : ")[0][4:].strip() for l in got], ops, "operations")


def refused(sx):
    mod = sx.module("setenvironment")
    s = mod.SetEnvironment(sx.file("e.ini", "[A]\n"))
    sx.environ({"SECRET": "hidden"})
    out = sx.capture()
    f = sx.choice("filter", ["X", 3, ("X",), {"X": 1}, ["X"], None])
    o = sx.choice("only", [True, False, 1, "yes", None])
    r = sx.attempt(lambda: s.pretty_print_envvars(f, o))
    sx.observe(r.kind)
    ok = (f is None or isinstance(f, list)) and isinstance(o, bool)
    sx.require_eq(r.kind, "ok" if ok else "TypeError", "argument types")
    if not ok or f is not None:
        sx.require("hidden" not in out.getvalue(), "value shown")


def actions(sx, sizes, kinds):
    """The listing of actions is the list of actions."""
    mod = sx.module("setenvironment")
    mh = sx.module("setenvironment.ModuleHelper")
    names = ["A", "B"][:len(sizes)]
    secs = setenv.sections(sx, names, sizes, kinds, ["X", "Y"], ["gcc", "ompi"], lambda t: sx.word(t + ".v", ["ab"]))
    s = mod.SetEnvironment(sx.file("env.ini", render(secs)))
    s.exception_control_silent_warnings = True
    calls = []
    sx.patch(mh, "module", lambda *a: calls.append(a))
    env = {"X": "secret"}
    sx.environ(env)
    out = sx.capture()
    if sx.bool("first"):
        s.parse_section("A")
    n = len(out.getvalue())
    r = sx.attempt(lambda: s.pretty_print_actions("A"))
    text = out.getvalue()[n:]
    sx.observe(r.kind, text)
    sx.require(r.ok, "raised " + r.kind)
    want = setenv.actions(secs, "A")
    ls = [l[4:] for l in text.split("\n") if l.startswith("--> ")]
    sx.require_eq(len(ls), len(want), "number of actions shown")
    for l, a in zip(ls, want):
        op, _, rest = l.partition(" : ")
        sx.require_eq(op.strip(), a["op"], "operation")
        var = a["envvar"] if "envvar" in a else a["module"]
        val = a["value"]
        o = a["op"]
        if o in ("envvar_set", "envvar_set_if_empty", "envvar_find_in_path"):
            sx.require_eq(rest, '%s="%s"' % (var, val), o)
        elif o == "envvar_append":
            sx.require_eq(rest, '%s="${%s}:%s"' % (var, var, val), o)
        elif o == "envvar_prepend":
            sx.require_eq(rest, '%s="%s:${%s}"' % (var, val, var), o)
        elif o in ("envvar_remove_substr", "envvar_remove_path_entry"):
            sx.require("`" + val + "`" in rest and var in rest.split("`")[-2], o)
        elif o in ("envvar_unset", "envvar_assert_not_empty", "module_unload"):
            sx.require_eq(rest.strip(), var, o)
        elif o == "module_load":
            sx.require_eq(rest.strip(), var + " (default)" if val is None or val == "" else var + "/" + val, o)
        elif o == "module_swap":
            sx.require_eq(rest.strip(), var + " " + val, o)
        elif o == "module_use":
            sx.require_eq(rest.strip(), val, o)
        else:
            sx.require_eq(rest.strip(), "", o)
    sx.require_eq((dict(sx.env_items()), calls), (env, []), "printing carries out nothing")
    sx.require_eq(s.actions["A"], want, "actions afterwards")


def missing(sx):
    mod = sx.module("setenvironment")
    s = mod.SetEnvironment(sx.file("env.ini", "[A]\nenvvar-set X: 1\n[B]\nenvvar-set Y: 2\nuse NO\n"))
    out = sx.capture()
    for i in range(2):
        sec = sx.choice("s%d" % i, ["A", "B", "C", 3, None])
        n = len(out.getvalue())
        r = sx.attempt(lambda: s.pretty_print_actions(sec))
        sx.observe(r.kind)
        if sec == "A":
            sx.require(r.ok, "raised " + r.kind)
        else:
            sx.require_eq(r.kind, "KeyError" if sec in ("B", "C") else "TypeError", "section %r" % (sec,))
            sx.require("-->" not in out.getvalue()[n:], "nothing shown")


NAMES = ["handler_alpha", "_handler_alpha", "handler_be_ta", "_handler_be_ta", "_handler_gamma", "handlerdelta",
         "_my_handler_x", "handler_initialize", "handler_finalize", "_handler_initialize"]


def operations(sx, pool, n):
    """The operations listed are those with a handler."""
    mod = sx.module("configparserenhanced")
    have = [sx.choice("h%d" % i, pool) for i in range(n)]
    sx.assume(not any("_" + h in have for h in have if h is not None))

    def handler(self, section_name, handler_parameters):
        return 0

    class Base(mod.ConfigParserEnhanced):
        pass

    class Sub(Base):
        pass
    for i in range(n):
        if have[i] is not None:
            setattr(Base if i % 2 else Sub, have[i], handler)
    c = Sub(sx.file("c.ini", "[A]\n" + "".join(o + " p: 1\n" for o in OPS)))
    want = ["use"]
    for h in have:
        if h is not None:
            b = h[1:] if h.startswith("_") else h
            if b.startswith("handler_") and b not in ("handler_initialize", "handler_finalize"):
                if b[8:].replace("_", "-") not in want:
                    want.append(b[8:].replace("_", "-"))
    sx.capture()
    for i in range(2):
        got = c.get_known_operations()
        sx.observe(got)
        sx.require_eq(sorted(got), sorted(want), "operations")
        msg = c.get_known_operations_message()
        shown = [l.strip("|- '") for l in msg.split("\n")[1:]]
        sx.require_eq(sorted(shown), sorted(want), "operations in the message")
        if i == 0:
            # these are the ones a parse dispatches
            left = dict(c.configparserenhanceddata["A"])
            for o in OPS:
                sx.require_eq(o + " p" in left, o not in want, "dispatch of " + o)


OPS = ["alpha", "be-ta", "gamma", "handlerdelta", "x", "attr", "my-handler-x", "delta"]
SCENARIOS = [
    dict(name="envvars", fn="envvars", paths=SEV, kw=dict(nlen=2, vlen=1, nf=[None, 0, 1], both=False),
         bounds="2 variables with names of 1..2 and values of 0..1 characters, filters of 0..1 texts"),
    dict(name="envvars-2", fn="envvars", paths=SEV, kw=dict(nlen=1, vlen=0, nf=[2, 3], both=True),
         bounds="2 variables, filters of 2..3 texts of 1..2 characters, asked twice"),
    dict(name="wide", fn="wide", paths=SEV, bounds="any character in name, value or filter, 10 filters"),
    dict(name="actwide", fn="actwide", paths=SEV, bounds="any character in the value of 5 of 8 actions"),
    dict(name="refused", fn="refused", paths=SEV, bounds="6 filters, 5 flags"),
    dict(name="actions", fn="actions", paths=SEV,
         kw=dict(sizes=[2], kinds=setenv.ENVOPS + setenv.MODOPS + ["rmvar", "rmmod", "opt"]),
         bounds="2 out of 17 operations"),
    dict(name="actions-use", fn="actions", paths=SEV,
         kw=dict(sizes=[2, 1], kinds=["use", "envvar-set", "envvar-append", "module-load", "module-swap", "rmvar"]),
         bounds="3 operations in 2 linked sections"),
    dict(name="missing", fn="missing", paths=SEV, bounds="2 out of 5 sections in turn"),
    dict(name="operations", fn="operations", paths=CORE, kw=dict(pool=[None] + NAMES, n=2),
         bounds="2 out of 10 handler names in a class and its base"),
    dict(name="operations-3", fn="operations", paths=CORE, kw=dict(pool=[None] + NAMES, n=3), tiers=("thorough",),
         bounds="3 out of 10 handler names"),
    dict(name="actions-3", fn="actions", paths=SEV, tiers=("thorough",),
         kw=dict(sizes=[3], kinds=setenv.ENVOPS[:6] + setenv.MODOPS + ["rmvar", "rmmod"]),
         bounds="3 out of 13 operations"),
]
