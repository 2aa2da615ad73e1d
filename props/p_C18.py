"""C18: what each environment variable operation does to the environment."""
from lib import SEV, PRINT, EXOTIC, without, Op, render
import envref

ASSUMPTIONS = ["the search for executables is a stand-in answering from a table",
               "unset and assert_not_empty are not asked to refuse empty values"]
OPS = ["set", "set_if_empty", "append", "prepend", "remove_substr", "remove_path_entry", "unset",
       "find_in_path", "assert_not_empty"]
WIDE = without(PRINT + EXOTIC, "%")
EXES = {"ls": "/bin/ls", "a": "/opt/a", "b": "/opt/x/b"}


def check(sx, fn, env, call, want_of, what):
    sx.environ(env)
    r = sx.attempt(call)
    after = dict(sx.env_items())
    sx.observe(r.kind, after)
    try:
        want = want_of()
    except envref.Refused:
        sx.require_eq(r.kind, "ValueError", what + " must be refused")
        sx.require_eq(after, env, "environment after a refused " + what)
        return r
    sx.require_eq((r.kind, r.value), ("ok", 0), what)
    sx.require_eq(after, want, "environment after " + what)
    return r


def state(sx, olen, chars):
    env = {"V": "keep", "PATH": "/bin:/usr/bin"}
    how = sx.choice("old", ["unset", "set"])
    if how == "set":
        env["X"] = sx.string("x", 0, olen, chars)
    return env


def values(sx, ops, olen, vlen, chars):
    mod = sx.module("setenvironment")
    envref.stub_search(sx, EXES)
    name = sx.choice("op", ops)
    env = state(sx, olen, chars)
    value = sx.string("value", 0, vlen, chars)
    check(sx, mod, env, lambda: mod.envvar_op(name, "X", value),
          lambda: envref.op(env, name, "X", value, EXES), name)


def wide(sx):
    """Any character, in the old value, the new value and the name."""
    mod = sx.module("setenvironment")
    envref.stub_search(sx, EXES)
    name = sx.choice("op", OPS)
    c = sx.string("c", 1, 1, WIDE)
    d = sx.choice("d", ["", "a", ".", "*"])
    old = sx.choice("old", [None, "a" + c + "b:" + c + "a.x", c + ":a:" + c])
    var = "X" + sx.choice("n", ["", "x", "-"])
    env = {"V": "keep", "a": "1", "b": "2", "x": "3"}
    if old is not None:
        env[var] = old
    value = sx.choice("pre", ["", "a"]) + c + d
    check(sx, mod, env, lambda: mod.envvar_op(name, var, value), lambda: envref.op(env, name, var, value, EXES), name)


def section(sx):
    """The operation as an option of a section, applied."""
    mod = sx.module("setenvironment")
    envref.stub_search(sx, EXES)
    opt = sx.choice("op", OPS)
    var = sx.choice("var", ["X", "x", "XX", "x1"])
    env = {"X": sx.string("x", 0, 2, "a:"), "XX": "xx:a", "x1": ""}
    value = sx.string("pre", 0, 1, "a:") + sx.string("c", 0, 1, WIDE) + sx.choice("post", ["", "a", "$X", "{x1}"])
    sx.assume(value == value.strip().strip('"').strip())
    noval = sx.bool("no value") if opt in ("unset", "assert_not_empty") else False
    words = [var] + sx.choice("more words", [[], ["V"]])
    o = Op("envvar-" + opt.replace("_", "-"), words, None if noval else value)
    s = mod.SetEnvironment(sx.file("e.ini", render([("A", [o])])))
    check(sx, mod, env, lambda: s.apply("A"),
          lambda: envref.op(env, opt, var, "" if noval else value, EXES), opt)


def steps(sx):
    """Operations one after the other: each sees the environment as it is."""
    mod = sx.module("setenvironment")
    envref.stub_search(sx, EXES)
    env = {"X": "a:b"}
    for i in range(3):
        name = sx.choice("op%d" % i, ["set", "append", "unset", "remove_path_entry", "set_if_empty", "assert_not_empty"])
        var = sx.choice("var%d" % i, ["X", "x"])
        value = sx.choice("v%d" % i, ["a", "$X:$x"])
        want = env
        sx.environ(env)
        r = sx.attempt(lambda: mod.envvar_op(name, var, value))
        try:
            want = envref.op(env, name, var, value, EXES)
            sx.require_eq((r.kind, r.value), ("ok", 0), name)
        except envref.Refused:
            sx.require_eq(r.kind, "ValueError", name + " must be refused")
        env = dict(sx.env_items())
        sx.observe(env)
        sx.require_eq(env, want, "environment after " + name)


def empties(sx):
    """allow_empty=False refuses to assign the empty value."""
    mod = sx.module("setenvironment")
    envref.stub_search(sx, EXES)
    name = sx.choice("op", [o for o in OPS if o not in ("unset", "assert_not_empty")])
    env = state(sx, 2, "a:")
    value = sx.string("value", 0, 1, "a:z")
    ae = sx.bool("allow")

    def want():
        if value == "" and not ae:
            raise envref.Refused()
        return envref.op(env, name, "X", value, EXES, ae)
    check(sx, mod, env, lambda: mod.envvar_op(name, "X", value, allow_empty=ae), want, name)


def plain(sx):
    """envvar_set and envvar_set_if_empty take the value as it is."""
    mod = sx.module("setenvironment")
    which = sx.choice("fn", ["set", "set_if_empty"])
    fn = mod.envvar_set if which == "set" else mod.envvar_set_if_empty
    env = state(sx, 1, "a ")
    value = sx.string("value", 0, 2, "a$V{")
    ae = sx.bool("allow")

    def want():
        if value == "" and not ae:
            raise envref.Refused()
        e = dict(env)
        if which == "set" or not e.get("X"):
            e["X"] = value
        return e
    check(sx, mod, env, lambda: fn("X", value, ae), want, which)


def references(sx, ops):
    """References to variables in values."""
    mod = sx.module("setenvironment")
    envref.stub_search(sx, EXES)
    name = sx.choice("op", ops)
    env = state(sx, 2, "a:V$")
    env["V"] = sx.string("v", 0, 2, "a:$X")
    pre = sx.string("pre", 0, 1, "a:")
    ref = sx.choice("ref", ["$V", "${V}", "$X", "${X}", "$NO", "${NO}", "$", "${V", "$$V", "$V$X", "{V}", "$Va", "${}"])
    post = sx.string("post", 0, 1, "a:")
    value = pre + ref + post
    check(sx, mod, env, lambda: mod.envvar_op(name, "X", value),
          lambda: envref.op(env, name, "X", value, EXES), name + " " + value)


def refused(sx):
    """Unknown operations and arguments of wrong type change nothing."""
    mod = sx.module("setenvironment")
    env = state(sx, 1, "a")
    what = sx.choice("what", ["op", "name", "value", "flag", "setname", "setvalue", "setflag", "eset", "esetflag"])
    bad = sx.choice("bad", [None, 5, ["a"], b"a"])
    sx.environ(env)
    kind = "TypeError"
    if what == "op":
        op = sx.string("badop", 1, 3, "setunap")
        sx.assume(op not in OPS)
        r = sx.attempt(lambda: mod.envvar_op(op, "X", "v"))
        kind = "ValueError"
    elif what == "name":
        r = sx.attempt(lambda: mod.envvar_op(sx.choice("op", OPS), bad, "v"))
    elif what == "value":
        r = sx.attempt(lambda: mod.envvar_op(sx.choice("op", OPS), "X", bad))
    elif what == "flag":
        r = sx.attempt(lambda: mod.envvar_op(sx.choice("op", OPS), "X", "v", bad))
    elif what == "setname":
        r = sx.attempt(lambda: mod.envvar_set(bad, "v"))
    elif what == "setvalue":
        r = sx.attempt(lambda: mod.envvar_set("X", bad))
    elif what == "setflag":
        r = sx.attempt(lambda: mod.envvar_set("X", "v", bad))
    elif what == "eset":
        r = sx.attempt(lambda: mod.envvar_set_if_empty("X", bad))
    else:
        r = sx.attempt(lambda: mod.envvar_set_if_empty("X", "v", bad))
    sx.observe(r.kind)
    sx.require_eq(r.kind, kind, "bad " + what)
    sx.require_eq(dict(sx.env_items()), env, "environment after bad " + what)


def message(sx):
    """assert_not_empty carries the message given."""
    mod = sx.module("setenvironment")
    env = state(sx, 1, "a")
    msg = sx.string("msg", 0, 3, "ab {")
    sx.environ(env)
    r = sx.attempt(lambda: mod.envvar_op("assert_not_empty", "X", msg))
    if env.get("X"):
        sx.require_eq((r.kind, r.value), ("ok", 0), "variable is not empty")
    else:
        sx.require_eq(r.kind, "ValueError", "variable is empty")
        if msg != "":
            sx.require_eq(str(r.exc), msg, "message")
        else:
            sx.require("X" in str(r.exc), "message names the variable")
    sx.observe(r.kind, str(r.exc))
    f = sx.choice("exe", ["ls", "nothing"])
    envref.stub_search(sx, EXES)
    r = sx.attempt(lambda: mod.envvar_find_in_path(f))
    if f == "ls":
        sx.require_eq((r.kind, r.value), ("ok", "/bin/ls"), "executable")
    else:
        sx.require_eq(r.kind, "FileNotFoundError", "no such executable")


SCENARIOS = [
    dict(name="values", fn="values", paths=SEV, kw=dict(ops=OPS, olen=4, vlen=2, chars="ab:"),
         bounds="9 operations, old value unset or 0..4 characters, value of 0..2 characters over 3"),
    dict(name="remove", fn="values", paths=SEV,
         kw=dict(ops=["remove_substr", "remove_path_entry"], olen=6, vlen=3, chars="a:"),
         bounds="removals from values of 0..6 characters"),
    dict(name="references", fn="references", paths=SEV, kw=dict(ops=["set", "append", "prepend", "remove_substr"]),
         bounds="13 forms of reference between up to 1 character, variables of 0..2 characters"),
    dict(name="wide", fn="wide", paths=SEV, bounds="any character in old and new value of 9 operations"),
    dict(name="section", fn="section", paths=SEV, bounds="9 operations as options, 4 similar variables, any character"),
    dict(name="steps", fn="steps", paths=SEV, bounds="3 operations of 6 kinds on 2 variables"),
    dict(name="empties", fn="empties", paths=SEV, bounds="7 operations, allow_empty on and off"),
    dict(name="plain", fn="plain", paths=SEV, bounds="values of 0..2 characters"),
    dict(name="refused", fn="refused", paths=SEV, bounds="operation names of 1..3 characters, 4 bad types"),
    dict(name="message", fn="message", paths=SEV, bounds="messages of 0..3 characters"),
    dict(name="remove-7", fn="values", paths=SEV, tiers=("thorough",),
         kw=dict(ops=["remove_substr", "remove_path_entry"], olen=7, vlen=3, chars="ab:"),
         bounds="removals from values of 0..7 characters"),
    dict(name="references-all", fn="references", paths=SEV, tiers=("thorough",),
         kw=dict(ops=[o for o in OPS if o != "find_in_path"]), bounds="as references, 8 operations"),
]
