"""Symbolic SetEnvironment sections and their reference meaning."""
from lib import Opt, Use, Op, render, expand, distinct_keys

ENVOPS = ["envvar-set", "envvar-append", "envvar-prepend", "envvar-unset", "envvar-set-if-empty",
          "envvar-remove-substr", "envvar-remove-path-entry", "envvar-find-in-path", "envvar-assert-not-empty"]
MODOPS = ["module-load", "module-unload", "module-swap", "module-purge", "module-use"]


def entry(sx, t, kinds, names, varnames, mods, val):
    """One option. val(t): a value."""
    k = sx.choice(t + ".kind", kinds)
    if k == "use":
        return Use(sx.choice(t + ".to", names))
    if k == "opt":
        return Opt("plain " + t, "x")
    if k == "rmvar":
        return Op("envvar-remove", [sx.choice(t + ".var", varnames)], None)
    if k == "rmmod":
        return Op("module-remove", [sx.choice(t + ".mod", mods)], None)
    if k == "module-purge":
        return Op(k, [], None)
    if k == "module-use":
        return Op(k, [], "/path/" + t)
    if k == "module-load":
        return Op(k, [sx.choice(t + ".mod", mods)], sx.choice(t + ".ver", [None, "", "1.2"]))
    if k == "module-unload":
        return Op(k, [sx.choice(t + ".mod", mods)], None)
    if k == "module-swap":
        m = sx.choice(t + ".mod", mods)
        return Op(k, [m], sx.choice(t + ".mod2", mods) + "/9")
    v = None
    if k not in ("envvar-unset",):
        v = val(t)
    return Op(k, [sx.choice(t + ".var", varnames)], v)


def sections(sx, names, sizes, kinds, varnames, mods, val):
    secs = []
    for n, size in zip(names, sizes):
        es = []
        for i in range(size):
            es.append(entry(sx, n + str(i), kinds, names, varnames, mods, val))
        secs.append((n, es))
    sx.assume(distinct_keys(secs))
    return secs


def named(a, m):
    """Does a module action name module m?"""
    if a["module"] == m:
        return True
    v = a["value"]
    return a["op"] == "module_swap" and v is not None and (v == m or v.startswith(m + "/"))


def actions(secs, root):
    out = []
    for sec, op, params, value in expand(secs, root)[1]:
        o = op.replace("-", "_")
        if o == "envvar_remove":
            out = [a for a in out if a.get("envvar") != params[0]]
        elif o == "module_remove":
            out = [a for a in out if "module" not in a or not named(a, params[0])]
        elif o.startswith("envvar"):
            if o == "envvar_assert_not_empty" and value is None:
                value = ""
            out.append({"op": o, "envvar": params[0], "value": value})
        else:
            out.append({"op": o, "module": params[0] if params else None, "value": value})
    return out


def module_args(a):
    """Arguments of the module command an action stands for."""
    o = a["op"][7:]
    if o == "purge":
        return ["purge"]
    if o == "use":
        return ["use", a["value"]]
    if o == "unload":
        return ["unload", a["module"]]
    if o == "swap":
        return ["swap", a["module"], a["value"]]
    if a["value"] is None or a["value"] == "":
        return ["load", a["module"]]
    return ["load", a["module"] + "/" + a["value"]]
