"""C23: which configuration files LoadEnv uses."""
from lib import LOD, PRINT, without

ASSUMPTIONS = ["paths without symbolic links"]
KEYS = ["supported-systems", "supported-envs", "environment-specs"]
ATTR = {"supported-systems": "supported_systems_file", "supported-envs": "supported_envs_file",
        "environment-specs": "environment_specs_file"}


def real(base, p):
    import os
    return os.path.realpath(os.path.join(base, p))


def config(sx, states, vlen, chars, over, plain, secs=("load-env", "other", "Load-env"),
           hows=("text", "path", "../conf/", "conf/", ""), form="two"):
    """One key in any of the states, the other two in the plain ones."""
    import os
    mod = sx.module("load_env")
    sec = sx.choice("section", list(secs))
    which = sx.choice("which", [0, 1, 2])
    order = [[0, 1, 2], [2, 0, 1], [1, 2, 0]][which]
    text = "[x]\nsupported-systems: /x\nsupported-envs: /x\nenvironment-specs: /x\n[" + sec + "]\n"
    vals = {}
    for i in order:
        k = KEYS[i]
        st = sx.choice(k, states if i == which else plain)
        if st == "absent":
            continue
        if st == "none":
            text += k + "\n"
            vals[k] = ""
        elif st == "empty":
            text += k + ":\n"
            vals[k] = ""
        else:
            v = sx.string(k + ".v", 1, vlen, chars) if i == which else "r"
            if st == "abs":
                v = "/" + v
            text += k + " : " + v + "\n"
            vals[k] = v
    ini = sx.file("conf/load-env.ini", text)
    base = os.path.dirname(ini)
    argv = []
    want = {}
    os.mkdir(sx.path("cwd"))
    how = sx.choice("ini", list(hows))
    cwd = {"conf/": os.path.dirname(base), "": base}.get(how, sx.path("cwd"))
    os.chdir(cwd)
    for k in KEYS:
        if over and sx.bool(k + ".over"):
            p = sx.choice(k + ".path", ["o/" + k, "/o/" + k])
            argv += ["--" + k, p] if form == "two" else ["--" + k + "=" + p]
            want[k] = real(cwd, p)
        elif k in vals:
            want[k] = real(base, vals[k])
    bad = sec != "load-env" or any(k not in vals or vals[k] == "" for k in KEYS)
    if how == "path":
        from pathlib import Path
        arg = Path(ini)
    else:
        arg = ini if how == "text" else how + "load-env.ini"
    sx.capture()
    r = sx.attempt(lambda: mod.LoadEnv(argv + ["b"], load_env_ini_file=arg))
    sx.observe(r.kind)
    if bad:
        sx.require_eq(r.kind, "ValueError", "incomplete configuration")
        return
    sx.require(r.ok, "raised " + r.kind)
    for k in KEYS:
        sx.require_eq(str(getattr(r.value.args, ATTR[k])), want[k], k)


WIDE = without(PRINT, "%/")


def wide(sx):
    """Any character in the paths and the build name; several objects."""
    import os
    mod = sx.module("load_env")
    sx.environ({"q": "zz", "HOME": "/nohome"})
    pre = sx.choice("pre", ["", "p", "../p"])
    v = pre + sx.string("c", 1, 1, WIDE) + sx.choice("post", ["", "q", "/q.ini", " q"])
    sx.assume(v == v.strip().strip('"').strip() and not v.startswith("#") and not v.startswith(";"))
    sx.assume(v[0] not in "=:" and v != ".")
    which = sx.choice("which", KEYS)
    other = KEYS[(KEYS.index(which) + 1) % 3]
    inis = []
    for i in range(2):
        inis.append(sx.file("conf%d/load-env.ini" % i, "[load-env]\n" +
                            "".join(k + ": " + (v if k == which else "f%d" % i) + "\n" for k in KEYS)))
    os.mkdir(sx.path("cwd"))
    os.chdir(sx.path("cwd"))
    sx.capture()
    over = sx.choice("over", ["no", "same", "other"])
    b = "b" + v if over == "no" else v
    sx.assume(b[0] != "-")
    argv = [b] + ({"no": [], "same": ["--" + which + "=" + v], "other": ["--" + other + "=" + v]}[over])
    given = list(argv)
    les = [mod.LoadEnv(argv, load_env_ini_file=i) for i in inis]
    for i in [1, 0]:
        base = sx.path("conf%d" % i)
        a = les[i].args
        sx.observe(a.build_name)
        sx.require_eq(les[i].build_name, b, "build name")
        for k in KEYS:
            p = real(base, v if k == which else "f%d" % i)
            if (over == "same" and k == which) or (over == "other" and k == other):
                p = real(sx.path("cwd"), v)
            sx.require_eq(str(getattr(a, ATTR[k])), p, k)
    sx.require_eq(argv, given, "list of the caller")


def places(sx):
    """Files of the same name in several directories: the one meant is used."""
    import os
    mod = sx.module("load_env")
    forms = ["f.ini", "./f.ini", "../f.ini", "../../f.ini", "d/../f.ini", "d//f.ini", "~/f.ini", "d/f.ini/", "f", "F.INI", "f.ini #2",
             "$D/f.ini", "f.ini ; d/f.ini", "conf/f.ini", ".", "f*.ini"]
    v = sx.choice("v", forms)
    o = sx.choice("o", [None] + forms[:10] + ["none.ini"])
    which = sx.choice("which", KEYS)
    others = sx.choice("there", ["everywhere", "cwd", "nowhere"])
    text = "[load-env]\n" + "".join(k + ": " + (v if k == which else k + ".ini") + "\n" for k in KEYS)
    ini = sx.file("top/c/conf/load-env.ini", text)
    sx.file("top/w/x", "")
    if others == "everywhere":
        for d in ["top", "top/c", "top/c/conf", "top/c/conf/d", "top/w", "top/w/d", "top/home", "top/c/conf/conf"]:
            for n in ["f.ini", "f"]:
                sx.file(d + "/" + n, "")
    elif others == "cwd":
        for n in ["f.ini", "f", "d/f.ini", "conf/f.ini"]:
            sx.file("top/w/" + n, "")
    os.chdir(sx.path("top/w"))
    sx.environ({"HOME": sx.path("top/home"), "D": "d"})
    arg = sx.choice("arg", [ini, "../c/conf/load-env.ini"])
    sx.capture()
    le = mod.LoadEnv(["b"] + ([] if o is None else ["--" + which, o]), load_env_ini_file=arg)
    got = {k: str(getattr(le.args, ATTR[k])) for k in KEYS}
    conf = sx.path("top/c/conf")
    want = {k: real(conf, k + ".ini") for k in KEYS}
    want[which] = real(conf, v) if o is None else real(sx.path("top/w"), o)
    sx.observe([os.path.relpath(x, sx.path("top")) for x in got.values()])
    sx.require_eq(got, want, "files used")


def arguments(sx, blen, chars):
    """Options and build name of the command line."""
    import os
    mod = sx.module("load_env")
    ini = sx.file("conf/load-env.ini", "[load-env]\n" + "".join(k + ": " + k + ".ini\n" for k in KEYS))
    os.chdir(sx.path("conf"))
    argv = []
    flags = {"list": sx.choice("list", [None, "-l", "--list-envs"]), "force": sx.choice("force", [None, "-f", "--force"]),
             "out": sx.choice("out", [None, "-o", "--output"]), "ci": sx.choice("ci", [None, "--ci-mode"]),
             "loc": sx.choice("loc", [None, "--load-matching-env-location"])}
    pos = sx.choice("pos", ["none", "first", "last"])
    b = sx.string("b", 1, blen, chars)
    sx.assume(b[0] != "-")
    if pos == "first":
        argv.append(b)
    for k in flags:
        if flags[k]:
            argv.append(flags[k])
            if k == "out":
                argv.append("x/o.sh")
            if k == "loc":
                argv.append("y/loc")
    if pos == "last":
        argv.append(b)
    sx.capture()
    le = mod.LoadEnv(argv, load_env_ini_file=ini)
    a = le.args
    sx.observe(le.build_name, a.force, a.list_envs)
    sx.require_eq(le.build_name, "" if pos == "none" else b, "build name")
    sx.require_eq(a.force, flags["force"] is not None, "force")
    sx.require_eq(a.list_envs, flags["list"] is not None, "list")
    o = real(sx.path("conf"), "x/o.sh")
    sx.require_eq(None if a.output is None else str(a.output), o if flags["out"] else None, "output")
    o = real(sx.path("conf"), "y/loc")
    sx.require_eq(None if a.load_matching_env_location is None else str(a.load_matching_env_location),
                  o if flags["loc"] else None, "location file")
    sx.require(le.args is a, "parsed once")
    for k in KEYS:
        sx.require_eq(str(getattr(a, ATTR[k])), real(sx.path("conf"), k + ".ini"), k)


def types(sx):
    mod = sx.module("load_env")
    ini = sx.file("conf/load-env.ini", "[load-env]\n" + "".join(k + ": " + k + ".ini\n" for k in KEYS))
    v = sx.choice("argv", [None, "b", ("b",), {"b": 1}, 3])
    r = sx.attempt(lambda: mod.LoadEnv(v, load_env_ini_file=ini))
    sx.observe(r.kind)
    sx.require_eq(r.kind, "TypeError", "arguments that are not a list")


SCENARIOS = [
    dict(name="config", fn="config", paths=LOD,
         kw=dict(states=["absent", "none", "empty", "rel"], vlen=2, chars="a/", over=False, plain=["absent", "rel"]),
         bounds="a key in 4 states with paths of 1..2 characters, the others in 2"),
    dict(name="override", fn="config", paths=LOD,
         kw=dict(states=["absent", "rel", "abs"], vlen=1, chars="a.", over=True, plain=["absent", "rel"]),
         bounds="a key in 3 states, the others in 2, each overridden or not"),
    dict(name="override-one", fn="config", paths=LOD,
         kw=dict(states=["absent", "none", "empty", "rel"], vlen=1, chars="a", over=True, plain=["absent", "rel"],
                 secs=["load-env"], hows=["text", ""], form="one"),
         bounds="a key in 4 states, the others in 2, each overridden by `--option=path` or not"),
    dict(name="wide", fn="wide", paths=LOD, bounds="any ASCII character in a path and the build name, two objects"),
    dict(name="places", fn="places", paths=LOD,
         bounds="16 spellings of a path, 11 of an option, files of that name in 8 directories, in the current one, or nowhere"),
    dict(name="arguments", fn="arguments", paths=LOD, kw=dict(blen=3, chars="a_-= "),
         bounds="all combinations of 5 options, build names of 1..3 characters"),
    dict(name="types", fn="types", paths=LOD, bounds="5 values that are not lists"),
]
