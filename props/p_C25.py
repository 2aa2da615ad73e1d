"""C25: which configuration files and arguments GenConfig uses and passes on."""
from lib import PRINT, EXOTIC, without
import genref
from genref import NAMES, PATHS

ASSUMPTIONS = ["paths without blanks and symbolic links", "setprogramoptions is a stand-in"]
SECTION = {n: ("gen-config" if i < 2 else "load-env") for i, n in enumerate(NAMES)}
ATTR = {n: n.replace("-", "_") + "_file" for n in NAMES}


def real(base, p):
    import os
    return os.path.realpath(os.path.join(base, p))


def config(sx, states, plain, chars, over):
    import os
    gc = genref.module(sx, "hosta")
    which = sx.choice("which", NAMES)
    other = sx.choice("other", [n for n in NAMES if n != which])
    head = sx.choice("head", ["both", "no gen-config", "no load-env", "swapped"])
    vals = {}
    lines = {"gen-config": "", "load-env": ""}
    for n in NAMES:
        st = sx.choice(n, states if n == which else plain if n == other else ["there"])
        if st == "absent":
            continue
        if st in ("none", "empty"):
            lines[SECTION[n]] += n + ("\n" if st == "none" else ":\n")
            vals[n] = ""
        else:
            v = sx.string(n + ".v", 1, 1, chars) if n == which else "f"
            if st == "there":
                sx.file("conf/d/" + v, "x")
            if st == "abs":
                v = sx.file("conf/e/" + v, "x")
            else:
                v = "d/" + v
            lines[SECTION[n]] += n + " : " + v + "\n"
            vals[n] = v
    g, l = lines["gen-config"], lines["load-env"]
    text = {"both": "[gen-config]\n" + g + "[load-env]\n" + l, "no gen-config": "[load-env]\n" + g + l,
            "no load-env": "[gen-config]\n" + g + l, "swapped": "[gen-config]\n" + l + "[load-env]\n" + g}[head]
    ini = sx.file("conf/gen-config.ini", text)
    base = os.path.dirname(ini)
    os.mkdir(sx.path("cwd"))
    how = sx.choice("ini", ["absolute", "../conf/", "conf/", ""]) if head == "both" else "absolute"
    cwd = {"conf/": os.path.dirname(base), "": base}.get(how, sx.path("cwd"))
    os.chdir(cwd)
    argv = []
    want = {}
    for n in NAMES:
        if over and n in (which, other) and sx.bool(n + ".over"):
            argv += ["--" + n, "o/" + n]
            want[n] = real(cwd, "o/" + n)
        elif n in vals:
            want[n] = real(base, vals[n])
    bad = head != "both" or any(n not in vals or vals[n] == "" or not os.path.exists(os.path.join(base, vals[n]))
                                for n in NAMES)
    arg = ini if how == "absolute" else how + "gen-config.ini"
    sx.capture()
    c = gc.GenConfig(argv + ["b"], gen_config_ini_file=arg)
    for i in range(2):
        r = sx.attempt(lambda: c.args)
        sx.observe(r.kind)
        if bad:
            sx.require_eq(r.kind, "ValueError", "incomplete configuration (%d)" % i)
        else:
            sx.require(r.ok, "raised " + r.kind)
            for n in NAMES:
                sx.require_eq(str(getattr(r.value, ATTR[n])), want[n], n)


def passed(sx, blen, chars):
    """LoadEnv is given the same files, build name and force flag."""
    import os
    gc = genref.module(sx, "hosta")
    le = sx.module("load_env")
    fs, ini = genref.files(sx, {"A": []})
    b = sx.string("b", 1, blen, chars)
    sx.assume(b[0] != "-")
    force = sx.choice("force", [None, "-f", "--force"])
    argv = [force] if force else []
    if sx.bool("ci"):
        argv.append("--ci-mode")
    ov = sx.choice("over", [[], NAMES[2:3], NAMES[3:4], NAMES[4:], NAMES[2:4], NAMES[3:], NAMES[2:3] + NAMES[4:], NAMES[1:]])
    want = {n: fs[n] for n in NAMES}
    for i, n in enumerate(ov):
        want[n] = sx.path(sx.choice("dir", ["x/", "x%d/" % i]) + n) if i == 1 else sx.path("x/" + n)
        argv += ["--" + n, want[n]]
    pos = sx.choice("pos", ["first", "last", "none"])
    if pos == "first":
        argv.insert(0, b)
    elif pos == "last":
        argv.append(b)
    else:
        b = ""
    out = sx.capture()
    how = sx.choice("how", ["property", "object", "file"])
    if how == "file":
        sx.assume(" " not in b and b != "")
        sx.patch(gc.GenConfig.__init__, "__defaults__", (ini,))
        r = sx.attempt(lambda: gc.main(argv + ["--save-load-env-args", sx.path("args")]))
        sx.observe(r.kind)
        sx.require(r.ok, "raised " + r.kind)
        given = sx.read(sx.path("args")).split(" ")
        args = le.LoadEnv(given).args
    else:
        c = gc.GenConfig(argv, gen_config_ini_file=ini)
        given = c.load_env_args
        if how == "property":
            args = le.LoadEnv(c.load_env_args).args
        else:
            c.load_load_env()
            args = c.load_env.args
    sx.observe(args.build_name, args.force)
    sx.require_eq(args.build_name, b, "build name")
    sx.require_eq(args.force, force is not None, "force")
    for n in NAMES[2:]:
        sx.require_eq(str(getattr(args, ATTR[n])), want[n], n)
    sx.require(not args.list_envs and args.output is None, "no other option")
    sx.require_eq("--ci-mode" in given, "--ci-mode" in argv, "the options for load-env.sh are passed on")


WIDE = without(PRINT + EXOTIC, "%/ \t\x0b\x0c\x1c\x1f\x85\u2028\u00a0\u2003\u3000")
ASCII = without(PRINT, "%/ ")


def wide(sx):
    """Any character in a path and the build name; several objects."""
    import os
    gc = genref.module(sx, "hosta")
    le = sx.module("load_env")
    which = sx.choice("which", NAMES)
    v = sx.choice("pre", ["p", "../p"]) + sx.string("c", 1, 1, ASCII) + sx.choice("post", ["", "q"])
    sx.assume(v[-1] != '"')
    inis = []
    for i in range(2):
        lines = {"gen-config": "", "load-env": ""}
        for n in NAMES:
            f = v if n == which else "f%d" % i
            sx.file("conf%d/%s" % (i, f), "")
            lines[SECTION[n]] += n + ": " + f + "\n"
        inis.append(sx.file("conf%d/gen-config.ini" % i, "".join("[" + s + "]\n" + lines[s] for s in lines)))
    b = "b" + sx.string("d", 1, 1, WIDE) + "b"
    os.mkdir(sx.path("cwd"))
    os.chdir(sx.path("cwd"))
    over = sx.bool("over")
    argv = [b] + (["--" + which + "=" + v] if over else [])
    given = list(argv)
    sx.capture()
    cs = [gc.GenConfig(argv, gen_config_ini_file=i) for i in inis]
    for i in [1, 0]:
        want = {n: real(sx.path("conf%d" % i), v if n == which else "f%d" % i) for n in NAMES}
        if over:
            want[which] = real(sx.path("cwd"), v)
        for n in NAMES:
            sx.require_eq(str(getattr(cs[i].args, ATTR[n])), want[n], n)
        sx.require_eq(cs[i].args.build_name, b, "build name")
        cs[i].load_load_env()
        a = cs[i].load_env.args
        sx.observe(a.build_name)
        for x in [a, le.LoadEnv(cs[i].load_env_args).args]:
            sx.require_eq(x.build_name, b, "build name passed on")
            for n in NAMES[2:]:
                sx.require_eq(str(getattr(x, ATTR[n])), want[n], n + " passed on")
    sx.require_eq(argv, given, "list of the caller")


def places(sx):
    """Files of the same name in several directories: the one meant is used."""
    import os
    gc = genref.module(sx, "hosta")
    forms = ["f.ini", "./f.ini", "../f.ini", "../../f.ini", "d/../f.ini", "d//f.ini", "~/f.ini", "f", "f.ini #2",
             "$D/f.ini", "f.ini ; d/f.ini", "conf/f.ini", "f*.ini"]
    v = sx.choice("v", forms)
    o = sx.choice("o", [None] + forms[:8] + ["none.ini"])
    which = sx.choice("which", NAMES)
    lines = {"gen-config": "", "load-env": ""}
    for n in NAMES:
        lines[SECTION[n]] += n + ": " + (v if n == which else n + ".ini") + "\n"
        sx.file("top/c/conf/" + n + ".ini", "")
    ini = sx.file("top/c/conf/gen-config.ini", "".join("[" + s + "]\n" + lines[s] for s in lines))
    conf = sx.path("top/c/conf")
    there = sx.choice("there", ["everywhere", "only", "cwd"])
    sx.file("top/w/x", "")
    if there == "everywhere":
        for d in ["top", "top/c", "top/c/conf", "top/c/conf/d", "top/w", "top/w/d", "top/home", "top/c/conf/conf"]:
            for n in ["f.ini", "f"]:
                sx.file(d + "/" + n, "")
    elif there == "only":
        sx.file("top/c/conf/d/x", "")
        sx.file(os.path.relpath(real(conf, v), sx.path("")), "")
    else:
        for n in ["f.ini", "f", "d/f.ini", "conf/f.ini"]:
            sx.file("top/w/" + n, "")
    os.chdir(sx.path("top/w"))
    sx.environ({"HOME": sx.path("top/home"), "D": "d"})
    sx.capture()
    c = gc.GenConfig(["b"] + ([] if o is None else ["--" + which, o]),
                     gen_config_ini_file=sx.choice("arg", [ini, "../c/conf/gen-config.ini"]))
    r = sx.attempt(lambda: {n: str(getattr(c.args, ATTR[n])) for n in NAMES})
    want = {n: real(conf, n + ".ini") for n in NAMES}
    want[which] = real(conf, v) if o is None else real(sx.path("top/w"), o)
    sx.observe(r.kind)
    if not os.path.exists(real(conf, v)):
        sx.require_eq(r.kind, "ValueError", "file that does not exist")
    else:
        sx.require_eq((r.kind, r.value), ("ok", want), "files used")


def relative(sx):
    """Several objects, the same relative names in different directories."""
    import os
    gc = genref.module(sx, "hosta")
    v = ["a" + sx.string("c", 0, 1, "ab-"), "b"]
    for i in range(2):
        lines = {"gen-config": "", "load-env": ""}
        for n in NAMES:
            for x in v + ["a"]:
                sx.file("d%d/%s" % (i, x), "")
            lines[SECTION[n]] += n + ": " + v[i] + "\n"
        sx.file("d%d/gen-config.ini" % i, "".join("[" + s + "]\n" + lines[s] for s in lines))
    ov = sx.choice("over", [None] + NAMES)
    cs = []
    ask = sx.choice("ask", ["made", "later"])
    order = sx.choice("order", [[0, 1], [1, 0], [0, 1, 0]])
    for i in order:
        os.chdir(sx.path("d%d" % i))
        c = gc.GenConfig(["b"] + ([] if ov is None else ["--" + ov, "a"]), gen_config_ini_file="gen-config.ini")
        if ask == "made":
            c.args
        cs.append((i, c))
    sx.capture()
    for i, c in cs:
        os.chdir(sx.path("d%d" % i))
        for k in range(2):
            a = c.args
            got = [str(getattr(a, ATTR[n])) for n in NAMES]
            want = [real(sx.path("d%d" % i), "a" if n == ov else v[i]) for n in NAMES]
            sx.observe([g == w for g, w in zip(got, want)])
            sx.require_eq(got, want, "files of object %d" % i)
        c.load_load_env()
        sx.require_eq([str(getattr(c.load_env.args, ATTR[n])) for n in NAMES[2:]], want[2:], "files passed on")


def types(sx):
    gc = genref.module(sx, "hosta")
    fs, ini = genref.files(sx, {"A": []})
    v = sx.choice("argv", [None, "b", ("b",), {"b": 1}, 3])
    r = sx.attempt(lambda: gc.GenConfig(v, gen_config_ini_file=ini))
    sx.observe(r.kind)
    sx.require_eq(r.kind, "TypeError", "arguments that are not a list")


SCENARIOS = [
    dict(name="config", fn="config", paths=PATHS,
         kw=dict(states=["there", "absent", "none", "empty", "missing", "abs"], plain=["there", "absent", "missing"],
                 chars="ab", over=False), bounds="two keys in 6 and 3 states, 4 arrangements of the sections"),
    dict(name="override", fn="config", paths=PATHS,
         kw=dict(states=["there", "missing", "absent"], plain=["there", "absent"], chars="a", over=True),
         bounds="two keys in 3 and 2 states, overridden or not"),
    dict(name="passed", fn="passed", paths=PATHS, kw=dict(blen=3, chars="a_- "),
         bounds="build names of 1..3 characters, all combinations of options"),
    dict(name="wide", fn="wide", paths=PATHS, bounds="any ASCII character in a path, any but blanks in the build name, two objects"),
    dict(name="places", fn="places", paths=PATHS,
         bounds="13 spellings of a path, 9 of an option, files of that name in 8 directories, the right one, or the current one"),
    dict(name="relative", fn="relative", paths=PATHS,
         bounds="2..3 objects with the same relative names in 2 directories, each file overridden or not"),
    dict(name="types", fn="types", paths=PATHS, bounds="5 values that are not lists"),
]
