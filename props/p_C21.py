"""C21: a generated script does what apply does."""
import shlex

from lib import SEV, PRINT, EXOTIC, without, render, expand, Op, Use
import envref
import setenv

ASSUMPTIONS = ["the module command and the search for executables are stand-ins",
               "bash commands: values without double quotes, backslashes and back quotes; the commands are compared "
               "as words, bash itself is not executed"]
WIDE = without(PRINT + EXOTIC, "%")
NAMES = without(PRINT + EXOTIC, "%=:\"'\\ \t\x0b\x0c\x1c\x1f\x85\u2028\u00a0\u2003\u3000\x00")
# characters bash reads as themselves outside of quotes
PLAIN = "abzAZ059_-+./,@^~=é漢"
EXES = {"a": "/opt/a"}


def obtain(sx, s, root, how, hdr, shebang, interp):
    """The script text, generated or written to a file."""
    if how == "text":
        return s.generate_actions_script(root, incl_hdr=hdr, incl_shebang=shebang, interp=interp)
    p = sx.path("out", "script." + interp)
    before = sx.choice("before file", ["none", "long", "short"])
    if before != "none":
        sx.file("out/script." + interp, "old text\n" * (2000 if before == "long" else 1))
    r = s.write_actions_to_file(p, root, include_header=hdr, include_shebang=shebang, interpreter=interp)
    sx.require_eq(r, 0, "result of write_actions_to_file")
    return sx.read(p)


def python(sx, secs, root, env, hows, hdrs, first=False):
    mod = sx.module("setenvironment")
    mh = sx.module("setenvironment.ModuleHelper")
    calls = []

    def module(command, *arguments):
        calls.append([command] + list(arguments))
        return 0
    sx.patch(mh, "module", module)
    envref.stub_search(sx, EXES)
    s = mod.SetEnvironment(sx.file("env.ini", render(secs)))
    s.exception_control_silent_warnings = True
    hdr = sx.choice("hdr", hdrs)
    shebang = sx.bool("shebang")
    acts = setenv.actions(secs, root)
    sx.environ(env)
    before = None
    if first:
        before = sx.choice("before", ["nothing", "bash", "parse"])
        if before == "bash":
            s.generate_actions_script(root)
        elif before == "parse":
            s.parse_all_sections()
    import os
    os.mkdir(sx.path("out"))
    text = obtain(sx, s, root, sx.choice("how", hows), hdr, shebang, "python")
    sx.require_eq(dict(sx.env_items()), env, "generating changes nothing")
    sx.require_eq(calls, [], "generating runs nothing")
    sx.require_eq(text.startswith("#!/usr/bin/env python3\n"), shebang, "shebang line")
    ns = {"__name__": "script"}
    if not hdr:
        sx.require("def envvar_op" not in text, "no header")
        ns["envvar_op"] = mod.envvar_op
        ns["ModuleHelper"] = mh
    r = sx.attempt(lambda: exec(text, ns))
    after = dict(sx.env_items())
    sx.observe(r.kind, after, calls)
    want = dict(env)
    wcalls = []
    kind = "ok"
    for a in acts:
        if "envvar" in a:
            try:
                want = envref.op(want, a["op"][7:], a["envvar"], a["value"], EXES)
            except envref.Refused:
                kind = "ValueError"
                break
        else:
            wcalls.append(setenv.module_args(a))
    sx.require_eq(r.kind, kind, "running the script")
    sx.require_eq(calls, wcalls, "module commands of the script")
    sx.require_eq(after, want, "environment after the script")
    if hdr and sx.bool("only"):
        # header alone defines, and does, nothing
        t2 = s.generate_actions_script(root, incl_body=False, interp="python")
        sx.environ(env)
        ns = {}
        exec(t2, ns)
        sx.require_eq(dict(sx.env_items()), env, "header alone")
        sx.require("envvar_op" in ns, "header alone defines the operations")


def ops(sx, size, kinds, vals, hdrs, two=False):
    env = {"Y": "y:a", "HOME": "/"}
    if sx.bool("X"):
        env["X"] = sx.choice("x", ["", "a:b"])
    names, sizes = (["A", "B"], [size, 1]) if two else (["A"], [size])
    secs = setenv.sections(sx, names, sizes, kinds, ["X", "Y"], ["gcc"], lambda t: sx.choice(t + ".v", vals))
    python(sx, secs, "A", env, ["text"], hdrs, first=two)


def quoting(sx, n, chars):
    op = sx.choice("op", ["envvar-set", "envvar-prepend", "envvar-assert-not-empty"])
    v = sx.string("v", 0, n, chars)
    sx.assume(v == v.strip().strip('"').strip())
    secs = [("A", [Op(op, ["X"], v), Op("module-use", [], v), Op("module-load", ["m"], v)])]
    python(sx, secs, "A", {"X": "a'", "V": "v"}, ["text", "file"], [True, False])


def wide(sx):
    """Any character in values, names, module names and versions."""
    what = sx.choice("what", ["value", "name"])
    op = sx.choice("op", ["envvar-set", "envvar-append", "envvar-remove-path-entry", "envvar-unset"])
    n, m, v = "X", "gcc", "v"
    if what == "value":
        v = sx.choice("pre", ["", "p"]) + sx.string("c", 1, 1, WIDE) + sx.choice("d", ["", " ", "{"]) + "q"
        sx.assume(v == v.strip().strip('"').strip())
    else:
        m = n = "X" + sx.string("c", 1, 1, NAMES) + sx.choice("rest", ["", "X", "/1"])
    how = sx.choice("mod", ["load", "swap", "use"])
    mod = {"load": Op("module-load", [m], v), "swap": Op("module-swap", ["g" + m], v),
           "use": Op("module-use", [], v)}[how]
    secs = [("A", [Op(op, [n], None if op == "envvar-unset" else v), mod])]
    python(sx, secs, "A", {"X": "pq:pq", "XX": "1"}, ["text"], [False])


def history(sx, n):
    """Scripts for several sections and interpreters, one after the other."""
    mod = sx.module("setenvironment")
    v = sx.string("v", 1, 1, "ab")
    secs = [("A", [Op("envvar-set", ["X"], v)]), ("B", [Op("envvar-append", ["X"], "b" + v), Op("module-load", ["gcc"], None)]),
            ("a", [Op("envvar-unset", ["X"], None)])]
    s = mod.SetEnvironment(sx.file("env.ini", render(secs)))
    sx.capture()
    import os
    os.mkdir(sx.path("out"))
    cmds = {("A", "python"): ['envvar_op("set","X","' + v + '")'],
            ("A", "bash"): ['envvar_op set "X" "' + v + '"'],
            ("B", "python"): ['envvar_op("append","X","b' + v + '")', 'ModuleHelper.module("load","gcc")'],
            ("B", "bash"): ['envvar_op append "X" "b' + v + '"', "module load gcc"],
            ("a", "python"): ['envvar_op("unset","X")'], ("a", "bash"): ['envvar_op unset "X"']}
    p = sx.path("out", "s")
    for i in range(n):
        sec = sx.choice("sec%d" % i, ["A", "B", "a"])
        interp = sx.choice("interp%d" % i, ["bash", "python"])
        shebang = sx.bool("shebang%d" % i)
        body = sx.choice("parts%d" % i, ["body", "all", "header", "neither"])
        kw = {}
        if body in ("header", "neither") or i == n - 1:
            r = s.write_actions_to_file(p, sec, include_header=body in ("header", "all"), include_body=body in ("body", "all"),
                                        include_shebang=shebang, interpreter=interp)
            sx.require_eq(r, 0, "result of write_actions_to_file")
            text = sx.read(p)
        else:
            text = s.generate_actions_script(sec, incl_hdr=body != "body", incl_shebang=shebang, interp=interp)
        line = "#!/usr/bin/env " + ("bash" if interp == "bash" else "python3") + "\n"
        if body == "neither":
            sx.require(text == "" or shebang and text == line, "nothing asked for, nothing written")
            continue
        sx.require_eq(text[:len(line)] == line, shebang, "interpreter line")
        sx.require_eq("#!" in text[2:], False, "one interpreter line")
        sx.require_eq(("function envvar_op() {" if interp == "bash" else "def envvar_op(") in text, body in ("header", "all"), "header")
        sx.require("def envvar_op(" not in text if interp == "bash" else "function envvar_op()" not in text, "other header")
        got = []
        if body == "header":
            sx.require('"X"' not in text, "no commands")
        else:
            tail = text.split("C O M M A N D S\n")[1]
            got = [l.strip() for l in tail.split("\n") if l.strip() and not l.startswith("#")]
            if interp == "python":
                # judged by what they say, not how they are quoted
                got = [l.replace("'", '"').replace(", ", ",") for l in got]
                sx.require_eq(got, cmds[(sec, interp)], "commands")
            else:
                sx.require_eq([words(l) for l in got], [words(l) for l in cmds[(sec, interp)]], "commands")
        sx.observe(got)


def bashmods(sx):
    """Module commands in bash: arguments arrive as one word each."""
    mod = sx.module("setenvironment")
    m = sx.string("m", 1, 2, without(PLAIN, "=")) 
    v = sx.string("v", 0, 2, PLAIN)
    sx.assume(m[0] != "~" and v[:1] != "~" and v[:1] != "=")
    how = sx.choice("how", ["load", "swap", "use", "unload", "purge"])
    if how in ("swap", "use"):
        sx.assume(v != "")
    op = {"load": Op("module-load", [m], v), "swap": Op("module-swap", [m], v), "use": Op("module-use", [], v),
          "unload": Op("module-unload", [m], None), "purge": Op("module-purge", [], None)}[how]
    secs = [("A", [op])]
    s = mod.SetEnvironment(sx.file("env.ini", render(secs)))
    text = s.generate_actions_script("A", incl_hdr=False, interp="bash")
    got = [words(l) for l in text.split("\n") if not l.startswith("#") and l != ""]
    sx.observe(got)
    sx.require_eq(got, [["module"] + setenv.module_args(setenv.actions(secs, "A")[0])], "command")


def words(l):
    """Words of a line of shell text."""
    return shlex.split(l)


def bash(sx, size, kinds, chars, hdrs):
    mod = sx.module("setenvironment")
    secs = setenv.sections(sx, ["A", "B"], [size, 1], kinds, ["X", "Y_1"], ["gcc"],
                           lambda t: sx.string(t + ".v", 0, 2, chars))
    for n, es in secs:
        for e in es:
            sx.assume(e.value is None or e.value == e.value.strip())
    s = mod.SetEnvironment(sx.file("env.ini", render(secs)))
    s.exception_control_silent_warnings = True
    hdr = sx.choice("hdr", hdrs)
    shebang = sx.bool("shebang")
    text = obtain(sx, s, "A", "text", hdr, shebang, "bash")
    sx.observe(text if not hdr else len(text))
    sx.require_eq(text.startswith("#!/usr/bin/env bash\n"), shebang, "shebang line")
    if hdr:
        head = s.generate_actions_script("A", incl_body=False, interp="bash", incl_shebang=shebang)
        sx.require(text.startswith(head), "script starts with the header")
        text = text[len(head):]
        sx.require("function envvar_op() {" in head, "header defines the operations")
    bashcmds(sx, secs, text)


def bashcmds(sx, secs, text):
    got = [words(l) for l in text.split("\n") if not l.startswith("#") and l != ""]
    want = []
    for a in setenv.actions(secs, "A"):
        if "module" in a:
            want.append(["module"] + setenv.module_args(a))
        elif a["op"] == "envvar_unset":
            want.append(["envvar_op", "unset", a["envvar"]])
        else:
            want.append(["envvar_op", a["op"][7:], a["envvar"], a["value"]])
    sx.require_eq(got, want, "commands of the script")


def repeated(sx):
    """Operations met again, through sections used several times, are carried out again."""
    def op(t, kinds):
        k = sx.choice(t, kinds)
        return {"purge": Op("module-purge", [], None), "load": Op("module-load", ["m"], "1"),
                "unload": Op("module-unload", ["m"], None), "swap": Op("module-swap", ["m"], "n"),
                "umask": Op("module-use", [], "/p"), "set": Op("envvar-set", ["X"], "1"),
                "append": Op("envvar-append", ["X"], "1"), "prepend": Op("envvar-prepend", ["X"], "$X"),
                "unset": Op("envvar-unset", ["X"], None), "remove": Op("envvar-remove-substr", ["X"], "1")}[k]
    kinds = ["purge", "load", "unload", "swap", "umask", "set", "append", "prepend", "unset", "remove"]
    a = op("op", kinds)
    b = op("mid", ["purge", "load", "append", "set"])
    secs = [("A", [Use("B"), Op("envvar-append", ["Y"], "0"), Use("C"), Use("D")]), ("B", [a]), ("C", [b, Use("B")]),
            ("D", [Use("B"), Use("C")] if sx.bool("more") else [Op("module-purge", [], None)])]
    if sx.bool("bash"):
        mod = sx.module("setenvironment")
        s = mod.SetEnvironment(sx.file("env.ini", render(secs)))
        bashcmds(sx, secs, s.generate_actions_script("A", incl_hdr=False, interp="bash"))
    else:
        python(sx, secs, "A", {"X": "1"}, ["text"], [False])


def refused(sx):
    mod = sx.module("setenvironment")
    s = mod.SetEnvironment(sx.file("env.ini", "[A]\nenvvar-set X: 1\n"))
    level = sx.int("level", 0, 5)
    s.exception_control_level = level
    sx.capture()
    interp = sx.string("interp", 0, 4, "bash")
    sx.assume(interp != "bash")
    what = sx.choice("what", ["gen", "write"])
    p = sx.path("script")
    if what == "gen":
        r = sx.attempt(lambda: s.generate_actions_script("A", interp=interp))
    else:
        r = sx.attempt(lambda: s.write_actions_to_file(p, "A", interpreter=interp))
    sx.observe(r.kind, r.value)
    if level >= 3:
        sx.require_eq(r.kind, "ValueError", "unknown interpreter")
    else:
        sx.require_eq((r.kind, r.value), ("ok", "" if what == "gen" else 1), "unknown interpreter")
    import os
    sx.require(not os.path.exists(p), "no file written")


ENV = setenv.ENVOPS
SCENARIOS = [
    dict(name="ops-2", fn="ops", paths=SEV,
         kw=dict(size=2, kinds=ENV + ["module-load", "module-swap"], vals=["", "b:$Y"], hdrs=[False]),
         bounds="2 operations of 11 kinds"),
    dict(name="header", fn="ops", paths=SEV,
         kw=dict(size=1, kinds=ENV + ["module-load", "module-swap", "module-purge", "module-unload", "module-use"],
                 vals=["", "a", "${X}:b", "$Y"], hdrs=[True]),
         bounds="every kind of operation, with the functions of the header"),
    dict(name="linked", fn="ops", paths=SEV,
         kw=dict(size=2, kinds=["envvar-append", "envvar-unset", "use", "rmvar", "opt"], vals=["a"], hdrs=[False],
                 two=True), bounds="2 sections with links, other calls before"),
    dict(name="quoting", fn="quoting", paths=SEV, kw=dict(n=2, chars="a\"\\'{$V"),
         bounds="values of 0..2 characters over 7, text or file that may exist"),
    dict(name="wide", fn="wide", paths=SEV, bounds="any character in values and almost any in names of 7 operations"),
    dict(name="history", fn="history", paths=SEV, kw=dict(n=2), bounds="2 scripts for 3 sections, all options"),
    dict(name="history-3", fn="history", paths=SEV, kw=dict(n=3), tiers=("thorough",),
         bounds="3 scripts for 3 sections, all options"),
    dict(name="bash-modules", fn="bashmods", paths=SEV, bounds="module names and values of 1..2 characters over 21"),
    dict(name="bash", fn="bash", paths=SEV,
         kw=dict(size=1, kinds=ENV + ["module-load", "module-swap", "module-unload", "use"], chars="a;*$' ",
                 hdrs=[False]),
         bounds="2 operations of 12 kinds, values of 0..2 characters over 6"),
    dict(name="bash-header", fn="bash", paths=SEV,
         kw=dict(size=1, kinds=["envvar-set", "module-purge", "envvar-unset", "opt"], chars="a;", hdrs=[True]),
         bounds="with header"),
    dict(name="repeated", fn="repeated", paths=SEV, bounds="10 x 4 operations met up to 4 times"),
    dict(name="refused", fn="refused", paths=SEV, bounds="interpreter names of 0..4 characters, all levels"),
    dict(name="ops-3", fn="ops", paths=SEV, tiers=("thorough",),
         kw=dict(size=3, kinds=ENV + ["module-load"], vals=["", "b:$Y"], hdrs=[True, False]),
         bounds="3 operations of 10 kinds"),
]
