"""C24: LoadEnv answers, applies and writes the environment the build name names."""
from lib import LOD, PRINT, EXOTIC, without, expand, render, Op, Opt, Use
import envref
import setenv
import loadref
from loadref import Refused

ASSUMPTIONS = ["host name, user name and module command are stand-ins"]


def specs(sx, bad=None):
    v = sx.word("v", ["ab"])
    secs = [("COMMON", [Op("envvar-set", ["C"], "c" + v)])]
    for s in loadref.TABLE:
        for n, a in loadref.TABLE[s]:
            secs.append((s + "_" + n, [Op("module-load", ["m-" + s + "-" + n], None), Use("COMMON"),
                                       Op("envvar-set", ["E"], s + ":" + n)]))
    if bad == "unhandled":
        secs[-1][1].append(Opt("envvar-sett X", "1"))
    elif bad == "missing":
        secs = secs[:1] + secs[2:]          # no mach1_gcc-9
    elif bad == "link":
        secs[-1][1].append(Use("NONE"))
    return secs


def setup(sx, argv, secs, host, fail=-1, ini=True, use_main=False):
    mod = sx.module("load_env")
    mh = sx.module("setenvironment.ModuleHelper")
    import getpass
    import socket
    import uuid
    sx.patch(socket, "gethostname", lambda: host)
    sx.patch(getpass, "getuser", lambda: "../" + sx.path("tmp"))
    calls = []

    def module(command, *arguments):
        calls.append([command] + list(arguments))
        return 3 if len(calls) - 1 == fail else 0
    sx.patch(mh, "module", module)
    out = sx.capture()
    names = ["supported-systems", "supported-envs", "environment-specs"]
    files = [sx.file("ini/" + n + ".ini", t) for n, t in zip(names, [loadref.SYSTEMS, loadref.ENVS, render(secs)])]
    import logging
    sx.patch(logging, "exception", lambda *a, **k: None)
    if use_main:
        full = []
        for n, f in zip(names, files):
            full += ["--" + n, f]
        return mod, full + argv, calls, out
    f = sx.file("conf/load-env.ini", "[load-env]\n" + "".join(n + ": ../ini/" + n + ".ini\n" for n in names))
    return mod.LoadEnv(argv, load_env_ini_file=f), calls, out


def answer(fn, *a):
    try:
        return ("ok", fn(*a))
    except Refused:
        return ("SystemExit", None)


def same(sx, r, want, what):
    if want[0] == "ok":
        sx.require_eq((r.kind, r.value), want, what)
    else:
        sx.require_eq(r.kind, want[0], what)


def build_name(sx, tag, words, n):
    ws = [sx.choice(tag + "%d" % i, words) for i in range(n)]
    return "_".join([w for w in ws if w != ""])


WORDS = ["", "mach1", "mach2", "gcc", "gcc-9", "gnu", "def", "intel", "opt", "MACH2"]


def names(sx, words, n):
    """System, environment and remainder of every build name."""
    host = sx.choice("host", list(loadref.HOSTS))
    build = build_name(sx, "w", words, n)
    force = sx.bool("force")
    le, calls, out = setup(sx, (["--force"] if force else []) + [build], specs(sx), host)
    for what, ref in [("system_name", loadref.system), ("parsed_env_name", loadref.env),
                      ("env_stripped_build_name", loadref.stripped), ("parsed_env_name", loadref.env)]:
        r = sx.attempt(lambda: getattr(le, what))
        sx.observe(r.kind, r.value)
        same(sx, r, answer(ref, build, host, force), what)


def history(sx, steps, words):
    """A new build name is answered as by a new object."""
    host = sx.choice("host", ["hosta", "other"])
    force = sx.bool("force")
    build = sx.choice("b0", words)
    le, calls, out = setup(sx, (["-f"] if force else []) + [build], specs(sx), host)
    for i in range(steps):
        op = sx.choice("op%d" % i, ["system", "env", "stripped", "rename"])
        if op == "rename":
            build = sx.choice("b%d" % (i + 1), words)
            le.build_name = build
            sx.require_eq(le.build_name, build, "build name")
        elif op == "system":
            r = sx.attempt(lambda: le.system_name)
            same(sx, r, answer(loadref.system, build, host, force), "system name %d" % i)
        elif op == "env":
            r = sx.attempt(lambda: le.parsed_env_name)
            same(sx, r, answer(loadref.env, build, host, force), "environment name %d" % i)
        else:
            r = sx.attempt(lambda: le.env_stripped_build_name)
            same(sx, r, answer(loadref.stripped, build, host, force), "remaining build name %d" % i)
    r = sx.attempt(lambda: (le.system_name, le.parsed_env_name, le.env_stripped_build_name))
    sx.observe(r.kind, r.value)
    try:
        want = ("ok", (loadref.system(build, host, force), loadref.env(build, host, force),
                       loadref.stripped(build, host, force)))
    except Refused:
        want = ("SystemExit", None)
    same(sx, r, want, "finally")


def renames(sx, words):
    """Names that share words with the one before."""
    host = sx.choice("host", list(loadref.HOSTS))
    force = sx.bool("force")
    build = sx.choice("b0", words)
    le, calls, out = setup(sx, (["-f"] if force else []) + [build], specs(sx), host)
    refs = {"system_name": loadref.system, "parsed_env_name": loadref.env, "env_stripped_build_name": loadref.stripped}
    first = sx.choice("first", list(refs))
    r = sx.attempt(lambda: getattr(le, first))
    same(sx, r, answer(refs[first], build, host, force), first)
    build = sx.choice("b1", words)
    le.build_name = build
    for what in refs:
        r = sx.attempt(lambda: getattr(le, what))
        sx.observe(r.kind, r.value)
        same(sx, r, answer(refs[what], build, host, force), what + " after renaming")


INNER = without(PRINT + EXOTIC, "_")


def similar(sx):
    """Words that only resemble a name select nothing."""
    host = sx.choice("host", ["hosta", "other"])
    force = sx.bool("force")
    c = sx.string("c", 0, 1, INNER)
    w = sx.choice("word", ["gcc-9", "gnu", "def", "intel-18.0", "mach1", "mach2", "gcc"])
    at = sx.choice("at", ["before", "after", "inside", "dot"])
    if at == "before":
        w = c + w
    elif at == "after":
        w = w + c
    elif at == "dot":
        w = w.replace(".", c).replace("-", c)
    else:
        w = w[:2] + c + w[2:]
    build = sx.choice("first", ["", "mach1_", "MACH1_", "x_"]) + w + sx.choice("last", ["", "_opt"])
    sx.assume(build[0] != "-")
    le, calls, out = setup(sx, [build] + (["--force"] if force else []), specs(sx), host)
    for what, ref in [("system_name", loadref.system), ("parsed_env_name", loadref.env),
                      ("env_stripped_build_name", loadref.stripped)]:
        r = sx.attempt(lambda: getattr(le, what))
        sx.observe(r.kind, r.value)
        same(sx, r, answer(ref, build, host, force), what)


def session(sx, steps, words):
    """Applying, writing and renaming in any order."""
    host = sx.choice("host", ["hosta", "other"])
    force = sx.bool("force")
    build = sx.choice("b0", words)
    secs = specs(sx)
    le, calls, out = setup(sx, (["-f"] if force else []) + [build, "-o", sx.path("o.sh")], secs, host)
    env0 = {"HOME": "/", "C": "old"}
    mod = sx.module("setenvironment")
    for i in range(steps):
        op = sx.choice("op%d" % i, ["apply", "write", "rename", "env"])
        sx.environ(env0)
        del calls[:]
        if op == "rename":
            build = sx.choice("b%d" % (i + 1), words)
            le.build_name = build
            continue
        sel = answer(loadref.env, build, host, force)
        if op == "apply":
            r = sx.attempt(lambda: le.apply_env())
        elif op == "write":
            r = sx.attempt(lambda: str(le.write_load_matching_env()))
        else:
            r = sx.attempt(lambda: le.parsed_env_name)
        after = dict(sx.env_items())
        sx.observe(r.kind, after, calls)
        if sel[0] != "ok":
            sx.require_eq((r.kind, after, calls), ("SystemExit", env0, []), op + " without selection")
        elif op == "apply":
            kind, env, wc = expected(secs, sel[1], env0, -1)
            sx.require_eq((r.kind, after, calls), (kind, env, wc), "apply")
        elif op == "write":
            sx.require_eq((r.kind, r.value, after, calls), ("ok", sx.path("o.sh"), env0, []), "write")
            ref = mod.SetEnvironment(sx.path("ini/environment-specs.ini")).generate_actions_script(sel[1])
            check_script(sx, sx.read(sx.path("o.sh")), secs, sel[1], ref)
            check_script(sx, sx.read(str(le.tmp_load_matching_env_file)), secs, sel[1], ref)
        else:
            same(sx, r, sel, "environment name")


def expected(secs, name, env, fail):
    """(kind, environment, module calls) of applying a section."""
    env = dict(env)
    calls = []
    for a in setenv.actions(secs, name):
        if "envvar" in a:
            env = envref.op(env, a["op"][7:], a["envvar"], a["value"], {})
        else:
            calls.append(setenv.module_args(a))
            if len(calls) - 1 == fail:
                return "RuntimeError", env, calls
    return "ok", env, calls


def apply(sx, words):
    """apply_env: the selected section or nothing."""
    host = sx.choice("host", ["hosta", "hostb7"])
    build = sx.choice("b", words)
    bad = sx.choice("bad", [None, "unhandled", "missing", "link"])
    fail = sx.choice("fail", [-1, 0])
    force = sx.bool("force")
    secs = specs(sx, bad)
    le, calls, out = setup(sx, [build] + (["--force"] if force else []), secs, host, fail)
    env0 = {"HOME": "/", "C": "old"}
    sx.environ(env0)
    for i in range(2):
        del calls[:]
        sx.environ(env0)
        r = sx.attempt(lambda: le.apply_env())
        after = dict(sx.env_items())
        sx.observe(r.kind, after, calls)
        sel = answer(loadref.env, build, host, force)
        if bad in ("unhandled", "link") or sel[0] != "ok" or sel[1] not in [n for n, e in secs]:
            sx.require(not r.ok, "invalid specification or selection must raise")
            sx.require_eq((after, calls), (env0, []), "nothing applied")
        else:
            kind, env, wc = expected(secs, sel[1], env0, fail)
            sx.require_eq(r.kind, kind, "apply_env")
            sx.require_eq((after, calls), (env, wc), "environment and module commands")


def check_script(sx, text, secs, name, ref):
    head, _, last = text.rpartition("\n")
    sx.require_eq(last, "export LOADED_ENV_NAME=" + name, "last line of the script")
    sx.require_eq(head + "\n", ref, "script of the environment")


def write(sx, words):
    """The scripts written are those of the selected environment."""
    import os
    host = sx.choice("host", ["hosta", "hostb7"])
    build = sx.choice("b", words)
    outp = sx.choice("out", [None, "sub/x.sh", "old.sh", "tmp/x.sh"])
    bad = sx.choice("bad", [None, "missing"])
    secs = specs(sx, bad)
    if outp == "old.sh":
        sx.file("old.sh", "previous content\n" * 4)
    argv = [build] + ([] if outp is None else ["--output", sx.path(outp)])
    le, calls, out = setup(sx, argv, secs, host)
    env0 = {"HOME": "/"}
    sx.environ(env0)
    if sx.bool("apply first"):
        sx.attempt(lambda: le.apply_env())
        sx.environ(env0)
        del calls[:]
    rename = sx.choice("rename", [None] + words)
    have = {"old.sh": "previous content\n" * 4} if outp == "old.sh" else {}
    for b in [build] if rename is None else [build, rename]:
        if b is not build:
            le.build_name = b
        r = sx.attempt(lambda: str(le.write_load_matching_env()))
        sx.observe(r.kind)
        sel = answer(loadref.env, b, host, False)
        if sel[0] != "ok" or sel[1] not in [n for n, e in secs]:
            if sel[0] != "ok":
                sx.require_eq(r.kind, "SystemExit", "no environment selected")
            else:
                sx.require(not r.ok, "the environment is not there")
            # what was written before is still there, and nothing else
            files = {f: sx.read(sx.path(f)) for f in [f for f in os.listdir(sx.path("")) if f.endswith(".sh")]}
            sx.require_eq(files, {f: t for f, t in have.items() if f.endswith(".sh") and "/" not in f}, "files after a refused request")
            if outp is not None and outp in have:
                sx.require_eq(sx.read(sx.path(outp)), have[outp], "file written before")
            elif outp is not None:
                sx.require(not os.path.exists(sx.path(outp)), "no file")
            if "tmp" in have:
                sx.require(os.path.exists(str(le.tmp_load_matching_env_file)), "the script written before is gone")
                sx.require_eq(sx.read(str(le.tmp_load_matching_env_file)), have["tmp"], "script written before")
            continue
        sx.require(r.ok, "raised " + r.kind)
        tmp = str(le.tmp_load_matching_env_file)
        sx.require(tmp.startswith(sx.path("tmp") + os.sep), "temporary file of the user")
        sx.require_eq(r.value, tmp if outp is None else sx.path(outp), "file reported")
        mod = sx.module("setenvironment")
        ref = mod.SetEnvironment(sx.path("ini/environment-specs.ini")).generate_actions_script(sel[1])
        check_script(sx, sx.read(tmp), secs, sel[1], ref)
        if outp is not None:
            check_script(sx, sx.read(sx.path(outp)), secs, sel[1], ref)
            have[outp] = sx.read(sx.path(outp))
        have["tmp"] = sx.read(tmp)
        left = [f for f in os.listdir(sx.path("")) if f.endswith(".sh")]
        sx.require_eq(left, ["old.sh"] if outp == "old.sh" else [], "other files")
    sx.require_eq((dict(sx.env_items()), calls), (env0, []), "writing applies nothing")


def underscore(sx):
    """Environments and systems with the delimiter in their names."""
    mod = sx.module("load_env")
    mh = sx.module("setenvironment.ModuleHelper")
    import getpass
    import socket
    sx.patch(socket, "gethostname", lambda: "hosta")
    sx.patch(getpass, "getuser", lambda: "../" + sx.path("tmp"))
    sx.patch(mh, "module", lambda command, *arguments: 0)
    out = sx.capture()
    s = sx.choice("sys", ["mach1", "mach_1", "m_gcc"])
    envs = ["gcc", "gcc_mpi", "mpi", "x_gcc_mpi", "a_b"]
    files = [sx.file("ini/s.ini", "[" + s + "]\nhosta\n[m]\nhostb\n"),
             sx.file("ini/e.ini", "[" + s + "]\n" + "".join(e + ": al-" + e.replace("_", "-") + "\n" for e in envs) + "[m]\n_q:\n"),
             sx.file("ini/p.ini", "".join("[" + s + "_" + e + "]\nenvvar-set E: " + e + "\n" for e in envs))]
    build = "_".join([sx.choice("w%d" % i, ["gcc", "mpi", "x", "al-a-b", "a", "b"]) for i in range(sx.choice("n", [1, 2, 3]))])
    argv = []
    for n, f in zip(["supported-systems", "supported-envs", "environment-specs"], files):
        argv += ["--" + n, f]
    ini = sx.file("load-env.ini", "[load-env]\nsupported-systems: x\nsupported-envs: x\nenvironment-specs: x\n")
    le = mod.LoadEnv(argv + ["-o", sx.path("o.sh"), build], load_env_ini_file=ini)
    sx.environ({"HOME": "/"})
    want = None
    for e in sorted(envs, key=lambda e: -len(e)):
        if want is None and "_" + e + "_" in "_" + build + "_":
            want = e
    if want is None and "_al-a-b_" in "_" + build + "_":
        want = "a_b"
    how = sx.choice("how", ["name", "apply", "write"])
    if how == "name":
        r = sx.attempt(lambda: le.parsed_env_name)
    elif how == "apply":
        r = sx.attempt(lambda: le.apply_env())
    else:
        r = sx.attempt(lambda: str(le.write_load_matching_env()))
    after = dict(sx.env_items())
    sx.observe(r.kind, after)
    if want is None:
        sx.require_eq((r.kind, after), ("SystemExit", {"HOME": "/"}), "no environment selected")
        return
    sx.require(r.ok, "raised " + r.kind)
    sx.require_eq(le.parsed_env_name, s + "_" + want, "environment")
    sx.require_eq(after, {"HOME": "/", "E": want} if how == "apply" else {"HOME": "/"}, "environment after " + how)
    if how == "write":
        ref = sx.module("setenvironment").SetEnvironment(files[2]).generate_actions_script(s + "_" + want)
        check_script(sx, sx.read(sx.path("o.sh")), None, s + "_" + want, ref)


def main(sx, words):
    """The program: list, or validate and write."""
    import os
    host = sx.choice("host", ["hosta", "other"])
    build = sx.choice("b", words)
    force = sx.bool("force")
    lst = sx.bool("list")
    loc = sx.bool("loc")
    fail = sx.choice("fail", [-1, 0])
    secs = specs(sx)
    argv = (["-f"] if force else []) + (["-l"] if lst else []) + [build]
    if loc:
        argv += ["--load-matching-env-location", sx.path("loc")]
    mod, argv, calls, out = setup(sx, argv, secs, host, fail, use_main=True)
    env0 = {"HOME": "/"}
    sx.environ(env0)
    r = sx.attempt(lambda: mod.main(argv))
    after = dict(sx.env_items())
    sx.observe(r.kind, after, calls)
    written = os.listdir(sx.path("tmp")) if os.path.isdir(sx.path("tmp")) else []
    sel = answer(loadref.env, build, host, force)
    if lst:
        sx.require_eq(r.kind, "SystemExit", "listing exits")
        s = answer(loadref.system, build, host, force)
        if s[0] == "ok":
            for n, a in loadref.TABLE[s[1]]:
                for x in [n] + a:
                    sx.require(x in out.getvalue(), "list names " + x)
            sx.require(r.exc.code is None or r.exc.code == 0, "listing is no failure")
        else:
            sx.require(r.exc.code is not None and r.exc.code != 0, "failure")
    if lst or sel[0] != "ok":
        sx.require_eq(r.kind, "SystemExit", "no environment")
        sx.require_eq((after, calls, written), (env0, [], []), "nothing applied or written")
        sx.require(not os.path.exists(sx.path("loc")), "no location written")
        return
    kind, env, wc = expected(secs, sel[1], env0, fail)
    sx.require_eq((r.kind, after, calls), (kind, env, wc), "environment is validated")
    if kind != "ok":
        sx.require_eq(written, [], "nothing written for an invalid environment")
        return
    sx.require_eq(len(written), 1, "one script written")
    text = sx.read(sx.path("tmp", written[0]))
    sx.require(text.endswith("\nexport LOADED_ENV_NAME=" + sel[1]), "script names the environment")
    if loc:
        sx.require_eq(sx.read(sx.path("loc")), sx.path("tmp", written[0]), "location file")


B = ["gcc-9", "opt_gnu", "intel_mach1", "gcc_x", "mach2_def", "def", "none", ""]
SCENARIOS = [
    dict(name="names", fn="names", paths=LOD, kw=dict(words=WORDS, n=2),
         bounds="build names of 0..2 out of 9 words, 3 hosts, with and without force"),
    dict(name="history", fn="history", paths=LOD, kw=dict(steps=3, words=["gcc-9_a", "mach2_gnu_b", "none", "def"]),
         bounds="3 operations, 4 build names"),
    dict(name="renames", fn="renames", paths=LOD,
         kw=dict(words=["gcc-9", "gcc", "mach1", "mach1_gcc-9", "MACH1_def", "mach1_mach2_gcc-9", "mach2_mach1_gnu", "mach2_gcc_x", "x"]),
         bounds="9 build names that share words, renamed once, 3 hosts, with and without force"),
    dict(name="similar", fn="similar", paths=LOD, bounds="7 words with any character before, after or inside"),
    dict(name="session", fn="session", paths=LOD, kw=dict(steps=3, words=["gcc-9", "mach2_gnu", "none", "GCC-9"]),
         bounds="3 operations of 4 kinds, 4 build names"),
    dict(name="apply", fn="apply", paths=LOD, kw=dict(words=B), bounds="8 build names, 4 specification files, failing module"),
    dict(name="write", fn="write", paths=LOD, kw=dict(words=["gcc-9", "opt_gnu", "def", "none"]),
         bounds="4 build names, renamed or not, 4 destinations"),
    dict(name="underscore", fn="underscore", paths=LOD,
         bounds="5 environments with and without underscore, 3 system names, build names of 1..3 out of 6 words"),
    dict(name="main", fn="main", paths=LOD, kw=dict(words=["gcc-9", "mach2_gnu", "none", ""]),
         bounds="4 build names, all combinations of options, failing module"),
    dict(name="names-3", fn="names", paths=LOD, tiers=("thorough",), kw=dict(words=WORDS, n=3),
         bounds="build names of 0..3 words"),
    dict(name="history-4", fn="history", paths=LOD, tiers=("thorough",),
         kw=dict(steps=4, words=["gcc-9_a", "mach2_gnu_b", "none", "def"]), bounds="4 operations"),
]
