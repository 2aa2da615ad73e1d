"""C26: the complete configuration a build name names, and what is written."""
from lib import PRINT, EXOTIC, without
import genref
import loadref
from genref import PATHS, FLAGS
from loadref import Refused

ASSUMPTIONS = ["setprogramoptions is a stand-in that lists the options of the section asked for",
               "host name, user name and answers to prompts are stand-ins"]
WORDS = ["", "gcc-9", "gnu", "mach1", "mach2", "mpi", "no-mpi", "openmp", "zed", "abc"]
GOOD = {"SUPPORT": [("s", "1")], "mach1_gcc-9_mpi_serial_none": [("a", "1"), ("b", "2")],
        "mach1_gcc_no-mpi_openmp_abc_zed": [("c", "3")], "mach2_clang_mpi_serial_zed": [("d", "4")]}
BUILDS = ["gcc-9", "gcc_no-mpi_zed_openmp_abc", "def_mach2_zed", "gcc_mpi_no-mpi", "gcc-9_abc", "none", "mach2_def"]


def answer(build, host, force):
    """(kind, complete configuration)"""
    try:
        return "ok", genref.complete(build, host, force)
    except Refused:
        return "SystemExit", None
    except ValueError:
        return "ValueError", None


def same(sx, r, want, what):
    kind, value = want
    if kind == "ok":
        sx.require_eq((r.kind, r.value), want, what)
    else:
        # several things may be wrong at once
        sx.require(r.kind in ("SystemExit", "ValueError"), what + " must be refused, got " + r.kind)


def make(sx, argv, host, specs, flags=FLAGS):
    gc = genref.module(sx, host)
    fs, ini = genref.files(sx, specs, flags)
    out = sx.capture()
    sx.patch(gc.GenConfig.__init__, "__defaults__", (ini,))
    return gc, out


def names(sx, words, n):
    host = sx.choice("host", ["hosta", "other"])
    force = sx.bool("force")
    ws = [sx.choice("w%d" % i, words) for i in range(n)]
    build = "_".join([w for w in ws if w != ""])
    gc, out = make(sx, [], host, GOOD)
    c = gc.GenConfig((["-f"] if force else []) + [build])
    for i in range(2):
        r = sx.attempt(lambda: c.complete_config)
        sx.observe(r.kind, r.value)
        same(sx, r, answer(build, host, force), "complete configuration")


def valid(name):
    """Is a section of the specifications well-formed?"""
    if name.upper() == name:
        return True
    return answer(name, "other", True) == ("ok", name)


SECTIONS = ["mach1_gcc-9_mpi_serial_abc_zed", "mach1_gcc-9_mpi_serial_zed_abc", "mach1_gcc-9_serial_mpi_none",
            "mach1_gnu_mpi_serial_none", "mach1_gcc-9_mpi_none", "mach1_gcc-9_mpi_serial_none_x", "gcc-9_mpi_serial_none",
            "mach1_gcc-9_mpi_no-mpi_serial_none", "mach1_zzz_mpi_serial_none", "mach2_gcc_no-mpi_serial_abc",
            "COMMON_X", "Common", "MACH1_gnu_mpi", "9_x", "mach1", "MACH1_GCC-9",
            "mach1_gcc-9_mpi_serial", "mach1_gcc-9", "mach1_gcc-9_mpi_serial_", "mach1_gcc-9_mpi_serial_none_none"]


def validate(sx, second):
    """Every section is checked, wherever it is; nothing is left behind."""
    host = sx.choice("host", ["hosta", "other"])
    force = sx.bool("force")
    build = sx.choice("build", ["gcc-9", "mach1_gcc_zed_no-mpi", "none"])
    a = sx.choice("s1", SECTIONS)
    b = sx.choice("s2", second)
    sx.assume(a != b)
    specs = {"mach1_gcc-9_mpi_serial_none": [("k", "v")]}
    pos = sx.choice("pos", [0, 1])
    specs = dict([(a, [("p", "1")])] + list(specs.items()) + [(b, [("q", "1")])]) if pos else \
        dict(list(specs.items()) + [(a, [("p", "1")]), (b, [("q", "1")])])
    gc, out = make(sx, [], host, specs)
    c = gc.GenConfig((["-f"] if force else []) + [build])
    first = sx.bool("first")
    if first:
        same(sx, sx.attempt(lambda: c.complete_config), answer(build, host, force), "before validation")
    ok = valid(a) and valid(b)
    for i in range(2):
        r = sx.attempt(lambda: c.validate_config_specs_ini())
        sx.observe(r.kind)
        if ok:
            sx.require_eq(r.kind, "ok", "valid sections")
        else:
            sx.require(r.kind in ("ValueError", "SystemExit"), "invalid section accepted, " + r.kind)
    same(sx, sx.attempt(lambda: c.complete_config), answer(build, host, force), "after validation")
    sx.require_eq((c.args.build_name, c.args.force), (build, force), "arguments")
    same(sx, sx.attempt(lambda: c.load_env.parsed_env_name), envof(build, host, force), "environment after validation")


def envof(build, host, force):
    try:
        return "ok", loadref.env(build, host, force)
    except Refused:
        return "SystemExit", None


def outcome(build, host, force, specs):
    """What is to be listed: (kind, section)."""
    if not all(valid(n) for n in specs):
        return "ValueError", None
    kind, name = answer(build, host, force)
    if kind == "ok" and name not in specs:
        return "KeyError", None
    return kind, name


def before(sx, c, want):
    """What may be asked of the object earlier."""
    k = sx.choice("before", ["nothing", "name", "environment"])
    if k == "name":
        same(sx, sx.attempt(lambda: c.complete_config), want, "complete configuration")
    elif k == "environment":
        sx.attempt(lambda: c.load_env.parsed_env_name)


def flags_str(sx):
    """Options for bash."""
    host = sx.choice("host", ["hosta", "other"])
    force = sx.bool("force")
    build = sx.choice("build", BUILDS)
    specs = dict(GOOD)
    bad = sx.choice("bad", [None, "mach1_gnu_mpi_serial_none"])
    v = sx.string("v", 1, 2, "ab$=")
    specs["mach1_gcc-9_mpi_serial_none"] = [("a", v), ("b", "2")]
    if bad:
        specs[bad] = []
    gc, out = make(sx, [], host, specs)
    c = gc.GenConfig((["-f"] if force else []) + [build])
    kind, name = outcome(build, host, force, specs)
    before(sx, c, answer(build, host, force))
    for i in range(2):
        r = sx.attempt(lambda: c.generated_config_flags_str)
        sx.observe(r.kind, r.value)
        if kind == "ok":
            want = " \\\n    ".join(genref.listing(name, "bash", specs))
            sx.require_eq((r.kind, r.value), ("ok", want), "options")
        else:
            sx.require(not r.ok, "must be refused")


def fragment(sx, rlen, chars):
    """A fragment file is written, an existing one only after consent."""
    import os
    build = sx.choice("build", BUILDS[:4])
    dest = sx.choice("dest", ["new.cmake", "sub/dir/new.cmake", "old.cmake"])
    yes = sx.choice("yes", [None, "-y", "--yes"])
    how = sx.choice("how", ["call", "main"])
    specs = dict(GOOD)
    bad = sx.bool("bad")
    if bad:
        specs["mach1_gnu_mpi_serial_none"] = []
    gc, out = make(sx, [], "hosta", specs)
    sx.file("old.cmake", "previous\n")
    replies = [sx.string("r%d" % i, 0, rlen, chars) for i in range(2)] + ["y"]
    asked = []

    def reply(*a):
        asked.append(1)
        return replies[len(asked) - 1]
    sx.patch(gc, "input", reply)
    argv = ([yes] if yes else []) + ["--cmake-fragment", sx.path(dest), build]
    c = gc.GenConfig(argv)
    if how == "call":
        before(sx, c, answer(build, "hosta", False))
    r = sx.attempt(lambda: c.write_cmake_fragment() if how == "call" else gc.main(argv))
    sx.observe(r.kind, len(asked))
    kind, name = outcome(build, "hosta", False, specs)
    old = {"old.cmake": "previous\n"}
    want = dict(old)
    n = 0
    exit1 = False
    if kind == "ok":
        write = True
        if dest == "old.cmake" and not yes:
            write = None
            while write is None:
                a = replies[n][:1]
                n += 1
                if a in ("y", "Y"):
                    write = True
                elif a in ("n", "N"):
                    write = False
        if write:
            want[dest] = "\n".join(genref.listing(name, "cmake_fragment", specs))
        else:
            exit1 = True
    sx.require_eq(len(asked), n, "number of prompts")
    if kind != "ok":
        sx.require(not r.ok, "must be refused")
    elif exit1:
        sx.require_eq(r.kind, "SystemExit", "declined")
        sx.require(r.exc.code not in (None, 0), "declining is reported")
    else:
        sx.require_eq(r.kind, "ok", "fragment")
        if how == "call":
            sx.require_eq(str(r.value), sx.path(dest), "path reported")
    for f in ["new.cmake", "sub/dir/new.cmake", "old.cmake"]:
        sx.require_eq(os.path.exists(sx.path(f)), f in want, "existence of " + f)
        if f in want:
            sx.require_eq(sx.read(sx.path(f)), want[f], "contents of " + f)


INNER = without(PRINT + EXOTIC, "_")


def similar(sx):
    """Words that only resemble an option or a name select nothing."""
    force = sx.bool("force")
    c = sx.string("c", 0, 1, INNER)
    w = sx.choice("word", ["no-mpi", "openmp", "zed", "mpi", "gcc-9"])
    at = sx.choice("at", ["before", "after", "inside"])
    w = {"before": c + w, "after": w + c, "inside": w[:2] + c + w[2:]}[at]
    build = sx.choice("first", ["gcc_", "GCC_", "mach1_gnu_"]) + w + sx.choice("last", ["", "_abc", "_ABC"])
    gc, out = make(sx, [], "hosta", GOOD)
    c = gc.GenConfig((["-f"] if force else []) + [build])
    r = sx.attempt(lambda: c.complete_config)
    sx.observe(r.kind, r.value)
    same(sx, r, answer(build, "hosta", force), "complete configuration")


def several(sx, n):
    """Requests to two objects, one after the other."""
    import os
    specs = dict(GOOD)
    gc, out = make(sx, [], "hosta", specs)
    bs = [sx.choice("build0", BUILDS[:4]), sx.choice("build1", ["gcc_no-mpi_zed_openmp_abc", "def_mach2_zed"])]
    cs = [gc.GenConfig(["-f", "-y", b, "--cmake-fragment", sx.path("f%d.cmake" % i)]) for i, b in enumerate(bs)]
    for i in range(n):
        k = sx.choice("obj%d" % i, [0, 1])
        c, b = cs[k], bs[k]
        what = sx.choice("what%d" % i, ["name", "flags", "fragment", "validate"])
        kind, name = answer(b, "hosta", True)
        if what == "validate":
            r = sx.attempt(lambda: c.validate_config_specs_ini())
            sx.require(r.ok, "raised " + r.kind)
        elif what == "name":
            same(sx, sx.attempt(lambda: c.complete_config), (kind, name), "complete configuration")
        elif what == "flags":
            r = sx.attempt(lambda: c.generated_config_flags_str)
            same(sx, r, (kind, None if kind != "ok" else " \\\n    ".join(genref.listing(name, "bash", specs))), "options")
        else:
            f = sx.path("f%d.cmake" % k)
            r = sx.attempt(lambda: str(c.write_cmake_fragment()))
            same(sx, r, (kind, f), "fragment")
            if kind == "ok":
                sx.require_eq(sx.read(f), "\n".join(genref.listing(name, "cmake_fragment", specs)), "fragment")
            sx.require_eq(os.path.exists(f), kind == "ok", "fragment file")
        sx.observe(what)


def main(sx):
    """Without other requests the program leaves the options for the shell."""
    import os
    host = sx.choice("host", ["hosta", "other"])
    build = sx.choice("build", BUILDS)
    force = sx.bool("force")
    what = sx.choice("what", ["flags", "configs", "bash"])
    bad = sx.bool("bad")
    specs = dict(GOOD)
    if bad:
        specs["mach1_gnu_mpi_serial_none"] = []
    gc, out = make(sx, [], host, specs)
    argv = (["-f"] if force else []) + [build]
    if what == "flags":
        argv.append("--list-config-flags")
    elif what == "configs":
        argv.append(sx.choice("opt", ["-l", "--list-configs"]))
    r = sx.attempt(lambda: gc.main(argv))
    sx.observe(r.kind)
    tmp = sx.path("tmp")
    loc = os.path.join(tmp, ".bash_cmake_args_loc")
    if what == "bash":
        kind, name = outcome(build, host, force, specs)
        if kind == "ok":
            sx.require_eq(r.kind, "ok", "options for the shell")
            f = sx.read(loc)
            sx.require(f.startswith(tmp + "/"), "file of the user")
            sx.require_eq(sx.read(f), " \\\n    ".join(genref.listing(name, "bash", specs)), "options for the shell")
        else:
            sx.require(not r.ok, "must be refused")
            sx.require(not os.path.exists(loc), "nothing announced")
        return
    sx.require_eq(r.kind, "SystemExit", "listing exits")
    sx.require(not os.path.exists(tmp), "nothing written")
    if what == "flags":
        text = str(r.exc.code)
        for n, t, opts in FLAGS:
            for x in [n] + opts:
                sx.require(x in text, "list names " + x)
    else:
        try:
            s = loadref.system(build, host, force)
        except Refused:
            sx.require(r.exc.code not in (None, 0), "failure")
            return
        for n in specs:
            if n != "SUPPORT":
                sx.require_eq("- " + n + "\n" in out.getvalue(), n.startswith(s + "_"), "listing of " + n)


SCENARIOS = [
    dict(name="names", fn="names", paths=PATHS, kw=dict(words=WORDS, n=3),
         bounds="build names of 0..3 out of 10 words, 2 hosts, with and without force"),
    dict(name="validate", fn="validate", paths=PATHS, kw=dict(second=[SECTIONS[0], SECTIONS[9], SECTIONS[10]]),
         bounds="20 x 3 section names in 2 positions, 3 build names"),
    dict(name="validate-16", fn="validate", paths=PATHS, kw=dict(second=SECTIONS), tiers=("thorough",),
         bounds="2 out of 20 section names in 2 positions, 3 build names"),
    dict(name="flags", fn="flags_str", paths=PATHS, bounds="7 build names, option values of 1..2 characters"),
    dict(name="fragment", fn="fragment", paths=PATHS, kw=dict(rlen=2, chars="yYnx"),
         bounds="3 destinations, 4 build names, 2 replies of 0..2 characters"),
    dict(name="similar", fn="similar", paths=PATHS, bounds="5 words with any character before, after or inside"),
    dict(name="several", fn="several", paths=PATHS, kw=dict(n=2), bounds="2 requests of 4 kinds to two objects"),
    dict(name="several-3", fn="several", paths=PATHS, kw=dict(n=3), tiers=("thorough",),
         bounds="3 requests of 4 kinds to two objects"),
    dict(name="main", fn="main", paths=PATHS, bounds="7 build names, 3 requests"),
    dict(name="names-4", fn="names", paths=PATHS, tiers=("thorough",), kw=dict(words=WORDS, n=4),
         bounds="build names of 0..4 words"),
]
