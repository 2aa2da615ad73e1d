"""C15: a build name selects the environment it names."""
from lib import LOD, PRINT, EXOTIC, without

INNER = without(PRINT + EXOTIC, "\"%'\\:=#; \t\x0b\x0c\x1c\x1f\x85\u2028\u00a0\u2003\u3000_")

ASSUMPTIONS = ["build names consist of `_`-separated words"]


def bordered(name, build):
    return "_" + name + "_" in "_" + build + "_"


def reference(envs, build):
    """envs: list of (name, aliases)."""
    names = sorted([n for n, a in envs], key=len, reverse=True)
    for n in names:
        if bordered(n, build):
            return n
    al = []
    for n, a in envs:
        for x in a:
            al.append((x, n))
    al.sort(key=lambda p: len(p[0]), reverse=True)
    for x, n in al:
        if bordered(x, build):
            return n
    return None


def invalid(envs):
    names = [n for n, a in envs]
    seen = []
    for n, a in envs:
        for x in a:
            if x in seen or x in names or "_" in x:
                return True
            seen.append(x)
    return False


def select(sx, nlen, alen, blen, chars, bchars, als=2):
    mod = sx.module("loadenv.EnvKeywordParser")
    n1 = sx.string("n1", 1, nlen, chars)
    n2 = sx.string("n2", 1, nlen, chars)
    sx.assume(n1 != n2)
    a1 = sx.string("a1", 1, alen, chars)
    envs = [(n1, [a1]), (n2, [])]
    text = "[sys]\n" + n1 + ":  # one\n    " + a1 + "  # alias\n" + n2 + ":"
    if als == 2:
        a2 = sx.string("a2", 1, alen, chars)
        envs = [(n1, [a1]), (n2, [a2])]
        text += "\n    " + a2
    text += "\n[oth]\nzz: yy\n"
    build = sx.string("build", 1, blen, bchars)
    f = sx.file("envs.ini", text)
    sx.capture()
    r = sx.attempt(lambda: mod.EnvKeywordParser(build, "sys", f))
    if invalid(envs):
        sx.observe(r.kind)
        sx.require_eq(r.kind, "SystemExit", "ambiguous or clashing aliases")
        return
    sx.require(r.ok, "loading raised " + r.kind)
    ekp = r.value
    for i in range(2):
        r = sx.attempt(lambda: ekp.qualified_env_name)
        want = reference(envs, build)
        sx.observe(r.kind, r.value)
        if want is None:
            sx.require_eq(r.kind, "SystemExit", "build name that names no environment")
        else:
            sx.require_eq((r.kind, r.value), ("ok", "sys_" + want), "environment")


def versions(sx):
    """Longer names win over shorter ones; dots are dots; other systems do
    not count."""
    mod = sx.module("loadenv.EnvKeywordParser")
    envs = [("sys-x", ["sys"]), ("intel", ["def"]), ("intel-18.0", ["i18", "intel-18"]), ("gcc+x", ["g"])]
    text = "[sys]\nsys-x: sys\nintel: def\nintel-18.0:\n  # older\n  i18\n  intel-18 # short\ngcc+x:\n    g\n"
    text += "[sys_host]\nuse sys\nmore: m\n[other]\narm: a\n"
    words = ["intel", "intel-18.0", "intel-18x0", "i18", "intel-18", "def", "gcc+x", "gccx", "g", "m",
             "more", "arm", "a", "sys", "sys-x", "intel-1", "gg"]
    w1 = sx.choice("w1", words)
    w2 = sx.choice("w2", words)
    sep = sx.choice("sep", ["_", "-", ""])
    build = w1 + sep + w2
    s = sx.choice("system", ["sys", "sys_host", "other", "none"])
    f = sx.file("envs.ini", text)
    sx.capture()
    r = sx.attempt(lambda: mod.EnvKeywordParser(build, s, f).qualified_env_name)
    sx.observe(r.kind, r.value)
    if s == "none":
        sx.require_eq(r.kind, "KeyError", "unknown system")
        return
    e = {"sys": envs, "sys_host": envs + [("more", ["m"])], "other": [("arm", ["a"])]}[s]
    want = reference(e, build)
    if want is None:
        sx.require_eq(r.kind, "SystemExit", "build name that names no environment")
    else:
        sx.require_eq((r.kind, r.value), ("ok", s + "_" + want), "environment")


def message(sx):
    """The error lists every environment and alias of the system."""
    mod = sx.module("loadenv.EnvKeywordParser")
    n = sx.choice("n", [0, 1, 2])
    al = [sx.word("al%d" % i, ["ab"]) + str(i) for i in range(n)]
    text = "[sys]\nenv1:\n" + "".join("    " + a + "\n" for a in al) + "env2: zz\n[oth]\nenv3: qq\n"
    f = sx.file("envs.ini", text)
    sx.capture()
    r = sx.attempt(lambda: mod.EnvKeywordParser("nothing", "sys", f).qualified_env_name)
    sx.require_eq(r.kind, "SystemExit", "unknown build name")
    got = [l.strip("| ") for l in str(r.exc).split("\n") if l.startswith("|") and l.strip("| ").startswith("- ")]
    sx.observe(got)
    want = ["- Supported Environments for 'sys':", "- env1"] + ["- " + a for a in sorted(al)] + ["- env2", "- zz"]
    sx.require_eq(got, want, "environments and aliases listed")


def literal(sx):
    """Names and aliases with any character, in builds that have it or
    another character in that place."""
    mod = sx.module("loadenv.EnvKeywordParser")
    c = sx.string("c", 1, 1, INNER)
    d = sx.string("d", 0, 1, INNER + "_")
    kind = sx.choice("kind", ["name", "alias"])
    w = "Ab" + c + "1"
    envs = [(w, ["zz"]), ("oth_er", [])] if kind == "name" else [("zz", [w]), ("oth_er", ["q"])]
    text = "[sys]\n" + envs[0][0] + ":\n    " + envs[0][1][0] + "\noth_er:" + ("" if kind == "name" else " q") + "\n"
    text += "[more]\n" + envs[0][0] + ":\n   q\nyy: " + envs[0][1][0] + "\n"
    build = sx.choice("pre", ["", "x_", "x", "y."]) + sx.choice("Ab", ["Ab", "ab"]) + d + "1"
    build += sx.choice("post", ["", "_x", "x", "\n"])
    f = sx.file("envs.ini", text)
    sx.capture()
    r = sx.attempt(lambda: mod.EnvKeywordParser(build, "sys", f).qualified_env_name)
    want = reference(envs, build)
    sx.observe(r.kind, r.value)
    if build.endswith("\n"):
        return
    if want is None:
        sx.require_eq(r.kind, "SystemExit", "build name that names no environment")
    else:
        sx.require_eq((r.kind, r.value), ("ok", "sys_" + want), "environment")


def underscores(sx):
    """Names of several words, similar ones on other systems, several objects."""
    mod = sx.module("loadenv.EnvKeywordParser")
    tab = {"sys": [("intel", ["def"]), ("intel_mpi", ["im"]), ("intel_mpi_19", []), ("Mpi", ["i"]), ("cuda_intel", ["mpi"]), ("sys_19", [])],
           "two": [("mpi", ["intel", "def"]), ("x_y", ["im", "DEF"])], "sys_two": [("x", ["y"])]}
    text = "".join("[" + s + "]\n" + "".join(n + ":\n" + "".join("    " + a + "\n" for a in al) for n, al in e)
                   for s, e in tab.items())
    f = sx.file("envs.ini", text)
    words = ["intel", "mpi", "19", "cuda", "def", "im", "x", "y", "sys", "Intel", "DEF", "intelmpi", ""]
    sx.capture()
    objs = []
    for i in range(sx.choice("objs", [1, 2])):
        if i == 0:
            build = "_".join(sx.choice("w%d" % j, words if j < 2 else ["19", "mpi", "im", ""]) for j in range(3))
            s = sx.choice("s", list(tab))
        else:
            build, s = "intel_x_y_im", "two"
        objs.append((mod.EnvKeywordParser(build, s, f), build, s))
    for o, build, s in objs[::-1] + objs:
        r = sx.attempt(lambda: o.qualified_env_name)
        want = reference(tab[s], build)
        if want is None:
            sx.require_eq(r.kind, "SystemExit", "build name that names no environment")
        else:
            sx.require_eq((r.kind, r.value), ("ok", s + "_" + want), "environment")
    sx.observe(r.kind, r.value)


def lengths(sx):
    """Aliases of all lengths next to each other in a build name."""
    mod = sx.module("loadenv.EnvKeywordParser")
    al = ["g", "def", "gnu", "defa", "intel", "intel-19", "gnu-defa", "very-long-alias-name"]
    k = sx.choice("split", [1, 4, 7])
    envs = [("one", al[:k]), ("two", al[k:]), ("three-3", [])]
    if sx.bool("turn"):
        envs = envs[::-1]
    text = "[sys]\n" + "".join(n + ":\n" + "".join("    " + a + "\n" for a in x) for n, x in envs)
    ws = [sx.choice("w%d" % i, al + ["three-3", "x"]) for i in range(2)] + [sx.choice("w2", ["intel", "x", "g"])]
    build = ws[0] + sx.choice("j", ["_", "-", "__"]) + ws[1] + "_" + ws[2]
    sx.capture()
    r = sx.attempt(lambda: mod.EnvKeywordParser(build, "sys", sx.file("envs.ini", text)).qualified_env_name)
    want = reference(envs, build)
    sx.observe(r.kind, r.value)
    if want is None:
        sx.require_eq(r.kind, "SystemExit", "build name that names no environment")
    else:
        sx.require_eq((r.kind, r.value), ("ok", "sys_" + want), "environment")


SCENARIOS = [
    dict(name="lengths", fn="lengths", paths=LOD, bounds="8 aliases of 1..20 characters in 3 environments, 10 x 3 x 10 x 3 builds"),
    dict(name="literal", fn="literal", paths=LOD,
         bounds="names and aliases with any character inside, builds with any character there, upper and lower case"),
    dict(name="underscores", fn="underscores", paths=LOD,
         bounds="names of 1..3 words, 13 x 13 x 4 build names, 3 systems, 1 or 2 objects"),
    dict(name="select", fn="select", paths=LOD,
         kw=dict(nlen=2, alen=2, blen=3, chars="a.", bchars="a._", als=1),
         bounds="2 environments with names of 1..2 characters, 1 alias of 1..2, build names of 1..3 characters"),
    dict(name="select-al", fn="select", paths=LOD, kw=dict(nlen=1, alen=2, blen=3, chars="ab+", bchars="ab_+"),
         bounds="2 environments with names of 1, an alias of 1..2 characters each, build names of 1..3 characters"),
    dict(name="versions", fn="versions", paths=LOD, bounds="17x17 word pairs, 3 joiners, 4 systems"),
    dict(name="message", fn="message", paths=LOD, bounds="0..2 symbolic aliases"),
    dict(name="select-1", fn="select", paths=LOD, tiers=("thorough",),
         kw=dict(nlen=1, alen=2, blen=4, chars="ab+", bchars="ab_+"),
         bounds="names of 1, aliases of 1..2, build names of 1..4 characters"),
    dict(name="select-2", fn="select", paths=LOD, tiers=("thorough",),
         kw=dict(nlen=2, alen=2, blen=5, chars="ab", bchars="ab_"), bounds="build names of 1..5 characters"),
]
