"""C16: the system follows from host name, build name and force flag."""
from lib import DSY, PRINT, EXOTIC, without

ASSUMPTIONS = ["system names are lower case words without `_`",
               "there is no default section in the file"]


def run(sx, text, build, host, force, silent, systems, matches):
    """systems in file order; matches: systems whose patterns match host."""
    mod = sx.module("determinesystem")
    import socket
    sx.patch(socket, "gethostname", lambda: host)
    f = sx.file("systems.ini", text)
    out = sx.capture()
    kw = {}
    if force is not None:
        kw["force_build_name"] = force
    if silent:
        kw["silent"] = True
    ds = mod.DetermineSystem(build, f, **kw)
    h = None
    for s in systems:
        if s in matches:
            h = s
            break
    ws = build.lower().split("_")
    named = [s for s in systems if s in ws]
    if len(named) > 1:
        want = None
    elif len(named) == 1:
        want = named[0] if (h == named[0] or force) else None
    else:
        want = h
    for i in range(2):
        r = sx.attempt(lambda: ds.system_name)
        sx.observe(r.kind, r.value)
        if want is None:
            sx.require_eq(r.kind, "SystemExit", "determination %d must be refused" % i)
        else:
            sx.require_eq((r.kind, r.value), ("ok", want), "system name")
    if silent:
        sx.require_eq(out.getvalue(), "", "silent")


def table(sx):
    """All combinations of what host and build name say."""
    systems = ["mach1", "mach2", "mach12"]
    m = [s for s in systems if sx.bool("host." + s)]
    text = ""
    for s in systems:
        text += "[" + s + "]\nnomatch-" + s + "\n" + ("the.*  # comment\n" if s in m else "") + "other\n"
    a = sx.choice("w1", ["mach1", "mach2", "mach12", "MACH1", "mach", "x"])
    b = sx.choice("w2", ["", "mach1", "mach12", "mach2", "mach1-y", "y"])
    sep = sx.choice("sep", ["_", "-"])
    build = a + (sep + b if b else "")
    run(sx, text, build, "thehost", sx.choice("force", [None, True, False]), sx.bool("silent"), systems, m)


def patterns(sx, plen, hlen):
    """Host name patterns: literal characters, `.`, `.*`, anchors, comments."""
    import re
    host = sx.string("host", 1, hlen, "ab1")
    p1 = sx.string("p1", 1, plen, "ab.^1")
    sx.assume("^" not in p1[1:])
    tail = sx.choice("tail", ["", "  # comment", "# c", " #"])
    more = sx.choice("more", ["", ".*", "$"])
    pat = p1 + more
    text = "[s1]\n" + pat + tail + "\n[s2]\nb\n"
    m = []
    if re.search(pat, host) is not None:
        m.append("s1")
    if "b" in host:
        m.append("s2")
    run(sx, text, "nothing", host, None, True, ["s1", "s2"], m)


def build(sx, blen):
    """Symbolic build names."""
    b = sx.string("build", 1, blen, "sS1_2")
    text = "[s1]\nxx\n[s2]\nthe\n[s]\nthe\n"
    run(sx, text, b, "thehost", sx.choice("force", [None, True]), True, ["s1", "s2", "s"], ["s2", "s"])


def via_use(sx):
    """Patterns brought in by `use` count for the using system."""
    to = sx.choice("to", ["common", "s2"])
    host = sx.choice("host", ["alpha", "beta", "gamma"])
    text = "[s1]\nuse " + to + "\n[s2]\nbeta\n[common]\ngamma\n"
    m = {"alpha": [], "beta": ["s2"], "gamma": ["common"]}[host]
    if to in m:
        m = m + ["s1"]
    run(sx, text, "x", host, None, True, ["s1", "s2", "common"], m)


PATS = ["n.1", "N.1", "n\\.1", "n[.]1", "n\\d1", "n\\w1", "n[a-c]*1", "n-1", "n1", "^1", "n$", "(n|m).1", "org", "1.org$", "x+1",
        "n?A1", "n_1", "n..1"]


def hosts(sx):
    """Host names with domains, digits, capitals and any other character."""
    import re
    host = sx.choice("pre", ["", "m"]) + sx.choice("n", ["n", "N"]) + sx.string("c", 0, 1, without(PRINT + EXOTIC, "\n")) + "1"
    host += sx.choice("dom", ["", ".org", ".Org.n"])
    pat = sx.choice("pat", PATS)
    text = "[s1]\nzzz\n" + pat + "\n[s2]\n.\n"
    m = ["s2"]
    if re.search(pat, host) is not None:
        m.append("s1")
    run(sx, text, "nothing", host, None, True, ["s1", "s2"], m)


def objects(sx):
    """Several objects: each answers for its own host, file and build name."""
    mod = sx.module("determinesystem")
    import socket
    files = {"f1": ("[s1]\nalpha\n[s2]\nbeta\n", {"alpha": "s1", "beta": "s2"}),
             "f2": ("[s2]\nalpha\n[s1]\ngamma\n", {"alpha": "s2", "gamma": "s1"})}
    paths = {f: sx.file(f, files[f][0]) for f in files}
    host = ["alpha"]
    sx.patch(socket, "gethostname", lambda: host[0])
    out = sx.capture()
    made = []
    for i in range(2):
        t = "o%d" % i
        f = sx.choice(t + ".file", ["f1", "f2"])
        b = sx.choice(t + ".build", ["x", "s1", "x_s2", "S2-x", "s1_s2"])
        h = sx.choice(t + ".host", ["alpha", "beta", "gamma", "delta"])
        force = sx.bool(t + ".force")
        made.append((mod.DetermineSystem(b, paths[f], force_build_name=force, silent=sx.bool(t + ".silent")), f, b, h, force))
    for o, f, b, h, force in made + made[:1]:
        host[0] = h
        r = sx.attempt(lambda: o.system_name)
        named = [s for s in ("s1", "s2") if s in b.lower().split("_")]
        if h not in files[f][1] and not force and named:
            want = None
        else:
            got = files[f][1].get(h)
            want = None if len(named) > 1 else named[0] if named and (force or got == named[0]) else None if named else got
        sx.observe(r.kind, r.value)
        if want is None:
            sx.require_eq(r.kind, "SystemExit", "refused")
        else:
            sx.require_eq((r.kind, r.value), ("ok", want), "system name")


SCENARIOS = [
    dict(name="hosts", fn="hosts", paths=DSY, bounds="18 patterns, host names with any character, domains and capitals"),
    dict(name="objects", fn="objects", paths=DSY, bounds="2 objects, 2 files, 5 build names, 4 hosts, force and silent"),
    dict(name="table", fn="table", paths=DSY,
         bounds="3 systems, any subset matching the host, 2-word build names, force and silent flags"),
    dict(name="patterns", fn="patterns", paths=DSY, kw=dict(plen=3, hlen=3),
         bounds="patterns of 1..3 characters with `.`, `^`, `.*`, `$`, host names of 1..3 characters"),
    dict(name="build", fn="build", paths=DSY, kw=dict(blen=5), bounds="build names of 1..5 characters over 5"),
    dict(name="via-use", fn="via_use", paths=DSY, bounds="6 combinations"),
    dict(name="build-7", fn="build", paths=DSY, kw=dict(blen=7), tiers=("thorough",),
         bounds="build names of 1..7 characters over 5"),
]
