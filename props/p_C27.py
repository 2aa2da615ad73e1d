"""C27: messages show every line they are given, refusals name what was refused."""
from lib import KWP, DSY, LOD, PRINT, EXOTIC, without
import genref
from genref import PATHS

ASSUMPTIONS = ["wording of messages is not checked"]


def inner(sx, text):
    """The lines inside the box."""
    ls = text.split("\n")
    ls = [l for l in ls if l != ""]
    sx.require(len(ls) >= 2 and ls[0] == ls[-1], "box")
    b = ls[0]
    sx.require(len(b) > 2 and b[0] == "+" and b[-1] == "+" and b[1:-1] == "=" * (len(b) - 2), "border")
    out = []
    for l in ls[1:-1]:
        sx.require(l[0] == "|", "line inside the box")
        sx.require(l == l.rstrip(), "trailing blanks")
        out.append(l[1:])
    return out


def listed(text):
    """Items of a list in a message."""
    out = []
    for l in str(text).split("\n"):
        w = l.strip("| ")
        if l.startswith("|") and w.startswith("- "):
            out.append(w[2:])
    return out


def lines(sx, tag, ns, hi, chars):
    return [sx.string(tag + str(i), 0, hi, chars) for i in range(sx.choice(tag + ".n", ns))]


def box(sx, hi, chars, nm, ne):
    kp = sx.module("keywordparser")
    m = lines(sx, "m", nm, hi, chars)
    sx.assume(len(m) > 1 or m[0] != "")
    x = lines(sx, "x", ne, hi, chars)
    kind = sx.choice("kind", [None, "WARNING", "I"])
    kw = {} if kind is None else {"kind": kind}
    end = sx.choice("end", ["", "\n"])
    if x or sx.bool("extras"):
        kw["extras"] = "\n".join(x) + (end if x else "")
    msg = "\n".join(m) + end
    got = kp.FormattedMsg().get_formatted_msg(msg, **kw)
    sx.observe(got)
    ls = inner(sx, got)
    if end == "" and m[-1] == "":
        m = m[:-1]
    if x and end == "" and x[-1] == "":
        x = x[:-1]
    sx.require_eq(len(ls), len(m) + len(x), "number of lines")
    k = "ERROR" if kind is None else kind
    sx.require_eq(ls[0].strip(), (k + ":  " + m[0]).rstrip(), "first line")
    ind = None
    for i in range(1, len(m)):
        e = m[i].rstrip()
        if e == "":
            sx.require_eq(ls[i], "", "empty line")
            continue
        sx.require(ls[i].endswith(e), "line %d of the message" % i)
        pre = ls[i][:len(ls[i]) - len(e)]
        sx.require_eq(pre.strip(" "), "", "line %d of the message" % i)
        sx.require(ind is None or ind == len(pre), "indentation of the message")
        ind = len(pre)
    ind = None
    for i in range(len(x)):
        e = x[i].rstrip()
        l = ls[len(m) + i]
        if e == "":
            sx.require_eq(l, "", "empty line")
            continue
        sx.require(l.endswith(e), "line %d of the extras" % i)
        pre = l[:len(l) - len(e)]
        sx.require_eq(pre.strip(" "), "", "line %d of the extras" % i)
        sx.require(ind is None or ind == len(pre), "indentation of the extras")
        ind = len(pre)


def items(sx, hi, chars, n):
    kp = sx.module("keywordparser")
    its = [sx.string("i%d" % i, 1, hi, chars) for i in range(sx.choice("n", n))]
    sx.assume(all(i.strip(" |") == i and i != "" for i in its))
    x = sx.choice("extras", [None, "", "extra", "e1\ne2\n"])
    kind = sx.choice("kind", [None, "INFO"])
    kw = {} if kind is None else {"kind": kind}
    if x is not None:
        kw["extras"] = x
    m = sx.choice("msg", ["one", "one\ntwo"])
    before = list(its)
    got = kp.FormattedMsg().get_msg_for_list(m, its, **kw)
    sx.observe(got)
    sx.require_eq(its, before, "list of the caller")
    ls = [l.strip() for l in inner(sx, got)]
    ms = m.split("\n")
    want = [("INFO" if kind else "ERROR") + ":  " + ms[0]] + ms[1:] + ["- " + i for i in its]
    want += [] if x is None else x.split()
    sx.require_eq(ls, want, "lines")


WIDE = without(PRINT + EXOTIC, "\n\x0b\x0c\x1c\x85\u2028")


def boxwide(sx):
    """Any character in the middle of a line; long lines, numbers of lines."""
    kp = sx.module("keywordparser")
    c = sx.string("c", 1, 1, WIDE)
    long = sx.choice("long", [1, 75, 81, 200])
    where = sx.choice("where", ["first", "second", "extra", "extra2"])
    l = "x" * long + c + sx.choice("d", ["", " "]) + "y"
    m = ["m1", "m2", "m3"]
    x = ["e1", "e2", "e3"]
    if where in ("first", "second"):
        m[0 if where == "first" else 1] = l
    else:
        x[0 if where == "extra" else 2] = l
    kind = sx.choice("kind", ["ERROR", "WARNING", ""])
    got = kp.FormattedMsg().get_formatted_msg("\n".join(m), kind=kind, extras="\n".join(x))
    sx.observe(got)
    ls = got.split("\n")
    ls = [s for s in ls if s != ""]
    sx.require_eq(len(ls), 8, "number of lines")
    want = [(kind + ":  " + m[0])] + m[1:] + x
    for a, b in zip(ls[1:-1], want):
        sx.require(a.startswith("|"), "line inside the box")
        sx.require_eq(a[1:].lstrip(" "), b, "line")
    its = [l, "b", l + "z"]
    got = kp.FormattedMsg().get_msg_for_list("m", its)
    sx.require_eq(listed2(got), its, "items")


def listed2(text):
    return [l[1:].strip(" ")[2:] for l in text.split("\n") if l[1:].strip(" ").startswith("- ")]


def badvalue(sx):
    """A value with a blank or underscore is named, as written."""
    kp = sx.module("keywordparser")
    c = sx.string("c", 1, 1, without(PRINT, "%#;\""))
    v = "a" + c + sx.choice("d", ["", "_", "b"]) + "b"
    n = sx.choice("n", [0, 1, 2])
    vs = ["p", "q"]
    vs.insert(n, v)
    sx.assume(not v.startswith("a:") and not v.startswith("a="))
    p = kp.KeywordParser(sx.file("k.ini", "[S]\nkey:\n" + "".join("    " + x + "\n" for x in vs) + "b:\n    other\n"))
    r = sx.attempt(lambda: p.get_values_for_section_key("S", "key"))
    sx.observe(r.kind)
    if " " in v or "_" in v:
        sx.require_eq(r.kind, "SystemExit", "invalid value")
        sx.require_eq(listed(r.exc), [v], "invalid value listed")
    else:
        sx.require(r.ok, "valid values refused")


def dups(vals):
    return sorted(set([v for v in vals if len([w for w in vals if w == v]) > 1]))


def values(sx, n, pool=("ab", "a_b", "a b", "key", "b", "cd", "x_")):
    """Invalid values of a keyword option are listed, valid ones are not."""
    kp = sx.module("keywordparser")
    vs = [sx.choice("v%d" % i, pool) for i in range(n)]
    text = "[S]\nkey:\n" + "".join("    " + v + "\n" for v in vs) + "b:\n    other\n"
    p = kp.KeywordParser(sx.file("k.ini", text))
    r = sx.attempt(lambda: p.get_values_for_section_key("S", "key"))
    sx.observe(r.kind)
    bad = [dups(vs), sorted(v for v in vs if "_" in v or " " in v), sorted(v for v in vs if v in ("key", "b"))]
    bad = [b for b in bad if b]
    if not bad:
        sx.require(r.ok, "valid values refused")
        return
    sx.require_eq(r.kind, "SystemExit", "invalid values")
    got = sorted(listed(r.exc))
    sx.require(any(got == b for b in bad), "offending values %r are listed, got %r" % (bad, got))


def lookup(sx):
    kp = sx.module("keywordparser")
    q = sx.string("q", 1, 3, "xyz-")
    p = kp.KeywordParser(sx.file("k.ini", "[S]\nka: xy\n"))
    r = sx.attempt(lambda: p.get_key_for_section_value("S", q))
    sx.observe(r.kind)
    if q != "xy":
        sx.require_eq(r.kind, "SystemExit", "value that no key lists")
        sx.require("'" + q + "'" in str(r.exc), "message names the value")


def aliases(sx):
    mod = sx.module("loadenv.EnvKeywordParser")
    vs = [sx.choice("v%d" % i, ["p", "q", "r", "s"]) for i in range(5)]
    sx.assume(vs[0] != vs[1] and vs[2] != vs[3])
    text = "[sys]\ne1:\n  " + vs[0] + "\n  " + vs[1] + "\ne2:\n  " + vs[2] + "\n  " + vs[3] + "\ne3: " + vs[4] + "\n"
    r = sx.attempt(lambda: mod.EnvKeywordParser("b", "sys", sx.file("e.ini", text)))
    sx.observe(r.kind)
    d = dups(vs)
    if d:
        sx.require_eq(r.kind, "SystemExit", "ambiguous aliases")
        sx.require_eq(sorted(listed(r.exc)), d, "ambiguous aliases listed")
    else:
        sx.require(r.ok, "valid aliases refused")


def environments(sx):
    """The listing of supported environments."""
    mod = sx.module("loadenv.EnvKeywordParser")
    al = [sx.string("al%d" % i, 1, 2, "nvb") + str(i) for i in range(sx.choice("n", [0, 1, 2]))]
    al += sx.choice("more", [[], ["m" + c for c in "hgfedcba"], ["long-alias-" + "x" * 120]])
    text = "[sys]\nenv1:\n" + "".join("    " + a + "\n" for a in al) + "env2: zz\n[oth]\nenv3: qq\n"
    p = mod.EnvKeywordParser("b", "sys", sx.file("envs.ini", text))
    kind = sx.choice("kind", [None, "INFO"])
    t = p.get_msg_showing_supported_environments("first\nsecond", **({} if kind is None else {"kind": kind}))
    sx.observe(t)
    ls = [l.strip() for l in inner(sx, t)]
    sx.require_eq(ls[:2], [("INFO" if kind else "ERROR") + ":  first", "second"], "message")
    sx.require_eq(listed(t)[1:], ["env1"] + sorted(al) + ["env2", "zz"], "environments and aliases listed")
    sx.require(any("envs.ini" in l for l in ls), "file named")


def flags(sx):
    """The listing of supported flags, and the options that exclude each other."""
    genref.module(sx, "hosta")
    mod = sx.module("src.config_keyword_parser")
    n = sx.choice("n", [1, 2, 3])
    ops = [sx.word("o%d" % i, ["ab"]) + str(i) for i in range(n)]
    ty = sx.choice("type", ["SELECT_ONE", "SELECT_MANY"])
    fs = [("f1", ty, ops), ("f2", "SELECT_ONE", ["u", "v", "w"])]
    build = "_".join([sx.choice("b%d" % i, ["u", "v", "w", "x"]) for i in range(3)])
    p = mod.ConfigKeywordParser(build, sx.file("f.ini", genref.flags_text(fs)))
    t = p.get_msg_showing_supported_flags("first", kind="INFO")
    sx.observe(t)
    sx.require_eq(inner(sx, t)[0].strip(), "INFO:  first", "message")
    want = []
    for f, y, os in fs:
        want += [f] + [os[0] + " (default)"] + os[1:]
    sx.require_eq(listed(t)[1:], want, "flags and options listed")
    hit = [o for o in ["u", "v", "w"] if o in build.split("_")]
    r = sx.attempt(lambda: p.selected_options)
    if len(hit) > 1:
        sx.require_eq(r.kind, "ValueError", "excluding options")
        sx.require_eq(listed(r.exc), hit, "excluding options listed")
        sx.require("'f2'" in str(r.exc), "flag named")
    else:
        sx.require(r.ok, "raised " + r.kind)


def shared(sx):
    """Options of several flags, and flags without type."""
    genref.module(sx, "hosta")
    mod = sx.module("src.config_keyword_parser")
    o = [sx.choice("o%d" % i, ["p", "q", "r"]) for i in range(4)]
    sx.assume(o[0] != o[1] and o[2] != o[3])
    ty = sx.choice("type", ["SELECT_ONE", "SELECT_MANY", "SELECT"])
    fs = [("f1", "SELECT_ONE", o[:2]), ("f2", ty, o[2:])]
    p = mod.ConfigKeywordParser("z", sx.file("f.ini", genref.flags_text(fs)))
    r = sx.attempt(lambda: p.selected_options)
    sx.observe(r.kind)
    if ty == "SELECT":
        sx.require(r.kind in ("ValueError", "SystemExit"), "unknown type")
        sx.require("'f2'" in str(r.exc), "flag named")
    elif dups(o):
        sx.require(r.kind in ("ValueError", "SystemExit"), "shared options")
        sx.require_eq(sorted(listed(r.exc)), dups(o), "shared options listed")
    else:
        sx.require(r.ok, "raised " + r.kind)


def systems(sx):
    """Several system names in the build name."""
    mod = sx.module("determinesystem")
    import socket
    sx.patch(socket, "gethostname", lambda: "h")
    sx.capture()
    ws = [sx.choice("w%d" % i, ["s1", "s2", "s3", "x"]) for i in range(3)]
    f = sx.file("systems.ini", "[s1]\nh\n[s2]\nh2\n[s3]\nh3\n")
    r = sx.attempt(lambda: mod.DetermineSystem("_".join(ws), f).system_name)
    sx.observe(r.kind)
    named = [s for s in ["s1", "s2", "s3"] if s in ws]
    if len(named) > 1:
        sx.require_eq(r.kind, "SystemExit", "several systems")
        sx.require_eq(sorted(listed(r.exc)), named, "systems listed")
    elif named and named[0] != "s1":
        sx.require_eq(r.kind, "SystemExit", "other system")
        for w in ["'s1'", "'" + named[0] + "'", "--force"]:
            sx.require(w in str(r.exc).replace("\n|           ", " "), "message names " + w)


def sections(sx):
    """Every badly named section of config-specs.ini is named with its proper name."""
    host = "hosta"
    gc = genref.module(sx, host)
    good = "mach1_gcc-9_mpi_serial_none"
    pool = {"mach1_gcc-9_mpi_none": good, "mach1_gnu_mpi_serial_zed": "mach1_gcc-9_mpi_serial_zed",
            "mach2_gcc_serial": "mach2_gcc_mpi_serial_none", good: None, "SUPPORT": None,
            "mach1_gcc_no-mpi_openmp_abc_zed": None}
    a = sx.choice("s1", list(pool))
    b = sx.choice("s2", list(pool))
    sx.assume(a != b)
    fs, ini = genref.files(sx, {a: [("k", "v")], b: [("k", "v")]})
    sx.capture()
    c = gc.GenConfig(["gcc-9"], gen_config_ini_file=ini)
    r = sx.attempt(lambda: c.validate_config_specs_ini())
    sx.observe(r.kind)
    bad = [n for n in [a, b] if pool[n]]
    if not bad:
        sx.require(r.ok, "valid sections refused")
        return
    sx.require_eq(r.kind, "ValueError", "invalid sections")
    ls = [l.strip("| ") for l in str(r.exc).split("\n")]
    i = 0
    got = []
    while i + 1 < len(ls):
        if ls[i].startswith("-  ") and ls[i + 1].startswith("-> ") and "{" not in ls[i]:
            got.append((ls[i][3:], ls[i + 1][3:]))
        i += 1
    sx.require_eq(got, [(n, pool[n]) for n in bad], "sections and their proper names")


def many(sx):
    """Long lists of offending items are complete."""
    n = sx.choice("n", [2, 4, 5, 9])
    pre = sx.choice("pre", ["w", "long-" + "x" * 90])
    kind = sx.choice("kind", ["values", "aliases", "items"])
    ws = [pre + str(i) for i in range(n)]
    if kind == "items":
        kp = sx.module("keywordparser")
        got = listed2(kp.FormattedMsg().get_msg_for_list("m", ws, extras="\n".join(ws)))
        sx.observe(got)
        sx.require_eq(got, ws, "items")
        return
    if kind == "values":
        kp = sx.module("keywordparser")
        bad = sx.choice("bad", ["twice", "blank"])
        vs = ws + ws if bad == "twice" else [w + " b" for w in ws]
        text = "[S]\nkey:\n" + "".join("    " + v + "\n" for v in vs)
        p = kp.KeywordParser(sx.file("k.ini", text))
        r = sx.attempt(lambda: p.get_values_for_section_key("S", "key"))
        want = ws if bad == "twice" else vs
    else:
        mod = sx.module("loadenv.EnvKeywordParser")
        text = "[sys]\n" + "".join(e + ":\n" + "".join("    " + w + "\n" for w in ws) for e in ["e1", "e2"])
        r = sx.attempt(lambda: mod.EnvKeywordParser("b", "sys", sx.file("e.ini", text)))
        want = ws
    sx.observe(r.kind)
    sx.require_eq(r.kind, "SystemExit", "offending values")
    sx.require_eq(sorted(listed(r.exc)), sorted(want), "all of them listed")


SCENARIOS = [
    dict(name="box", fn="box", paths=KWP, kw=dict(hi=2, chars="a |", nm=[1, 2], ne=[0, 1, 2]),
         bounds="1..2 message lines and 0..2 extra lines of 0..2 characters over 3"),
    dict(name="items", fn="items", paths=KWP, kw=dict(hi=2, chars="a -", n=[0, 1, 2, 3]),
         bounds="0..3 items of 1..2 characters over 3"),
    dict(name="boxwide", fn="boxwide", paths=KWP, bounds="any character but line ends in lines of 3 to 203 characters"),
    dict(name="badvalue", fn="badvalue", paths=KWP, bounds="any ASCII character in one of 3 values"),
    dict(name="values", fn="values", paths=KWP, kw=dict(n=3), bounds="3 out of 7 values"),
    dict(name="values-5", fn="values", paths=KWP, kw=dict(n=5, pool=["ab", "cd", "x_", "e"]), bounds="5 out of 4 values"),
    dict(name="lookup", fn="lookup", paths=KWP, bounds="values of 1..3 characters"),
    dict(name="aliases", fn="aliases", paths=LOD, bounds="3 environments with 2 or 1 out of 4 aliases"),
    dict(name="environments", fn="environments", paths=LOD, bounds="0..10 aliases of 2..3 characters, one of 130"),
    dict(name="many", fn="many", paths=LOD, bounds="2..9 systems named, options, invalid or shared aliases"),
    dict(name="flags", fn="flags", paths=PATHS, bounds="1..3 symbolic options, build names of 3 out of 4 words"),
    dict(name="shared", fn="shared", paths=PATHS, bounds="2 flags with 2 out of 3 options, 3 types"),
    dict(name="systems", fn="systems", paths=DSY, bounds="build names of 3 out of 4 words"),
    dict(name="sections", fn="sections", paths=PATHS, bounds="2 out of 6 sections"),
    dict(name="values-4", fn="values", paths=KWP, kw=dict(n=4), tiers=("thorough",), bounds="4 out of 7 values"),
    dict(name="box-3", fn="box", paths=KWP, kw=dict(hi=2, chars="a |", nm=[3], ne=[0, 1, 2]), tiers=("thorough",),
         bounds="3 message lines"),
]
