"""C07: loading: all files, in list order, or a (repeatable) error."""
from pathlib import Path

from lib import CORE, Opt, render, distinct_keys

ASSUMPTIONS = ["files do not change between two accesses"]


def merge(files):
    """Reference: later files add to and override earlier ones."""
    out = {}
    for secs in files:
        for n, es in secs:
            d = out.setdefault(n, {})
            for e in es:
                d[e.key] = e.value
    return out


def raw(cpe):
    return {s: dict(cpe.configparserdata[s]) for s in cpe.configparserdata.sections()}


def as_given(sx, how, p):
    if how == "str":
        return p
    if how == "path":
        return Path(p)
    if how == "list":
        return [p]
    return [Path(p)]


def order(sx, n, size):
    """n files with symbolic sections and options."""
    mod = sx.module("configparserenhanced")
    files = []
    paths = []
    for i in range(n):
        secs = []
        for j in range(size):
            t = "f%d%d" % (i, j)
            secs.append((sx.word(t + ".sec", ["ST"]),
                         [Opt(sx.word(t + ".key", ["kl"]), sx.word(t + ".val", ["xy"]) + str(i))]))
        for a in range(size):
            for b in range(a):
                sx.assume(secs[a][0] != secs[b][0])
        files.append(secs)
        p = sx.file("f%d.ini" % i, render(secs))
        paths.append(Path(p) if i % 2 else p)
    give = paths
    if n == 3:
        k = sx.choice("perm", [(0, 1, 2), (2, 0, 1), (1, 2, 0), (0, 1, 0)])
        give = [paths[i] for i in k]
        files = [files[i] for i in k]
    late = sx.bool("late")
    if late:
        cpe = mod.ConfigParserEnhanced()
        cpe.inifilepath = give
    else:
        cpe = mod.ConfigParserEnhanced(give)
    want = merge(files)
    got = raw(cpe)
    sx.observe(got)
    sx.require_eq(got, want, "merged sections and options")
    sx.require_eq(list(cpe.configparserenhanceddata.sections()), [s for s in want], "section order")
    for s in want:
        sx.require_eq(dict(cpe.configparserenhanceddata[s]), want[s], "expanded section")
    sx.require_eq([str(x) for x in cpe.inifilepath], [str(x) for x in give], "file list")


def missing(sx):
    """Any file of the list missing: every access is an error, none returns data."""
    mod = sx.module("configparserenhanced")
    good1 = sx.file("a.ini", "[A]\nk: a\n")
    good2 = sx.file("b.ini", "[A]\nk: b\n[B]\nl: b\n")
    d = sx.path("dir")
    sx.file("dir/x", "")
    bad = {"gone": sx.path("gone.ini"), "dir": d, "nodir": sx.path("no/such.ini")}
    what = [sx.choice("e%d" % i, ["a", "b", "gone", "dir", "nodir"]) for i in range(3)]
    lst = [{"a": good1, "b": good2}.get(w) or bad[w] for w in what]
    n = sx.choice("n", [1, 2, 3])
    what, lst = what[:n], lst[:n]
    if n == 1 and sx.bool("plain"):
        lst = lst[0]
    cpe = mod.ConfigParserEnhanced(lst)
    has_bad = any(w in bad for w in what)

    def ask(q):
        if q == "raw":
            return raw(cpe)
        if q == "parse":
            return dict(cpe.parse_section("A"))
        if q == "item":
            return dict(cpe.configparserenhanceddata["A"])
        if q == "sections":
            return list(cpe.configparserenhanceddata.sections())
        if q == "has":
            return cpe.configparserenhanceddata.has_section("A")
        return cpe.unroll_to_str()
    for i in range(2):
        q = sx.choice("q%d" % i, ["raw", "parse", "item", "sections", "has", "unroll"])
        r = sx.attempt(lambda: ask(q))
        sx.observe(r.kind)
        if has_bad:
            sx.require(not r.ok and isinstance(r.exc, OSError),
                       "access %d (%s) with a missing file: %s" % (i, q, r.kind))
        else:
            sx.require(r.ok, "access %d (%s) with all files there: %s" % (i, q, r.kind))
    if has_bad:
        cpe.inifilepath = [good1, good2]
        sx.require_eq(raw(cpe), {"A": {"k": "b"}, "B": {"l": "b"}}, "after naming existing files")
        sx.require_eq(dict(cpe.configparserenhanceddata["A"]), {"k": "b"}, "expanded, after naming existing files")


def broken(sx):
    """Files ConfigParser refuses are refused every time."""
    mod = sx.module("configparserenhanced")
    kind = sx.choice("kind", ["dup-opt", "dup-sec", "no-header", "fine", "dup-across"])
    k = sx.word("k", ["kl"])
    two = sx.file("two.ini", "[A]\nk: two\n[C]\nz: 1\n")
    text = {"dup-opt": "[A]\nk: 1\n" + k + ": 2\n[B]\nq: 1\n",
            "dup-sec": "[A]\nk: 1\n[B]\nq: 1\n[A]\n" + k + ": 2\n",
            "no-header": k + ": 1\n[A]\nk: 2\n",
            "fine": "[A]\n" + k + ": 1\n[B]\nq: 1\n",
            "dup-across": "[A]\n" + k + ": 1\n"}[kind]
    p = sx.file("one.ini", text)
    first = sx.bool("first")
    cpe = mod.ConfigParserEnhanced([p, two] if first else [two, p])
    sx.capture()
    ok = kind in ("fine", "dup-across") or (kind == "dup-opt" and k != "k")
    exp = {"dup-opt": "DuplicateOptionError", "dup-sec": "DuplicateSectionError",
           "no-header": "MissingSectionHeaderError"}.get(kind)
    for i in range(2):
        q = sx.choice("q%d" % i, ["raw", "item", "parse"])
        r = sx.attempt(lambda: raw(cpe) if q == "raw" else dict(cpe.parse_section("A")) if q == "parse"
                       else dict(cpe.configparserenhanceddata["A"]))
        sx.observe(r.kind)
        sx.require_eq(r.kind, "ok" if ok else exp, "access %d to a %s file" % (i, kind))


def args(sx):
    """What may be given as file name."""
    mod = sx.module("configparserenhanced")
    p = sx.file("a.ini", "[A]\nk: a\n")
    cpe = mod.ConfigParserEnhanced()
    r = sx.attempt(lambda: cpe.inifilepath)
    sx.require_eq(r.kind, "ValueError", "file name before it is set")
    r = sx.attempt(lambda: cpe.configparserdata)
    sx.require_eq(r.kind, "ValueError", "data before a file name is set")
    good = sx.choice("good", [None, "str", "path", "list", "plist"])
    if good:
        cpe.inifilepath = as_given(sx, good, p)
        sx.require_eq([type(x).__name__ for x in cpe.inifilepath], ["PosixPath"], "stored form")
        sx.require_eq(raw(cpe), {"A": {"k": "a"}}, "contents")
    w = sx.choice("w", ["empty", "int", "tuple", "badlist", "badlist2", "bytes", "dict", "ctor"])
    v = {"empty": [], "int": 5, "tuple": (p,), "badlist": [5], "badlist2": [p, None], "bytes": b"x",
         "dict": {}, "ctor": 7}[w]
    out = sx.capture()
    if w == "ctor":
        r = sx.attempt(lambda: mod.ConfigParserEnhanced(v))
        sx.require_eq(r.kind, "TypeError", "constructor with a number")
        return
    r = sx.attempt(lambda: setattr(cpe, "inifilepath", v))
    sx.observe(r.kind)
    if w == "empty":
        sx.require(r.ok, "empty list: " + r.kind)
        for i in range(2):
            r = sx.attempt(lambda: cpe.configparserdata)
            sx.require_eq(r.kind, "ValueError", "data with an empty file list")
        return
    sx.require_eq(r.kind, "TypeError", "assignment of " + w)
    r = sx.attempt(lambda: raw(cpe))
    if good:
        sx.require_eq((r.kind, r.value), ("ok", {"A": {"k": "a"}}), "old setting after a refused one")
    else:
        sx.require_eq(r.kind, "ValueError", "still unset after a refused setting")


def utf8(sx):
    """Files are UTF-8 whatever the locale (the check runs in the C locale)."""
    mod = sx.module("configparserenhanced")
    a = sx.string("a", 1, 2, "aé漢\U0001f600")
    p = sx.file("a.ini", "[S" + a + "]\nk" + a + ": v" + a + "\n# " + a + "\n")
    cpe = mod.ConfigParserEnhanced(p)
    got = raw(cpe)
    sx.observe(got)
    sx.require_eq(got, {"S" + a: {"k" + a: "v" + a}}, "UTF-8 contents")


def encoding(sx):
    """A file that is not UTF-8 is no configuration, each time."""
    mod = sx.module("configparserenhanced")
    bad = sx.choice("bad", ["\udce9", "\udcff\udcfe", "\udc80", "\udcc3", "\udce2\udc82", "\udced\udca0\udc80"])
    where = sx.choice("where", ["value", "key", "section", "comment", "first", "last"])
    t = {"value": "[A]\nk: a%s\nl: 1\n", "key": "[A]\nk%s: a\n", "section": "[A]\nk: a\n[B%s]\nm: 1\n",
         "comment": "# c%s\n[A]\nk: a\n", "first": "%s[A]\nk: a\n", "last": "[A]\nk: a\n%s"}[where] % bad
    b = sx.file("b.ini", t)
    g = sx.file("g.ini", "[A]\nk: good\n[G]\ng: 1\n")
    given = {"alone": b, "first": [b, g], "last": [g, b]}[sx.choice("given", ["alone", "first", "last"])]
    cpe = mod.ConfigParserEnhanced(given)
    for i in range(2):
        how = sx.choice("how%d" % i, ["raw", "data", "sections", "parse"])
        r = sx.attempt(lambda: {"raw": lambda: raw(cpe), "data": lambda: dict(cpe.configparserenhanceddata["A"]),
                                "sections": lambda: list(cpe.configparserenhanceddata.sections()),
                                "parse": lambda: cpe.parse_section("A")}[how]())
        sx.observe(r.kind)
        sx.require(not r.ok, "a file that is not UTF-8 is refused: %s gave %r" % (how, r.value))


NAMES = ["a.ini", "A.ini", " a.ini", "a.ini ", "\ta.ini", "a,b.ini", "a;b.ini", "a:b.ini", "a b.ini", "$X.ini", "${X}",
         "%X%", "~", "~root", "~/x.ini", "*.ini", "[ab].ini", "{a,b}.ini", "?.ini", "a", "a.txt", "a.ini.bak", ".a.ini",
         "#a.ini", "'a.ini'", '"a.ini"', "a\\b.ini", "sub/a.ini", "a.ini\n", "-", "file:a.ini"]


def names(sx):
    """The file read is the one named, whatever the name looks like."""
    import os
    mod = sx.module("configparserenhanced")
    name = sx.choice("name", NAMES)
    for d in ("a.ini", "b.ini", "x.ini", "b", "X"):
        if d != name:
            sx.file(d, "[A]\nk: decoy\n[" + "D]\n")
    sx.file(name, "[A]\nk: right\n")
    sx.file("z.ini", "[Z]\nz: 1\n")
    cwd = os.getcwd()
    how = sx.choice("how", ["str", "path", "list", "plist"])
    more = sx.choice("more", ["alone", "first", "last"])
    given = sx.path(name)
    if sx.bool("relative"):
        os.chdir(sx.path("."))
        given = name
    g = as_given(sx, how, given)
    if more != "alone":
        if not isinstance(g, list):
            g = [g]
        z = sx.path("z.ini")
        g = [z] + g if more == "last" else g + [z]
    cpe = mod.ConfigParserEnhanced(g)
    r = sx.attempt(lambda: raw(cpe))
    e = sx.attempt(lambda: dict(cpe.configparserenhanceddata["A"]))
    os.chdir(cwd)
    sx.observe(r.kind, r.value)
    want = {"A": {"k": "right"}}
    if more != "alone":
        want["Z"] = {"z": "1"}
    sx.require_eq((r.kind, r.value), ("ok", want), "contents of " + repr(name))
    sx.require_eq((e.kind, e.value), ("ok", {"k": "right"}), "section of " + repr(name))


def override(sx):
    """A later value replaces the earlier one, also by an empty one or none;
    section and option names are compared as they are."""
    mod = sx.module("configparserenhanced")
    vals = []
    secs = []
    keys = []
    files = []
    for i in range(3):
        v = sx.choice("v%d" % i, ["one", "", None] if i else ["one", None])
        sec = sx.choice("sec%d" % i, ["S", "s", "S "]) if i == 1 else "S"
        key = sx.word("key%d" % i, ["kK\u212a", "\u00dfs e\u0301"]).strip() if i == 1 else "ks"
        files.append([(sec, [Opt(key, v), Opt("m%d" % i, "x")])])
    paths = [sx.file("f%d.ini" % i, render(s)) for i, s in enumerate(files)]
    cpe = mod.ConfigParserEnhanced(paths)
    want = merge(files)
    got = raw(cpe)
    sx.observe(got)
    sx.require_eq(got, want, "merged sections and options")
    sx.require_eq(list(cpe.configparserenhanceddata.sections()), [s for s in want], "section order")
    for s in want:
        sx.require_eq(dict(cpe.configparserenhanceddata[s]), want[s], "expanded section")


SCENARIOS = [
    dict(name="encoding", fn="encoding", paths=CORE,
         bounds="6 byte sequences that are not UTF-8 at 6 places of one of 1..2 files, 2 accesses of 4 kinds"),
    dict(name="names", fn="names", paths=CORE,
         bounds="31 file names with blanks, separators and shell characters, 4 forms, alone or in a list, absolute and relative"),
    dict(name="override", fn="override", paths=CORE,
         bounds="3 files, values one/empty/none, similar section and key names"),
    dict(name="order-2x2", fn="order", paths=CORE, kw=dict(n=2, size=2),
         bounds="2 files x 2 sections, symbolic section names, keys, values"),
    dict(name="order-3x1", fn="order", paths=CORE, kw=dict(n=3, size=1),
         bounds="3 files x 1 section in 4 list orders (one with a file twice)"),
    dict(name="missing", fn="missing", paths=CORE,
         bounds="lists of 1..3 entries from 2 good and 3 bad paths, two accesses of 6 kinds"),
    dict(name="broken", fn="broken", paths=CORE, bounds="5 kinds of file, 2 positions, two accesses"),
    dict(name="args", fn="args", paths=CORE, bounds="4 accepted and 8 refused forms of file name"),
    dict(name="utf8", fn="utf8", paths=CORE, bounds="texts of 1..2 characters of 1 to 4 bytes"),
    dict(name="order-3x2", fn="order", paths=CORE, kw=dict(n=3, size=2), tiers=("thorough",),
         bounds="3 files x 2 sections"),
]
