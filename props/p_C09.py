"""C09: unrolled output read back is the same configuration, without `use`."""
import io

from lib import CORE, PRINT, EXOTIC, without, peculiar, WORDS, Opt, Use, Op, render, expand, distinct_keys

ASSUMPTIONS = ["an option without a value may come back with the empty value",
               "keys do not start with a comment character"]


def subclass(mod):
    oh = mod.ConfigParserEnhanced.operation_handler

    class Rec(mod.ConfigParserEnhanced):
        @oh
        def handler_rec(self, s, hp):
            return 0
    return Rec


KCH = without(PRINT + EXOTIC, "=:" + chr(34) + chr(39) + chr(92))


def norm(d):
    return {k: ("" if v is None else v) for k, v in d.items()}


def everything(cpe):
    return {s: norm(dict(cpe.configparserenhanceddata[s])) for s in cpe.configparserenhanceddata.sections()}


def check(sx, cls, base, cpe, only, tag=""):
    """Unroll, read back with the plain class, compare."""
    own = sx.bool("own")
    space = sx.bool("space")
    out = sx.capture()
    text = cpe.unroll_to_str(section=only, space_around_delimiters=space, use_base_class_parser=not own)
    if own:
        src = cpe
    else:
        src = base(cpe.inifilepath)
        src.configparser_delimiters = cpe.configparser_delimiters
        src.default_section_name = cpe.default_section_name
    src.exception_control_silent_warnings = True
    want = everything(src)
    if only is not None:
        want = {only: want[only]}
    p2 = sx.file("again.ini", text)
    back = base(p2)
    back.configparser_delimiters = cpe.configparser_delimiters
    back.default_section_name = "none of these"
    back.exception_control_level = 5
    rawkeys = [k for s in back.configparserdata.sections() for k in back.configparserdata[s]]
    got = everything(back)
    sx.observe(text)
    sx.require_eq(got, want, "options read back from the unrolled text")
    sx.require_eq(list(got.keys()), list(want.keys()), "sections in order")
    for k in rawkeys:
        sx.require(not k.startswith("use "), "a `use` is left in the output")
    return text


def graph(sx, names, sizes, kinds):
    mod = sx.module("configparserenhanced")
    secs = []
    for n, size in zip(names, sizes):
        es = []
        for i in range(size):
            t = n + str(i)
            k = sx.choice(t + ".kind", kinds)
            if k == "use":
                es.append(Use(sx.choice(t + ".to", names)))
            elif k == "op":
                es.append(Op("rec", [sx.word(t + ".key", ["pq"])], t))
            elif k == "nov":
                es.append(Opt(sx.word(t + ".key", ["pq"]), None))
            else:
                es.append(Opt(sx.word(t + ".key", ["pq"]), t))
        secs.append((n, es))
    sx.assume(distinct_keys(secs))
    cls = subclass(mod)
    cpe = cls(sx.file("c.ini", render(secs)))
    lvl = sx.choice("level", [4, 1])
    cpe.exception_control_level = lvl
    cpe.exception_control_silent_warnings = True
    only = sx.choice("only", [None] + list(names))
    check(sx, cls, mod.ConfigParserEnhanced, cpe, only)
    sx.require_eq(cpe.exception_control_level, lvl, "level after unrolling")


def values(sx, lo, hi, chars):
    """Symbolic values, one or several lines."""
    mod = sx.module("configparserenhanced")
    v = sx.string("v", lo, hi, chars)
    form = sx.choice("form", ["plain", "quoted", "two-lines", "three-lines", "percent", "blank-line"])
    w = {"plain": v, "quoted": '"' + v + '"', "two-lines": "a" + v + "\n  b" + v,
         "three-lines": "\n    a" + v + "\n  b\n   c" + v, "percent": v + "%%" + v,
         "blank-line": "a" + v + "\n\n  b" + v}[form]
    sx.assume(not v.startswith("#") and not v.startswith(";"))
    text = "[A]\nk: " + w + "\nnext: n\n[B]\nuse A\n"
    cls = mod.ConfigParserEnhanced
    cpe = cls(sx.file("c.ini", text))
    check(sx, cls, cls, cpe, sx.choice("only", [None, "A", "B"]))


def keys(sx, lo, hi):
    """Symbolic keys."""
    mod = sx.module("configparserenhanced")
    k = sx.string("k", lo, hi, KCH)
    sx.assume(k == k.strip() and not k.startswith("#") and not k.startswith(";")
              and not k.startswith("["))
    cls = mod.ConfigParserEnhanced
    v = sx.choice("v", [None, "", "x y"])
    secs = [("A", [Opt(k, v), Opt("next", "n")]), ("B", [Use("A"), Opt("k0", "z")])]
    cpe = cls(sx.file("c.ini", render(secs)))
    check(sx, cls, cls, cpe, sx.choice("only", [None, "B"]))


def sections(sx):
    """Symbolic section names; one section or the whole file."""
    mod = sx.module("configparserenhanced")
    n = sx.string("n", 1, 3, without(PRINT + EXOTIC, "]:=%" + chr(34) + chr(39) + chr(92)))
    sx.assume(n != "Z" and n != "DEFAULT")
    secs = [(n, [Opt("k", "1")]), ("Z", [Use(n, "'"), Opt("l", "2")])]
    cls = mod.ConfigParserEnhanced
    cpe = cls(sx.file("c.ini", render(secs)))
    only = sx.choice("only", ["file", "n", "Z"])
    check(sx, cls, cls, cpe, {"file": None, "n": n, "Z": "Z"}[only])


def inner(sx):
    """Any characters within keys and values of one or two lines."""
    mod = sx.module("configparserenhanced")
    k = sx.word("k", ["aé", KCH, "b漢-"]) if sx.bool("key") else "k"
    v = "v"
    if k == "k":
        v = sx.word("v", ["aé[", without(PRINT + EXOTIC, "%"), without(PRINT + EXOTIC, "%"), "b漢,"])
        if sx.bool("two"):
            v = v + "\n  " + v
    text = "[A]\n" + k + ": " + v + "\nnext: n\n[B]\nuse A\n"
    cls = mod.ConfigParserEnhanced
    cpe = cls(sx.file("c.ini", text))
    check(sx, cls, cls, cpe, sx.choice("only", [None, "B"]))


def special(sx):
    """Long texts, and words that mean something elsewhere, as values and keys."""
    mod = sx.module("configparserenhanced")
    cls = mod.ConfigParserEnhanced
    k, v = "k", "v"
    if sx.bool("key"):
        k = peculiar(sx, "x", KCH, words=[w for w in WORDS if without(w, "=:" + chr(34) + chr(39) + chr(92)) == w])
    else:
        v = peculiar(sx, "x", VCH)
        form = sx.choice("form", ["plain", "more", "used"])
        if form == "more":
            v = "a\n  " + v + "\n  b"
    text = "[A]\n" + k + ": " + v + "\nnext: n\n[B]\nuse A\n"
    check(sx, cls, cls, cls(sx.file("c.ini", text)), sx.choice("only", [None, "B"]))


def settings(sx):
    """Delimiters and default section name of the object count."""
    mod = sx.module("configparserenhanced")
    d = sx.choice("d", [("=", ":"), ("=",), (":",), ("|",), ("->", "=")])
    x = sx.choice("x", ["=", ":", "|", "-"])
    sx.assume(not any(x in e for e in d))
    dn = sx.choice("dn", ["DEFAULT", "C"])
    text = "[A]\nk" + x + "1 " + d[0] + " v\nuse B\n[B]\nl" + d[-1] + "w" + x + "\n[" + "C]\nz" + d[0] + "1\n"
    cls = mod.ConfigParserEnhanced
    cpe = cls(sx.file("c.ini", text))
    cpe.configparser_delimiters = d
    cpe.default_section_name = dn
    t = check(sx, cls, cls, cpe, None)
    sx.require_eq(cpe.configparser_delimiters, d, "delimiters of the object")


def write(sx):
    """write() writes what unroll_to_str returns."""
    mod = sx.module("configparserenhanced")
    cls = subclass(mod)
    v = sx.string("v", 0, 1, "ab")
    cpe = cls(sx.file("c.ini", "[A]\nk: " + v + "\nrec x: 1\nuse B\n[B]\nl: 2\nuse A\n"))
    cpe.exception_control_silent_warnings = True
    kw = {}
    if sx.bool("sp"):
        kw["space_around_delimiters"] = sx.bool("space")
    if sx.bool("se"):
        kw["section"] = sx.choice("only", ["A", "B", "Z", None])
    if sx.bool("ba"):
        kw["use_base_class_parser"] = sx.bool("base")
    p = sx.path("out.ini")
    r1 = sx.attempt(lambda: cpe.unroll_to_str(**kw))
    f = open(p, "w", encoding="utf-8")
    r2 = sx.attempt(lambda: cpe.write(f, **kw))
    f.close()
    sx.observe(r1.kind, r2.kind)
    sx.require_eq(r2.kind, r1.kind, "outcome of write")
    sx.require_eq(sx.read(p), r1.value if r1.ok else "", "text written")
    if kw.get("section") == "Z":
        sx.require_eq(r1.kind, "KeyError", "unrolling a missing section")
    else:
        sx.require_eq(r2.value, 0, "return value of write")
    sx.require_eq(cpe.exception_control_level, 4, "level afterwards")
    bad = sx.choice("bad", ["name.ini", None, 5])
    r = sx.attempt(lambda: cpe.write(bad))
    sx.require_eq(r.kind, "TypeError", "write to something that is not a file object")
    r = sx.attempt(lambda: cpe.unroll_to_str(section=5))
    sx.require_eq(r.kind, "TypeError", "section that is not a string")


VCH = without(PRINT + EXOTIC, "%")
SCENARIOS = [
    dict(name="special", fn="special", paths=CORE, bounds="%d special words and texts of 32..300 characters with any character" % len(WORDS)),
    dict(name="graph-2x2", fn="graph", paths=CORE,
         kw=dict(names=["A", "B"], sizes=[2, 2], kinds=["opt", "use", "op", "nov"]),
         bounds="2 sections x 2 entries of 4 kinds, whole file or one section, both parsers"),
    dict(name="graph-3", fn="graph", paths=CORE,
         kw=dict(names=["A", "B", "DEFAULT"], sizes=[2, 1, 1], kinds=["opt", "use"]),
         bounds="3 sections (one the default section)"),
    dict(name="values", fn="values", paths=CORE, kw=dict(lo=0, hi=2, chars=VCH),
         bounds="values of 0..2 symbolic characters over %d in 6 forms, also multi-line" % len(VCH)),
    dict(name="keys", fn="keys", paths=CORE, kw=dict(lo=1, hi=2),
         bounds="keys of 1..2 symbolic characters over %d" % len(KCH)),
    dict(name="sections", fn="sections", paths=CORE,
         bounds="section names of 1..3 symbolic characters, whole file or one section"),
    dict(name="inner", fn="inner", paths=CORE, bounds="1..2 arbitrary characters within keys and values"),
    dict(name="settings", fn="settings", paths=CORE, bounds="5 delimiter sets, 2 default section names"),
    dict(name="write", fn="write", paths=CORE, bounds="all combinations of the arguments of write"),
    dict(name="values-3", fn="values", paths=CORE, kw=dict(lo=3, hi=3, chars=VCH), tiers=("thorough",),
         bounds="values of 3 symbolic characters"),
    dict(name="keys-3", fn="keys", paths=CORE, kw=dict(lo=3, hi=3), tiers=("thorough",),
         bounds="keys of 3 symbolic characters"),
]
