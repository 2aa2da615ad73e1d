"""C03: option keys, values and section names arrive as written."""
from lib import CORE, PRINT, EXOTIC, without, peculiar, WORDS

ASSUMPTIONS = ["`%` (ConfigParser interpolation) is outside the value domain",
               "keys are words a shell-style tokenizer accepts (no unbalanced quotes, no backslash)"]

KEYCH = without(PRINT + EXOTIC, "=:%" + chr(34) + chr(39) + chr(92))
VALCH = without(PRINT + EXOTIC, "%")


def strip_value(v):
    return v.strip().strip('"')


def one(sx, klo, khi, vlo, vhi, keych=KEYCH, valch=VALCH):
    mod = sx.module("configparserenhanced")
    key = sx.string("key", klo, khi, keych)
    sx.assume(key == key.strip() and key != "" and not key.startswith(("#", ";", "[")))
    sep = sx.choice("sep", [":", "=", " : ", " =", ":  "])
    val = sx.string("val", vlo, vhi, valch)
    sx.assume(not val.lstrip().startswith(("#", ";")) or True)
    first = key.split()[0]
    sx.assume(first != "use")
    p = sx.file("c.ini", "[S]\nother: x\n" + key + sep + val + "\nlast\n")
    sx.assume(key != "other" and key != "last")
    cpe = mod.ConfigParserEnhanced(p)
    raw = [(k, v) for k, v in cpe.configparserdata["S"].items()]
    got = [(k, v) for k, v in cpe.configparserenhanceddata["S"].items()]
    sx.observe(raw, got)
    sx.require_eq(raw, [("other", "x"), (key, val.strip()), ("last", None)], "raw options")
    sx.require_eq(got, [("other", "x"), (key, strip_value(val)), ("last", None)],
                  "options of the parsed section")
    sx.require(cpe.configparserenhanceddata.has_option("S", key), "has_option on a present key")
    sx.require_eq(cpe.configparserenhanceddata.get("S", key), strip_value(val), "get()")


def inner(sx):
    """Any character within a key, a value and a section name, also after `use`."""
    mod = sx.module("configparserenhanced")
    what = sx.choice("what", ["key", "value", "section"])
    key, val, sec = "k e", "v w", "S T"
    if what == "key":
        key = sx.word("key", ["aZ9.é", KEYCH, KEYCH, "b漢-@"])
    elif what == "value":
        val = sx.word("val", ["a[é", VALCH, VALCH, "b漢,"])
    else:
        sec = sx.word("sec", ["aD[é", without(PRINT + EXOTIC, "]%:=" + chr(34) + chr(39) + chr(92)), "b漢 "])
    p = sx.file("c.ini", "[" + sec + "]\n" + key + ": " + val + "\n[Z]\nuse '" + sec + "'\n")
    sx.assume(key != "use" and sec != "Z")
    cpe = mod.ConfigParserEnhanced(p)
    d = cpe.configparserenhanceddata
    secs = list(d.sections())
    a, b = dict(d[sec]), dict(d["Z"])
    sx.observe(secs, a, b)
    sx.require_eq(secs, [sec, "Z"], "section names")
    sx.require_eq(a, {key: val}, "option")
    sx.require_eq(b, {key: val}, "option, through use")


def special(sx):
    """Words that mean something elsewhere, and long texts, as key, value and section name."""
    mod = sx.module("configparserenhanced")
    what = sx.choice("what", ["key", "value", "section", "two"])
    drop = "=:%" + chr(34) + chr(39) + chr(92)
    key, val, sec = "k", "v", "S"
    plain = [w for w in WORDS if without(w, drop) == w]
    if what == "key":
        key = peculiar(sx, "x", KEYCH, words=plain)
    elif what == "section":
        sec = peculiar(sx, "x", without(KEYCH, "]"), words=plain)
    else:
        val = peculiar(sx, "x", VALCH)
    text = "[" + sec + "]\n" + key + ": " + val + ("\n  " + val if what == "two" else "") + "\n[Z]\nuse '" + sec + "'\n"
    cpe = mod.ConfigParserEnhanced(sx.file("c.ini", text))
    want = {key: strip_value(val + "\n" + val if what == "two" else val)}
    d = cpe.configparserenhanceddata
    a, b = dict(d[sec]), dict(d["Z"])
    sx.observe(list(d.sections()), a, b)
    sx.require_eq(list(d.sections()), [sec, "Z"], "section names")
    sx.require_eq(a, want, "option")
    sx.require_eq(b, want, "option, through use")


def novalue(sx):
    """`key` (no delimiter) is None, `key:` is the empty string."""
    mod = sx.module("configparserenhanced")
    key = sx.string("key", 1, 2, "aZ0-_.é")
    kind = sx.choice("kind", [("", None), (":", ""), ("=", ""), (": \"\"", ""), (" :", ""),
                              ("   ", None), (": 0", "0"), (': None', "None")])
    p = sx.file("c.ini", "[S]\n" + key + kind[0] + "\n[T]\nuse S\n")
    cpe = mod.ConfigParserEnhanced(p)
    r = dict(cpe.configparserenhanceddata["S"])
    t = dict(cpe.configparserenhanceddata["T"])
    sx.observe(r, t)
    sx.require_eq(r, {key: kind[1]}, "option without a value")
    sx.require_eq(t, {key: kind[1]}, "option without a value, through use")


def case(sx):
    """Keys and section names are case-sensitive and never merged."""
    mod = sx.module("configparserenhanced")
    k1 = sx.string("k1", 1, 2, "aAéÉ-_")
    k2 = sx.string("k2", 1, 2, "aAéÉ-_")
    s1 = sx.string("s1", 1, 2, "sS é")
    s2 = sx.string("s2", 1, 2, "sS é")
    sx.assume(k1 != k2 and s1 != s2)
    p = sx.file("c.ini", "[" + s1 + "]\n" + k1 + ": 1\n" + k2 + ": 2\n[" + s2 + "]\n" + k1 + ": 3\n")
    cpe = mod.ConfigParserEnhanced(p)
    d = cpe.configparserenhanceddata
    secs = list(d.sections())
    sx.require_eq(secs, [s1, s2], "section names")
    a, b = dict(d[s1]), dict(d[s2])
    sx.observe(secs, a, b)
    sx.require_eq(a, {k1: "1", k2: "2"}, "options differing in case only")
    sx.require_eq(b, {k1: "3"}, "second section")
    sx.require_eq(len(d), 2, "number of sections")


def multiline(sx):
    """Indented continuation lines are kept, one line each."""
    mod = sx.module("configparserenhanced")
    n = sx.choice("lines", [2, 3])
    body = [sx.string("l%d" % i, 1, 2, "ab=: \"#[") for i in range(n)]
    for b in body:
        sx.assume(b == b.strip() and not b.startswith(("#", ";", '"')) and not b.endswith('"'))
    ind = sx.choice("indent", [" ", "\t", "    "])
    blank = sx.choice("blank", [None, "", "  "])
    text = body[0]
    want = body[0]
    for i, b in enumerate(body[1:]):
        if blank is not None and i == 0:
            text += "\n" + blank
            want += "\n"
        text += "\n" + ind + b
        want += "\n" + b
    p = sx.file("c.ini", "[S]\nk: " + text + "\nz: 1\n[T]\nuse S\n")
    cpe = mod.ConfigParserEnhanced(p)
    got = dict(cpe.configparserenhanceddata["S"])
    sx.observe(got)
    sx.require_eq(got, {"k": want, "z": "1"}, "continuation lines")
    sx.require_eq(dict(cpe.configparserenhanceddata["T"]), {"k": want, "z": "1"}, "continuation lines, through use")
    sx.require_eq(dict(cpe.configparserdata["S"]), {"k": want, "z": "1"}, "continuation lines, raw")


SCENARIOS = [
    dict(name="key-value", fn="one", paths=CORE, kw=dict(klo=1, khi=2, vlo=0, vhi=2),
         bounds="key 1..2 characters over %d symbols, value 0..2 over %d, 5 delimiter spellings"
                % (len(KEYCH), len(VALCH))),
    dict(name="value-long", fn="one", paths=CORE,
         kw=dict(klo=1, khi=1, vlo=3, vhi=4, keych="k", valch="a \"'#"),
         bounds="value 3..4 characters over a, blank, both quotes, #"),
    dict(name="inner", fn="inner", paths=CORE,
         bounds="two arbitrary characters (%d symbols) within key, value or section name" % len(VALCH)),
    dict(name="special", fn="special", paths=CORE,
         bounds="%d special words, texts of 32..300 characters with any character, as key, section or value" % len(WORDS)),
    dict(name="no-value", fn="novalue", paths=CORE, bounds="8 spellings of a missing value"),
    dict(name="case", fn="case", paths=CORE, bounds="2 keys and 2 section names of 1..2 characters"),
    dict(name="multiline", fn="multiline", paths=CORE, bounds="2..3 lines of 1..2 characters, a blank line between or not"),
    dict(name="key-long", fn="one", paths=CORE, tiers=("thorough",),
         kw=dict(klo=3, khi=4, vlo=0, vhi=1, keych="aZ_-. #é"),
         bounds="key 3..4 characters over 8 symbols"),
    dict(name="value-longer", fn="one", paths=CORE, tiers=("thorough",),
         kw=dict(klo=1, khi=2, vlo=3, vhi=5, keych="ké", valch="aé \"':="),
         bounds="value 3..5 characters over 7 symbols"),
]
