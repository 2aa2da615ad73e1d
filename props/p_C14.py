"""C14: keyword values: the uncommented words of an option, validated."""
from lib import KWP, PRINT, EXOTIC, without, peculiar, WORDS

WIDE = without(PRINT + EXOTIC, "\"%")

ASSUMPTIONS = ["values contain no double quotes and no `%`; lines do not start with `;`"]


def words(lines):
    out = []
    for l in lines:
        v = l.split("#")[0].strip()
        if v != "":
            out.append(v)
    return out


def valid(vals, keys):
    for i in range(len(vals)):
        if vals[i] in vals[:i]:
            return False
        if vals[i] in keys:
            return False
        if vals[i] not in ("SELECT_ONE", "SELECT_MANY") and any(c in vals[i] for c in " \t_"):
            return False
    return True


def lines(sx, n, lo, hi, chars, first):
    """n symbolic lines of values."""
    kp = sx.module("keywordparser")
    ls = [sx.string("l%d" % i, lo, hi, chars) for i in range(n)]
    for l in ls:
        sx.assume(not l.strip().startswith(";"))
    head = ls[0] if first else ""
    text = "[S]\nkey: " + head + "\n"
    for l in ls[1 if first else 0:]:
        text += "    " + l + "\n"
    text += "b:\n    other\n"
    p = kp.KeywordParser(sx.file("k.ini", text))
    r = sx.attempt(lambda: p.get_values_for_section_key("S", "key"))
    want = words(ls)
    ok = valid(want, ["key", "b"])
    sx.observe(r.kind, r.value)
    if ok:
        sx.require_eq((r.kind, r.value), ("ok", want), "values")
    else:
        sx.require_eq(r.kind, "SystemExit", "invalid values %r" % (want,))


def lookup(sx):
    """The key that lists a value."""
    kp = sx.module("keywordparser")
    va = [sx.word("a%d" % i, ["xyz"]) for i in range(2)]
    vb = [sx.word("b%d" % i, ["xyzw"]) for i in range(2)]
    inv = sx.choice("inv", ["-c", ""])
    text = "[S]\nka:  # first\n  " + va[0] + inv + "\n  # note\n\n  " + va[1] + " # more\n"
    text += "kb: " + vb[0] + "\n    " + vb[1] + "\nkc\n[T]\nkt: x\n"
    p = kp.KeywordParser(sx.file("k.ini", text))
    q = sx.string("q", 1, 2, "xyzwc-k X#")
    r = sx.attempt(lambda: p.get_key_for_section_value("S", q))
    la, lb = [va[0] + inv, va[1]], vb
    keys = ["ka", "kb", "kc"]
    sx.observe(r.kind, r.value)
    if not valid(la, keys) or not valid(lb, keys):
        sx.require_eq(r.kind, "SystemExit", "invalid values in the section")
    elif q in la or q in lb:
        sx.require(r.ok, "value %r is listed but not found: %s" % (q, r.kind))
        sx.require(r.value == "ka" and q in la or r.value == "kb" and q in lb, "key of the value: %r" % (r.value,))
    else:
        sx.require_eq(r.kind, "SystemExit", "value that no key lists")


def used(sx):
    """Values of sections that are brought in by `use`."""
    kp = sx.module("keywordparser")
    a = sx.word("a", ["xykl"])
    b = sx.word("b", ["xykl"])
    first = sx.bool("first")
    body = ["use BASE", "k: " + b + "\n   n"]
    if not first:
        body.reverse()
    text = "[BASE]\nk: " + a + "\nl:\n  " + a + "\n  m\n[S]\n" + "\n".join(body) + "\n"
    p = kp.KeywordParser(sx.file("k.ini", text))
    got = {}
    for k in ("k", "l"):
        r = sx.attempt(lambda: p.get_values_for_section_key("S", k))
        got[k] = (r.kind, r.value)
    sx.observe(got)
    kv = [b, "n"] if first else [a]
    bad = [v for v in kv if v in ("k", "l")]
    sx.require_eq(got["k"], ("SystemExit", None) if bad else ("ok", kv), "values of k")
    sx.require_eq(got["l"], ("SystemExit", None) if a in ("k", "l") else ("ok", [a, "m"]), "values of l")
    q = sx.choice("q", [b, a, "m", "n", "k", "l", "use BASE"])
    r = sx.attempt(lambda: p.get_key_for_section_value("S", q))
    sx.observe(r.kind, r.value)
    if bad or a in ("k", "l"):
        sx.require_eq(r.kind, "SystemExit", "invalid values in the section")
    elif q in kv or q in (a, "m"):
        sx.require(r.ok and (r.value == "k" and q in kv or r.value == "l" and q in (a, "m")),
                   "key of %r: %s %r" % (q, r.kind, r.value))
    else:
        sx.require_eq(r.kind, "SystemExit", "value that no key lists")


def around(sx):
    """A value is found under its exact text only."""
    kp = sx.module("keywordparser")
    c = sx.string("c", 0, 1, WIDE)
    w = sx.choice("form", ["before", "after", "inner", "upper"])
    q = {"before": c + "Ab", "after": "Ab" + c, "inner": "A" + c + "b", "upper": "ab" + c}[w]
    p = kp.KeywordParser(sx.file("k.ini", "[S]\nka: Ab # Ab c\nkb:\n  A-b  # x\n  ab\n[T]\nkt: Abc\n"))
    r = sx.attempt(lambda: p.get_key_for_section_value("S", q))
    sx.observe(r.kind, r.value)
    want = {"Ab": "ka", "A-b": "kb", "ab": "kb"}
    if q in want:
        sx.require_eq((r.kind, r.value), ("ok", want[q]), "key of the value")
    else:
        sx.require_eq(r.kind, "SystemExit", "value that no key lists")


def missing(sx):
    kp = sx.module("keywordparser")
    p = kp.KeywordParser(sx.file("k.ini", "[S]\nkey: v\nnone\nempty:\n"))
    s = sx.word("s", ["ST"])
    k = sx.choice("k", ["key", "none", "empty", "nokey"])
    r = sx.attempt(lambda: p.get_values_for_section_key(s, k))
    sx.observe(r.kind, r.value)
    if s == "T" or k == "nokey":
        sx.require_eq(r.kind, "KeyError", "missing section or key")
    else:
        sx.require_eq((r.kind, r.value), ("ok", ["v"] if k == "key" else []), "values")


def wide(sx):
    """Any character inside, before or after a value."""
    kp = sx.module("keywordparser")
    c = sx.string("c", 1, 1, WIDE)
    a = sx.choice("form", ["inner", "first", "last", "own", "twice"])
    ls = {"inner": ["x", "a" + c + "b"], "first": ["x", c + "b"], "last": ["a" + c, "x"], "own": ["x", c, "y"],
          "twice": ["ab", "a" + c + "b", "a" + c]}[a]
    for l in ls:
        sx.assume(not l.strip().startswith(";"))
    own = sx.bool("head")
    text = "[S]\nk:" + (" " + ls[0] + "\n" if own else "\n")
    for l in ls[1 if own else 0:]:
        text += "  " + l + "\n"
    text += "aKb: q\na.b:\n"
    p = kp.KeywordParser(sx.file("k.ini", text))
    r = sx.attempt(lambda: p.get_values_for_section_key("S", "k"))
    want = words(ls)
    sx.observe(r.kind, r.value)
    if any(ch.isspace() or ch == "_" for v in want for ch in v) or not valid(want, ["k", "aKb", "a.b"]):
        sx.require_eq(r.kind, "SystemExit", "invalid values %r" % (want,))
    else:
        sx.require_eq((r.kind, r.value), ("ok", want), "values")


def special(sx):
    """Words that mean something elsewhere, long words, and many of them."""
    kp = sx.module("keywordparser")
    w = peculiar(sx, "w", without(PRINT, "\"%"), False, [w for w in WORDS if without(w, '"') == w])
    n = sx.choice("more", [0, 2, 12])
    ls = [w] + ["v%d" % i for i in range(n)]
    if sx.bool("last"):
        ls.reverse()
    head = sx.bool("head")
    if head:
        text = "[S]\nkey: " + ls[0] + "\n" + "".join("  " + l + "\n" for l in ls[1:])
    else:
        text = "[S]\nkey:\n" + "".join("  " + l + "\n" for l in ls)
    p = kp.KeywordParser(sx.file("k.ini", text + "b:\n  other\n"))
    r = sx.attempt(lambda: p.get_values_for_section_key("S", "key"))
    want = words(ls)
    sx.observe(r.kind, r.value)
    if valid(want, ["key", "b"]):
        sx.require_eq((r.kind, r.value), ("ok", want), "values")
        q = sx.attempt(lambda: p.get_key_for_section_value("S", want[0]))
        sx.require_eq((q.kind, q.value), ("ok", "key"), "key of a value")
    else:
        sx.require_eq(r.kind, "SystemExit", "invalid values")


def flagwords(sx):
    """SELECT_ONE and SELECT_MANY, and words that differ from them a little."""
    kp = sx.module("keywordparser")
    base = sx.choice("base", ["SELECT_ONE", "SELECT_MANY"])
    how = sx.choice("how", ["case", "more", "less", "before"])
    if how == "case":
        w = sx.word("w", [ch + ch.lower() for ch in base])
    elif how == "more":
        w = base + sx.string("c", 0, 1, without(WIDE, "#"))
    elif how == "before":
        w = sx.string("c", 0, 1, without(WIDE, "#;")) + base
    else:
        k = sx.choice("k", list(range(len(base))))
        w = base[:k] + base[k + 1:]
    p = kp.KeywordParser(sx.file("k.ini", "[S]\nk: " + w + "\n  v\n"))
    r = sx.attempt(lambda: p.get_values_for_section_key("S", "k"))
    v = w.strip()
    sx.observe(r.kind, r.value)
    if v in ("SELECT_ONE", "SELECT_MANY") or not ("_" in v or any(ch.isspace() for ch in v)):
        sx.require_eq((r.kind, r.value), ("ok", [v, "v"]), "values")
    else:
        sx.require_eq(r.kind, "SystemExit", "invalid value %r" % (v,))


def ask(p, q):
    if q == "v-none":
        return p.get_values_for_section_key("NO", "k")
    if q == "v-nokey":
        return p.get_values_for_section_key("S", "zz")
    if q == "l-no":
        return p.get_key_for_section_value("S", "zz")
    if q[0] == "v":
        return p.get_values_for_section_key(q[2], q[3:])
    return p.get_key_for_section_value(q[2], q[3:])


def history(sx, n):
    """Answers do not depend on what was asked before."""
    kp = sx.module("keywordparser")
    c = sx.string("c", 1, 1, "xyzk_ X")
    d = sx.string("d", 1, 1, "xyzk")
    S = [("k", ["x" + c]), ("K", [d + "1", "y"]), ("m", ["x1"])]
    T = [("k", ["t", "y"]), ("n", ["x1"])]
    U = T + [("u", ["m"])]
    text = "[S]\nk: x" + c + "  # x\nK: " + d + "1\n   y\nm: x1\n[T]\nk: t\n   y\nn: x1\n[U]\nuse T\nu: m\n"
    f = sx.file("k.ini", text)
    p = kp.KeywordParser(f)
    other = kp.KeywordParser(f)
    secs = {"S": S, "T": T, "U": U}
    qs = ["v:Sk", "v:SK", "v:Sm", "v:Tk", "v:Uk", "v:Un", "v:Tu", "l:Sx1", "l:Sy", "l:Ty", "l:Ux1", "v-none", "v-nokey", "l-no"]
    got = []
    for i in range(n):
        q = sx.choice("q%d" % i, qs)
        who = p if i == n - 1 or sx.bool("same%d" % i) else other
        r = sx.attempt(lambda: ask(who, q))
        got.append((r.kind, r.value))
        if isinstance(r.value, list):
            r.value.append("junk")
        if q == "v-none" or q == "v-nokey" or q == "v:Tu":
            sx.require_eq(r.kind, "KeyError", "missing section or key")
            continue
        if q == "l-no":
            sx.require_eq(r.kind, "SystemExit", "value that no key lists")
            continue
        sec = secs[q[2]]
        keys = [k for k, v in sec] + (["use T"] if q[2] == "U" else [])
        if q[0] == "v":
            vals = [x.strip() for x in dict(sec)[q[3:]]]
            if valid(vals, keys):
                sx.require(r.ok, "values of " + q + ": " + r.kind)
                sx.require_eq(r.value[:-1], vals, "values of " + q)
            else:
                sx.require_eq(r.kind, "SystemExit", "invalid values")
        else:
            bad = any(not valid([x.strip() for x in v], keys) for k, v in sec)
            if bad:
                sx.require_eq(r.kind, "SystemExit", "invalid values in the section")
            else:
                listing = [k for k, v in sec if q[3:] in v]
                sx.require(r.ok and r.value in listing if listing else r.kind == "SystemExit",
                           "key of the value: %s %r" % (r.kind, r.value))
    sx.observe(got)


SCENARIOS = [
    dict(name="around", fn="around", paths=KWP, bounds="a listed value with any character before, inside or after"),
    dict(name="wide", fn="wide", paths=KWP, bounds="any printable or exotic character in 5 places of a value"),
    dict(name="special", fn="special", paths=KWP,
         bounds="%d special words and words of 33..262 characters among 0..12 others" % len(WORDS)),
    dict(name="flagwords", fn="flagwords", paths=KWP, bounds="SELECT_ONE and SELECT_MANY in any case, with a character more or less"),
    dict(name="history", fn="history", paths=KWP, kw=dict(n=2), bounds="3 sections, 2 queries of 14 on one or two objects"),
    dict(name="history-3", fn="history", paths=KWP, kw=dict(n=3), tiers=("thorough",), bounds="3 queries of 14"),
    dict(name="lines-2", fn="lines", paths=KWP, kw=dict(n=2, lo=0, hi=3, chars="ab# ^_", first=False),
         bounds="2 lines of 0..3 characters over 6"),
    dict(name="lines-first", fn="lines", paths=KWP, kw=dict(n=2, lo=0, hi=2, chars="a#- k\tb.", first=True),
         bounds="first value on the line of the key, 2 lines of 0..2 characters over 8"),
    dict(name="lines-3", fn="lines", paths=KWP, kw=dict(n=3, lo=0, hi=2, chars="ab# ", first=False),
         bounds="3 lines of 0..2 characters over 4"),
    dict(name="select", fn="lines", paths=KWP, kw=dict(n=1, lo=4, hi=5, chars="key# ", first=True),
         bounds="1 line of 4..5 characters, may spell the key"),
    dict(name="lookup", fn="lookup", paths=KWP, bounds="2 keys with 2 symbolic values, symbolic query"),
    dict(name="used", fn="used", paths=KWP, bounds="values through `use`"),
    dict(name="missing", fn="missing", paths=KWP, bounds="missing sections, keys, values"),
    dict(name="lines-3x3", fn="lines", paths=KWP, tiers=("thorough",),
         kw=dict(n=3, lo=0, hi=3, chars="ab# _", first=True), bounds="3 lines of 0..3 characters over 5"),
]
