"""C17: flags and options selected by a build name."""
from lib import GEN, PRINT, EXOTIC, without

WIDE = without(PRINT + EXOTIC, "\"%#;_ \t\x0b\x0c\x1c\x1f\x85\u2028\u00a0\u2003\u3000")

PATHS = GEN + ["/repo/wip/genconfig/src"]
ASSUMPTIONS = ["every flag lists a type and at least one option"]


def reference(flags, build):
    """flags: list of (name, type, options). Result dict, or an error kind."""
    seen = []
    for n, t, opts in flags:
        if t not in ("SELECT_ONE", "SELECT_MANY"):
            return None, "ValueError"
    for n, t, opts in flags:
        for o in opts:
            if o in seen:
                return None, "SystemExit"
            seen.append(o)
    ws = build.split("_")
    out = {}
    for n, t, opts in flags:
        hit = [o for o in opts if o in ws]
        if t == "SELECT_ONE" and len(hit) > 1:
            return None, "ValueError"
        if len(hit) > 1:
            out[n] = sorted(hit)
        elif len(hit) == 1:
            out[n] = hit[0]
        else:
            out[n] = opts[0]
    return out, "ok"


def text_of(flags):
    t = "[configure-flags]\n"
    for n, ty, opts in flags:
        t += n + ": " + ty + "  # type\n" + "".join("    " + o + " # option\n" for o in opts)
    return t


def joined(sel):
    s = ""
    for v in sel.values():
        s += "".join("_" + x for x in v) if isinstance(v, list) else "_" + v
    return s


def check(sx, flags, builds):
    mod = sx.module("config_keyword_parser")
    names = [n for n, t, o in flags]
    for n, t, opts in flags:
        for i in range(len(opts)):
            sx.assume(opts[i] not in opts[:i] and opts[i] not in names)
    ckp = mod.ConfigKeywordParser(builds[0], sx.file("flags.ini", text_of(flags)))
    for i, b in enumerate(builds):
        if i:
            ckp.build_name = b
            sx.require_eq(ckp.build_name, b, "build name")
        want, kind = reference(flags, b)
        r = sx.attempt(lambda: ckp.selected_options)
        sx.observe(r.kind, r.value)
        if kind != "ok":
            sx.require(r.kind in ("ValueError", "SystemExit"), "selection %d must be refused: %s" % (i, r.kind))
            continue
        sx.require_eq((r.kind, r.value), ("ok", want), "selected options %d" % i)
        sx.require_eq(list(r.value), names, "flags in file order")
        sx.require_eq(ckp.selected_options_str, joined(want), "selection as text")
        for n, t, opts in flags:
            for j in range(len(opts)):
                sx.require_eq(ckp.is_default_option(opts[j]), j == 0, "default option")


def wide(sx):
    """Options with any character; build names with another one in its place."""
    c = sx.string("c", 1, 1, WIDE)
    d = sx.string("d", 0, 1, WIDE + "_ ")
    flags = [("f1", sx.choice("t", ["SELECT_ONE", "SELECT_MANY"]), ["no-x", "X" + c + "y", "Xy"]),
             ("f2", "SELECT_ONE", ["z", "y"])]
    pre = sx.choice("pre", ["", "_", "w_", "Xy_"])
    check(sx, flags, [pre + sx.choice("X", ["X", "x"]) + d + "y" + sx.choice("post", ["", "_", "_y", "_Z"])])


def history(sx, n):
    """Any sequence of build names and questions, asked repeatedly."""
    mod = sx.module("config_keyword_parser")
    flags = [("f1", "SELECT_MANY", ["b", "a-long", "c", "B"]), ("f2", "SELECT_ONE", ["x", "y"]), ("f3", "SELECT_MANY", ["none"])]
    builds = ["", "c_a-long", "b_c_B_a-long", "y_b", "x_y", "none_c_b_y", "a_long", "C_Y"]
    f = sx.file("flags.ini", text_of(flags))
    b = sx.choice("b0", builds)
    ckp = mod.ConfigKeywordParser(b, f)
    other = mod.ConfigKeywordParser("y_c", f)
    for i in range(n):
        q = sx.choice("q%d" % i, ["selected", "text", "default", "message", "assign", "other", "twice"])
        if q == "assign":
            b = sx.choice("b%d" % (i + 1), builds)
            ckp.build_name = b
        want, kind = reference(flags, b)
        if q in ("selected", "twice", "assign"):
            for j in range(2 if q == "twice" else 1):
                r = sx.attempt(lambda: ckp.selected_options)
                sx.require_eq((r.kind, r.value), (kind, want), "selected options")
        elif q == "text":
            r = sx.attempt(lambda: ckp.selected_options_str)
            sx.require_eq(r.kind, kind, "selection as text")
            if r.ok:
                sx.require_eq(r.value, joined(want), "selection as text")
        elif q == "default":
            w = sx.choice("w%d" % i, ["b", "B", "a-long", "c", "x", "y", "X", "none", "non", "", "f1", "SELECT_ONE"])
            sx.require_eq(ckp.is_default_option(w), w in ("b", "x", "none"), "default option")
        elif q == "message":
            sx.attempt(lambda: ckp.get_msg_showing_supported_flags("m"))
        else:
            sx.require_eq(other.selected_options, {"f1": "c", "f2": "y", "f3": "none"}, "another object")
        sx.require_eq(ckp.build_name, b, "build name")
        sx.require_eq(other.build_name, "y_c", "build name of another object")
    want, kind = reference(flags, b)
    r = sx.attempt(lambda: ckp.selected_options)
    sx.observe(r.kind, r.value)
    sx.require_eq((r.kind, r.value), (kind, want), "selected options at the end")


def symbolic(sx, blen, olen):
    o = [sx.string("o%d" % i, 1, olen, "ab-") for i in range(3)]
    flags = [("flag1", sx.choice("t1", ["SELECT_ONE", "SELECT_MANY"]), [o[0], o[1]]),
             ("flag2", "SELECT_ONE", [o[2], "zz"])]
    check(sx, flags, [sx.string("build", 1, blen, "ab-_")])


def change(sx):
    """Assigning another build name selects anew."""
    flags = [("f1", "SELECT_MANY", ["c", "a", "b"]), ("f2", "SELECT_ONE", ["x", "y"])]
    w = ["a", "b", "c", "x", "y", "A", "a-b", ""]
    builds = []
    for i in range(2):
        builds.append("_".join([sx.choice("w%d%d" % (i, j), w) for j in range(2)]))
    check(sx, flags, builds)


def types(sx):
    how = sx.choice("how", ["exact", "inner", "before", "after", "other"])
    t = sx.choice("t", ["SELECT_ONE", "SELECT_MANY"])
    c = sx.string("near", 0, 1, WIDE + "_")
    if how == "inner":
        t = t.replace("_", c)
    elif how == "before":
        t = c + t
    elif how == "after":
        t = t + c
    elif how == "other":
        t = sx.choice("o", ["select_one", "Select_Many", "SELECT_ON", "SELECT", "ONE", "SELECT_ANY", "x"])
    flags = [("f1", "SELECT_ONE", ["a"]), ("f2", t, ["b", sx.word("c", ["acd"])])]
    check(sx, flags, [sx.word("w1", ["abcdz"]) + "_" + sx.word("w2", ["abcdz"])])


SCENARIOS = [
    dict(name="wide", fn="wide", paths=PATHS, bounds="options and build names with any character inside"),
    dict(name="history", fn="history", paths=PATHS, kw=dict(n=2), bounds="8 build names, 2 requests of 7 kinds, two objects"),
    dict(name="history-3", fn="history", paths=PATHS, kw=dict(n=3), tiers=("thorough",), bounds="3 requests of 7 kinds"),
    dict(name="symbolic", fn="symbolic", paths=PATHS, kw=dict(blen=3, olen=1),
         bounds="options of 1 character, build names of 1..3 characters over 4"),
    dict(name="symbolic-2", fn="symbolic", paths=PATHS, kw=dict(blen=4, olen=2), tiers=("thorough",),
         bounds="options of 1..2 characters, build names of 1..4 characters"),
    dict(name="change", fn="change", paths=PATHS, bounds="two build names of 2 words out of 8"),
    dict(name="types", fn="types", paths=PATHS, bounds="2 flag types with any character more or in place of the underscore, 7 others, duplicated options"),
]
