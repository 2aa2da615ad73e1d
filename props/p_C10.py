"""C10: validation reports unhandled options if and only if there are any."""
from lib import CORE, PRINT, EXOTIC, without, Opt, Use, Op, render, expand, distinct_keys

ASSUMPTIONS = []


def subclass(mod):
    oh = mod.ConfigParserEnhanced.operation_handler

    class Rec(mod.ConfigParserEnhanced):
        @oh
        def handler_rec_it(self, s, hp):
            return 0

        @oh
        def _handler_priv(self, s, hp):
            return 0

        def helper(self):
            return 0

        def handlerless(self):
            return 0
    return Rec


def options(secs, name, default="DEFAULT"):
    """What section `name` presents: the default section's options first."""
    data = {}
    if name != default and any(n == default for n, es in secs):
        data.update(expand(secs, default)[0])
    data.update(expand(secs, name)[0])
    return data


def entry(sx, t, kinds, names):
    k = sx.choice(t + ".kind", kinds)
    if k == "use":
        return Use(sx.choice(t + ".to", names))
    if k == "op":
        return Op(sx.choice(t + ".op", ["rec-it", "rec_it", "priv"]), [t], None)
    if k == "near":
        return Opt(sx.choice(t + ".op", ["rec", "rec-it-x a", "privy", "Priv x", "helper", "less"]), "1")
    if k == "none":
        return None
    return Opt(sx.word(t + ".key", ["pq"]), sx.choice(t + ".val", [None, "1"]))


def build(sx, names, sizes, kinds):
    secs = []
    for n, size in zip(names, sizes):
        es = []
        for i in range(size):
            e = entry(sx, n + str(i), kinds, names)
            if e is not None:
                es.append(e)
        secs.append((n, es))
    sx.assume(distinct_keys(secs))
    return secs


def section(sx, names, sizes, kinds, default="DEFAULT"):
    mod = sx.module("configparserenhanced")
    secs = build(sx, names, sizes, kinds)
    p = sx.file("c.ini", render(secs))
    cpe = subclass(mod)(p)
    level = sx.choice("level", [4, 3, 2, 0])
    cpe.exception_control_level = level
    cpe.exception_control_silent_warnings = True
    cpe.default_section_name = default
    data = options(secs, "A", default)
    do_raise = sx.choice("do_raise", ["default", True, False])
    sx.capture()
    if do_raise == "default":
        r = sx.attempt(lambda: cpe.assert_section_all_options_handled("A"))
    else:
        r = sx.attempt(lambda: cpe.assert_section_all_options_handled("A", do_raise=do_raise))
    sx.observe(r.kind, r.value)
    if not data:
        sx.require_eq((r.kind, r.value), ("ok", 0), "section without unhandled options")
        return
    if level >= 3 and do_raise is not False:
        sx.require_eq(r.kind, "ValueError", "unhandled options at level %d" % level)
        text = str(r.exc)
    else:
        sx.require_eq(r.kind, "ok", "unhandled options, not raising")
        sx.require(r.value != 0 and isinstance(r.value, str), "result must be a message")
        text = r.value
    got = [l for l in text.split("\n") if l.startswith("|- '")]
    want = ["|- '" + k + "'" for k in data]
    if do_raise is not False:
        ops = ["|- 'priv'", "|- 'use'", "|- 'rec-it'"]
        got = sorted(got)
        want = sorted(want + ops)
        sx.require("|- " + str(p) in text, "the message names the file")
    sx.require_eq(got, want, "keys listed in the message")
    sx.require("section `A`" in text, "the message names the section")


def whole(sx, names, sizes, kinds, before=("none",)):
    mod = sx.module("configparserenhanced")
    secs = build(sx, names, sizes, kinds)
    p = sx.file("c.ini", render(secs))
    cpe = subclass(mod)(p)
    level = sx.choice("level", [5, 4, 3, 2, 1, 0])
    cpe.exception_control_silent_warnings = True
    cpe.exception_control_level = level
    bad = [n for n in names if options(secs, n)]
    cyc = any(expand(secs, n)[2] for n in names)
    if sx.choice("before", before) == "parse":
        sx.attempt(lambda: cpe.parse_all_sections())
    sx.assume(not (cyc and level == 5))
    out = sx.capture()
    r = sx.attempt(lambda: cpe.assert_file_all_sections_handled())
    text = out.getvalue()
    sx.observe(r.kind, r.value)
    if not bad:
        sx.require_eq((r.kind, r.value), ("ok", 0), "file without unhandled options")
        sx.require_eq(text, "", "nothing to report")
        return
    if level >= 3:
        sx.require_eq(r.kind, "ValueError", "unhandled options at level %d" % level)
    else:
        sx.require_eq(r.kind, "ok", "unhandled options at level %d" % level)
        sx.require(r.value != 0, "nonzero result expected")
    for n in names:
        sx.require_eq("section `" + n + "`" in text, n in bad, "report about section " + n)


KCH = without(PRINT + EXOTIC, "=:%" + chr(34) + chr(39) + chr(92))


def anykey(sx):
    """Every key without handler is reported with its full text."""
    mod = sx.module("configparserenhanced")
    k = sx.string("k", 1, 3, KCH)
    sx.assume(k == k.strip() and not k.startswith(("#", ";", "[")) and k != "use" and k.split()[0] != "use")
    used = sx.bool("used")
    p = sx.file("c.ini", render([("A", [Op("rec-it", ["x"], None), Use("B")] + ([] if used else [Opt(k, "1")])),
                                 ("B", [Opt(k, None)] if used else [])]))
    cpe = subclass(mod)(p)
    cpe.exception_control_level = 2
    out = sx.capture()
    r = cpe.assert_section_all_options_handled("A", do_raise=False)
    sx.observe(r)
    sx.require(r != 0 and ("|- '" + k + "'") in r, "the message names the key")
    r = cpe.assert_file_all_sections_handled()
    sx.require(r != 0, "the file check reports")
    sx.require_eq("section `B`" in out.getvalue(), used, "report about section B")


def known(sx):
    """The operations announced are those that have handlers."""
    mod = sx.module("configparserenhanced")
    cls = subclass(mod)
    oh = cls.operation_handler
    name = sx.string("name", 1, 3, "ab_")
    priv = sx.bool("priv")

    @oh
    def h(self, s, hp):
        return 0
    sx.patch(cls, ("_handler_" if priv else "handler_") + name, h)
    cpe = cls(sx.file("c.ini", "[A]\n" + name + " x: 1\n"))
    got = cpe.get_known_operations()
    sx.observe(got)
    sx.require_eq(sorted(got), sorted(["use", "rec-it", "priv", name.replace("_", "-")]), "known operations")
    text = cpe.get_known_operations_message()
    for o in got:
        sx.require("|- '" + o + "'" in text, "message lists " + o)
    sx.require_eq(cpe.assert_file_all_sections_handled(), 0, "an operation that is known is handled")


SCENARIOS = [
    dict(name="section-2x2", fn="section", paths=CORE,
         kw=dict(names=["A", "B"], sizes=[2, 2], kinds=["use", "op", "opt", "none"]),
         bounds="2 sections x up to 2 entries, 4 levels, do_raise given or not"),
    dict(name="near", fn="section", paths=CORE,
         kw=dict(names=["A"], sizes=[2], kinds=["op", "near"]),
         bounds="keys that resemble operations"),
    dict(name="default", fn="section", paths=CORE,
         kw=dict(names=["A", "B", "C"], sizes=[1, 1, 1], kinds=["use", "op", "opt"]),
         bounds="3 sections x 1 entry"),
    dict(name="whole", fn="whole", paths=CORE,
         kw=dict(names=["A", "B", "C"], sizes=[1, 1, 1], kinds=["use", "op", "opt", "none"]),
         bounds="3 sections x up to 1 entry, all levels"),
    dict(name="whole-default", fn="whole", paths=CORE,
         kw=dict(names=["A", "DEFAULT", "B"], sizes=[1, 1, 1], kinds=["use", "op", "opt", "none"],
                 before=["none", "parse"]),
         bounds="default section and two others, up to 1 entry, all levels, checked first or after a parse"),
    dict(name="section-default", fn="section", paths=CORE,
         kw=dict(names=["DEFAULT", "A"], sizes=[1, 2], kinds=["use", "op", "opt", "none"]),
         bounds="default section and one other, up to 2 entries"),
    dict(name="section-common", fn="section", paths=CORE,
         kw=dict(names=["C", "A", "DEFAULT"], sizes=[1, 1, 1], kinds=["use", "op", "opt"], default="C"),
         bounds="default section of another name and two others, 1 entry"),
    dict(name="keys", fn="anykey", paths=CORE,
         bounds="keys of 1..3 symbolic characters over %d symbols, own or used" % len(KCH)),
    dict(name="known", fn="known", paths=CORE, bounds="operation names of 1..3 characters, public and private"),
    dict(name="whole-2", fn="whole", paths=CORE, tiers=("thorough",),
         kw=dict(names=["A", "B"], sizes=[2, 2], kinds=["use", "op", "opt", "near", "none"]),
         bounds="2 sections x up to 2 entries"),
]
