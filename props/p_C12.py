"""C12: debug messages appear exactly when the debug level reaches theirs, and
change nothing else."""
from lib import CORE, Opt, Use, Op, render, distinct_keys

ASSUMPTIONS = []


def message(sx):
    mod = sx.module("configparserenhanced")
    obj = mod.Debuggable()
    sx.require_eq(obj.debug_level, 0, "default level")
    a = sx.int("set", -2, 8)
    how = sx.choice("how", ["int", "str"])
    obj.debug_level = a if how == "int" else str(a)
    have = obj.debug_level
    sx.require_eq(have, 0 if a < 0 else a, "level as set")
    need = sx.int("need", 0, 8)
    msg = sx.string("msg", 0, 3, "a[{ \n%")
    kw = {}
    end = "\n"
    if sx.bool("e"):
        end = kw["end"] = sx.choice("end", ["", "\n", "--", ";\t"])
    prefix = True
    if sx.bool("p"):
        prefix = kw["useprefix"] = sx.bool("prefix")
    out = sx.capture()
    obj.debug_message(need, msg, **kw)
    got = out.getvalue()
    sx.observe(got)
    if have < need:
        sx.require_eq(got, "", "message above the level")
    elif need == 0 or not prefix:
        sx.require_eq(got, msg + end, "message without prefix")
    else:
        sx.require_eq(got, "[D-" + str(need) + "] " + msg + end, "message with prefix")


def setting(sx):
    mod = sx.module("configparserenhanced")
    obj = mod.Debuggable()
    obj.debug_level = 3
    v = sx.choice("v", [None, "x", "", [], 2.9, True, "7", -1, 100000])
    r = sx.attempt(lambda: setattr(obj, "debug_level", v))
    sx.observe(r.kind, obj.debug_level)
    if v in (None, "x", "", []):
        sx.require(not r.ok, "a level that is no number is refused")
        sx.require_eq(obj.debug_level, 3, "level after a refused setting")
    else:
        sx.require_eq(obj.debug_level, max(0, int(v)), "level as set")
    sx.require_eq(mod.Debuggable().debug_level, 0, "another object")


def subclass(mod):
    oh = mod.ConfigParserEnhanced.operation_handler

    class Rec(mod.ConfigParserEnhanced):
        @oh
        def handler_rec(self, s, hp):
            hp.data_shared.setdefault("log", []).append((s, hp.op, list(hp.params), hp.value))
            return 0
    return Rec


def neutral(sx, sizes):
    """The debug level changes what is printed, not what is parsed."""
    mod = sx.module("configparserenhanced")
    secs = []
    for n, size in zip("AB", sizes):
        es = []
        for i in range(size):
            t = n + str(i)
            k = sx.choice(t + ".kind", ["opt", "use", "op", "nov", "gone"])
            if k == "use":
                es.append(Use(sx.word(t + ".to", ["AB"])))
            elif k == "gone":
                es.append(Use("Z"))
            elif k == "op":
                es.append(Op("rec", [sx.word(t + ".p", ["xy"])], sx.word(t + ".v", ["12"])))
            elif k == "nov":
                es.append(Opt(sx.word(t + ".k", ["kl"]), None))
            else:
                es.append(Opt(sx.word(t + ".k", ["kl"]), sx.word(t + ".v", ["12"])))
        secs.append((n, es))
    sx.assume(distinct_keys(secs))
    p = sx.file("c.ini", render(secs))
    level = sx.choice("level", [1, 2, 3, 4, 5, 9])
    out = sx.capture()
    res = []
    for dl in (0, level):
        cpe = subclass(mod)(p)
        cpe.debug_level = dl
        cpe.exception_control_silent_warnings = True
        before = len(out.getvalue())
        r = sx.attempt(lambda: cpe.parse_section("A"))
        d = sx.attempt(lambda: dict(cpe.configparserenhanceddata["A"]))
        text = out.getvalue()[before:]
        if dl == 0:
            sx.require_eq(text, "", "nothing is printed at debug level 0")
        else:
            for l in text.split("\n"):
                sx.require(l == "" or l.startswith("[D-"), "debug lines carry their level")
                if l:
                    sx.require(int(l[3:l.index("]")]) <= dl, "no line above the level")
        res.append((r.kind, r.value, d.kind, d.value))
    sx.observe(res)
    sx.require_eq(res[1], res[0], "result at debug level %d" % level)


def calls(cpe, what, sec):
    import io
    d = cpe.configparserenhanceddata
    if what == "sections":
        return list(d.sections())
    if what == "sections-true":
        return list(d.sections(True))
    if what == "force":
        return list(d.sections("force"))
    if what == "items":
        return {k: dict(v) for k, v in d.items()}
    if what == "get":
        return dict(d.get(sec))
    if what == "option":
        return d.get(sec, "k")
    if what == "has":
        return d.has_section(sec), d.has_option(sec, "k") if d.has_section(sec) else None
    if what == "len":
        return len(d), [x for x in d], list(d.keys())
    if what == "unroll":
        return cpe.unroll_to_str()
    if what == "unroll-section":
        return cpe.unroll_to_str(sec)
    if what == "unroll-own":
        return cpe.unroll_to_str(sec, use_base_class_parser=False)
    if what == "assert":
        return cpe.assert_section_all_options_handled(sec)
    if what == "assert-file":
        return cpe.assert_file_all_sections_handled()
    if what == "known":
        return list(cpe.get_known_operations())
    if what == "write":
        f = io.StringIO()
        r = cpe.write(f)
        return r, f.getvalue()
    if what == "parse-bad":
        return cpe.parse_section(5)
    if what == "empty":
        return cpe.parse_section("")
    if what == "last":
        cpe.parse_section(sec)
        return cpe.parse_section_last_result
    return cpe.parse_section(sec, initialize=False, finalize=False)


CALLS = ["sections", "sections-true", "force", "items", "get", "option", "has", "len", "unroll", "unroll-section",
         "unroll-own", "assert", "assert-file", "known", "parse-bad", "empty", "last", "bare"]


def recorder(mod):
    oh = mod.ConfigParserEnhanced.operation_handler

    class Rec(mod.ConfigParserEnhanced):
        @oh
        def handler_initialize(self, s, hp):
            hp.data_shared["init"] = (s, list(hp.params), hp.op, hp.value)
            return 0

        @oh
        def handler_finalize(self, s, hp):
            hp.data_shared["final"] = (s, hp.section_root, sorted(hp.data_internal), sorted(hp.data_shared))
            return 0

        @oh
        def handler_rec(self, s, hp):
            hp.data_shared.setdefault("log", []).append(
                (s, hp.section_root, hp.op, list(hp.params), hp.value, hp.raw_option, hp.handler_name,
                 sorted(hp.data_internal["processed_sections"]), sorted(hp.data_internal)))
            return 0

        @oh
        def handler_two(self, s, hp):
            hp.data_shared["two"] = ("public", hp.handler_name)
            return 0

        @oh
        def _handler_two(self, s, hp):
            hp.data_shared["two"] = ("private", hp.handler_name)
            return 0

        @oh
        def handler_bad(self, s, hp):
            return int(hp.value)
    return Rec


def surface(sx, n):
    """Every public call answers, raises and calls handlers alike at every
    debug level, also after the level was changed in between."""
    mod = sx.module("configparserenhanced")
    x = sx.choice("x", ["use B", "rec p 'q r': v", "k: w", "use Z", "use A", "bad y: 3", "bad y: 11", "rec", "two x: 1", "'k", "k: \"w \""])
    y = sx.choice("y", ["k: b", "rec b", "use A"])
    text = "[DEFAULT]\nd: 0\nrec d: 1\n[A]\n" + x + "\nz: 1\n[B]\n" + y + "\nnov\n"
    p = sx.file("c.ini", text)
    level = sx.choice("level", [1, 2, 3, 4, 5])
    ecl = sx.choice("ecl", [2, 5])
    whats = [sx.choice("w%d" % i, CALLS) for i in range(n)]
    sec = sx.choice("sec", ["A", "B", "Z"])
    sx.capture()
    res = []
    for dl in ([0] * n, [level] * n, [0] * (n - 1) + [level]):
        cpe = recorder(mod)(p)
        cpe.exception_control_level = ecl
        cpe.exception_control_silent_warnings = True
        one = []
        for w, l in zip(whats, dl):
            if l:
                cpe.debug_level = l
            r = sx.attempt(lambda: calls(cpe, w, sec))
            one.append((r.kind, r.value, str(r.exc) if r.exc is not None else ""))
        one.append(cpe.exception_control_level)
        res.append(one)
    sx.observe(res)
    sx.require_eq(res[1], res[0], "answers at debug level %d" % level)
    sx.require_eq(res[2], res[0], "answers with debug level %d for the last call" % level)


def both(sx):
    """The level of the object counts, also where its data object was given another."""
    mod = sx.module("configparserenhanced")
    p = sx.file("c.ini", "[A]\nrec p: 1\nuse B\nk: 1\n[B]\nl: 2\n")
    mine, its = sx.choice("mine", [0, 1, 3]), sx.choice("its", [0, 2, 5])
    what = sx.choice("what", ["item", "sections", "get", "options", "set"])
    out = sx.capture()

    def ask(o):
        d = o.configparserenhanceddata
        if what == "item":
            return dict(d["A"])
        if what == "sections":
            return list(d.sections(True))
        if what == "get":
            return d.get("A", "k")
        if what == "options":
            return dict(d.options("A"))
        return d.set("A", "n", "1"), dict(d["A"])
    texts = []
    for given in (None, its):
        o = subclass(mod)(p)
        o.debug_level = mine
        if given is not None:
            o.configparserenhanceddata.debug_level = given
        before = len(out.getvalue())
        a = ask(o)
        o.parse_section("B")
        texts.append((a, o.debug_level, mine if mine else out.getvalue()[before:]))
        if mine:
            for l in out.getvalue()[before:].split("\n"):
                sx.require(l == "" or l.startswith("[D-") and int(l[3:l.index("]")]) <= mine, "no line above the level")
    sx.observe(texts)
    sx.require_eq(texts[1], texts[0], "answers, level and output")
    sx.require_eq(texts[0][1], mine, "level of the object")


SCENARIOS = [
    dict(name="both", fn="both", paths=CORE, bounds="3 levels of the object, 3 of its data object, 5 queries"),
    dict(name="surface", fn="surface", paths=CORE, kw=dict(n=1),
         bounds="18 public calls, 11 x 3 configurations (failing ones too), 5 debug levels, 2 exception levels"),
    dict(name="surface-2", fn="surface", paths=CORE, kw=dict(n=2), tiers=("thorough",), bounds="two calls in a row"),
    dict(name="message", fn="message", paths=CORE,
         bounds="levels -2..8 and 0..8, messages up to 3 characters, end and prefix options"),
    dict(name="setting", fn="setting", paths=CORE, bounds="9 kinds of value"),
    dict(name="neutral", fn="neutral", paths=CORE, kw=dict(sizes=[2, 1]),
         bounds="2 sections, 2 and 1 entries of 5 kinds, debug levels 0 and 6 others"),
    dict(name="neutral-2x2", fn="neutral", paths=CORE, kw=dict(sizes=[2, 2]), tiers=("thorough",),
         bounds="2 sections x 2 entries"),
]
