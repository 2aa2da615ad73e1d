"""C05: life cycle of one parse: initialize, handlers, finalize, result."""
from lib import CORE, Opt, Use, Op, render, expand, distinct_keys

ASSUMPTIONS = []


def subclass(mod, rc=None):
    oh = mod.ConfigParserEnhanced.operation_handler

    class Rec(mod.ConfigParserEnhanced):
        def __init__(self, f):
            super().__init__(f)
            self.log = []
            self.dicts = []

        @oh
        def handler_initialize(self, s, hp):
            self.log.append(("init", s, hp.section_root, dict(hp.data_shared)))
            self.dicts.append(hp.data_shared)
            hp.data_shared["init"] = s
            return 0

        @oh
        def handler_finalize(self, s, hp):
            self.log.append(("fini", s, hp.section_root, dict(hp.data_shared)))
            self.dicts.append(hp.data_shared)
            hp.data_shared["fini"] = s
            return 0

        @oh
        def handler_put(self, s, hp):
            self.log.append(("put", s, hp.section_root, dict(hp.data_shared)))
            self.dicts.append(hp.data_shared)
            hp.data_shared[hp.params[0]] = hp.value
            return 0

        @oh
        def handler_rc(self, s, hp):
            self.log.append(("rc", s, hp.section_root, None))
            return rc
    return Rec


def lifecycle(sx, names, sizes):
    mod = sx.module("configparserenhanced")
    secs = []
    for n, size in zip(names, sizes):
        es = []
        for i in range(size):
            k = sx.choice(n + str(i), ["put", "opt", "use", "none"] if i == 0 or size > 1 and i == 1 else
                          ["put", "opt", "use"])
            if k == "put":
                es.append(Op("put", [sx.word(n + str(i) + ".key", ["pq"])], n + str(i)))
            elif k == "use":
                es.append(Use(sx.word(n + str(i) + ".target", [names]), "", "",
                              sx.choice(n + str(i) + ".value", [None, "v"])))
            elif k == "opt":
                es.append(Opt("o" + str(i), "x"))
        secs.append((n, es))
    sx.assume(distinct_keys(secs))
    p = sx.file("c.ini", render(secs))
    cpe = subclass(mod)(p)
    cpe.exception_control_silent_warnings = True
    init = sx.bool("initialize")
    fini = sx.bool("finalize")
    res = cpe.parse_section("A", initialize=init, finalize=fini)
    data, events, cycles = expand(secs, "A")
    # expected log, replayed on the reference order
    want = []
    shared = {}
    if init:
        want.append(("init", "A", "A", dict(shared)))
        shared["init"] = "A"
    for (sec, op, params, value) in events:
        want.append(("put", sec, "A", dict(shared)))
        shared[params[0]] = value
    if fini:
        want.append(("fini", "A", "A", dict(shared)))
        shared["fini"] = "A"
    sx.observe(list(cpe.log), dict(res))
    sx.require_eq(cpe.log, want, "sequence of initialize / handlers / finalize and what they share")
    sx.require_eq(dict(res), shared, "the parse returns the shared data")
    sx.require_eq(dict(cpe.parse_section_last_result), shared, "last result")
    for d in cpe.dicts:
        sx.require(d is res, "all handlers of one parse share one dictionary, the one returned")
    # a second parse starts clean
    log1 = list(cpe.log)
    cpe.log = []
    cpe.dicts = []
    second = sx.choice("second", ["A", "B"])
    init2 = sx.bool("initialize2")
    fini2 = sx.bool("finalize2")
    res2 = cpe.parse_section(second, initialize=init2, finalize=fini2)
    want2 = {"init": second} if init2 else {}
    for (sec, op, params, value) in expand(secs, second)[1]:
        want2[params[0]] = value
    if fini2:
        want2["fini"] = second
    sx.require(res2 is not res, "two parses must not share data")
    sx.require_eq(dict(res2), want2, "shared data of a second parse")
    sx.require_eq(dict(res), shared, "the first result is not touched by the second parse")
    sx.require_eq(dict(cpe.parse_section_last_result), want2, "last result after the second parse")


def shared(sx, depth, keys):
    """What handlers share, at any depth, under any name."""
    mod = sx.module("configparserenhanced")
    names = ["s%d" % i for i in range(depth)]
    secs = []
    for i in range(depth):
        es = [Op("put", [sx.choice("k%d" % i, keys if i > 0 else keys[:1])], "v%d" % i), Opt("o", "x")]
        if i + 1 < depth:
            es.insert(sx.choice("at%d" % i, [0, 2] if i < 2 else [2]), Use(names[i + 1]))
        secs.append((names[i], es))
    back = sx.choice("back", [None] + names)
    if back is not None:
        secs[-1][1].append(Use(back))
    again = sx.choice("again", [None, "s1", "s%d" % (depth - 1)])
    if again is not None:
        secs[0][1].append(Use(again, "'"))
    cpe = subclass(mod)(sx.file("c.ini", render(secs)))
    cpe.exception_control_silent_warnings = True
    roots = [names[0], sx.choice("root", [names[0], names[1]])]
    for root in roots:
        cpe.log = []
        cpe.dicts = []
        res = cpe.parse_section(root)
        want = [("init", root, root, {})]
        data = {"init": root}
        for (sec, op, params, value) in expand(secs, root)[1]:
            want.append(("put", sec, root, dict(data)))
            data[params[0]] = value
        want.append(("fini", root, root, dict(data)))
        data["fini"] = root
        sx.observe(list(cpe.log), dict(res))
        sx.require_eq(cpe.log, want, "what the handlers share")
        sx.require_eq(dict(res), data, "the parse returns the shared data")
        sx.require_eq(dict(cpe.parse_section_last_result), data, "last result")


def interrupted(sx):
    """A parse that failed leaves nothing to the next one."""
    mod = sx.module("configparserenhanced")
    oh = mod.ConfigParserEnhanced.operation_handler
    stop = sx.choice("stop", ["initialize", "op", "used", "finalize", "missing", "code"])
    kind = sx.choice("kind", [RuntimeError, KeyError, AssertionError])
    log = []

    class P(mod.ConfigParserEnhanced):
        bad = True

        def step(self, what, s, hp):
            log.append((what, s, hp.section_root, sorted(hp.data_shared), sorted(hp.data_internal["processed_sections"])))
            hp.data_shared[what] = self.bad
            if self.bad and what == stop:
                raise kind("x")
            return 11 if self.bad and stop == "code" and what == "used" else 0

        @oh
        def handler_initialize(self, s, hp):
            return self.step("initialize", s, hp)

        @oh
        def handler_finalize(self, s, hp):
            return self.step("finalize", s, hp)

        @oh
        def handler_op(self, s, hp):
            return self.step(hp.params[0], s, hp)
    text = "[A]\nop op\nuse B\nk: 1\n[B]\nop used\nl: 2\nuse C\n[C]\nm: 3\n[D]\nuse A\n"
    f = sx.file("c.ini", text + ("use NO\n" if stop == "missing" else ""))
    p = P(f)
    p.exception_control_silent_warnings = True
    roots = ["A", "B", "D"]
    first = sx.choice("first", roots)
    r = sx.attempt(lambda: p.parse_section(first, finalize=sx.bool("fini")))
    via = sx.choice("via", ["parse", "data", "again"])
    if via == "again":
        sx.attempt(lambda: p.parse_section(first))
    p.bad = False
    log.clear()
    second = sx.choice("second", roots)
    q = P(f)
    q.bad = False
    q.exception_control_silent_warnings = True

    def ask(o):
        if via == "data":
            dict(o.configparserenhanceddata[second])
            return o.parse_section_last_result
        return o.parse_section(second)
    a = sx.attempt(lambda: ask(p))
    la = list(log)
    log.clear()
    b = sx.attempt(lambda: ask(q))
    sx.observe(r.kind, a.kind, a.value, la)
    if b.ok and not (via == "data" and r.ok and first == second):
        sx.require_eq(la, log, "hooks and what they share, after a failed parse")
        sx.require_eq((a.kind, a.value), (b.kind, b.value), "result after a failed parse")
    sx.require_eq(a.kind, b.kind, "outcome after a failed parse")


def codes(sx):
    """What a handler's return code does."""
    mod = sx.module("configparserenhanced")
    rc = sx.int("rc", -100000, 100000)
    level = sx.int("level", 0, 5)
    p = sx.file("c.ini", "[A]\nrc x: 1\nput k: v\n")
    cpe = subclass(mod, rc)(p)
    cpe.exception_control_level = level
    cpe.exception_control_silent_warnings = True
    r = sx.attempt(lambda: dict(cpe.parse_section("A")))
    kinds = [x[0] for x in cpe.log]
    sx.observe(r.kind, kinds)
    if rc > 10 or (rc != 0 and level >= 5):
        sx.require(r.kind == "RuntimeError", "failure code must raise RuntimeError: " + r.kind)
        sx.require_eq(kinds, ["init", "rc"], "nothing runs after a failed handler")
    else:
        sx.require(r.ok, "return code must not stop the parse: " + r.kind)
        sx.require_eq(kinds, ["init", "rc", "put", "fini"], "parse continues")
        sx.require_eq(r.value, {"init": "A", "k": "v", "fini": "A"}, "result")


def badreturn(sx):
    """A handler that does not return an integer is refused at every level."""
    mod = sx.module("configparserenhanced")
    level = sx.int("level", 0, 5)
    rc = sx.choice("rc", [None, "0", 0.0, [], 0])
    p = sx.file("c.ini", "[A]\nrc x: 1\nput k: v\n")
    cpe = subclass(mod, rc)(p)
    cpe.exception_control_level = level
    r = sx.attempt(lambda: dict(cpe.parse_section("A")))
    sx.observe(r.kind)
    sx.require(r.kind == ("ok" if rc == 0 and type(rc) is int else "TypeError"),
               "handler return type: " + r.kind)


def badsection(sx):
    mod = sx.module("configparserenhanced")
    level = sx.int("level", 0, 5)
    p = sx.file("c.ini", "[A]\nput k: v\n")
    cpe = subclass(mod)(p)
    cpe.exception_control_level = level
    name = sx.choice("name", ["", None, 3, ["A"], "str"])
    if name == "str":
        name = sx.string("s", 1, 2, "AaB ")
        want = "ok" if name == "A" else "KeyError"
    else:
        want = "ValueError" if name == "" else "TypeError"
    r = sx.attempt(lambda: dict(cpe.parse_section(name)))
    sx.observe(r.kind)
    sx.require_eq(r.kind, want, "parse_section of a bad name")


SCENARIOS = [
    dict(name="lifecycle", fn="lifecycle", paths=CORE, kw=dict(names="AB", sizes=[2, 2]),
         bounds="2 sections x 0..2 entries, `use` with and without value, both flags, a second parse of either section"),
    dict(name="shared", fn="shared", paths=CORE, kw=dict(depth=4, keys=["s2", "s3", "q"]),
         bounds="chains of 4 sections with 2 further links, 3 names of shared data (2 of them of sections), 2 parses"),
    dict(name="interrupted", fn="interrupted", paths=CORE,
         bounds="a parse of 3 sections stopped at 6 places by 3 kinds of exception, then another"),
    dict(name="codes", fn="codes", paths=CORE, bounds="return code -100000..100000, level 0..5"),
    dict(name="return-type", fn="badreturn", paths=CORE, bounds="5 return values, level 0..5"),
    dict(name="section-name", fn="badsection", paths=CORE, bounds="names of 1..2 characters, wrong types"),
    dict(name="lifecycle-3", fn="lifecycle", paths=CORE, tiers=("thorough",),
         kw=dict(names="ABC", sizes=[2, 2, 1]), bounds="3 sections, up to 2 entries"),
]
