"""C04: an option goes to the handler its first word names, to no other, and
with exactly the parameters and value written."""
from lib import CORE, PRINT, EXOTIC, without

ASSUMPTIONS = ["handlers are methods defined on the parser's class; operations named `initialize` "
               "and `finalize` are not used in the file"]

PUBLIC = ["foo_bar", "a", "ab", "a_b", "dup", "A1", "é", "größe"]
PRIVATE = ["baz", "b", "b_a", "dup", "aé", "1"]


# delimiters of the file, quotes, backslash and interpolation are left out
PCH = without(PRINT + EXOTIC, "=:%" + chr(34) + chr(39) + chr(92))


def subclass(mod):
    oh = mod.ConfigParserEnhanced.operation_handler

    class Rec(mod.ConfigParserEnhanced):
        def __init__(self, f):
            super().__init__(f)
            self.seen = []

        def note(self, who, section_name, hp):
            self.seen.append((who, section_name, hp.section_root, hp.handler_name, hp.op,
                              list(hp.params), hp.value, tuple(hp.raw_option)))
            return 0

        @oh
        def handler_foo_bar(self, s, hp):
            return self.note("handler_foo_bar", s, hp)

        @oh
        def handler_a(self, s, hp):
            return self.note("handler_a", s, hp)

        @oh
        def handler_ab(self, s, hp):
            return self.note("handler_ab", s, hp)

        @oh
        def handler_a_b(self, s, hp):
            return self.note("handler_a_b", s, hp)

        @oh
        def handler_A1(self, s, hp):
            return self.note("handler_A1", s, hp)

        @oh
        def handler_é(self, s, hp):
            return self.note("handler_é", s, hp)

        @oh
        def handler_größe(self, s, hp):
            return self.note("handler_größe", s, hp)

        @oh
        def _handler_aé(self, s, hp):
            return self.note("_handler_aé", s, hp)

        @oh
        def _handler_1(self, s, hp):
            return self.note("_handler_1", s, hp)

        @oh
        def _handler_baz(self, s, hp):
            return self.note("_handler_baz", s, hp)

        @oh
        def _handler_b(self, s, hp):
            return self.note("_handler_b", s, hp)

        @oh
        def _handler_b_a(self, s, hp):
            return self.note("_handler_b_a", s, hp)

        @oh
        def handler_dup(self, s, hp):
            return self.note("handler_dup", s, hp)

        @oh
        def _handler_dup(self, s, hp):
            return self.note("_handler_dup", s, hp)
    return Rec


def expect(op):
    n = op.replace("-", "_")
    if n in PUBLIC:
        return "handler_" + n
    if n in PRIVATE:
        return "_handler_" + n
    return None


def wordchars(op):
    for c in op:
        if not (c.isalnum() or c == "_" or c == "-"):
            return False
    return True


def dispatch(sx, op, params, quote, value):
    mod = sx.module("configparserenhanced")
    rest = ""
    for p in params:
        rest = rest + " " + quote + p + quote
    key = op + rest
    line = key if value is None else key + ": " + value
    own = sx.bool("own")
    p = sx.file("c.ini", ("[ROOT]\n" if own else "[ROOT]\nuse S\n[S]\n") + "first: 1\n" + line + "\nzz last: 2\n")
    cpe = subclass(mod)(p)
    level = sx.int("level", 0, 5)
    cpe.exception_control_level = level
    cpe.exception_control_silent_warnings = True
    r = sx.attempt(lambda: cpe.configparserenhanceddata["ROOT"])
    sx.observe(r.kind, list(cpe.seen), dict(r.value) if r.ok else None)
    n = op.replace("-", "_")
    if n == "dup" and level >= 3:
        sx.require(r.kind == "AmbiguousHandlerError",
                   "two handlers for one operation must be refused at level 3 and above: " + r.kind)
        sx.require_eq(cpe.seen, [], "no handler may run when the choice is ambiguous")
        return
    sx.require(r.ok, "dispatch raised " + r.kind)
    who = expect(op) if wordchars(op) else None
    data = {"first": "1", "zz last": "2"}
    if who is None:
        data = {"first": "1", key: value, "zz last": "2"}
        sx.require_eq(cpe.seen, [], "no handler is named by this option")
    else:
        sx.require_eq(cpe.seen, [(who, "ROOT" if own else "S", "ROOT", who, n, list(params), value, (key, value))],
                      "handler call")
    sx.require_eq(dict(r.value), data, "handled options are not data, all others are")


def ops(sx, lo, hi, chars):
    op = sx.string("op", lo, hi, chars)
    sx.assume(op == op.strip() and not op.startswith(("#", ";", "[")) and op != "use" and op != "first")
    value = sx.choice("value", [None, "", "v"])
    dispatch(sx, op, [], "", value)


def near(sx):
    """Spellings one character away from a handler name."""
    op = sx.choice("base", [
        sx.word("x", ["fF", "oO0", "o", "-_.", "bB", "a", "rR"]),
        sx.word("y", ["bB", "aA", "z-Z"]),
        sx.word("z", ["dD", "uv", "p-"]),
        sx.word("w", ["gG", "r", "öo", "ßs", "eé"]),
    ])
    value = sx.choice("value", [None, "v"])
    dispatch(sx, op, [], "", value)


def params(sx, n, lo, hi):
    op = sx.choice("op", ["foo-bar", "baz", "nothing", "dup", "foo_bar"])
    q = sx.choice("quote", ["", "'", '"'])
    ps = []
    for i in range(n):
        s = sx.string("p%d" % i, lo, hi, PCH)
        if q == "":
            # the tokenizer separates words at these; the file format strips others at the end of the key
            for c in s:
                sx.assume(c not in " \t")
            sx.assume(s == s.strip())
        sx.assume(s != "" or q != "")
        ps.append(s)
    # ConfigParser strips the whole key
    value = sx.choice("value", [None, "v w"])
    dispatch(sx, op, ps, q, value)


def late(sx):
    """Where the handler of an operation comes from, and when, makes no difference."""
    mod = sx.module("configparserenhanced")
    oh = mod.ConfigParserEnhanced.operation_handler
    name = sx.choice("name", ["handler_op", "_handler_op"])
    how = sx.choice("how", ["class", "object", "setattr", "mixin", "sub", "override", "other"])
    asked = sx.bool("asked")
    p = sx.file("c.ini", "[A]\nop x: 1\nop: 2\n[B]\nop y: 3\n")
    seen = []

    def make(names, base, tag):
        def h(self, s, hp):
            seen.append((tag, s, list(hp.params), hp.value))
            return 0
        return type("P", base, {n: oh(h) for n in names})
    base = mod.ConfigParserEnhanced
    if how == "sub":
        cls = make([], (make([name], (base,), "x"),), "y")
    elif how == "override":
        cls = make([name], (make([name], (base,), "y"),), "x")
    elif how == "mixin":
        cls = make([], (make([name], (object,), "x"), base), "y")
    elif how == "class":
        cls = make([name], (base,), "x")
    else:
        cls = make([], (base,), "y")
    o = cls(p)
    if how == "object":
        setattr(o, name, lambda s, hp: seen.append(("x", s, list(hp.params), hp.value)) or 0)
    elif how == "other":
        setattr(cls(p), name, lambda s, hp: seen.append(("y", s, list(hp.params), hp.value)) or 0)
    if asked:
        # objects of other classes (of the same name), and of this one, were used before
        for c in (make([], (base,), "n"), make([name], (base,), "m")):
            dict(c(p).configparserenhanceddata["A"])
        if how in ("object", "other"):
            dict(cls(p).configparserenhanceddata["A"])
        if how == "setattr":
            dict(o.configparserenhanceddata["B"])
        seen.clear()
    if how == "setattr":
        cls.handler_none = 0
        setattr(cls, name, oh(lambda self, s, hp: seen.append(("x", s, list(hp.params), hp.value)) or 0))
    got = dict(o.configparserenhanceddata["A"])
    sx.observe(got, list(seen))
    if how == "other":
        sx.require_eq((got, seen), ({"op x": "1", "op": "2"}, []), "no handler in this object")
    else:
        sx.require_eq(got, {}, "handled options are not data")
        sx.require_eq(seen, [("x", "A", ["x"], "1"), ("x", "A", [], "2")], "handler calls")


def value(sx):
    op = sx.choice("op", ["foo-bar", "baz", "nothing"])
    v = sx.string("v", 1, 3, "a \"'=:,#")
    sx.assume(v == v.strip() and not v.startswith('"') and not v.endswith('"'))
    dispatch(sx, op, ["p"], "", v)


def codes(sx, lo, hi, silent):
    """What a handler's return code does, whichever handler and wherever it runs."""
    mod = sx.module("configparserenhanced")
    oh = mod.ConfigParserEnhanced.operation_handler
    rc = sx.int("rc", lo, hi)
    level = sx.int("level", 0, 5)
    op = sx.choice("op", ["pub", "pri", "finalize"])
    seen = []

    class P(mod.ConfigParserEnhanced):
        @oh
        def handler_pub(self, s, hp):
            seen.append("pub")
            return rc

        @oh
        def _handler_pri(self, s, hp):
            seen.append("pri")
            return rc

        @oh
        def handler_finalize(self, s, hp):
            seen.append("finalize")
            return rc if op == "finalize" else 0

        @oh
        def handler_after(self, s, hp):
            seen.append("after")
            return 0
    inroot = sx.bool("inroot")
    line = "" if op == "finalize" else op + " x: 1\n"
    p = sx.file("c.ini", "[ROOT]\n" + (line if inroot else "use S\n") + "after y\n[S]\n" + line)
    cpe = P(p)
    cpe.exception_control_level = level
    cpe.exception_control_silent_warnings = silent
    out = sx.capture()
    r = sx.attempt(lambda: dict(cpe.configparserenhanceddata["ROOT"]))
    printed = out.getvalue()
    sx.observe(r.kind, list(seen), len(printed) > 0)
    first = [] if op == "finalize" else [op]
    if rc > 10 or (rc != 0 and level >= 5):
        sx.require_eq(r.kind, "RuntimeError", "failure code must raise RuntimeError")
        sx.require_eq(seen, first if first else ["after", "finalize"], "nothing runs after a failed handler")
        sx.require_eq(printed, "", "no notice when it raises")
    else:
        sx.require(r.ok, "return code must not stop the parse: " + r.kind)
        sx.require_eq(seen, first + ["after", "finalize"], "the parse continues")
        sx.require_eq(r.value, {}, "handled options are not data")
        sx.require_eq("EXCEPTION SKIPPED" in printed, rc != 0 and level > 0 and not silent, "a warning iff the code is nonzero")


def known(sx):
    """The list of known operations names exactly the handlers there are."""
    mod = sx.module("configparserenhanced")
    p = sx.file("c.ini", "[S]\n")
    cpe = subclass(mod)(p)
    ops = sorted(cpe.get_known_operations())
    sx.observe(ops)
    want = sorted([x.replace("_", "-") for x in PUBLIC + PRIVATE + ["use"]])
    sx.require_eq(ops, want, "known operations")
    name = sx.string("name", 1, 2, "ab-A1")
    msg = cpe.get_known_operations_message()
    sx.require_eq("'" + name + "'" in msg, name in want, "message lists an operation iff it is known")


SCENARIOS = [
    dict(name="ops", fn="ops", paths=CORE, kw=dict(lo=1, hi=3, chars="abA1-_.é"),
         bounds="first word of 1..3 characters over 8 symbols, level 0..5, 3 value kinds"),
    dict(name="ops-any", fn="ops", paths=CORE, kw=dict(lo=1, hi=3, chars=without(PCH, " \t")),
         bounds="first word of 1..3 characters over %d symbols" % (len(PCH) - 2)),
    dict(name="near", fn="near", paths=CORE,
         bounds="spellings near `foo-bar`, `baz`, `dup` (case, separator, digit)"),
    dict(name="params-1", fn="params", paths=CORE, kw=dict(n=1, lo=0, hi=3),
         bounds="1 parameter of 0..3 characters over %d symbols, 3 quoting styles" % len(PCH)),
    dict(name="params-2", fn="params", paths=CORE, kw=dict(n=2, lo=1, hi=2),
         bounds="2 parameters of 1..2 characters"),
    dict(name="late", fn="late", paths=CORE, bounds="handler public or private, of the class, a base, a mixin, or the object; "
         "before or after use; other classes of the same name in use"),
    dict(name="value", fn="value", paths=CORE, bounds="values of 1..3 characters over 8 symbols"),
    dict(name="codes", fn="codes", paths=CORE, kw=dict(lo=-10**6, hi=10**6, silent=True),
         bounds="return code -10^6..10^6, level 0..5, public, private and finalization handler, own or used section"),
    dict(name="codes-notice", fn="codes", paths=CORE, kw=dict(lo=-1, hi=12, silent=False),
         bounds="return code -1..12, notices printed"),
    dict(name="known", fn="known", paths=CORE, bounds="names of 1..2 characters"),
    dict(name="ops-4", fn="ops", paths=CORE, tiers=("thorough",), kw=dict(lo=4, hi=5, chars="abz-_"),
         bounds="first word of 4..5 characters over 5 symbols"),
    dict(name="params-3", fn="params", paths=CORE, tiers=("thorough",), kw=dict(n=3, lo=1, hi=2),
         bounds="3 parameters"),
]
