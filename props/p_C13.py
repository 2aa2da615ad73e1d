"""C13: typed properties: checked, converted, validated, per object."""
from lib import CORE

ASSUMPTIONS = ["no class attribute is called `_name` or `_name_is_set` for a property `name`", "types, converters and validators are functions of their argument"]

VALUES = {"s": "7", "t": "abc", "e": "", "i": 5, "z": 0, "b": True, "n": None, "l": [1, 2], "u": (1, 2),
          "f": 1.5, "d": {"k": 1}, "x": "x", "w": "dflt", "h": 3, "el": [], "ed": {}}


def setups():
    return {
        "int": dict(expected_type=int),
        "strnone": dict(expected_type=(str, type(None)), default="dflt"),
        "conv": dict(expected_type=(int, str), internal_type=int, default=3),
        "convlist": dict(expected_type=(list, tuple), internal_type=list, default=[]),
        "valid": dict(expected_type=(int, str), validator=lambda v: len(str(v)) == 1, default="d"),
        "trans": dict(expected_type=(int, str), transform=lambda v: str(v) + "!", default=None),
        "all": dict(expected_type=(int, str, float), internal_type=int, transform=lambda v: str(v * 2) + "0",
                    validator=lambda v: isinstance(v, int) and v < 120, default=1),
        "need": dict(expected_type=str, req_assign_before_use=True),
        "needdef": dict(expected_type=str, req_assign_before_use=True, default="x"),
        "fact": dict(expected_type=list, default_factory=lambda: [1]),
        "facte": dict(expected_type=(list, dict, set), default_factory=list),
        "dict": dict(expected_type=dict, default={}),
        "nest": dict(expected_type=list, default=[[1], {"k": [2]}]),
        "both": dict(expected_type=(int, str), default="d", default_factory=lambda: "f"),
        "itself": dict(expected_type=object, validator=lambda v: v, default="d"),
        "size": dict(expected_type=(str, list, dict), validator=lambda v: len(v) if v else None, default="d"),
        "word": dict(expected_type=(str, int), validator=lambda v: str(v)[1:], default="d"),
        "dnone": dict(expected_type=(int, type(None)), default=None, default_factory=lambda: 4),
    }


class Err(Exception):
    pass


def reference(cfg, v):
    """Value stored, or the kind of error."""
    et = cfg["expected_type"]
    if not isinstance(et, tuple):
        et = (et,)
    if not isinstance(v, et):
        return None, "TypeError"
    it = cfg.get("internal_type")
    try:
        if it is not None:
            v = it(v)
        if cfg.get("transform") is not None:
            v = cfg["transform"](v)
            if it is not None:
                v = it(v)
    except ValueError:
        return None, "ValueError"
    if cfg.get("validator") is not None and not cfg["validator"](v):
        return None, "ValueError"
    return v, None


UNSET = "<unset>"


def initial(cfg):
    if cfg.get("req_assign_before_use"):
        return UNSET
    if "default" in cfg:
        d = cfg["default"]
        import copy
        return copy.deepcopy(d)
    if "default_factory" in cfg:
        return cfg["default_factory"]()
    return None


def steps(sx, names, n, vals):
    mod = sx.module("configparserenhanced")
    cfgs = setups()
    which = sx.choice("which", names)
    given = cfgs[which]
    cfg = setups()[which]

    class Host:
        prop = mod.typed_property("prop", **given)
        other = mod.typed_property("other", int, default=11)
    a = Host()
    b = Host()
    model = initial(cfg)
    for i in range(n):
        op = sx.choice("op%d" % i, ["get", "set", "del", "mutate"])
        if op == "get" or op == "mutate":
            r = sx.attempt(lambda: a.prop)
            sx.observe(r.kind, r.value)
            if isinstance(model, str) and model == UNSET:
                sx.require_eq(r.kind, "UnboundLocalError", "use before assignment")
            else:
                sx.require(r.ok, "reading raised " + r.kind)
                sx.require_eq(r.value, model, "value read")
                if op == "mutate" and which == "nest" and len(r.value) > 1 and isinstance(r.value[1], dict):
                    r.value[1]["k"].append(9)
                    model[1]["k"].append(9)
                elif op == "mutate" and isinstance(r.value, list):
                    r.value.append(9)
                    model = model + [9]
                elif op == "mutate" and isinstance(r.value, dict):
                    r.value["m"] = 9
                    model = dict(model)
                    model["m"] = 9
        elif op == "set":
            vn = sx.choice("v%d" % i, vals)
            v = VALUES[vn]
            v = list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v
            r = sx.attempt(lambda: setattr(a, "prop", v))
            new, err = reference(cfg, v)
            sx.observe(r.kind)
            if err:
                sx.require_eq(r.kind, err, "assignment of %r" % (v,))
            else:
                sx.require(r.ok, "assignment of %r raised %s" % (v, r.kind))
                model = list(new) if isinstance(new, list) else dict(new) if isinstance(new, dict) else new
        else:
            r = sx.attempt(lambda: delattr(a, "prop"))
            sx.require(r.ok, "deleting raised " + r.kind)
            model = initial(cfg)
    r = sx.attempt(lambda: a.prop)
    if isinstance(model, str) and model == UNSET:
        sx.require_eq(r.kind, "UnboundLocalError", "use before assignment, at the end")
    else:
        sx.require_eq((r.kind, r.value), ("ok", model), "value at the end")
    r = sx.attempt(lambda: b.prop)
    m2 = initial(cfg)
    if isinstance(m2, str) and m2 == UNSET:
        sx.require_eq(r.kind, "UnboundLocalError", "the other object")
    else:
        sx.require_eq((r.kind, r.value), ("ok", m2), "the other object")
    sx.require_eq((a.other, b.other), (11, 11), "another property")


SIMILAR = ["prop", "Prop", "PROP", "prop_", "pROP", "prop2", "pro", "prop_is", "is_set", "p", "data", "prop prop", "pr\u00f6p"]


def similar(sx):
    """Properties with similar names are independent; so are classes and
    subclasses."""
    mod = sx.module("configparserenhanced")
    n1 = sx.choice("n1", SIMILAR)
    n2 = sx.choice("n2", SIMILAR)
    sx.assume(n1 != n2)
    need = sx.bool("need")

    class Host:
        pass
    setattr(Host, n1, mod.typed_property(n1, int, default=1))
    setattr(Host, n2, mod.typed_property(n2, int, default=2, req_assign_before_use=need))

    class Sub(Host):
        pass

    class Else:
        pass
    setattr(Else, n1, mod.typed_property(n1, str, default="e"))
    a, b, e = Host(), Sub(), Else()
    do = sx.choice("do", ["set", "set-sub", "set-else", "get", "bad"])
    v = sx.int("v", 3, 9)
    if do == "set":
        setattr(a, n1, v)
    elif do == "set-sub":
        setattr(b, n1, v)
    elif do == "set-else":
        setattr(e, n1, "x")
    elif do == "get":
        getattr(a, n1)
    else:
        r = sx.attempt(lambda: setattr(a, n1, "no"))
        sx.require_eq(r.kind, "TypeError", "wrong type")
    if sx.bool("del"):
        delattr(a, n1)
        if do == "set":
            v = 1
    got = (getattr(a, n1), getattr(b, n1), getattr(e, n1))
    sx.observe(got)
    sx.require_eq(got, (v if do == "set" else 1, v if do == "set-sub" else 1, "x" if do == "set-else" else "e"),
                  "values of " + n1)
    for o in (a, b):
        r = sx.attempt(lambda: getattr(o, n2))
        sx.require_eq(r.kind, "UnboundLocalError" if need else "ok", "reading " + n2)
        if not need:
            sx.require_eq(r.value, 2, "value of " + n2)


def exact(sx):
    """The value presented is the one assigned, not one equal to it; without
    conversion it is that very object."""
    mod = sx.module("configparserenhanced")
    pool = {"i1": 1, "f1": 1.0, "b1": True, "i0": 0, "f0": 0.0, "b0": False, "s": "", "l": [], "t": (), "n": None,
            "d": {}}

    class Host:
        prop = mod.typed_property("prop", (int, float, str, list, tuple, dict, type(None)),
                                  default=pool[sx.choice("d", list(pool))])
        conv = mod.typed_property("conv", (list, tuple), default=[], internal_type=list)
        checked = mod.typed_property("checked", (int, float, str, list, tuple, dict, type(None)),
                                     transform=lambda v: v, validator=lambda v: True)
    a = Host()
    if sx.bool("read"):
        a.prop
        a.conv
    for i in range(2):
        k = sx.choice("v%d" % i, list(pool))
        a.prop = pool[k]
        sx.require(a.prop is pool[k], "the object assigned: %r for %r" % (a.prop, pool[k]))
        sx.require(a.prop is pool[k], "the object assigned, read again")
        a.checked = pool[k]
        sx.require(a.checked is pool[k], "the object assigned, validated: %r for %r" % (a.checked, pool[k]))
        sx.observe(k, type(a.prop).__name__)
    l = [1]
    a.conv = l
    sx.require_eq(a.conv, [1], "converted value")
    a.conv = (1,)
    sx.require(isinstance(a.conv, list), "converted to a list")


class OwnStr(str):
    pass


class OwnList(list):
    pass


class OwnInt(int):
    pass


class OwnDict(dict):
    pass


class Number:
    """Registered nowhere, subclass of nothing."""

    def __int__(self):
        return 4

    def __str__(self):
        return "4"


def subclasses(sx):
    """A value of a subclass is of the expected type; one that merely
    resembles it is not."""
    import collections
    mod = sx.module("configparserenhanced")
    pool = {"str": OwnStr("a"), "list": OwnList([1]), "int": OwnInt(3), "dict": OwnDict(k=1), "num": Number(),
            "od": collections.OrderedDict(k=1), "dd": collections.defaultdict(list), "nt": collections.namedtuple("P", "x y")(1, 2),
            "bool": True, "bytes": b"a", "range": range(2), "ba": bytearray(b"a"), "set": {1}, "type": int, "float": 1.0}
    types = {"str": str, "list": list, "int": int, "dict": dict, "tuple": tuple, "seq": (list, tuple), "many": (str, int, dict),
             "obj": object, "cls": type, "as-list": [int, str], "own": OwnStr}
    t = sx.choice("type", list(types))
    et = types[t]

    class Host:
        prop = mod.typed_property("prop", et, default="start")
        conv = mod.typed_property("conv", (int, float, Number), internal_type=int, default="start")
    a = Host()
    for i in range(2):
        v = pool[sx.choice("v%d" % i, list(pool))]
        old = a.prop
        r = sx.attempt(lambda: setattr(a, "prop", v))
        sx.observe(r.kind)
        if isinstance(v, tuple(et) if isinstance(et, list) else et):
            sx.require(r.ok, "%s refused a value of %s: %s" % (t, type(v).__name__, r.kind))
            sx.require(a.prop is v, "the object assigned")
        else:
            sx.require_eq(r.kind, "TypeError", "%s and a value of %s" % (t, type(v).__name__))
            sx.require(a.prop is old, "value after a refused assignment")
        r = sx.attempt(lambda: setattr(a, "conv", v))
        if isinstance(v, (int, float, Number)):
            sx.require(r.ok and type(a.conv) is int and a.conv == int(v), "converted value: %s" % r.kind)
        else:
            sx.require_eq(r.kind, "TypeError", "number and a value of " + type(v).__name__)


def symbolic(sx):
    """Symbolic values through conversion and validation."""
    mod = sx.module("configparserenhanced")

    class Host:
        text = mod.typed_property("text", str, default="", validator=lambda v: v != "bad" and len(v) < 4)
        low = mod.typed_property("low", (str, int), transform=lambda v: str(v).lower(), default="q")
        num = mod.typed_property("num", (int, str), internal_type=int, default=0, validator=lambda v: v % 2 == 0)
    a = Host()
    s = sx.string("s", 0, 4, "abdBAD")
    r = sx.attempt(lambda: setattr(a, "text", s))
    ok = s != "bad" and len(s) < 4
    sx.require_eq(r.kind, "ok" if ok else "ValueError", "validated assignment")
    sx.require_eq(a.text, s if ok else "", "text")
    a.low = s
    sx.require_eq(a.low, s.lower(), "transformed text")
    n = sx.int("n", -3, 20)
    give = n if sx.bool("num") else str(n)
    r = sx.attempt(lambda: setattr(a, "num", give))
    sx.require_eq(r.kind, "ok" if n % 2 == 0 else "ValueError", "validated number")
    sx.require_eq(a.num, n if n % 2 == 0 else 0, "number")
    sx.observe(a.text, a.low, a.num)


def order(sx):
    """Type check, conversion, transformation, conversion, validation, in this
    order, and nothing after a failure."""
    mod = sx.module("configparserenhanced")
    log = []
    fail = sx.choice("fail", ["none", "type", "conv", "trans", "conv2", "valid"])

    def conv(v):
        log.append("conv")
        if fail == "conv" or fail == "conv2" and log.count("conv") == 2:
            raise ArithmeticError("conv")
        return v

    def trans(v):
        log.append("trans")
        if fail == "trans":
            raise ArithmeticError("trans")
        return v

    def valid(v):
        log.append("valid")
        return fail != "valid"
    use = {k: sx.bool("use." + k) for k in ("conv", "trans", "valid")}

    class Host:
        prop = mod.typed_property("prop", str, default="old", internal_type=conv if use["conv"] else None,
                                  transform=trans if use["trans"] else None,
                                  validator=valid if use["valid"] else None)
    a = Host()
    r = sx.attempt(lambda: setattr(a, "prop", 5 if fail == "type" else "new"))
    full = (["conv"] if use["conv"] else []) + (["trans"] if use["trans"] else [])
    full += ["conv"] if use["conv"] and use["trans"] else []
    full += ["valid"] if use["valid"] else []
    want, err = full, "ok"
    if fail == "type":
        want, err = [], "TypeError"
    elif fail == "conv" and use["conv"]:
        want, err = ["conv"], "ArithmeticError"
    elif fail == "trans" and use["trans"]:
        want, err = full[:full.index("trans") + 1], "ArithmeticError"
    elif fail == "conv2" and use["conv"] and use["trans"]:
        want, err = ["conv", "trans", "conv"], "ArithmeticError"
    elif fail == "valid" and use["valid"]:
        err = "ValueError"
    sx.observe(r.kind, log)
    sx.require_eq((r.kind, log), (err, want), "steps of an assignment")
    sx.require_eq(a.prop, "new" if err == "ok" else "old", "value afterwards")
    w = sx.choice("w", ["transform", "validator", "default_factory"])

    class Bad:
        prop = mod.typed_property("prop", str, **{w: 5})
    c = Bad()
    if w == "default_factory":
        r = sx.attempt(lambda: c.prop)
    else:
        r = sx.attempt(lambda: setattr(c, "prop", "x"))
    sx.require_eq(r.kind, "TypeError", "something that cannot be called as " + w)


def handler_parameters(sx):
    """The parameters handed to handlers keep their types."""
    mod = sx.module("configparserenhanced")
    HP = sx.module("configparserenhanced.HandlerParameters").HandlerParameters
    hp = HP()
    h2 = HP()
    spec = {"section_root": (str,), "raw_option": (tuple,), "op": (str,), "params": (list, tuple),
            "value": (str, type(None)), "data_shared": (dict,), "data_internal": (dict,), "handler_name": (str,)}
    dflt = {"section_root": None, "raw_option": (None, None), "op": "", "params": [], "value": "",
            "data_shared": {}, "data_internal": {}, "handler_name": ""}
    f = sx.choice("f", list(spec))
    sx.require_eq(getattr(hp, f), dflt[f], "initial " + f)
    v = VALUES[sx.choice("v", list(VALUES))]
    r = sx.attempt(lambda: setattr(hp, f, v))
    sx.observe(r.kind)
    if isinstance(v, spec[f]):
        sx.require(r.ok, f + " refused: " + r.kind)
        sx.require_eq(getattr(hp, f), list(v) if f == "params" else v, f)
    else:
        sx.require_eq(r.kind, "TypeError", f + " of the wrong type")
        sx.require_eq(getattr(hp, f), dflt[f], f + " after a refused assignment")
    if f == "raw_option":
        t = tuple("x" * i for i in range(sx.choice("len", [0, 1, 2, 3])))
        old = hp.raw_option
        r = sx.attempt(lambda: setattr(hp, f, t))
        sx.require_eq(r.kind, "ok" if len(t) == 2 else "ValueError", "raw option of length %d" % len(t))
        sx.require_eq(hp.raw_option, t if len(t) == 2 else old, "raw option")
    sx.require_eq(getattr(h2, f), dflt[f], f + " of another object")


ALL = ["facte", "itself", "size", "word", "nest", "both", "dnone", "int", "strnone", "conv", "convlist", "valid", "trans", "all", "need", "needdef", "fact", "dict"]
SCENARIOS = [
    dict(name="subclasses", fn="subclasses", paths=CORE,
         bounds="11 expected types, 2 assignments of 15 values of subclasses and look-alikes"),
    dict(name="steps-2", fn="steps", paths=CORE, kw=dict(names=ALL, n=2, vals=list(VALUES)),
         bounds="17 kinds of property, 2 operations (read, assign 16 values, delete, modify)"),
    dict(name="steps-3", fn="steps", paths=CORE, kw=dict(names=ALL, n=3, vals=["s", "t", "i", "l", "n", "x"]),
         bounds="17 kinds of property, 3 operations with 6 values"),
    dict(name="similar", fn="similar", paths=CORE, bounds="13 x 12 pairs of property names, subclass, other class, 5 actions"),
    dict(name="exact", fn="exact", paths=CORE, bounds="11 defaults, 2 assignments of 11 values that equal each other in part"),
    dict(name="symbolic", fn="symbolic", paths=CORE, bounds="texts up to 4 characters, numbers -3..20"),
    dict(name="order", fn="order", paths=CORE, bounds="all failure points"),
    dict(name="handler-parameters", fn="handler_parameters", paths=CORE, bounds="8 fields x 16 values"),
    dict(name="steps-4", fn="steps", paths=CORE, tiers=("thorough",), kw=dict(names=ALL, n=4, vals=["s", "t", "i", "l", "n"]),
         bounds="4 operations"),
]
