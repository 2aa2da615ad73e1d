"""C11: events raise, warn or stay silent exactly as the level table says."""
from lib import CORE, PRINT, EXOTIC

ASSUMPTIONS = ["exception classes can be constructed without arguments and with one"]

REQ = {"SILENT": 5, "WARNING": 5, "MINOR": 4, "SERIOUS": 3, "CRITICAL": 2, "CATASTROPHIC": 0}


class Custom(ValueError):
    pass


EXC = [ValueError, KeyError, Custom, SystemExit, RuntimeError]


def decide(sx, obj, level, etype, exc, message, has_message, silent, compact, out):
    t = etype.upper()
    before = out.getvalue()
    if has_message:
        r = sx.attempt(lambda: obj.exception_control_event(etype, exc, message))
    else:
        r = sx.attempt(lambda: obj.exception_control_event(etype, exc))
    text = out.getvalue()[len(before):]
    sx.observe(r.kind, text.count("EXCEPTION SKIPPED"))
    if level >= REQ[t]:
        sx.require(not r.ok and type(r.exc) is exc, "%s at level %d: got %s" % (t, level, r.kind))
        args = tuple(r.exc.args)
        sx.require_eq(args, (message,) if has_message and message is not None else (), "arguments of the exception")
        sx.require_eq(text, "", "no notice when the exception is raised")
        return
    sx.require(r.ok and r.value is None, "%s at level %d must not raise: %s" % (t, level, r.kind))
    quiet = level == 0 or silent or t == "SILENT"
    if quiet:
        sx.require_eq(text, "", "no notice expected")
        return
    sx.require_eq(text.count("EXCEPTION SKIPPED"), 1, "one notice")
    for l in text.split("\n"):
        sx.require(l == "" or l.startswith("!!"), "every line of a notice is marked")
    lines = text.split("\n")
    if compact:
        sx.require_eq(len(lines), 2, "a compact notice is one line")
        sx.require(lines[0].startswith("!! EXCEPTION SKIPPED (" + t + " : " + exc.__name__ + ")"),
                   "compact notice names the event and the exception")
    else:
        sx.require("!! Event Type : " + t in lines, "notice names the event type")
        sx.require("!! Exception  : " + exc.__name__ in lines, "notice names the exception")
        sx.require("to " + str(REQ[t]) + " to raise" in text, "notice names the level that raises")
        if has_message and message is not None:
            parts = message.split("\n")
            k = lines.index("!! Message    : " + parts[0]) if "!! Message    : " + parts[0] in lines else -1
            sx.require(k >= 0, "notice carries the message")
            for i in range(1, len(parts)):
                sx.require_eq(lines[k + i], "!!            : " + parts[i], "further lines of the message")
        else:
            sx.require("!! Message" not in text, "no message, none shown")


def matrix(sx):
    mod = sx.module("configparserenhanced")
    base = sx.choice("type", list(REQ))
    # any mix of upper and lower case in the first characters
    n = sx.choice("cased", [0, 2])
    etype = sx.word("case", [[c.lower(), c] for c in base[:n]]) + base[n:] if n else base
    obj = mod.ExceptionControl()
    level = sx.int("level", 0, 5)
    obj.exception_control_level = level
    sx.require_eq(obj.exception_control_level, level, "level as set")
    silent = sx.bool("silent")
    compact = sx.bool("compact")
    obj.exception_control_silent_warnings = silent
    obj.exception_control_compact_warnings = compact
    exc = sx.choice("exc", EXC)
    m = sx.choice("m", ["none", "explicit-none", "text"])
    msg = None
    if m == "text":
        msg = sx.string("msg", 0, 2, "ab\n{%")
    out = sx.capture()
    decide(sx, obj, level, etype, exc, msg, m != "none", silent, compact, out)
    # nothing carries over to the next event
    decide(sx, obj, level, "WARNING", ValueError, "x", True, silent, compact, out)
    sx.require_eq(obj.exception_control_level, level, "level unchanged")


class Odd(UserWarning, LookupError):
    pass


class Quiet(Exception):
    """An exception class with its own ideas."""

    def __init__(self, *args):
        super().__init__(*args)
        self.given = args

    def __str__(self):
        return ""


CLASSES = [UserWarning, DeprecationWarning, Warning, Odd, Quiet, Exception, OSError, FileNotFoundError, StopIteration,
           ArithmeticError, ZeroDivisionError, AssertionError, LookupError, IndexError, NotImplementedError, TypeError,
           AttributeError, NameError, ImportError, MemoryError, RecursionError, TimeoutError, SystemExit, EOFError]


def classes(sx):
    """What class it is makes no difference."""
    mod = sx.module("configparserenhanced")
    obj = mod.ExceptionControl()
    level = sx.int("level", 0, 5)
    obj.exception_control_level = level
    compact = sx.bool("compact")
    obj.exception_control_compact_warnings = compact
    out = sx.capture()
    decide(sx, obj, level, sx.choice("type", list(REQ)), sx.choice("exc", CLASSES), "m", sx.bool("message"), False, compact, out)


def history(sx, n):
    """Every event is decided by the settings of the moment; other objects
    have no influence."""
    mod = sx.module("configparserenhanced")
    obj = mod.ExceptionControl()
    other = mod.ExceptionControl()
    out = sx.capture()
    silent = compact = False
    level = 4
    for i in range(n):
        t = "e%d" % i
        what = sx.choice(t + ".set", ["none", "level", "silent", "compact", "other"])
        if what == "level":
            level = sx.int(t + ".level", 0, 5)
            obj.exception_control_level = level
        elif what == "silent":
            silent = not silent
            obj.exception_control_silent_warnings = silent
        elif what == "compact":
            compact = not compact
            obj.exception_control_compact_warnings = compact
        elif what == "other":
            other.exception_control_level = 5
            other.exception_control_silent_warnings = True
            other.exception_control_compact_warnings = True
            sx.attempt(lambda: other.exception_control_event("MINOR", KeyError, "m"))
        ev = sx.choice(t + ".type", ["SILENT", "WARNING", "MINOR", "SERIOUS", "catastrophic"])
        decide(sx, obj, level, ev, ValueError, "m", True, silent, compact, out)
    sx.require_eq((obj.exception_control_level, obj.exception_control_silent_warnings,
                   obj.exception_control_compact_warnings), (level, silent, compact), "settings")


def messages(sx):
    """Messages of any characters, and messages that are no text when raised."""
    mod = sx.module("configparserenhanced")
    obj = mod.ExceptionControl()
    out = sx.capture()
    compact = sx.bool("compact")
    obj.exception_control_compact_warnings = compact
    m = sx.string("m", 0, 1, PRINT + "\n" + EXOTIC) + sx.choice("rest", ["", "x", "\n", "\n y", "{0}%s", "\r\n", "\u2028z"])
    decide(sx, obj, 4, "WARNING", RuntimeError, m, True, False, compact, out)
    decide(sx, obj, 4, "MINOR", RuntimeError, m, True, False, compact, out)
    w = sx.choice("w", [5, 0, False, (), (1, 2), ["a"], b"", 1.5])
    r = sx.attempt(lambda: obj.exception_control_event("CATASTROPHIC", KeyError, w))
    sx.require_eq(r.kind, "KeyError", "event with a message that is no text")
    sx.require_eq(r.exc.args, (w,), "message passed on")


def unknown(sx):
    """Names that only look like event types."""
    mod = sx.module("configparserenhanced")
    obj = mod.ExceptionControl()
    obj.exception_control_level = sx.choice("level", [0, 3, 5])
    out = sx.capture()
    base = sx.choice("base", list(REQ))
    how = sx.choice("how", ["before", "after", "inner", "short", "lower-short", "other"])
    c = sx.string("c", 1, 1, PRINT + EXOTIC + "\n")
    k = sx.choice("k", [1, 3])
    name = {"before": c + base, "after": base + c, "inner": base[:k] + c + base[k:], "short": base[:-1],
            "lower-short": base[1:].lower(),
            "other": sx.choice("o", [None, 5, "", "ERROR", "EXCEPTION_SKIPPED", "WARNINGS", "FATAL", "CRITICALS"])}[how]
    r = sx.attempt(lambda: obj.exception_control_event(name, ValueError, "m"))
    sx.observe(r.kind)
    sx.require_eq(r.kind, "KeyError", "unknown event type %r" % (name,))
    sx.require_eq(out.getvalue(), "", "nothing printed")


def levels(sx):
    """The level is clamped to 0..5."""
    mod = sx.module("configparserenhanced")
    obj = mod.ExceptionControl()
    sx.require_eq(obj.exception_control_level, 4, "default level")
    how = sx.choice("how", ["int", "str", "float", "bool", "bad", "none"])
    v = sx.int("v", -3, 9)
    if how == "int":
        given, want = v, v
    elif how == "str":
        given, want = str(v), v
    elif how == "float":
        given, want = 2.75, 2
    elif how == "bool":
        given, want = True, 1
    elif how == "bad":
        given, want = "x", None
    else:
        given, want = None, None
    r = sx.attempt(lambda: setattr(obj, "exception_control_level", given))
    got = obj.exception_control_level
    sx.observe(r.kind, got)
    if want is None:
        sx.require(not r.ok and r.kind in ("ValueError", "TypeError"), "a level that is no number is refused")
        sx.require_eq(got, 4, "level after a refused setting")
        return
    want = 0 if want < 0 else 5 if want > 5 else want
    sx.require(r.ok, "level setting raised " + r.kind)
    sx.require_eq(got, want, "level after setting")
    other = mod.ExceptionControl()
    sx.require_eq(other.exception_control_level, 4, "level of another object")


def refused(sx):
    """Unknown event types and things that cannot be raised."""
    mod = sx.module("configparserenhanced")
    obj = mod.ExceptionControl()
    level = sx.int("level", 0, 5)
    obj.exception_control_level = level
    out = sx.capture()
    name = sx.string("name", 1, 3, "AWX ")
    r = sx.attempt(lambda: obj.exception_control_event(name, ValueError, "m"))
    sx.require_eq(r.kind, "KeyError", "unknown event type")
    t = sx.choice("t", list(REQ))
    bad = sx.choice("bad", [int, 5, "ValueError", None, object])
    r = sx.attempt(lambda: obj.exception_control_event(t, bad, "m"))
    sx.observe(r.kind)
    sx.require_eq(r.kind, "TypeError", "something that cannot be raised")
    sx.require_eq(out.getvalue(), "", "no notice")
    for attr in ("exception_control_silent_warnings", "exception_control_compact_warnings"):
        sx.require_eq(getattr(obj, attr), False, "default of " + attr)
        v = sx.choice(attr, [0, 1, "True", None, True, False])
        r = sx.attempt(lambda: setattr(obj, attr, v))
        if isinstance(v, bool):
            sx.require(r.ok, attr)
            sx.require_eq(getattr(obj, attr), v, attr)
        else:
            sx.require_eq(r.kind, "TypeError", attr + " must be a bool")
            sx.require_eq(getattr(obj, attr), False, attr + " after a refused setting")


def inherited(sx):
    """The parser follows the same table for its own type checks and events."""
    mod = sx.module("configparserenhanced")
    p = sx.file("c.ini", "[A]\nk: 1\n")
    cpe = mod.ConfigParserEnhanced(p)
    level = sx.int("level", -1, 6)
    cpe.exception_control_level = level
    lv = cpe.exception_control_level
    sx.capture()
    what = sx.choice("what", ["file", "section", "missing", "unhandled", "option"])
    if what == "file":
        r = sx.attempt(lambda: setattr(cpe, "inifilepath", 5))
        sx.require_eq(r.kind, "TypeError", "bad file name at any level")
    elif what == "section":
        r = sx.attempt(lambda: cpe.parse_section(5))
        sx.require_eq(r.kind, "TypeError", "bad section name at any level")
    elif what == "missing":
        r = sx.attempt(lambda: cpe.parse_section("NO"))
        sx.require_eq(r.kind, "KeyError", "missing section at any level")
    elif what == "option":
        r = sx.attempt(lambda: cpe.configparserenhanceddata.get("A", "zz"))
        sx.require_eq(r.kind, "KeyError", "missing option at any level")
    else:
        r = sx.attempt(lambda: cpe.assert_section_all_options_handled("A"))
        sx.require_eq(r.kind, "ValueError" if lv >= 3 else "ok", "unhandled option at level %d" % lv)
    sx.observe(r.kind)
    sx.require_eq(lv, 0 if level < 0 else 5 if level > 5 else level, "level")


SCENARIOS = [
    dict(name="history", fn="history", paths=CORE, kw=dict(n=2),
         bounds="2 events of 5 types with a change of a setting before each, another object in between"),
    dict(name="history-3", fn="history", paths=CORE, kw=dict(n=3), tiers=("thorough",), bounds="3 events"),
    dict(name="classes", fn="classes", paths=CORE, bounds="24 exception classes, 6 event types, levels 0..5"),
    dict(name="messages", fn="messages", paths=CORE, bounds="messages of any printable or exotic character and 7 endings; 8 messages that are no text"),
    dict(name="unknown", fn="unknown", paths=CORE, bounds="event types with any character more, with one less, and 8 others"),
    dict(name="matrix", fn="matrix", paths=CORE,
         bounds="6 event types in any case, levels 0..5, both flags, 5 exception types, messages up to 2 characters"),
    dict(name="levels", fn="levels", paths=CORE, bounds="levels -3..9 as int and str, other types"),
    dict(name="refused", fn="refused", paths=CORE, bounds="unknown names of 1..3 characters, 5 unraisable things"),
    dict(name="inherited", fn="inherited", paths=CORE, bounds="levels -1..6, 5 parser events"),
]
