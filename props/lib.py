"""Shared pieces of the property harnesses: building .ini text from a
structure whose parts are symbolic, and the reference expansion of it."""

CORE = ["/repo/src"]
KWP = ["/repo/src", "/repo/wip/keywordparser"]
DSY = ["/repo/src", "/repo/wip/determinesystem", "/repo/wip/keywordparser"]
SEV = ["/repo/src", "/repo/wip/setenvironment/src"]
GEN = ["/repo/src", "/repo/wip/genconfig", "/repo/wip/keywordparser"]
LOD = ["/repo/src", "/repo/wip/determinesystem", "/repo/wip/keywordparser",
       "/repo/wip/setenvironment/src", "/repo/wip/loadenv"]


PRINT = "".join(chr(c) for c in range(32, 127))
# letters, blanks and separators beyond ASCII that careless code treats specially
EXOTIC = "\t\x0b\x0c\x1c\x85\u2028\u00a0\u2003\u3000\x1f\x7féßİǅ漢\u0301\u200b\ufeff𝒳"


def without(chars, drop):
    return "".join(c for c in chars if c not in drop)


# words that code may mistake for something else than text
WORDS = ["FALSE", "True", "false", "Yes", "off", "NULL", "None", "nan", "~", "~/x", "-1", "+1", "007", "0x1F", "1e3", "1.0", "1_000",
         "//x", "/x/", "../x", "./x", "a//b", "a/./b", "$X", "${X}", "$", "*", "a;b", "a;", "&amp;", "<x>", "--", "-x", "a|b", "a,b,",
         "(a)", "{a}", "{}", "!a", "@a", "a@b", "^a", "a\\tb", "\\", "'a'", "a\"b"]


def peculiar(sx, tag, chars, blanks=True, words=WORDS):
    """A word with a meaning elsewhere, or a long text with any character in it."""
    how = sx.choice(tag + ".how", ["word", "long"] + (["sentence"] if blanks else []))
    if how == "word":
        return sx.choice(tag + ".word", words)
    if how == "long":
        return "w" * sx.choice(tag + ".n", [31, 64, 80, 128, 260]) + sx.word(tag + ".c", [chars]) + "x"
    return "word " * sx.choice(tag + ".n", [7, 13, 16, 26, 60]) + sx.word(tag + ".c", [chars]) + " word"


class Missing(Exception):
    pass


class Cycle(Exception):
    pass


class Opt:
    """`key: value` (value None: no delimiter)"""

    def __init__(self, key, value):
        self.key = key
        self.value = value

    def line(self):
        if self.value is None:
            return self.key
        return self.key + ": " + self.value


class Use:
    def __init__(self, target, quote="", extra="", value=None):
        self.target = target
        self.key = "use " + quote + target + quote + extra
        self.value = value

    def line(self):
        return self.key if self.value is None else self.key + ": " + self.value


class Op:
    """An option handled by a handler method."""

    def __init__(self, op, params, value, quote=""):
        self.op = op
        self.params = params
        self.value = value
        self.key = " ".join([op] + [quote + p + quote for p in params])

    def line(self):
        if self.value is None:
            return self.key
        return self.key + ": " + self.value


def render(sections):
    """sections: list of (name, entries)."""
    out = []
    for name, entries in sections:
        out.append("[" + name + "]")
        for e in entries:
            out.append(e.line())
        out.append("")
    return "\n".join(out) + "\n"


def find(sections, name):
    for n, entries in sections:
        if n == name:
            return entries
    return None


def distinct_keys(sections):
    """No option key twice in one section (ConfigParser refuses those)."""
    for n, entries in sections:
        for i in range(len(entries)):
            for j in range(i):
                if entries[i].key == entries[j].key:
                    return False
    return True


def expand(sections, root, on_cycle=None, start=None):
    """Reference semantics: returns (data, events).

    data: the options of the expanded section; events: the handled operations
    in the order they are met, each (section, op, params, value)."""
    data = {}
    events = []
    cycles = []

    def walk(name, active):
        entries = find(sections, name)
        if entries is None:
            raise Missing(name)
        for e in entries:
            if isinstance(e, Use):
                if e.target in active:
                    cycles.append((name, e.target))
                    if on_cycle is not None:
                        on_cycle(name, e.target)
                else:
                    walk(e.target, active + [e.target])
            elif isinstance(e, Op):
                events.append((name, e.op, list(e.params), e.value))
            else:
                data[e.key] = e.value
    walk(root, [root])
    return data, events, cycles
