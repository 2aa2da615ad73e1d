"""Regular-expression matching over symbolic strings.

Works on the parse tree produced by the standard library's own regex parser,
with the standard backtracking semantics; character tests on symbolic
characters go through the decision recorder.
"""
import re
import sys
from re import _parser, _compiler
from re._constants import (
    LITERAL, NOT_LITERAL, ANY, IN, BRANCH, SUBPATTERN, MAX_REPEAT, MIN_REPEAT,
    POSSESSIVE_REPEAT, ATOMIC_GROUP, AT, ASSERT, ASSERT_NOT, GROUPREF,
    GROUPREF_EXISTS, MAXREPEAT, AT_BEGINNING, AT_BEGINNING_STRING, AT_BOUNDARY,
    AT_NON_BOUNDARY, AT_END, AT_END_STRING, CATEGORY, RANGE, NEGATE)
from . import core
from .core import SStr, SChar, Opq, mk, els_of, el_test, norm_el, PH_BASE

_RE_SPECIAL = frozenset(map(ord, ".^$*+?{}[]\\|()#&~- \t\n\r\v\f"))


class SPattern:
    """Compiled pattern; `pattern` may contain symbolic characters."""
    _sx_engine = True

    def __init__(self, pattern, flags=0):
        if isinstance(pattern, SPattern):
            self.__dict__.update(pattern.__dict__)
            return
        if isinstance(pattern, re.Pattern):
            flags = pattern.flags
            pattern = pattern.pattern
        self.pattern = pattern
        self.holes = []
        text = pattern
        if type(pattern) is SStr:
            els = []
            for k, e in enumerate(pattern.els):
                if type(e) is int:
                    els.append(chr(e))
                    continue
                e = norm_el(e)
                if type(e) is int:
                    els.append(chr(e))
                    continue
                prev_bs = 0
                while prev_bs < len(els) and els[-1 - prev_bs] == "\\":
                    prev_bs += 1
                inset = _in_set("".join(els))
                if prev_bs % 2:
                    # an escaped character: punctuation stands for itself
                    if el_test(e, "re-esc-alnum", lambda c: chr(c).isalnum() or c == 95):
                        core.CTX.pin(e, "regex-escape")
                        els.append(chr(e.conc))
                        continue
                elif inset or el_test(e, "re-special", _RE_SPECIAL.__contains__) or _in_brace("".join(els)):
                    core.CTX.pin(e, "regex-special")
                    els.append(chr(e.conc))
                    continue
                els.append(chr(PH_BASE + len(self.holes)))
                self.holes.append(e)
            text = "".join(els)
        self.text = text
        self.concrete = not self.holes
        self.native = re.compile(text, flags)      # raises re.error like the real one
        self.flags = self.native.flags
        self.groups = self.native.groups
        self.groupindex = self.native.groupindex
        self.tree = _parser.parse(text, flags)
        self._masks = {}

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    # ---- API
    def _go(self, string, pos, endpos, mode):
        els = els_of(string)
        n = len(els)
        pos = min(max(pos, 0), n)
        end = n if endpos is None else min(max(endpos, 0), n)
        els = els[:end]
        if mode == "search":
            for st in range(pos, end + 1):
                m = self._at(els, st, string, pos, None)
                if m is not None:
                    return m
            return None
        return self._at(els, pos, string, pos, end if mode == "fullmatch" else None)

    def _at(self, els, st, string, pos, must_end):
        mt = Matcher(self, els)
        g = {}

        def fin(p, g):
            if must_end is not None and p != must_end:
                return None
            return (p, g)
        r = mt.seq(list(self.tree), 0, st, g, fin, self.flags)
        if r is None:
            return None
        p, g = r
        return SMatch(self, string, st, p, g, pos)

    def _plain(self, *strings):
        """No symbolic part: the real engine answers."""
        return self.concrete and all(type(x) is str for x in strings)

    def match(self, string, pos=0, endpos=None):
        if self._plain(string):
            return self.native.match(string, pos, sys.maxsize if endpos is None else endpos)
        return self._go(string, pos, endpos, "match")

    def search(self, string, pos=0, endpos=None):
        if self._plain(string):
            return self.native.search(string, pos, sys.maxsize if endpos is None else endpos)
        return self._go(string, pos, endpos, "search")

    def fullmatch(self, string, pos=0, endpos=None):
        if self._plain(string):
            return self.native.fullmatch(string, pos, sys.maxsize if endpos is None else endpos)
        return self._go(string, pos, endpos, "fullmatch")

    def finditer(self, string, pos=0, endpos=None):
        if self._plain(string):
            return self.native.finditer(string, pos, sys.maxsize if endpos is None else endpos)
        return iter(list(self._scan(string, pos, endpos)))

    def _scan(self, string, pos=0, endpos=None):
        els = els_of(string)
        n = len(els) if endpos is None else min(endpos, len(els))
        els = els[:n]
        p = pos
        mustadv = False
        while p <= n:
            m = None
            st = p
            while st <= n:
                m = self._at_adv(els, st, string, pos, mustadv and st == p)
                if m is not None:
                    break
                st += 1
            if m is None:
                return
            yield m
            mustadv = m.end() == m.start()
            p = m.end()

    def _at_adv(self, els, st, string, pos, mustadv):
        """Like sre's must_advance: an empty match at `st` is not accepted."""
        mt = Matcher(self, els)

        def fin(p, g):
            if mustadv and p == st:
                return None
            return (p, g)
        r = mt.seq(list(self.tree), 0, st, {}, fin, self.flags)
        if r is None:
            return None
        return SMatch(self, string, st, r[0], r[1], pos)

    def findall(self, string, pos=0, endpos=None):
        if self._plain(string):
            return self.native.findall(string, pos, sys.maxsize if endpos is None else endpos)
        out = []
        for m in self._scan(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group(0))
            elif self.groups == 1:
                x = m.group(1)
                out.append("" if x is None else x)
            else:
                out.append(tuple("" if x is None else x for x in m.groups()))
        return out

    def split(self, string, maxsplit=0):
        if self._plain(string):
            return self.native.split(string, maxsplit)
        out = []
        last = 0
        k = 0
        for m in self._scan(string):
            if maxsplit and k >= maxsplit:
                break
            out.append(string[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            k += 1
        out.append(string[last:])
        return out

    def subn(self, repl, string, count=0):
        if self._plain(repl, string):
            return self.native.subn(repl, string, count)
        out = []
        last = 0
        k = 0
        for m in self._scan(string):
            if count and k >= count:
                break
            out.extend(els_of(string)[last:m.start()])
            if callable(repl):
                r = repl(m)
                if r is None:
                    r = ""
            else:
                r = m.expand(repl)
            out.extend(els_of(r))
            last = m.end()
            k += 1
        out.extend(els_of(string)[last:])
        return mk(out), k

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]


def _in_set(t):
    """Does text t end inside an open character class?"""
    i = 0
    inset = False
    start = 0
    while i < len(t):
        c = t[i]
        if c == "\\":
            i += 2
            continue
        if inset:
            if c == "]" and i > start:
                inset = False
        elif c == "[":
            inset = True
            start = i + 1
            if t[start:start + 1] == "^":
                start += 1
        i += 1
    return inset


def _in_brace(t):
    k = t.rfind("{")
    return k >= 0 and "}" not in t[k:] and all(c in "0123456789," for c in t[k + 1:])


class SMatch:
    _sx_engine = True

    def __init__(self, pat, string, st, en, groups, pos):
        self.re = pat
        self.string = string
        self._st = st
        self._en = en
        self._g = groups
        self.pos = pos
        self.endpos = len(string)

    def _span(self, k):
        if isinstance(k, str):
            k = core.plain(k)
            if k not in self.re.groupindex:
                raise IndexError("no such group")
            k = self.re.groupindex[k]
        if k == 0:
            return (self._st, self._en)
        if k < 0 or k > self.re.groups:
            raise IndexError("no such group")
        return self._g.get(k, (-1, -1))

    def _one(self, k, default=None):
        a, b = self._span(k)
        if a < 0:
            return default
        return self.string[a:b]

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(k, default) for n, k in self.re.groupindex.items()}

    def start(self, k=0):
        return self._span(k)[0]

    def end(self, k=0):
        return self._span(k)[1]

    def span(self, k=0):
        return self._span(k)

    @property
    def lastindex(self):
        best = None
        for k, (a, b) in self._g.items():
            if best is None or b > self._g[best][1]:
                best = k
        return best

    @property
    def lastgroup(self):
        li = self.lastindex
        for n, k in self.re.groupindex.items():
            if k == li:
                return n
        return None

    def expand(self, repl):
        if type(repl) is SStr:
            for e in repl.els:
                if type(e) is not int and core.el_is(e, 92):
                    core.CTX.pin_value(repl, "re-template")
                    repl = core.plain(repl)
                    break
            else:
                return repl
        if "\\" not in repl:
            return repl
        parsed = _parser.parse_template(repl, self.re.native)
        out = []
        if isinstance(parsed, tuple):      # (groups, literals) up to 3.11
            groups, literals = parsed
            literals = list(literals)
            for idx, g in groups:
                literals[idx] = self._one(g, "")
            for x in literals:
                out.extend(els_of(x or ""))
        else:
            for x in parsed:
                if isinstance(x, int):
                    out.extend(els_of(self._one(x, "")))
                else:
                    out.extend(els_of(x))
        return mk(out)


_ISWORD = re.compile(r"\w")


class Matcher:
    def __init__(self, pat, els):
        self.pat = pat
        self.els = els

    # one-character nodes
    def char_ok(self, node, e, flags):
        op, av = node
        holes = self.pat.holes
        e = norm_el(e)
        if op is LITERAL and holes and PH_BASE <= av < PH_BASE + len(holes):
            h = holes[av - PH_BASE]
            if flags & re.I:
                a = core.lift(mk((e,))).lower()
                b = core.lift(mk((h,))).lower()
                return a == b
            return core.els_eq((e,), (h,))
        if op is NOT_LITERAL and holes and PH_BASE <= av < PH_BASE + len(holes):
            return not core.els_eq((e,), (holes[av - PH_BASE],))
        key = self.pat._masks.get(id(node))
        if key is None:
            prog = _one_prog(node, flags)
            key = self.pat._masks[id(node)] = (prog, ("re1", repr(node), flags & (re.I | re.S | re.A)), node)
        prog = key[0]
        if type(e) is int:
            return prog.match(chr(e)) is not None
        return core.CTX.test(e, key[1], lambda c: prog.match(chr(c)) is not None)

    def is_word(self, i, flags):
        e = self.els[i]
        if flags & re.A:
            return el_test(e, "wordA", lambda c: c < 128 and (chr(c).isalnum() or c == 95))
        return el_test(e, "wordU", lambda c: _ISWORD.match(chr(c)) is not None)

    def at(self, av, p, flags):
        n = len(self.els)
        if av is AT_BEGINNING:
            if flags & re.M:
                return p == 0 or core.el_is(self.els[p - 1], 10)
            return p == 0
        if av is AT_BEGINNING_STRING:
            return p == 0
        if av is AT_END:
            if p == n:
                return True
            if flags & re.M:
                return core.el_is(self.els[p], 10)
            return p == n - 1 and core.el_is(self.els[p], 10)
        if av is AT_END_STRING:
            return p == n
        if av in (AT_BOUNDARY, AT_NON_BOUNDARY):
            if n == 0:
                b = False
            else:
                a = p > 0 and self.is_word(p - 1, flags)
                c = p < n and self.is_word(p, flags)
                b = a != c
            return b if av is AT_BOUNDARY else not b
        raise NotImplementedError(str(av))

    def seq(self, nodes, i, p, g, k, flags):
        """Match nodes[i:] at p with groups g, then k(p, g)."""
        core.CTX.tick()
        els = self.els
        n = len(els)
        while i < len(nodes):
            node = nodes[i]
            op, av = node
            if op in (LITERAL, NOT_LITERAL, ANY, IN):
                if p >= n or not self.char_ok(node, els[p], flags):
                    return None
                p += 1
                i += 1
                continue
            if op is AT:
                if not self.at(av, p, flags):
                    return None
                i += 1
                continue
            nxt = (lambda p2, g2, i=i: self.seq(nodes, i + 1, p2, g2, k, flags))
            if op is BRANCH:
                for alt in av[1]:
                    r = self.seq(list(alt), 0, p, g, nxt, flags)
                    if r is not None:
                        return r
                return None
            if op is SUBPATTERN:
                gid, add, dele, sub = av
                fl = (flags | add) & ~dele

                def done(p2, g2, p=p, gid=gid):
                    if gid is not None:
                        g2 = dict(g2)
                        g2.pop(gid, None)
                        g2[gid] = (p, p2)
                    return nxt(p2, g2)
                return self.seq(list(sub), 0, p, g, done, fl)
            if op in (MAX_REPEAT, MIN_REPEAT, POSSESSIVE_REPEAT):
                lo, hi, sub = av
                sub = list(sub)
                if op is POSSESSIVE_REPEAT:
                    r = self.rep_max(sub, lo, hi, 0, p, g, lambda p2, g2: (p2, g2), flags, None)
                    if r is None:
                        return None
                    return nxt(*r)
                if len(sub) == 1 and sub[0][0] in (LITERAL, NOT_LITERAL, ANY, IN):
                    return self.rep1(op, sub[0], lo, hi, p, g, nxt, flags)
                if op is MAX_REPEAT:
                    return self.rep_max(sub, lo, hi, 0, p, g, nxt, flags, None)
                return self.rep_min(sub, lo, hi, 0, p, g, nxt, flags, None)
            if op is ATOMIC_GROUP:
                r = self.seq(list(av), 0, p, g, lambda p2, g2: (p2, g2), flags)
                if r is None:
                    return None
                return nxt(*r)
            if op in (ASSERT, ASSERT_NOT):
                d, sub = av
                if d > 0:
                    r = self.seq(list(sub), 0, p, g, lambda p2, g2: (p2, g2), flags)
                else:
                    w, _ = sub.getwidth()
                    r = None
                    if p - w >= 0:
                        r = self.seq(list(sub), 0, p - w, g, lambda p2, g2: (p2, g2), flags)
                if op is ASSERT:
                    if r is None:
                        return None
                    g = r[1]
                elif r is not None:
                    return None
                i += 1
                continue
            if op is GROUPREF:
                if av not in g:
                    return None
                a, b = g[av]
                w = b - a
                if p + w > n or not core.els_eq(els[a:b], els[p:p + w]):
                    return None
                p += w
                i += 1
                continue
            if op is GROUPREF_EXISTS:
                gid, yes, no = av
                sub = yes if gid in g else no
                if sub is None:
                    i += 1
                    continue
                return self.seq(list(sub), 0, p, g, nxt, flags)
            raise NotImplementedError(str(op))
        return k(p, g)

    def rep1(self, op, node, lo, hi, p, g, nxt, flags):
        els = self.els
        n = len(els)
        lim = n - p if hi is MAXREPEAT else min(hi, n - p)
        c = 0
        while c < lo:
            if p + c >= n or not self.char_ok(node, els[p + c], flags):
                return None
            c += 1
        if op is MIN_REPEAT:
            while True:
                r = nxt(p + c, g)
                if r is not None:
                    return r
                if c >= lim or not self.char_ok(node, els[p + c], flags):
                    return None
                c += 1
        while c < lim and self.char_ok(node, els[p + c], flags):
            c += 1
        while c >= lo:
            r = nxt(p + c, g)
            if r is not None:
                return r
            c -= 1
        return None

    def rep_max(self, sub, lo, hi, c, p, g, nxt, flags, last):
        if c < lo:
            return self.seq(sub, 0, p, g,
                            lambda p2, g2: self.rep_max(sub, lo, hi, c + 1, p2, g2, nxt, flags, p), flags)
        if (hi is MAXREPEAT or c < hi) and last != p:
            r = self.seq(sub, 0, p, g,
                         lambda p2, g2: self.rep_max(sub, lo, hi, c + 1, p2, g2, nxt, flags, p), flags)
            if r is not None:
                return r
        return nxt(p, g)

    def rep_min(self, sub, lo, hi, c, p, g, nxt, flags, last):
        if c >= lo:
            r = nxt(p, g)
            if r is not None:
                return r
        if (hi is MAXREPEAT or c < hi) and not (c >= lo and last == p):
            return self.seq(sub, 0, p, g,
                            lambda p2, g2: self.rep_min(sub, lo, hi, c + 1, p2, g2, nxt, flags, p), flags)
        return None


_ONE = {}


def _one_prog(node, flags):
    fl = flags & (re.I | re.S | re.A | re.U)
    k = (repr(node), fl)
    r = _ONE.get(k)
    if r is None:
        st = _parser.State()
        st.str = "x"
        st.flags = fl
        sp = _parser.SubPattern(st, [node])
        r = _ONE[k] = _compiler.compile(sp, fl)
    return r
