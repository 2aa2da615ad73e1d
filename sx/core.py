"""Symbolic values and path state of the bounded symbolic executor.

A run executes the (instrumented) real code on a concrete input *and* carries,
for every string/integer derived from the input, its symbolic expression over
the input variables.  Every decision that depends on the input goes through
`Ctx.branch`, which records the symbolic condition.  The explorer
(sx/explore.py) asks the SMT solver, for each recorded decision, whether the
other outcome is possible under the decisions before it, and runs the code
again on the solver's assignment when it is.  When no decision is left, every
input within the declared domains has been covered.
"""
import sys

PH_BASE = 0xF0000          # placeholder code points (never part of an input domain)
MAXCP = 0xEFFFF


class SxAbort(BaseException):
    """Ends the current run (infeasible assumption, step budget, failed check)."""


class CheckFailed(SxAbort):
    pass


class Assumption(SxAbort):
    pass


class StepBudget(SxAbort):
    pass


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


# ---------------------------------------------------------------- domains
_DOMS = {}


class Dom:
    """A finite set of code points, interned; masks over it are cached."""
    __slots__ = ("chars", "mask", "_pred")

    def __init__(self, chars):
        self.chars = chars
        m = 0
        if len(chars) > 4096:
            ba = bytearray((max(chars) >> 3) + 1)
            for c in chars:
                ba[c >> 3] |= 1 << (c & 7)
            m = int.from_bytes(ba, "little")
        else:
            for c in chars:
                m |= 1 << c
        self.mask = m
        self._pred = {}

    def pred_mask(self, key, fn):
        r = self._pred.get(key)
        if r is None:
            hits = [c for c in self.chars if fn(c)]
            if len(hits) > 4096:
                ba = bytearray((max(hits) >> 3) + 1)
                for c in hits:
                    ba[c >> 3] |= 1 << (c & 7)
                r = int.from_bytes(ba, "little")
            else:
                r = 0
                for c in hits:
                    r |= 1 << c
            self._pred[key] = r
        return r


def dom_of(chars):
    key = tuple(dict.fromkeys(ord(c) if isinstance(c, str) else c for c in chars))
    d = _DOMS.get(key)
    if d is None:
        for c in key:
            if c > MAXCP or 0xD800 <= c <= 0xDFFF:
                raise ValueError("code point outside the supported domain")
        d = _DOMS[key] = Dom(key)
    return d


class Var:
    __slots__ = ("name", "dom", "kind", "lo", "hi", "_z")

    def __init__(self, name, dom=None, lo=None, hi=None):
        self.name = name
        self.dom = dom
        self.kind = "c" if dom is not None else "i"
        self.lo = lo
        self.hi = hi
        self._z = None

    def __repr__(self):
        return "Var(%s)" % self.name


class SChar:
    """One symbolic character: var, optionally through a character mapping."""
    __slots__ = ("var", "map", "conc")

    def __init__(self, var, conc, map=None):
        self.var = var
        self.map = map          # None or name in MAPS
        self.conc = conc

    def key(self):
        return (self.var.name, self.map)


def _m_lower(c):
    return ord(chr(c).lower()) if len(chr(c).lower()) == 1 else c


def _m_upper(c):
    return ord(chr(c).upper()) if len(chr(c).upper()) == 1 else c


def _m_fold(c):
    return ord(chr(c).casefold()) if len(chr(c).casefold()) == 1 else c


def _m_swap(c):
    return ord(chr(c).swapcase()) if len(chr(c).swapcase()) == 1 else c


def _m_title(c):
    return ord(chr(c).title()) if len(chr(c).title()) == 1 else c


MAPS = {"lower": _m_lower, "upper": _m_upper, "fold": _m_fold, "swap": _m_swap,
        "title": _m_title}
_MAPC = {}


def map_apply(mp, c):
    """mp is a '/'-joined chain of mapping names."""
    if mp is None:
        return c
    for n in mp.split("/"):
        c = MAPS[n](c)
    return c


class Opq:
    """A character of a string computed from symbolic data by code that is not
    modelled character by character (e.g. repr of a container).  Looking at it
    pins its sources."""
    __slots__ = ("srcs", "conc")

    def __init__(self, srcs, conc):
        self.srcs = srcs
        self.conc = conc


# ---------------------------------------------------------------- context
class Ctx:
    def __init__(self, inputs=None, prefix=(), max_steps=400000):
        self.inputs = dict(inputs or {})     # name -> int given by the solver
        self.vars = {}                       # name -> Var
        self.val = {}                        # name -> concrete int
        self.dom = {}                        # name -> current mask (chars)
        self.branches = []                   # (key, cond, outcome, kind)
        self.prefix = prefix
        self.diverged = False
        self.guard = 0
        self.steps = 0
        self.max_steps = max_steps
        self.functions = set()
        self.failures = []
        self.checks = 0
        self.observed = []
        self.notes = {}
        self.assumed_out = False
        self.aborted = None
        self.nsets = None
        self.pinned = set()
        self.vfs = None
        self.scratch = None

    # -- inputs
    def new_char(self, name, dom):
        v = Var(name, dom)
        if name in self.vars:
            raise RuntimeError("input %s created twice" % name)
        c = self.inputs.get(name)
        if c is None or not (dom.mask >> c) & 1:
            c = dom.chars[0]
        self.vars[name] = v
        self.val[name] = c
        self.dom[name] = dom.mask
        if len(dom.chars) == 1:
            return c
        return SChar(v, c)

    def new_int(self, name, lo, hi):
        if name in self.vars:
            raise RuntimeError("input %s created twice" % name)
        v = Var(name, None, lo, hi)
        c = self.inputs.get(name)
        if c is None or c < lo or c > hi:
            c = lo
        self.vars[name] = v
        self.val[name] = c
        if lo == hi:
            return c
        return SInt.mk(c, ("v", name))

    def set_order(self):
        """Iteration order of the sets of this run: a solver-chosen input (0
        insertion order, 1 its reverse)."""
        if self.nsets is None:
            self.nsets = bool(self.new_int("setorder0", 0, 1) != 0)
        return self.nsets

    # -- decisions
    def note(self, what, n=1):
        self.notes[what] = self.notes.get(what, 0) + n

    def branch(self, cond, outcome, kind="b"):
        i = len(self.branches)
        key = cond
        if i < len(self.prefix):
            pk, po = self.prefix[i]
            if po != outcome or pk != hash(key):
                if not self.diverged:
                    self.diverged = i + 1
        self.branches.append((cond, outcome, kind))
        return outcome

    def test(self, ch, key, fn):
        """Unary test of a symbolic char; forks if undecided in its domain."""
        v = ch.var
        d = self.dom[v.name]
        if ch.map is None:
            pm = v.dom.pred_mask(key, fn)
        else:
            mp = ch.map
            pm = v.dom.pred_mask((mp, key), lambda c: fn(map_apply(mp, c)))
        t = d & pm
        if t == 0:
            return False
        if t == d:
            return True
        out = bool((pm >> self.val[v.name]) & 1)
        self.branch(("m", v.name, t, d), out)
        self.dom[v.name] = t if out else (d & ~pm)
        return out

    def test_eqc(self, ch, c):
        return self.test(ch, ("=", c), lambda x: x == c)

    def fixed(self, ch):
        """The concrete code point of a char already forced to one value, or None."""
        v = ch.var
        d = self.dom[v.name]
        if d & (d - 1) == 0:
            return ch.conc
        if ch.map is not None:
            return None
        return None

    def conj(self, atoms, kind="b"):
        """Decide a conjunction of equality atoms as one branch.

        atoms: list of ('ec', SChar, const) / ('ev', SChar, SChar) /
        ('z', expr, concbool).  Returns the outcome."""
        live = []
        seen = set()
        for a in atoms:
            if a[0] == "ec":
                ch, c = a[1], a[2]
                v = ch.var
                d = self.dom[v.name]
                if ch.map is None:
                    if not (d >> c) & 1:
                        return False
                    if d == 1 << c:
                        continue
                else:
                    mp = ch.map
                    pm = v.dom.pred_mask((mp, ("=", c)), lambda x: map_apply(mp, x) == c)
                    if not d & pm:
                        return False
                    if d & pm == d:
                        continue
                k = ("ec", ch.key(), c)
            elif a[0] == "ev":
                x, y = a[1], a[2]
                if x.key() == y.key():
                    continue
                fx, fy = self.fixed(x), self.fixed(y)
                if fx is not None and fy is not None:
                    if fx != fy:
                        return False
                    continue
                if fx is not None:
                    a = ("ec", y, fx)
                    k = ("ec", y.key(), fx)
                elif fy is not None:
                    a = ("ec", x, fy)
                    k = ("ec", x.key(), fy)
                else:
                    if x.map is None and y.map is None and not (
                            self.dom[x.var.name] & self.dom[y.var.name]):
                        return False
                    kx, ky = x.key(), y.key()
                    if repr(ky) < repr(kx):
                        x, y, kx, ky = y, x, ky, kx
                        a = ("ev", x, y)
                    k = ("ev", kx, ky)
                if a[0] == "ec":
                    ch, c = a[1], a[2]
                    if ch.map is None and not (self.dom[ch.var.name] >> c) & 1:
                        return False
            else:
                k = ("z", a[1])
            if k in seen:
                continue
            seen.add(k)
            live.append((k, a))
        if not live:
            return True
        if len(live) == 1 and live[0][1][0] == "ec" and kind == "b":
            a = live[0][1]
            return self.test_eqc(a[1], a[2])
        out = True
        for k, a in live:
            if a[0] == "ec":
                ok = a[1].conc == a[2]
            elif a[0] == "ev":
                ok = a[1].conc == a[2].conc
            else:
                ok = a[2]
            if not ok:
                out = False
                break
        self.branch(("and", tuple(k for k, a in live)), out, kind)
        if out:
            for k, a in live:
                if a[0] == "ec":
                    ch, c = a[1], a[2]
                    v = ch.var
                    if ch.map is None:
                        self.dom[v.name] &= 1 << c
                    else:
                        mp = ch.map
                        self.dom[v.name] &= v.dom.pred_mask(
                            (mp, ("=", c)), lambda x, c=c, mp=mp: map_apply(mp, x) == c)
                elif a[0] == "ev":
                    x, y = a[1], a[2]
                    if x.map is None and y.map is None:
                        d = self.dom[x.var.name] & self.dom[y.var.name]
                        self.dom[x.var.name] = d
                        self.dom[y.var.name] = d
        return out

    def pin(self, el, why=""):
        """Force a symbolic char to its current concrete value (a fork)."""
        if isinstance(el, SChar):
            if self.fixed(el) is None:
                if why:
                    self.note("pin:" + why)
                v = el.var
                d = self.dom[v.name]
                m = 1 << self.val[v.name]
                self.branch(("m", v.name, m, d), True, "p")
                self.dom[v.name] = m
        elif isinstance(el, Opq):
            for s in el.srcs:
                self.pin_value(s, why)

    def pin_value(self, v, why=""):
        if isinstance(v, SStr):
            for e in v.els:
                if not isinstance(e, int):
                    self.pin(e, why)
        elif isinstance(v, SInt):
            v.pin(why)

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            self.aborted = "steps"
            raise StepBudget("step budget exceeded")


# ---------------------------------------------------------------- strings
def mk(els):
    """Build a string value from elements; a plain str if nothing is symbolic."""
    sym = False
    out = []
    for e in els:
        if type(e) is int:
            out.append(chr(e))
        else:
            sym = True
            out.append(chr(e.conc))
    s = "".join(out)
    if not sym:
        return s
    r = str.__new__(SStr, s)
    r.els = tuple(els)
    return r


def els_of(s):
    if type(s) is SStr:
        return s.els
    if isinstance(s, str):
        return tuple(map(ord, s))
    raise TypeError("must be str, not %s" % type(s).__name__)


def lift(s):
    if type(s) is SStr:
        return s
    r = str.__new__(SStr, s)
    r.els = tuple(map(ord, s))
    return r


def plain(s):
    """The concrete text of a string (no decision recorded)."""
    if type(s) is SStr:
        return "".join([chr(e if type(e) is int else e.conc) for e in s.els])
    return s


def conc_el(e):
    return e if type(e) is int else e.conc


def el_test(e, key, fn):
    if type(e) is int:
        return fn(e)
    if type(e) is SChar:
        return CTX.test(e, key, fn)
    CTX.pin(e, "opaque")
    return fn(e.conc)


def norm_el(e):
    if type(e) is Opq:
        CTX.pin(e, "opaque")
        return e.conc
    return e


def el_is(e, c):
    if type(e) is int:
        return e == c
    if type(e) is SChar:
        return CTX.test_eqc(e, c)
    CTX.pin(e, "opaque")
    return e.conc == c


def el_in(e, chars):
    """chars: a plain str used as a set of characters."""
    if type(e) is int:
        return chr(e) in chars
    if type(e) is Opq:
        CTX.pin(e, "opaque")
        return chr(e.conc) in chars
    fs = frozenset(map(ord, chars))
    return CTX.test(e, ("in", fs), fs.__contains__)


def eq_atoms(a, b):
    """Atoms of the equality of two element sequences, or None if they differ."""
    if len(a) != len(b):
        return None
    atoms = []
    for x, y in zip(a, b):
        if x is y:
            continue
        if type(x) is Opq or type(y) is Opq:
            x = norm_el(x)
            y = norm_el(y)
        if type(x) is int:
            if type(y) is int:
                if x != y:
                    return None
            else:
                atoms.append(("ec", y, x))
        elif type(y) is int:
            atoms.append(("ec", x, y))
        else:
            atoms.append(("ev", x, y))
    return atoms


def els_eq(a, b):
    at = eq_atoms(a, b)
    if at is None:
        return False
    if not at:
        return True
    return CTX.conj(at)


def el_cmp_lt(x, y):
    """x < y for two elements already known to be different-or-whatever."""
    x = norm_el(x)
    y = norm_el(y)
    if type(x) is int and type(y) is int:
        return x < y
    if type(y) is int:
        return CTX.test(x, ("<", y), lambda c: c < y)
    if type(x) is int:
        return CTX.test(y, (">", x), lambda c: c > x)
    fx, fy = CTX.fixed(x), CTX.fixed(y)
    if fx is not None:
        return CTX.test(y, (">", fx), lambda c: c > fx)
    if fy is not None:
        return CTX.test(x, ("<", fy), lambda c: c < fy)
    return CTX.branch(("and", (("lv", x.key(), y.key()),)), x.conc < y.conc)


def els_lt(a, b):
    for x, y in zip(a, b):
        if els_eq((x,), (y,)):
            continue
        return el_cmp_lt(x, y)
    return len(a) < len(b)


def _ws(c):
    return chr(c).isspace()


def is_ws(e):
    return el_test(e, "ws", _ws)


_LINEB = frozenset(map(ord, "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"))


def any_sym_els(els):
    for e in els:
        if type(e) is not int:
            return True
    return False


class Holder:
    """Maps symbolic elements to placeholder characters around a native op."""

    def __init__(self):
        self.fw = {}
        self.bw = []

    def out(self, s):
        if type(s) is not SStr:
            return s
        r = []
        for e in s.els:
            if type(e) is int:
                r.append(chr(e))
            else:
                k = id(e)
                p = self.fw.get(k)
                if p is None:
                    p = chr(PH_BASE + len(self.bw))
                    self.fw[k] = p
                    self.bw.append(e)
                r.append(p)
        return "".join(r)

    def back(self, s):
        if not self.bw:
            return s
        n = len(self.bw)
        els = []
        sym = False
        for ch in s:
            c = ord(ch)
            if PH_BASE <= c < PH_BASE + n:
                els.append(self.bw[c - PH_BASE])
                sym = True
            else:
                els.append(c)
        return mk(els) if sym else s


class SStr(str):
    __slots__ = ("els",)

    # --- native protocol
    def __hash__(self):
        if CTX is not None and not CTX.guard:
            CTX.pin_value(self, "hash")
        return str.__hash__(self)

    def __eq__(self, o):
        if isinstance(o, str):
            if CTX is None or CTX.guard:
                return str.__eq__(self, o)
            return els_eq(self.els, els_of(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, str):
            return not self.__eq__(o)
        return NotImplemented

    def __lt__(self, o):
        if isinstance(o, str):
            return els_lt(self.els, els_of(o))
        return NotImplemented

    def __gt__(self, o):
        if isinstance(o, str):
            return els_lt(els_of(o), self.els)
        return NotImplemented

    def __le__(self, o):
        if isinstance(o, str):
            return not els_lt(els_of(o), self.els)
        return NotImplemented

    def __ge__(self, o):
        if isinstance(o, str):
            return not els_lt(self.els, els_of(o))
        return NotImplemented

    def __str__(self):
        return self

    def __repr__(self):
        return repr(plain(self))

    def __format__(self, spec):
        if spec == "":
            return self
        h = Holder()
        return h.back(format(h.out(self), plain(spec)))

    def __len__(self):
        return len(self.els)

    def __bool__(self):
        return len(self.els) > 0

    def __iter__(self):
        for e in self.els:
            yield mk((e,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(_ix(i.start), _ix(i.stop), _ix(i.step))
            return mk(self.els[i])
        e = self.els[_ix(i)]
        return mk((e,))

    def __contains__(self, sub):
        if not isinstance(sub, str):
            raise TypeError("'in <string>' requires string as left operand, not "
                            + type(sub).__name__)
        return str_contains(self, sub)

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(self.els + els_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(els_of(o) + self.els)

    def __mul__(self, n):
        if not isinstance(n, int):
            return NotImplemented
        return mk(self.els * _ix(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        return str_mod(self, args)

    def __rmod__(self, o):
        if isinstance(o, str):
            return str_mod(o, self)
        return NotImplemented

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (str, (plain(self),))

    def __reduce_ex__(self, p):
        return (str, (plain(self),))

    def __getnewargs__(self):
        return (plain(self),)

    def __fspath__(self):
        CTX.pin_value(self, "fspath")
        return plain(self)

    # --- searching
    def _range(self, start, end):
        n = len(self.els)
        s, e, _ = slice(_ix(start), _ix(end)).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        se = els_of(sub)
        s, e = self._range(start, end)
        if start is not None and _ix(start) > len(self.els):
            return -1
        m = len(se)
        for i in range(s, e - m + 1):
            if els_eq(self.els[i:i + m], se):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        se = els_of(sub)
        s, e = self._range(start, end)
        if start is not None and _ix(start) > len(self.els):
            return -1
        m = len(se)
        for i in range(e - m, s - 1, -1):
            if els_eq(self.els[i:i + m], se):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        se = els_of(sub)
        s, e = self._range(start, end)
        m = len(se)
        if m == 0:
            return max(e - s + 1, 0)
        n = 0
        i = s
        while i + m <= e:
            if els_eq(self.els[i:i + m], se):
                n += 1
                i += m
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            for x in p:
                if self.startswith(x, start, end):
                    return True
            return False
        pe = els_of(p)
        if start is not None and _ix(start) > len(self.els):
            return False
        s, e = self._range(start, end)
        if e - s < len(pe):
            return False
        return els_eq(self.els[s:s + len(pe)], pe)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            for x in p:
                if self.endswith(x, start, end):
                    return True
            return False
        pe = els_of(p)
        s, e = self._range(start, end)
        if e - s < len(pe):
            return False
        return els_eq(self.els[e - len(pe):e], pe)

    def removeprefix(self, p):
        if self.startswith(p):
            return self[len(p):]
        return self

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return self[:-len(p)]
        return self

    # --- stripping / splitting
    def _strip(self, chars, left, right):
        els = self.els
        if chars is None:
            t = is_ws
        else:
            ce = els_of(chars)
            if any_sym_els(ce):
                def t(e):
                    for c in ce:
                        if els_eq((e,), (c,)):
                            return True
                    return False
            else:
                cs = plain(chars)

                def t(e):
                    return el_in(e, cs)
        i, j = 0, len(els)
        if left:
            while i < j and t(els[i]):
                i += 1
        if right:
            while j > i and t(els[j - 1]):
                j -= 1
        if i == 0 and j == len(els):
            return self
        return mk(els[i:j])

    def strip(self, chars=None, /):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None, /):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None, /):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        els = self.els
        maxsplit = _ix(maxsplit)
        out = []
        if sep is None:
            i, n = 0, len(els)
            while True:
                while i < n and is_ws(els[i]):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mk(els[i:]).rstrip() if True else None)
                    return out
                j = i
                while j < n and not is_ws(els[j]):
                    j += 1
                out.append(mk(els[i:j]))
                i = j
            return out
        se = els_of(sep)
        if not se:
            raise ValueError("empty separator")
        m = len(se)
        i = st = 0
        while i + m <= len(els):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if els_eq(els[i:i + m], se):
                out.append(mk(els[st:i]))
                i += m
                st = i
            else:
                i += 1
        out.append(mk(els[st:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = _ix(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        els = self.els
        out = []
        if sep is None:
            j = len(els)
            while True:
                while j > 0 and is_ws(els[j - 1]):
                    j -= 1
                if j <= 0:
                    break
                if len(out) >= maxsplit:
                    out.append(mk(els[:j]).lstrip())
                    break
                i = j
                while i > 0 and not is_ws(els[i - 1]):
                    i -= 1
                out.append(mk(els[i:j]))
                j = i
            return out[::-1]
        se = els_of(sep)
        if not se:
            raise ValueError("empty separator")
        m = len(se)
        j = end = len(els)
        while j - m >= 0 and len(out) < maxsplit:
            if els_eq(els[j - m:j], se):
                out.append(mk(els[j:end]))
                j -= m
                end = j
            else:
                j -= 1
        out.append(mk(els[:end]))
        return out[::-1]

    def splitlines(self, keepends=False):
        els = self.els
        out = []
        i = st = 0
        n = len(els)
        while i < n:
            if el_test(els[i], "lineb", _LINEB.__contains__):
                j = i + 1
                if j < n and el_is(els[i], 13) and el_is(els[j], 10):
                    j += 1
                out.append(mk(els[st:j] if keepends else els[st:i]))
                i = st = j
            else:
                i += 1
        if st < n:
            out.append(mk(els[st:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (mk(self.els[:i]), sep, mk(self.els[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (mk(self.els[:i]), sep, mk(self.els[i + len(sep):]))

    def replace(self, old, new, count=-1):
        oe, ne = els_of(old), els_of(new)
        els = self.els
        count = _ix(count)
        out = []
        m = len(oe)
        done = 0
        if m == 0:
            for k, e in enumerate(els):
                if count < 0 or done < count:
                    out.extend(ne)
                    done += 1
                out.append(e)
            if count < 0 or done < count:
                out.extend(ne)
            return mk(out)
        i = 0
        while i < len(els):
            if i + m <= len(els) and (count < 0 or done < count) and els_eq(els[i:i + m], oe):
                out.extend(ne)
                i += m
                done += 1
            else:
                out.append(els[i])
                i += 1
        return mk(out)

    # --- case
    def _mapped(self, name, multi):
        out = []
        for e in self.els:
            e = norm_el(e)
            if type(e) is int:
                r = getattr(chr(e), multi)()
                out.extend(map(ord, r))
                continue
            special = el_test(e, ("multi", multi),
                              lambda c: len(getattr(chr(c), multi)()) != 1 or c == 0x3A3)
            if special:
                CTX.pin(e, "case:" + multi)
                out.extend(map(ord, getattr(chr(e.conc), multi)()))
                continue
            d = CTX.dom[e.var.name]
            f = MAPS[name]
            base = e.map
            # unchanged over the whole current domain?
            pm = e.var.dom.pred_mask(("chg", base, name),
                                     lambda c: f(map_apply(base, c)) != map_apply(base, c))
            if not d & pm:
                out.append(e)
            else:
                mp = name if base is None else base + "/" + name
                out.append(SChar(e.var, map_apply(mp, CTX.val[e.var.name]), mp))
        return mk(out)

    def lower(self):
        return self._mapped("lower", "lower")

    def upper(self):
        return self._mapped("upper", "upper")

    def casefold(self):
        return self._mapped("fold", "casefold")

    def swapcase(self):
        return self._mapped("swap", "swapcase")

    def capitalize(self):
        if not self.els:
            return self
        a = lift(mk(self.els[:1]))._mapped("title", "title")
        b = lift(mk(self.els[1:])).lower()
        return a + b

    def title(self):
        out = ""
        prev = False
        for e in self.els:
            c = lift(mk((e,)))
            out = out + (c.lower() if prev else c._mapped("title", "title"))
            prev = el_test(e, "cased", lambda x: chr(x).lower() != chr(x).upper())
        return out

    # --- predicates
    def _all(self, name):
        if not self.els:
            return getattr("", name)()
        for e in self.els:
            if not el_test(e, name, lambda c: getattr(chr(c), name)()):
                return False
        return True

    def isspace(self):
        return self._all("isspace")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isprintable(self):
        return self._all("isprintable")

    def isascii(self):
        return self._all("isascii")

    def isidentifier(self):
        if not self.els:
            return False
        for k, e in enumerate(self.els):
            if not el_test(e, ("ident", k > 0),
                           lambda c: (("a" if k else "") + chr(c)).isidentifier()):
                return False
        return True

    def _case_pred(self, good, bad):
        any_ = False
        for e in self.els:
            if el_test(e, bad, lambda c: getattr(chr(c), bad)() or chr(c).istitle() and not chr(c).isupper()):
                return False
            if el_test(e, good, lambda c: getattr(chr(c), good)()):
                any_ = True
        return any_

    def isupper(self):
        return self._case_pred("isupper", "islower")

    def islower(self):
        return self._case_pred("islower", "isupper")

    def istitle(self):
        CTX.pin_value(self, "istitle")
        return plain(self).istitle()

    # --- construction
    def join(self, it):
        items = list(it)
        out = []
        for k, x in enumerate(items):
            if not isinstance(x, str):
                raise TypeError("sequence item %d: expected str instance, %s found"
                                % (k, type(x).__name__))
            if k:
                out.extend(self.els)
            out.extend(els_of(x))
        return mk(out)

    def format(self, *a, **k):
        return str_format(self, a, k)

    def format_map(self, m):
        return str_format(self, (), dict(m))

    def _pad(self, name, *a):
        h = Holder()
        a = [h.out(x) if isinstance(x, str) else _ix(x) for x in a]
        return h.back(getattr(h.out(self), name)(*a))

    def ljust(self, *a):
        return self._pad("ljust", *a)

    def rjust(self, *a):
        return self._pad("rjust", *a)

    def center(self, *a):
        return self._pad("center", *a)

    def zfill(self, w):
        if self.els and el_in(self.els[0], "+-"):
            CTX.pin(self.els[0])
            return mk(self.els[:1] + (48,) * max(0, _ix(w) - len(self.els)) + self.els[1:])
        return mk((48,) * max(0, _ix(w) - len(self.els)) + self.els)

    def expandtabs(self, tabsize=8):
        out = []
        col = 0
        for e in self.els:
            if el_is(e, 9):
                n = tabsize - col % tabsize if tabsize > 0 else 0
                out.extend([32] * n)
                col += n
            else:
                out.append(e)
                col = 0 if el_in(e, "\n\r") else col + 1
        return mk(out)

    def translate(self, table):
        out = []
        for e in self.els:
            e = norm_el(e)
            if type(e) is not int:
                if hasattr(table, "keys"):
                    ks = frozenset(k for k in table.keys())
                    if not el_test(e, ("tr", ks), ks.__contains__):
                        out.append(e)
                        continue
                CTX.pin(e, "translate")
                e = e.conc
            r = chr(e).translate(table)
            out.extend(els_of(r))
        return mk(out)

    def encode(self, *a, **k):
        CTX.pin_value(self, "encode")
        return plain(self).encode(*a, **k)


def _ix(i):
    if i is None:
        return None
    if type(i) is SInt:
        i.pin("index")
        return int.__int__(i)
    return i


def str_contains(s, sub):
    se = els_of(s)
    be = els_of(sub)
    m = len(be)
    if m == 0:
        return True
    if m == 1:
        e = norm_el(be[0])
        if type(e) is int:
            for x in se:
                if el_is(x, e):
                    return True
            return False
        if not any_sym_els(se):
            return el_in(e, plain(s))
    for i in range(0, len(se) - m + 1):
        if els_eq(se[i:i + m], be):
            return True
    return False


# ---------------------------------------------------------------- formatting
def deep_syms(o, depth=5, acc=None, seen=None):
    """All symbolic leaves reachable in plain containers."""
    if acc is None:
        acc = []
        seen = set()
    t = type(o)
    if t is SStr or t is SInt:
        acc.append(o)
        return acc
    if t is str or t is int or o is None or t is bool or depth == 0:
        return acc
    if t is list or t is tuple or t is set or t is frozenset or isinstance(o, (list, tuple, set)):
        if id(o) in seen:
            return acc
        seen.add(id(o))
        for x in list.__iter__(o) if isinstance(o, list) else (
                tuple.__iter__(o) if isinstance(o, tuple) else set.__iter__(o)
                if isinstance(o, set) else frozenset.__iter__(o)):
            deep_syms(x, depth - 1, acc, seen)
    elif isinstance(o, dict):
        if id(o) in seen:
            return acc
        seen.add(id(o))
        for k, v in dict.items(o):
            deep_syms(k, depth - 1, acc, seen)
            deep_syms(v, depth - 1, acc, seen)
    elif isinstance(o, BaseException):
        for x in o.args:
            deep_syms(x, depth - 1, acc, seen)
    elif t.__name__ in ("dict_keys", "dict_values", "dict_items", "odict_keys", "odict_values",
                        "odict_items"):
        for x in o:
            deep_syms(x, depth - 1, acc, seen)
    elif t.__module__ == "argparse" and t.__name__ == "Namespace" or t.__name__ == "SimpleNamespace":
        deep_syms(vars(o), depth - 1, acc, seen)
    return acc


def has_sym(o, depth=5):
    t = type(o)
    if t is SStr or t is SInt:
        return True
    if t is str or t is int or o is None or t is bool:
        return False
    return bool(deep_syms(o, depth))


def opaque(text, srcs):
    srcs = tuple(srcs)
    return mk([Opq(srcs, ord(c)) for c in text])


def to_str(o):
    t = type(o)
    if t is str or t is SStr:
        return o
    if t is SInt:
        return opaque(str(int.__int__(o)), [o])
    if isinstance(o, BaseException):
        if len(o.args) == 1 and isinstance(o.args[0], str) and not isinstance(o, KeyError):
            if type(o).__str__ is BaseException.__str__ or type(o).__str__ is Exception.__str__:
                return o.args[0]
        if deep_syms(o):
            r = str(o)
            if type(r) is SStr:
                return r
            return opaque(r, deep_syms(o))
        return str(o)
    if isinstance(o, (list, tuple, dict, set, frozenset)) or t.__name__.startswith(("dict_", "odict_")):
        if type(o).__str__ is object.__str__ or t.__module__ == "builtins":
            sy = deep_syms(o)
            if sy:
                g = CTX.guard
                CTX.guard = 1
                try:
                    return opaque(str(o), sy)
                finally:
                    CTX.guard = g
    return str(o)


def to_repr(o):
    t = type(o)
    if t is SStr:
        return opaque(repr(plain(o)), [o])
    if t is SInt:
        return opaque(repr(int.__int__(o)), [o])
    sy = deep_syms(o)
    r = repr(o)
    if sy and type(r) is not SStr:
        return opaque(r, sy)
    return r


class _FmtArg:
    """Formats like the wrapped value, through placeholders."""
    __slots__ = ("v", "h")

    def __init__(self, v, h):
        self.v = v
        self.h = h

    def __format__(self, spec):
        v = self.v
        if isinstance(v, str):
            return format(self.h.out(v), spec)
        if spec == "":
            return self.h.out(to_str(v))
        if type(v) is SInt:
            return self.h.out(opaque(format(int.__int__(v), spec), [v]))
        if deep_syms(v):
            return self.h.out(opaque(format(v, spec), deep_syms(v)))
        return self.h.out(format(v, spec))

    def __str__(self):
        return self.h.out(to_str(self.v))

    def __repr__(self):
        return self.h.out(to_repr(self.v))

    def __getitem__(self, k):
        return _FmtArg(self.v[k], self.h)

    def __getattr__(self, k):
        return _FmtArg(getattr(self.v, k), self.h)


def _needs_wrap(v):
    t = type(v)
    if t is SStr or t is SInt:
        return True
    if t in (str, int, float, bool, type(None)):
        return False
    return True


def str_format(fmt, a, k):
    h = Holder()
    if type(fmt) is SStr:
        # braces in a symbolic format string matter: decide them
        for e in fmt.els:
            if type(e) is not int and el_in(e, "{}"):
                CTX.pin(e, "format")
    a2 = [_FmtArg(x, h) if _needs_wrap(x) else x for x in a]
    k2 = {n: (_FmtArg(x, h) if _needs_wrap(x) else x) for n, x in k.items()}
    return h.back(h.out(fmt).format(*a2, **k2))


class _ModArg:
    __slots__ = ("v", "h")

    def __init__(self, v, h):
        self.v = v
        self.h = h

    def __str__(self):
        return self.h.out(to_str(self.v))

    def __repr__(self):
        return self.h.out(to_repr(self.v))

    def __int__(self):
        CTX.pin_value(self.v, "%d")
        return int.__int__(self.v)

    __index__ = __int__


def str_mod(fmt, args):
    h = Holder()
    if type(fmt) is SStr:
        for e in fmt.els:
            if type(e) is not int and el_is(e, 37):
                CTX.pin(e, "mod")

    def w(x):
        return _ModArg(x, h) if _needs_wrap(x) else x
    if isinstance(args, tuple):
        a = tuple(w(x) for x in args)
    elif isinstance(args, dict):
        a = {k: w(v) for k, v in args.items()}
    else:
        a = (w(args),)
    return h.back(h.out(fmt) % a)


# ---------------------------------------------------------------- integers
class SInt(int):
    """A symbolic integer; ex is a tuple expression over input variables."""

    @staticmethod
    def mk(conc, ex):
        r = int.__new__(SInt, conc)
        r.ex = ex
        return r

    def pin(self, why=""):
        c = int.__int__(self)
        if CTX is None or self.ex in CTX.pinned:
            return c
        if why:
            CTX.note("pin:" + why)
        CTX.pinned.add(self.ex)
        CTX.branch(("and", (("z", ("==", self.ex, ("c", c))),)), True, "p")
        return c

    def __hash__(self):
        if CTX is not None and not CTX.guard:
            self.pin("hash")
        return int.__hash__(self)

    def __eq__(self, o):
        return _icmp("==", self, o)

    def __ne__(self, o):
        r = _icmp("==", self, o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        return _icmp("<", self, o)

    def __le__(self, o):
        return _icmp("<=", self, o)

    def __gt__(self, o):
        return _icmp(">", self, o)

    def __ge__(self, o):
        return _icmp(">=", self, o)

    def __bool__(self):
        return not _icmp("==", self, 0)

    def __int__(self):
        return self

    def __index__(self):
        self.pin("index")
        return int.__int__(self)

    def __add__(self, o):
        return _iop("+", self, o)

    def __radd__(self, o):
        return _iop("+", o, self)

    def __sub__(self, o):
        return _iop("-", self, o)

    def __rsub__(self, o):
        return _iop("-", o, self)

    def __neg__(self):
        return _iop("-", 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            self.pin("repeat")
            return o * int.__int__(self)
        if isinstance(o, int) and not isinstance(o, SInt):
            return _iop("*", self, o)
        return self._pinop("__mul__", o)

    def __rmul__(self, o):
        return self.__mul__(o)

    def _pinop(self, name, *a):
        self.pin(name)
        a = [_ix(x) if isinstance(x, int) else x for x in a]
        return getattr(int.__int__(self), name)(*a)

    def __format__(self, spec):
        self.pin("format")
        return format(int.__int__(self), spec)

    def __str__(self):
        return int.__repr__(self)

    def __repr__(self):
        return int.__repr__(self)

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (int, (int.__int__(self),))


for _n in ("__floordiv__", "__rfloordiv__", "__mod__", "__rmod__", "__truediv__", "__rtruediv__",
           "__pow__", "__rpow__", "__and__", "__rand__", "__or__", "__ror__", "__xor__", "__rxor__",
           "__lshift__", "__rlshift__", "__rshift__", "__rrshift__", "__divmod__", "__rdivmod__",
           "__invert__"):
    setattr(SInt, _n, (lambda n: lambda self, *a: self._pinop(n, *a))(_n))


def iex(x):
    return x.ex if type(x) is SInt else ("c", int(x))


def _iop(op, a, b):
    if not isinstance(a, int) or not isinstance(b, int):
        if isinstance(a, float) or isinstance(b, float):
            for v in (a, b):
                if type(v) is SInt:
                    v.pin("float")
            a = int.__int__(a) if isinstance(a, int) else a
            b = int.__int__(b) if isinstance(b, int) else b
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
        return NotImplemented
    ca, cb = int.__int__(a), int.__int__(b)
    c = {"+": ca + cb, "-": ca - cb, "*": ca * cb}[op]
    return SInt.mk(c, (op, iex(a), iex(b)))


def _icmp(op, a, b):
    if isinstance(b, float):
        a.pin("float")
        ca = int.__int__(a)
        return {"==": ca == b, "<": ca < b, "<=": ca <= b, ">": ca > b, ">=": ca >= b}[op]
    if not isinstance(b, int):
        return NotImplemented
    ca, cb = int.__int__(a), int.__int__(b)
    out = {"==": ca == cb, "<": ca < cb, "<=": ca <= cb, ">": ca > cb, ">=": ca >= cb}[op]
    if CTX is None:
        return out
    ex = (op, iex(a), iex(b))
    if iex(a) == iex(b):
        return out
    CTX.branch(("and", (("z", ex),)), out)
    return out


# ---------------------------------------------------------------- equality of values
def deep_eq(a, b, atoms):
    """Collect atoms for a == b; returns False when certainly different."""
    if a is b:
        return True
    if isinstance(a, str) and isinstance(b, str):
        at = eq_atoms(els_of(a), els_of(b))
        if at is None:
            return False
        atoms.extend(at)
        return True
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        if type(a) is SInt or type(b) is SInt:
            return False
        return type(a) is type(b) and a == b
    if isinstance(a, int) and isinstance(b, int):
        if type(a) is SInt or type(b) is SInt:
            if iex(a) == iex(b):
                return True
            atoms.append(("z", ("==", iex(a), iex(b)), int.__int__(a) == int.__int__(b)))
            return True
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        ok = True
        for x, y in zip(a, b):
            if not deep_eq(x, y, atoms):
                return False
        return ok
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        from . import hooks
        for k, v in dict.items(a):
            kk = hooks.find_key(list(dict.keys(b)), k)
            if kk is hooks.MISSING:
                return False
            g = CTX.guard
            CTX.guard = 1
            try:
                vb = dict.__getitem__(b, kk)
            finally:
                CTX.guard = g
            if not deep_eq(v, vb, atoms):
                return False
        return True
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if len(a) != len(b):
            return False
        from . import hooks
        lb = list(b)
        for x in a:
            if hooks.find_key(lb, x) is hooks.MISSING:
                return False
        return True
    if type(a) is not type(b):
        return False
    return bool(a == b)


def concretise(o, depth=8):
    """Deep copy with every symbolic value replaced by its concrete value."""
    t = type(o)
    if t is SStr:
        return plain(o)
    if t is SInt:
        return int.__int__(o)
    if depth == 0:
        return o
    if t is list:
        return [concretise(x, depth - 1) for x in o]
    if t is tuple:
        return tuple(concretise(x, depth - 1) for x in o)
    if t is dict:
        return {concretise(k, depth - 1): concretise(v, depth - 1) for k, v in o.items()}
    if isinstance(o, set):
        return {concretise(x, depth - 1) for x in o}
    return o
