"""Translation of recorded decisions to SMT, and the queries."""
import time
import z3
from .core import map_apply, MAPS


class Unknown(Exception):
    pass


class Solver:
    """Decides `slice of path condition and not(branch)` with z3."""

    def __init__(self, timeout_ms=20000):
        self.s = z3.Solver()
        self.s.set("timeout", timeout_ms)
        self.zv = {}
        self.cache = {}
        self.ecache = {}
        self.queries = 0
        self.cached = 0
        self.sat = 0
        self.unsat = 0
        self.time = 0.0
        self.dump = None
        self.maxatoms = 0

    # -- terms
    def var(self, v):
        k = (v.name)
        z = self.zv.get(k)
        if z is None:
            z = self.zv[k] = z3.Int(v.name)
        return z

    def char(self, vars_, key):
        name, mp = key
        v = vars_[name]
        x = self.var(v)
        if mp is None:
            return x
        ck = ("map", name, mp, id(v.dom))
        r = self.ecache.get(ck)
        if r is None:
            groups = {}
            for c in v.dom.chars:
                groups.setdefault(map_apply(mp, c) - c, []).append(c)
            r = x
            for delta, cs in groups.items():
                if delta:
                    r = z3.If(_ranges(x, _runs(cs, None)), x + delta, r)
            self.ecache[ck] = r
        return r

    def iexpr(self, vars_, ex):
        op = ex[0]
        if op == "c":
            return z3.IntVal(ex[1])
        if op == "v":
            return self.var(vars_[ex[1]])
        a = self.iexpr(vars_, ex[1])
        b = self.iexpr(vars_, ex[2])
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                "==": lambda: a == b, "<": lambda: a < b, "<=": lambda: a <= b,
                ">": lambda: a > b, ">=": lambda: a >= b}[op]()

    def atom(self, vars_, k):
        if k[0] == "ec":
            return self.char(vars_, k[1]) == k[2]
        if k[0] == "ev":
            return self.char(vars_, k[1]) == self.char(vars_, k[2])
        if k[0] == "lv":
            return self.char(vars_, k[1]) < self.char(vars_, k[2])
        return self.iexpr(vars_, k[1])

    def cond(self, vars_, c):
        if c[0] == "m":
            _, name, t, d = c
            v = vars_[name]
            ck = (c, id(v.dom))
            r = self.ecache.get(ck)
            if r is None:
                x = self.var(v)
                inside = _bits(t)
                r = _ranges(x, _runs(inside, d & ~t))
                self.ecache[ck] = r
            return r
        return z3.And([self.atom(vars_, k) for k in c[1]])

    def domain(self, v):
        x = self.var(v)
        if v.kind == "i":
            return z3.And(x >= v.lo, x <= v.hi)
        ck = ("dom", v.name, id(v.dom))
        r = self.ecache.get(ck)
        if r is None:
            r = self.ecache[ck] = _ranges(x, _runs(list(v.dom.chars), None))
        return r

    # -- queries
    def flip(self, vars_, branches, i, excl=()):
        """Is there an input that takes branches[:i] as recorded and the other
        side of branches[i]?  Returns a dict of changed variables, or None."""
        cond, out, kind = branches[i]
        need = cond_vars(cond)
        for x in excl:
            need = need | cond_vars(x)
        sl = []
        picked = [False] * i
        changed = True
        bv = [cond_vars(branches[j][0]) for j in range(i)]
        while changed:
            changed = False
            for j in range(i - 1, -1, -1):
                if not picked[j] and bv[j] & need:
                    picked[j] = True
                    if not bv[j] <= need:
                        need = need | bv[j]
                        changed = True
        for j in range(i):
            if picked[j]:
                sl.append((branches[j][0], branches[j][1]))
        key = (tuple(sorted(set(sl), key=hash)), cond, out, excl,
               tuple(sorted((n, id(vars_[n].dom), vars_[n].lo, vars_[n].hi) for n in need)))
        if key in self.cache:
            self.cached += 1
            return self.cache[key]
        t0 = time.time()
        s = self.s
        s.push()
        try:
            for n in need:
                s.add(self.domain(vars_[n]))
            for c, o in sl:
                e = self.cond(vars_, c)
                s.add(e if o else z3.Not(e))
            e = self.cond(vars_, cond)
            s.add(z3.Not(e) if out else e)
            for x in excl:
                s.add(z3.Not(self.cond(vars_, x)))
            if self.dump is not None:
                self.dump(s)
            r = s.check()
            self.queries += 1
            self.maxatoms = max(self.maxatoms, len(sl) + 1)
            if r == z3.unsat:
                self.unsat += 1
                res = None
            elif r == z3.sat:
                self.sat += 1
                m = s.model()
                res = {}
                for n in need:
                    val = m.eval(self.var(vars_[n]), model_completion=True)
                    res[n] = val.as_long()
            else:
                raise Unknown(s.reason_unknown())
        finally:
            s.pop()
            self.time += time.time() - t0
        self.cache[key] = res
        return res


_CV = {}


def cond_vars(c):
    r = _CV.get(c)
    if r is None:
        if len(_CV) > 200000:
            _CV.clear()
        if c[0] == "m":
            r = frozenset((c[1],))
        else:
            acc = set()
            for k in c[1]:
                if k[0] == "ec":
                    acc.add(k[1][0])
                elif k[0] in ("ev", "lv"):
                    acc.add(k[1][0])
                    acc.add(k[2][0])
                else:
                    _ivars(k[1], acc)
            r = frozenset(acc)
        _CV[c] = r
    return r


def _ivars(ex, acc):
    if ex[0] == "v":
        acc.add(ex[1])
    elif ex[0] != "c":
        _ivars(ex[1], acc)
        _ivars(ex[2], acc)


def _bits(m):
    out = []
    if m.bit_length() > 4096:
        b = m.to_bytes((m.bit_length() + 7) // 8, "little")
        for i, x in enumerate(b):
            if x:
                for k in range(8):
                    if x >> k & 1:
                        out.append(i * 8 + k)
        return out
    while m:
        l = m & -m
        out.append(l.bit_length() - 1)
        m ^= l
    return out


def _runs(chars, forbid):
    """Intervals covering chars; values that are neither in chars nor in
    `forbid` may be covered too (they are outside the variable's domain)."""
    cs = sorted(chars)
    runs = []
    for c in cs:
        if runs:
            lo, hi = runs[-1]
            if c == hi + 1:
                runs[-1][1] = c
                continue
            if forbid is not None:
                gap = (forbid >> (hi + 1)) & ((1 << (c - hi - 1)) - 1)
                if gap == 0:
                    runs[-1][1] = c
                    continue
        runs.append([c, c])
    return runs


def _ranges(x, runs):
    ps = []
    for lo, hi in runs:
        if lo == hi:
            ps.append(x == lo)
        else:
            ps.append(z3.And(x >= lo, x <= hi))
    if len(ps) == 1:
        return ps[0]
    return z3.Or(ps) if ps else z3.BoolVal(False)
