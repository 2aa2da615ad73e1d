"""What a property harness sees.  The same harness runs in two modes:
symbolically (SymAPI, through the instrumented code) and natively (NatAPI, the
unmodified code on one concrete input) to replay and cross-check paths."""
import io
import os
import shutil
import sys

from . import core
from .core import CheckFailed, Assumption, dom_of, mk, SInt, deep_eq, concretise


class Outcome:
    """Result of a call that may raise."""
    _sx_engine = True
    __slots__ = ("ok", "value", "exc", "kind")

    def __init__(self, ok, value, exc):
        self.ok = ok
        self.value = value
        self.exc = exc
        self.kind = "ok" if ok else type(exc).__name__

    def __repr__(self):
        return "Outcome(%s, %r)" % (self.kind, self.value if self.ok else self.exc)


class _Common:
    _sx_engine = True
    symbolic = False

    def _init_common(self):
        self._undo = []
        self.failure = None

    def patch(self, obj, attr, val):
        missing = object()
        old = obj.__dict__.get(attr, missing) if isinstance(obj, type) else \
            getattr(obj, attr, missing)

        def undo():
            if old is missing:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)
        self._undo.append(undo)
        setattr(obj, attr, val)

    def cleanup(self):
        while self._undo:
            self._undo.pop()()

    def attempt(self, fn, *a, **k):
        try:
            return Outcome(True, fn(*a, **k), None)
        except core.SxAbort:
            raise
        except (Exception, SystemExit) as e:
            return Outcome(False, None, e)

    def module(self, name):
        m = self.loader.load(name)
        if m is None:
            raise RuntimeError("module %s not found" % name)
        return m

    def stub(self, name, **attrs):
        """Provide a module the code imports that is not part of the repository."""
        import types
        m = types.ModuleType(name)
        for k, v in attrs.items():
            setattr(m, k, v)
        self.loader.extra[name] = m
        return m

    def path(self, *rel):
        return os.path.join(self.scratch, *rel)

    def _capture(self, stream):
        buf = self._buffer()
        self.patch(sys, stream, buf)
        return buf

    def capture(self):
        """Redirect stdout; the returned stream has getvalue()."""
        return self._capture("stdout")

    def capture_stderr(self):
        return self._capture("stderr")

    def fail(self, msg):
        self.failure = msg
        raise CheckFailed(msg)


class SymAPI(_Common):
    symbolic = True

    def __init__(self, ctx, loader, scratch):
        self._init_common()
        self.ctx = ctx
        self.loader = loader
        self.scratch = scratch
        ctx.scratch = scratch

    # ---- inputs
    def string(self, name, lo, hi, chars):
        n = lo if lo == hi else self.choice(name + ".len", range(lo, hi + 1))
        d = dom_of(chars)
        return mk([self.ctx.new_char("%s[%d]" % (name, i), d) for i in range(n)])

    def word(self, name, doms):
        """A string with one domain per position."""
        return mk([self.ctx.new_char("%s[%d]" % (name, i), dom_of(d)) for i, d in enumerate(doms)])

    def choice(self, name, options):
        options = list(options)
        v = self.ctx.new_int(name, 0, len(options) - 1)
        if isinstance(v, SInt):
            c = int.__int__(v)
            v.pin()
            return options[c]
        return options[v]

    def bool(self, name):
        return self.choice(name, [False, True])

    def int(self, name, lo, hi):
        return self.ctx.new_int(name, lo, hi)

    # ---- environment of the code
    def file(self, rel, text):
        from . import hooks
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if self.ctx.vfs is None:
            self.ctx.vfs = hooks.VFS()
        self.ctx.vfs.store(p, core.els_of(text))
        return p

    def read(self, path):
        return mk(self.ctx.vfs.files[path])

    def environ(self, data):
        from . import hooks
        self.patch(os, "environ", hooks.SEnviron(data))

    def env_items(self):
        return os.environ.copy()

    def _buffer(self):
        from . import hooks
        return hooks.SStringIO()

    # ---- verdicts
    def assume(self, cond):
        if not cond:
            self.ctx.assumed_out = True
            raise Assumption()

    def require(self, cond, msg):
        self.ctx.checks += 1
        if not cond:
            self.fail(msg)

    def require_eq(self, a, b, msg):
        self.ctx.checks += 1
        atoms = []
        ok = deep_eq(a, b, atoms)
        if ok and atoms:
            ok = self.ctx.conj(atoms, "a")
        if not ok:
            self.fail("%s: got %.400r, expected %.400r" % (msg, concretise(a), concretise(b)))

    def observe(self, *vals):
        """Values compared with the native run on every validated path."""
        self.ctx.observed.append(vals)


def _text(s):
    if not isinstance(s, str):
        raise TypeError("str expected, not %s" % type(s).__name__)
    return s


class NatAPI(_Common):
    def __init__(self, inputs, loader, scratch):
        self._init_common()
        self.inputs = inputs
        self.loader = loader
        self.scratch = scratch
        self.observed = []
        self.checks = 0

    def string(self, name, lo, hi, chars):
        n = lo if lo == hi else self.choice(name + ".len", range(lo, hi + 1))
        d = dom_of(chars)
        return "".join(chr(self._c("%s[%d]" % (name, i), d)) for i in range(n))

    def _c(self, name, d):
        c = self.inputs.get(name)
        if c is None or not (d.mask >> c) & 1:
            c = d.chars[0]
        return c

    def word(self, name, doms):
        return "".join(chr(self._c("%s[%d]" % (name, i), dom_of(d))) for i, d in enumerate(doms))

    def choice(self, name, options):
        options = list(options)
        v = self.inputs.get(name)
        if v is None or v < 0 or v >= len(options):
            v = 0
        return options[v]

    def bool(self, name):
        return self.choice(name, [False, True])

    def int(self, name, lo, hi):
        v = self.inputs.get(name)
        return lo if v is None or v < lo or v > hi else v

    def file(self, rel, text):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(text.encode("utf-8", "surrogateescape"))
        return p

    def read(self, path):
        with open(path, "rb") as f:
            return f.read().decode("utf-8")

    def environ(self, data):
        old = dict(os.environ)

        def undo():
            os.environ.clear()
            os.environ.update(old)
        self._undo.append(undo)
        os.environ.clear()
        utf8 = os._Environ({}, lambda s: _text(s).encode("utf-8", "surrogateescape"),
                           lambda b: b.decode("utf-8", "surrogateescape"),
                           lambda s: _text(s).encode("utf-8", "surrogateescape"),
                           lambda b: b.decode("utf-8", "surrogateescape"))
        self.patch(os, "environ", utf8)     # whatever the locale
        os.environ.update(data)

    def env_items(self):
        return dict(os.environ)

    def _buffer(self):
        return io.StringIO()

    def assume(self, cond):
        if not cond:
            raise Assumption()

    def require(self, cond, msg):
        self.checks += 1
        if not cond:
            self.fail(msg)

    def require_eq(self, a, b, msg):
        self.checks += 1
        if not nat_eq(a, b):
            self.fail("%s: got %.400r, expected %.400r" % (msg, a, b))

    def observe(self, *vals):
        self.observed.append(vals)


def nat_eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return type(a) is type(b) and a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and \
            all(nat_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and nat_eq(v, b[k]) for k, v in a.items())
    if isinstance(a, (str, int, set, frozenset)) and isinstance(b, (str, int, set, frozenset)):
        return a == b
    if type(a) is not type(b):
        return False
    return bool(a == b)


class Scenario:
    def __init__(self, fn, name, paths, tiers=("quick", "thorough"), bounds="", max_steps=400000,
                 kw=None, weight=1):
        self.fn = fn
        self.name = name
        self.paths = paths
        self.tiers = tiers
        self.bounds = bounds
        self.max_steps = max_steps
        self.kw = kw or {}
        self.weight = weight


def fresh_dir(base, name):
    p = os.path.join(base, name)
    if os.path.isdir(p):
        shutil.rmtree(p)
    os.makedirs(p)
    return p
