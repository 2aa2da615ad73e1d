"""Run-time side of the instrumentation: what each rewritten construct does.

Every call, subscript, membership test, formatting operation and dict/set
display of the instrumented code comes through here.  With no symbolic value
involved a hook does exactly what the interpreter would do.  With symbolic
values involved it uses the models of sx/core.py and sx/sre.py; native code
that has no model gets concrete arguments after the path has been forked on
their values ("pinned"), which keeps the exploration sound.
"""
import builtins
import collections
import copy
import functools
import inspect
import io
import itertools
import os
import operator
import pathlib
import re
import sys
import traceback
import types

from . import core
from .core import (SStr, SInt, mk, els_of, lift, plain, els_eq, has_sym, deep_syms, opaque,
                   to_str, to_repr, str_format, str_mod, Holder, el_in, el_is, concretise,
                   PH_BASE, SChar, Opq)
from .sre import SPattern, SMatch

SX_DIR = os.path.dirname(os.path.abspath(__file__))


SXB = {}       # the builtins namespace of instrumented code (its identity marks it)


class _Missing:
    def __repr__(self):
        return "<missing>"


MISSING = _Missing()
FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType
BuiltinMethod = type(re.compile("").sub)
MethodWrapper = type("".__len__)
MethodDesc = type(str.lower)
WrapperDesc = type(str.__len__)
ClassMethodDesc = type(dict.__dict__["fromkeys"])
DictKeys = type({}.keys())
DictItems = type({}.items())
DictValues = type({}.values())
ODictKeys = type(collections.OrderedDict().keys())
MappingProxy = types.MappingProxyType


class guarded:
    """Concrete hashing and equality of symbolic keys inside the block."""
    __slots__ = ("g",)

    def __enter__(self):
        c = core.CTX
        self.g = c.guard
        c.guard = 1

    def __exit__(self, *a):
        core.CTX.guard = self.g


# ---------------------------------------------------------------- keys
def _ktype(k):
    """Does key k need symbolic comparison?"""
    t = type(k)
    if t is SStr or t is SInt:
        return True
    if t is tuple or t is frozenset:
        return has_sym(k)
    return False


def keys_sym(keys):
    for x in keys:
        t = type(x)
        if t is SStr or t is SInt or (t is tuple and has_sym(x)):
            return True
    return False


def find_key(keys, k):
    """The element of keys equal to k (a decision per candidate), or MISSING."""
    if isinstance(k, str):
        ke = els_of(k)
        n = len(ke)
        cands = []
        for x in keys:
            if isinstance(x, str) and len(x) == n:
                xe = els_of(x)
                if xe == ke:
                    return x
                cands.append((x, xe))
        for x, xe in cands:
            if els_eq(ke, xe):
                return x
        return MISSING
    if k is None or type(k) is bool or type(k) is float or not isinstance(k, (int, tuple, frozenset)):
        for x in keys:
            if x is k:
                return x
        if isinstance(k, (list, dict, set)):
            raise TypeError("unhashable type: '%s'" % type(k).__name__)
        for x in keys:
            if not isinstance(x, (str, SInt)) and x == k:
                return x
        return MISSING
    for x in keys:
        if x is k:
            return x
    for x in keys:
        if type(x) is type(k) or isinstance(x, int) and isinstance(k, int):
            if isinstance(k, tuple):
                atoms = []
                if core.deep_eq(x, k, atoms) and (not atoms or core.CTX.conj(atoms)):
                    return x
            elif x == k:
                return x
    return MISSING


def _dict_needs(d, k):
    if _ktype(k):
        return True
    t = type(k)
    if t is str or t is int or t is tuple:
        for x in dict.__iter__(d):
            tx = type(x)
            if tx is not str and (tx is SStr or tx is SInt or tx is tuple and has_sym(x)):
                return True
    return False


def _real_key(d, k):
    """(found, key to use natively under guard)"""
    r = find_key(list(dict.__iter__(d)), k)
    if r is MISSING:
        return False, k
    return True, r


_DICT_METHODS = {"__getitem__", "__setitem__", "__delitem__", "__contains__", "get", "pop",
                 "setdefault", "update", "copy", "fromkeys", "__eq__", "__ne__", "__or__", "__ior__"}


def dict_method(d, name, a, k):
    """A dict method with dict semantics (dict or a C-level subclass)."""
    if core.CTX is None:
        return getattr(super(type(d), d) if False else d, name)(*a, **k)
    base = dict
    td = type(d)
    if isinstance(d, collections.OrderedDict):
        base = collections.OrderedDict
    elif isinstance(d, collections.defaultdict):
        base = collections.defaultdict
    m = getattr(base, name)
    if name in ("__getitem__", "get", "__contains__", "pop", "setdefault", "__setitem__",
                "__delitem__") and a:
        key = a[0]
        if not _dict_needs(d, key):
            if name == "__getitem__":
                # keep __missing__ of subclasses
                return m(d, key)
            return m(d, *a, **k)
        found, rk = _real_key(d, key)
        if name == "__getitem__" and not found:
            mis = getattr(td, "__missing__", None)
            if mis is not None:
                if isinstance(d, collections.defaultdict) and mis is collections.defaultdict.__missing__:
                    if d.default_factory is None:
                        raise KeyError(key)
                    v = d.default_factory()
                    with guarded():
                        dict.__setitem__(d, key, v)
                    return v
                return mis(d, key)
            raise KeyError(key)
        with guarded():
            if not found:
                if name == "get":
                    return (a[1:] or (k.get("default"),))[0]
                if name == "__contains__":
                    return False
                if name == "pop":
                    if len(a) > 1:
                        return a[1]
                    if "default" in k:
                        return k["default"]
                    raise KeyError(key)
                if name == "__delitem__":
                    raise KeyError(key)
            return m(d, rk, *a[1:], **k)
    if name == "update" or name == "__ior__":
        for src in a:
            _dict_merge(d, src)
        for kk, v in k.items():
            dict_set(d, kk, v)
        return d if name == "__ior__" else None
    if name == "__or__":
        if not isinstance(a[0], dict):
            return NotImplemented
        with guarded():
            r = base.copy(d)
        _dict_merge(r, a[0])
        return r
    if name in ("__eq__", "__ne__"):
        if not isinstance(a[0], dict):
            return NotImplemented
        r = sx_eq(d, a[0])
        return r if name == "__eq__" else not r
    if name == "fromkeys":
        out = {}
        for x in a[0]:
            dict_set(out, x, a[1] if len(a) > 1 else None)
        return out
    with guarded():
        return m(d, *a, **k)


def dict_set(d, key, v):
    if core.CTX is not None and _dict_needs(d, key):
        found, rk = _real_key(d, key)
        with guarded():
            dict.__setitem__(d, rk, v) if not isinstance(d, collections.OrderedDict) else \
                collections.OrderedDict.__setitem__(d, rk, v)
    elif isinstance(d, collections.OrderedDict):
        collections.OrderedDict.__setitem__(d, key, v)
    else:
        dict.__setitem__(d, key, v)


def _dict_merge(d, src):
    if isinstance(src, dict) and type(src).keys in (dict.keys, collections.OrderedDict.keys):
        if not dict.__len__(d):
            with guarded():
                for kk, v in dict.items(src):
                    dict.__setitem__(d, kk, v)
            return
        for kk, v in list(dict.items(src)):
            dict_set(d, kk, v)
    elif hasattr(src, "keys"):
        for kk in src.keys():
            dict_set(d, kk, sx_getitem(src, kk))
    else:
        for item in src:
            kk, v = item
            dict_set(d, kk, v)


def _builtin_item(o, name):
    """Is o a dict whose method `name` is the C implementation?"""
    m = getattr(type(o), name, None)
    return m is getattr(dict, name) or m is getattr(collections.OrderedDict, name) or \
        m is getattr(collections.defaultdict, name)


# ---------------------------------------------------------------- sets
class SSet(set):
    """Set with symbolic membership and an iteration order chosen by the solver
    (insertion order or its reverse)."""
    _sx_set = True

    def __init__(self, it=()):
        set.__init__(self)
        self._o = []
        for x in it:
            self.add(x)

    def _find(self, x):
        if core.CTX is None or not (_ktype(x) or (type(x) is str or type(x) is int or
                                                  type(x) is tuple) and keys_sym(self._o)):
            if set.__contains__(self, x):
                return x
            return MISSING
        return find_key(self._o, x)

    def add(self, x):
        if self._find(x) is MISSING:
            if core.CTX is not None:
                with guarded():
                    set.add(self, x)
            else:
                set.add(self, x)
            self._o.append(x)

    def __contains__(self, x):
        return self._find(x) is not MISSING

    def discard(self, x):
        r = self._find(x)
        if r is not MISSING:
            with guarded():
                set.discard(self, r)
                for i, y in enumerate(self._o):
                    if y is r or y == r:
                        del self._o[i]
                        break

    def remove(self, x):
        if self._find(x) is MISSING:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        if not self._o:
            raise KeyError("pop from an empty set")
        x = next(iter(self))
        self.discard(x)
        return x

    def clear(self):
        set.clear(self)
        self._o = []

    def __iter__(self):
        o = list(self._o)
        if len(o) > 1 and core.CTX is not None and not core.CTX.guard and \
                any(isinstance(x, str) for x in o):
            if core.CTX.set_order():
                o.reverse()
        return iter(o)

    def __len__(self):
        return len(self._o)

    def __bool__(self):
        return bool(self._o)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def _raw(self):
        return self._o

    def copy(self):
        return SSet(self._o)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return SSet([copy.deepcopy(x, memo) for x in self._o])

    def union(self, *its):
        r = SSet(self._o)
        r.update(*[_raw(i) for i in its])
        return r

    def intersection(self, *its):
        r = SSet(self._o)
        for it in its:
            o = SSet(_raw(it))
            r = SSet([x for x in r._o if x in o])
        return r

    def difference(self, *its):
        r = SSet(self._o)
        for it in its:
            for x in _raw(it):
                r.discard(x)
        return r

    def symmetric_difference(self, it):
        o = SSet(_raw(it))
        return SSet([x for x in self._o if x not in o] + [x for x in o._o if x not in self])

    def issubset(self, it):
        o = SSet(_raw(it))
        for x in self._o:
            if x not in o:
                return False
        return True

    def issuperset(self, it):
        for x in _raw(it):
            if x not in self:
                return False
        return True

    def isdisjoint(self, it):
        for x in _raw(it):
            if x in self:
                return False
        return True

    def difference_update(self, *its):
        for it in its:
            for x in list(_raw(it)):
                self.discard(x)

    def intersection_update(self, *its):
        r = self.intersection(*its)
        self.clear()
        self.update(r._o)

    def symmetric_difference_update(self, it):
        r = self.symmetric_difference(it)
        self.clear()
        self.update(r._o)

    def _bin(name):
        def f(self, o):
            if not isinstance(o, (set, frozenset)) and type(o) not in (DictKeys, ODictKeys):
                return NotImplemented
            return getattr(self, name)(o)
        return f
    __or__ = _bin("union")
    __and__ = _bin("intersection")
    __sub__ = _bin("difference")
    __xor__ = _bin("symmetric_difference")
    __le__ = _bin("issubset")
    __ge__ = _bin("issuperset")
    del _bin

    def __ror__(self, o):
        return SSet(_raw(o)).union(self)

    def __rand__(self, o):
        return SSet(_raw(o)).intersection(self)

    def __rsub__(self, o):
        return SSet(_raw(o)).difference(self)

    def __rxor__(self, o):
        return SSet(_raw(o)).symmetric_difference(self)

    def __ior__(self, o):
        self.update(_raw(o))
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(repr(x) for x in self._o) + "}" if self._o else "set()"

    def __reduce__(self):
        return (SSet, (list(self._o),))


def _raw(it):
    return list(it._o) if type(it) is SSet else it


# ---------------------------------------------------------------- text streams
class SStringIO:
    """In-memory text stream (io.StringIO with the default newline handling)."""
    _sx_engine = True

    def __init__(self, initial_value="", newline="\n"):
        self._s = () if initial_value is None else els_of(initial_value)
        self._p = 0
        self.closed = False
        self.encoding = None
        self.name = None

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def read(self, n=-1):
        self._chk()
        if n is None or n < 0:
            r = self._s[self._p:]
        else:
            r = self._s[self._p:self._p + n]
        self._p += len(r)
        return mk(r)

    def readline(self, n=-1):
        self._chk()
        i = self._p
        s = self._s
        while i < len(s):
            i += 1
            if el_is(s[i - 1], 10):
                break
            if n is not None and n >= 0 and i - self._p >= n:
                break
        r = s[self._p:i]
        self._p = i
        return mk(r)

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if not r:
            raise StopIteration
        return r

    def write(self, s):
        self._chk()
        e = els_of(s)
        if self._p == len(self._s):
            self._s = self._s + e
        else:
            self._s = self._s[:self._p] + (0,) * (self._p - len(self._s)) + e + \
                self._s[self._p + len(e):]
        self._p += len(e)
        return len(e)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def getvalue(self):
        self._chk()
        return mk(self._s)

    def seek(self, p, whence=0):
        self._p = p if whence == 0 else len(self._s)
        return self._p

    def tell(self):
        return self._p

    def truncate(self, n=None):
        self._s = self._s[:self._p if n is None else n]
        return len(self._s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def readable(self):
        return True

    writable = seekable = readable

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


io.TextIOBase.register(SStringIO)


class SFile(SStringIO):
    """A text file of the scratch directory with symbolic contents."""

    def __init__(self, vfs, path, mode, encoding, errors=None):
        SStringIO.__init__(self, "")
        self.name = path
        self.mode = mode
        self._vfs = vfs
        self.encoding = encoding or "locale"
        self._enc = norm_encoding(encoding)
        self._w = any(c in mode for c in "wax+")
        self._path = path
        if "r" in mode or "a" in mode or ("+" in mode and "w" not in mode and "x" not in mode):
            raw = vfs.files.get(path, ())
            self._s = decode_els(raw, self._enc, errors or "strict")
        if "a" in mode:
            self._p = len(self._s)

    def write(self, s):
        encode_check(els_of(s), self._enc)
        return SStringIO.write(self, s)

    def flush(self):
        if self._w and not self.closed:
            self._vfs.store(self._path, self._s)

    def close(self):
        if not self.closed:
            self.flush()
            self.closed = True


def norm_encoding(e):
    if e is None or e == "locale":
        return "ascii"         # checks run under LC_ALL=C: the strictest locale
    return str(e).lower().replace("_", "-")


def escaped(e):
    """A byte that is no UTF-8 (kept as a lone surrogate)."""
    return type(e) is int and 0xDC80 <= e <= 0xDCFF


def decode_els(els, enc, errors="strict"):
    """els: the characters of a UTF-8 file, other bytes as lone surrogates.
    Universal newlines; a character the encoding cannot decode raises, as the
    real decoder does."""
    if any(map(escaped, els)) or errors != "strict" and enc not in ("utf-8", "utf8"):
        for e in els:
            if type(e) is not int:
                core.CTX.pin(e, "decode")
        b = "".join(chr(core.conc_el(e)) for e in els).encode("utf-8", "surrogateescape")
        t = b.decode(enc, errors).replace("\r\n", "\n").replace("\r", "\n")
        return tuple(map(ord, t))
    out = []
    i = 0
    n = len(els)
    while i < n:
        e = els[i]
        if not (type(e) is int and e < 128):
            if enc in ("utf-8", "utf8"):
                pass
            elif enc == "utf-8-sig":
                if i == 0 and el_is(e, 0xFEFF):
                    i += 1
                    continue
            elif enc in ("ascii", "us-ascii"):
                if core.el_test(e, "nonascii", lambda c: c > 127):
                    core.CTX.pin(e)
                    raise UnicodeDecodeError("ascii", b"\xc3", 0, 1, "ordinal not in range(128)")
            else:
                core.CTX.pin(e, "decode")
                b = chr(core.conc_el(e)).encode("utf-8")
                out.extend(map(ord, b.decode(enc)))
                i += 1
                continue
        if type(e) is int and e != 13:
            out.append(e)
        elif el_is(e, 13):
            if i + 1 < n and el_is(els[i + 1], 10):
                i += 1
            out.append(10)
        else:
            out.append(e)
        i += 1
    return tuple(out)


def encode_check(els, enc):
    if enc in ("ascii", "us-ascii"):
        for e in els:
            if core.el_test(e, "nonascii", lambda c: c > 127):
                core.CTX.pin(e)
                raise UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128)")


class VFS:
    """Files with symbolic contents, keyed by real path (the concrete contents
    are on disk as well)."""

    def __init__(self):
        self.files = {}
        self.log = []

    def store(self, path, els):
        self.files[path] = tuple(els)
        with io.open(path, "wb") as f:
            f.write(plain(mk(els)).encode("utf-8", "surrogateescape"))


def m_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True,
           opener=None):
    c = core.CTX
    if c is None or "b" in mode or isinstance(file, int) or getattr(c, "vfs", None) is None:
        return io.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    p = os.fspath(file)
    if type(p) is SStr:
        c.pin_value(p, "open")
        p = plain(p)
    p = os.path.abspath(p)
    if not p.startswith(c.scratch + os.sep) and not any(ch in mode for ch in "wax+"):
        return io.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not p.startswith(c.scratch + os.sep):
        raise core.SxAbort("write outside the scratch directory: " + p)
    if "r" in mode and not os.path.isfile(p) or "x" in mode and os.path.exists(p) or \
            os.path.isdir(p) or not os.path.isdir(os.path.dirname(p)):
        io.open(p, mode, encoding="utf-8").close()       # raises the real error
    if p in c.vfs.files and not os.path.isfile(p):
        del c.vfs.files[p]                               # removed meanwhile
    if p not in c.vfs.files and os.path.isfile(p):
        with io.open(p, "rb") as f:
            c.vfs.files[p] = tuple(map(ord, f.read().decode("utf-8", "surrogateescape")))
    if "w" in mode or "x" in mode:
        c.vfs.store(p, ())
    return SFile(c.vfs, p, mode, encoding, errors)


# ---------------------------------------------------------------- environment
class SEnviron(collections.abc.MutableMapping):
    """os.environ with symbolic keys and values, same argument checks."""
    _sx_engine = True

    def __init__(self, data=()):
        self._k = []
        self._v = []
        for k, v in dict(data).items():
            self[k] = v

    @staticmethod
    def _chk(x):
        if not isinstance(x, str):
            raise TypeError("str expected, not %s" % type(x).__name__)
        return x

    def _at(self, k):
        r = find_key(self._k, k) if core.CTX is not None else (k if k in self._k else MISSING)
        if r is MISSING:
            return -1
        for i, x in enumerate(self._k):
            if x is r:
                return i
        return self._k.index(r)

    def __getitem__(self, k):
        i = self._at(self._chk(k))
        if i < 0:
            raise KeyError(k)
        return self._v[i]

    def __setitem__(self, k, v):
        self._chk(k)
        self._chk(v)
        for e in els_of(k) + els_of(v):
            if el_is(e, 0):
                raise ValueError("embedded null byte")
        if not len(k):
            raise OSError(22, "Invalid argument")
        for e in els_of(k):
            if el_is(e, 61):
                raise ValueError("illegal environment variable name")
        i = self._at(k)
        if i < 0:
            self._k.append(k)
            self._v.append(v)
        else:
            self._v[i] = v

    def __delitem__(self, k):
        i = self._at(self._chk(k))
        if i < 0:
            raise KeyError(k)
        del self._k[i]
        del self._v[i]

    def __iter__(self):
        return iter(list(self._k))

    def __len__(self):
        return len(self._k)

    def __contains__(self, k):
        return self._at(self._chk(k)) >= 0

    def copy(self):
        d = {}
        with guarded():
            for k, v in zip(self._k, self._v):
                dict.__setitem__(d, k, v)
        return d

    def setdefault(self, key, value):
        if key not in self:
            self[key] = value
        return self[key]

    def get(self, k, d=None):
        i = self._at(self._chk(k))
        return d if i < 0 else self._v[i]

    def __repr__(self):
        return "environ(%r)" % (self.copy(),)

    def __or__(self, o):
        r = self.copy()
        _dict_merge(r, o)
        return r


# ---------------------------------------------------------------- equality / membership
def sx_eq(a, b):
    ta = type(a)
    if ta is str or ta is SStr or ta is int:
        return a == b
    if (isinstance(a, (dict, set, list, tuple, frozenset)) and
            isinstance(b, (dict, set, list, tuple, frozenset)) and core.CTX is not None
            and not core.CTX.guard):
        if has_sym(a) or has_sym(b):
            atoms = []
            if not core.deep_eq(a, b, atoms):
                return False
            return core.CTX.conj(atoms) if atoms else True
        if ta is SSet or type(b) is SSet:
            with guarded():
                return set(a) == set(b) if isinstance(b, (set, frozenset)) and \
                    isinstance(a, (set, frozenset)) else False
    return a == b


def sx_ne(a, b):
    ta = type(a)
    if ta is str or ta is SStr or ta is int:
        return a != b
    if isinstance(a, (dict, set, list, tuple, frozenset)):
        return not sx_eq(a, b)
    return a != b


def sx_in(x, c):
    t = type(c)
    if t is str:
        if type(x) is SStr:
            return core.str_contains(c, x)
        return x in c
    if t is SStr or t is list or t is tuple or core.CTX is None:
        return x in c
    if isinstance(c, dict) and _builtin_item(c, "__contains__"):
        if _dict_needs(c, x):
            return _real_key(c, x)[0]
        return x in c
    if t is SSet:
        return x in c
    if t is DictKeys or t is ODictKeys or t is set or t is frozenset:
        ks = list(c)
        if _ktype(x) or keys_sym(ks):
            return find_key(ks, x) is not MISSING
        return x in c
    if t is MappingProxy:
        ks = list(c)
        if _ktype(x) or keys_sym(ks):
            return find_key(ks, x) is not MISSING
    return x in c


def sx_notin(x, c):
    return not sx_in(x, c)


def sx_getitem(o, k):
    t = type(o)
    if t is dict or (isinstance(o, dict) and _builtin_item(o, "__getitem__")):
        if core.CTX is not None and _dict_needs(o, k):
            return dict_method(o, "__getitem__", (k,), {})
        return o[k]
    if t is MappingProxy and core.CTX is not None and _ktype(k):
        r = find_key(list(o), k)
        if r is MISSING:
            raise KeyError(k)
        with guarded():
            return o[r]
    return o[k]


class _DictProxy:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return sx_getitem(self.d, k)

    def __setitem__(self, k, v):
        d = self.d
        if core.CTX is not None and _dict_needs(d, k):
            dict_method(d, "__setitem__", (k, v), {})
        else:
            d[k] = v

    def __delitem__(self, k):
        d = self.d
        if core.CTX is not None and _dict_needs(d, k):
            dict_method(d, "__delitem__", (k,), {})
        else:
            del d[k]


def sx_wrap(o):
    if core.CTX is not None and isinstance(o, dict) and _builtin_item(o, "__setitem__"):
        return _DictProxy(o)
    return o


def sx_dictd(parts):
    """Dict display: parts of (key, value) or (None,)+mapping."""
    out = {}
    for p in parts:
        if len(p) == 2:
            dict_set(out, p[0], p[1])
        else:
            _dict_merge(out, p[0])
    return out


def sx_dictc(it):
    out = {}
    for k, v in it:
        dict_set(out, k, v)
    return out


def sx_set(it):
    return SSet(it)


# ---------------------------------------------------------------- formatting
def sx_fstr(parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = to_repr(v) if core.CTX is not None else repr(v)
        elif conv == 115:
            v = sx_str(v)
        elif conv == 97:
            if has_sym(v):
                v = opaque(ascii(concretise(v)), deep_syms(v))
            else:
                v = ascii(v)
        if spec is None or spec == "":
            if isinstance(v, str):
                s = v if type(v) in (str, SStr) else format(v)
            elif type(v) is SInt or has_sym(v):
                s = to_str(v)
            else:
                s = format(v)
        else:
            s = sx_format(v, spec)
        if type(s) is SStr:
            sym = True
        out.append(s)
    if not sym:
        return "".join(out)
    els = []
    for s in out:
        els.extend(els_of(s))
    return mk(els)


def sx_format(v, spec=""):
    if type(spec) is SStr:
        core.CTX.pin_value(spec, "format-spec")
        spec = plain(spec)
    if isinstance(v, str):
        return lift(v).__format__(spec) if type(v) is SStr else format(v, spec)
    if spec == "":
        return to_str(v) if core.CTX is not None and has_sym(v) else format(v)
    if has_sym(v):
        return opaque(format(concretise(v), spec), deep_syms(v))
    return format(v, spec)


def sx_mod(a, b):
    if isinstance(a, str):
        if type(a) is SStr or has_sym(b):
            return str_mod(a, b)
        if core.CTX is not None and type(b) not in (str, int, float):
            return str_mod(a, b)
    return a % b


def sx_div(a, b):
    """`/`: of paths, since numbers stay small."""
    if core.CTX is not None and (type(a) is SStr or type(b) is SStr):
        a, b = concretise_pin((a, b), "path")
    return a / b


def sx_str(*a, **k):
    if len(a) == 1 and not k and core.CTX is not None:
        o = a[0]
        t = type(o)
        if t is str or t is SStr:
            return o
        if t is SInt or has_sym(o):
            return to_str(o)
        m = t.__str__
        if type(m) is FunctionType:
            return m(o)
        if m is object.__str__ and type(t.__repr__) is FunctionType:
            return t.__repr__(o)
    return str(*a, **k)


# ---------------------------------------------------------------- attribute access by name
def _attr_names(o):
    out = {}
    ts = [o] + list(type(o).__mro__)
    if isinstance(o, type):
        ts += list(o.__mro__)
    for t in ts:
        try:
            d = object.__getattribute__(t, "__dict__") if not isinstance(t, type) else \
                type.__getattribute__(t, "__dict__")
        except AttributeError:
            continue
        for n in d:
            if isinstance(n, str):
                out[n] = 1
    return list(out)


def _attr(o, name):
    """The concrete attribute name `name` stands for on this path."""
    if type(name) is not SStr or core.CTX is None:
        return name
    names = [n for n in _attr_names(o)]
    r = find_key(sorted(names, key=lambda n: n), name)
    if r is not MISSING:
        return plain(r)
    if hasattr(type(o), "__getattr__"):
        core.CTX.pin_value(name, "getattr")
    return plain(name)


def m_getattr(o, name, *d):
    return getattr(o, _attr(o, name), *d)


def m_hasattr(o, name):
    return hasattr(o, _attr(o, name))


def m_setattr(o, name, v):
    if type(name) is SStr:
        core.CTX.pin_value(name, "setattr")
        name = plain(name)
    return setattr(o, name, v)


def m_delattr(o, name):
    return delattr(o, _attr(o, name))


# ---------------------------------------------------------------- models of builtins
def m_type(*a, **k):
    if len(a) == 1:
        t = type(a[0])
        return str if t is SStr else int if t is SInt else set if t is SSet else t
    return type(*a, **k)


def m_repr(o):
    if core.CTX is None:
        return repr(o)
    t = type(o)
    if t is SStr or t is SInt or has_sym(o):
        return to_repr(o)
    m = t.__repr__
    if type(m) is FunctionType:
        return m(o)
    return repr(o)


def m_int(*a, **k):
    if len(a) == 1 and type(a[0]) is SInt:
        return a[0]
    if a and type(a[0]) is SStr:
        core.CTX.pin_value(a[0], "int")
        a = (plain(a[0]),) + a[1:]
    return int(*a, **k)


def m_float(*a):
    if a and has_sym(a[0]):
        core.CTX.pin_value(a[0], "float")
        a = (concretise(a[0]),)
    return float(*a)


def m_print(*a, sep=" ", end="\n", file=None, flush=False):
    f = sys.stdout if file is None else file
    if f is None:
        return
    sep = " " if sep is None else sep
    end = "\n" if end is None else end
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append(sep)
        parts.append(sx_str(x))
    parts.append(end)
    t = str_join("", parts)
    if getattr(f, "_sx_engine", False) or not isinstance(t, SStr):
        f.write(t)
    else:
        f.write(plain(t))
    if flush:
        f.flush()


def str_join(s, it):
    items = list(it)
    for x in items:
        if type(x) is SStr:
            return lift(s).join(items)
    if type(s) is SStr:
        return s.join(items)
    return str.join(s, items)


def m_dict(*a, **k):
    out = {}
    if a:
        if len(a) > 1:
            return dict(*a, **k)
        _dict_merge(out, a[0])
    for kk, v in k.items():
        dict_set(out, kk, v)
    return out


def m_set(*a):
    return SSet(*a)


def _wrapf(f):
    """A callable passed to native code: calls to it must go through the hooks."""
    if f is None or is_instr(f) or not callable(f):
        return f
    return lambda *a, **k: sx_call(f, *a, **k)


def m_map(f, *its):
    return map(_wrapf(f), *its)


def m_filter(f, it):
    return filter(_wrapf(f), it)


def m_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=_wrapf(key), reverse=reverse)


def m_min(*a, **k):
    if "key" in k:
        k["key"] = _wrapf(k["key"])
    return min(*a, **k)


def m_max(*a, **k):
    if "key" in k:
        k["key"] = _wrapf(k["key"])
    return max(*a, **k)


def m_reduce(f, *a):
    return functools.reduce(_wrapf(f), *a)


def m_ord(c):
    if type(c) is SStr:
        core.CTX.pin_value(c, "ord")
        c = plain(c)
    return ord(c)


def m_stringio(*a, **k):
    if core.CTX is None:
        return io.StringIO(*a, **k)
    if "newline" in k or len(a) > 1:
        core.CTX.note("StringIO newline")
    return SStringIO(*a[:1], **{x: y for x, y in k.items() if x == "initial_value"})


def m_deepcopy(o, memo=None):
    if core.CTX is None:
        return copy.deepcopy(o, memo)
    with guarded():
        return copy.deepcopy(o, memo)


def m_copy(o):
    if core.CTX is None:
        return copy.copy(o)
    with guarded():
        return copy.copy(o)


def _frames():
    f = sys._getframe(2)
    out = []
    while f is not None:
        fn = f.f_code.co_filename
        if not fn.startswith(SX_DIR) or fn.startswith("<"):
            out.append((fn, f.f_lineno, f.f_code.co_name))
        f = f.f_back
    out.reverse()
    return out


def m_format_stack(f=None, limit=None):
    import linecache
    out = []
    for fn, ln, nm in _frames():
        t = '  File "%s", line %d, in %s\n' % (fn, ln, nm)
        src = linecache.getline(fn, ln).strip()
        if src:
            t += "    %s\n" % src
        out.append(t)
    if len(out) < 3:
        out = ['  File "main", line 1, in <module>\n'] * (3 - len(out)) + out
    return out if limit is None else out[-limit:]


def m_print_exc(*a, **k):
    return None


def m_re(name):
    real = getattr(re, name)

    def f(pattern, *a, **k):
        if core.CTX is None:
            return real(pattern, *a, **k)
        flags = k.pop("flags", None)
        npos = {"match": 1, "search": 1, "fullmatch": 1, "findall": 1, "finditer": 1,
                "split": 2, "sub": 3, "subn": 3, "compile": 0}[name]
        if flags is None:
            flags = 0
            if len(a) > npos:
                flags = a[npos]
                a = a[:npos]
        if not (type(pattern) is SStr or type(pattern) is SPattern or has_sym(list(a)) or
                has_sym(list(k.values())) or name in ("sub", "subn")):
            return getattr(pattern if isinstance(pattern, re.Pattern) else
                           re.compile(pattern, flags), name)(*_wrap_repl(name, a), **k) \
                if name != "compile" else real(pattern, flags)
        p = SPattern(pattern, flags)
        if name == "compile":
            return p
        return getattr(p, name)(*_wrap_repl(name, a), **k)
    return f


def _wrap_repl(name, a):
    if name in ("sub", "subn") and a and not isinstance(a[0], str):
        return (_wrapf(a[0]),) + tuple(a[1:])
    return a


def m_re_escape(s):
    if type(s) is not SStr:
        return re.escape(s)
    sp = frozenset(c for c in re._special_chars_map)
    out = []
    for e in s.els:
        e = core.norm_el(e)
        if core.el_test(e, "re-escape", sp.__contains__):
            out.append(92)
        out.append(e)
    return mk(out)


def m_getenv(key, default=None):
    return os.environ.get(key, default)


def m_pprint(o, stream=None, **k):
    (stream or sys.stdout).write(sx_str(m_repr(o)) + "\n")


def m_redirect(name):
    import contextlib

    class R:
        _sx_engine = True

        def __init__(self, target):
            self.t = target
            self.old = []

        def __enter__(self):
            self.old.append(getattr(sys, name))
            setattr(sys, name, self.t)
            return self.t

        def __exit__(self, *a):
            setattr(sys, name, self.old.pop())
    return R


def m_str_type(*a, **k):
    return sx_str(*a, **k)


def m_exec(src, g=None, l=None):
    from . import instrument
    return instrument.exec_source(src, g, l)


def m_eval(src, g=None, l=None):
    from . import instrument
    return instrument.eval_source(src, g, l)


def m_maketrans(*a):
    return str.maketrans(*concretise_pin(a))


def concretise_pin(a, why="native"):
    for s in deep_syms(a, 8):
        core.CTX.pin_value(s, why)
    return concretise(a)


def m_exit(code=None):
    raise SystemExit(code)


def m_fspath(p):
    return p if isinstance(p, (str, bytes)) else os.fspath(p)


MODELS = {}


def _build_models():
    import contextlib
    import pprint
    import textwrap
    M = MODELS
    M[id(type)] = m_type
    M[id(sys.exit)] = m_exit
    M[id(os.fspath)] = m_fspath
    for n in ("exit", "quit"):
        if hasattr(builtins, n):
            M[id(getattr(builtins, n))] = m_exit
    M[id(str)] = m_str_type
    M[id(repr)] = m_repr
    M[id(format)] = sx_format
    M[id(int)] = m_int
    M[id(float)] = m_float
    M[id(print)] = m_print
    M[id(open)] = m_open
    M[id(io.open)] = m_open
    M[id(getattr)] = m_getattr
    M[id(hasattr)] = m_hasattr
    M[id(setattr)] = m_setattr
    M[id(delattr)] = m_delattr
    M[id(dict)] = m_dict
    M[id(set)] = m_set
    M[id(map)] = m_map
    M[id(filter)] = m_filter
    M[id(sorted)] = m_sorted
    M[id(min)] = m_min
    M[id(max)] = m_max
    M[id(functools.reduce)] = m_reduce
    M[id(ord)] = m_ord
    M[id(io.StringIO)] = m_stringio
    M[id(copy.deepcopy)] = m_deepcopy
    M[id(copy.copy)] = m_copy
    M[id(traceback.format_stack)] = m_format_stack
    M[id(traceback.print_exc)] = m_print_exc
    M[id(os.getenv)] = m_getenv
    M[id(pprint.pprint)] = m_pprint
    M[id(contextlib.redirect_stdout)] = m_redirect("stdout")
    M[id(contextlib.redirect_stderr)] = m_redirect("stderr")
    M[id(exec)] = m_exec
    M[id(eval)] = m_eval
    M[id(re.escape)] = m_re_escape
    for n in ("match", "search", "fullmatch", "findall", "finditer", "split", "sub", "subn",
              "compile"):
        M[id(getattr(re, n))] = m_re(n)
    M[id(operator.contains)] = lambda a, b: sx_in(b, a)
    M[id(operator.getitem)] = sx_getitem
    M[id(operator.eq)] = sx_eq
    M[id(operator.mod)] = sx_mod


_build_models()
_KEEP = [re.compile, re.match]      # keep ids alive

SAFE = set()
for _f in (len, isinstance, issubclass, iter, next, list, tuple, enumerate, zip, reversed, any,
           all, id, callable, super, property, staticmethod, classmethod, range, slice, object,
           bool, sum, abs, vars, dir, globals, locals, hash, frozenset, bytes, bytearray, divmod,
           isinstance, functools.partial, functools.wraps, functools.update_wrapper,
           collections.deque, collections.OrderedDict, collections.defaultdict, object.__new__,
           object.__init__, object.__setattr__, object.__getattribute__, itertools.chain,
           itertools.chain.from_iterable, itertools.zip_longest, itertools.islice,
           itertools.count, itertools.repeat, itertools.tee, itertools.product,
           itertools.permutations, itertools.combinations, itertools.cycle, itertools.accumulate,
           BaseException.__init__, BaseException.__new__, sys.exc_info, types.SimpleNamespace,
           memoryview, complex, input, breakpoint, inspect.getmembers, inspect.ismethod,
           inspect.isfunction, inspect.isclass, Exception.with_traceback, os.fspath):
    SAFE.add(id(_f))
_SAFE_KEEP = [itertools.chain.from_iterable, Exception.with_traceback]
SAFE.discard(id(os.fspath))

TRANSPARENT = {"_collections_abc", "abc", "functools", "contextlib", "typing", "types", "enum",
               "weakref", "_weakrefset"}
STDLIB_MAP = {}     # id(real function) -> instrumented function


def is_instr(f):
    t = type(f)
    if t is FunctionType:
        return f.__builtins__ is SXB
    if t is MethodType:
        return is_instr(f.__func__)
    return False


def _is_transparent(f):
    t = type(f)
    if t is MethodType:
        f = f.__func__
        t = type(f)
    if t is FunctionType:
        return f.__globals__.get("__name__") in TRANSPARENT or \
            f.__globals__.get("__name__", "").startswith("sx.")
    return False


_LIST_KEY = {"sort"}


def _sub_native(self, name, a, k, f):
    """Bound C method of a builtin container or string."""
    if isinstance(self, str):
        return str_method(self, name, a, k)
    if isinstance(self, dict):
        if name in _DICT_METHODS:
            return dict_method(self, name, a, k)
        return f(*a, **k)
    if isinstance(self, list):
        if name == "sort" and k.get("key") is not None:
            k = dict(k)
            k["key"] = _wrapf(k["key"])
        return f(*a, **k)
    if isinstance(self, (tuple, SSet, collections.deque)):
        return f(*a, **k)
    if isinstance(self, (set, frozenset)) and (has_sym(a) or has_sym(self)):
        r = getattr(SSet(self), name)(*a, **k)
        if isinstance(self, set) and not isinstance(self, SSet):
            concretise_pin((a, list(self)), "set")
            return f(*concretise(a), **k)
        return r
    return MISSING


def sx_call(f, /, *a, **k):
    t = type(f)
    if t is FunctionType:
        if f.__builtins__ is SXB:
            return f(*a, **k)
        c = core.CTX
        if c is None:
            return f(*a, **k)
        m = MODELS.get(id(f))
        if m is not None:
            return m(*a, **k)
        s = STDLIB_MAP.get(id(f))
        if s is not None:
            return s(*a, **k)
        return _native(f, a, k)
    c = core.CTX
    if c is None:
        return f(*a, **k)
    if t is MethodType:
        fn = f.__func__
        if type(fn) is FunctionType and fn.__builtins__ is SXB:
            return f(*a, **k)
        if getattr(type(f.__self__), "_sx_engine", False) or \
                getattr(f.__self__, "_sx_engine", False):
            return f(*a, **k)
        return _native(f, a, k)
    m = MODELS.get(id(f))
    if m is not None:
        return m(*a, **k)
    if id(f) in SAFE:
        return f(*a, **k)
    if t is BuiltinType or t is MethodWrapper or t is BuiltinMethod:
        self = f.__self__
        if self is not None and not isinstance(self, types.ModuleType):
            if isinstance(self, type):
                if f.__name__ == "__new__":
                    return f(*a, **k)
                if f.__name__ == "fromkeys":
                    return dict_method({}, "fromkeys", a, k)
            if isinstance(self, BaseException):
                return f(*a, **k)
            r = _sub_native(self, f.__name__, a, k, f)
            if r is not MISSING:
                return r
            if isinstance(self, re.Pattern):
                return sx_callm(self, f.__name__, *a, **k)
        return _native(f, a, k)
    if t is MethodDesc or t is WrapperDesc:
        oc = f.__objclass__
        if a:
            if oc is str and isinstance(a[0], str):
                return str_method(a[0], f.__name__, a[1:], k)
            if oc in (dict, collections.OrderedDict, collections.defaultdict) and \
                    isinstance(a[0], dict) and f.__name__ in _DICT_METHODS:
                return dict_method(a[0], f.__name__, a[1:], k)
            if oc in (list, tuple, object, type) or issubclass(oc, BaseException):
                return f(*a, **k)
            if oc in (set, frozenset):
                return getattr(a[0], f.__name__)(*a[1:], **k)
        return _native(f, a, k)
    if isinstance(f, type):
        if issubclass(f, BaseException):
            return f(*a, **k)
        if f.__dict__.get("_sx_engine") or getattr(f, "_sx_engine", False):
            return f(*a, **k)
        if is_instr(f.__init__) or is_instr(f.__new__) or f.__module__ in INSTR_NAMES:
            return f(*a, **k)
        return _native(f, a, k)
    if t is functools.partial:
        return sx_call(f.func, *f.args, *a, **{**f.keywords, **k})
    if getattr(f, "_sx_engine", False):
        return f(*a, **k)
    cm = getattr(t, "__call__", None)
    if is_instr(cm):
        return f(*a, **k)
    return _native(f, a, k)


INSTR_NAMES = set()


def _native(f, a, k):
    c = core.CTX
    if has_sym(a) or (k and has_sym(k)):
        if _is_transparent(f):
            return f(*a, **k)
        n = getattr(f, "__qualname__", None) or getattr(f, "__name__", None) or type(f).__name__
        a, k = concretise_pin((a, k), "native:%s" % n)
    return f(*a, **k)


_STR_FMT = {"format", "format_map", "join"}


def str_method(s, name, a, k):
    if name == "join" and a:
        return str_join(s, a[0])
    if name == "format":
        if type(s) is SStr or has_sym(a) or has_sym(k):
            return str_format(s, a, k)
        if core.CTX is not None:
            return str_format(s, a, k)
        return s.format(*a, **k)
    if name == "maketrans":
        return m_maketrans(*a)
    if type(s) is SStr:
        m = getattr(SStr, name, None)
        return m(s, *a, **k)
    if has_sym(a) or k and has_sym(k):
        return getattr(SStr, name)(lift(s), *a, **k)
    return getattr(s, name)(*a, **k)


def sx_callm(o, name, /, *a, **k):
    t = type(o)
    if t is SStr or t is str:
        if core.CTX is not None:
            if t is str and name not in _STR_FMT:
                for x in a:
                    if type(x) is SStr or type(x) is tuple:
                        break
                else:
                    if not k:
                        return getattr(o, name)(*a)
            return str_method(o, name, a, k)
        return getattr(o, name)(*a, **k)
    if t is list:
        if name != "sort":
            return getattr(o, name)(*a, **k)
    elif t is dict and core.CTX is not None:
        if name in _DICT_METHODS:
            return dict_method(o, name, a, k)
        return getattr(o, name)(*a, **k)
    elif t is SSet:
        return getattr(o, name)(*a, **k)
    elif t is re.Pattern and core.CTX is not None:
        if has_sym(a) or has_sym(k) or name in ("sub", "subn"):
            p = _PCACHE.get(o)
            if p is None:
                p = _PCACHE[o] = SPattern(o)
            return getattr(p, name)(*_wrap_repl(name, a), **k)
        return getattr(o, name)(*_wrap_repl(name, a), **k)
    elif isinstance(o, pathlib.PurePath) and core.CTX is not None and name in _PATHM:
        return _PATHM[name](o, *a, **k)
    return sx_call(getattr(o, name), *a, **k)


_PCACHE = {}


def _p_open(p, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
    return m_open(p, mode, buffering, encoding, errors, newline)


def _p_read_text(p, encoding=None, errors=None):
    with m_open(p, "r", encoding=encoding, errors=errors) as f:
        return f.read()


def _p_write_text(p, data, encoding=None, errors=None, newline=None):
    with m_open(p, "w", encoding=encoding) as f:
        return f.write(data)


_PATHM = {"open": _p_open, "read_text": _p_read_text, "write_text": _p_write_text}


def sx_tick():
    c = core.CTX
    if c is not None:
        c.steps += 1
        if c.steps > c.max_steps:
            c.tick()


def sx_enter(fid):
    c = core.CTX
    if c is not None:
        c.functions.add(fid)
        c.steps += 1
        if c.steps > c.max_steps:
            c.tick()


HOOKS = {
    "__sx_div__": sx_div,
    "__sx_call__": sx_call, "__sx_callm__": sx_callm, "__sx_in__": sx_in,
    "__sx_notin__": sx_notin, "__sx_eq__": sx_eq, "__sx_ne__": sx_ne,
    "__sx_getitem__": sx_getitem, "__sx_wrap__": sx_wrap, "__sx_dictd__": sx_dictd,
    "__sx_dictc__": sx_dictc, "__sx_set__": sx_set, "__sx_fstr__": sx_fstr,
    "__sx_mod__": sx_mod, "__sx_tick__": sx_tick, "__sx_enter__": sx_enter,
}
SXB.update(vars(builtins))
SXB.update(HOOKS)
