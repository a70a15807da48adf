"""Dispatch of calls and operations, and models of builtins and the standard
library for symbolic arguments.  With no symbolic argument the real function
runs."""
import base64
import binascii
import builtins
import collections
import functools
import hmac as _hmac
import itertools
import json
import logging
import math
import operator
import re
import struct
import types
import zlib

import z3

from . import core
from .core import (CW, LazyStr, Sym, SymBool, SymByteArray, SymBytes, SymInt, SymSeq,
                   SymStr, PathLimit, _fit, and_, concretize, has_sym, is_sym,
                   item_bv, mkbool, mkbytes, mkint, mkstr, not_, or_, simp,
                   split_bv, concat_items, typename, zb, byte_item)

MODELS = {}     # id(f) -> (f, model, needs_sym)


def model(*fs, **kw):
    def deco(m):
        for f in fs:
            MODELS[id(f)] = (f, m, not kw.get("always"))
        return m
    return deco


BuiltinMethod = type([].append)
MethodWrapper = type("".__add__)
PLAIN_SEQ = (str, bytes, bytearray)
CONTAINER = (list, dict, set, tuple, frozenset, collections.deque)
LOGFUNCS = set(["debug", "info", "warning", "warn", "error", "critical",
                "exception", "log"])
SAFE_BUILTINS = set(id(f) for f in (
    len, zip, enumerate, iter, next, all, any, sum, min, max, sorted,
    reversed, list, tuple, set, frozenset, dict, repr, callable, id, abs,
    divmod, slice, getattr, setattr, hasattr, object, print, super, round,
    type, issubclass, property, staticmethod, classmethod, pow,
    functools.partial, itertools.chain, itertools.islice, vars,
    operator.add, operator.xor, operator.or_, operator.and_, operator.eq,
    operator.itemgetter, operator.attrgetter, itertools.zip_longest,
    itertools.count, itertools.repeat, itertools.cycle, itertools.product,
    itertools.chain.from_iterable, filter, map))


OVERRIDES = {}  # id(method) -> (method, model), while the path asks for it


class NotModelled(Exception):
    pass


def call(f, *a, **k):
    m = MODELS.get(id(f))
    if m is not None:
        if not m[2]:
            return m[1](*a, **k)
        if _any_sym(a, k):
            return m[1](*a, **k)
        return f(*a, **k)
    tf = type(f)
    if tf is types.FunctionType or tf is types.MethodType:
        mod = f.__module__ or ""
        if tf is types.MethodType and core.CTX.path_store.get("ec"):
            ov = OVERRIDES.get(id(f.__func__))
            if ov is not None:
                return ov[1](f.__func__, f.__self__, *a, **k)
        if tf is types.MethodType and isinstance(f.__self__, (
                logging.Logger, logging.LoggerAdapter)):
            if f.__name__ in LOGFUNCS:
                return None
        if mod.startswith("jwkest") or mod.startswith("harness") or \
                mod.startswith("symex") or mod.startswith("vlib"):
            return f(*a, **k)
        if tf is types.MethodType:
            fm = MODELS.get(id(f.__func__))
            if fm is not None and (not fm[2] or _any_sym(a, k)):
                return fm[1](f.__self__, *a, **k)
        if not _any_sym(a, k):
            return f(*a, **k)
        if mod in ("functools", "contextlib", "copy", "collections",
                   "unittest.mock"):
            return f(*a, **k)
        return _foreign(f, a, k)
    if tf is BuiltinMethod or isinstance(f, BuiltinMethod):
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            if id(f) in SAFE_BUILTINS or not _any_sym(a, k):
                return f(*a, **k)
            return _foreign(f, a, k)
        return _builtin_method(f, s, a, k)
    if tf is type:
        # class: jwkest/harness classes and exceptions natively
        return _construct(f, a, k)
    if isinstance(f, type):
        return _construct(f, a, k)
    if isinstance(f, functools.partial):
        kw = dict(f.keywords)
        kw.update(k)
        return call(f.func, *(f.args + a), **kw)
    if tf in (types.MethodDescriptorType, types.WrapperDescriptorType,
              types.ClassMethodDescriptorType):
        # e.g. bytes.join(b'', [...]) / str.lower(x)
        if a and (isinstance(a[0], (Sym,) + PLAIN_SEQ)) and _any_sym(a, k):
            return call(getattr(a[0], f.__name__), *a[1:], **k)
        return f(*a, **k)
    if isinstance(f, core.Sym):
        raise TypeError("'%s' object is not callable" % typename(f))
    c = getattr(type(f), "__call__", None)
    if isinstance(c, types.FunctionType):
        mod = c.__module__ or ""
        if mod.startswith(("jwkest", "harness", "symex", "vlib")):
            return f(*a, **k)
    if _any_sym(a, k) and id(f) not in SAFE_BUILTINS:
        if isinstance(f, (operator.itemgetter, operator.attrgetter)):
            return f(*a, **k)
        return _foreign(f, a, k)
    return f(*a, **k)


def _construct(cls, a, k):
    mod = getattr(cls, "__module__", "") or ""
    if issubclass(cls, BaseException) or mod.split(".")[0] in (
            "jwkest", "harness", "symex", "vlib", "collections", "types",
            "functools", "itertools"):
        return cls(*a, **k)
    if id(cls) in SAFE_BUILTINS or not _any_sym(a, k):
        return cls(*a, **k)
    return _foreign(cls, a, k)


HOLDERS = (list, tuple, dict, set, frozenset) + core.VIEWS


def _any_sym(a, k):
    for x in a:
        if isinstance(x, Sym) or (isinstance(x, HOLDERS) and
                                  has_sym(x)):
            return True
    for x in k.values():
        if isinstance(x, Sym) or (isinstance(x, HOLDERS) and
                                  has_sym(x)):
            return True
    return False


def _foreign(f, a, k):
    """Code outside the model reached with symbolic data: under-approximate."""
    name = "%s.%s" % (getattr(f, "__module__", "?"),
                      getattr(f, "__qualname__", repr(f)))
    a = [concretize(x, name) if has_sym(x) else x for x in a]
    k = dict((n, concretize(x, name) if has_sym(x) else x)
             for n, x in k.items())
    return f(*a, **k)


def _is_gen(x):
    return isinstance(x, (types.GeneratorType, map, filter, zip,
                          itertools.chain, reversed)) or \
        type(x).__name__ in ("generator", "list_iterator", "dict_keys",
                             "dict_values", "tuple_iterator")


def _builtin_method(f, s, a, k):
    name = f.__name__
    if isinstance(s, PLAIN_SEQ):
        if name == "join" and a:
            x = a[0]
            if not isinstance(x, (str, bytes, Sym)):
                x = list(x)
            elif isinstance(x, SymSeq):
                x = list(x)
            if any(isinstance(i, Sym) for i in x):
                return _lift(s).join(x)
            return f(x)
        if name == "format":
            return fmt_format(s, a, k)
        if not _any_sym(a, k):
            return f(*a, **k)
        if isinstance(s, bytearray):
            if name in ("extend", "append", "insert", "__iadd__"):
                raise PathLimit("symbolic store into a concrete bytearray")
        if isinstance(s, str) and name == "translate":
            return _foreign(f, a, k)
        return getattr(_lift(s), name)(*a, **k)
    if isinstance(s, dict):
        return _dict_method(f, s, name, a, k)
    if isinstance(s, (set, frozenset)) and (_any_sym(a, k) or has_sym(s)):
        if name == "add":
            if not contains(s, a[0]):
                set.add(s, a[0])
            return None
        if name == "discard" or name == "remove":
            for x in list(s):
                if x == a[0]:
                    s.remove(x)
                    return None
            if name == "remove":
                raise KeyError(a[0])
            return None
        if name in ("issubset", "issuperset", "isdisjoint", "union",
                    "intersection", "difference", "update"):
            return _set_method(s, name, a)
    if isinstance(s, CONTAINER):
        return f(*a, **k)
    if isinstance(s, (int, float)) and not _any_sym(a, k):
        return f(*a, **k)
    if isinstance(s, type):
        # classmethods of builtin types: bytes.fromhex, int.from_bytes, ...
        m = CLASSMETHODS.get((s, name))
        if m and _any_sym(a, k):
            return m(*a, **k)
        if m and name == "from_bytes":
            return m(*a, **k)
        if s is dict and name == "fromkeys":
            return f(*a, **k)
    if isinstance(s, struct.Struct):
        if name == "pack":
            return m_pack(s.format, *a) if _any_sym(a, k) else f(*a)
        if name == "unpack":
            return m_unpack(s.format, *a) if _any_sym(a, k) else f(*a)
        if name == "unpack_from":
            return m_unpack_from(s.format, *a) if _any_sym(a, k) else f(*a)
    if isinstance(s, re.Pattern) and _any_sym(a, k):
        from . import rex
        return rex.pattern_method(s, name, a, k)
    if isinstance(s, types.GeneratorType) or isinstance(
            s, (itertools.chain,)):
        return f(*a, **k)
    if _any_sym(a, k):
        return _foreign(f, a, k)
    return f(*a, **k)


def _set_method(s, name, a):
    o = list(a[0])
    if name == "issubset":
        return and_(*[or_(*[x == y for y in o]) for x in s])
    if name == "issuperset":
        return and_(*[or_(*[x == y for y in s]) for x in o])
    if name == "isdisjoint":
        return not_(or_(*[x == y for y in s for x in o]))
    if name == "update":
        for x in o:
            if not contains(s, x):
                s.add(x)
        return None
    if name == "union":
        r = set(s)
        for x in o:
            if not contains(r, x):
                r.add(x)
        return r
    if name == "intersection":
        return set(x for x in s if contains(o, x))
    return set(x for x in s if not contains(o, x))


def _dict_method(f, s, name, a, k):
    c = core.CTX
    symkey = a and isinstance(a[0], Sym)
    if name in ("get", "pop", "setdefault", "__getitem__", "__contains__") \
            and (symkey or (c is not None and c.sym_keys)):
        try:
            key = find_key(s, a[0])
        except KeyError:
            if name == "get":
                return a[1] if len(a) > 1 else None
            if name == "__contains__":
                return False
            if name == "setdefault":
                v = a[1] if len(a) > 1 else None
                store(v, s, a[0])
                return v
            if name == "pop" and len(a) > 1:
                return a[1]
            raise
        if name == "pop":
            return s.pop(key)
        if name == "__contains__":
            return True
        return dict.__getitem__(s, key)
    return f(*a, **k)


def find_key(d, key):
    """The stored key equal to key on this path, or KeyError."""
    if not isinstance(key, Sym):
        if key in d:
            return key
        if core.CTX is not None and core.CTX.sym_keys:
            for x in list(d):
                if isinstance(x, Sym) and x == key:
                    return x
        raise KeyError(key)
    for x in list(d):
        if typename(x) == typename(key) or isinstance(x, Sym) or (
                isinstance(key, (SymInt, SymBool))):
            r = key == x
            if r is NotImplemented:
                continue
            if r:
                return x
    raise KeyError(key)


def _lift(s):
    if isinstance(s, str):
        return SymStr([ord(c) for c in s])
    if isinstance(s, bytearray):
        return SymByteArray(list(s))
    return SymBytes(list(s))


# -- operators -------------------------------------------------------------------


def mod(a, b):
    if isinstance(a, (str, bytes)):
        if isinstance(a, str) and has_sym(b):
            return fmt_percent(a, b)
        if isinstance(a, bytes) and has_sym(b):
            return fmt_percent(a.decode("latin-1"), b, True)
        return a % b
    return a % b


def in_(x, y):
    return contains(y, x)


def notin(x, y):
    r = contains(y, x)
    return not_(r) if isinstance(r, SymBool) else not r


def contains(y, x):
    if isinstance(y, Sym):
        return x in y
    sx = isinstance(x, Sym)
    if isinstance(y, dict) or isinstance(y, type({}.keys())):
        if sx or (core.CTX is not None and core.CTX.sym_keys):
            try:
                find_key(y, x)
                return True
            except KeyError:
                return False
        return x in y
    if sx:
        if isinstance(y, (str, bytes, bytearray)):
            return x in _lift(y)
        if isinstance(y, (list, tuple, set, frozenset)):
            if all(i is None or isinstance(i, (str, bytes, int, Sym))
                   for i in y):
                return bool(or_(*[x == i for i in y]))
            for i in y:
                if i is x:
                    return True
                r = (x == i)
                if r is not NotImplemented and r:
                    return True
            return False
        if isinstance(y, range):
            return bool(or_(*[x == i for i in y])) if len(y) < 64 else \
                bool(and_(x >= y[0], x <= y[-1],
                          (x - y[0]) % y.step == 0))
    elif isinstance(y, (set, frozenset)) and core.CTX is not None and \
            any(isinstance(i, Sym) for i in y):
        return bool(or_(*[i == x for i in y]))
    return x in y


def is_(a, b):
    if isinstance(a, SymBool) and isinstance(b, bool):
        return bool(a) is b
    if isinstance(b, SymBool) and isinstance(a, bool):
        return bool(b) is a
    return a is b


def isnot(a, b):
    return not is_(a, b)


def sub(o, i):
    if isinstance(i, slice):
        if isinstance(i.start, Sym) or isinstance(i.stop, Sym) or \
                isinstance(i.step, Sym):
            i = slice(core._ix(i.start), core._ix(i.stop), core._ix(i.step))
        return o[i]
    if isinstance(i, Sym) and not isinstance(o, Sym):
        if isinstance(o, dict):
            if isinstance(i, SymInt) and len(o) > 3 and not (
                    core.CTX.sym_keys) and all(
                    type(a) is int and type(b) is int and b >= 0 and
                    a >= 0 for a, b in o.items()) and i.lo >= 0:
                if not or_(*[i == a for a in o]):
                    raise KeyError(i)
                hi = max(max(o), i.hi)
                if hi < 4096:
                    keys = sorted(o)
                    w = core._width(0, max(o.values()))
                    r = z3.BitVecVal(o[keys[-1]], w)
                    for a in keys[:-1]:
                        r = z3.If(zb(i == a), z3.BitVecVal(o[a], w), r)
                    return mkint(r, min(o.values()), max(o.values()))
            try:
                return dict.__getitem__(o, find_key(o, i))
            except KeyError:
                mi = getattr(type(o), "__missing__", None)
                if mi:
                    return mi(o, i)
                raise
        if isinstance(o, (str, bytes, bytearray)):
            o = _lift(o)
            if isinstance(i, SymInt) and isinstance(o, SymBytes):
                n = len(o)
                if or_(i >= n, i < -n):
                    raise IndexError("index out of range")
                if i < 0:
                    i = i + n
                return core.mux(list(o.items), i)
            return o[i]
        if isinstance(o, (list, tuple)) and isinstance(i, SymInt):
            n = len(o)
            if or_(i >= n, i < -n):
                raise IndexError("list index out of range")
            if i < 0:
                i = i + n
            if isinstance(i, SymInt) and all(
                    type(x) is int and x >= 0 for x in o):
                return core.mux(list(o), i)
            return o[i.__index__() if isinstance(i, SymInt) else i]
        if isinstance(o, (list, tuple)):
            return o[core._ix(i)]
        return o[i]
    if core.CTX is not None and core.CTX.sym_keys and isinstance(o, dict) \
            and type(o).__getitem__ is dict.__getitem__:
        return dict.__getitem__(o, find_key(o, i))
    return o[i]


def store(v, o, i):
    if isinstance(o, dict):
        c = core.CTX
        if isinstance(i, Sym) or (c is not None and c.sym_keys):
            try:
                key = find_key(o, i)
            except KeyError:
                key = i
                if isinstance(i, Sym):
                    c.sym_keys = True
            o[key] = v
            return
    elif isinstance(i, Sym) and isinstance(o, (list, bytearray)):
        i = core._ix(i)
    o[i] = v


# -- formatting --------------------------------------------------------------------


def dec_str(x):
    """decimal text of an int or SymInt"""
    if not isinstance(x, SymInt):
        return str(x)
    neg = False
    if x < 0:
        neg = True
        x = -x
        if not isinstance(x, SymInt):
            return "-" + str(x)
    n = 1
    while x >= 10 ** n:
        n += 1
    out = []
    for i in range(n - 1, -1, -1):
        d = (x // (10 ** i)) % 10
        if isinstance(d, SymInt):
            e = simp(_fit(d.e, CW, False) + 48)
            core.CTX.set_domain(e, frozenset(range(48, 58)))
            out.append(e)
        else:
            out.append(48 + d)
    r = mkstr(out)
    return "-" + r if neg else r


def hex_str(x, upper=False, pad=0):
    """lower-case hex digits of a non-negative int / SymInt, no prefix"""
    if not isinstance(x, SymInt):
        s = "%X" % x if upper else "%x" % x
        return s.rjust(pad, "0")
    if x < 0:
        return "-" + hex_str(-x, upper, max(0, pad - 1))
    n = max(1, pad)
    while x >= 16 ** n:
        n += 1
    e = _fit(x.e, 4 * n, False)
    return mkstr([core.hexdigit(simp(z3.Extract(4 * i + 3, 4 * i, e)), upper)
                  for i in range(n - 1, -1, -1)])


OPAQUE = "<symbolic>"


def text_of(x):
    """str(x) where exact, else an opaque placeholder"""
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return dec_str(x)
    if isinstance(x, SymBool):
        return str(bool(x))
    if has_sym(x):
        return OPAQUE
    return str(x)


_PCT = re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\d+|\*)?(?:\.(\d+|\*))?"
                  r"[hlL]?([diouxXeEfFgGcrsab%])")


def fmt_percent(f, args, as_bytes=False):
    out = []
    pos = 0
    tup = args if isinstance(args, tuple) else (args,)
    ai = 0
    for m in _PCT.finditer(f):
        if m.start() > pos:
            out.append(f[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == "%":
            out.append("%")
            continue
        if name is not None:
            v = sub(args, name)
        else:
            if width == "*":
                width = str(tup[ai])
                ai += 1
            if ai >= len(tup):
                raise TypeError("not enough arguments for format string")
            v = tup[ai]
            ai += 1
        out.append(_conv(v, flags, width, prec, conv))
    out.append(f[pos:])
    if name_free(f) and ai < len(tup) and not isinstance(args, dict):
        raise TypeError("not all arguments converted")
    r = _join(out)
    if as_bytes:
        return core.encode(r, "latin-1")
    return r


def name_free(f):
    return "%(" not in f


def _conv(v, flags, width, prec, conv):
    if not has_sym(v):
        spec = "%" + (flags or "") + (width or "") + (
            "." + prec if prec else "") + conv
        return spec % (v,)
    w = int(width) if width else 0
    if conv in "xX":
        if not isinstance(v, (SymInt, SymBool)):
            raise TypeError("%%%s format: an integer is required" % conv)
        if "0" in flags:
            return hex_str(v, conv == "X", w)
        r = hex_str(v, conv == "X")
        return r.rjust(w)
    if conv in "diu":
        if not isinstance(v, (SymInt, SymBool)):
            raise TypeError("%%%s format: a real number is required" % conv)
        r = dec_str(v)
        if "0" in flags:
            return r.zfill(w)
        return r.rjust(w) if "-" not in flags else r.ljust(w)
    if conv == "s":
        r = text_of(v)
        if w:
            r = r.rjust(w) if "-" not in flags else r.ljust(w)
        return r
    if conv == "c":
        return m_chr(v) if isinstance(v, SymInt) else v
    return OPAQUE


def _join(parts):
    if any(isinstance(p, Sym) for p in parts):
        return _lift("").join(parts)
    return "".join(parts)


def _fmt_one(v, conv, spec):
    if conv in ("r", "a"):
        return OPAQUE if has_sym(v) else format(
            repr(v) if conv == "r" else ascii(v), spec)
    if not has_sym(v):
        if conv == "s":
            v = str(v)
        return format(v, spec)
    if isinstance(v, (SymInt,)) and conv is None:
        m = re.match(r"^(0?)(\d*)([xXdn]?)$", spec)
        if m:
            z, w, t = m.groups()
            w = int(w) if w else 0
            if t in ("x", "X"):
                if z:
                    return hex_str(v, t == "X", w)
                return hex_str(v, t == "X").rjust(w)
            r = dec_str(v)
            return r.zfill(w) if z else r.rjust(w)
        return OPAQUE
    r = text_of(v)
    if spec and isinstance(r, SymStr):
        m = re.match(r"^([<>]?)(\d+)s?$", spec)
        if m:
            w = int(m.group(2))
            return r.rjust(w) if m.group(1) == ">" else r.ljust(w)
        return OPAQUE
    return r


def fmt_format(s, a, k):
    if not (_any_sym(a, k) or any(has_sym(getattr(x, "__dict__", None))
                                  for x in a)):
        return s.format(*a, **k)
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field = str(auto) + field
            auto += 1
        m = re.match(r"^(\w+)(.*)$", field)
        first, rest = m.groups()
        v = a[int(first)] if first.isdigit() else k[first]
        while rest:
            m = re.match(r"^\.(\w+)(.*)$", rest)
            if m:
                v = getattr(v, m.group(1))
                rest = m.group(2)
                continue
            m = re.match(r"^\[([^\]]+)\](.*)$", rest)
            i = m.group(1)
            v = sub(v, int(i) if i.isdigit() else i)
            rest = m.group(2)
        if spec and "{" in spec:
            spec = fmt_format(spec, a[auto:], k)
        out.append(_fmt_one(v, conv, spec))
    return _join(out)


def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            conv = chr(conv) if conv and conv > 0 else None
            out.append(_fmt_one(v, conv, spec))
        else:
            out.append(p)
    return _join(out)


# -- builtins --------------------------------------------------------------------


@model(isinstance, always=True)
def m_isinstance(o, t):
    if not isinstance(o, Sym):
        return isinstance(o, t)
    ts = _flat(t)
    if isinstance(o, SymByteArray):
        k = bytearray
    elif isinstance(o, SymBytes):
        k = bytes
    elif isinstance(o, SymStr):
        k = str
    elif isinstance(o, SymInt):
        k = int
    else:
        k = bool
    return any(x is object or (isinstance(x, type) and issubclass(k, x))
               for x in ts)


def _flat(t):
    if isinstance(t, tuple):
        r = []
        for x in t:
            r.extend(_flat(x))
        return r
    if isinstance(t, types.UnionType):
        return list(t.__args__)
    return [t]


@model(type, always=True)
def m_type(*a, **k):
    if len(a) == 1 and isinstance(a[0], Sym):
        return pytype(a[0])
    return type(*a, **k)


def pytype(o):
    if isinstance(o, SymByteArray):
        return bytearray
    if isinstance(o, SymBytes):
        return bytes
    if isinstance(o, SymStr):
        return str
    if isinstance(o, SymInt):
        return int
    if isinstance(o, SymBool):
        return bool
    return type(o)


def _own(o, name):
    """the method of that name if written in Python"""
    f = getattr(type(o), name, None)
    return f if type(f).__name__ == "function" and \
        not isinstance(o, Sym) and not a_class(o) else None


def a_class(o):
    return isinstance(o, type)


@model(str, always=True)
def m_str(o="", *a, **k):
    if not a and not k:
        f = _own(o, "__str__") or _own(o, "__repr__")
        if f is not None:
            return f(o)
    if isinstance(o, SymBytes) and (a or k):
        return core.decode(o, *(a or (k.get("encoding", "utf-8"),)))
    if isinstance(o, (SymStr, SymInt, SymBool)):
        return text_of(o)
    if isinstance(o, Sym):
        return OPAQUE
    return OPAQUE if has_sym(o) else str(o)


@model(ascii, format)
def m_ascii(o, *a):
    return OPAQUE


@model(repr, always=True)
def m_repr(o):
    f = _own(o, "__repr__")
    if f is not None:
        return f(o)
    return OPAQUE if has_sym(o) else repr(o)


@model(bytes, always=True)
def m_bytes(o=b"", *a, **k):
    if _is_gen(o):
        o = list(o)
    if not has_sym(o):
        return bytes(o, *a, **k)
    if isinstance(o, SymStr):
        if not a and not k:
            raise TypeError("string argument without an encoding")
        return core.encode(o, *(a or (k.get("encoding"),)))
    if isinstance(o, SymBytes):
        return mkbytes(o.items)
    if isinstance(o, SymInt):
        n = o.__index__()
        return bytes(n)
    return mkbytes([byte_item(x) for x in o])


@model(bytearray, always=True)
def m_bytearray(o=b"", *a, **k):
    if isinstance(o, (str, SymStr)):
        if not a and not k:
            raise TypeError("string argument without an encoding")
        return SymByteArray(SymBytes.coerce(
            core.encode(o, *(a or (k.get("encoding"),)))))
    if isinstance(o, (bytes, SymBytes, bytearray, memoryview)):
        return SymByteArray(SymBytes.coerce(o))
    if isinstance(o, (int, SymInt)):
        return SymByteArray([0] * core._ix(o))
    return SymByteArray([byte_item(x) for x in o])


@model(memoryview)
def m_memoryview(o):
    return o


@model(int)
def m_int(o=0, *a, **k):
    base = a[0] if a else k.get("base")
    if base is None:
        if isinstance(o, SymInt):
            return o
        if isinstance(o, SymBool):
            return o.as_int()
        base = 10
    if isinstance(o, SymBytes):
        b, o = o, core.decode(o, "latin-1")
        if isinstance(o, SymStr):
            _hexprov(b.items, o.items)
    if isinstance(o, SymStr):
        return parse_int(o, core._ix(base))
    return int(o, core._ix(base))


def parse_int(s, base):
    s = s.strip()
    if isinstance(s, str):
        return int(s, base)
    items = list(s.items)
    neg = False

    def is_ch(x, c):
        r = core.eq_item(x, ord(c), CW)
        return r if isinstance(r, bool) else core.CTX.branch(r)
    if is_ch(items[0], "-"):
        neg = True
        items = items[1:]
    elif is_ch(items[0], "+"):
        items = items[1:]
    if base == 16 and len(items) > 2:
        c0, c1, c2 = [core.eq_item(i, ord(c), CW) for i, c in (
            (items[0], "0"), (items[1], "x"), (items[1], "X"))]
        if c0 is not False and not (c1 is False and c2 is False):
            c0, c1, c2 = [z3.BoolVal(c) if isinstance(c, bool) else c
                          for c in (c0, c1, c2)]
            if core.CTX.branch(z3.And(c0, z3.Or(c1, c2))):
                items = items[2:]
    if not items:
        raise ValueError("invalid literal for int()")
    r = 0
    nib = core.CTX.path_store.get("hexprov", {})
    bits = []
    lastd = False
    for pos, x in enumerate(items):
        if not isinstance(x, int) and base == 16 and x.get_id() in nib:
            d = mkint(nib[x.get_id()][1], 0, 15)
        else:
            if isinstance(x, int):
                if x == 95 and lastd and pos + 1 < len(items):
                    lastd = False
                    continue
                try:
                    d = int(chr(x), base)
                except ValueError:
                    raise ValueError("invalid literal for int()")
            else:
                if core.in_set(x, frozenset(range(48, 48 + min(base, 10))),
                               CW):
                    d = mkint(x - 48, 0, min(base, 10) - 1)
                elif base > 10 and core.in_set(
                        x, frozenset(range(97, 97 + base - 10)), CW):
                    d = mkint(x - 87, 10, base - 1)
                elif base > 10 and core.in_set(
                        x, frozenset(range(65, 65 + base - 10)), CW):
                    d = mkint(x - 55, 10, base - 1)
                elif lastd and pos + 1 < len(items) and core.in_set(
                        x, frozenset([95]), CW):
                    lastd = False
                    continue
                else:
                    if not core.ascii_only(x, CW) and core.CTX.branch(
                            z3.UGE(x, 128)):
                        raise PathLimit("int() of non-ASCII text")
                    raise ValueError("invalid literal for int()")
        lastd = True
        if base == 16:
            bits.append(d)
        else:
            r = r * base + d
    if base == 16:
        parts = [z3.BitVecVal(d, 4) if isinstance(d, int) else
                 _fit(d.e, 4, False) for d in bits]
        e = z3.Concat(*parts) if len(parts) > 1 else parts[0]
        r = mkint(simp(e), 0, (1 << (4 * len(parts))) - 1)
    return -r if neg else r


@model(bool, always=True)
def m_bool(o=False):
    return o if isinstance(o, SymBool) else bool(o)


@model(hash)
def m_hash(o):
    return hash(o)


@model(hex)
def m_hex(o):
    def text():
        if o < 0:
            return "-0x" + hex_str(-o)
        return "0x" + hex_str(o)
    if not hasattr(o, "__index__"):
        raise TypeError("'%s' object cannot be interpreted as an integer"
                        % typename(o))
    return LazyStr(text)


@model(ord)
def m_ord(o):
    if isinstance(o, SymSeq) and len(o) == 1:
        x = o.items[0]
        if isinstance(x, int):
            return x
        return mkint(x, 0, 255 if isinstance(o, SymBytes) else 0x10ffff)
    raise TypeError("ord() expected a character")


@model(chr)
def m_chr(o):
    if or_(o < 0, o > 0x10ffff):
        raise ValueError("chr() arg not in range(0x110000)")
    e = simp(_fit(o.e, CW, False))
    if o.e.size() <= 8:
        p = core.CTX.prov.get(o.e.get_id())
        d = core.CTX.domain(o.e)
        if d is not None:
            core.CTX.set_domain(e, d)
        if p is not None:
            core.CTX.prov[e.get_id()] = (e, p[1])
        core.CTX.keep.append(e)
    return mkstr([e])


@model(map, always=True)
def m_map(f, *its):
    return (call(f, *x) for x in zip(*its))


@model(filter, always=True)
def m_filter(f, it):
    return (x for x in it if (call(f, x) if f is not None else x))


@model(functools.reduce, always=True)
def m_reduce(f, it, *init):
    it = iter(it)
    r = init[0] if init else next(it)
    for x in it:
        r = call(f, r, x)
    return r


@model(range)
def m_range(*a):
    return range(*[core._ix(x) for x in a])


@model(len)
def m_len(o):
    return len(o)


@model(math.ceil, math.floor)
def m_ceil(x):
    if isinstance(x, SymInt):
        return x
    return math.ceil(x)


@model(operator.index)
def m_index(x):
    return x


def m_frombytes(b, byteorder="big", signed=False):
    if isinstance(b, (list, tuple)) or _is_gen(b):
        b = m_bytes(list(b))
    if not isinstance(b, SymBytes):
        return int.from_bytes(b, byteorder, signed=signed)
    it = b.items if byteorder == "big" else b.items[::-1]
    e = concat_items(it)
    n = 8 * len(it)
    if signed:
        return mkint(e, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return mkint(e, 0, (1 << n) - 1)


def m_fromhex(s):
    return m_unhexlify(s)


CLASSMETHODS = {(int, "from_bytes"): m_frombytes,
                (bytes, "fromhex"): m_fromhex}


# -- stdlib ----------------------------------------------------------------------


def _to_bytes_items(b, what="argument"):
    if isinstance(b, SymStr):
        out = []
        for x in b.items:
            if not core._lt(x, 128):
                raise ValueError("string argument should contain only ASCII "
                                 "characters")
            out.append(core.to_byte(x))
        return out
    it = SymBytes.coerce(b)
    if it is None:
        raise TypeError("%s should be a bytes-like object or ASCII string" %
                        what)
    return list(it)


def _need_bytes(b):
    it = SymBytes.coerce(b)
    if it is None:
        raise TypeError("a bytes-like object is required, not '%s'" %
                        typename(b))
    return list(it)


def enc64(v6, std=False):
    """6-bit vector (or int) -> base64 char item"""
    alpha = core.B64ALPHA if not std else core.B64ALPHA[:62] + b"+/"
    if isinstance(v6, int):
        return alpha[v6]
    v6 = simp(v6)
    if z3.is_bv_value(v6):
        return alpha[v6.as_long()]
    c = core.CTX
    memo = c.path_store.setdefault("enc64", {})
    key = (v6.get_id(), std)
    hit = memo.get(key)
    if hit is not None:
        return hit[1]
    x = z3.ZeroExt(2, v6)
    e = z3.If(z3.ULT(x, 26), x + 65,
              z3.If(z3.ULT(x, 52), x + 71,
                    z3.If(z3.ULT(x, 62), x - 4,
                          z3.If(x == 62, z3.BitVecVal(alpha[62], 8),
                                z3.BitVecVal(alpha[63], 8)))))
    v = c.fresh("b64", 8)
    c.define(v, e)
    e = v
    c.keep.append(e)
    c.set_domain(e, frozenset(alpha))
    if not std:
        c.prov[e.get_id()] = (e, v6)
    else:
        c.path_store.setdefault("prov64std", {})[e.get_id()] = (e, v6)
    memo[key] = (v6, e)
    return e


def b64_encode_items(items, std=False):
    out = []
    for i in range(0, len(items), 3):
        g = items[i:i + 3]
        n = len(g)
        if all(type(x) is int for x in g):
            out.extend((base64.b64encode if std else
                        base64.urlsafe_b64encode)(bytes(g)))
            continue
        e = concat_items(list(g) + [0] * (3 - n))
        vals = [z3.Extract(23 - 6 * j, 18 - 6 * j, e) for j in range(4)]
        for j in range(4):
            if j <= n:
                out.append(enc64(vals[j], std))
            else:
                out.append(61)
    return mkbytes(out)


@model(base64.urlsafe_b64encode)
def m_ub64e(b):
    return b64_encode_items(_need_bytes(b))


@model(base64.b64encode, base64.standard_b64encode)
def m_b64e(b, altchars=None):
    r = b64_encode_items(_need_bytes(b), True)
    if altchars == b"-_":
        return b64_encode_items(_need_bytes(b))
    if altchars is not None:
        raise PathLimit("b64encode altchars")
    return r


@model(binascii.b2a_base64)
def m_b2a64(b, newline=True):
    r = b64_encode_items(_need_bytes(b), True)
    return r + b"\n" if newline else r


def dec64(x, urlsafe):
    """char item -> ('v', value6) | ('=',) | ('x',) (forks)"""
    std = {}
    for i, ch in enumerate(core.B64ALPHA[:62]):
        std[ch] = i
    std[ord("+")] = 62
    std[ord("/")] = 63
    if urlsafe:            # after translate(-_ -> +/): all four accepted
        std[ord("-")] = 62
        std[ord("_")] = 63
    if isinstance(x, int):
        if x == 61:
            return ("=",)
        if x in std:
            return ("v", z3.BitVecVal(std[x], 6))
        return ("x",)
    c = core.CTX
    p = c.prov.get(x.get_id())
    if p is not None and urlsafe:
        return ("v", p[1])
    p2 = c.path_store.get("prov64std", {}).get(x.get_id())
    if p2 is not None:
        return ("v", p2[1])
    if core.in_set(x, frozenset(std), 8):
        d = c.domain(x)
        W = x.size()

        def isin(lo, hi):
            return z3.And(z3.UGE(x, lo), z3.ULE(x, hi))
        v = z3.If(isin(65, 90), x - 65,
                  z3.If(isin(97, 122), x - 71,
                        z3.If(isin(48, 57), x + 4,
                              z3.If(z3.Or(x == 43, x == 45),
                                    z3.BitVecVal(62, W),
                                    z3.BitVecVal(63, W)))))
        return ("v", simp(z3.Extract(5, 0, v)))
    if core.in_set(x, frozenset([61]), 8):
        return ("=",)
    return ("x",)


def a2b_base64(items, urlsafe=False, strict=False):
    """CPython's binascii.a2b_base64 (non-strict)"""
    quad = []
    out = []
    pads = 0
    nchars = 0
    for x in items:
        r = dec64(x, urlsafe)
        if r[0] == "=":
            qp = len(quad) % 4
            if qp >= 2:
                pads += 1
                if qp + pads >= 4:
                    return _quads(quad)
            continue
        if r[0] == "x":
            continue
        pads = 0
        quad.append(r[1])
    qp = len(quad) % 4
    if qp == 1:
        raise binascii.Error("Invalid base64-encoded string: number of data "
                             "characters cannot be 1 more than a multiple "
                             "of 4")
    if qp:
        raise binascii.Error("Incorrect padding")
    return _quads(quad)


def _quads(quad):
    if not quad:
        return b""
    n = len(quad) * 6 // 8
    out = []
    for i in range(0, len(quad), 4):
        g = quad[i:i + 4]
        e = simp(z3.Concat(*g)) if len(g) > 1 else g[0]
        k = len(g) * 6 // 8
        w = e.size()
        for j in range(k):
            b = simp(z3.Extract(w - 8 * j - 1, w - 8 * j - 8, e))
            out.append(b.as_long() if z3.is_bv_value(b) else b)
    return mkbytes(out[:n])


@model(base64.urlsafe_b64decode)
def m_ub64d(s):
    return a2b_base64(_to_bytes_items(s), True)


@model(base64.b64decode)
def m_b64d(s, altchars=None, validate=False):
    items = _to_bytes_items(s)
    if altchars not in (None, b"-_"):
        raise PathLimit("b64decode altchars")
    if validate:
        raise PathLimit("b64decode validate")
    return a2b_base64(items, altchars is not None)


@model(base64.standard_b64decode, binascii.a2b_base64)
def m_a2b64(s, *a, **k):
    return a2b_base64(_to_bytes_items(s))


@model(binascii.hexlify, binascii.b2a_hex)
def m_hexlify(b, *a):
    s = SymBytes(_need_bytes(b)).hex(*a)
    r = core.encode(s, "ascii")
    if isinstance(r, SymBytes):
        _hexprov(s.items, r.items)
    return r


def _hexprov(old, new):
    """the same digits as other items"""
    nib = core.CTX.path_store.setdefault("hexprov", {})
    if len(old) != len(new):
        return
    for x, y in zip(old, new):
        if not isinstance(x, int) and not isinstance(y, int) and \
                x.get_id() in nib:
            nib[y.get_id()] = (y, nib[x.get_id()][1])


@model(binascii.unhexlify, binascii.a2b_hex)
def m_unhexlify(s):
    items = [core.to_char(x) if isinstance(s, SymBytes) else x
             for x in s.items]
    if len(items) % 2:
        raise binascii.Error("Odd-length string")
    nib = core.CTX.path_store.get("hexprov", {})
    out = []
    for i in range(0, len(items), 2):
        p = []
        for x in items[i:i + 2]:
            if not isinstance(x, int) and x.get_id() in nib:
                p.append(nib[x.get_id()][1])
                continue
            try:
                d = parse_int(SymStr([x]), 16) if not isinstance(x, int) \
                    else int(chr(x), 16)
            except ValueError:
                raise binascii.Error("Non-hexadecimal digit found")
            p.append(z3.BitVecVal(d, 4) if isinstance(d, int) else
                     _fit(d.e, 4, False))
        e = simp(z3.Concat(*p))
        out.append(e.as_long() if z3.is_bv_value(e) else e)
    return mkbytes(out)


_SZ = {"B": 1, "b": 1, "H": 2, "h": 2, "I": 4, "i": 4, "L": 4, "l": 4,
       "Q": 8, "q": 8}


def _parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if isinstance(fmt, SymStr):
        fmt = concretize(fmt, "struct format")
    order = "@"
    i = 0
    if fmt and fmt[0] in "@=<>!":
        order = fmt[0]
        i = 1
    toks = []
    for m in re.finditer(r"\s*(\d*)([a-zA-Z?])", fmt[i:]):
        toks.append((int(m.group(1)) if m.group(1) else None, m.group(2)))
    big = order in ">!"
    if order == "@" and any(t[1] in "lLqQhHiI" for t in toks):
        if len(toks) > 1 or toks[0][1] in "lL":
            raise PathLimit("native struct alignment")
    for t in toks:
        if t[1] not in _SZ and t[1] not in "sx":
            raise PathLimit("struct format " + fmt)
    return big, toks


@model(struct.pack)
def m_pack(fmt, *a):
    big, toks = _parse_fmt(fmt)
    out = []
    ai = 0
    for n, t in toks:
        if t == "x":
            out.extend([0] * (1 if n is None else n))
            continue
        if t == "s":
            n = 1 if n is None else n
            it = list(_need_bytes(a[ai]))[:n]
            ai += 1
            out.extend(it + [0] * (n - len(it)))
            continue
        for _ in range(1 if n is None else n):
            if ai >= len(a):
                raise struct.error("pack expected more items")
            v = a[ai]
            ai += 1
            sz = _SZ[t]
            if isinstance(v, SymBool):
                v = v.as_int()
            if not isinstance(v, (int, SymInt)):
                raise struct.error("required argument is not an integer")
            lo, hi = (0, (1 << 8 * sz) - 1) if t.isupper() else (
                -(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1)
            if or_(v < lo, v > hi):
                raise struct.error("argument out of range")
            if isinstance(v, int):
                its = list((v & ((1 << 8 * sz) - 1)).to_bytes(sz, "big"))
            else:
                its = split_bv(_fit(v.e, 8 * sz, v.lo < 0))
            out.extend(its if big else its[::-1])
    if ai != len(a):
        raise struct.error("pack expected %d items" % ai)
    return mkbytes(out)


@model(struct.unpack)
def m_unpack(fmt, data):
    big, toks = _parse_fmt(fmt)
    it = _need_bytes(data)
    size = sum((_SZ.get(t, 1)) * (1 if n is None else n) for n, t in toks)
    if len(it) != size:
        raise struct.error("unpack requires a buffer of %d bytes" % size)
    out = []
    p = 0
    for n, t in toks:
        c = 1 if n is None else n
        if t == "x":
            p += c
            continue
        if t == "s":
            out.append(mkbytes(it[p:p + c]))
            p += c
            continue
        for _ in range(c):
            sz = _SZ[t]
            b = it[p:p + sz]
            p += sz
            if not big:
                b = b[::-1]
            if all(isinstance(x, int) for x in b):
                out.append(int.from_bytes(bytes(b), "big",
                                          signed=t.islower()))
            else:
                e = concat_items(b)
                if t.isupper():
                    out.append(mkint(e, 0, (1 << 8 * sz) - 1))
                else:
                    out.append(mkint(e, -(1 << (8 * sz - 1)),
                                     (1 << (8 * sz - 1)) - 1))
    return tuple(out)


@model(struct.unpack_from)
def m_unpack_from(fmt, data, offset=0):
    n = struct.calcsize(fmt)
    return m_unpack(fmt, mkbytes(_need_bytes(data)[offset:offset + n]))


@model(_hmac.compare_digest)
def m_compare_digest(a, b):
    sa, sb = isinstance(a, (str, SymStr)), isinstance(b, (str, SymStr))
    if sa != sb:
        raise TypeError("unsupported operand types")
    return a == b


try:
    import secrets
    MODELS[id(secrets.compare_digest)] = MODELS[id(_hmac.compare_digest)]
except ImportError:
    pass


@model(zlib.compress)
def m_compress(data, *a, **k):
    z = core.CTX.path_store.setdefault("zlib", [])
    it = tuple(_need_bytes(data))
    for src, out in z:
        if len(src) == len(it) and all(
                (x is y) or (isinstance(x, int) and x == y) or
                (not isinstance(x, int) and not isinstance(y, int) and
                 x.eq(y)) for x, y in zip(src, it)):
            return out
    n = len(it) + 11
    out = SymBytes([core.CTX.fresh("deflate%d_%d" % (len(z), i), 8)
                    for i in range(n)])
    z.append((it, out))
    return out


@model(zlib.decompress)
def m_decompress(data, *a, **k):
    z = core.CTX.path_store.setdefault("zlib", [])
    for src, out in z:
        if len(out) == len(data) and (out == data):
            return mkbytes(src)
    core.CTX.note_incomplete("zlib.decompress of arbitrary data taken as "
                             "failing")
    raise zlib.error("invalid data")


@model(re.match)
def m_rematch(p, s, flags=0):
    from . import rex
    return rex.pattern_method(re.compile(p, flags), "match", (s,), {})


@model(re.fullmatch)
def m_refull(p, s, flags=0):
    from . import rex
    return rex.pattern_method(re.compile(p, flags), "fullmatch", (s,), {})


@model(re.search)
def m_research(p, s, flags=0):
    from . import rex
    return rex.pattern_method(re.compile(p, flags), "search", (s,), {})


for _n in LOGFUNCS:
    if hasattr(logging, _n):
        MODELS[id(getattr(logging, _n))] = (
            getattr(logging, _n), lambda *a, **k: None, False)


class LruCache(object):
    """functools.lru_cache / cache for instrumented functions: per path, keyed
    by symbolic equality."""

    def __init__(self, f):
        self.f = f
        functools.update_wrapper(self, f)

    def __call__(self, *a, **k):
        st = core.CTX.path_store.setdefault("lru", {}) if core.CTX else {}
        lst = st.setdefault(id(self), [])
        key = (a, tuple(sorted(k.items())))
        for kk, v in lst:
            if len(kk[0]) == len(a) and bool(core.deep_eq(kk, key)):
                return v
        v = self.f(*a, **k)
        lst.append((key, v))
        return v

    def cache_clear(self):
        if core.CTX:
            core.CTX.path_store.setdefault("lru", {}).pop(id(self), None)

    def __get__(self, obj, tp=None):
        if obj is None:
            return self
        return functools.partial(self, obj)


def m_lru(maxsize=128, typed=False):
    if callable(maxsize):
        return LruCache(maxsize)
    return LruCache


MODELS[id(functools.lru_cache)] = (functools.lru_cache, m_lru, False)
if hasattr(functools, "cache"):
    MODELS[id(functools.cache)] = (functools.cache, LruCache, False)


# -- the __sx__ object ---------------------------------------------------------------


class SX(object):
    """What instrumented code sees as __sx__."""
    call = staticmethod(call)
    mod = staticmethod(mod)
    in_ = staticmethod(in_)
    notin = staticmethod(notin)
    is_ = staticmethod(is_)
    isnot = staticmethod(isnot)
    sub = staticmethod(sub)
    store = staticmethod(store)
    fstr = staticmethod(fstr)

    @staticmethod
    def enter(name):
        c = core.CTX
        if c is not None:
            c.functions[name] = c.functions.get(name, 0) + 1
            c.tick()

    @staticmethod
    def tick():
        c = core.CTX
        if c is not None:
            c.tick()

    @staticmethod
    def deco(d):
        m = MODELS.get(id(d))
        return m[1] if m is not None and not m[2] else d

    PURE = {}

    @staticmethod
    def pure(raw, inst, name):
        cache = {}
        SX.PURE[name] = cache

        @functools.wraps(inst)
        def wrapper(*a, **k):
            if core.CTX is None:
                return raw(*a, **k)
            if not k and not has_sym(a):
                a2 = a
                try:
                    a2 = (a, tuple(map(type, a)))
                    hit = cache.get(a2)
                except TypeError:
                    return inst(*a)
                core.CTX.functions[name] = core.CTX.functions.get(name,
                                                                  0) + 1
                if hit is None:
                    if len(cache) > 200000:
                        cache.clear()
                    hit = (raw(*a),)
                    r = hit[0]
                    if not isinstance(r, (list, dict, set)):
                        cache[a2] = hit
                return hit[0]
            return inst(*a, **k)
        return wrapper
