"""json.dumps / json.loads on values holding symbolic data (CPython 3.12
semantics: json.encoder / json.decoder / json.scanner)."""
import json

from . import core
from .core import (Sym, SymBool, SymBytes, SymInt, SymStr, PathLimit, has_sym,
                   in_set_c, mkbool, mkstr, or_, and_)
from .models import MODELS, dec_str, hex_str, store, parse_int, _foreign

CW = core.CW
SAFE = frozenset(range(0x20, 0x7f)) - {0x22, 0x5c}
SAFE_U = None
ESC = {0x5c: "\\\\", 0x22: '\\"', 8: "\\b", 12: "\\f", 10: "\\n",
       13: "\\r", 9: "\\t"}


def is_in(x, s):
    """x (int or code point vector) in a set of ints -> branch"""
    if isinstance(x, int):
        return x in s
    r = in_set_c(x, frozenset(s), CW)
    return bool(r)


def is_ch(x, c):
    if isinstance(x, int):
        return x == c
    return is_in(x, {c})


class Enc(object):
    def __init__(self, skipkeys=False, ensure_ascii=True, check_circular=True,
                 allow_nan=True, cls=None, indent=None, separators=None,
                 default=None, sort_keys=False):
        if cls is not None or skipkeys:
            raise PathLimit("json encoder options")
        self.ascii = ensure_ascii
        self.sort = sort_keys
        self.default = default
        self.indent = " " * indent if isinstance(indent, int) else indent
        if separators is not None:
            self.isep, self.ksep = separators
        elif indent is not None:
            self.isep, self.ksep = ",", ": "
        else:
            self.isep, self.ksep = ", ", ": "

    def string(self, s, out):
        out.append(0x22)
        for x in SymStr.coerce(s):
            if isinstance(x, int):
                if x in SAFE or (not self.ascii and x >= 0x20 and
                                 x not in ESC):
                    out.append(x)
                    continue
            elif is_in(x, SAFE):
                out.append(x)
                continue
            for c, r in ESC.items():
                if is_ch(x, c):
                    out.extend(ord(i) for i in r)
                    break
            else:
                v = core.mkint(x, 0, 0x10ffff) if not isinstance(x, int) \
                    else x
                if not self.ascii and v >= 0x20:
                    out.append(x)
                elif v < 0x10000:
                    self._u(v, out)
                else:
                    w = v - 0x10000
                    self._u(0xd800 + ((w >> 10) & 0x3ff), out)
                    self._u(0xdc00 + (w & 0x3ff), out)
        out.append(0x22)

    def _u(self, v, out):
        out.extend((0x5c, 0x75))
        if isinstance(v, int):
            out.extend(ord(c) for c in "%04x" % v)
            return
        for k in (12, 8, 4, 0):
            n = (v >> k) & 15
            if isinstance(n, int):
                out.append(ord("%x" % n))
            else:
                h = hex_str(n)
                out.extend(SymStr.coerce(h))

    def value(self, o, out, lvl):
        if isinstance(o, (str, SymStr)):
            self.string(o, out)
        elif o is None or o is True or o is False:
            out.extend(ord(c) for c in {None: "null", True: "true",
                                        False: "false"}[o])
        elif isinstance(o, SymBool):
            out.extend(ord(c) for c in ("true" if o else "false"))
        elif isinstance(o, SymInt):
            out.extend(SymStr.coerce(dec_str(o)))
        elif isinstance(o, core.SymFloat):
            raise PathLimit("writing a symbolic float")
        elif isinstance(o, (int, float)):
            out.extend(ord(c) for c in json.dumps(o))
        elif isinstance(o, (list, tuple)):
            self.seq(o, out, lvl)
        elif isinstance(o, dict):
            self.map(o, out, lvl)
        elif self.default is not None:
            self.value(self.default(o), out, lvl)
        else:
            raise TypeError("Object of type %s is not JSON serializable" %
                            core.typename(o))

    def txt(self, s, out):
        out.extend(SymStr.coerce(s))

    def nl(self, lvl, out):
        if self.indent is not None:
            self.txt("\n" + self.indent * lvl, out)

    def seq(self, o, out, lvl):
        if lvl > 200:
            raise ValueError("Circular reference detected")
        if not o:
            return self.txt("[]", out)
        out.append(0x5b)
        for i, v in enumerate(o):
            if i:
                self.txt(self.isep, out)
            self.nl(lvl + 1, out)
            self.value(v, out, lvl + 1)
        self.nl(lvl, out)
        out.append(0x5d)

    def map(self, o, out, lvl):
        if lvl > 200:
            raise ValueError("Circular reference detected")
        if not o:
            return self.txt("{}", out)
        out.append(0x7b)
        items = list(o.items())
        if self.sort:
            items = sorted(items)
        for i, (k, v) in enumerate(items):
            if i:
                self.txt(self.isep, out)
            self.nl(lvl + 1, out)
            if isinstance(k, (str, SymStr)):
                self.string(k, out)
            elif isinstance(k, (bool, int, float, SymInt, SymBool)) or \
                    k is None:
                out.append(0x22)
                self.value(k, out, lvl)
                out.append(0x22)
            else:
                raise TypeError("keys must be str, int, float, bool or None, "
                                "not %s" % core.typename(k))
            self.txt(self.ksep, out)
            self.value(v, out, lvl + 1)
        self.nl(lvl, out)
        out.append(0x7d)


def m_dumps(obj, **kw):
    if not _deep_sym(obj):
        return json.dumps(obj, **kw)
    out = []
    Enc(**kw).value(obj, out, 0)
    return mkstr(out)


def _deep_sym(o, d=40):
    if isinstance(o, Sym):
        return True
    if d and isinstance(o, (list, tuple)):
        return any(_deep_sym(i, d - 1) for i in o)
    if d and isinstance(o, dict):
        return any(_deep_sym(k, d - 1) or _deep_sym(v, d - 1)
                   for k, v in o.items())
    return False


# -- loads -------------------------------------------------------------------

WS = frozenset((0x20, 9, 10, 13))
DIG = frozenset(range(0x30, 0x3a))
DIG19 = frozenset(range(0x31, 0x3a))
HEX = frozenset(b"0123456789abcdefABCDEF")
BACK = {0x22: 0x22, 0x5c: 0x5c, 0x2f: 0x2f, 0x62: 8, 0x66: 12, 0x6e: 10,
        0x72: 13, 0x74: 9}


def err(msg="Expecting value"):
    return json.JSONDecodeError(msg, "", 0)


class Dec(object):
    def __init__(self, items, object_hook=None, object_pairs_hook=None,
                 parse_float=None, parse_int=None, parse_constant=None,
                 strict=True):
        self.s = items
        self.n = len(items)
        self.oh, self.oph = object_hook, object_pairs_hook
        self.pf, self.pi, self.pc = parse_float, parse_int, parse_constant
        self.strict = strict

    def ws(self, i):
        while i < self.n and is_in(self.s[i], WS):
            i += 1
        return i

    def lit(self, i, w):
        if i + len(w) > self.n:
            return False
        for k, c in enumerate(w):
            if not is_ch(self.s[i + k], ord(c)):
                return False
        return True

    def value(self, i, depth):
        core.CTX.tick()
        if depth > 500:
            raise RecursionError("maximum recursion depth exceeded")
        if i >= self.n:
            raise err()
        x = self.s[i]
        if is_ch(x, 0x22):
            return self.string(i + 1)
        if is_ch(x, 0x7b):
            return self.obj(i + 1, depth)
        if is_ch(x, 0x5b):
            return self.arr(i + 1, depth)
        if is_ch(x, 0x6e) and self.lit(i, "null"):
            return None, i + 4
        if is_ch(x, 0x74) and self.lit(i, "true"):
            return True, i + 4
        if is_ch(x, 0x66) and self.lit(i, "false"):
            return False, i + 5
        if is_in(x, DIG) or is_ch(x, 0x2d):
            r = self.number(i)
            if r is not None:
                return r
        for w, v in (("NaN", "nan"), ("Infinity", "inf"),
                     ("-Infinity", "-inf")):
            if self.lit(i, w):
                return (self.pc(w) if self.pc else float(v)), i + len(w)
        raise err()

    def number(self, i):
        s, n = self.s, self.n
        j = i
        if is_ch(s[j], 0x2d):
            j += 1
            if j >= n:
                return None
        if is_ch(s[j], 0x30):
            j += 1
        elif is_in(s[j], DIG19):
            j += 1
            while j < n and is_in(s[j], DIG):
                j += 1
        else:
            return None
        end_int = j
        isf = False
        if j + 1 < n and is_ch(s[j], 0x2e) and is_in(s[j + 1], DIG):
            isf = True
            j += 2
            while j < n and is_in(s[j], DIG):
                j += 1
        if j + 1 < n and is_in(s[j], {0x65, 0x45}):
            k = j + 1
            if k < n - 1 and is_in(s[k], {0x2b, 0x2d}):
                k += 1
            if k < n and is_in(s[k], DIG):
                isf = True
                j = k + 1
                while j < n and is_in(s[j], DIG):
                    j += 1
        t = mkstr(s[i:j])
        if isf:
            if isinstance(t, Sym):
                if self.pf is not None:
                    raise PathLimit("parse_float")
                return core.SymFloat(t), j
            return (self.pf or float)(t), j
        if isinstance(t, Sym):
            return (self.pi(t) if self.pi else parse_int(t, 10)), end_int
        return (self.pi or int)(t), end_int

    def hex4(self, i):
        if i + 4 > self.n:
            raise err("Invalid \\uXXXX escape")
        for k in range(4):
            if not is_in(self.s[i + k], HEX):
                raise err("Invalid \\uXXXX escape")
        t = mkstr(self.s[i:i + 4])
        if isinstance(t, str):
            return int(t, 16)
        return parse_int(t, 16)

    def string(self, i):
        s, n = self.s, self.n
        out = []
        while True:
            if i >= n:
                raise err("Unterminated string")
            x = s[i]
            if not isinstance(x, int):
                # the common case first
                if is_in(x, SAFE):
                    out.append(x)
                    i += 1
                    continue
            if is_ch(x, 0x22):
                return mkstr(out), i + 1
            if not is_ch(x, 0x5c):
                if self.strict and is_in(x, range(0x20)):
                    raise err("Invalid control character at")
                out.append(x)
                i += 1
                continue
            i += 1
            if i >= n:
                raise err("Unterminated string")
            x = s[i]
            if not is_ch(x, 0x75):
                for c, v in BACK.items():
                    if is_ch(x, c):
                        out.append(v)
                        break
                else:
                    raise err("Invalid \\escape")
                i += 1
                continue
            u = self.hex4(i + 1)
            i += 5
            if and_(u >= 0xd800, u <= 0xdbff):
                if i + 1 < n and is_ch(s[i], 0x5c) and is_ch(s[i + 1], 0x75):
                    # the C scanner peeks: not 4 hex digits => error
                    u2 = self.hex4(i + 2)
                    if and_(u2 >= 0xdc00, u2 <= 0xdfff):
                        u = 0x10000 + (((u - 0xd800) << 10) | (u2 - 0xdc00))
                        i += 6
            if isinstance(u, SymInt):
                out.append(core.simp(core._fit(u.e, CW, False)))
            else:
                out.append(u)

    def arr(self, i, depth):
        vals = []
        i = self.ws(i)
        if i < self.n and is_ch(self.s[i], 0x5d):
            return vals, i + 1
        while True:
            v, i = self.value(i, depth + 1)
            vals.append(v)
            i = self.ws(i)
            if i >= self.n:
                raise err("Expecting ',' delimiter")
            if is_ch(self.s[i], 0x5d):
                return vals, i + 1
            if not is_ch(self.s[i], 0x2c):
                raise err("Expecting ',' delimiter")
            i = self.ws(i + 1)

    def obj(self, i, depth):
        pairs = []
        i = self.ws(i)
        if i < self.n and is_ch(self.s[i], 0x7d):
            return self.fin(pairs), i + 1
        while True:
            if i >= self.n or not is_ch(self.s[i], 0x22):
                raise err("Expecting property name enclosed in double quotes")
            k, i = self.string(i + 1)
            i = self.ws(i)
            if i >= self.n or not is_ch(self.s[i], 0x3a):
                raise err("Expecting ':' delimiter")
            i = self.ws(i + 1)
            v, i = self.value(i, depth + 1)
            pairs.append((k, v))
            i = self.ws(i)
            if i >= self.n:
                raise err("Expecting ',' delimiter")
            if is_ch(self.s[i], 0x7d):
                return self.fin(pairs), i + 1
            if not is_ch(self.s[i], 0x2c):
                raise err("Expecting ',' delimiter")
            i = self.ws(i + 1)

    def fin(self, pairs):
        if self.oph:
            return self.oph(pairs)
        d = {}
        for k, v in pairs:
            store(v, d, k)
        return self.oh(d) if self.oh else d


def m_loads(s, cls=None, **kw):
    if cls is not None:
        raise PathLimit("json decoder class")
    if isinstance(s, SymBytes):
        s = s.decode(_detect(s), "surrogatepass")
        if not isinstance(s, Sym):
            return json.loads(s, **kw)
    elif not isinstance(s, SymStr):
        if isinstance(s, Sym):
            raise TypeError("the JSON object must be str, bytes or "
                            "bytearray, not %s" % core.typename(s))
        return json.loads(s, **kw)
    d = Dec(list(s.items if hasattr(s, "items") else s), **kw)
    if d.n and is_ch(d.s[0], 0xfeff):
        raise err("Unexpected UTF-8 BOM (decode using utf-8-sig)")
    i = d.ws(0)
    v, i = d.value(i, 0)
    i = d.ws(i)
    if i != d.n:
        raise err("Extra data")
    return v


def _detect(b):
    z = list(SymBytes.coerce(b))

    def at(i, c):
        x = z[i]
        if isinstance(x, int):
            return x == c
        return bool(in_set_c(x, frozenset((c,)), 8))
    n = len(z)
    if n >= 4 and at(0, 0) and at(1, 0) and at(2, 0xfe) and at(3, 0xff):
        return "utf-32"
    if n >= 2 and at(0, 0xfe) and at(1, 0xff):
        return "utf-16"
    if n >= 2 and at(0, 0xff) and at(1, 0xfe):
        return "utf-16"
    if n >= 3 and at(0, 0xef) and at(1, 0xbb) and at(2, 0xbf):
        return "utf-8-sig"
    if n >= 4:
        if at(0, 0):
            return "utf-16-be" if not at(1, 0) else "utf-32-be"
        if at(1, 0):
            return "utf-16-le" if (not at(2, 0) or not at(3, 0)) \
                else "utf-32-le"
    elif n == 2:
        if at(0, 0):
            return "utf-16-be"
        if at(1, 0):
            return "utf-16-le"
    return "utf-8"


MODELS[id(json.dumps)] = (json.dumps, m_dumps, False)
MODELS[id(json.loads)] = (json.loads, m_loads, True)
