"""Regular expressions over symbolic text: the match condition as a formula."""
import re
import z3
from . import core
from .core import SymBytes, SymStr, CW, in_set_c, mkbool, not_, and_, or_

try:
    from re import _parser as sre_parse, _constants as K
except ImportError:
    import sre_parse
    import sre_constants as K


class Unsupported(Exception):
    pass


CATS = {
    K.CATEGORY_DIGIT: (frozenset(range(48, 58)), False),
    K.CATEGORY_NOT_DIGIT: (frozenset(range(48, 58)), True),
    K.CATEGORY_SPACE: (frozenset(b" \t\n\r\x0b\x0c"), False),
    K.CATEGORY_NOT_SPACE: (frozenset(b" \t\n\r\x0b\x0c"), True),
    K.CATEGORY_WORD: (frozenset(
        b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"),
        False),
    K.CATEGORY_NOT_WORD: (frozenset(
        b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"),
        True),
}


class M(object):
    def __init__(self, items, w, flags):
        self.items, self.w, self.flags = items, w, flags
        if flags & (re.I | re.M | re.X & 0):
            raise Unsupported("flags")

    def inset(self, x, av):
        pos = []
        neg = False
        s = set()
        for op, a in av:
            if op is K.NEGATE:
                neg = True
            elif op is K.LITERAL:
                s.add(a)
            elif op is K.RANGE:
                s.update(range(a[0], a[1] + 1))
            elif op is K.CATEGORY:
                if self.w != 8 and not core.ascii_only(x, self.w):
                    raise Unsupported("unicode category")
                cs, cn = CATS[a]
                r = in_set_c(x, cs, self.w)
                pos.append(not_(r) if cn else r)
            else:
                raise Unsupported(str(op))
        r = in_set_c(x, frozenset(s), self.w) if s else False
        r = or_(r, *pos)
        return not_(r) if neg else r

    def seq(self, ops, i):
        """-> {end: cond}"""
        states = {i: True}
        for op in ops:
            nxt = {}
            for p, c in states.items():
                for e, c2 in self.one(op, p).items():
                    cc = and_(c, c2)
                    if cc is False:
                        continue
                    nxt[e] = or_(nxt[e], cc) if e in nxt else cc
            states = nxt
            if not states:
                break
        return states

    def one(self, op, i):
        o, a = op
        n = len(self.items)
        if o in (K.LITERAL, K.NOT_LITERAL, K.IN, K.ANY):
            if i >= n:
                return {}
            x = self.items[i]
            if o is K.LITERAL:
                c = in_set_c(x, frozenset([a]), self.w)
            elif o is K.NOT_LITERAL:
                c = not_(in_set_c(x, frozenset([a]), self.w))
            elif o is K.ANY:
                c = True if self.flags & re.S else not_(
                    in_set_c(x, frozenset([10]), self.w))
            else:
                c = self.inset(x, a)
            return {i + 1: c} if c is not False else {}
        if o is K.AT:
            if a in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                return {i: True} if i == 0 else {}
            if a is K.AT_END_STRING:
                return {i: True} if i == n else {}
            if a is K.AT_END:
                if i == n:
                    return {i: True}
                if i == n - 1:
                    c = in_set_c(self.items[i], frozenset([10]), self.w)
                    return {i: c} if c is not False else {}
                return {}
            raise Unsupported(str(a))
        if o is K.SUBPATTERN:
            return self.seq(a[3], i)
        if o is K.BRANCH:
            out = {}
            for br in a[1]:
                for e, c in self.seq(br, i).items():
                    out[e] = or_(out[e], c) if e in out else c
            return out
        if o in (K.MAX_REPEAT, K.MIN_REPEAT) or o is getattr(
                K, "POSSESSIVE_REPEAT", None):
            if o is getattr(K, "POSSESSIVE_REPEAT", None):
                raise Unsupported("possessive")
            lo, hi, body = a
            cur = {i: True}
            out = dict(cur) if lo == 0 else {}
            k = 0
            while cur and (hi is K.MAXREPEAT or k < hi) and k <= n + lo:
                nxt = {}
                for p, c in cur.items():
                    for e, c2 in self.seq(body, p).items():
                        if e == p and k >= lo:
                            continue
                        cc = and_(c, c2)
                        if cc is False:
                            continue
                        nxt[e] = or_(nxt[e], cc) if e in nxt else cc
                k += 1
                cur = nxt
                if k >= lo:
                    for e, c in cur.items():
                        out[e] = or_(out[e], c) if e in out else c
            return out
        if o in (K.ASSERT, K.ASSERT_NOT):
            d, body = a
            if d < 0:
                raise Unsupported("lookbehind")
            r = or_(*(list(self.seq(body, i).values()) or [False]))
            if o is K.ASSERT_NOT:
                r = not_(r)
            return {i: r} if r is not False else {}
        raise Unsupported(str(o))


class Match(object):
    """Truthy match object; only whole-string spans are exact."""

    def __init__(self, s, start, end):
        self.string = s
        self._s, self._e = start, end

    def group(self, *a):
        if a and a != (0,):
            raise core.PathLimit("regex group on symbolic text")
        return self.string[self._s:self._e]

    def span(self, g=0):
        return self._s, self._e

    def start(self, g=0):
        return self._s

    def end(self, g=0):
        return self._e

    def __bool__(self):
        return True


def pattern_method(pat, name, a, k):
    s = a[0] if a else k["string"]
    if isinstance(s, SymStr) != isinstance(pat.pattern, str):
        raise TypeError("cannot use a %s pattern on a %s-like object" % (
            "string" if isinstance(pat.pattern, str) else "bytes",
            core.typename(s)))
    from . import models
    if name not in ("match", "fullmatch", "search") or len(a) > 1:
        return models._foreign(getattr(pat, name), a, k)
    try:
        m = M(s.items, s.W, pat.flags)
        tree = list(sre_parse.parse(pat.pattern, pat.flags & ~re.U
                                    if isinstance(pat.pattern, bytes)
                                    else pat.flags))
        n = len(s.items)
        starts = range(n + 1) if name == "search" else [0]
        for st in starts:
            ends = m.seq(tree, st)
            if name == "fullmatch":
                ends = dict((e, c) for e, c in ends.items() if e == n)
            if not ends:
                continue
            if bool(or_(*ends.values())):
                # greedy: longest feasible end first
                for e in sorted(ends, reverse=True):
                    if ends[e] is True or bool(ends[e]):
                        return Match(s, st, e)
        return None
    except Unsupported:
        return models._foreign(getattr(pat, name), a, k)
