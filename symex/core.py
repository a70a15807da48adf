"""Symbolic values and path exploration.

Values follow CPython semantics exactly over the modelled operations:
  SymBool   z3 Bool
  SymInt    mathematical integer with a known interval [lo, hi], held in a
            bit-vector just wide enough for that interval (no wrap-around)
  SymBytes  bytes of concrete length whose items are ints or 8-bit vectors
  SymStr    str of concrete length whose items are code points (21-bit vectors)

Control flow is native Python: a branch on a SymBool calls __bool__, which asks
the solver which sides are feasible and forks.  Paths are explored by
re-execution along decision prefixes (depth first).
"""
import sys
import time
import z3

CW = 21  # code point width



def _int_text(val):
    """z3's conversion of integers, without the digit limit that the code
    under test keeps"""
    if isinstance(val, float):
        return str(int(val))
    if isinstance(val, bool):
        return "1" if val else "0"
    if isinstance(val, int) and val.bit_length() > 10000:
        old = sys.get_int_max_str_digits()
        sys.set_int_max_str_digits(0)
        try:
            return str(val)
        finally:
            sys.set_int_max_str_digits(old)
    return str(val)


def _as_long(self):
    s = z3.Z3_get_numeral_string(self.ctx_ref(), self.as_ast())
    if len(s) > 4000:
        old = sys.get_int_max_str_digits()
        sys.set_int_max_str_digits(0)
        try:
            return int(s)
        finally:
            sys.set_int_max_str_digits(old)
    return int(s)


z3.z3._to_int_str = _int_text
z3.BitVecNumRef.as_long = _as_long


class PathControl(BaseException):
    """Never caught by the code under test (BaseException)."""


class Infeasible(PathControl):
    pass


class PathLimit(PathControl):
    def __init__(self, why):
        self.why = why


class Stop(PathControl):
    """Finish this path normally."""


class SolverUnknown(PathControl):
    pass


class Ctx(object):
    """One symbolic run of a harness case (many paths)."""

    def __init__(self, name, max_steps=4000000, query_ms=60000, max_conc=4096):
        self.name = name
        self.max_steps = max_steps
        self.query_ms = query_ms
        self.max_conc = max_conc
        self.stats = dict(paths=0, queries=0, sat=0, unsat=0, unknown=0,
                          solver_s=0.0, decisions=0, obligations=0,
                          discharged=0, infeasible=0, limits=0, steps=0)
        self.functions = {}
        self.incomplete = {}
        self.labels = {}
        self.violations = []
        self.knowns = []
        self.uf_used = {}
        self.deadline = None
        self.begin([])

    # -- per path state -----------------------------------------------------
    def begin(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pending = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_ms)
        self.model = None
        self.fresh_n = {}
        self.inputs = []       # (name, kind, value) in creation order
        self.random = []       # (kind, value) drawn by the code under test
        self.apps = []         # crypto applications, for realisation
        self.defs = {}
        self.defmemo = {}
        self.defdone = set()
        self.given = set()     # constraints that are facts about them
        self.appkeys = {}
        self.domains = {}
        self.prov = {}
        self.keep = []
        self.obs = []
        self.steps = 0
        self.sym_keys = False
        self.path_store = {}
        self.weak_random = []
        self.choices = []
        self.path_exact = True
        self.facts = {}

    def note_incomplete(self, why):
        self.path_exact = False
        self.incomplete[why] = self.incomplete.get(why, 0) + 1

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise PathLimit("step limit")
        if self.deadline and not self.steps & 0x3ff and \
                time.time() > self.deadline:
            raise PathLimit("time budget")

    # -- solver --------------------------------------------------------------
    def check(self, *extra, **kw):
        t = time.time()
        self.stats["queries"] += 1
        for e in extra:
            self.need(e)
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.time() - t
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("time budget")
        if r == z3.sat:
            self.stats["sat"] += 1
        elif r == z3.unsat:
            self.stats["unsat"] += 1
        else:
            self.stats["unknown"] += 1
        return r

    def fact(self, cond):
        """A constraint that holds of the real primitives anyway."""
        self.add(cond)
        self.given.add(cond.get_id())

    def define(self, v, term):
        """v names term; the solver is told when a constraint mentions v"""
        self.defs[v.get_id()] = (v, term)
        self.apps.append(Definition(v, term))

    def defs_in(self, e):
        """definitions an expression depends on, inner ones first"""
        hit = self.defmemo.get(e.get_id())
        if hit is not None:
            return hit[1]
        out, seen = [], set()
        todo = [(e, False)]
        while todo:
            x, done = todo.pop()
            i = x.get_id()
            if done:
                out.append(i)
                continue
            if i in seen:
                continue
            seen.add(i)
            d = self.defs.get(i)
            if d is not None:
                todo.append((x, True))
                todo.append((d[1], False))
            elif x is not e:
                m = self.defmemo.get(i)
                if m is not None:
                    for k in m[1]:
                        if k not in seen:
                            seen.add(k)
                            out.append(k)
                    continue
                todo.extend((y, False) for y in x.children())
            else:
                todo.extend((y, False) for y in x.children())
        out = tuple(out)
        self.defmemo[e.get_id()] = (e, out)
        return out

    def need(self, cond):
        """tell the solver the definitions cond depends on"""
        if not self.defs:
            return
        for i in self.defs_in(cond):
            if i not in self.defdone:
                self.defdone.add(i)
                v, t = self.defs[i]
                if self.model is not None:
                    self.model.update_value(v, self.model.eval(
                        t, model_completion=True))
                eq = v == t
                self.solver.add(eq)
                self.pc.append(eq)
                self.given.add(eq.get_id())

    def meval(self, model, e):
        """value under a model of the solver"""
        if self.defs:
            for i in self.defs_in(e):
                if i not in self.defdone:
                    v, t = self.defs[i]
                    model.update_value(v, model.eval(
                        t, model_completion=True))
        return model.eval(e, model_completion=True)

    def add(self, cond):
        """Add a constraint to the path condition without checking it."""
        self.need(cond)
        self.solver.add(cond)
        self.pc.append(cond)
        if self.model is not None:
            if not z3.is_true(self.meval(self.model, cond)):
                self.model = None

    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.e
        if cond is True or (not isinstance(cond, bool) and z3.is_true(cond)):
            return
        if cond is False or z3.is_false(cond):
            raise Infeasible()
        self.add(cond)
        if self.model is None:
            # at replay of a known feasible prefix the check is redundant
            if self.pos < len(self.prefix):
                return
            r = self.check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.sat:
                self.model = self.solver.model()
            else:
                raise SolverUnknown()

    def _decide(self, d):
        self.decisions.append(d)
        self.stats["decisions"] += 1

    def branch(self, cond):
        """Return the truth value of a z3 Bool on this path (forks)."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.need(cond)
        key = cond.get_id()
        hit = self.facts.get(key)
        if hit is not None:
            return hit[1]
        self.tick()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self._decide(d)
            v = bool(d & 1)
            if d < 2:           # 2/3: forced, implied by the path condition
                self.add(cond if v else z3.Not(cond))
            self.facts[key] = (cond, v)
            return v
        ncond = z3.Not(cond)
        t = f = None
        if self.model is not None:
            mv = self.meval(self.model, cond)
            if z3.is_true(mv):
                t = True
            elif z3.is_false(mv):
                f = True
        tm = fm = None
        if t is None:
            r = self.check(cond)
            if r == z3.sat:
                t, tm = True, self.solver.model()
            elif r == z3.unsat:
                t = False
            else:
                t = None
        else:
            tm = self.model
        if f is None:
            r = self.check(ncond)
            if r == z3.sat:
                f, fm = True, self.solver.model()
            elif r == z3.unsat:
                f = False
            else:
                f = None
        else:
            fm = self.model
        if t is None or f is None:
            if t is False or f is False:
                # the other side is the only one left, feasible if the path is
                pass
            else:
                self.note_incomplete("solver gave no answer on a branch")
                if t is None and f is None:
                    raise SolverUnknown()
                if t is None:
                    t = False
                else:
                    f = False
        if t is False and f is False:
            raise Infeasible()
        self.pos += 1
        if t and f:
            self.pending.append(self.decisions + [0])
            self._decide(1)
            self.add(cond)
            self.model = tm
            v = True
        elif t:
            self._decide(3)
            v = True
            if tm is not None:
                self.model = tm
        elif f:
            self._decide(2)
            v = False
            if fm is not None:
                self.model = fm
        else:
            v = t is None
            self._decide(3 if v else 2)
        self.prefix = self.decisions
        self.facts[key] = (cond, v)
        return v

    def choose(self, n, name="choice"):
        """Nondeterministic structural choice among range(n)."""
        if n <= 1:
            self.choices.append((name, 0))
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self._decide(d)
            self.choices.append((name, d))
            return d
        self.pos += 1
        for i in range(n - 1, 0, -1):
            self.pending.append(self.decisions + [i])
        self._decide(0)
        self.prefix = self.decisions
        self.choices.append((name, 0))
        return 0

    def get_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                raise SolverUnknown()
            self.model = self.solver.model()
        return self.model

    def eval(self, e, model=None):
        model = model or self.get_model()
        return self.meval(model, e)

    # -- fresh symbols ---------------------------------------------------------
    def fresh(self, name, width):
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        if n:
            name = "%s!%d" % (name, n)
        return z3.BitVec(name, width)

    def set_domain(self, e, dom):
        self.domains[e.get_id()] = (e, dom)

    def domain(self, e):
        d = self.domains.get(e.get_id())
        return d[1] if d else None


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# --------------------------------------------------------------------------


def is_sym(x):
    return isinstance(x, Sym)


def has_sym(x, depth=6):
    """True if x is or contains (in lists, tuples, dicts, sets) a symbolic."""
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        for i in x:
            if has_sym(i, depth - 1):
                return True
    elif depth and isinstance(x, dict):
        for k, v in x.items():
            if has_sym(k, depth - 1) or has_sym(v, depth - 1):
                return True
    elif depth and isinstance(x, VIEWS):
        for i in list(x):
            if has_sym(i, depth - 1):
                return True
    return False


VIEWS = (type({}.keys()), type({}.values()), type({}.items()))


class Sym(object):
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise PathLimit("pickling a symbolic value")


def simp(e):
    return z3.simplify(e)


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, bool):
            return mkbool(self.e if o else z3.Not(self.e))
        if isinstance(o, (int, SymInt)):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def as_int(self):
        return mkint(z3.If(self.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)),
                     0, 1)

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)):
            return and_(self, o)
        return self.as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool)):
            return or_(self, o)
        return self.as_int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Xor(self.e, o.e))
        if isinstance(o, bool):
            return not_(self) if o else self
        return self.as_int() ^ o
    __rxor__ = __xor__

    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o
    __rmul__ = __mul__

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return "<SymBool>"


def mkbool(e):
    if isinstance(e, bool):
        return e
    if isinstance(e, SymBool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zb(x):
    """bool | SymBool -> z3 Bool"""
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def not_(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    return not x


def and_(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.e)
        elif not x:
            return False
    if not out:
        return True
    return mkbool(z3.And(*out)) if len(out) > 1 else mkbool(out[0])


def or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.e)
        elif x:
            return True
    if not out:
        return False
    return mkbool(z3.Or(*out)) if len(out) > 1 else mkbool(out[0])


def implies(a, b):
    return or_(not_(a), b)


# --------------------------------------------------------------------------
# integers


def _width(lo, hi):
    if lo >= 0:
        return max(1, hi.bit_length())
    return max(hi.bit_length() if hi > 0 else 0, (-lo - 1).bit_length()) + 1


def _fit(e, w, signed):
    """Extend or truncate e to width w."""
    s = e.size()
    if s == w:
        return e
    if s > w:
        return z3.Extract(w - 1, 0, e)
    return z3.SignExt(w - s, e) if signed else z3.ZeroExt(w - s, e)


def mkint(e, lo, hi):
    """Wrap bit-vector e (already of width >= needed) as the int in [lo,hi]."""
    if lo == hi:
        return lo
    w = _width(lo, hi)
    if e.size() != w:
        e = _fit(e, w, lo < 0)
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        v = e.as_signed_long() if lo < 0 else e.as_long()
        return v
    return SymInt(e, lo, hi)


class SymInt(Sym):
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo, hi):
        self.e, self.lo, self.hi = e, lo, hi

    # helpers
    def at(self, w):
        return _fit(self.e, w, self.lo < 0)

    @staticmethod
    def _co(o):
        """Coerce to (at, lo, hi) or None"""
        if isinstance(o, SymInt):
            return o
        if isinstance(o, SymBool):
            r = o.as_int()
            return r if isinstance(r, SymInt) else _K(r)
        if isinstance(o, bool):
            return _K(int(o))
        if isinstance(o, int):
            return _K(int(o))
        return None

    def _arith(self, o, f, lo, hi):
        w = _width(lo, hi)
        return mkint(f(self.at(w), o.at(w)), lo, hi)

    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self._arith(o, lambda a, b: a + b, self.lo + o.lo,
                           self.hi + o.hi)
    __radd__ = __add__

    def __sub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self._arith(o, lambda a, b: a - b, self.lo - o.hi,
                           self.hi - o.lo)

    def __rsub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return o.wrap() - self if isinstance(o, SymInt) else \
            self._rsub_k(o)

    def _rsub_k(self, o):
        lo, hi = o.lo - self.hi, o.hi - self.lo
        w = _width(lo, hi)
        return mkint(o.at(w) - self.at(w), lo, hi)

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self < 0:
            return -self
        return mkint(self.e, max(0, self.lo), self.hi) \
            if self.hi > 0 else 0

    def __invert__(self):
        return -1 - self

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, SymSeq)):
            return o * self.__index__()
        o = self._co(o)
        if o is None:
            return NotImplemented
        c = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        return self._arith(o, lambda a, b: a * b, min(c), max(c))
    __rmul__ = __mul__

    def _divmod(self, a, b):
        """a, b: SymInt or _K; returns (q, r)"""
        if b.lo <= 0 <= b.hi:
            if isinstance(b, _K):
                raise ZeroDivisionError("integer division or modulo by zero")
            if mkbool(b.e == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
        if isinstance(b, _K) and b.v > 0 and b.v & (b.v - 1) == 0:
            k = b.v.bit_length() - 1
            q = a >> k
            r = a & (b.v - 1)
            return q, r
        blo, bhi = b.lo, b.hi
        if a.lo >= 0 and blo >= 0:
            blo = max(1, blo)
            w = max(_width(a.lo, a.hi), _width(blo, bhi))
            x, y = a.at(w), b.at(w)
            q = mkint(z3.UDiv(x, y), a.lo // bhi, a.hi // blo)
            r = mkint(z3.URem(x, y), 0, min(a.hi, bhi - 1))
            return q, r
        w = max(_width(min(a.lo, -1), a.hi), _width(min(blo, -1), bhi)) + 2
        x, y = a.at(w), b.at(w)
        m = x % y          # z3 bvsmod: sign follows the divisor, like Python
        rlo = min(0, blo + 1) if blo < 0 else 0
        rhi = max(0, bhi - 1) if bhi > 0 else 0
        r = mkint(m, rlo, rhi)
        d = (x - m)
        q = d / y          # exact signed division
        big = max(abs(a.lo), abs(a.hi))
        qlo = -big if (a.lo < 0 or blo < 0) else 0
        qhi = big
        return mkint(q, qlo, qhi), r

    def __divmod__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self._divmod(self, o)

    def __rdivmod__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self._divmod(o, self)

    def __floordiv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self._divmod(self, o)[0]

    def __rfloordiv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self._divmod(o, self)[0]

    def __mod__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self._divmod(self, o)[1]

    def __rmod__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self._divmod(o, self)[1]

    def __truediv__(self, o):
        return self.__index__() / int(o)

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __pow__(self, o, m=None):
        if isinstance(o, SymInt):
            o = o.__index__()
        if m is None and isinstance(o, int) and 0 <= o <= 16:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        if m is not None and isinstance(o, int) and 0 <= o:
            r, b = 1, self % m
            while o:
                if o & 1:
                    r = (b * r) % m
                o >>= 1
                if o:
                    b = (b * b) % m
            return r % m
        return pow(self.__index__(), int(o), m)

    def __rpow__(self, o):
        return o ** self.__index__()

    # bitwise
    def _bit(self, o, f, lo, hi):
        if self.lo < 0 or o.lo < 0:
            w = max(_width(min(self.lo, -1), self.hi),
                    _width(min(o.lo, -1), o.hi), _width(lo, hi))
        else:
            w = max(_width(self.lo, self.hi), _width(o.lo, o.hi))
        return mkint(f(self.at(w), o.at(w)), lo, hi)

    @staticmethod
    def _mask_hi(a, b):
        return (1 << max(a.hi.bit_length(), b.hi.bit_length(), 1)) - 1

    def __and__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if self.lo >= 0 and o.lo >= 0:
            lo, hi = 0, min(self.hi, o.hi)
        elif self.lo >= 0:
            lo, hi = 0, self.hi
        elif o.lo >= 0:
            lo, hi = 0, o.hi
        else:
            b = max((-self.lo - 1).bit_length(), (-o.lo - 1).bit_length(),
                    max(self.hi, 0).bit_length(), max(o.hi, 0).bit_length())
            lo, hi = -(1 << b), (1 << b) - 1
        return self._bit(o, lambda a, b: a & b, lo, hi)
    __rand__ = __and__

    def _orx(self, o, f):
        if self.lo >= 0 and o.lo >= 0:
            lo, hi = 0, self._mask_hi(self, o)
        else:
            b = max((-min(self.lo, -1) - 1).bit_length(),
                    (-min(o.lo, -1) - 1).bit_length(),
                    max(self.hi, 0).bit_length(), max(o.hi, 0).bit_length())
            lo, hi = -(1 << b), (1 << b) - 1
        return self._bit(o, f, lo, hi)

    def __or__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self._orx(o, lambda a, b: a | b)
    __ror__ = __or__

    def __xor__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self._orx(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __lshift__(self, k):
        if isinstance(k, SymInt):
            k = k.__index__()
        if not isinstance(k, int):
            return NotImplemented
        if k < 0:
            raise ValueError("negative shift count")
        if k == 0:
            return self
        return mkint(z3.Concat(self.e, z3.BitVecVal(0, k)),
                     self.lo << k, self.hi << k)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, k):
        if isinstance(k, SymInt):
            k = k.__index__()
        if not isinstance(k, int):
            return NotImplemented
        if k < 0:
            raise ValueError("negative shift count")
        if k == 0:
            return self
        lo, hi = self.lo >> k, self.hi >> k
        if lo == hi:
            return lo
        s = self.e.size()
        return mkint(z3.Extract(s - 1, min(k, s - 1), self.e), lo, hi)

    def __rrshift__(self, o):
        return o >> self.__index__()

    # comparison
    def _cmp(self, o, op):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if op == "==":
            if self.hi < o.lo or self.lo > o.hi:
                return False
        elif op == "<":
            if self.hi < o.lo:
                return True
            if self.lo >= o.hi:
                return False
        elif op == "<=":
            if self.hi <= o.lo:
                return True
            if self.lo > o.hi:
                return False
        lo, hi = min(self.lo, o.lo), max(self.hi, o.hi)
        w = _width(lo, hi)
        a, b = self.at(w), o.at(w)
        if op == "==":
            return mkbool(bv_eq(a, b))
        if lo < 0:
            return mkbool(a < b if op == "<" else a <= b)
        return mkbool(z3.ULT(a, b) if op == "<" else z3.ULE(a, b))

    def __eq__(self, o):
        if isinstance(o, float) and o == int(o):
            o = int(o)
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        r = self._cmp(o, "<=")
        return r if r is NotImplemented else not_(r)

    def __ge__(self, o):
        r = self._cmp(o, "<")
        return r if r is NotImplemented else not_(r)

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return CTX.branch(self.e != 0)

    def wrap(self):
        return self

    def value_in(self, model):
        v = CTX.meval(model, self.e)
        return v.as_signed_long() if self.lo < 0 else v.as_long()

    def __index__(self):
        """Concretise by forking over the feasible values."""
        c = CTX
        n = 0
        while True:
            # deterministic across re-execution: smallest remaining value
            # first would need optimisation; the model is recorded instead
            v = _pick(self)
            if self == v:
                return v
            n += 1
            if n > c.max_conc:
                raise PathLimit("too many values for a concrete integer")

    __int__ = __index__
    __trunc__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return "<SymInt %d..%d>" % (self.lo, self.hi)

    def __str__(self):
        return "<SymInt>"

    def __format__(self, spec):
        return "<SymInt>"

    def bit_length(self):
        if self.lo < 0:
            return abs(self).bit_length()
        for k in range(self.lo.bit_length(), self.hi.bit_length()):
            if self < (1 << k):
                return k
        return self.hi.bit_length()

    def bit_count(self):
        r = 0
        for i in range(self.hi.bit_length()):
            r = r + ((self >> i) & 1)
        return r

    def to_bytes(self, length=1, byteorder="big", signed=False):
        length = int(length)
        if signed:
            lim = 1 << (8 * length - 1)
            if or_(self < -lim, self >= lim):
                raise OverflowError("int too big to convert")
        else:
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
            if self >= (1 << (8 * length)):
                raise OverflowError("int too big to convert")
        if length == 0:
            return b""
        e = _fit(self.e, 8 * length, self.lo < 0)
        items = split_bv(e)
        if byteorder == "little":
            items = items[::-1]
        return mkbytes(items)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def is_integer(self):
        return True


class _K(object):
    """A constant in the SymInt operand protocol."""
    __slots__ = ("v", "lo", "hi")

    def __init__(self, v):
        self.v = self.lo = self.hi = v

    def at(self, w):
        return z3.BitVecVal(self.v, w)

    def __rshift__(self, k):
        return self.v >> k

    def __and__(self, k):
        return self.v & k

    @property
    def e(self):
        return z3.BitVecVal(self.v, _width(self.v, self.v))


def _pick(si):
    """Pick a candidate value; deterministic on re-execution because the path
    replays the recorded decisions (values are stored with them)."""
    c = CTX
    # decisions for picks are stored as ('v', value) through path_store keyed
    # by position, so that re-execution asks about the same value
    if c.pos < len(c.prefix):
        d = c.prefix[c.pos]
        c.pos += 1
        c._decide(d)
        return d[1]
    v = si.value_in(c.get_model())
    c.pos += 1
    c._decide(("v", v))
    c.prefix = c.decisions
    return v


def split_bv(e):
    """BV of 8n bits -> n items, most significant first."""
    n = e.size() // 8
    out = []
    for i in range(n):
        b = z3.simplify(z3.Extract(8 * (n - i) - 1, 8 * (n - i) - 8, e))
        out.append(b.as_long() if z3.is_bv_value(b) else b)
    return out


def item_bv(x, w=8):
    return z3.BitVecVal(x, w) if isinstance(x, int) else x


def concat_items(items):
    """items (ints or BV8) -> one BV, most significant first (simplified)"""
    if not items:
        return None
    parts = []
    run = []
    for x in items:
        if isinstance(x, int):
            run.append(x)
        else:
            if run:
                parts.append(z3.BitVecVal(int.from_bytes(bytes(run), "big"),
                                          8 * len(run)))
                run = []
            parts.append(x)
    if run:
        parts.append(z3.BitVecVal(int.from_bytes(bytes(run), "big"),
                                  8 * len(run)))
    if len(parts) == 1:
        return parts[0]
    return z3.simplify(z3.Concat(*parts))


# -- linear (xor) normal form: keeps GF(2)-linear equalities out of SAT --------

_LIN_OPS = None


def _lin_ok(e):
    return e.decl().kind() in (z3.Z3_OP_BXOR, z3.Z3_OP_CONCAT,
                               z3.Z3_OP_EXTRACT, z3.Z3_OP_ZERO_EXT)


def bv_eq(a, b):
    """a == b, first trying the xor-linear normal form when xors are there."""
    if a.eq(b):
        return True
    if CTX is not None and CTX.path_store.get("linear"):
        r = lin_eq(a, b)
        if r is not None:
            return r
    return a == b


class Lin(object):
    """bit i of a vector = xor of atoms (dict atomkey->..) and const."""


def lin_bits(e, cache):
    """Return list (lsb first) of python ints: bitmask over atoms; bit 0 is the
    constant one.  Atoms are single bits of non-linear subterms."""
    key = e.get_id()
    got = cache["memo"].get(key)
    if got is not None:
        return got[1]
    k = e.decl().kind()
    w = e.size()
    if z3.is_bv_value(e):
        v = e.as_long()
        r = [(v >> i) & 1 for i in range(w)]
    elif k == z3.Z3_OP_BXOR:
        r = [0] * w
        for c in e.children():
            r = [x ^ y for x, y in zip(r, lin_bits(c, cache))]
    elif k == z3.Z3_OP_BNOT:
        r = [x ^ 1 for x in lin_bits(e.arg(0), cache)]
    elif k == z3.Z3_OP_CONCAT:
        r = []
        for c in reversed(e.children()):
            r = r + lin_bits(c, cache)
    elif k == z3.Z3_OP_EXTRACT:
        hi, lo = e.params()
        r = lin_bits(e.arg(0), cache)[lo:hi + 1]
    elif k == z3.Z3_OP_ZERO_EXT:
        r = lin_bits(e.arg(0), cache)
        r = r + [0] * (w - len(r))
    elif k == z3.Z3_OP_ITE and z3.is_eq(e.arg(0)) and \
            e.arg(0).arg(0).sort().kind() == z3.Z3_BV_SORT and \
            e.arg(0).arg(0).size() == 1 and \
            (z3.is_bv_value(e.arg(0).arg(0)) or
             z3.is_bv_value(e.arg(0).arg(1))) and \
            z3.is_bv_value(e.arg(1)) and z3.is_bv_value(e.arg(2)):
        c = e.arg(0)
        x, y = c.arg(0), c.arg(1)
        if z3.is_bv_value(x):
            x, y = y, x
        bit = lin_bits(x, cache)[0]
        tv, fv = e.arg(1).as_long(), e.arg(2).as_long()
        if y.as_long() == 0:
            tv, fv = fv, tv
        d = tv ^ fv
        r = [((fv >> i) & 1) ^ (bit if (d >> i) & 1 else 0)
             for i in range(w)]
    elif k == z3.Z3_OP_BMUL and w >= 1 and _mulbit(e) is not None:
        const, bitexpr = _mulbit(e)
        bit = lin_bits(bitexpr, cache)[0]
        r = [(bit if (const >> i) & 1 else 0) for i in range(w)]
    else:
        r = []
        for i in range(w):
            ak = (key, i)
            m = cache["atoms"].get(ak)
            if m is None:
                m = 1 << (len(cache["atoms"]) + 1)
                cache["atoms"][ak] = m
                cache["back"].append((e, i))
            r.append(m)
    cache["memo"][key] = (e, r)
    return r


def _mulbit(e):
    return None


class Definition(object):
    """out is another name of term"""
    name = "="
    kind = "def"

    def __init__(self, out, term):
        self.out, self.term = out, term


def lin_cache():
    st = CTX.path_store
    c = st.get("lincache")
    if c is None:
        c = st["lincache"] = {"memo": {}, "atoms": {}, "back": []}
    return c


def lin_expr(bits, cache):
    """Rebuild a canonical expression from linear bits: the xor of a constant
    and of one constant column per atom that is 1."""
    w = len(bits)
    cols = {}
    const = 0
    for i, m in enumerate(bits):
        if m & 1:
            const |= 1 << i
        mm = m >> 1
        while mm:
            low = (mm & -mm).bit_length() - 1
            cols[low] = cols.get(low, 0) | (1 << i)
            mm &= mm - 1
    acc = z3.BitVecVal(const, w)
    if not cols:
        return acc
    zero = z3.BitVecVal(0, w)
    tests = cache.setdefault("tests", {})
    for low in sorted(cols):
        t = tests.get(low)
        if t is None:
            e, b = cache["back"][low]
            t = tests[low] = z3.Extract(b, b, e) == 1
        acc = acc ^ z3.If(t, z3.BitVecVal(cols[low], w), zero)
    cache["memo"][acc.get_id()] = (acc, list(bits))
    return acc


def lin_eq(a, b):
    """Decide or build a == b through the linear normal form."""
    cache = lin_cache()
    x = lin_bits(a, cache)
    y = lin_bits(b, cache)
    rows = [p ^ q for p, q in zip(x, y)]
    rows = [r for r in rows if r]
    if not rows:
        return True
    # Gaussian elimination on the constraint rows: constant contradiction?
    basis = []
    for r in rows:
        v = r >> 1
        c = r & 1
        for bv, bc, hb in basis:
            if (v >> hb) & 1:
                v ^= bv
                c ^= bc
        if v == 0:
            if c:
                return False
            continue
        basis.append((v, c, v.bit_length() - 1))
    conds = []
    for v, c, hb in basis:
        acc = z3.BitVecVal(c, 1)
        mm = v
        while mm:
            low = (mm & -mm).bit_length() - 1
            e, bi = cache["back"][low]
            acc = acc ^ z3.Extract(bi, bi, e)
            mm &= mm - 1
        conds.append(acc == 0)
    return z3.And(*conds)


def mux(table, idx):
    """table: list of non-negative python ints, idx: SymInt in range."""
    n = len(table)
    hi = max(table)
    w = _width(0, hi)
    # exact linear encoding when the table is linear over GF(2)
    k = (n - 1).bit_length()
    if n == 1 << k and n >= 4 and idx.lo >= 0 and idx.hi < n:
        c0 = table[0]
        basis = [table[1 << i] ^ c0 for i in range(k)]
        lin = True
        acc = [c0] * n
        for j in range(1, n):
            low = (j & -j).bit_length() - 1
            acc[j] = acc[j & (j - 1)] ^ basis[low]
            if acc[j] != table[j]:
                lin = False
                break
        if lin:
            e = idx.at(k)
            r = z3.BitVecVal(c0, w)
            zero = z3.BitVecVal(0, w)
            for i in range(k):
                if basis[i]:
                    r = r ^ z3.If(z3.Extract(i, i, e) == 1,
                                  z3.BitVecVal(basis[i], w), zero)
            CTX.path_store["linear"] = True
            cache = lin_cache()
            v = CTX.fresh("lin", w)
            cache["memo"][v.get_id()] = (v, lin_bits(r, cache))
            CTX.define(v, r)
            return mkint_raw(v, 0, (1 << w) - 1)
    iw = idx.e.size()
    r = z3.BitVecVal(table[-1], w)
    for j in range(n - 2, -1, -1):
        if idx.lo <= j <= idx.hi:
            r = z3.If(idx.e == z3.BitVecVal(j, iw), z3.BitVecVal(table[j], w),
                      r)
    return mkint(r, min(table), hi)


def mkint_raw(e, lo, hi):
    return mkint(e, lo, hi)


# --------------------------------------------------------------------------
# sequences


def _norm_index(i, n):
    if isinstance(i, SymInt):
        i = i.__index__()
    return i


class SymSeq(Sym):
    """Common part of SymBytes and SymStr: tuple of items."""
    __slots__ = ("items", "_h")
    W = 8

    def __init__(self, items):
        self.items = tuple(items)
        self._h = None

    # to be provided: mk (classmethod), coerce (other -> items or None)
    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def __iter__(self):
        for x in self.items:
            yield self._elem(x)

    def __getitem__(self, i):
        if isinstance(i, slice):
            s = slice(_ix(i.start), _ix(i.stop), _ix(i.step))
            return self.mk(self.items[s])
        if isinstance(i, SymInt):
            n = len(self.items)
            if or_(i >= n, i < -n):
                raise IndexError("index out of range")
            i = i.__index__()
        return self._elem(self.items[i])

    def __add__(self, o):
        it = self.coerce(o)
        if it is None:
            raise TypeError("can't concat %s to %s" % (
                typename(o), typename(self)))
        return self.mk(self.items + tuple(it))

    def __radd__(self, o):
        it = self.coerce(o)
        if it is None:
            raise TypeError("can't concat %s to %s" % (
                typename(self), typename(o)))
        return self.mk(tuple(it) + self.items)

    def __mul__(self, n):
        if isinstance(n, SymInt):
            n = n.__index__()
        if not isinstance(n, int):
            raise TypeError("can't multiply sequence by non-int")
        return self.mk(self.items * n)
    __rmul__ = __mul__

    def eq(self, o):
        it = self.coerce(o)
        if it is None:
            return False
        if len(it) != len(self.items):
            return False
        return items_eq(self.items, it, self.W)

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        return not_(self.eq(o))

    def __hash__(self):
        if self._h is None:
            self._h = hash(tuple(x if isinstance(x, int) else x.hash()
                                 for x in self.items))
        return self._h

    def _lt(self, o, strict):
        it = self.coerce(o)
        if it is None:
            return NotImplemented
        a, b = self.items, it
        n = min(len(a), len(b))
        r = z3.BoolVal(len(a) < len(b) if strict else len(a) <= len(b))
        for x, y in reversed(list(zip(a[:n], b[:n]))):
            X, Y = item_bv(x, self.W), item_bv(y, self.W)
            r = z3.Or(z3.ULT(X, Y), z3.And(X == Y, r))
        return mkbool(r)

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else not_(r)

    def __ge__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else not_(r)

    def match_at(self, sub, i):
        """sub (items) equals self[i:i+len]"""
        if i < 0 or i + len(sub) > len(self.items):
            return False
        return items_eq(self.items[i:i + len(sub)], sub, self.W)

    def _sub(self, o):
        if isinstance(o, int) and self.W == 8:
            return (o,)
        if isinstance(o, SymInt) and self.W == 8:
            return (_fit(o.e, 8, False),)
        it = self.coerce(o)
        if it is None:
            raise TypeError("a %s-like object is required, not '%s'" % (
                typename(self), typename(o)))
        return tuple(it)

    def __contains__(self, o):
        sub = self._sub(o)
        conds = [self.match_at(sub, i)
                 for i in range(len(self.items) - len(sub) + 1)]
        return bool(or_(*conds))

    def _range(self, start, end):
        n = len(self.items)
        s, e, _ = slice(_ix(start), _ix(end)).indices(n)
        return s, e

    def find(self, o, start=None, end=None):
        sub = self._sub(o)
        s, e = self._range(start, end)
        for i in range(s, e - len(sub) + 1):
            if self.match_at(sub, i):
                return i
        return -1

    def rfind(self, o, start=None, end=None):
        sub = self._sub(o)
        s, e = self._range(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if self.match_at(sub, i):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, o, start=None, end=None):
        sub = self._sub(o)
        s, e = self._range(start, end)
        if not sub:
            return e - s + 1
        n = 0
        i = s
        while i + len(sub) <= e:
            if self.match_at(sub, i):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._wssplit(maxsplit)
        sub = self._sub(sep)
        if not sub:
            raise ValueError("empty separator")
        out = []
        last = i = 0
        while i + len(sub) <= len(self.items) and maxsplit != 0:
            if self.match_at(sub, i):
                out.append(self.mk(self.items[last:i]))
                i += len(sub)
                last = i
                maxsplit -= 1
            else:
                i += 1
        out.append(self.mk(self.items[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit < 0:
                return self._wssplit(-1)
            raise PathLimit("rsplit on whitespace")
        sub = self._sub(sep)
        out = []
        last = len(self.items)
        i = last - len(sub)
        while i >= 0 and maxsplit != 0:
            if self.match_at(sub, i):
                out.append(self.mk(self.items[i + len(sub):last]))
                last = i
                i -= len(sub)
                maxsplit -= 1
            else:
                i -= 1
        out.append(self.mk(self.items[:last]))
        return out[::-1]

    def _wssplit(self, maxsplit):
        out, cur = [], []
        for k, x in enumerate(self.items):
            if in_set(x, self.WS, self.W):
                if cur:
                    out.append(self.mk(cur))
                    cur = []
            else:
                if not cur and maxsplit >= 0 and len(out) >= maxsplit:
                    rest = self.mk(self.items[k:])
                    out.append(rest.rstrip())
                    return out
                cur.append(x)
        if cur:
            out.append(self.mk(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self.mk(self.items), self.empty, self.empty
        n = len(self._sub(sep))
        return self.mk(self.items[:i]), sep, self.mk(self.items[i + n:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self.empty, self.empty, self.mk(self.items)
        n = len(self._sub(sep))
        return self.mk(self.items[:i]), sep, self.mk(self.items[i + n:])

    def _stripset(self, chars):
        if chars is None:
            return self.WS
        it = self.coerce(chars)
        if it is None:
            raise TypeError("strip arg must be None or %s" % typename(self))
        if any(not isinstance(x, int) for x in it):
            raise PathLimit("strip with symbolic chars")
        return frozenset(it)

    def lstrip(self, chars=None):
        s = self._stripset(chars)
        i = 0
        while i < len(self.items) and in_set(self.items[i], s, self.W):
            i += 1
        return self.mk(self.items[i:])

    def rstrip(self, chars=None):
        s = self._stripset(chars)
        i = len(self.items)
        while i > 0 and in_set(self.items[i - 1], s, self.W):
            i -= 1
        return self.mk(self.items[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return or_(*[self.startswith(x, start, end) for x in p])
        s, e = self._range(start, end)
        sub = self._sub(p)
        if s + len(sub) > e:
            return False
        return self.match_at(sub, s)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return or_(*[self.endswith(x, start, end) for x in p])
        s, e = self._range(start, end)
        sub = self._sub(p)
        if e - len(sub) < s:
            return False
        return self.match_at(sub, e - len(sub))

    def replace(self, old, new, count=-1):
        o = self._sub(old)
        n = self._sub(new)
        if not o:
            raise PathLimit("replace of empty")
        out = []
        i = 0
        while i < len(self.items):
            if count != 0 and self.match_at(o, i):
                out.extend(n)
                i += len(o)
                count -= 1
            else:
                out.append(self.items[i])
                i += 1
        return self.mk(out)

    def removeprefix(self, p):
        if self.startswith(p):
            return self.mk(self.items[len(self._sub(p)):])
        return self

    def removesuffix(self, p):
        n = len(self._sub(p))
        if n and self.endswith(p):
            return self.mk(self.items[:-n])
        return self

    def join(self, seq):
        out = []
        first = True
        for x in seq:
            it = self.coerce(x)
            if it is None:
                raise TypeError("sequence item: expected %s instance, %s found"
                                % (typename(self), typename(x)))
            if not first:
                out.extend(self.items)
            first = False
            out.extend(it)
        return self.mk(out)

    def _fill(self, w, c, left):
        w = int(w)
        c = self._sub(c)
        k = w - len(self.items)
        if k <= 0:
            return self.mk(self.items)
        return self.mk((c * k) + self.items if left else self.items + c * k)

    def _case(self, lo, hi, delta, name):
        out = []
        for x in self.items:
            if isinstance(x, int):
                if x >= 128 and self.W > 8:
                    out.extend(ord(c) for c in getattr(chr(x), name)())
                    continue
                if lo <= x <= hi:
                    x += delta
                out.append(x)
            else:
                if not ascii_only(x, self.W):
                    if self.W > 8 and CTX.branch(z3.UGE(x, 128)):
                        out.extend(self._foreign_case(x, name))
                        continue
                e = z3.simplify(z3.If(z3.And(z3.UGE(x, lo), z3.ULE(x, hi)),
                                      x + delta, x))
                d = CTX.domain(x)
                if d is not None and not z3.is_bv_value(e):
                    CTX.set_domain(e, frozenset(
                        (v + delta if lo <= v <= hi else v) for v in d))
                out.append(e.as_long() if z3.is_bv_value(e) else e)
        return self.mk(out)

    def _foreign_case(self, x, name):
        """a character beyond ASCII: its lower case is an uninterpreted one
        beyond ASCII, but for the three exceptions"""
        if name != "lower":
            raise PathLimit("case mapping of non-ASCII")
        for v in (0x130, 0x212a):
            if CTX.branch(x == v):
                return [ord(c) for c in chr(v).lower()]
        if len(self.items) > 1 and CTX.branch(x == 0x3a3):
            raise PathLimit("final sigma")
        from . import crypto
        its = split_bv(z3.Concat(z3.BitVecVal(0, 24 - CW), x))

        def real(b):
            v = int.from_bytes(b, "big")
            return ord(chr(v).lower()).to_bytes(3, "big")
        r = crypto.uf("LOWER", [tuple(its)], 3, real)
        e = simp(z3.Extract(CW - 1, 0, concat_items(SymBytes.coerce(r))))
        CTX.add(z3.And(z3.UGE(e, 128), z3.ULE(e, 0x10ffff)))
        return [e]

    def lower(self):
        return self._case(65, 90, 32, "lower")

    def upper(self):
        return self._case(97, 122, -32, "upper")

    def casefold(self):
        if self.W > 8:
            for x in self.items:
                if not _lt(x, 128):
                    raise PathLimit("casefold of non-ASCII")
        return self.lower()

    def _all_in(self, s):
        if not self.items:
            return False
        if self.W > 8:
            for x in self.items:
                if not _lt(x, 128):
                    raise PathLimit("class of a non-ASCII character")
        return and_(*[in_set_c(x, s, self.W) for x in self.items])

    def isdigit(self):
        return self._all_in(frozenset(range(48, 58)))

    def isalpha(self):
        return self._all_in(frozenset(list(range(65, 91)) +
                                      list(range(97, 123))))

    def isalnum(self):
        return self._all_in(frozenset(list(range(48, 58)) + list(
            range(65, 91)) + list(range(97, 123))))

    def isspace(self):
        return self._all_in(self.WS)

    def isascii(self):
        return and_(*[True if isinstance(x, int) and x < 128 else
                      (False if isinstance(x, int) else
                       mkbool(z3.ULT(x, 128))) for x in self.items])

    def isupper(self):
        up = frozenset(range(65, 91))
        lowr = frozenset(range(97, 123))
        return and_(or_(*[in_set_c(x, up, self.W) for x in self.items]),
                    *[not_(in_set_c(x, lowr, self.W)) for x in self.items])

    def islower(self):
        up = frozenset(range(65, 91))
        lowr = frozenset(range(97, 123))
        return and_(or_(*[in_set_c(x, lowr, self.W) for x in self.items]),
                    *[not_(in_set_c(x, up, self.W)) for x in self.items])

    def splitlines(self, keepends=False):
        raise PathLimit("splitlines on symbolic")

    def value_in(self, model):
        return self.from_ints([x if isinstance(x, int) else
                               CTX.meval(model, x).as_long()
                               for x in self.items])


def _ix(i):
    if isinstance(i, SymInt):
        return i.__index__()
    if isinstance(i, SymBool):
        return int(bool(i))
    return i


def ascii_only(x, w):
    if isinstance(x, int):
        return x < 128
    d = CTX.domain(x)
    if d is not None:
        return all(v < 128 for v in d)
    return False


def eq_item(x, y, w):
    """x == y for items, python bool or z3 Bool"""
    xi, yi = isinstance(x, int), isinstance(y, int)
    if xi and yi:
        return x == y
    if xi:
        x, y, xi, yi = y, x, yi, xi
    if yi:
        d = CTX.domain(x)
        if d is not None:
            if y not in d:
                return False
        if y >= (1 << x.size()):
            return False
        p = CTX.prov.get(x.get_id())
        if p is not None:
            v = B64REV.get(y)
            if v is None:
                return False
            return p[1] == z3.BitVecVal(v, 6)
        return x == z3.BitVecVal(y, x.size())
    if x.eq(y):
        return True
    dx, dy = CTX.domain(x), CTX.domain(y)
    if dx is not None and dy is not None and not (dx & dy):
        return False
    px, py = CTX.prov.get(x.get_id()), CTX.prov.get(y.get_id())
    if px is not None and py is not None:
        return px[1] == py[1]
    return x == y


def items_eq(a, b, w):
    """equality of two equally long item sequences -> bool | SymBool"""
    conds = []
    left = []
    # group runs so that z3 sees whole-vector equalities where both sides are
    # adjacent slices of the same terms
    for x, y in zip(a, b):
        c = eq_item(x, y, w)
        if c is False:
            return False
        if c is True:
            continue
        conds.append(c)
        left.append((x, y))
    if not conds:
        return True
    if w == 8 and CTX.path_store.get("linear") and len(a) >= 4:
        r = lin_eq(concat_items([x for x, _ in left]),
                   concat_items([y for _, y in left]))
        return r if isinstance(r, bool) else mkbool(r)
    if w == 8 and len(conds) == len(a) and len(a) > 1 and not any(
            CTX.prov.get(x.get_id()) for x in a if not isinstance(x, int)):
        return mkbool(concat_items(a) == concat_items(b))
    return mkbool(z3.And(*conds)) if len(conds) > 1 else mkbool(conds[0])


def in_set_c(x, s, w):
    """membership of one item in a set of ints -> bool | SymBool"""
    if isinstance(x, int):
        return x in s
    d = CTX.domain(x)
    if d is not None:
        if not (d & s):
            return False
        if d <= s:
            return True
        if len(d) <= 64:
            s = d & s
    return mkbool(set_expr(x, s))


def in_set(x, s, w):
    return bool(in_set_c(x, s, w))


def set_expr(x, s):
    """z3 Bool: BV x is in the set of ints s (as ranges)"""
    conds = []
    W = x.size()
    for lo, hi in ranges(s):
        if lo >= (1 << W):
            continue
        hi = min(hi, (1 << W) - 1)
        if lo == hi:
            conds.append(x == z3.BitVecVal(lo, W))
        elif lo == 0:
            conds.append(z3.ULE(x, z3.BitVecVal(hi, W)))
        else:
            conds.append(z3.And(z3.UGE(x, z3.BitVecVal(lo, W)),
                                z3.ULE(x, z3.BitVecVal(hi, W))))
    return z3.Or(*conds) if conds else z3.BoolVal(False)


def ranges(s):
    out = []
    for v in sorted(s):
        if out and out[-1][1] == v - 1:
            out[-1][1] = v
        else:
            out.append([v, v])
    return out


B64ALPHA = (b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
            b"0123456789-_")
B64REV = dict((c, i) for i, c in enumerate(B64ALPHA))
B64SET = frozenset(B64ALPHA)


class SymBytes(SymSeq):
    __slots__ = ()
    W = 8
    WS = frozenset(b" \t\n\r\x0b\x0c")
    empty = b""

    @staticmethod
    def mk(items):
        return mkbytes(items)

    @staticmethod
    def from_ints(v):
        return bytes(v)

    @staticmethod
    def coerce(o):
        if isinstance(o, SymBytes):
            return o.items
        if isinstance(o, (bytes, bytearray, memoryview)):
            return tuple(bytes(o))
        return None

    def _elem(self, x):
        if isinstance(x, int):
            return x
        d = CTX.domain(x)
        lo, hi = (min(d), max(d)) if d else (0, 255)
        return SymInt(x, 0, 255)

    def decode(self, encoding="utf-8", errors="strict"):
        return decode(self, encoding, errors)

    def hex(self, *a):
        if a:
            raise PathLimit("hex with separator")
        out = []
        for x in self.items:
            if isinstance(x, int):
                out.extend(ord(c) for c in "%02x" % x)
            else:
                out.append(hexdigit(z3.simplify(z3.Extract(7, 4, x))))
                out.append(hexdigit(z3.simplify(z3.Extract(3, 0, x))))
        return mkstr(out)

    def translate(self, table, delete=b""):
        if delete:
            raise PathLimit("translate with delete")
        out = []
        for x in self.items:
            if isinstance(x, int):
                out.append(table[x])
            else:
                m = mux(list(table), SymInt(x, 0, 255))
                out.append(m if isinstance(m, int) else _fit(m.e, 8, False))
        return mkbytes(out)

    def ljust(self, w, c=b" "):
        return self._fill(w, c, False)

    def rjust(self, w, c=b" "):
        return self._fill(w, c, True)

    def tobytes(self):
        return self

    def __bytes__(self):
        return concretize(self, "bytes() from C code")

    def __repr__(self):
        return "<SymBytes %d>" % len(self.items)

    __str__ = __repr__


class SymByteArray(SymBytes):
    """Mutable bytes."""
    __slots__ = ()

    def __init__(self, items=()):
        self.items = list(items)
        self._h = None

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            it = self.coerce(v)
            if it is None:
                it = [byte_item(x) for x in v]
            self.items[slice(_ix(i.start), _ix(i.stop), _ix(i.step))] = it
        else:
            self.items[_ix(i)] = byte_item(v)

    def __delitem__(self, i):
        del self.items[i]

    def append(self, v):
        self.items.append(byte_item(v))

    def extend(self, v):
        it = self.coerce(v)
        if it is None:
            it = [byte_item(x) for x in v]
        self.items.extend(it)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return SymByteArray(list(self.items) + list(self.coerce(o)))

    def insert(self, i, v):
        self.items.insert(i, byte_item(v))

    def reverse(self):
        self.items.reverse()

    def pop(self, i=-1):
        return self._elem(self.items.pop(i))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymByteArray(self.items[slice(_ix(i.start), _ix(i.stop),
                                                 _ix(i.step))])
        return SymBytes.__getitem__(self, i)

    def copy(self):
        return SymByteArray(self.items)

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")

    def clear(self):
        self.items[:] = []


def byte_item(v):
    """int | SymInt -> item, with the range check of bytes()"""
    if isinstance(v, SymBool):
        v = v.as_int()
    if isinstance(v, SymInt):
        if or_(v < 0, v > 255):
            raise ValueError("bytes must be in range(0, 256)")
        e = z3.simplify(_fit(v.e, 8, False))
        return e.as_long() if z3.is_bv_value(e) else e
    if isinstance(v, int):
        if not 0 <= v <= 255:
            raise ValueError("bytes must be in range(0, 256)")
        return int(v)
    raise TypeError("'%s' object cannot be interpreted as an integer" %
                    typename(v))


HEX = b"0123456789abcdef"


def hexdigit(n4, upper=False):
    """4-bit vector -> code point item"""
    if z3.is_bv_value(n4):
        return (HEX.upper() if upper else HEX)[n4.as_long()]
    x = z3.ZeroExt(CW - 4, n4)
    a = (65 if upper else 97) - 10
    e = z3.simplify(z3.If(z3.ULT(x, 10), x + 48, x + a))
    CTX.set_domain(e, frozenset(HEX.upper() if upper else HEX))
    CTX.keep.append(e)
    CTX.path_store.setdefault("hexprov", {})[e.get_id()] = (e, n4)
    return e


class SymStr(SymSeq):
    __slots__ = ()
    W = CW
    WS = frozenset(ord(c) for c in
                   " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"
                   "\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007"
                   "\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000")
    empty = ""

    @staticmethod
    def mk(items):
        return mkstr(items)

    @staticmethod
    def from_ints(v):
        return "".join(chr(x) for x in v)

    @staticmethod
    def coerce(o):
        if isinstance(o, SymStr):
            return o.items
        if isinstance(o, str):
            return tuple(ord(c) for c in o)
        return None

    def _elem(self, x):
        return mkstr([x])

    def __add__(self, o):
        if isinstance(o, LazyStr):
            return LazyStr(lambda: self.items + o.items)
        return SymSeq.__add__(self, o)

    def encode(self, encoding="utf-8", errors="strict"):
        return encode(self, encoding, errors)

    def isnumeric(self):
        return self.isdigit()

    isdecimal = isnumeric

    def ljust(self, w, c=" "):
        return self._fill(w, c, False)

    def rjust(self, w, c=" "):
        return self._fill(w, c, True)

    def zfill(self, w):
        if len(self.items) >= w:
            return self
        if self[0] == "+" or self[0] == "-":
            return self.mk(self.items[:1] + (48,) * (w - len(self.items)) +
                           self.items[1:])
        return self.rjust(w, "0")

    def format(self, *a, **k):
        raise PathLimit("symbolic format string")

    def __mod__(self, o):
        raise PathLimit("symbolic format string")

    def __format__(self, spec):
        return "<SymStr>"

    def __repr__(self):
        return "<SymStr %d>" % len(self.items)

    __str__ = __repr__



class LazyStr(SymStr):
    """Text whose length depends on symbolic values; not built before it is
    looked at (texts in exception messages mostly never are)."""
    __slots__ = ("thunk", "done")

    def __init__(self, thunk):
        self.thunk = thunk
        self.done = None
        self._h = None

    @property
    def items(self):
        if self.done is None:
            t = self.thunk()
            self.done = t if isinstance(t, tuple) else SymStr.coerce(t)
        return self.done

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return LazyStr(lambda: self.items + SymStr.coerce(o))
        return SymSeq.__add__(self, o)

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return LazyStr(lambda: SymStr.coerce(o) + self.items)
        return SymSeq.__radd__(self, o)

    def __repr__(self):
        return "<LazyStr>"


def mkbytes(items):
    items = tuple(items)
    out = []
    conc = True
    for x in items:
        if isinstance(x, int):
            out.append(x)
        elif z3.is_bv_value(x):
            out.append(x.as_long())
        else:
            conc = False
            out.append(x)
    if conc:
        return bytes(out)
    return SymBytes(out)


def mkstr(items):
    out = []
    conc = True
    for x in items:
        if isinstance(x, int):
            out.append(x)
        elif z3.is_bv_value(x):
            out.append(x.as_long())
        else:
            conc = False
            out.append(x)
    if conc:
        return "".join(chr(x) for x in out)
    return SymStr(out)


def typename(o):
    if isinstance(o, SymByteArray):
        return "bytearray"
    if isinstance(o, SymBytes):
        return "bytes"
    if isinstance(o, SymStr):
        return "str"
    if isinstance(o, SymInt):
        return "int"
    if isinstance(o, SymBool):
        return "bool"
    return type(o).__name__


def to_char(x):
    """byte item -> code point item"""
    if isinstance(x, int):
        return x
    e = z3.simplify(z3.ZeroExt(CW - 8, x))
    d = CTX.domain(x)
    if d is not None:
        CTX.set_domain(e, d)
    p = CTX.prov.get(x.get_id())
    if p is not None:
        CTX.prov[e.get_id()] = (e, p[1])
    CTX.keep.append(e)
    return e


def to_byte(x):
    """code point item known < 256 -> byte item"""
    if isinstance(x, int):
        return x
    e = z3.simplify(z3.Extract(7, 0, x))
    if z3.is_bv_value(e):
        return e.as_long()
    d = CTX.domain(x)
    if d is not None:
        CTX.set_domain(e, d)
    p = CTX.prov.get(x.get_id())
    if p is not None:
        CTX.prov[e.get_id()] = (e, p[1])
    CTX.keep.append(e)
    return e


def _encname(encoding):
    if isinstance(encoding, SymStr):
        encoding = concretize(encoding, "codec name")
    return encoding.lower().replace("_", "-")


def encode(s, encoding="utf-8", errors="strict"):
    enc = _encname(encoding)
    out = []
    items = s.items if isinstance(s, SymStr) else tuple(ord(c) for c in s)
    if enc in ("ascii", "us-ascii", "latin-1", "latin1", "iso-8859-1",
               "iso8859-1"):
        lim = 128 if "ascii" in enc else 256
        for x in items:
            bad = x >= lim if isinstance(x, int) else not ascii_only(x, CW) \
                and CTX.branch(z3.UGE(x, lim))
            if bad:
                if errors == "ignore":
                    continue
                if errors == "replace":
                    out.append(63)
                    continue
                raise UnicodeEncodeError(enc, "?", 0, 1,
                                         "ordinal not in range")
            out.append(to_byte(x))
        return mkbytes(out)
    if enc not in ("utf-8", "utf8"):
        raise PathLimit("encoding " + enc)
    for x in items:
        if isinstance(x, int):
            if 0xd800 <= x <= 0xdfff:
                if errors == "surrogatepass":
                    out.extend(chr(x).encode("utf-8", "surrogatepass"))
                    continue
                if errors in ("ignore",):
                    continue
                raise UnicodeEncodeError("utf-8", "?", 0, 1,
                                         "surrogates not allowed")
            out.extend(chr(x).encode("utf-8"))
            continue
        if ascii_only(x, CW) or CTX.branch(z3.ULT(x, 0x80)):
            out.append(to_byte(x))
        elif CTX.branch(z3.ULT(x, 0x800)):
            out.append(simp(z3.Concat(z3.BitVecVal(6, 3),
                                      z3.Extract(10, 6, x))))
            out.append(simp(z3.Concat(z3.BitVecVal(2, 2),
                                      z3.Extract(5, 0, x))))
        elif CTX.branch(z3.ULT(x, 0x10000)):
            if CTX.branch(z3.And(z3.UGE(x, 0xd800), z3.ULE(x, 0xdfff))):
                raise UnicodeEncodeError("utf-8", "?", 0, 1,
                                         "surrogates not allowed")
            out.append(simp(z3.Concat(z3.BitVecVal(14, 4),
                                      z3.Extract(15, 12, x))))
            out.append(simp(z3.Concat(z3.BitVecVal(2, 2),
                                      z3.Extract(11, 6, x))))
            out.append(simp(z3.Concat(z3.BitVecVal(2, 2),
                                      z3.Extract(5, 0, x))))
        else:
            out.append(simp(z3.Concat(z3.BitVecVal(30, 5),
                                      z3.Extract(20, 18, x))))
            out.append(simp(z3.Concat(z3.BitVecVal(2, 2),
                                      z3.Extract(17, 12, x))))
            out.append(simp(z3.Concat(z3.BitVecVal(2, 2),
                                      z3.Extract(11, 6, x))))
            out.append(simp(z3.Concat(z3.BitVecVal(2, 2),
                                      z3.Extract(5, 0, x))))
    return mkbytes(out)


def _lt(x, n):
    if isinstance(x, int):
        return x < n
    d = CTX.domain(x)
    if d is not None:
        if all(v < n for v in d):
            return True
        if all(v >= n for v in d):
            return False
    return CTX.branch(z3.ULT(x, n))


def decode(b, encoding="utf-8", errors="strict"):
    enc = _encname(encoding)
    items = b.items if isinstance(b, SymBytes) else tuple(b)
    out = []
    if enc in ("latin-1", "latin1", "iso-8859-1", "iso8859-1"):
        return mkstr([to_char(x) for x in items])
    if enc in ("ascii", "us-ascii"):
        for x in items:
            if not _lt(x, 128):
                if errors == "ignore":
                    continue
                if errors == "replace":
                    out.append(0xfffd)
                    continue
                raise UnicodeDecodeError("ascii", b"?", 0, 1,
                                         "ordinal not in range(128)")
            out.append(to_char(x))
        return mkstr(out)
    if enc.startswith(("utf-16", "utf-32")):
        return _decode_wide(items, enc, errors)
    if enc not in ("utf-8", "utf8", "utf-8-sig"):
        raise PathLimit("decoding " + enc)
    if all(_lt_known(x, 128) for x in items):
        return mkstr([to_char(x) for x in items])

    def bad(i):
        if errors not in ("strict", "surrogatepass"):
            raise PathLimit("lenient utf-8 decoding of symbolic bytes")
        raise UnicodeDecodeError("utf-8", b"?", i, i + 1, "invalid")

    i = 0
    n = len(items)
    if enc == "utf-8-sig" and n >= 3 and in_set(
            items[0], frozenset([0xef]), 8) and in_set(
            items[1], frozenset([0xbb]), 8) and in_set(
            items[2], frozenset([0xbf]), 8):
        i = 3

    def rng(x, lo, hi):
        if isinstance(x, int):
            return lo <= x <= hi
        return CTX.branch(z3.And(z3.UGE(x, lo), z3.ULE(x, hi)))

    def cont(x):
        return rng(x, 0x80, 0xbf)

    def low(x, k):
        return z3.Extract(k - 1, 0, item_bv(x))

    while i < n:
        x = items[i]
        if _lt(x, 128):
            out.append(to_char(x))
            i += 1
            continue
        if rng(x, 0xc2, 0xdf):
            if i + 1 >= n or not cont(items[i + 1]):
                bad(i)
            e = z3.Concat(z3.BitVecVal(0, CW - 11), low(x, 5),
                          low(items[i + 1], 6))
            i += 2
        elif rng(x, 0xe0, 0xef):
            if i + 1 >= n or not cont(items[i + 1]):
                bad(i)
            if i + 2 >= n or not cont(items[i + 2]):
                bad(i)
            e = z3.Concat(z3.BitVecVal(0, CW - 16), low(x, 4),
                          low(items[i + 1], 6), low(items[i + 2], 6))
            e = simp(e)
            over = z3.ULT(e, 0x800)
            if errors != "surrogatepass":
                over = z3.Or(over, z3.And(z3.UGE(e, 0xd800),
                                          z3.ULE(e, 0xdfff)))
            if CTX.branch(over):
                bad(i)
            i += 3
        elif rng(x, 0xf0, 0xf4):
            for k in (1, 2, 3):
                if i + k >= n or not cont(items[i + k]):
                    bad(i)
            e = z3.Concat(low(x, 3), low(items[i + 1], 6),
                          low(items[i + 2], 6), low(items[i + 3], 6))
            e = simp(e)
            if CTX.branch(z3.Or(z3.ULT(e, 0x10000), z3.UGT(e, 0x10ffff))):
                bad(i)
            i += 4
        else:
            bad(i)
        e = simp(e)
        out.append(e.as_long() if z3.is_bv_value(e) else e)
    return mkstr(out)


def _decode_wide(items, enc, errors):
    w = 2 if enc.startswith("utf-16") else 4
    if errors not in ("strict", "surrogatepass"):
        raise PathLimit("lenient " + enc)
    keep = errors == "surrogatepass"
    items = list(items)
    order = enc[7:]

    def bad():
        raise UnicodeDecodeError(enc, b"?", 0, 1, "invalid")
    if not order:
        order = "le"
        bom = bytes([0xff, 0xfe] + [0] * (w - 2))
        if len(items) >= w:
            h = mkbytes(items[:w])
            if h == bom:
                items = items[w:]
            elif h == bom[::-1]:
                order = "be"
                items = items[w:]
    units = []
    for i in range(0, len(items), w):
        u = items[i:i + w]
        if len(u) < w:
            units.append(None)
            break
        if order == "le":
            u = u[::-1]
        units.append(mkint(concat_items(u), 0, (1 << (8 * w)) - 1)
                     if not all(isinstance(x, int) for x in u)
                     else int.from_bytes(bytes(u), "big"))
    out = []
    i = 0
    while i < len(units):
        u = units[i]
        i += 1
        if u is None:
            bad()
        if u > 0x10ffff:
            bad()
        if and_(u >= 0xd800, u <= 0xdfff):
            if w == 2 and u < 0xdc00 and i < len(units) and \
                    units[i] is not None and and_(units[i] >= 0xdc00,
                                                  units[i] <= 0xdfff):
                u = 0x10000 + ((u & 0x3ff) << 10) + (units[i] & 0x3ff)
                i += 1
            elif not keep or (w == 2 and u < 0xdc00 and i < len(units) and
                              units[i] is None):
                bad()
        if isinstance(u, int):
            out.append(u)
        else:
            e = simp(_fit(u.e, CW, False))
            out.append(e.as_long() if z3.is_bv_value(e) else e)
    return mkstr(out)


def _lt_known(x, n):
    if isinstance(x, int):
        return x < n
    d = CTX.domain(x)
    return d is not None and all(v < n for v in d)


# --------------------------------------------------------------------------


def concretize(x, why):
    """Under-approximate: fix x to one value of the current model."""
    if isinstance(x, Sym):
        c = CTX
        c.note_incomplete("concretised: " + why)
        # as a decision so that re-execution picks the same value
        if c.pos < len(c.prefix):
            d = c.prefix[c.pos]
            c.pos += 1
            c._decide(d)
            v = d[1]
        else:
            m = c.get_model()
            if isinstance(x, SymBool):
                v = z3.is_true(CTX.meval(m, x.e))
            else:
                v = x.value_in(m)
            c.pos += 1
            c._decide(("c", v))
            c.prefix = c.decisions
        if isinstance(x, SymBool):
            cond = x.e if v else z3.Not(x.e)
        else:
            cond = zb(x == v)
        if isinstance(x, SymByteArray):
            v = bytearray(v)
        c.add(cond)
        return v
    if isinstance(x, list):
        return [concretize(i, why) for i in x]
    if isinstance(x, tuple):
        return tuple(concretize(i, why) for i in x)
    if isinstance(x, dict):
        return dict((concretize(k, why), concretize(v, why))
                    for k, v in x.items())
    return x


def deep_eq(a, b):
    """Structural equality -> bool | SymBool, with exact types (bool != int)"""
    if isinstance(a, Sym) or isinstance(b, Sym):
        if typename(a) != typename(b):
            return False
        r = a == b
        return r if isinstance(r, (bool, SymBool)) else False
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if type(a) != type(b) or len(a) != len(b):
            return False
        return and_(*[deep_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        conds = []
        if has_sym(list(a)) or has_sym(list(b)):
            for k, v in a.items():
                conds.append(or_(*[and_(deep_eq(k, k2), deep_eq(v, v2))
                                   for k2, v2 in b.items()]))
            return and_(*conds)
        for k, v in a.items():
            if k not in b:
                return False
            conds.append(deep_eq(v, b[k]))
        return and_(*conds)
    if isinstance(a, SymFloat) and isinstance(b, SymFloat) and \
            bool(deep_eq(a.text, b.text)):
        return True
    if type(a) != type(b):
        return False
    return a == b


class SymFloat(float):
    """A number read from symbolic text; only its type is known."""

    def __new__(cls, text):
        f = float.__new__(cls, "nan")
        f.text = text
        return f

    def _no(self, *a):
        raise PathLimit("use of a symbolic float")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __hash__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = _no
    __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __int__ = _no
    __neg__ = __abs__ = __floordiv__ = __mod__ = __format__ = _no

    def __repr__(self):
        return "<SymFloat>"
    __str__ = __repr__


def value_in(x, model):
    """Concrete value of any structure under a model."""
    if isinstance(x, SymFloat):
        return float(x.text.value_in(model))
    if isinstance(x, SymBool):
        return z3.is_true(CTX.meval(model, x.e))
    if isinstance(x, SymByteArray):
        return bytearray(SymBytes.value_in(x, model))
    if isinstance(x, Sym):
        return x.value_in(model)
    if isinstance(x, list):
        return [value_in(i, model) for i in x]
    if isinstance(x, tuple):
        return tuple(value_in(i, model) for i in x)
    if isinstance(x, dict):
        return dict((value_in(k, model), value_in(v, model))
                    for k, v in x.items())
    return x
