"""Symbolic exploration of one harness case."""
import importlib
import os
import random
import sys
import time
import traceback

import z3

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
if HERE not in sys.path:
    sys.path.insert(0, HERE)

from symex import core, models, jsonm, crypto  # noqa
from symex.core import (Sym, SymBool, SymBytes, SymInt, SymStr, CW, mkbool,
                        mkbytes, mkint, mkstr, zb, value_in, Infeasible,
                        PathLimit, Stop, SolverUnknown, PathControl)
from symex.instrument import Finder, Snapshot
from .api import Case, Result, norm, enc_value

DEFAULT = object()
ANYCHAR = frozenset()


class SymS(object):
    symbolic = True

    def __init__(self, ctx, run):
        self.c = ctx
        self.run = run

    # -- inputs
    def _input(self, name, kind, v):
        self.c.inputs.append((name, kind, v))
        return v

    def bytes(self, name, n, alphabet=None):
        c = self.c
        items = []
        for i in range(n):
            e = c.fresh("%s[%d]" % (name, i), 8)
            if alphabet is not None:
                a = frozenset(alphabet)
                c.set_domain(e, a)
                c.add(core.set_expr(e, a))
            items.append(e)
        return self._input(name, "bytes", mkbytes(items))

    def text(self, name, n, alphabet=None, surrogates=False):
        c = self.c
        items = []
        for i in range(n):
            e = c.fresh("%s[%d]" % (name, i), CW)
            if alphabet is not None:
                a = frozenset(ord(x) if isinstance(x, str) else x
                              for x in alphabet)
                c.set_domain(e, a)
                c.add(core.set_expr(e, a))
            else:
                c.add(z3.ULE(e, 0x10ffff))
                if not surrogates:
                    c.add(z3.Or(z3.ULT(e, 0xd800), z3.UGT(e, 0xdfff)))
            items.append(e)
        return self._input(name, "text", mkstr(items))

    def int(self, name, lo, hi):
        w = max(1, max(abs(lo), abs(hi)).bit_length() + (1 if lo < 0 else 0))
        e = self.c.fresh(name, w)
        v = core.mkint_raw(e, lo, hi)
        if lo < 0:
            self.c.add(z3.And(e >= lo, e <= hi))
        else:
            if lo > 0:
                self.c.add(z3.UGE(e, lo))
            if hi < (1 << w) - 1:
                self.c.add(z3.ULE(e, hi))
        return self._input(name, "int", v)

    def bool(self, name):
        e = z3.Bool(name + "?%d" % len(self.c.inputs))
        return self._input(name, "bool", mkbool(e))

    def choose(self, name, options):
        options = list(range(options)) if isinstance(options, int) \
            else list(options)
        i = self.c.choose(len(options), name)
        self._input(name, "choice", i)
        return options[i]

    def assume(self, cond):
        if isinstance(cond, (bool, SymBool)):
            self.c.assume(cond)
        elif not cond:
            raise Infeasible()

    def stop(self):
        raise Stop()

    def random_policy(self, p):
        self.c.path_store["random"] = p

    def model_ec(self):
        crypto.model_ec()

    def drawn(self):
        """random values drawn so far: (strong?, kind, size, value)"""
        return list(self.c.random)

    # -- running the code under test
    def attempt(self, f, *a, **k):
        try:
            return Result(True, models.call(f, *a, **k))
        except Exception as e:
            self.run.check_internal(e)
            if type(e).__name__ in os.environ.get("VERIF_DEBUG", "").split():
                sys.stderr.write("".join(traceback.format_exception(
                    type(e), e, e.__traceback__)[-12:]))
            return Result(False, exc=e)

    # -- verdicts
    def observe(self, label, v):
        self.c.obs.append((label, v))

    def reach(self, label):
        self.run.reached[label] = self.run.reached.get(label, 0) + 1

    def check(self, cond, label, known=None, **info):
        self.run.obligation(self, cond, label, known, info)

    def fail(self, label, **info):
        self.check(False, label, **info)

    # -- logic usable on symbolic and plain values
    def eq(self, a, b):
        return core.deep_eq(a, b)

    def all(self, *xs):
        return core.and_(*xs)

    def any(self, *xs):
        return core.or_(*xs)

    def neg(self, x):
        return core.not_(x)

    def iff(self, a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return mkbool(zb(a) == zb(b))

    def implies(self, a, b):
        return core.implies(a, b)

    def settled(self, e):
        """a truth value that needs no solver, else None"""
        return None if isinstance(e, SymBool) else bool(e)

    def truth(self, x):
        return bool(x)

    def fix(self, x):
        """one concrete value per path (forks over all values of x)"""
        if isinstance(x, SymInt):
            return x.__index__()
        return x


class Run(object):
    """Exploration of one case; picklable summary in .result()."""

    def __init__(self, prop, case, tier, seed, deadline, traces=2):
        self.prop, self.case, self.tier = prop, case, tier
        self.seed = seed
        self.ctx = core.Ctx(case.name, max_steps=case.max_steps,
                            query_ms=case.query_ms)
        self.ctx.deadline = deadline
        core.set_ctx(self.ctx)
        self.reached = {}
        self.cands = []         # violation candidates
        self.cand_labels = {}
        self.known = {}
        self.traces = []
        self.ntraces = traces
        self.errors = []
        self.complete = True
        self.rng = random.Random("%s-%s" % (seed, case.name))
        self.labels = {}

    def check_internal(self, e):
        """an exception raised by the engine itself is not a result"""
        tb = e.__traceback__
        last = None
        while tb is not None:
            last = tb.tb_frame
            tb = tb.tb_next
        fn = last.f_code.co_filename if last else ""
        if isinstance(e, (z3.Z3Exception, models.NotModelled)) or (
                "/symex/" in fn and isinstance(
                    e, (AttributeError, NameError, AssertionError,
                        RecursionError)) and
                not getattr(e, "modelled", False)) or "/z3/" in fn:
            self.complete = False
            self.errors.append("engine: " + "".join(
                traceback.format_exception(type(e), e,
                                           e.__traceback__)[-6:]))
            raise PathLimit("engine error: %r" % e)

    # -- obligations
    def obligation(self, S, cond, label, known, info):
        c = self.ctx
        c.stats["obligations"] += 1
        lab = self.labels.setdefault(label, [0, 0])
        lab[0] += 1
        if not isinstance(cond, (bool, SymBool)):
            cond = bool(cond)
        if cond is True:
            c.stats["discharged"] += 1
            lab[1] += 1
            return
        bad = z3.BoolVal(True) if cond is False else z3.Not(cond.e)
        kid = None
        if known is not None:
            kid, kcond = known
            kz = zb(kcond) if not isinstance(kcond, bool) else \
                z3.BoolVal(kcond)
            self._known(S, kid, z3.And(bad, kz), label)
            bad = z3.simplify(z3.And(bad, z3.Not(kz)))
            if z3.is_false(bad):
                c.stats["discharged"] += 1
                lab[1] += 1
                if cond is False:
                    raise Stop()
                c.assume(cond)
                return
        r, m = self._solve(bad)
        if r == z3.unsat:
            c.stats["discharged"] += 1
            lab[1] += 1
        elif r == z3.sat:
            self._candidate(S, label, bad, m, info)
        else:
            c.note_incomplete("solver gave no answer on: " + label)
            self.complete = False
        if cond is False:
            raise Stop()
        c.assume(cond)

    def _solve(self, extra):
        c = self.ctx
        c.need(extra)
        if c.model is not None and z3.is_true(
                c.meval(c.model, extra)):
            c.stats["queries"] += 1
            c.stats["sat"] += 1
            return z3.sat, c.model
        r = c.check(extra)
        if r == z3.sat:
            return r, c.solver.model()
        if r == z3.unknown:
            # once more from scratch, with the non-incremental solver
            t = time.time()
            for s in (z3.Solver(), z3.SolverFor("QF_UFBV")):
                s.set("timeout", 2 * c.query_ms)
                s.add(*c.pc)
                s.add(extra)
                c.stats["queries"] += 1
                r = s.check()
                c.stats["solver_s"] += time.time() - t
                if r != z3.unknown:
                    break
            if r == z3.sat:
                return r, s.model()
        return r, None

    def _candidate(self, S, label, bad, m, info):
        n = self.cand_labels.get(label, 0)
        if n >= 3:
            return
        self.cand_labels[label] = n + 1
        t = self.realise([bad], m)
        m = t.pop("_m")
        t["label"] = label
        t["info"] = dict((k, norm(safe_value(v, m)))
                         for k, v in info.items())
        self.cands.append(t)

    def _known(self, S, kid, bad, label):
        if kid in self.known:
            return
        r, m = self._solve(bad)
        if r == z3.sat:
            t = self.realise([bad], m)
            t["label"] = label
            t["known"] = kid
            t.pop("_m", None)
            if t["realised"]:
                self.known[kid] = t

    # -- models to concrete runs
    def evaluate(self, extra, m):
        """The inputs as in m, every primitive computed in order: the model
        of that, if the path and `extra` still hold."""
        c = self.ctx
        subs = Subst()
        vs = {}

        def val(e):
            e = subs.apply(e)
            e = m.eval(e, model_completion=True)
            return e
        # fix the inputs first
        for src in ([v for _, _, v in c.inputs] +
                    [v for _, _, _, v in c.random]):
            for e in exprs_of(src):
                for v in variables(e):
                    vs[v.get_id()] = v
        base = [(v, m.eval(v, model_completion=True)) for v in vs.values()]
        subs.extend(base)
        try:
            for ap in c.apps:
                if ap.kind == "def":
                    v = val(ap.term)
                    if not z3.is_bv_value(v):
                        return None
                    subs.append((ap.out, v))
                    continue
                vals = []
                for a in ap.args:
                    b = []
                    for x in a:
                        if not isinstance(x, int):
                            x = val(x)
                            if not z3.is_bv_value(x):
                                return None
                            x = x.as_long()
                        b.append(x)
                    vals.append(bytes(b))
                out = ap.real(*vals)
                subs.append((ap.out, z3.BitVecVal(
                    int.from_bytes(out, "big"), ap.out.size())))
        except ValueError:
            return None
        for e in list(c.pc) + list(extra):
            if e.get_id() in c.given:
                continue
            if not z3.is_true(val(e)):
                return None
        s = z3.Solver()
        s.add(*[v == x for v, x in subs.pairs])
        s.set("timeout", c.query_ms)
        if s.check() != z3.sat:
            return None
        return s.model()

    def realise(self, extra, m, seconds=20):
        """A model in which every primitive has its real value, if found."""
        c = self.ctx
        for e in extra:
            c.need(e)
        for ap in c.apps:
            if ap.kind != "def":
                c.need(ap.out)
                for a in ap.args:
                    for x in a:
                        if not isinstance(x, int):
                            c.need(x)
        apps = [ap for ap in c.apps if ap.kind != "def"]
        ok = True
        if apps:
            m2 = self.evaluate(extra, m)
            if m2 is not None:
                return self.trace_of(m2, True)
            ok = False
            deadline = time.time() + seconds
            for tries in range(6):
                s = z3.Solver()
                s.set("timeout", c.query_ms)
                s.add(*c.pc)
                s.add(*extra)
                for b in getattr(self, "_blocks", []):
                    s.add(b)
                r = s.check()
                if r != z3.sat:
                    break
                m = s.model()
                good = True
                order = list(apps)
                if tries % 2:   # block ciphers from their results backwards
                    inv = [ap for ap in apps if ap.name in crypto.INVERSE]
                    if not inv:
                        continue
                    order = inv[::-1] + [ap for ap in apps
                                         if ap.name not in crypto.INVERSE]
                for ap in order:
                    vals = []
                    back = tries % 2 and ap.name in crypto.INVERSE
                    for j, a in enumerate(ap.args):
                        if back and j == 1:
                            o = m.eval(ap.out, model_completion=True)
                            v = crypto.INVERSE[ap.name](
                                vals[0], o.as_long().to_bytes(16, "big"))
                            s.add(ap.out == o)
                        else:
                            v = bytes(x if isinstance(x, int) else
                                      m.eval(x, model_completion=True)
                                      .as_long() for x in a)
                        vals.append(v)
                        for x, y in zip(a, v):
                            if not isinstance(x, int):
                                s.add(x == y)
                            elif x != y:
                                good = False
                    if not good:
                        break
                    if not back:
                        try:
                            out = ap.real(*vals)
                        except ValueError:
                            good = False
                            break
                        s.add(ap.out == z3.BitVecVal(
                            int.from_bytes(out, "big"), ap.out.size()))
                    if s.check() != z3.sat:
                        good = False
                        break
                    m = s.model()
                    if time.time() > deadline:
                        good = False
                        break
                if good:
                    ok = True
                    break
                if time.time() > deadline:
                    break
                # try another value of the first symbolic argument
                alt = [x != m.eval(x, model_completion=True)
                       for ap in apps for a in ap.args for x in a
                       if not isinstance(x, int)]
                if not alt:
                    break
                extra = list(extra) + [z3.Or(*self.rng.sample(
                    alt, min(len(alt), 3)))]
        return self.trace_of(m, ok)

    def trace_of(self, m, ok):
        c = self.ctx
        return {
            "property": self.prop, "case": self.case.name,
            "tier": self.tier, "optimize": self.case.optimize,
            "realised": ok, "exact": c.path_exact and
            not c.path_store.get("loose"), "_m": m,
            "loose": bool(c.path_store.get("loose")),
            "uf": bool(c.apps),
            "inputs": [(n, k, enc_value(k, value_in(v, m)))
                       for n, k, v in c.inputs],
            "random": [(k, n, enc_value(
                "bytes" if k == "bytes" else "int", value_in(v, m)))
                for _, k, n, v in c.random],
        }

    def maybe_trace(self):
        """keep some finished paths for validation on the real code"""
        c = self.ctx
        n = c.stats["paths"]
        k = self.ntraces
        if len(self.traces) < k:
            slot = len(self.traces)
        else:
            j = self.rng.randrange(n)
            if j >= k:
                return
            slot = j
        try:
            m = c.get_model()
        except PathControl:
            return
        t = self.realise([], m, 3)
        m = t.pop("_m")
        if not t["realised"]:
            return
        t["label"] = None
        t["obs"] = [(lab, norm(safe_value(v, m))) for lab, v in c.obs]
        if slot < len(self.traces):
            self.traces[slot] = t
        else:
            self.traces.append(t)

    # -- exploration
    def explore(self, modname):
        c = self.ctx
        finder = install(self.case.optimize)
        mod = importlib.import_module(modname)
        case = find_case(mod, self.case.name, self.tier)
        self.case = case
        snap = Snapshot()
        stack = [[]]
        crypto.KEYRING.clear()
        if hasattr(mod, "keyring"):
            for k in mod.keyring():
                if isinstance(k, tuple):        # (x, d) of an EC key
                    crypto.KEYRING[("EC", k[0])] = k[1]
                else:
                    crypto.KEYRING[int(k.n)] = k
        while stack:
            if c.deadline and time.time() > c.deadline:
                self.complete = False
                c.incomplete["time budget"] = len(stack)
                break
            prefix = stack.pop()
            snap.restore()
            c.begin(prefix)
            c.path_store["random"] = case.random
            S = SymS(c, self)
            done = False
            try:
                case.fn(S, **case.params)
                done = True
            except Stop:
                done = True
            except Infeasible:
                c.stats["infeasible"] += 1
            except PathLimit as e:
                c.stats["limits"] += 1
                self.complete = False
                c.incomplete[e.why] = c.incomplete.get(e.why, 0) + 1
            except SolverUnknown:
                self.complete = False
                c.stats["limits"] += 1
            except Exception as e:
                try:
                    self.check_internal(e)
                    self.obligation(
                        S, False, "no unexpected exception: %s" %
                        type(e).__name__, None,
                        {"traceback": "".join(traceback.format_exception(
                            type(e), e, e.__traceback__)[-5:])})
                except PathControl:
                    pass
            c.stats["steps"] += c.steps
            stack.extend(c.pending)
            if done:
                c.stats["paths"] += 1
                if not c.path_exact:
                    self.complete = False
                if not self.cands:
                    try:
                        self.maybe_trace()
                    except PathControl:
                        pass
            if len(self.cands) >= 6:
                self.complete = False
                break
        self.finder = finder

    def result(self):
        c = self.ctx
        return {
            "case": self.case.name, "bounds": self.case.bounds,
            "params": repr(self.case.params), "stats": c.stats,
            "functions": c.functions, "incomplete": c.incomplete,
            "labels": self.labels, "reached": self.reached,
            "missing": [r for r in self.case.reach
                        if r not in self.reached],
            "cands": self.cands, "known": self.known,
            "traces": self.traces, "errors": self.errors,
            "uf": c.uf_used, "complete": self.complete,
            "optimize": self.case.optimize,
        }


class Subst(object):
    """a growing simultaneous substitution (z3.substitute converts its
    arguments on every call)"""

    def __init__(self):
        self.pairs = []
        self.cap = 0

    def append(self, p):
        self.extend([p])

    def extend(self, ps):
        n = len(self.pairs)
        self.pairs.extend(ps)
        if len(self.pairs) > self.cap:
            self.cap = 2 * len(self.pairs) + 64
            self.f = (z3.Ast * self.cap)()
            self.t = (z3.Ast * self.cap)()
            n = 0
        for i in range(n, len(self.pairs)):
            self.f[i] = self.pairs[i][0].as_ast()
            self.t[i] = self.pairs[i][1].as_ast()

    def apply(self, e):
        if not self.pairs:
            return e
        return z3.z3._to_expr_ref(z3.Z3_substitute(
            e.ctx.ref(), e.as_ast(), len(self.pairs), self.f, self.t), e.ctx)


def exprs_of(v):
    """the z3 terms in a value"""
    if isinstance(v, z3.ExprRef):
        return [v]
    if isinstance(v, (SymInt, SymBool)):
        return [v.e]
    if isinstance(v, core.SymSeq):
        return [x for x in v.items if not isinstance(x, int)]
    return []


def variables(e):
    seen, out, todo = set(), [], [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


def safe_value(v, m):
    try:
        if isinstance(v, Result):
            return Result(v.ok, value_in(v.value, m), v.exc)
        return value_in(v, m)
    except Exception as e:      # an object we cannot evaluate
        return "<%s>" % type(e).__name__


_installed = None


def install(optimize=False):
    global _installed
    if _installed is None:
        _installed = Finder([("jwkest", os.path.join(REPO, "src"), False),
                             ("harness", HERE, True)], models.SX, optimize)
        sys.meta_path.insert(0, _installed)
        sys.dont_write_bytecode = True
    return _installed


def find_case(mod, name, tier):
    for c in mod.cases(tier):
        if c.name == name:
            return c
    raise KeyError(name)
