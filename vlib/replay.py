"""Runs recorded models against the real code (no instrumentation, real
primitives).  Run with the repository's own interpreter:

    /opt/venv/bin/python /verif/vlib/replay.py trace.json   (human readable)
    /opt/venv/bin/python /verif/vlib/replay.py --batch in.json out.json
"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[0:0] = [os.path.join(REPO, "src"), HERE]

from vlib.api import (Diverged, Violated, Skip, Result, norm,  # noqa
                      dec_value)

SCRIPT = {"q": [], "i": 0, "log": [], "policy": None}


def _caller_is_code():
    f = sys._getframe(2)
    n = f.f_globals.get("__name__", "")
    return n == "jwkest" or n.startswith("jwkest.")


def _next(kind, size):
    i = SCRIPT["i"]
    SCRIPT["i"] = i + 1
    q = SCRIPT["q"]
    if i < len(q):
        k, n, v = q[i]
        if (k != kind or n != size) and SCRIPT.get("loose"):
            return _stream(i, kind, size)
        if k != kind or n != size:
            raise Diverged("random draw %d: %s/%s, model had %s/%s" % (
                i, kind, size, k, n))
        return dec_value("bytes" if k == "bytes" else "int", v)
    if SCRIPT.get("loose"):
        return _stream(i, kind, size)
    raise Diverged("more random draws than in the model")


def _stream(i, kind, size):
    """a number of our own where the model stands for the code drawing"""
    import hashlib
    n = size if kind == "bytes" else (size + 7) // 8 if kind == "bits" else \
        (size.bit_length() + 7) // 8 + 8
    out = b""
    while len(out) < n:
        out += hashlib.sha256(b"replay-%d-%d" % (i, len(out))).digest()
    out = out[:n]
    if kind == "bytes":
        return out
    v = int.from_bytes(out, "big")
    return v & ((1 << size) - 1) if kind == "bits" else v % size


def patch_random():
    import random
    import secrets
    import Cryptodome.Random as CR
    import Cryptodome.Random.random as CRR
    from Cryptodome.Util import number
    real = {}

    def bytes_fn(name, mod, strong):
        real[name] = getattr(mod, name)

        def f(n=32, *a):
            if not SCRIPT.get("on") or not _caller_is_code():
                if SCRIPT.get("on") and mod is CR and _from_crypto():
                    return b"\x5a" * n
                return real_fn(n, *a)
            v = _next("bytes", n)
            SCRIPT["log"].append((strong, "bytes", n, v))
            return v
        real_fn = getattr(mod, name)
        setattr(mod, name, f)

    def _from_crypto():
        f = sys._getframe(2)
        return f.f_globals.get("__name__", "").startswith("Cryptodome")

    def int_fn(name, mod, strong, size):
        real_fn = getattr(mod, name)

        def f(*a, **k):
            if not SCRIPT.get("on") or not _caller_is_code():
                return real_fn(*a, **k)
            kind, n, off = size(*a, **k)
            v = _next(kind, n)
            SCRIPT["log"].append((strong, kind, n, v))
            return v + off
        setattr(mod, name, f)
    bytes_fn("get_random_bytes", CR, True)
    bytes_fn("urandom", os, True)
    bytes_fn("token_bytes", secrets, True)
    if hasattr(random, "randbytes"):
        bytes_fn("randbytes", random, False)

    def bits(k):
        return "bits", k, 0

    def rint(a, b):
        return "below", b + 1 - a, a

    def rrange(a, b=None, *x):
        return ("below", a, 0) if b is None else ("below", b - a, a)

    def gint(n, randfunc=None):
        return "bits", n, 0

    def grange(a, b, randfunc=None):
        return "below", b - a, a
    int_fn("getrandbits", random, False, bits)
    int_fn("randint", random, False, rint)
    int_fn("randrange", random, False, rrange)
    int_fn("randbits", secrets, True, bits)
    int_fn("randbelow", secrets, True, lambda n: ("below", n, 0))
    int_fn("getrandbits", CRR, True, bits)
    int_fn("randint", CRR, True, rint)
    int_fn("randrange", CRR, True, rrange)
    int_fn("getRandomRange", number, True, grange)
    int_fn("getRandomInteger", number, True, gint)

    real_new = CR.new

    class F(object):
        def __init__(self):
            self.r = real_new()

        def read(self, n):
            if SCRIPT.get("on") and _caller_is_code():
                v = _next("bytes", n)
                SCRIPT["log"].append((True, "bytes", n, v))
                return v
            if SCRIPT.get("on") and sys._getframe(1).f_globals.get(
                    "__name__", "").startswith("Cryptodome"):
                return b"\x5a" * n
            return self.r.read(n)

        def flush(self):
            pass
        reinit = close = flush
    CR.new = lambda *a, **k: F()

    class SysRandom(random.SystemRandom):
        def getrandbits(self, k):
            if SCRIPT.get("on") and _caller_is_code():
                v = _next("bits", k)
                SCRIPT["log"].append((True, "bits", k, v))
                return v
            return super(SysRandom, self).getrandbits(k)

        def randint(self, a, b):
            if SCRIPT.get("on") and _caller_is_code():
                v = _next("below", b + 1 - a)
                SCRIPT["log"].append((True, "below", b + 1 - a, v))
                return v + a
            return super(SysRandom, self).randint(a, b)

        def randrange(self, a, b=None, step=1):
            if SCRIPT.get("on") and _caller_is_code():
                if b is None:
                    a, b = 0, a
                v = _next("below", b - a)
                SCRIPT["log"].append((True, "below", b - a, v))
                return v + a
            return super(SysRandom, self).randrange(a, b, step)
    random.SystemRandom = SysRandom
    # module level shortcuts of Cryptodome bound before the patch
    secrets.SystemRandom = SysRandom


class ConS(object):
    symbolic = False

    def __init__(self, t):
        self.t = t
        self.inputs = list(t["inputs"])
        self.pos = 0
        self.obs = []
        self.checked = 0

    def _input(self, name, kind):
        if self.pos >= len(self.inputs):
            raise Diverged("input %s beyond the model" % name)
        n, k, v = self.inputs[self.pos]
        if n != name or k != kind:
            raise Diverged("input %s/%s where the model has %s/%s" % (
                name, kind, n, k))
        self.pos += 1
        return dec_value(kind, v)

    def bytes(self, name, n, alphabet=None):
        return self._input(name, "bytes")

    def text(self, name, n, alphabet=None, surrogates=False):
        return self._input(name, "text")

    def int(self, name, lo, hi):
        return self._input(name, "int")

    def bool(self, name):
        return self._input(name, "bool")

    def choose(self, name, options):
        options = list(range(options)) if isinstance(options, int) \
            else list(options)
        return options[self._input(name, "choice")]

    def assume(self, cond):
        if not cond:
            raise Skip()

    def stop(self):
        raise Skip()

    def model_ec(self):
        pass

    def random_policy(self, p):
        pass

    def drawn(self):
        return list(SCRIPT["log"])

    def attempt(self, f, *a, **k):
        try:
            return Result(True, f(*a, **k))
        except Exception as e:
            return Result(False, exc=e)

    def observe(self, label, v):
        self.obs.append((label, norm(v)))

    def reach(self, label):
        pass

    def check(self, cond, label, known=None, **info):
        self.checked += 1
        if not cond and not (known is not None and known[1] and
                             self.t.get("known") != known[0]):
            raise Violated(label, dict((k, norm(v)) for k, v in
                                       info.items()))

    def fail(self, label, **info):
        self.check(False, label, **info)

    def eq(self, a, b):
        if isinstance(a, bool) != isinstance(b, bool) or \
                type(a) is not type(b) and not (
                    isinstance(a, (list, tuple, dict)) and
                    type(a) is type(b)):
            return False
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y)
                                            for x, y in zip(a, b))
        if isinstance(a, dict):
            return len(a) == len(b) and all(
                k in b and self.eq(v, b[k]) for k, v in a.items())
        return a == b

    def all(self, *xs):
        return all(xs)

    def any(self, *xs):
        return any(xs)

    def neg(self, x):
        return not x

    def iff(self, a, b):
        return bool(a) == bool(b)

    def implies(self, a, b):
        return (not a) or bool(b)

    def settled(self, e):
        return bool(e)

    def truth(self, x):
        return bool(x)

    def fix(self, x):
        return x


_patched = False


def run_trace(t):
    global _patched
    if not _patched:
        patch_random()
        _patched = True
    mod = importlib.import_module(t["module"])
    for c in mod.cases(t["tier"]):
        if c.name == t["case"]:
            break
    else:
        return {"outcome": "error", "detail": "no such case"}
    S = ConS(t)
    SCRIPT.update(q=t["random"], i=0, log=[], on=True,
                  loose=t.get("loose"))
    out = {}
    try:
        c.fn(S, **c.params)
        out["outcome"] = "ok"
    except Violated as e:
        out.update(outcome="violated", label=e.label, info=e.info)
    except Skip:
        out["outcome"] = "ok" if S.pos == len(S.inputs) else "skip"
    except Diverged as e:
        out.update(outcome="diverged", detail=str(e))
    except Exception as e:
        import traceback
        out.update(outcome="violated",
                   label="no unexpected exception: %s" % type(e).__name__,
                   info={"traceback": traceback.format_exc()[-1500:]})
    finally:
        SCRIPT["on"] = False
    out["obs"] = S.obs
    out["checked"] = S.checked
    return out


def forked(t, timeout=120):
    """one trace in its own process: no state is shared between traces"""
    import select
    import signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = run_trace(t)
        except BaseException as e:
            out = {"outcome": "error", "detail": repr(e)}
        with os.fdopen(w, "w") as f:
            json.dump(out, f)
        os._exit(0)
    os.close(w)
    buf = b""
    import time
    end = time.time() + timeout
    while True:
        rem = end - time.time()
        if rem <= 0 or not select.select([r], [], [], rem)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return {"outcome": "timeout", "obs": []}
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(buf.decode())
    except ValueError:
        return {"outcome": "error", "detail": "no output", "obs": []}


def main(argv):
    if argv[:1] == ["--batch"]:
        with open(argv[1]) as f:
            ts = json.load(f)
        global _patched
        try:
            patch_random()
            _patched = True
            for m in set(t["module"] for t in ts):
                importlib.import_module(m)
        except Exception:       # every process tells
            pass
        import warnings
        from concurrent.futures import ThreadPoolExecutor
        warnings.simplefilter("ignore", DeprecationWarning)
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(forked, ts))
        with open(argv[2], "w") as f:
            json.dump(outs, f)
        return 0
    with open(argv[0]) as f:
        t = json.load(f)
    if t.get("optimize") and not sys.flags.optimize:
        os.execv(sys.executable, [sys.executable, "-O"] + sys.argv)
    out = forked(t)
    print("property %s, case %s" % (t["property"], t["case"]))
    for n, k, v in t["inputs"]:
        print("  input %s = %r" % (n, dec_value(k, v)))
    print("outcome:", out["outcome"], out.get("label", ""),
          out.get("detail", ""))
    for k, v in (out.get("info") or {}).items():
        print("  %s: %s" % (k, v))
    return 1 if out["outcome"] == "violated" else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
