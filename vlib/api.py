"""What a harness sees as S, in both modes.

A harness function runs twice: instrumented and symbolic (driver.SymS), and
plain on the real code with the values of one solver model (replay.ConS).
"""


class Diverged(BaseException):
    """A replay left the path of the model it was made from."""


class Violated(BaseException):
    def __init__(self, label, info=None):
        BaseException.__init__(self, label)
        self.label, self.info = label, info


class Skip(BaseException):
    """Assumption not met / path finished."""


class Result(object):
    """Outcome of S.attempt."""

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    @property
    def kind(self):
        return "ok" if self.ok else type(self.exc).__name__

    def __repr__(self):
        return "<%s %r>" % (self.kind, self.value if self.ok else self.exc)


class Case(object):
    """One symbolic run: fn(S, **params) over all values of its inputs."""

    def __init__(self, name, fn, params=None, reach=(), optimize=False,
                 budget=None, weight=1, bounds="", query_ms=20000,
                 max_steps=20000000, random="symbolic"):
        self.name, self.fn, self.params = name, fn, params or {}
        self.reach, self.optimize, self.budget = tuple(reach), optimize, \
            budget
        self.weight, self.bounds, self.query_ms = weight, bounds, query_ms
        self.max_steps = max_steps
        self.random = random


def norm(v, depth=6):
    """JSON-able canonical form of an observed value."""
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return "i%d" % v
    if isinstance(v, float):
        return "f%r" % v
    if isinstance(v, (bytes, bytearray)):
        return "%s%s" % ("b" if isinstance(v, bytes) else "a", v.hex())
    if isinstance(v, str):
        return "s" + v.encode("utf-8", "backslashreplace").decode()
    if isinstance(v, Result):
        return ["R", v.kind, norm(v.value, depth - 1) if v.ok else None]
    if depth and isinstance(v, (list, tuple)):
        return [type(v).__name__] + [norm(i, depth - 1) for i in v]
    if depth and isinstance(v, dict):
        return ["dict"] + sorted(([norm(a, depth - 1), norm(b, depth - 1)]
                                  for a, b in v.items()), key=repr)
    return "<%s>" % type(v).__name__


def enc_value(kind, v):
    if kind == "bytes":
        return v.hex()
    if kind == "text":
        return [ord(c) for c in v]
    if kind == "int":
        return str(v)
    return v


def dec_value(kind, v):
    if kind == "bytes":
        return bytes.fromhex(v)
    if kind == "text":
        return "".join(chr(c) for c in v)
    if kind == "int":
        return int(v)
    return v
