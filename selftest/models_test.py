"""Pushes concrete values through the models (as symbols pinned to a value)
and compares with the real functions.  python3-vt selftest/models_test.py"""
import base64, binascii, json, os, random, re, struct, sys, hmac
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import driver
from vlib.api import Result, norm
from symex import core, models, crypto
from symex.core import *
import six
from Cryptodome.Util import number

rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
call = models.call


def pin_b(v, n=[0]):
    c = core.CTX
    out = []
    for x in v:
        n[0] += 1
        e = c.fresh("p%d" % n[0], 8)
        c.add(e == x)
        out.append(e)
    return mkbytes(out)


def pin_s(v, n=[0]):
    c = core.CTX
    out = []
    for x in v:
        n[0] += 1
        e = c.fresh("s%d" % n[0], CW)
        c.add(e == ord(x))
        out.append(e)
    return mkstr(out)


def pin_i(v, n=[0]):
    c = core.CTX
    n[0] += 1
    w = max(1, abs(v).bit_length() + 1)
    lo = 0 if v >= 0 else -(1 << (w - 1))
    e = c.fresh("i%d" % n[0], w)
    c.add(e == v)
    return core.mkint_raw(e, lo, (1 << (w - 1)) - 1 if lo else (1 << w) - 1)


def pin(v):
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, bytes):
        return pin_b(v)
    if isinstance(v, str):
        return pin_s(v)
    if isinstance(v, int):
        return pin_i(v)
    if isinstance(v, list):
        return [pin(i) for i in v]
    if isinstance(v, tuple):
        return tuple(pin(i) for i in v)
    if isinstance(v, dict):
        return dict((k, pin(x)) for k, x in v.items())
    return v


def outcome(f, *a, **k):
    try:
        return Result(True, f(*a, **k))
    except Exception as e:
        return Result(False, exc=e)


bad = cnt = 0


def cmp(name, f, args, fsym=None, pinned=None):
    """f(*args) real vs the same on pinned symbols"""
    global bad, cnt
    cnt += 1
    c = core.Ctx(name)
    core.set_ctx(c)
    core.set_ctx(None)
    r = outcome(f, *args)
    core.set_ctx(c)
    try:
        a = pinned(args) if pinned else [pin(x) for x in args]
        if fsym is None and getattr(f, '__module__', '') == '__main__':
            fsym = f
        s = outcome(fsym or (lambda *x: call(f, *x)), *a)
        m = c.get_model()
        got = norm(driver.safe_value(s, m))
    except core.PathControl as e:
        got = "PATH " + repr(e) + getattr(e, "why", "")
    want = norm(r)
    if c.incomplete:
        got = ["incomplete", c.incomplete]
    if got != want:
        bad += 1
        if bad < 40:
            print("DIFF", name, [repr(x)[:60] for x in args], "\n   real", str(want)[:200], r.exc, "\n   sym ", str(got)[:200], getattr(locals().get("s"), "exc", None))


def rb(n, alpha=None):
    alpha = alpha or range(256)
    return bytes(rng.choice(list(alpha)) for _ in range(n))


def rs(n, alpha):
    return "".join(rng.choice(alpha) for _ in range(n))


B64 = b"ABCxyz019-_+/= \n"
for i in range(300):
    v = rb(rng.randrange(0, 9), B64 if i % 2 else list(B64) + [0, 200])
    cmp("urlsafe_b64decode", base64.urlsafe_b64decode, [v])
    cmp("b64decode", base64.b64decode, [v])
    cmp("a2b", binascii.a2b_base64, [v])
    cmp("b64decode_validate", base64.b64decode, [v],
        lambda x: call(base64.b64decode, x, validate=True)) if 0 else None
for i in range(60):
    v = rb(rng.randrange(0, 9))
    for f in (base64.urlsafe_b64encode, base64.b64encode, binascii.hexlify,
              number.bytes_to_long):
        cmp(f.__name__, f, [v])
    cmp("decode", lambda b: b.decode(), [v], lambda b: call(b.decode))
    cmp("decode-latin", lambda b: b.decode("latin-1"), [v])
    cmp("decode-ascii", lambda b: b.decode("ascii"), [v])
    v = rb(rng.randrange(0, 6), [0x41, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0x98, 0x80, 0xed, 0xa0, 0xf4, 0x90, 0xc0, 0xff])
    cmp("decode-utf8", lambda b: b.decode("utf-8"), [v])
    v = rb(rng.randrange(0, 7), b"0123abAFg x")
    cmp("unhexlify", binascii.unhexlify, [v])
    cmp("int16", lambda s: int(s, 16), [v.decode()], lambda s: call(int, s, 16))
    v = rs(rng.randrange(0, 5), "019+-_ ax")
    cmp("int10", lambda s: int(s), [v], lambda s: call(int, s))
    v = rs(rng.randrange(0, 5), "a\"\\\u00e9\u20ac\U0001f600\n\x7f")
    cmp("encode", lambda s: s.encode(), [v])
    cmp("encode-ascii", lambda s: s.encode("ascii"), [v])
    cmp("dumps", json.dumps, [v])
    cmp("dumps", json.dumps, [{"a": v, "b": [1, v, None, True, {"c": rng.randrange(300)}]}])
    cmp("dumps-sep", lambda o: json.dumps(o, separators=(",", ":"), sort_keys=True), [{"b": v, "a": [v]}],
        lambda o: call(json.dumps, o, separators=(",", ":"), sort_keys=True))
    cmp("dumps-asc", lambda o: json.dumps(o, ensure_ascii=False), [{"b": v, "a": [v]}],
        lambda o: call(json.dumps, o, ensure_ascii=False))
    n = rng.randrange(0, 1 << rng.choice([1, 8, 9, 16, 40]))
    for f in (number.long_to_bytes, hex, str, bin):
        if f is bin:
            continue
        cmp(getattr(f, "__name__", "f"), f, [n])
    cmp("hexfmt", lambda x: "%x" % x, [n], lambda x: models.mod("%x", x))
    cmp("02x", lambda x: "%02x|%d|%s" % (x, x, x), [n], lambda x: models.mod("%02x|%d|%s", (x, x, x)))
    cmp("ltb16", lambda x: number.long_to_bytes(x, 16), [n], lambda x: call(number.long_to_bytes, x, 16))
    cmp("bit_length", lambda x: x.bit_length(), [n])
    cmp("to_bytes", lambda x: x.to_bytes(3, "big"), [n], lambda x: call(x.to_bytes, 3, "big"))
    cmp("from_bytes", lambda x: int.from_bytes(x, "big"), [v.encode()], lambda x: call(int.from_bytes, x, "big"))
    m = rng.randrange(-50, 50)
    k = rng.choice([-17, -3, -1, 1, 2, 7, 64, 255])
    for op in "+ - * // % & | ^ < <= == != >".split():
        f = eval("lambda a, b: a %s b" % op)
        cmp("op" + op, f, [n, m], f) if not (op in "//%" and m == 0) else None
        cmp("opk" + op, lambda a: f(a, k), [m], lambda a: f(a, k))
        cmp("opr" + op, lambda a: f(k, a), [n or 1], lambda a: f(k, a))
    cmp("divmod", divmod, [m, k])
    cmp("divmod256", lambda a: divmod(a, 256), [n], lambda a: divmod(a, 256))
    cmp("<<", lambda a: (a << 5) >> 3, [m], lambda a: (a << 5) >> 3)
    cmp("pow", lambda a: pow(a, 3, 17), [m], lambda a: call(pow, a, 3, 17))
    cmp("~", lambda a: -(~a), [m], lambda a: -(~a))
    cmp("pack>Q", lambda a: struct.pack(">Q", a), [n], lambda a: call(struct.pack, ">Q", a))
    cmp("pack>I", lambda a: struct.pack(">I", a), [n], lambda a: call(struct.pack, ">I", a))
    v = rb(8)
    cmp("unpack", lambda a: struct.unpack(">QI4s", a + b"abcd" + b"1234"), [v],
        lambda a: call(struct.unpack, ">QI4s", a + b"abcd" + b"1234"))
    cmp("xor", lambda a, b: bytes(x ^ y for x, y in zip(a, b)), [v, rb(8)],
        lambda a, b: call(bytes, (x ^ y for x, y in zip(a, b))))
STR = "ab.=  \t"
for i in range(150):
    v = rs(rng.randrange(0, 7), STR)
    w = rs(rng.randrange(1, 3), STR)
    for name in ("split", "rsplit", "find", "rfind", "count", "partition", "rpartition", "strip", "lstrip", "rstrip",
                 "startswith", "endswith", "index", "removeprefix", "removesuffix"):
        f = lambda s, t, name=name: getattr(s, name)(t)
        g = lambda s, t, name=name: call(getattr(s, name), t)
        if "strip" in name:
            cmp(name + "-k", f, [v, w], g, pinned=lambda a: [pin(a[0]), a[1]])
            continue
        cmp(name, f, [v, w], g)
        cmp(name + "-k", f, [v.encode(), w.encode()], g, pinned=lambda a: [pin(a[0]), a[1]])
        cmp(name + "-r", f, [v, w], g, pinned=lambda a: [a[0], pin(a[1])])
    for name in ("split", "strip", "lower", "upper", "isdigit", "isalpha", "isalnum", "isspace", "isascii", "title" if 0 else "isupper", "islower"):
        f = lambda s, name=name: getattr(s, name)()
        cmp(name + "0", f, [v], lambda s, name=name: call(getattr(s, name)))
        cmp(name + "0b", f, [v.encode()], lambda s, name=name: call(getattr(s, name)))
    cmp("replace", lambda s: s.replace(w, "XY"), [v], lambda s: call(s.replace, w, "XY"))
    cmp("split2", lambda s: s.split(w, 1), [v], lambda s: call(s.split, w, 1))
    cmp("in", lambda s, t: t in s, [v, w], lambda s, t: models.in_(t, s))
    cmp("cmp", lambda s, t: (s < t, s <= t, s == t, s > t), [v, w], lambda s, t: (bool(s < t), bool(s <= t), bool(s == t), bool(s > t)))
    cmp("slice", lambda s: (s[1:], s[:-1], s[::-1], s[-2:], s + w, w + s, s * 2), [v], lambda s: (s[1:], s[:-1], s[::-1], s[-2:], s + w, w + s, s * 2))
    cmp("join", lambda s: w.join([s, "x", s]), [v], lambda s: call(w.join, [s, "x", s]))
    cmp("fmt", lambda s: "{0}-{1:>5}-{0!r}".format(s, "q") if 0 else "{0}-{1}".format(s, 1), [v], lambda s: call("{0}-{1}".format, s, 1))
    cmp("pct", lambda s: "%s-%s" % (s, 3), [v], lambda s: models.mod("%s-%s", (s, 3)))
PATS = [b"^[A-Za-z0-9_-]*$", b"[ab]+\\.", b"^(a|b)*\\Z", b"a{1,2}b?$"]
for i in range(200):
    v = rb(rng.randrange(0, 6), b"ab.\n-Z")
    for p in PATS:
        q = re.compile(p)
        cmp("re", lambda s: bool(q.match(s)), [v], lambda s: bool(call(q.match, s)))
        cmp("refull", lambda s: bool(q.fullmatch(s)), [v], lambda s: bool(call(q.fullmatch, s)))
        cmp("research", lambda s: bool(q.search(s)), [v], lambda s: bool(call(q.search, s)))
J = ['{"a":1}', '[1, "x", null]', '"\\u00e9\\ud83d\\ude00\\ud800x"', '{"a" : {"b":[true,false]}, "a":2}', ' 12 ', '-0', '01', '1.5e3', '-',
     'NaN', '[1,]', '{"a":1,}', '{a:1}', '"\\x"', '"a\nb"', 'nul', '', '  ', '"\\u12', '{"a"', '[', '{"a":1} x', '\ufeff{}', '123', '-12', '1e5',
     '1E+2', '1.', '"\\ud800\\u0041"', '[[]]', '{}', '"\\/\\b\\f\\n\\r\\t\\""']
for s in J:
    cmp("loads", json.loads, [s])
    cmp("loadsb", json.loads, [s.encode("utf-8")])
    for _ in range(12):
        t = list(s)
        if t:
            t[rng.randrange(len(t))] = rng.choice('{}[]",:0a\\ u-.')
        t = "".join(t)
        cmp("loads", json.loads, [t])
        cmp("loadsb", json.loads, [t.encode("utf-8")])
for i in range(50):
    v = rb(rng.randrange(0, 6), [0, 0x7b, 0x7d, 0xff, 0xfe, 0x31, 0xef, 0xbb, 0xbf])
    try:
        enc = json.detect_encoding(v)
    except Exception:
        enc = None
    if enc and enc.startswith("utf-8"):
        cmp("loadsb", json.loads, [v])
# dict/list containers with symbolic keys
for i in range(60):
    d = dict((rs(rng.randrange(0, 2), "ab"), j) for j in range(3))
    k = rs(rng.randrange(0, 2), "ab")
    cmp("dget", lambda x: d.get(x, 7), [k], lambda x: call(d.get, x, 7))
    cmp("din", lambda x: x in d, [k], lambda x: models.in_(x, d))
    cmp("dsub", lambda x: d[x], [k], lambda x: models.sub(d, x))
    cmp("lin", lambda x: x in list(d), [k], lambda x: models.in_(x, list(d)))
    cmp("tin", lambda x: x in ("a", "b"), [k], lambda x: models.in_(x, ("a", "b")))
    cmp("cd", lambda a, b: hmac.compare_digest(a, b), [k.encode(), b"a"], lambda a, b: call(hmac.compare_digest, a, b))
    cmp("isinst", lambda x: (isinstance(x, str), isinstance(x, bytes), isinstance(x, six.string_types), type(x) == str), [k],
        lambda x: (call(isinstance, x, str), call(isinstance, x, bytes), call(isinstance, x, six.string_types), bool(call(type, x) == str)))
    cmp("bytearray", lambda x: bytes(bytearray(x)), [k.encode()], lambda x: call(bytes, call(bytearray, x)))
    cmp("list", lambda x: list(x), [k.encode()], lambda x: call(list, x))
    cmp("tuple", lambda x: tuple(x), [k], lambda x: call(tuple, x))
    cmp("sorted", lambda x: sorted(x), [k + "ab"], lambda x: call(sorted, x)) 
    cmp("int_b", lambda x: int.from_bytes(x, "little"), [k.encode()], lambda x: call(int.from_bytes, x, "little"))
    cmp("ord", lambda x: [ord(c) for c in x], [k], lambda x: [call(ord, c) for c in x])
    cmp("repr", lambda x: "%r" % (x,), [k], lambda x: models.mod("%r", (x,)))
    cmp("any", lambda x: any(c == "a" for c in x), [k], lambda x: bool(call(any, (c == "a" for c in x))))
    cmp("sum", lambda x: sum(x), [k.encode()], lambda x: call(sum, x))
    cmp("max", lambda x: max(x), [k.encode() + b"x"], lambda x: call(max, x))
print("compared", cnt, "differences", bad)
sys.exit(1 if bad else 0)
