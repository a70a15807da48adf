"""C07 what is signed verifies to the same message."""
import json
from jwkest.jws import JWS
from vlib.api import Case
from harness import ref, sigs, keys

keyring = keys.ring
ASSUMPTIONS = ["SHA-2 and HMAC are uninterpreted functions, so is the "
               "RSASSA-PKCS1-v1_5 signature of a digest under a key; whether "
               "octets are a PSS or ECDSA signature of a digest is an "
               "uninterpreted relation"]
OUTSIDE = ["longer messages than stated; text with lone surrogates; JSON "
           "values nested deeper than stated"]
PLAIN = [c for c in range(0x20, 0x7f) if c not in (0x22, 0x5c)]
LETTERS = [ord(c) for c in "ghijklmopqrsuvwxyz"]


def expected(m):
    """what verification returns for a message: its JSON value if it has
    one, else the text, else the octets"""
    if isinstance(m, bytes):
        try:
            m = m.decode("utf-8")
        except UnicodeDecodeError:
            pass
    try:
        return json.loads(m)
    except ValueError:
        return m


def octets(m):
    if isinstance(m, bytes):
        return m
    if isinstance(m, str):
        return m.encode("utf-8")
    return None


def roundtrip(S, alg, m, want, kid=None, how="given"):
    S.random_policy("stream")
    S.model_ec()
    kw = {} if kid is None else {"kid": kid}
    k = sigs.key(alg, 0, **(dict(kw, alg=alg) if how == "key" else kw))
    if how == "key":
        j = JWS(m)
    else:
        j = JWS(m, alg=alg)
    tok = j.sign_compact([k])
    S.check(isinstance(tok, str), "text")
    raw = tok.encode("ascii")
    parts = raw.split(b".")
    S.check(len(parts) == 3, "three parts")
    dec = [ref.unb64(p) for p in parts]
    for p, d in zip(parts, dec):
        S.check(S.eq(ref.b64u(d), p), "base64url without padding")
    head = json.loads(dec[0].decode("utf-8"))
    S.check(S.eq(head["alg"], alg), "algorithm in the header")
    if kid is None:
        S.check("kid" not in head, "no key id")
    else:
        S.check(S.eq(head["kid"], kid), "key id in the header")
    o = octets(m)
    if o is not None:
        S.check(S.eq(dec[1], o), "payload is the message")
    else:
        S.check(S.eq(json.loads(dec[1].decode("utf-8")), m),
                "payload is the JSON of the message")
    S.check(sigs.valid(S, alg, 0, parts[0] + b"." + parts[1], dec[2]),
            "signature by the algorithm")
    pub = [sigs.key(alg, 0, private=False, **kw)]
    r = JWS().verify_compact_verbose(tok, pub)
    S.check(S.eq(r["msg"], want), "the same message", got=r["msg"])
    S.check(r["key"] is pub[0], "the key")
    r = JWS(alg=alg).verify_compact(raw, pub, sigalg=alg)
    S.check(S.eq(r, want), "the same message from octets", got=r)
    S.observe("payload", dec[1])
    S.observe("msg", r)
    S.reach("same")


def text(S, alg, n, first, rest, nkid=None, how="given"):
    t = ""
    if n:
        t = S.text("first", 1, first) + S.text("rest", n - 1, rest)
    kid = None if nkid is None else S.text("kid", nkid, PLAIN)
    roundtrip(S, alg, t, expected(t), kid, how)


def binary(S, alg, n, first, rest, nkid=None, how="given"):
    t = b""
    if n:
        t = S.bytes("first", 1, first) + S.bytes("rest", n - 1, rest)
    kid = None if nkid is None else S.text("kid", nkid, PLAIN)
    roundtrip(S, alg, t, expected(t), kid, how)


def obj(S, alg, shape, n):
    s = S.text("s", n, PLAIN if n > 1 else None)
    if shape == "value":
        m = {"a": s}
    elif shape == "name":
        m = {s: 1, "zz": None}
    elif shape == "nested":
        m = {"a": [1, s, {"b": s, "c": [True, False, None, []]}], "d": {}}
    elif shape == "number":
        m = {"a": S.choose("v", [0, 1, -1, 1.5, -0.25, 1e300, 1 << 70, 10,
                                 -123456789]), "b": s}
    elif shape == "bytes":
        m = {"a": s.encode("utf-8"), "b": [s.encode("utf-8")]}
        w = {"a": s, "b": [s]}
        S.model_ec()
        k = sigs.key(alg, 0)
        tok = JWS(m, alg=alg).sign_compact([k])
        r = JWS().verify_compact(tok, [k])
        S.check(S.eq(r, w), "the text of the octets")
        return S.reach("same")
    else:
        m = [s, {"a": s}, 1]
    roundtrip(S, alg, m, m)


def kinds(S, alg, m):
    """particular messages"""
    roundtrip(S, alg, m, expected(m) if isinstance(m, (str, bytes)) else m,
              S.choose("kid", [None, "a", "\u00e9\u20ac", "x" * 70,
                               'q"\\/\n']))


FIXED = ["", b"", " ", "message", b"message", '{"a":1}', b'{"a": 1}', "[1]",
         "null", "true", '"text"', "1e3", "-0", "{", "\u00e9",
         "\U0001f600", "\x00", "\ufeff{}", "a.b.c", "=", "\r\n", b"\xff\xfe",
         b"\xff\xfe1\x00", b"\x80", b"\xc3\xa9", b"\x00", bytes(range(256)),
         {}, {"a": {"b": [1, 2, {"c": "\u20ac"}]}}, [], ["x"],
         {"": ""}, {"a": "\u2028\"\\"}, {"f": 0.1}, "x" * 3000]


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, weight=5, bounds="", **k):
        out.append(Case(name, fn, k, reach=("same",), weight=weight,
                        bounds=bounds))
    for alg in sigs.ALGS:
        hs = alg[0] == "H"
        for n in (0, 1, 5, 20) if hs or big else (5,):
            add("text-%s-%d" % (alg, n), text, alg=alg, n=n, first=LETTERS,
                rest=PLAIN, nkid=2, bounds="every printable text of %d "
                "characters (first a letter), every key id of 2" % n)
        add("text-key-%s" % alg, text, alg=alg, n=3, first=LETTERS,
            rest=PLAIN, nkid=None, how="key", bounds="every printable text "
            "of 3 characters, algorithm named by the key")
        for n in (0, 1, 16, 64) if hs or big else (16,):
            add("octets-%s-%d" % (alg, n), binary, alg=alg, n=n,
                first=LETTERS, rest=range(128), nkid=1, bounds="every octets "
                "below 128 of length %d (first a letter)" % n)
        add("object-%s" % alg, obj, alg=alg, shape="nested", n=3,
            bounds="every text of 3 printable characters within an object")
    for n in (1, 2) + ((3,) if big else ()):
        add("any-text-%d" % n, text, alg="HS256", n=n, first=None, rest=None,
            weight=30, bounds="every text of %d characters" % n)
        add("any-octets-%d" % n, binary, alg="HS256", n=n, first=None,
            rest=None, weight=30, bounds="every %d octets" % n)
    for n in (3, 4):
        add("unicode-%d" % n, text, alg="HS512", n=n, first=LETTERS,
            rest=None, weight=10, bounds="a letter and every %d characters"
            % (n - 1))
    for n in (5,) + ((6, 8) if big else ()):
        add("digits-%d" % n, text, alg="HS384", n=n,
            first=[ord(c) for c in "{[\"-1t "],
            rest=[ord(c) for c in "0}\" ."], weight=10,
            bounds="every text of %d characters JSON is made of" % n)
    for shape in ("value", "name", "nested", "number", "bytes", "list"):
        for n in ((0, 4) if shape == "number" else (0, 1, 4)) + (
                (2, 12) if big else ()):
            add("%s-%d" % (shape, n), obj, alg="HS256", shape=shape, n=n,
                bounds="every text of %d characters in an object" % n)
    for i, m in enumerate(FIXED):
        add("fixed-%d" % i, kinds, alg=sigs.ALGS[i % 12], m=m, weight=1,
            bounds="one message")
    return out
