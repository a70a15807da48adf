"""C03 compact framing."""
import json
from jwkest import BadSyntax, JWKESTException
from jwkest.jwt import JWT, b64encode_item
from jwkest.jws import JWSig
from jwkest.jwe import JWEnc
from vlib.api import Case
from harness import ref

OUTSIDE = ["headers with other JSON types than objects of text, numbers, "
           "booleans, null and lists of them; longer tokens"]


def pack(S, cls, kinds, n, k):
    """pack then unpack; n-character header value, k octets per part"""
    v = S.text("v", n)
    parts = []
    for i, kind in enumerate(kinds):
        parts.append(S.bytes("p%d" % i, k + i) if kind == "b"
                     else S.text("p%d" % i, min(k, 2)))
    hdr = {"alg": "X1", "kid": v}
    tok = cls(**hdr).pack(parts=list(parts))
    hj = json.dumps(hdr, separators=(",", ":")).encode("utf-8")
    octets = [p if isinstance(p, bytes) else p.encode("utf-8")
              for p in parts]
    exp = b".".join([ref.b64url(x) for x in [hj] + octets])
    S.check(S.eq(tok, exp.decode("ascii")), "token text")
    for t in (tok, tok.encode("ascii")):
        j = cls().unpack(t)
        S.check(S.eq(j.headers, hdr), "header comes back")
        S.check(S.eq(list(j.part), [hj] + octets), "parts come back")
        S.check(S.eq(list(j.b64part), [ref.b64url(x) for x in
                                       [hj] + octets]), "texts come back")
    S.observe("tok", tok)
    S.reach("pack")


def json_part(S, n):
    """a part that is a JSON object"""
    v = S.text("v", n)
    i = S.int("i", 0, 300)
    b = S.bool("b")
    o = {"a": v, "b": [i, None, b], "c": {"d": v}}
    t = b64encode_item(o)
    S.check(S.eq(t, ref.b64url(json.dumps(o, separators=(",", ":"))
                               .encode("utf-8"))), "JSON text of the object")
    S.reach("json")


def split(S, n, prefix):
    """any octets after a header"""
    rest = S.bytes("rest", n)
    tok = prefix + rest
    r = S.attempt(JWT().unpack, tok)
    dots = [i for i in range(len(tok)) if S.truth(tok[i] == 0x2e)]
    S.observe("r", r.kind)
    if not dots:
        S.check(isinstance(r.exc, BadSyntax), "no dot is refused",
                got=r.kind)
        return S.reach("nodot")
    cuts = [-1] + dots + [len(tok)]
    texts = [tok[a + 1:b] for a, b in zip(cuts, cuts[1:])]
    cores = []
    legal = True
    for t in texts:
        c, ok = ref.b64url_legal(t)
        cores.append(c)
        legal = S.all(legal, ok)
    if r.ok:
        S.check(legal, "an illegal part is refused", parts=texts)
        S.check(S.eq(list(r.value.part), [ref.b64url_value(c)
                                          for c in cores]), "octets of parts")
        S.check(S.eq(list(r.value.b64part), texts), "texts of parts")
        S.check(S.eq(r.value.headers, {}), "header")
        S.reach("unpacked")
    else:
        S.check(isinstance(r.exc, (BadSyntax, ValueError)),
                "refused with a syntax error", got=r.kind)
        head = legal and S.eq(ref.b64url_value(cores[0]), b"{}")
        S.check(S.neg(S.all(legal, head)), "a legal token is unpacked",
                got=r.kind, parts=texts)
        S.reach("refused")


def header_kinds(S, text):
    """only JSON objects are headers"""
    tok = ref.b64url(text.encode()) + b"." + ref.b64url(b"x")
    r = S.attempt(JWT().unpack, tok)
    try:
        v = json.loads(text)
        obj = isinstance(v, dict)
    except ValueError:
        obj = False
    S.check(r.ok == obj, "only a JSON object is a header", got=r.kind)
    if r.ok:
        S.check(r.value.headers == v, "header value")
    S.reach("kinds")


def payload(S, n, cty):
    """payload(): text, unless it is JSON and the content type lets it be"""
    s = S.text("s", n)
    hdr = {"alg": "X"}
    if cty is not None:
        hdr["cty"] = cty
    j = JWT().unpack(JWT(**hdr).pack(parts=[s]))
    got = j.payload()
    want = s
    if cty is None or cty.lower() == "jwt":
        try:
            want = json.loads(s)
        except ValueError:
            want = s
    if isinstance(want, float):
        S.check(isinstance(got, float), "a number")
    else:
        S.check(S.eq(got, want), "payload value", got=got)
    S.reach("payload")


def cases(tier):
    big = tier == "thorough"
    out = []
    plan = [(JWT, "b", 1, 0), (JWT, "tb", 0, 2), (JWT, "bbbb", 0, 1),
            (JWSig, "bb", 0, 2), (JWEnc, "bbbb", 0, 1)]
    if big:
        plan += [(JWT, "b", 2, 0), (JWT, "t", 1, 2), (JWT, "bb", 1, 3),
                 (JWSig, "bb", 1, 1), (JWEnc, "bbbb", 1, 2),
                 (JWT, "bb", 0, 9), (JWT, "t", 0, 3)]
    for cls, kinds, n, k in plan:
        out.append(Case("pack-%s-%s-%d-%d" % (
            cls.__name__, kinds, n, k), pack,
            {"cls": cls, "kinds": kinds, "n": n, "k": k},
            weight=50 + 40 * n, reach=["pack"],
            bounds="every %d-character header value, parts of %d or "
            "more octets" % (n, k)))
    for n in range(0, 3 if big else 2):
        out.append(Case("json-%d" % n, json_part, {"n": n}, reach=["json"],
                        weight=1 + 4 * n,
                        bounds="every %d-character text" % n))
    for n in range(0, 7 if big else 6):
        out.append(Case("split-%d" % n, split, {"n": n, "prefix": b"e30"},
                        weight=10 * n, reach=["nodot"] if n == 0 else
                        ["nodot", "unpacked"],
                        bounds="every %d octets after the header" % n))
    for n in range(1, 7 if big else 6):
        out.append(Case("split-dot-%d" % n, split,
                        {"n": n, "prefix": b"e30."}, weight=10 * n,
                        reach=["unpacked"],
                        bounds="every %d octets after header and dot" % n))
    for n in range(1, 5 if big else 4):
        out.append(Case("split-any-%d" % n, split,
                        {"n": n, "prefix": b""}, weight=10 * n,
                        bounds="every %d octets" % n))
    for i, t in enumerate(['{}', '{"alg":"none"}', '[]', '["alg"]', '"a"',
                           '5', 'null', 'true', '{"a":{"b":[1,2]}}', '', '{',
                           '{"a":1,}', '{"a":1}x', ' {"a":1} ', "{'a':1}",
                           '\ufeff{}', '1.5', '{"a":"\\u00e9"}', '{"é":1}']):
        out.append(Case("header-%d" % i, header_kinds, {"text": t},
                        reach=["kinds"], bounds="header " + ascii(t)))
    for cty in (None, "JWT", "jwt", "text/plain", "xjwt"):
        for n in range(0, 3 if big else 2):
            out.append(Case("payload-%s-%d" % (cty, n), payload,
                            {"n": n, "cty": cty}, reach=["payload"],
                            weight=20 * n,
                            bounds="every %d-character payload" % n))
    return out
