"""C22 telling tokens apart."""
import json
from jwkest import BadSyntax
from jwkest import jws, jwe
from jwkest.jws import JWS
from jwkest.jwe import JWEnc, JWE
from vlib.api import Case
from harness import ref

OUTSIDE = ["JSON nested deeper than the interpreter's recursion limit; longer "
           "texts"]
PLAIN = "".join(chr(c) for c in range(32, 127) if chr(c) not in '"\\')
SIG = ["HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "ES256", "ES384",
       "ES512", "PS256", "PS384", "PS512", "none"]
ALG = ["RSA1_5", "RSA-OAEP", "RSA-OAEP-256", "A128KW", "A192KW", "A256KW",
       "ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW"]
ENC = ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512", "A128GCM",
       "A192GCM", "A256GCM"]


def ask_jws(S, tok):
    """is_jws and factory give the same yes or no, whatever the text"""
    j = JWS()
    r = S.attempt(j.is_jws, tok)
    S.check(r.ok, "an answer", got=r.kind, tok=tok)
    S.check(r.value is True or r.value is False, "the answer is yes or no")
    f = S.attempt(jws.factory, tok)
    S.check(f.ok, "factory answers", got=f.kind)
    S.check((f.value is not None) == r.value, "factory agrees")
    if r.value:
        S.check(isinstance(f.value, JWS), "factory gives an object")
    S.observe("answer", r.value)
    return r.value


def any_text(S, n, text, prefix=""):
    t = S.text("t", n) if text else S.bytes("t", n)
    tok = (prefix if text else prefix.encode()) + t
    a = ask_jws(S, tok)
    S.check(not a, "nothing this short is a signed token", tok=tok)
    S.reach("any")


def jws_alg(S, n, text):
    """compact text, header alg of n characters"""
    alg = S.text("alg", n, PLAIN if n > 1 else None)
    h = {"alg": alg}
    extra = S.choose("extra", [None, ("typ", "JWE"), ("enc", "A128GCM")])
    if extra:
        h[extra[0]] = extra[1]
    tok = ref.tok(ref.jdump(h), b"{}", b"sig")
    if text:
        tok = tok.decode("ascii")
    a = ask_jws(S, tok)
    S.check(S.iff(a, S.any(*[S.eq(alg, x) for x in SIG if len(x) == n])),
            "yes exactly for a supported algorithm", alg=alg)
    S.reach("yes" if a else "no")


def jws_case(S, name):
    """any spelling of one algorithm name"""
    alg = "".join(c.lower() if S.choose("c%d" % i, 2) else c.upper()
                  for i, c in enumerate(name))
    a = ask_jws(S, ref.tok(ref.jdump({"alg": alg}), b"x", b"y"))
    S.check(a == (alg in SIG), "names are exact", alg=alg)
    S.reach("case")


SHAPES = ['{"alg":5}', '{"alg":true}', '{"alg":["HS256"]}',
          '{"alg":{"HS256":1}}', '{"alg":1.5}', '{}', '{"typ":"JWT"}', '[]',
          '["alg"]', '[["alg","HS256"]]', '"HS256"', '"alg"', '5', 'null',
          'true', '1.5', 'NaN', '{"Alg":"HS256"}', '{"alg":"HS256"',
          '{"alg":"HS256"}x', '{alg:"HS256"}', '', ' ', '{"alg":[]}',
          '{"alg":{}}', '{"alg":""}', '\ufeff{"alg":"HS256"}',
          '{"a":{"alg":"HS256"}}']
GOOD = ['{"alg":"HS256"}', ' {"alg" : "HS256" } ', '{"alg":"none"}',
        '{"alg":"HS\\u0032\\u00356"}', '{"x":[1,{"y":null}],"alg":"ES512"}',
        '{"alg":"RS256","alg":"PS384"}', '{"alg":"HS256","kid":5}']


def jws_shape(S, text, good):
    t = ref.tok(text.encode("utf-8"), b"x", b"y")
    for tok in (t, t.decode("ascii")):
        S.check(ask_jws(S, tok) == good, "only an object with a supported "
                "algorithm", header=text)
    S.reach("shape")


def jws_part(S, n):
    """a part that is not base64url is no token"""
    p = S.bytes("p", n)
    where = S.choose("where", 2)
    parts = [ref.b64u(b'{"alg":"HS256"}'), ref.b64u(b"x"), ref.b64u(b"y")]
    parts[1 + where] = p
    a = ask_jws(S, b".".join(parts))
    if not S.any(*[c == 0x2e for c in p]):
        core, legal = ref.b64url_legal(p)
        S.check(S.iff(a, legal), "yes exactly if the part is base64url")
        S.reach("yes" if a else "no")


def jws_json(S, order):
    """JSON serialisation: a payload and signature(s)"""
    o = {}
    keys = ["payload", "signature", "signatures", "header", "x"]
    for k in (keys if order else keys[::-1]):
        if S.choose(k, 2):
            o[k] = S.choose(k + "-value", ["a", []]) if k == "payload" else 1
    want = "payload" in o and ("signature" in o or "signatures" in o)
    text = json.dumps(o)
    for tok in (text, text.encode("utf-8")):
        S.check(ask_jws(S, tok) == want, "payload and signature(s)", o=text)
    S.reach("json")


def jws_json_hole(S, n):
    """member names with any characters"""
    v = S.text("v", n, PLAIN)
    text = '{"payload":"x","' + v + '":[]}'
    a = ask_jws(S, text)
    want = v == ("signatures" if n == 10 else "signature")
    S.check(S.implies(want, a), "the member makes it one")
    if a:
        S.reach("yes")


def json_shape(S, text):
    """other JSON values are no signed tokens"""
    for tok in (text, text.encode("utf-8")):
        S.check(not ask_jws(S, tok), "not a signed token", text=text)
    S.reach("shape")


def utf16(S):
    """JSON in another encoding: still an answer"""
    o = S.choose("o", ['{"payload":"","signature":""}', '[]', '5', '{}'])
    e = S.choose("enc", ["utf-16", "utf-16-le", "utf-32", "utf-8-sig",
                         "latin-1"])
    ask_jws(S, o.encode(e))
    S.reach("utf")


# -- encrypted tokens


def ask_jwe(S, hdr):
    t = ref.tok(ref.jdump(hdr), b"k", b"i", b"c", b"t")
    r = S.attempt(lambda: JWEnc().unpack(t).is_jwe())
    S.check(r.ok, "an answer", got=r.kind)
    f = S.attempt(jwe.factory, t)
    S.check(f.ok, "factory answers", got=f.kind)
    S.check((f.value is not None) == bool(r.value), "factory agrees")
    if r.value:
        S.check(isinstance(f.value, JWE), "factory gives an object")
        S.check(S.eq(f.value.jwt.headers, hdr), "the header is kept")
    S.observe("answer", r.value)
    return r.value


def jwe_typ(S, n):
    """the type says so"""
    typ = S.text("typ", n, PLAIN if n > 1 else None)
    a = ask_jwe(S, {"typ": typ})
    S.check(S.iff(a, S.eq(typ.lower(), "jwe")), "the type says so", typ=typ)
    S.reach("yes" if a else "no")


def jwe_algs(S, n, m):
    """both algorithms are supported ones"""
    alg = S.text("alg", n, PLAIN)
    enc = S.text("enc", m, PLAIN)
    hdr = {"alg": alg, "enc": enc}
    if S.choose("typ", 2):
        hdr["typ"] = "JWT"
    a = ask_jwe(S, hdr)
    S.check(S.iff(a, S.all(S.any(*[S.eq(alg, x) for x in ALG]),
                           S.any(*[S.eq(enc, x) for x in ENC]))),
            "yes exactly if both are supported", alg=alg, enc=enc)
    S.reach("yes" if a else "no")


def jwe_pairs(S, alg):
    """every pair of the supported names, and one missing or swapped"""
    enc = S.choose("enc", ENC)
    how = S.choose("how", ["both", "alg", "enc", "swap", "lower", "null",
                           "list"])
    hdr = {"both": {"alg": alg, "enc": enc}, "alg": {"alg": alg},
           "enc": {"enc": enc}, "swap": {"alg": enc, "enc": alg},
           "lower": {"alg": alg.lower(), "enc": enc},
           "null": {"alg": None, "enc": enc},
           "list": {"alg": [alg], "enc": [enc]}}[how]
    S.check(ask_jwe(S, hdr) == (how == "both"), "supported pairs", hdr=hdr)
    S.reach("pairs")


def jwe_types(S):
    """members of other types never end in an error"""
    vals = [None, 5, 1.5, True, [], ["JWE"], {}, {"JWE": 1}, "", "JWE ",
            "JWT"]
    hdr = {"typ": S.choose("typ", vals)}
    if S.choose("has", 2):
        hdr["alg"] = S.choose("alg", ["RSA1_5"] + vals)
        hdr["enc"] = S.choose("enc", ["A128GCM"] + vals)
    S.check(ask_jwe(S, hdr) == (hdr.get("alg") == "RSA1_5" and
                                hdr.get("enc") == "A128GCM"),
            "other types say nothing", hdr=hdr)
    S.reach("types")


def jwe_text(S, n, prefix):
    """only texts that are no token are refused"""
    t = S.bytes("t", n)
    tok = prefix + t
    r = S.attempt(jwe.factory, tok)
    S.observe("r", r.kind)
    if r.ok:
        S.check(r.value is None, "not an encrypted token")
        S.reach("answer")
        return
    S.check(isinstance(r.exc, (BadSyntax, ValueError)), "a syntax error",
            got=r.kind)
    dots = [i for i in range(len(tok)) if S.truth(tok[i] == 0x2e)]
    if dots and prefix:
        cuts = [-1] + dots + [len(tok)]
        legal = True
        for a, b in zip(cuts, cuts[1:]):
            legal = S.all(legal, ref.b64url_legal(tok[a + 1:b])[1])
        S.check(S.neg(S.all(legal, dots[0] == len(prefix))),
                "a token is not refused", tok=tok)
    S.reach("refused")


def cases(tier):
    big = tier == "thorough"
    out = []
    for n in range(0, 5 if big else 4):
        out.append(Case("any-octets-%d" % n, any_text,
                        {"n": n, "text": False}, reach=["any"],
                        weight=10 * n, bounds="every %d octets" % n))
    for n in range(0, 5 if big else 4):
        out.append(Case("any-text-%d" % n, any_text, {"n": n, "text": True},
                        reach=["any"], weight=10 * n,
                        bounds="every %d characters" % n))
    for prefix in ("e30.", "W10.", "NQ.", "{", "["):
        for n in range(1, 4 if big else 3):
            out.append(Case("any-after-%s-%d" % (prefix, n), any_text,
                            {"n": n, "text": True, "prefix": prefix},
                            reach=["any"], weight=10 * n,
                            bounds="every %d characters after %s" % (
                                n, prefix)))
    for n in (0, 1, 4, 5) + ((2, 3, 6) if big else ()):
        out.append(Case("alg-%d" % n, jws_alg, {"n": n, "text": n == 5},
                        reach=["yes", "no"] if n in (4, 5) else ["no"],
                        weight=20 * n, bounds="every algorithm name of %d "
                        "%scharacters" % (n, "printable " if n > 1 else "")))
    for name in ("none", "HS256", "es512"):
        out.append(Case("case-" + name, jws_case, {"name": name},
                        reach=["case"], bounds="all spellings"))
    for i, s in enumerate(SHAPES + GOOD):
        out.append(Case("shape-%d" % i, jws_shape,
                        {"text": s, "good": s in GOOD}, reach=["shape"],
                        bounds="header " + ascii(s)))
    for n in range(0, 6 if big else 5):
        out.append(Case("part-%d" % n, jws_part, {"n": n}, weight=10 * n,
                        reach=["yes"] if n == 0 else ["no"] if n == 1
                        else ["yes", "no"],
                        bounds="every %d octets as a part" % n))
    for o in (0, 1):
        out.append(Case("json-%d" % o, jws_json, {"order": o},
                        reach=["json"], weight=5,
                        bounds="all sets of members"))
    for n in (9, 10):
        out.append(Case("json-name-%d" % n, jws_json_hole, {"n": n},
                        reach=["yes"], weight=30,
                        bounds="every member name of %d printable characters" % n))
    for i, t in enumerate(['[]', '["payload","signatures"]', '5', '"abc"',
                           '"payload.signature"', 'null', 'true', 'NaN',
                           '-1.5e3', '[{"payload":1,"signature":2}]',
                           '{"a":{"payload":1,"signature":2}}', '{}',
                           '"e30.e30.e30"']):
        out.append(Case("value-%d" % i, json_shape, {"text": t},
                        reach=["shape"], bounds="text " + t))
    out.append(Case("encodings", utf16, reach=["utf"],
                    bounds="five encodings of four values"))
    for n in range(0, 5 if big else 4):
        out.append(Case("typ-%d" % n, jwe_typ, {"n": n}, weight=20 * n,
                        reach=["yes", "no"] if n == 3 else ["no"],
                        bounds="every type of %d %scharacters" % (
                            n, "printable " if n > 1 else "")))
    for n, m in [(6, 7), (7, 13), (8, 7)] + (
            [(12, 13), (14, 7)] if big else []):
        out.append(Case("algs-%d-%d" % (n, m), jwe_algs, {"n": n, "m": m},
                        weight=60, reach=["yes", "no"],
                        bounds="every alg of %d and enc of %d printable characters" %
                        (n, m)))
    for alg in ALG:
        out.append(Case("pairs-" + alg, jwe_pairs, {"alg": alg},
                        reach=["pairs"], bounds="six enc, seven forms"))
    out.append(Case("types", jwe_types, reach=["types"], weight=30,
                    bounds="eleven values of other types"))
    for n in range(0, 6 if big else 5):
        out.append(Case("jwe-text-%d" % n, jwe_text,
                        {"n": n, "prefix": b"e30"}, weight=10 * n,
                        reach=["refused"] if n == 0 else
                        ["refused", "answer"],
                        bounds="every %d octets after a header" % n))
    for n in range(0, 4):
        out.append(Case("jwe-any-%d" % n, jwe_text, {"n": n, "prefix": b""},
                        weight=10 * n, reach=["refused"],
                        bounds="every %d octets" % n))
    return out
