"""C05 unsigned tokens and unexpected algorithms."""
import hashlib
import hmac
import json
from jwkest.jws import JWS
from vlib.api import Case
from harness import ref, sigs, keys

keyring = keys.ring
ASSUMPTIONS = ["SHA-2 and HMAC are uninterpreted functions, so is the "
               "RSASSA-PKCS1-v1_5 signature of a digest under a key; whether "
               "octets are a PSS or ECDSA signature of a digest is an "
               "uninterpreted relation"]
OUTSIDE = ["algorithm names of more characters than stated, and with "
           "characters other than printable ASCII in the longer ones; header "
           "parameters other than alg, typ, kid and one of any name"]
PLAIN = [c for c in range(0x20, 0x7f) if c not in (0x22, 0x5c)]


def is_none(S, t):
    """'none' in any spelling"""
    if len(t) != 4:
        return False
    return S.all(*[S.any(S.eq(a, b), S.eq(a, b.upper()))
                   for a, b in zip(t, "none")])


def every_key():
    return [sigs.key("HS256", 0), keys.rsa(1, False), keys.ec("P-256", 0,
                                                             False),
            keys.ec("P-384", 0, False), keys.ec("P-521", 0, False)]


def any_alg(S, n, siglen, given, nkeys, plain):
    """any algorithm text with any signature octets"""
    S.model_ec()
    alg = S.text("alg", n, PLAIN if plain else None)
    sig = S.bytes("sig", siglen)
    head = json.dumps({"alg": alg}).encode("utf-8")
    msg = ref.tok(head, b"message")
    ks = every_key() if nkeys == "all" else [sigs.key(nkeys, 0,
                                                      private=False)]
    r = S.attempt(JWS().verify_compact_verbose, msg + b"." + ref.b64u(sig),
                  keys=ks, **({"sigalg": given} if given else {}))
    if not r.ok:
        S.reach("refused")
        S.observe("kind", r.kind)
        return
    S.check(S.neg(is_none(S, alg)), "not unsigned")
    S.check(S.any(*[S.eq(alg, a) for a in sigs.ALGS]), "a known algorithm",
            alg=alg)
    if given:
        S.check(S.eq(alg, given), "the algorithm asked for")
    for a in sigs.ALGS:
        if S.truth(S.eq(alg, a)):
            S.check(r.value["key"].kty == sigs.KTY[a[:2]],
                    "key of the algorithm's type")
            S.check(sigs.valid(S, a, 0, msg, sig), "valid by the algorithm "
                    "in the header")
    S.observe("kind", "ok")
    S.reach("accepted")


def spelled(S, style, sigkind):
    """'none' in every capitalisation, and other unsigned headers, with the
    signature empty or any"""
    sig = S.bytes("sig", sigkind)
    if style == "case":
        t = S.text("alg", 4)
        S.assume(S.all(*[S.any(S.eq(a, b), S.eq(a, b.upper()))
                         for a, b in zip(t, "none")]))
        head = b'{"alg":"' + t.encode("ascii") + b'"}'
    elif style == "escaped":
        head = S.choose("head", [b'{"alg":"\\u006eone"}',
                                 b'{"alg":"n\\u006Fne"}',
                                 b'{"alg":"NON\\u0045"}',
                                 b' { "alg" : "none" } ',
                                 b'{"alg":"HS256","alg":"none"}',
                                 b'{"typ":"JWT","alg":"none","kid":"a"}'])
    elif style == "absent":
        head = S.choose("head", [b"{}", b'{"typ":"JWT"}', b'{"Alg":"HS256"}',
                                 b'{"alg ":"HS256"}', b'{"":"HS256"}',
                                 b'{"typ":"JWT","kid":"a"}'])
    else:
        head = S.choose("head", [b'{"alg":null}', b'{"alg":""}',
                                 b'{"alg":false}', b'{"alg":0}',
                                 b'{"alg":[]}', b'{"alg":{}}',
                                 b'{"alg":["none"]}', b'{"alg":true}',
                                 b'{"alg":["HS256"]}', b'{"alg":1.5}',
                                 b'{"alg":{"HS256":1}}'])
    ks = S.choose("keys", ["all", "hmac", "none", "list"])
    ks = {"all": every_key(), "hmac": [sigs.key("HS256", 0)], "none": None,
          "list": []}[ks]
    tok = ref.tok(head, b"message", sig)
    how = S.choose("how", ["plain", "expected", "allow_none=False", "object"])
    kw = {"plain": {}, "expected": {"sigalg": "HS256"},
          "allow_none=False": {"allow_none": False}, "object": {}}[how]
    j = JWS(alg="HS256") if how == "object" else JWS()
    r = S.attempt(j.verify_compact, tok, ks, **kw)
    S.check(not r.ok, "refused", value=r.value if r.ok else None)
    S.observe("kind", r.kind)
    S.reach("refused")


def no_sig(S, n):
    """an unsigned token in two parts or with a name that is not there"""
    name = S.text("name", n, PLAIN)
    S.assume(S.neg(S.eq(name, "alg")))
    head = json.dumps({name: "HS256"}).encode("utf-8")
    sig = hmac.new(b"secret number 0", ref.tok(head, b"message"),
                   hashlib.sha256).digest()
    r = S.attempt(JWS().verify_compact, ref.tok(head, b"message", sig),
                  keys=every_key())
    S.check(not r.ok, "a token without algorithm is refused")
    S.reach("refused")


def wrong_expected(S, alg, given):
    """a signed token with another algorithm than the expected one, valid by
    its own"""
    S.model_ec()
    sig = S.bytes("sig", sigs.size(alg))
    msg = ref.tok(ref.jdump({"alg": alg}), b"message")
    S.assume(sigs.valid(S, alg, 0, msg, sig))
    tok = msg + b"." + ref.b64u(sig)
    ks = every_key()
    r = S.attempt(JWS().verify_compact, tok, keys=ks, sigalg=given)
    S.check(r.ok == (alg == given), "accepted exactly if expected")
    r = S.attempt(JWS(alg=given).verify_compact, tok, keys=ks)
    S.check(r.ok == (alg == given), "accepted exactly if the object's")
    r = S.attempt(JWS().verify_compact, tok, keys=ks)
    S.check(r.ok, "accepted without expectation")
    S.reach("same" if alg == given else "other")


def confused(S, alg, secret):
    """public key material is no HMAC secret"""
    pub = keys.rsa(1, False)
    if secret == "pem":
        s = pub.key.export_key()
    elif secret == "der":
        s = pub.key.export_key("DER")
    elif secret == "n":
        s = int(pub.key.n).to_bytes(256, "big")
    elif secret == "ec":
        s = keys.ec("P-256", 0).x.to_bytes(32, "big")
    else:
        s = S.bytes("secret", 16)
    h = sigs.HASH[alg[2:]][0]
    msg = ref.tok(ref.jdump({"alg": alg}), b"message")
    sig = hmac.new(s, msg, h).digest()
    tok = msg + b"." + ref.b64u(sig)
    for k in ([pub], [keys.ec("P-256", 0, False)],
              [pub, keys.ec("P-256", 0, False)]):
        for given in (None, alg, "RS256"):
            r = S.attempt(JWS().verify_compact, tok, keys=k, sigalg=given)
            S.check(not r.ok, "no key of the type")
    S.reach("refused")


def allowed(S, n):
    """with unsigned tokens allowed only such tokens do without a key"""
    alg = S.text("alg", n, PLAIN)
    tok = ref.tok(json.dumps({"alg": alg}).encode("utf-8"), b"message",
                  S.bytes("sig", 3))
    for ks in (None, [], [sigs.key("HS256", 0)], [keys.rsa(1, False)]):
        r = S.attempt(JWS().verify_compact, tok, ks, allow_none=True)
        S.check(S.implies(r.ok, is_none(S, alg)), "only unsigned tokens")
    S.reach("accepted" if r.ok else "refused")


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, reach=("refused",), weight=5, bounds="", **k):
        out.append(Case(name, fn, k, reach=reach, weight=weight,
                        bounds=bounds))
    for nk, sl in [("all", 32), ("all", 64), ("all", 96), ("all", 132),
                   ("all", 256), ("HS256", 32), ("RS256", 256),
                   ("ES256", 64)]:
        for given in (None, "HS256", "RS256", "ES256", "PS384"):
            add("any-5-%s-%d-%s" % (nk, sl, given), any_alg, ("refused",),
                n=5, siglen=sl, given=given, nkeys=nk, plain=True, weight=20,
                bounds="every name of 5 printable characters, every "
                "signature of %d octets" % sl)
    for n in (0, 1, 2, 3, 4, 6, 7) + ((8, 9) if big else ()):
        add("any-%d" % n, any_alg, n=n, siglen=32, given=None, nkeys="all",
            plain=n > 1, bounds="every name of %d characters, every "
            "signature of 32 octets" % n)
    for sk in (0, 1, 32):
        for style in ("case", "escaped", "absent", "other"):
            add("spelled-%s-%d" % (style, sk), spelled, style=style,
                sigkind=sk, weight=10,
                bounds="every signature of %d octets" % sk)
    for n in (0, 1, 2, 3, 4):
        add("no-sig-%d" % n, no_sig, n=n,
            bounds="every parameter name of %d characters" % n)
    for alg in sigs.ALGS:
        for given in sigs.ALGS if big else [alg] + [
                a for a in ("HS256", "RS256", "PS256", "ES256", alg[:2] +
                            "512") if a != alg]:
            add("expected-%s-%s" % (alg, given), wrong_expected,
                ("same" if alg == given else "other",), alg=alg, given=given,
                bounds="every valid signature")
    for alg in sigs.HS:
        for s in ("pem", "der", "n", "ec", "any"):
            add("confused-%s-%s" % (alg, s), confused, alg=alg, secret=s,
                bounds="public key octets (or any 16) as HMAC secret")
    for n in (0, 1, 3, 4, 5, 6):
        add("allowed-%d" % n, allowed,
            ("refused", "accepted") if n == 4 else ("refused",), n=n,
            bounds="every name of %d characters" % n)
    return out
