"""C09 algorithm names mean what RFC 7518 says: against an independent
implementation in both directions."""
import json
from jwkest.jwe import JWE
from jwkest.jws import JWS
from vlib.api import Case
from harness import jwes, keys, ref, sigs

keyring = keys.ring
ASSUMPTIONS = ["SHA-2 and HMAC are uninterpreted functions, so is the "
               "RSASSA-PKCS1-v1_5 signature of a digest under a key; whether "
               "octets are a PSS or ECDSA signature of a digest is an "
               "uninterpreted relation; random values are one sample each; "
               "Cryptodome and hashlib are the independent implementation"]
OUTSIDE = ["messages longer than stated; other RSA and EC keys than the "
           "fixed ones"]
PLAIN = [c for c in range(0x20, 0x7f) if c not in (0x22, 0x5c)]
LETTERS = [ord(c) for c in "ghijklmopqrsuvwxyz"]


def sign(S, alg, i, n):
    """what is signed here is accepted elsewhere"""
    S.model_ec()
    S.random_policy("stream")
    m = S.bytes("first", 1, LETTERS) + S.bytes("m", n - 1, range(128))
    tok = JWS(m, alg=alg).sign_compact([sigs.key(alg, i)]).encode("ascii")
    h, p, s = tok.split(b".")
    S.check(S.eq(ref.unb64(p), m), "payload")
    s = ref.unb64(s)
    S.check(len(s) == sigs.size(alg), "length of the signature")
    S.check(sigs.valid(S, alg, i, h + b"." + p, s),
            "accepted independently")
    S.observe("header", ref.unb64(h))
    S.reach("signed")


def verify(S, alg, i, n, other):
    """what is signed elsewhere is accepted here, and only by its name"""
    S.model_ec()
    m = S.bytes("first", 1, LETTERS) + S.bytes("m", n - 1, range(128))
    sig = S.bytes("sig", sigs.size(alg))
    msg = ref.tok(ref.jdump({"alg": other}), m)
    S.assume(sigs.valid(S, alg, i, msg, sig))
    ks = [sigs.key(a, i, private=False) for a in ("HS256", "RS256", "ES256",
                                                  "ES384", "ES512")]
    r = S.attempt(JWS().verify_compact, msg + b"." + ref.b64u(sig), ks)
    if alg == other:
        S.observe("kind", r.kind)
        S.check(r.ok, "accepted", got=r.kind)
        S.check(S.eq(r.value, m.decode("ascii")), "message")
        return S.reach("accepted")
    S.check(S.implies(r.ok, sigs.valid(S, other, i, msg, sig)),
            "accepted only by its name")
    S.reach("other")


def names(S, n, siglen):
    """any other name verifies nothing"""
    S.model_ec()
    alg = S.text("alg", n, PLAIN)
    S.assume(S.all(*[S.neg(S.eq(alg, a)) for a in sigs.ALGS]))
    msg = ref.tok(json.dumps({"alg": alg}).encode("utf-8"), b"message")
    sig = S.bytes("sig", siglen)
    ks = [sigs.key(a, 0, private=False) for a in ("HS256", "RS256", "ES256",
                                                  "ES384", "ES512")]
    r = S.attempt(JWS().verify_compact, msg + b"." + ref.b64u(sig), ks)
    S.check(not r.ok, "refused")
    r = S.attempt(JWS(b"message", alg=alg).sign_compact, ks)
    S.check(S.implies(r.ok, S.eq(alg, "none")), "does not sign")
    S.observe("kind", r.kind)
    S.reach("refused")


def encrypt(S, alg, enc, crv, i, n):
    """what is encrypted here decrypts elsewhere"""
    S.random_policy("stream")
    m = S.bytes("m", n)
    k = jwes.key(alg, i, False, crv)
    tok = JWE(m, alg=alg, enc=enc).encrypt([k]).encode("ascii")
    parts = tok.split(b".")
    S.check(len(parts) == 5, "five parts")
    raw = [ref.unb64(p) for p in parts]
    for p, d in zip(parts, raw):
        S.check(S.eq(ref.b64u(d), p), "base64url without padding")
    head = json.loads(raw[0].decode("ascii"))
    S.check(S.eq(head["alg"], alg), "alg")
    S.check(S.eq(head["enc"], enc), "enc")
    S.check(len(raw[2]) == jwes.ivlen(enc), "IV length")
    got = jwes.open_(alg, enc, head, raw[1:], parts[0], i, crv)
    S.check(got is not None, "decrypts independently")
    S.check(S.eq(got, m), "to the message", got=got)
    S.observe("header", raw[0])
    S.reach("encrypted")


def decrypt(S, alg, enc, crv, i, n, party):
    """what is encrypted elsewhere decrypts here"""
    S.random_policy("stream")
    m = S.bytes("m", n)
    kw = {}
    if party:
        kw = {"apu": b"Alice", "apv": b"\x00\xffB"}
    tok = jwes.token(alg, enc, m, i=i, crv=crv, **kw)
    r = S.attempt(JWE().decrypt, tok, [jwes.key(alg, i, True, crv)])
    S.check(r.ok, "decrypts", got=r.kind)
    S.check(S.eq(r.value, m), "to the message", got=r.value)
    S.reach("decrypted")


def swapped(S, alg, enc, alg2, enc2):
    """a token under another name than it was made by"""
    S.random_policy("stream")
    head = ref.jdump(dict({"alg": alg2, "enc": enc2}, **(
        {"epk": jwes.epk_json("P-256")} if "ECDH" in alg2 else {})))
    tok = ref.tok(*jwes.make(alg, enc, S.bytes("m", 4), head=head))
    ks = [jwes.key(alg2, 0)]
    r = S.attempt(JWE().decrypt, tok, ks)
    S.check(not r.ok, "refused")
    S.observe("kind", r.kind)
    S.reach("refused")


def enames(S, what, n):
    """any other name is refused"""
    S.random_policy("stream")
    t = S.text("name", n, PLAIN)
    known = jwes.ALGS if what == "alg" else jwes.ENCS
    S.assume(S.all(*[S.neg(S.eq(t, a)) for a in known]))
    h = {"alg": "A128KW", "enc": "A128GCM"}
    h[what] = t
    tok = ref.tok(*jwes.make("A128KW", "A128GCM", b"message",
                             head=json.dumps(h).encode("utf-8")))
    ks = [jwes.key(a, 0) for a in ("RSA1_5", "A128KW", "ECDH-ES")]
    r = S.attempt(JWE().decrypt, tok, ks)
    S.check(not r.ok, "not decrypted")
    S.observe("kind", r.kind)
    r = S.attempt(JWE(b"message", alg=h["alg"], enc=h["enc"]).encrypt, ks)
    S.check(not r.ok, "not encrypted")
    S.observe("kind2", r.kind)
    S.reach("refused")


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, reach, weight=5, bounds="", **k):
        out.append(Case(name, fn, k, reach=(reach,), weight=weight,
                        bounds=bounds))
    for alg in sigs.ALGS:
        for i in (0, 1):
            for n in (5, 40) if big else (5 + 30 * i,):
                add("sign-%s-%d-%d" % (alg, i, n), sign, "signed", alg=alg,
                    i=i, n=n, bounds="every %d octets below 128 (first a "
                    "letter), fixed key" % n)
            add("verify-%s-%d" % (alg, i), verify, "accepted", alg=alg, i=i,
                n=6, other=alg, bounds="every valid signature, every 6 "
                "octets below 128 (first a letter)")
        for other in sigs.ALGS:
            if other != alg and (big or other[2:] == alg[2:] or
                                 other[:2] == alg[:2]):
                add("as-%s-%s" % (alg, other), verify, "other", alg=alg, i=0,
                    n=3, other=other, bounds="every valid signature, every 3 "
                    "octets")
    for n in (1, 2, 3, 4, 5, 6, 7) + ((8, 10) if big else ()):
        for sl in (32, 64) + ((48, 96, 132, 256) if big else ()):
            add("name-%d-%d" % (n, sl), names, "refused", n=n, siglen=sl,
                bounds="every name of %d printable characters, every "
                "signature of %d octets" % (n, sl))
    for alg in jwes.ALGS:
        for j, enc in enumerate(jwes.ENCS):
            for crv in sorted(jwes.COORD) if alg in jwes.EC else ["P-256"]:
                if alg in jwes.EC and not big and crv != "P-256" and \
                        (j + len(alg)) % 3:
                    continue
                add("encrypt-%s-%s-%s" % (alg, enc, crv), encrypt,
                    "encrypted", alg=alg, enc=enc, crv=crv, i=j % 2,
                    n=7 if alg[0] != "E" else 3, weight=8,
                    bounds="every message of these octets, one sample of "
                    "random values, fixed key")
                add("decrypt-%s-%s-%s" % (alg, enc, crv), decrypt,
                    "decrypted", alg=alg, enc=enc, crv=crv, i=(j + 1) % 2,
                    n=5, party=j % 2, weight=8, bounds="every message of 5 "
                    "octets, fixed key")
    for alg in jwes.ALGS:
        for alg2 in jwes.ALGS:
            if alg != alg2 and (big or alg[:3] == alg2[:3]):
                add("swap-%s-%s" % (alg, alg2), swapped, "refused", alg=alg,
                    enc="A128CBC-HS256", alg2=alg2, enc2="A128CBC-HS256",
                    bounds="every message of 4 octets")
    for enc in jwes.ENCS:
        for enc2 in jwes.ENCS:
            if enc != enc2:
                add("swap-%s-%s" % (enc, enc2), swapped, "refused",
                    alg="A256KW", enc=enc, alg2="A256KW", enc2=enc2,
                    bounds="every message of 4 octets")
    for what, ns in (("alg", (1, 3, 6, 7, 8, 12)), ("enc", (1, 5, 7, 13))):
        for n in ns:
            add("names-%s-%d" % (what, n), enames, "refused", what=what, n=n,
                bounds="every name of %d printable characters" % n)
    return out
