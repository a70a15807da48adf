"""C16 what is encrypted decrypts to the same message."""
import json
from jwkest.jwe import JWE
from jwkest.jwe import factory
from jwkest.jwk import KEYS
from vlib.api import Case
from harness import jwes, keys, ref, sigs

keyring = keys.ring
ASSUMPTIONS = ["AES under a symbolic key is an uninterpreted permutation, "
               "hashes and HMAC are uninterpreted functions, RSA encryption "
               "is inverted by the private key; where random values are one "
               "sample the case says so (GHASH under an unknown subkey is "
               "out of reach)"]
OUTSIDE = ["messages longer than stated; compressed messages other than the "
           "fixed ones (DEFLATE of unknown octets is out of reach); other "
           "RSA and EC keys than the fixed ones"]


def trip(S, alg, enc, m, crv, ks, rks, want, kw=None, zip_=None, how="new"):
    e = JWE(m, alg=alg, enc=enc, **({"zip": zip_} if zip_ else {}))
    tok = e.encrypt(ks, **(kw or {}))
    raw = tok.encode("ascii")
    parts = raw.split(b".")
    S.check(len(parts) == 5, "five parts")
    dec = [ref.unb64(p) for p in parts]
    for p, d in zip(parts, dec):
        S.check(S.eq(ref.b64u(d), p), "base64url without padding")
    head = json.loads(dec[0].decode("ascii"))
    S.check(S.all(S.eq(head["alg"], alg), S.eq(head["enc"], enc)),
            "algorithms in the header")
    if zip_:
        S.check(S.eq(head.get("zip"), zip_), "zip in the header")
    if kw and "iv" in kw:
        S.check(S.eq(dec[2], kw["iv"]), "the IV given")
    if how == "new":
        r = JWE().decrypt(raw, rks)
    elif how == "text":
        r = JWE().decrypt(tok, rks, alg=alg)
    else:
        r = factory(tok).decrypt(keys=rks)
    S.check(S.eq(r, want), "the same message", got=r)
    S.observe("msg", r)
    S.reach("same")


def octets(S, alg, enc, n, crv="P-256", rnd="stream", how="new", given=()):
    S.random_policy(rnd)
    m = S.bytes("m", n)
    kw = {}
    if "iv" in given:
        kw["iv"] = S.bytes("iv", jwes.ivlen(enc))
    if "cek" in given:
        kw["cek"] = bytes(range(jwes.CEKLEN[enc])) if enc.endswith("GCM") \
            else S.bytes("cek", jwes.CEKLEN[enc])
    trip(S, alg, enc, m, crv, [jwes.key(alg, 0, False, crv)],
         [jwes.key(alg, 0, True, crv)], m, kw, how=how)


def text(S, alg, enc, n):
    S.random_policy("stream")
    t = S.text("t", n)
    trip(S, alg, enc, t, "P-256", [jwes.key(alg, 0, False)],
         [jwes.key(alg, 0)], t.encode("utf-8"), how="text")


MSGS = [b"", b"a", b"message", b"x" * 1000, bytes(range(256)) * 3,
        '{"a":"\u20ac"}', "text"]


def zipped(S, alg, enc, rnd):
    S.random_policy(rnd)
    m = S.choose("m", MSGS)
    trip(S, alg, enc, m, "P-256", [jwes.key(alg, 0, False)],
         [jwes.key(alg, 0)], m.encode("utf-8") if isinstance(m, str) else m,
         zip_="DEF", how=S.choose("how", ["new", "factory"]))


def unknown_zip(S, n):
    z = S.text("zip", n, range(0x20, 0x7f))
    S.assume(S.neg(S.eq(z, "DEF")))
    S.random_policy("stream")
    r = S.attempt(JWE(b"message", alg="RSA-OAEP", enc="A128CBC-HS256",
                      zip=z).encrypt, [jwes.key("RSA-OAEP", 0, False)])
    S.check(not r.ok, "an unknown compression is refused")
    S.reach("refused")


def positions(S, alg, enc, crv="P-256"):
    """the matching key at any position among others of its type and of
    other types"""
    S.random_policy("stream")
    m = S.bytes("m", 3)
    n = S.choose("others", 3)
    pos = S.choose("pos", n + 1)
    rks = [jwes.key(alg, j + 1 if alg not in jwes.EC else 1, True,
                    crv if j == 0 else "P-384") for j in range(n)]
    rks.insert(pos, jwes.key(alg, 0, True, crv))
    mixed = S.choose("mixed", [None, "first", "last"])
    foreign = [k for k in (sigs.key("HS256", 7), keys.rsa(3),
                           keys.ec("P-521", 0)) if k.kty != rks[0].kty]
    if mixed == "first":
        rks = foreign + rks
    elif mixed == "last":
        rks = rks + foreign
    c = rks
    if S.choose("set", [True, False]):
        c = KEYS()
        for k in rks:
            c.append(k)
    trip(S, alg, enc, m, crv, [jwes.key(alg, 0, False, crv)], c, m)


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, reach="same", weight=5, bounds="", **k):
        out.append(Case(name, fn, k, reach=(reach,), weight=weight,
                        bounds=bounds))
    for alg in jwes.ALGS:
        for j, enc in enumerate(jwes.ENCS):
            crvs = sorted(jwes.COORD) if alg in jwes.EC else ["P-256"]
            for c, crv in enumerate(crvs):
                if not big and alg in jwes.EC and c != (
                        j + len(alg)) % 3:
                    continue
                for n in (0, 17, 33) if big else ((0, 5, 17)[
                        (j + c + len(alg)) % 3],):
                    add("octets-%s-%s-%s-%d" % (alg, enc, crv, n), octets,
                        alg=alg, enc=enc, n=n, crv=crv,
                        how=("new", "text", "factory")[j % 3],
                        bounds="every message of %d octets, one sample of "
                        "random values" % n)
        add("text-" + alg, text, alg=alg, enc="A128CBC-HS256", n=2,
            bounds="every text of 2 characters, one sample of random values")
        add("positions-" + alg, positions, alg=alg,
            enc="A128GCM" if alg in jwes.KW + ["ECDH-ES"] else
            "A128CBC-HS256", weight=20,
            bounds="every message of 3 octets, every position among up to "
            "three keys")
    # (RSA1_5: the random replacement for a bad key may equal the right one)
    for alg in jwes.RSA[1:] + jwes.KW:
        for enc in ("A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"):
            for n in (0, 3, 16) if big else (3,):
                add("random-%s-%s-%d" % (alg, enc, n), octets, alg=alg,
                    enc=enc, n=n,
                    rnd="symbolic",
                    weight=10, bounds="every message of %d octets and every "
                    "random value" % n)
    for alg in jwes.KW + jwes.RSA:
        for enc in ("A128CBC-HS256", "A256GCM"):
            add("iv-%s-%s" % (alg, enc), octets, alg=alg, enc=enc, n=4,
                given=("iv",), bounds="every IV and message of 4 octets")
    for alg in jwes.KW:
        for enc in jwes.ENCS:
            add("cek-%s-%s" % (alg, enc), octets, alg=alg, enc=enc, n=4,
                given=("iv", "cek"), bounds="every IV, key (one for GCM) and "
                "message of 4 octets")
    for alg in jwes.RSA:
        for enc in jwes.ENCS if big else ("A128CBC-HS256", "A256CBC-HS512",
                                          "A192GCM"):
            add("zip-%s-%s" % (alg, enc), zipped, alg=alg, enc=enc,
                rnd="stream", weight=10,
                bounds="fixed messages, one sample of random values")
    for n in (1, 2, 3, 4):
        add("unknown-zip-%d" % n, unknown_zip, "refused", n=n,
            bounds="every name of %d characters" % n)
    return out
