"""C23 derived symmetric keys and half hashes."""
import hashlib
from jwkest.jwk import SYMKey, keyrep
from jwkest.jws import left_hash
from vlib.api import Case
from harness import ref

OUTSIDE = ["empty secrets; secrets and messages longer than stated; hash "
           "names other than HS256, HS384 and HS512 for half hashes"]

# algorithm -> (octets, hash); OpenID Connect Core section 10.2
LEN = {"A128KW": (16, hashlib.sha256), "A192KW": (24, hashlib.sha256),
       "A256KW": (32, hashlib.sha256), "HS256": (32, hashlib.sha256),
       "HS384": (48, hashlib.sha384), "HS512": (64, hashlib.sha512)}
HALF = {"HS256": (hashlib.sha256, 16), "HS384": (hashlib.sha384, 24),
        "HS512": (hashlib.sha512, 32)}


def derive(S, n, alg, how):
    """leading part of the hash of the secret, however it was given"""
    if how == "text":
        t = S.text("secret", n)
        secret = t.encode("utf-8")
        k = SYMKey(key=t)
    else:
        secret = S.bytes("secret", n)
        if how == "octets":
            k = SYMKey(key=secret)
        elif how == "k":
            k = SYMKey(k=ref.b64u(secret).decode("ascii"))
        else:
            k = keyrep({"kty": "oct", "k": ref.b64u(secret).decode(
                "ascii")})
    size, h = LEN[alg]
    want = h(secret).digest()[:size]
    got = k.encryption_key(alg=alg, private=True)
    S.check(S.eq(got, want), "leading octets of the hash", got=got)
    S.check(S.eq(k.encryption_key(alg), want), "the same again")
    S.check(S.eq(k.key, secret), "the secret stays")
    S.observe("got", got)
    S.reach("derived")


def two_algs(S, n):
    """one key, all algorithms one after another"""
    secret = S.bytes("secret", n)
    k = SYMKey(key=secret)
    for alg in S.choose("order", [sorted(LEN), sorted(LEN, reverse=True)]):
        size, h = LEN[alg]
        S.check(S.eq(k.encryption_key(alg), h(secret).digest()[:size]),
                "leading octets of the hash for " + alg)
    S.reach("all")


def unknown(S):
    alg = S.choose("alg", ["A128GCM", "RS256", "none", "", "ECDH-ES",
                           "A128CBC-HS256"])
    r = S.attempt(SYMKey(key=b"secret").encryption_key, alg)
    S.check(not r.ok, "no key for another algorithm", got=r.kind)
    S.reach("unknown")


def half(S, n, func, text):
    if text:
        m = S.text("m", n)
        octets = m.encode("utf-8")
    else:
        m = octets = S.bytes("m", n)
    h, size = HALF[func]
    got = left_hash(m, func)
    S.check(S.eq(got, ref.b64u(h(octets).digest()[:size])
                 .decode("ascii")), "text of the left half", got=got)
    if func == "HS256":
        S.check(S.eq(left_hash(m), got), "HS256 is the default")
    S.observe("got", got)
    S.reach("half")


def cases(tier):
    big = tier == "thorough"
    out = []
    for alg in sorted(LEN):
        for n in [1, 2, 16, 32, 33, 65] + ([3, 24, 48, 64, 128, 129]
                                           if big else []):
            for how in ("octets", "k", "keyrep") if n in (2, 33) else \
                    ("octets",):
                out.append(Case("derive-%s-%d-%s" % (alg, n, how), derive,
                                {"n": n, "alg": alg, "how": how},
                                reach=["derived"],
                                bounds="every secret of %d octets" % n))
        for n in (1, 2) + ((3,) if big else ()):
            out.append(Case("derive-%s-text-%d" % (alg, n), derive,
                            {"n": n, "alg": alg, "how": "text"},
                            reach=["derived"], weight=5,
                            bounds="every secret of %d characters" % n))
    for n in (1, 20):
        out.append(Case("order-%d" % n, two_algs, {"n": n}, reach=["all"],
                        bounds="every secret of %d octets, both orders" % n))
    out.append(Case("unknown", unknown, reach=["unknown"],
                    bounds="six other names"))
    for func in sorted(HALF):
        for n in [0, 1, 2, 17, 64] + ([130, 256] if big else []):
            out.append(Case("half-%s-%d" % (func, n), half,
                            {"n": n, "func": func, "text": False},
                            reach=["half"], bounds="every message of %d "
                            "octets" % n))
        for n in [0, 1, 2] + ([3] if big else []):
            out.append(Case("half-%s-text-%d" % (func, n), half,
                            {"n": n, "func": func, "text": True}, weight=5,
                            reach=["half"], bounds="every message of %d "
                            "characters" % n))
    return out
