"""The signature algorithms of RFC 7518 section 3, by the standard library
and Cryptodome."""
import hashlib
import hmac
from Cryptodome.Hash import SHA256, SHA384, SHA512
from Cryptodome.Signature import DSS, pkcs1_15, pss
from jwkest.jwk import SYMKey
from harness import keys

HASH = {"256": (hashlib.sha256, SHA256), "384": (hashlib.sha384, SHA384),
        "512": (hashlib.sha512, SHA512)}
CRV = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}
HS = ["HS256", "HS384", "HS512"]
RS = ["RS256", "RS384", "RS512"]
PS = ["PS256", "PS384", "PS512"]
ES = ["ES256", "ES384", "ES512"]
ALGS = HS + RS + PS + ES
SIZE = {"HS256": 32, "HS384": 48, "HS512": 64, "ES256": 64, "ES384": 96,
        "ES512": 132}
KTY = {"HS": "oct", "RS": "RSA", "PS": "RSA", "ES": "EC"}


def size(alg):
    return SIZE.get(alg, 256)


def key(alg, /, i=0, secret=None, private=True, **kw):
    """a key of the algorithm's type"""
    t = alg[:2]
    if t == "HS":
        return SYMKey(key=secret if secret is not None else
                      b"secret number %d" % i, **kw)
    if t == "ES":
        return keys.ec(CRV[alg], i, private, **kw)
    return keys.rsa(i + 1, private, **kw)


def valid(S, alg, i, msg, sig, secret=None):
    """whether sig is a signature of msg under key(alg, i)"""
    t = alg[:2]
    h, H = HASH[alg[2:]]
    if t == "HS":
        s = secret if secret is not None else b"secret number %d" % i
        return S.eq(hmac.new(s, msg, h).digest(), sig)
    if t == "ES":
        v = DSS.new(keys.ec_lib(CRV[alg], i), "fips-186-3")
    elif t == "RS":
        v = pkcs1_15.new(keys.rsa_raw(i + 1))
    else:
        v = pss.new(keys.rsa_raw(i + 1))
    r = S.attempt(v.verify, H.new(msg), sig)
    return r.ok
