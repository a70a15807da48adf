"""Fixed keys of the harnesses."""
import os
from Cryptodome.PublicKey import ECC, RSA
from jwkest.jwk import ECKey, RSAKey

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EC_D = {"P-256": [0x7d31c5a4b6e8f90213, 0x1f5a9b3c7d2e4f60718293a4b5c6d7],
        "P-384": [0x5b6e8f9021344d5e6f, 0x2a9b3c7d2e4f60718293a4b5c6d7e8],
        "P-521": [0x6b7e9f0a21354d5e6f, 0x3c9b3c7d2e4f60718293a4b5c6d7e9]}
_memo = {}


def rsa_raw(i):
    """a 2048-bit RSA private key (1..3)"""
    if i not in _memo:
        with open(os.path.join(HERE, "keys", "rsa%d.pem" % i)) as f:
            _memo[i] = RSA.import_key(f.read())
    return _memo[i]


def rsa(i, private=True, **kw):
    k = rsa_raw(i)
    return RSAKey(key=k if private else k.public_key(), **kw)


def ec_lib(crv, i=0):
    return ECC.construct(curve=crv, d=EC_D[crv][i])


def ec(crv, i=0, private=True, **kw):
    q = ec_lib(crv, i).pointQ
    if private:
        kw["d"] = EC_D[crv][i]
    return ECKey(crv=crv, x=int(q.x), y=int(q.y), **kw)


def ring():
    """for the solver's models: private halves of every public key"""
    out = [rsa_raw(i) for i in (1, 2, 3)]
    for crv in EC_D:
        for i in (0, 1):
            out.append((int(ec_lib(crv, i).pointQ.x), EC_D[crv][i]))
    return out
