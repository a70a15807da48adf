"""The encrypted tokens of RFC 7516 with the algorithms of RFC 7518, by the
standard library and Cryptodome."""
import hashlib
import json
from Cryptodome.Cipher import PKCS1_OAEP, PKCS1_v1_5
from Cryptodome.Hash import SHA256
from Cryptodome.PublicKey import ECC
from jwkest.jwk import SYMKey
from harness import keys, ref
from harness.c12 import ref_encrypt as cbc_encrypt
from harness.c12 import ref_plain as cbc_plain
from harness.c12 import ref_tag as cbc_tag
from harness.c13 import ref_encrypt as gcm_encrypt
from harness.c13 import ref_plain as gcm_plain
from harness.c13 import ref_tag as gcm_tag
from harness.c14 import A6, ref_unwrap, ref_wrap
from harness.c15 import kdf

RSA = ["RSA1_5", "RSA-OAEP", "RSA-OAEP-256"]
KW = ["A128KW", "A192KW", "A256KW"]
EC = ["ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW"]
ALGS = RSA + KW + EC
CEKLEN = {"A128CBC-HS256": 32, "A192CBC-HS384": 48, "A256CBC-HS512": 64,
          "A128GCM": 16, "A192GCM": 24, "A256GCM": 32}
ENCS = sorted(CEKLEN)
COORD = {"P-256": 32, "P-384": 48, "P-521": 66}
EPK_D = 0x1b2c3d4e5f60718293a4b5c6d7e8f9


def ivlen(enc):
    return 12 if enc.endswith("GCM") else 16


def secret(alg, i):
    return b"shared secret number %d" % i


def kek(alg, i):
    """OpenID Connect: the key wrapping key from a secret"""
    return hashlib.sha256(secret(alg, i)).digest()[:int(alg[1:4]) // 8]


def key(alg, /, i=0, private=True, crv="P-256", **kw):
    if alg in RSA:
        return keys.rsa(i + 1, private, **kw)
    if alg in KW:
        return SYMKey(key=secret(alg, i), **kw)
    return keys.ec(crv, i, private, **kw)


def jkey(alg, i=0, private=True, crv="P-256", **kw):
    """what jwkest's decrypt is given (same as key)"""
    return key(alg, i, private, crv, **kw)


def epk_json(crv, d=EPK_D):
    q = ECC.construct(curve=crv, d=d).pointQ
    n = COORD[crv]
    return {"kty": "EC", "crv": crv,
            "x": ref.b64u(int(q.x).to_bytes(n, "big")).decode("ascii"),
            "y": ref.b64u(int(q.y).to_bytes(n, "big")).decode("ascii")}


def agreed(alg, enc, crv, x, y, d, apu, apv):
    """derived key for a public point and a private value"""
    q = ECC.EccPoint(x, y, {"P-256": "p256", "P-384": "p384",
                            "P-521": "p521"}[crv]) * d
    z = int(q.x).to_bytes(COORD[crv], "big")
    if alg == "ECDH-ES":
        return kdf(z, enc.encode("ascii"), apu, apv, 8 * CEKLEN[enc])
    return kdf(z, alg[8:].encode("ascii"), apu, apv, int(alg[9:12]))


def content(enc, cek, iv, aad, msg):
    if enc.endswith("GCM"):
        return gcm_encrypt(cek, iv, aad, msg)
    return cbc_encrypt(cek, iv, aad, msg)


def make(alg, enc, msg, i=0, cek=None, iv=None, crv="P-256", extra=None,
         apu=None, apv=None, head=None, fixed=False):
    """parts of a token for key(alg, i)"""
    if cek is None:
        cek = bytes((17 * j + 3) & 255 for j in range(CEKLEN[enc]))
    if iv is None:
        iv = bytes((11 * j + 5) & 255 for j in range(ivlen(enc)))
    h = {"alg": alg, "enc": enc}
    if alg in EC:
        h["epk"] = epk_json(crv)
        for n, v in (("apu", apu), ("apv", apv)):
            if v is not None:
                h[n] = ref.b64u(v).decode("ascii")
    h.update(extra or {})
    if head is None:
        head = json.dumps(h).encode("utf-8")
    if alg in RSA and fixed:
        ek = rsa_encrypt(alg, i, cek)
    elif alg == "RSA1_5":
        ek = PKCS1_v1_5.new(keys.rsa_raw(i + 1)).encrypt(cek)
    elif alg == "RSA-OAEP":
        ek = PKCS1_OAEP.new(keys.rsa_raw(i + 1)).encrypt(cek)
    elif alg == "RSA-OAEP-256":
        ek = PKCS1_OAEP.new(keys.rsa_raw(i + 1), SHA256).encrypt(cek)
    elif alg in KW:
        ek = ref_wrap(kek(alg, i), cek)
    else:
        q = keys.ec_lib(crv, i).pointQ
        k = agreed(alg, enc, crv, int(q.x), int(q.y), EPK_D, apu or b"",
                   apv or b"")
        if alg == "ECDH-ES":
            cek, ek = k, b""
        else:
            ek = ref_wrap(k, cek)
    ct, tag = content(enc, cek, iv, ref.b64u(head), msg)
    return [head, ek, iv, ct, tag]


def mgf1(seed, n, h):
    out = b""
    k = 0
    while len(out) < n:
        out += h(seed + k.to_bytes(4, "big")).digest()
        k += 1
    return out[:n]


def rsa_encrypt(alg, i, cek):
    """RFC 8017 with fixed random octets, for a known key"""
    rk = keys.rsa_raw(i + 1)
    n = (int(rk.n).bit_length() + 7) // 8
    if alg == "RSA1_5":
        em = b"\0\2" + bytes(1 + j % 255 for j in range(
            n - 3 - len(cek))) + b"\0" + cek
    else:
        h = hashlib.sha1 if alg == "RSA-OAEP" else hashlib.sha256
        k = h().digest_size
        seed = bytes((7 * j + 1) & 255 for j in range(k))
        db = h(b"").digest() + bytes(n - len(cek) - 2 * k - 2) + b"\1" + cek
        db = bytes(x ^ y for x, y in zip(db, mgf1(seed, len(db), h)))
        em = b"\0" + bytes(x ^ y for x, y in zip(seed, mgf1(db, k, h))) + db
    return pow(int.from_bytes(em, "big"), int(rk.e), int(rk.n)).to_bytes(
        n, "big")


def token(*a, **k):
    return ref.tok(*make(*a, **k))


def content_key(alg, enc, header, ek, i, crv="P-256"):
    """by an independent receiver with key(alg, i); None if refused"""
    if alg in RSA:
        rk = keys.rsa_raw(i + 1)
        if alg == "RSA1_5":
            cek = PKCS1_v1_5.new(rk).decrypt(ek, None)
        else:
            c = PKCS1_OAEP.new(rk) if alg == "RSA-OAEP" else \
                PKCS1_OAEP.new(rk, SHA256)
            try:
                cek = c.decrypt(ek)
            except ValueError:
                return None
        return cek
    if alg in KW:
        k = kek(alg, i)
    else:
        e = header["epk"]
        x, y = [int.from_bytes(ref.unb64(e[n].encode("ascii")), "big")
                for n in "xy"]
        party = [ref.unb64(header[n].encode("ascii"))
                 if n in header else b"" for n in ("apu", "apv")]
        k = agreed(alg, enc, e["crv"], x, y, keys.EC_D[crv][i], *party)
        if alg == "ECDH-ES":
            return k if len(ek) == 0 else None
    if len(ek) < 24 or len(ek) % 8:
        return None
    a, cek = ref_unwrap(k, ek)
    return cek if a == A6 else None


def expected_tag(alg, enc, header, parts, aad, i, crv="P-256"):
    """the tag an independent receiver wants; None if there is none"""
    ek, iv, ct, tag = parts
    cek = content_key(alg, enc, header, ek, i, crv)
    if cek is None or len(cek) != CEKLEN[enc] or len(iv) != ivlen(enc):
        return None
    return gcm_tag(cek, iv, aad, ct) if enc.endswith("GCM") else \
        cbc_tag(cek, iv, aad, ct)


def open_(alg, enc, header, parts, aad, i, crv="P-256"):
    """message, or None"""
    ek, iv, ct, tag = parts
    cek = content_key(alg, enc, header, ek, i, crv)
    if cek is None or len(cek) != CEKLEN[enc] or len(iv) != ivlen(enc):
        return None
    if enc.endswith("GCM"):
        if gcm_tag(cek, iv, aad, ct) != tag:
            return None
        return gcm_plain(cek, iv, ct)
    if cbc_tag(cek, iv, aad, ct) != tag:
        return None
    x = cbc_plain(cek, iv, ct)
    return x[:len(x) - x[-1]]
