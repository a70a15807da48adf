"""C15 ECDH-ES key derivation (RFC 7518 section 4.6.2)."""
import hashlib
import struct
from Cryptodome.PublicKey import ECC
from jwkest.ecc import NISTEllipticCurve
from jwkest.extra import concat_sha256, ecdh_derive_key
from jwkest.jwe import JWE_EC, JWEnc
from jwkest.jwk import ECKey
from vlib.api import Case
from harness import ref, tiny

ASSUMPTIONS = ["SHA-256 is an uninterpreted function of its octets"]
OUTSIDE = ["longer party information than stated; shared secrets other than "
           "the fixed pairs' and those of small curves (the KDF itself is "
           "taken over every secret)"]
# private values; the pairs (d, 1st) and (d, 2nd) differ in how many leading
# zero octets the secret has
PRIV = {"P-256": (32, 0x1234567, 2, 206), "P-384": (48, 0x1234567, 2, 337),
        "P-521": (66, (1 << 520) + 77, 2, 704)}


def pub(crv, d):
    q = ECC.construct(curve=crv, d=d).pointQ
    return int(q.x), int(q.y)


def secret(crv, d, k):
    q = ECC.construct(curve=crv, d=d).pointQ * k
    return int(q.x).to_bytes(PRIV[crv][0], "big")


def kdf(z, alg, apu, apv, bits):
    """RFC 7518 section 4.6.2 with SP 800-56A section 5.8.1"""
    info = struct.pack(">I", len(alg)) + alg
    info += struct.pack(">I", len(apu)) + apu
    info += struct.pack(">I", len(apv)) + apv
    info += struct.pack(">I", bits)
    out = b""
    n = 0
    while 8 * len(out) < bits:
        n += 1
        out += hashlib.sha256(struct.pack(">I", n) + z + info).digest()
    return out[:bits // 8]


def derive(S, crv, which, na, nu, nv, bits):
    """fixed keys, any names"""
    d = PRIV[crv][1]
    k = PRIV[crv][2 + which]
    alg = S.bytes("alg", na)
    apu = S.bytes("apu", nu)
    apv = S.bytes("apv", nv)
    c = NISTEllipticCurve.by_name(crv)
    z = secret(crv, d, k)
    want = kdf(z, alg, apu, apv, bits)
    S.check(S.eq(ecdh_derive_key(c, d, pub(crv, k), apu, apv, alg, bits),
                 want), "key of one side")
    S.check(S.eq(ecdh_derive_key(c, k, pub(crv, d), apu, apv, alg, bits),
                 want), "key of the other side")
    S.observe("key", want)
    S.reach("derived")


def concat(S, nz, ni, bits):
    """any secret and other information"""
    z = S.bytes("z", nz)
    info = S.bytes("info", ni)
    want = b""
    n = 0
    while 8 * len(want) < bits:
        n += 1
        want += hashlib.sha256(struct.pack(">I", n) + z + info).digest()
    got = concat_sha256(z, bits, info)
    S.check(S.eq(got, want[:bits // 8]), "hash chain", got=got)
    S.reach("derived")


def small(S, p, order):
    """any key pair of a small curve: the secret is the x-coordinate of the
    product in the curve's length"""
    dom = tiny.curve(p, order)
    tiny.use(256, dom)
    c = NISTEllipticCurve.by_name("P-256")
    g = (dom[3], dom[4])
    d = S.int("d", 1, dom[1] - 1)
    k = S.choose("k", list(range(1, dom[1])))
    other = tiny.mul(p, g, k)
    got = c.dh_z(d, other)
    S.check(len(got) == 32, "length")
    for i in range(1, dom[1]):
        if S.truth(S.eq(d, i)):
            x = tiny.mul(p, other, i)[0]
            S.check(S.eq(got, x.to_bytes(32, "big")), "secret", got=got)
            S.check(S.eq(ecdh_derive_key(c, d, other, b"u", b"v", b"alg",
                                         128),
                         kdf(x.to_bytes(32, "big"), b"alg", b"u", b"v",
                             128)), "key")
    S.reach("derived")


KW = {"ECDH-ES+A128KW": ("A128KW", 128), "ECDH-ES+A192KW": ("A192KW", 192),
      "ECDH-ES+A256KW": ("A256KW", 256)}
BITS = {"A128GCM": 128, "A192GCM": 192, "A256GCM": 256,
        "A128CBC-HS256": 256, "A192CBC-HS384": 384, "A256CBC-HS512": 512}


def coords(crv, xy):
    n = PRIV[crv][0]
    return [ref.b64u(v.to_bytes(n, "big")).decode("ascii") for v in xy]


def receive(S, crv, which, enc, nu, nv):
    """the receiver's key for a token with any party information (or none:
    negative length)"""
    d = PRIV[crv][1]
    k = PRIV[crv][2 + which]
    x, y = coords(crv, pub(crv, k))
    head = {"alg": "ECDH-ES", "enc": enc,
            "epk": {"kty": "EC", "crv": crv, "x": x, "y": y}}
    party = []
    for name, n in (("apu", nu), ("apv", nv)):
        v = b""
        if n >= 0:
            v = S.bytes(name, n)
            head[name] = ref.b64u(v).decode("ascii")
        party.append(v)
    tok = ref.tok(ref.jdump(head), b"", b"iv", b"ct", b"tag")
    x, y = pub(crv, d)
    key = ECKey(crv=crv, x=x, y=y, d=d)
    e = JWE_EC()
    got = e.dec_setup(JWEnc().unpack(tok), key=key)
    want = kdf(secret(crv, d, k), enc.encode("ascii"), party[0], party[1],
               BITS[enc])
    S.check(S.eq(got, want), "the receiver's key", got=got)
    S.reach("derived")


def send(S, crv, which, alg, enc, nu, nv):
    """the sender's key for given party information and ephemeral key"""
    from jwkest.aes_key_wrap import aes_unwrap_key
    d = PRIV[crv][1]
    k = PRIV[crv][2 + which]
    apu = S.bytes("apu", nu)
    apv = S.bytes("apv", nv)
    x, y = pub(crv, k)
    epk = ECKey(crv=crv, x=x, y=y, d=k)
    x, y = pub(crv, d)
    e = JWE_EC(b"message", alg=alg, enc=enc)
    cek, wrapped, iv, params, priv = e.enc_setup(
        b"message", {}, key=ECKey(crv=crv, x=x, y=y),
        apu=ref.b64u(apu), apv=ref.b64u(apv), epk=epk)
    z = secret(crv, d, k)
    S.check(S.eq(params["apu"], ref.b64u(apu)), "apu in the header")
    S.check(S.eq(params["apv"], ref.b64u(apv)), "apv in the header")
    if alg == "ECDH-ES":
        S.check(S.eq(cek, kdf(z, enc.encode("ascii"), apu, apv,
                              BITS[enc])), "the sender's key", cek=cek)
        S.check(len(wrapped) == 0, "no encrypted key")
    else:
        name, bits = KW[alg]
        kek = kdf(z, name.encode("ascii"), apu, apv, bits)
        S.check(S.eq(aes_unwrap_key(kek, wrapped), cek),
                "the key is wrapped under the derived one")
    S.reach("derived")


def cases(tier):
    big = tier == "thorough"
    out = []
    for crv in sorted(PRIV):
        for which in (0, 1):
            for na, nu, nv, bits in [(7, 0, 0, 128), (6, 5, 3, 192),
                                     (13, 16, 16, 256), (13, 2, 20, 384),
                                     (0, 1, 33, 512)] + (
                    [(300, 260, 280, 512), (1, 100, 100, 1024)]
                    if big else []):
                out.append(Case("derive-%s-%d-%d-%d-%d-%d" % (
                    crv, which, na, nu, nv, bits), derive,
                    {"crv": crv, "which": which, "na": na, "nu": nu,
                     "nv": nv, "bits": bits}, reach=["derived"],
                    bounds="one key pair, every name of %d octets and party "
                    "information of %d and %d" % (na, nu, nv)))
        for enc in sorted(BITS):
            out.append(Case("receive-%s-%s" % (crv, enc), receive,
                            {"crv": crv, "which": 1, "enc": enc, "nu": 4,
                             "nv": 7}, reach=["derived"], weight=3,
                            bounds="every party information of 4 and 7 "
                            "octets"))
        for nu, nv in ((-1, -1), (-1, 3), (3, -1), (0, 0), (16, 16)):
            out.append(Case("receive-%s-%d-%d" % (crv, nu, nv), receive,
                            {"crv": crv, "which": 0, "enc": "A192GCM",
                             "nu": nu, "nv": nv}, reach=["derived"],
                            weight=3, bounds="every party information of "
                            "these lengths (-1: none)"))
        for alg in ["ECDH-ES"] + sorted(KW):
            for enc in sorted(BITS) if alg == "ECDH-ES" or big else \
                    ("A128GCM", "A256CBC-HS512"):
                out.append(Case("send-%s-%s-%s" % (crv, alg, enc), send,
                                {"crv": crv, "which": 1, "alg": alg,
                                 "enc": enc, "nu": 6, "nv": 11},
                                reach=["derived"], weight=3,
                                bounds="every party information of 6 and 11 "
                                "octets"))
    out.append(Case("long", derive, {"crv": "P-256", "which": 0, "na": 7,
                                     "nu": 260, "nv": 258, "bits": 128},
                    reach=["derived"], bounds="party information of more "
                    "than 255 octets"))
    for nz, ni, bits in [(32, 20, 128), (48, 20, 256), (66, 20, 264),
                         (66, 30, 384), (1, 0, 512), (32, 3, 8),
                         (32, 20, 520)] + (
            [(66, 200, 2048), (20, 20, 8192 + 256)] if big else
            [(32, 2, 8192 + 256)]):
        out.append(Case("concat-%d-%d-%d" % (nz, ni, bits), concat,
                        {"nz": nz, "ni": ni, "bits": bits},
                        reach=["derived"], bounds="every secret of %d octets "
                        "and information of %d" % (nz, ni)))
    for p, order in [(7, 5), (11, 17)] + ([(13, 19), (17, 23)] if big
                                          else []):
        out.append(Case("small-%d" % p, small, {"p": p, "order": order},
                        reach=["derived"], weight=10,
                        bounds="every key pair of a curve over GF(%d)" % p))
    return out
