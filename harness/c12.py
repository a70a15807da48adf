"""C12 AES-CBC with HMAC (RFC 7518 section 5.2)."""
import hmac
from Cryptodome.Cipher import AES
from jwkest.extra import aes_cbc_hmac_decrypt, aes_cbc_hmac_encrypt
from jwkest.jwe import JWe
from vlib.api import Case

ASSUMPTIONS = ["AES under a symbolic key is an uninterpreted permutation, "
               "HMAC an uninterpreted function of key and message"]
OUTSIDE = ["longer messages and associated data than stated"]
HASH = {32: "sha256", 48: "sha384", 64: "sha512"}
ENC = {32: "A128CBC-HS256", 48: "A192CBC-HS384", 64: "A256CBC-HS512"}


def ref_tag(key, iv, aad, ct):
    half = len(key) // 2
    m = aad + iv + ct + (8 * len(aad)).to_bytes(8, "big")
    return hmac.new(key[:half], m, HASH[len(key)]).digest()[:half]


def ref_encrypt(key, iv, aad, pt):
    pad = 16 - len(pt) % 16
    x = pt + bytes([pad]) * pad
    e = AES.new(key[len(key) // 2:], AES.MODE_ECB)
    out = b""
    prev = iv
    for i in range(0, len(x), 16):
        prev = e.encrypt(bytes([a ^ b for a, b in zip(x[i:i + 16], prev)]))
        out += prev
    return out, ref_tag(key, iv, aad, out)


def ref_plain(key, iv, ct):
    """message with its padding"""
    d = AES.new(key[len(key) // 2:], AES.MODE_ECB)
    out = b""
    prev = iv
    for i in range(0, len(ct), 16):
        b = ct[i:i + 16]
        out += bytes([x ^ y for x, y in zip(d.decrypt(b), prev)])
        prev = b
    return out


def pad_right(S, x, n):
    """the last n octets are the padding"""
    return S.all(*[S.eq(x[len(x) - 1 - i], n) for i in range(n)])


def encrypt(S, klen, na, n):
    key = S.bytes("key", klen)
    iv = S.bytes("iv", 16)
    aad = S.bytes("aad", min(na, 300))
    aad += b"x" * (na - len(aad))
    pt = S.bytes("pt", n)
    ct, tag = aes_cbc_hmac_encrypt(key, iv, aad, pt)
    wc, wt = ref_encrypt(key, iv, aad, pt)
    S.check(S.eq(ct, wc), "ciphertext", ct=ct)
    S.check(S.eq(tag, wt), "tag", tag=tag)
    S.check(S.eq(aes_cbc_hmac_decrypt(key, iv, aad, ct, tag), pt),
            "the message comes back")
    S.observe("ct", ct)
    S.observe("tag", tag)
    S.reach("encrypted")


def decrypt(S, klen, na, n, nt, how):
    """any octets"""
    key = S.bytes("key", klen)
    iv = S.bytes("iv", 16)
    aad = S.bytes("aad", na)
    ct = S.bytes("ct", n)
    tag = S.bytes("tag", nt)
    if how == "token":
        r = S.attempt(JWe._decrypt, ENC[klen], key, ct, aad, iv, tag)
    else:
        r = S.attempt(aes_cbc_hmac_decrypt, key, iv, aad, ct, tag)
    S.observe("r", r)
    want = ref_tag(key, iv, aad, ct)
    if not r.ok:
        S.reach("refused")
        if nt == len(want) and n and n % 16 == 0:
            x = ref_plain(key, iv, ct)
            for k in range(1, 17):
                S.check(S.neg(S.all(S.eq(tag, want), pad_right(S, x, k))),
                        "the right tag and padding are accepted",
                        got=r.kind)
        return
    S.check(S.eq(tag, want), "accepted only with the right tag", tag=tag)
    S.check(n and n % 16 == 0, "whole blocks")
    x = ref_plain(key, iv, ct)
    k = len(x) - len(r.value)
    S.check(1 <= k <= 16, "padding length")
    S.check(pad_right(S, x, k), "the padding is right")
    S.check(S.eq(r.value, x[:len(x) - k]), "the message")
    S.reach("accepted")


def lengths(S, klen, niv, how):
    """unusable keys and IVs"""
    key = S.bytes("key", klen)
    iv = S.bytes("iv", niv)
    aad = b"aad"
    if how == "encrypt":
        r = S.attempt(aes_cbc_hmac_encrypt, key, iv, aad, b"message")
        S.check(not r.ok, "refused", got=r.kind)
        return S.reach("refused")
    n = 16
    ct = S.bytes("ct", n)
    tag = S.bytes("tag", S.choose("taglen", [0, 16, 24, 32]))
    r = S.attempt(aes_cbc_hmac_decrypt, key, iv, aad, ct, tag)
    S.check(not r.ok, "refused", got=r.kind)
    for enc in sorted(ENC.values()):
        r = S.attempt(JWe._decrypt, enc, key, ct, aad, iv, tag)
        S.check(not r.ok, "refused as content of a token", got=r.kind)
    S.reach("refused")


def other_enc(S, klen):
    """a key of a supported length, but not the named algorithm's"""
    key = S.bytes("key", klen)
    iv = S.bytes("iv", 16)
    ct = S.bytes("ct", 16)
    tag = S.bytes("tag", S.choose("taglen", [16, 24, 32]))
    for k in sorted(ENC):
        if k != klen:
            r = S.attempt(JWe._decrypt, ENC[k], key, ct, b"aad", iv, tag)
            S.check(not r.ok, "refused", got=r.kind)
    S.reach("refused")


def cases(tier):
    big = tier == "thorough"
    out = []
    for klen in (32, 48, 64):
        for n in [0, 1, 15, 16, 17, 31, 32, 33] + (
                list(range(2, 15)) + [47, 48, 64, 100] if big else []):
            out.append(Case("encrypt-%d-5-%d" % (klen, n), encrypt,
                            {"klen": klen, "na": 5, "n": n},
                            reach=["encrypted"], weight=n,
                            bounds="every %d-octet key, IV, 5 octets of data "
                            "and message of %d octets" % (klen, n)))
        for na in [0, 1, 16, 32, 40, 300, 8200] + ([70000] if big else []):
            out.append(Case("encrypt-%d-%d-3" % (klen, na), encrypt,
                            {"klen": klen, "na": na, "n": 3},
                            reach=["encrypted"], weight=na // 20,
                            bounds="every %d-octet key, IV, %d octets of "
                            "data (the first 300 of them any) and message "
                            "of 3 octets" % (klen, na)))
        full = klen // 2
        for n, nt, how in [(16, full, "direct"), (16, full, "token"),
                           (32, full, "direct"), (0, full, "direct"),
                           (15, full, "direct"), (17, full, "token")] + [
                    (16, t, "direct") for t in (0, 1, 8, full - 1, full + 1,
                                                2 * full)] + [
                    (16, t, "token") for t in (0, full - 1, 2 * full)] + (
                [(48, full, "token"), (64, full, "direct")] if big else []):
            out.append(Case("decrypt-%d-%d-%d-%s" % (klen, n, nt, how),
                            decrypt, {"klen": klen, "na": 7, "n": n,
                                      "nt": nt, "how": how},
                            reach=["refused"] + (
                                ["accepted"] if nt == full and n and
                                n % 16 == 0 else []), weight=n,
                            bounds="every key, IV, 7 octets of data, %d of "
                            "ciphertext and %d of tag" % (n, nt)))
        out.append(Case("other-enc-%d" % klen, other_enc, {"klen": klen},
                        reach=["refused"], bounds="every key"))
        for niv in (0, 1, 8, 12, 15, 17, 32):
            for how in ("encrypt", "decrypt"):
                out.append(Case("iv-%d-%d-%s" % (klen, niv, how), lengths,
                                {"klen": klen, "niv": niv, "how": how},
                                reach=["refused"],
                                bounds="every IV of %d octets" % niv))
    for klen in (0, 1, 16, 24, 31, 33, 40, 47, 49, 56, 63, 65, 96, 128):
        for how in ("encrypt", "decrypt"):
            out.append(Case("key-%d-%s" % (klen, how), lengths,
                            {"klen": klen, "niv": 16, "how": how},
                            reach=["refused"],
                            bounds="every key of %d octets" % klen))
    return out
