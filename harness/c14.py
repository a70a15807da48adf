"""C14 AES key wrap."""
from Cryptodome.Cipher import AES
from jwkest import aes_key_wrap as kw
from vlib.api import Case

ASSUMPTIONS = ["AES under a symbolic key is an uninterpreted permutation"]
OUTSIDE = ["keys of more blocks than stated"]
A6 = b"\xa6" * 8


def xor_t(a, t):
    return (int.from_bytes(a, "big") ^ t).to_bytes(8, "big")


def ref_wrap(kek, p, iv=A6):
    """RFC 3394 section 2.2.1, the shifting formulation"""
    n = len(p) // 8
    e = AES.new(kek, AES.MODE_ECB)
    a = iv
    r = [p[8 * i:8 * i + 8] for i in range(n)]
    for t in range(1, 6 * n + 1):
        b = e.encrypt(a + r[0])
        a = xor_t(b[:8], t)
        r = r[1:] + [b[8:]]
    return a + b"".join(r)


def ref_unwrap(kek, c):
    """(A, key)"""
    n = len(c) // 8 - 1
    d = AES.new(kek, AES.MODE_ECB)
    a = c[:8]
    r = [c[8 * i + 8:8 * i + 16] for i in range(n)]
    for t in range(6 * n, 0, -1):
        b = d.decrypt(xor_t(a, t) + r[-1])
        a = b[:8]
        r = [b[8:]] + r[:-1]
    return a, b"".join(r)


def wrap(S, klen, n):
    kek = S.bytes("kek", klen)
    key = S.bytes("key", 8 * n)
    w = kw.aes_wrap_key(kek, key)
    S.check(S.eq(w, ref_wrap(kek, key)), "the RFC 3394 result", w=w)
    S.check(S.eq(kw.aes_unwrap_key(kek, w), key), "unwrapping returns it")
    S.observe("w", w)
    S.reach("wrap")


def unwrap(S, klen, m):
    """any octets"""
    kek = S.bytes("kek", klen)
    c = S.bytes("c", m)
    r = S.attempt(kw.aes_unwrap_key, kek, c)
    S.observe("r", r)
    if m % 8 or m < 16:
        S.check(not r.ok, "a wrong length is refused")
        return S.reach("length")
    a, key = ref_unwrap(kek, c)
    S.check(S.iff(r.ok, S.eq(a, A6)), "accepted exactly if the check value "
            "is right", got=r.kind)
    if r.ok:
        S.check(S.eq(r.value, key), "the key")
        if m <= 24:
            S.check(S.eq(ref_wrap(kek, r.value), c),
                    "wrapping gives the octets")
        S.reach("key")
    else:
        S.check(isinstance(r.exc, ValueError), "refused with ValueError",
                got=r.kind)
        S.reach("refused")


def changed(S, klen, n):
    """a wrapped key with any other octets in it, or under another key"""
    kek = bytes(range(klen))
    key = bytes(range(100, 100 + 8 * n))
    w = ref_wrap(kek, key)
    d = S.bytes("delta", len(w))
    c = bytes([x ^ y for x, y in zip(w, d)])
    r = S.attempt(kw.aes_unwrap_key, kek, c)
    if r.ok:
        S.check(S.eq(ref_wrap(kek, r.value), c), "only what wrapping gives")
        S.check(S.iff(S.eq(r.value, key), S.eq(c, w)), "the same key only "
                "for the same octets")
        S.reach("same")
    else:
        S.check(S.neg(S.eq(c, w)), "the unchanged octets unwrap")
        S.reach("refused")


def bad_length(S, m):
    key = S.bytes("key", m)
    r = S.attempt(kw.aes_wrap_key, bytes(16), key)
    S.check(not r.ok and isinstance(r.exc, ValueError),
            "a key that is no sequence of blocks is refused", got=r.kind)
    S.reach("refused")


def padded(S, klen, m):
    kek = S.bytes("kek", klen)
    x = S.bytes("x", m)
    w = kw.aes_wrap_key_withpad(kek, x)
    S.check(S.eq(kw.aes_unwrap_key_withpad(kek, w), x),
            "the octets come back")
    S.check(len(w) == 8 + 8 * (m // 8 + 1), "length")
    S.check(not S.attempt(kw.aes_unwrap_key, kek, w).ok,
            "not taken for an unpadded one")
    S.reach("padded")


def cases(tier):
    big = tier == "thorough"
    out = []
    for klen in (16, 24, 32):
        for n in (1, 2, 3, 4) + ((5, 6, 8) if big else
                                 (6, 8) if klen == 16 else ()):
            out.append(Case("wrap-%d-%d" % (klen, n), wrap,
                            {"klen": klen, "n": n}, reach=["wrap"],
                            weight=n, bounds="every %d-octet KEK and key of "
                            "%d blocks" % (klen, n)))
        for m in (16, 24, 32) + ((40, 48, 56, 72) if big else
                                 (40, 72) if klen == 16 else ()):
            out.append(Case("unwrap-%d-%d" % (klen, m), unwrap,
                            {"klen": klen, "m": m}, weight=m,
                            reach=["key", "refused"],
                            bounds="every %d-octet KEK and %d octets" % (
                                klen, m)))
        for n in (1, 2) + ((3, 4) if big else ()):
            out.append(Case("changed-%d-%d" % (klen, n), changed,
                            {"klen": klen, "n": n}, weight=20 * n,
                            reach=["same", "refused"],
                            bounds="every change of one wrapped key of %d "
                            "blocks" % n))
    for m in (0, 1, 7, 8, 9, 15, 17, 20, 23, 25, 31, 33):
        out.append(Case("length-%d" % m, unwrap, {"klen": 16, "m": m},
                        reach=["length"], bounds="every %d octets" % m))
    for m in (0, 1, 7, 9, 12, 15, 17, 20, 31, 33, 65):
        out.append(Case("wrap-length-%d" % m, bad_length, {"m": m},
                        reach=["refused"], bounds="every %d octets" % m))
    for m in list(range(0, 10)) + [15, 16, 17] + (
            list(range(10, 15)) + [23, 24, 25, 31, 32, 33] if big else []):
        out.append(Case("padded-%d" % m, padded, {"klen": 16, "m": m},
                        reach=["padded"], weight=m,
                        bounds="every KEK and %d octets" % m))
    return out
