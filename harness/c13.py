"""C13 AES-GCM (SP 800-38D)."""
from Cryptodome.Cipher import AES
from Cryptodome.Util.number import bytes_to_long
from jwkest.aes_gcm import AES_GCM
from jwkest.jwe import JWe
from vlib.api import Case

ASSUMPTIONS = ["AES of the fixed keys on symbolic counter blocks is an "
               "uninterpreted function; GHASH is exact"]
OUTSIDE = ["other keys than the nine fixed ones (GHASH under an unknown "
           "subkey is out of the solver's reach); messages longer than "
           "stated, so also counters above 260"]
ENC = {16: "A128GCM", 24: "A192GCM", 32: "A256GCM"}


def a_key(n, which):
    if which == 1:              # leading zero octets
        return bytes(3) + bytes((7 * i + n) & 255 for i in range(n - 3))
    if which == 2:
        return b"\xff" * (n - 1) + b"\x80"
    return bytes((37 * i + 11 * n + 5) & 255 for i in range(n))


def ref_encrypt(key, iv, aad, msg):
    g = AES.new(key, AES.MODE_GCM, nonce=iv)
    g.update(aad)
    ct = g.encrypt(msg)
    return ct, g.digest()


def ref_plain(key, iv, ct):
    return AES.new(key, AES.MODE_GCM, nonce=iv).decrypt(ct)


def ref_tag(key, iv, aad, ct):
    return ref_encrypt(key, iv, aad, ref_plain(key, iv, ct))[1]


def encrypt(S, klen, which, na, n, ivkind):
    key = a_key(klen, which)
    iv = S.bytes("iv", 12)
    aad = S.bytes("aad", na)
    msg = S.bytes("msg", n)
    wc, wt = ref_encrypt(key, iv, aad, msg)
    if ivkind == "token":
        ct, tag, k = JWe(alg="x").enc_setup(ENC[klen], msg, aad, key=key,
                                            iv=iv)
        S.check(S.eq(k, key), "the key is used")
        S.check(S.eq(ct, wc), "ciphertext", ct=ct)
        S.check(S.eq(tag, wt), "tag", tag=tag)
        back = JWe._decrypt(ENC[klen], key, ct, aad, iv, tag)
    else:
        ct, t = AES_GCM(key).encrypt(bytes_to_long(iv), msg, aad)
        S.check(S.eq(ct, wc), "ciphertext", ct=ct)
        S.check(S.eq(t.to_bytes(16, "big"), wt), "tag")
        back = AES_GCM(key).decrypt(bytes_to_long(iv), ct, t, aad)
    S.check(S.eq(back, msg), "the message comes back")
    S.observe("ct", ct)
    S.reach("encrypted")


def long_message(S, klen, n):
    """counters beyond one octet; the last octets are any"""
    key = a_key(klen, 0)
    iv = bytes(range(12))
    msg = bytes(i & 255 for i in range(n - 3)) + S.bytes("end", 3)
    wc, wt = ref_encrypt(key, iv, b"aad", msg)
    ct, tag, _ = JWe(alg="x").enc_setup(ENC[klen], msg, b"aad", key=key,
                                        iv=iv)
    S.check(S.eq(ct, wc), "ciphertext")
    S.check(S.eq(tag, wt), "tag")
    S.check(S.eq(JWe._decrypt(ENC[klen], key, ct, b"aad", iv, tag), msg),
            "the message comes back")
    S.reach("encrypted")


def decrypt(S, klen, which, na, n, how):
    """any octets of the right lengths"""
    key = a_key(klen, which)
    iv = S.bytes("iv", 12)
    aad = S.bytes("aad", na)
    ct = S.bytes("ct", n)
    tag = S.bytes("tag", 16)
    if how == "token":
        r = S.attempt(JWe._decrypt, ENC[klen], key, ct, aad, iv, tag)
    else:
        r = S.attempt(AES_GCM(key).decrypt, bytes_to_long(iv), ct,
                      bytes_to_long(tag), aad)
    S.observe("r", r)
    want = ref_tag(key, iv, aad, ct)
    S.check(S.iff(r.ok, S.eq(tag, want)), "accepted exactly with the right "
            "tag", got=r.kind)
    if r.ok:
        S.check(S.eq(r.value, ref_plain(key, iv, ct)),
                "the message")
        S.reach("accepted")
    else:
        S.reach("refused")


def wrong_tag(S, klen, which, na, n, how):
    """one right message with any wrong tag, for any one IV octet"""
    key = a_key(klen, which)
    iv = bytes(range(1, 12)) + b"\x07"
    aad = bytes(i * 7 & 255 for i in range(na))
    ct = bytes(i * 5 & 255 for i in range(n))
    right = ref_tag(key, iv, aad, ct)
    tag = S.bytes("tag", 16)
    if how == "token":
        r = S.attempt(JWe._decrypt, ENC[klen], key, ct, aad, iv, tag)
    else:
        r = S.attempt(AES_GCM(key).decrypt, bytes_to_long(iv), ct,
                      bytes_to_long(tag), aad)
    S.check(S.iff(r.ok, S.eq(tag, right)),
            "accepted exactly with the right tag", got=r.kind)
    if r.ok:
        S.check(S.eq(r.value, ref_plain(key, iv, ct)), "the message")
        S.reach("accepted")
    else:
        S.reach("refused")


def changed_data(S, klen, part, na, n):
    """a right tag, but other data, ciphertext or IV"""
    key = a_key(klen, 0)
    iv = bytes(range(1, 13))
    aad = bytes(i * 7 & 255 for i in range(na))
    ct = bytes(i * 5 & 255 for i in range(n))
    right = ref_tag(key, iv, aad, ct)
    old = {"aad": aad, "ct": ct, "iv": iv}[part]
    pos = S.choose("pos", list(range(len(old))))
    new = old[:pos] + S.bytes("new", 1) + old[pos + 1:]
    S.assume(S.neg(S.eq(new, old)))
    d = {"aad": aad, "ct": ct, "iv": iv}
    d[part] = new
    if part == "iv":
        S.assume(S.neg(S.eq(ref_tag(key, new, aad, ct), right)))
    r = S.attempt(JWe._decrypt, ENC[klen], key, d["ct"], d["aad"], d["iv"],
                  right)
    S.check(not r.ok, "refused", got=r.kind)
    S.reach("refused")


def lengths(S, klen, kreal, niv, nt):
    """any octets of another length"""
    key = a_key(kreal, 0)
    r = S.attempt(JWe._decrypt, ENC[klen], key, S.bytes("ct", 5),
                  S.bytes("aad", 3), S.bytes("iv", niv), S.bytes("tag", nt))
    S.check(not r.ok, "refused", got=r.kind)
    S.reach("refused")


def symkey_length(S, klen, kreal):
    key = S.bytes("key", kreal)
    r = S.attempt(JWe._decrypt, ENC[klen], key, b"12345", b"aad", bytes(12),
                  S.bytes("tag", 16))
    S.check(not r.ok, "refused", got=r.kind)
    S.reach("refused")


def numbers(S):
    """an IV or tag number that has no octets of the length"""
    g = AES_GCM(a_key(16, 0))
    iv = S.int("iv", 0, (1 << 100) - 1)
    t = S.int("tag", 0, (1 << 132) - 1)
    S.assume(S.any(iv >= (1 << 96), t >= (1 << 128)))
    r = S.attempt(g.decrypt, iv, b"12345", t, b"aad")
    S.check(not r.ok, "refused", got=r.kind)
    S.reach("refused")


def cases(tier):
    big = tier == "thorough"
    out = []
    for klen in (16, 24, 32):
        sizes = [(0, 0), (0, 1), (1, 0), (5, 15), (16, 16), (17, 17),
                 (0, 33)] + ([(32, 48), (40, 70), (100, 5), (15, 31)]
                             if big else [])
        for na, n in sizes:
            out.append(Case("encrypt-%d-%d-%d" % (klen, na, n), encrypt,
                            {"klen": klen, "which": 0, "na": na, "n": n,
                             "ivkind": "token"}, reach=["encrypted"],
                            weight=n + na, bounds="every IV, %d octets of "
                            "data and %d of message, one key" % (na, n)))
        for which in (1, 2):
            out.append(Case("encrypt-%d-key%d" % (klen, which), encrypt,
                            {"klen": klen, "which": which, "na": 5, "n": 18,
                             "ivkind": "token"}, reach=["encrypted"],
                            weight=20, bounds="every IV, 5 octets of data "
                            "and 18 of message, another key"))
        out.append(Case("encrypt-%d-direct" % klen, encrypt,
                        {"klen": klen, "which": 0, "na": 5, "n": 18,
                         "ivkind": "direct"}, reach=["encrypted"],
                        weight=20, bounds="every IV, 5 octets of data and "
                        "18 of message, one key"))
        for which, na, n, how in [(0, 5, 0, "token"), (0, 5, 5, "token"),
                                  (0, 3, 17, "token"), (1, 5, 16, "token"),
                                  (0, 16, 16, "direct")] + (
                [(2, 17, 33, "token"), (0, 0, 64, "token")] if big else []):
            out.append(Case("decrypt-%d-%d-%d-%d-%s" % (
                klen, which, na, n, how), decrypt,
                {"klen": klen, "which": which, "na": na, "n": n,
                 "how": how}, reach=["accepted", "refused"], weight=n + na,
                bounds="every IV, tag, %d octets of data and %d of "
                "ciphertext" % (na, n)))
        for na, n, how in [(0, 0, "token"), (5, 20, "token"),
                           (16, 16, "direct"), (33, 40, "token")]:
            out.append(Case("wrong-tag-%d-%d-%d-%s" % (klen, na, n, how),
                            wrong_tag, {"klen": klen, "which": 0, "na": na,
                                        "n": n, "how": how},
                            reach=["accepted", "refused"],
                            bounds="every tag for one message of %d octets "
                            "with %d of data" % (n, na)))
        for part in ("aad", "ct", "iv"):
            out.append(Case("changed-%d-%s" % (klen, part), changed_data,
                            {"klen": klen, "part": part, "na": 18, "n": 21},
                            reach=["refused"], bounds="every other octet at "
                            "each place of the %s of one message" % part))
        for niv in (0, 1, 8, 11, 13, 16):
            out.append(Case("iv-%d-%d" % (klen, niv), lengths,
                            {"klen": klen, "kreal": klen, "niv": niv,
                             "nt": 16}, reach=["refused"],
                            bounds="every IV of %d octets, tag, data" % niv))
        for nt in (0, 1, 4, 12, 15, 17, 32):
            out.append(Case("tag-%d-%d" % (klen, nt), lengths,
                            {"klen": klen, "kreal": klen, "niv": 12,
                             "nt": nt}, reach=["refused"],
                            bounds="every tag of %d octets, IV, data" % nt))
        for kreal in (0, 1, 15, 16, 17, 24, 31, 32, 33, 48, 64):
            if kreal != klen:
                out.append(Case("key-%d-%d" % (klen, kreal), symkey_length,
                                {"klen": klen, "kreal": kreal},
                                reach=["refused"], bounds="every key of %d "
                                "octets for another length" % kreal))
    for n in [4120] + ([4150] if big else []):
        out.append(Case("long-%d" % n, long_message, {"klen": 16, "n": n},
                        reach=["encrypted"], weight=50,
                        bounds="one message of %d octets with any three last "
                        "ones" % n))
    out.append(Case("numbers", numbers, reach=["refused"],
                    bounds="IV below 2^100, tag below 2^132, one of them "
                    "out of range"))
    return out
