"""C02 conversions between numbers, octets and base64url."""
import jwkest
from jwkest import ecc
from vlib.api import Case
from harness import ref

OUTSIDE = ["numbers with more octets than stated"]


def encode(S, n, size):
    """n octets' worth of number -> its base64url text and back"""
    v = S.int("v", 0, (1 << (8 * n)) - 1) if n else 0
    t = jwkest.long_to_base64(v, size) if size else jwkest.long_to_base64(v)
    k = 1
    while k < n and v >= (1 << (8 * k)):
        k += 1
    k = max(k, size)
    S.check(S.eq(t, ref.b64url(v.to_bytes(k, "big")).decode("ascii")),
            "text of the shortest octets, or of the size asked for", t=t)
    for f in (jwkest.base64_to_long, jwkest.base64url_to_long):
        S.check(f(t) == v, "text reads back as the number")
        S.check(f(t.encode("ascii")) == v, "octets read back as the number")
    S.observe("t", t)
    S.reach("encode")


def strict(S, n):
    """The strict decoder refuses exactly what is not base64url."""
    t = S.bytes("t", n)
    r = S.attempt(jwkest.base64url_to_long, t)
    ok = n % 4 != 1
    if ok:
        ok = S.all(*[c in ref.ALPHA for c in t])
    S.observe("r", r)
    if r.ok:
        S.check(ok, "text outside base64url is refused")
        S.check(r.value == int.from_bytes(ref.b64url_value(t), "big"),
                "value of the text")
        S.reach("value")
    else:
        S.check(isinstance(r.exc, ValueError), "refused with ValueError")
        S.check(S.neg(ok), "base64url text is accepted")
        S.reach("refused")


def arrays(S, n):
    b = S.bytes("b", n)
    arr = list(b)
    v = int.from_bytes(b, "big")
    S.check(jwkest.intarr2long(arr) == v, "octet values to number")
    S.check(S.eq(jwkest.intarr2bin(arr), b), "octet values to octets")
    back = jwkest.long2intarr(v)
    S.check(len(back) == 0 or back[0] != 0, "no leading zero")
    S.check(S.eq([0] * (n - len(back)) + back, arr), "number to octet values")
    h = jwkest.long2hexseq(v)
    S.check(int.from_bytes(h, "big") == v, "number to octets")
    S.reach("arrays")


def curve_ints(S, bits):
    """fixed length octets of a curve's numbers"""
    c = ecc.NISTEllipticCurve(bits)
    n = (bits + 7) // 8
    v = S.int("v", 0, (1 << bits) - 1)
    b = c.int2bytes(v)
    S.check(S.eq(b, v.to_bytes(n, "big")), "octets of the full length")
    S.check(c.bytes2int(b) == v, "octets to number")
    S.reach("curve")


def text(S, n):
    s = S.text("s", n)
    b = jwkest.as_bytes(s)
    S.check(S.eq(b, s.encode("utf-8")), "text to UTF-8")
    S.check(S.eq(jwkest.as_unicode(b), s), "UTF-8 to text")
    S.check(S.eq(jwkest.as_bytes(b), b), "octets stay")
    S.check(S.eq(jwkest.as_unicode(s), s), "text stays")
    S.reach("text")


def compare(S, n, m):
    """octet string comparisons used on signatures"""
    a = S.bytes("a", n)
    b = S.bytes("b", m)
    S.check(S.iff(jwkest.constant_time_compare(a, b), S.eq(a, b)),
            "equal exactly when the octets are")
    S.reach("compare")


def compare_text(S, n, m):
    a = S.text("a", n)
    b = S.text("b", m)
    S.check(S.iff(jwkest.safe_str_cmp(a, b), S.eq(a, b)),
            "equal exactly when the text is")
    S.reach("compare")


def cases(tier):
    big = tier == "thorough"
    out = []
    for n in range(0, 12 if big else 7):
        for size in (0, 4):
            out.append(Case("encode-%d-%d" % (n, size), encode,
                            {"n": n, "size": size}, reach=["encode"],
                            weight=n, bounds="every number below 256^%d" % n))
    for n in range(1, 10 if big else 7):
        out.append(Case("strict-%d" % n, strict, {"n": n}, weight=n,
                        reach=["refused"] if n % 4 == 1 else
                        ["value", "refused"],
                        bounds="every %d-octet text" % n))
    for n in range(1, 12 if big else 7):
        out.append(Case("arrays-%d" % n, arrays, {"n": n}, weight=n,
                        reach=["arrays"], bounds="every %d octets" % n))
    for bits in (256, 384, 521):
        out.append(Case("curve-ints-%d" % bits, curve_ints, {"bits": bits},
                        reach=["curve"], bounds="every number below 2^%d" %
                        bits))
    for n in range(0, 5 if big else 4):
        out.append(Case("text-%d" % n, text, {"n": n}, reach=["text"],
                        bounds="every str of %d code points" % n))
    for n, m in [(0, 0), (0, 1), (1, 0), (3, 3), (32, 32), (32, 31),
                 (31, 32), (64, 64), (20, 32)] + (
                     [(128, 128), (256, 256)] if big else []):
        out.append(Case("compare-%d-%d" % (n, m), compare,
                        {"n": n, "m": m}, reach=["compare"],
                        bounds="all octets of lengths %d and %d" % (n, m)))
    for n, m in [(0, 0), (2, 2), (3, 2), (2, 3), (8, 8)]:
        out.append(Case("compare-text-%d-%d" % (n, m), compare_text,
                        {"n": n, "m": m}, reach=["compare"],
                        bounds="all text of lengths %d and %d" % (n, m)))
    return out
