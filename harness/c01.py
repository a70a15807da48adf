"""C01 base64url codec."""
import binascii
import jwkest
from jwkest import BadSyntax
from vlib.api import Case
from harness import ref

ASSUMPTIONS = [
    "base64/binascii of the standard library follow CPython 3.12's documented "
    "semantics as modelled (validated against the real functions)"]
OUTSIDE = ["octet strings longer than the stated lengths"]


def roundtrip(S, n):
    """decode(encode(b)) == b, and the text is exactly unpadded base64url."""
    b = S.bytes("b", n)
    t = jwkest.b64e(b)
    S.check(S.eq(t, ref.b64url(b)), "encoding is the RFC 4648 s5 unpadded text")
    S.check(jwkest.b64d(t) == b, "decode(encode(b)) == b")
    S.observe("t", t)
    S.reach("roundtrip")


def decode_any(S, n):
    """Any octets: exactly the legal texts are decoded, to the right value;
    everything else is BadSyntax."""
    t = S.bytes("t", n)
    r = S.attempt(jwkest.b64d, t)
    core_, legal = ref.b64url_legal(t)
    S.observe("r", r)
    if not r.ok:
        S.check(isinstance(r.exc, BadSyntax),
                "an illegal text is refused with BadSyntax", got=r.kind)
        S.check(not legal, "a legal text is decoded")
        S.reach("refused")
    else:
        S.check(legal, "an illegal text is refused", value=r.value)
        S.check(S.eq(r.value, ref.b64url_value(core_)),
                "a legal text decodes to its value")
        S.reach("decoded")


def text_wrappers(S, n):
    """the str wrappers are the same codec over UTF-8"""
    s = S.text("s", n)
    e = jwkest.b64e_enc_dec(s)
    S.check(S.eq(e, ref.b64url(s.encode("utf-8")).decode("ascii")),
            "text wrapper encodes the UTF-8 octets")
    S.check(S.eq(jwkest.b64d_enc_dec(e), s), "text wrapper round trip")
    S.reach("wrapper")


def injective(S, n):
    """two different octet strings never share an encoding"""
    a = S.bytes("a", n)
    b = S.bytes("b", n)
    S.assume(a != b)
    S.check(jwkest.b64e(a) != jwkest.b64e(b), "encoding is injective")


def cases(tier):
    big = tier == "thorough"
    out = []
    for n in range(0, 26 if big else 14):
        out.append(Case("roundtrip-%d" % n, roundtrip, {"n": n},
                        reach=["roundtrip"], bounds="every %d-octet value" % n))
    for n in range(0, 10 if big else 7):
        out.append(Case("decode-any-%d" % n, decode_any, {"n": n},
                        weight=n, reach=["decoded"],
                        bounds="every %d-octet text" % n))
    for n in range(0, 5 if big else 4):
        out.append(Case("text-%d" % n, text_wrappers, {"n": n},
                        weight=n * 3, reach=["wrapper"],
                        bounds="every str of %d code points" % n))
    for n in range(1, 9 if big else 5):
        out.append(Case("injective-%d" % n, injective, {"n": n},
                        bounds="every pair of %d-octet values" % n))
    return out
