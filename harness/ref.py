"""Reference models, written from the RFCs; executed symbolically like the
code under test, and plainly in a replay."""

import base64
import json

ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
REV = dict((c, i) for i, c in enumerate(ALPHA))


def sextet_octet(v):
    """RFC 4648 table 2, for a possibly symbolic value 0..63"""
    if isinstance(v, int) and not hasattr(v, "e"):
        return ALPHA[v]
    return ALPHA[v]


def b64url(b):
    """RFC 4648 section 5 without padding."""
    out = []
    n = len(b)
    i = 0
    while i < n:
        chunk = b[i:i + 3]
        v = int.from_bytes(chunk + bytes(3 - len(chunk)), "big")
        for k in range(len(chunk) + 1):
            out.append(ALPHA[(v >> (18 - 6 * k)) & 63])
        i += 3
    return bytes(out)


def b64url_legal(t):
    """(text without trailing '=', whether it is legal): only alphabet octets
    and a length that can occur (4k+1 cannot)."""
    n = len(t)
    while n > 0 and t[n - 1] == 0x3d:
        n -= 1
    core = t[:n]
    if n % 4 == 1:
        return core, False
    for c in core:
        if c not in ALPHA:
            return core, False
    return core, True


def b64url_value(t):
    """octets of a legal unpadded text (excess bits dropped)"""
    out = []
    i = 0
    n = len(t)
    while i < n:
        chunk = t[i:i + 4]
        v = 0
        for c in chunk:
            v = (v << 6) | REV[c]
        k = len(chunk)
        v = v << (6 * (4 - k))
        out.extend(list(v.to_bytes(3, "big"))[:k - 1])
        i += 4
    return bytes(out)


def b64u(b):
    """base64url by the standard library (fast on symbolic octets); used to
    build inputs where the codec itself is not the subject"""
    return base64.urlsafe_b64encode(b).rstrip(b"=")


def unb64(t):
    """octets of a base64url text (octets) by the standard library"""
    return base64.urlsafe_b64decode(t + b"=" * (-len(t) % 4))


def tok(*parts):
    """compact text of octet parts"""
    return b".".join([b64u(p) for p in parts])


def jdump(o):
    return json.dumps(o, separators=(",", ":")).encode("utf-8")
