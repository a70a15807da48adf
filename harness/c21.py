"""C21 thumbprints, key ids and equality identify the key."""
import hashlib
import jwkest.jwk
from jwkest.jwk import (ECKey, Key, RSAKey, SYMKey, key_eq, keyrep,
                        make_public_copy, rsa_eq)
from vlib.api import Case
from harness import c11, jwes, keys, ref, tiny
from harness.c18 import ORDER
from harness.c19 import PLAIN, b64, ec_numbers
from harness.c20 import Construct

keyring = keys.ring
ASSUMPTIONS = ["SHA-2 is a function of its input; RSA keys with symbolic "
               "numbers go through a stand-in for RSA.construct"]
OUTSIDE = ["certificate members (x5c, x5t, x5u take part in ==, not in the "
           "public form); keys of the plain class Key; that hash() gives a "
           "key without id its derived one, so that it then differs from an "
           "equal key not yet hashed"]
HASHES = {"SHA-256": hashlib.sha256, "SHA-384": hashlib.sha384,
          "SHA-512": hashlib.sha512}


def rfc7638(members, order):
    """JSON text of RFC 7638 section 3 (members are base64url text or names)"""
    return ("{" + ",".join('"' + m + '":"' + members[m] + '"'
                           for m in order) + "}").encode("utf-8")


# values whose SHA-256 thumbprints begin or end with zero octets
ZEROS = [b"s60", b"s280", b"s8374", b"s111"]


def text_of(members):
    return rfc7638(members, sorted(members))


def meta(S, n=1):
    return {"kid": S.text("kid", n), "use": S.text("use", n, PLAIN),
            "alg": S.text("alg", n, PLAIN)}


def build(S, kind, kw, form):
    """(key, required members)"""
    if kind == "oct":
        v = S.choose("value", ZEROS) if form == "zeros" else S.bytes(
            "v", S.choose("length", [1, 5, 32]))
        t = ref.b64u(v).decode("ascii")
        k = {"zeros": lambda: SYMKey(key=v, **kw),
             "octets": lambda: SYMKey(key=v, **kw),
             "k": lambda: SYMKey(k=t, **kw),
             "jwk": lambda: keyrep(dict(kw, kty="oct", k=t))}[form]()
        return k, {"kty": "oct", "k": t}
    if kind == "RSA":
        jwkest.jwk.RSA = Construct
        n = S.int("n", 1 << 56, (1 << 64) - 1)
        e = S.choose("e", [3, 65537, 0x01000001])
        m = {"kty": "RSA", "n": b64(n, 8), "e": b64(e)}
        j = dict(m, **kw)
        if form == "private":
            for x in ("d", "p", "q", "dp", "dq", "qi"):
                j[x] = b64(S.int(x, 1 << 24, (1 << 32) - 1), 4)
        return keyrep(j), m
    if kind == "RSA-real":
        r = keys.rsa_raw(2)
        return keys.rsa(2, form == "private", **kw), {
            "kty": "RSA", "n": b64(int(r.n)), "e": b64(int(r.e))}
    crv = kind
    n = jwes.COORD[crv]
    if form in ("small", "small-private"):
        dom = tiny.curve(13, 19)
        tiny.use(c11.NIST[crv], dom)
        x, y = S.choose("point", [q for q in tiny.points(dom[0], dom[2])
                                  if q[0] and q[1]])
        if form == "small-private":
            kw = dict(kw, d=S.int("d", 1, 18))
    else:
        x, y = ec_numbers(crv)
        if form == "private":
            kw = dict(kw, d=S.int("d", 1, ORDER[crv] - 1))
    k = ECKey(crv=crv, x=x, y=y, **kw)
    return k, {"kty": "EC", "crv": crv, "x": b64(x, n), "y": b64(y, n)}


def expect(S, members, got, func, label, conv=lambda b: b):
    """the RFC 7638 value; for EC keys a known finding: kty is left out"""
    want = conv(func(text_of(members)).digest())
    known = None
    if members["kty"] == "EC":
        short = conv(func(rfc7638(members, ["crv", "x", "y"])).digest())
        known = ("KF-ec-thumbprint", S.eq(got, short))
    if known is None:
        S.check(S.eq(got, want), label, got=got)
    else:
        S.check(S.eq(got, want), label, known=known, got=got)


def thumbprint(S, kind, form, h):
    kw = meta(S) if form != "k" else {}
    k, members = build(S, kind, kw, form)
    got = k.thumbprint(h)
    S.check(S.eq(k.thumbprint(h), got), "the same again")
    for m in ("kid", "use", "alg"):
        S.check(S.eq(getattr(k, m), kw.get(m, "")), "leaves the key alone")
    # other optional members make no difference
    k.kid, k.use, k.alg = "other", "enc", "none"
    k.x5t, k.x5u = "t", "u"
    k.extra_args = {"oth": "1", "key_ops": ["sign"]}
    S.check(S.eq(k.thumbprint(h), got), "whatever optional members it has")
    if kind != "oct":
        S.check(S.eq(make_public_copy(k).thumbprint(h), got),
                "that of the public key")
    # a digest in between leaves nothing behind
    k.thumbprint("SHA-512")
    S.check(S.eq(k.thumbprint(h), got), "the same again")
    S.observe("got", got)
    S.reach("thumbprint")
    expect(S, members, got, HASHES[h], "thumbprint of the required members")


def key_id(S, kind, form, how):
    kw = meta(S) if how != "no id" else {"use": S.text("use", 1)}
    k, members = build(S, kind, kw, form)
    if how == "no id":
        k.__hash__()
    else:
        k.add_kid()

    def conv(b):
        return ref.b64u(b).decode("ascii")
    for m in ("use", "alg"):
        S.check(S.eq(getattr(k, m), kw.get(m, "")), "nothing else changes")
    S.check(S.eq(k.serialize()["kid"], k.kid), "is written")
    S.check(S.eq(ref.b64u(k.thumbprint("SHA-256")).decode("ascii"), k.kid),
            "is the thumbprint")
    S.reach("id")
    expect(S, members, k.kid, hashlib.sha256, "derived key id", conv)


def equal(S, a, b, same):
    """a == b exactly when, with hashes"""
    r = a == b
    S.check(S.iff(r, same), "equal exactly when the same", got=r)
    S.check(S.iff(b == a, same), "either way round")
    S.check(S.iff(a != b, S.neg(same)), "unequal otherwise")
    S.check(S.truth(a == a), "equal to itself")


def hashes(S, a, b, same):
    ha, hb = a.__hash__(), b.__hash__()
    S.check(S.implies(same, S.eq(ha, hb)), "equal hashes of equal keys")
    S.check(S.eq(a.__hash__(), ha), "the same again")


def two_meta(S, which):
    """two sets of id, use, alg that can differ in some"""
    a, b, same = {}, {}, True
    for m in ("kid", "use", "alg"):
        a[m] = S.text(m, 1, PLAIN)
        if m in which:
            n = S.choose("length of other " + m, [0, 1, 2])
            b[m] = S.text("other " + m, n, PLAIN)
        else:
            b[m] = a[m]
        same = S.all(same, S.eq(a[m], b[m]))
    return a, b, same


def sym(S, n1, n2, which, f1, f2, hashed):
    m1, m2, same = two_meta(S, which)
    v1, v2 = S.bytes("v1", n1), S.bytes("v2", n2)

    def make(v, kw, f):
        if f == "octets":
            return SYMKey(key=v, **kw)
        t = ref.b64u(v).decode("ascii")
        return SYMKey(k=t, **kw) if f == "k" else keyrep(
            dict(kw, kty="oct", k=t))
    a, b = make(v1, m1, f1), make(v2, m2, f2)
    same = S.all(same, S.eq(v1, v2))
    equal(S, a, b, same)
    if hashed:
        hashes(S, a, b, same)
        equal(S, a, b, same)
    S.reach("compared")


def rsa(S, which, f1, f2, hashed):
    jwkest.jwk.RSA = Construct
    m1, m2, same = two_meta(S, which)

    def make(tag, kw, f):
        n = S.int("n" + tag, 1 << 24, (1 << 32) - 1)
        e = S.int("e" + tag, 3, 255)
        j = dict(kw, kty="RSA", n=b64(n, 4), e=b64(e, 1))
        if f == "private":
            for x in ("d", "p", "q", "dp", "qi"):
                j[x] = b64(S.int(x + tag, 1 << 8, (1 << 16) - 1), 2)
        return keyrep(j), n, e
    a, n1, e1 = make("1", m1, f1)
    b, n2, e2 = make("2", m2, f2)
    same = S.all(same, S.eq(n1, n2), S.eq(e1, e2))
    equal(S, a, b, same)
    if hashed:
        hashes(S, a, b, same)
    S.reach("compared")


def ec(S, which, c1, c2, f1, f2, hashed):
    m1, m2, same = two_meta(S, which)
    dom = tiny.curve(13, 19)
    for crv in set([c1, c2]):
        tiny.use(c11.NIST[crv], dom)

    def make(tag, crv, kw, f):
        q = c11.point(S, "q" + tag, dom)
        if f == "private":
            kw = dict(kw, d=S.int("d" + tag, 1, 18))
        return ECKey(crv=crv, x=q[0], y=q[1], **kw), q
    a, q1 = make("1", c1, m1, f1)
    b, q2 = make("2", c2, m2, f2)
    same = S.all(same, c1 == c2, S.eq(q1[0], q2[0]), S.eq(q1[1], q2[1]))
    equal(S, a, b, same)
    if hashed:
        hashes(S, a, b, same)
    S.reach("compared")


def real(S, kind, which):
    """keys in use: private, public, copies and read again"""
    m1, m2, same = two_meta(S, which)
    make = {"RSA": lambda kw, p: keys.rsa(1, p, **kw),
            "EC": lambda kw, p: keys.ec("P-256", 0, p, **kw)}[kind]
    other = {"RSA": lambda kw, p: keys.rsa(2, p, **kw),
             "EC": lambda kw, p: keys.ec("P-256", 1, p, **kw)}[kind]
    a = make(m1, True)
    for b in (make(m2, True), make(m2, False), make_public_copy(
            make(m2, True)), keyrep(make(m2, True).serialize(True))):
        equal(S, a, b, same)
    for b in (other(m2, True), other(m2, False)):
        equal(S, a, b, False)
    S.reach("compared")


def kinds(S):
    """keys of different kinds and other things"""
    kw = {"kid": S.text("kid", 1), "use": S.text("use", 1)}
    ks = [SYMKey(key=S.bytes("v", 3), **kw), keys.rsa(1, True, **kw),
          keys.ec("P-256", 0, True, **kw), keys.ec("P-384", 0, True, **kw)]
    for i in range(len(ks)):
        for j in range(len(ks)):
            S.check(S.iff(ks[i] == ks[j], i == j), "kinds differ")
        for o in (None, 1, "key", b"key", {}, ks[i].serialize(), object()):
            S.check(S.neg(ks[i] == o), "not a key", got=o)
            S.check(S.neg(o == ks[i]), "not a key", got=o)
    S.reach("compared")


def values(S, n1, n2):
    """key_eq and rsa_eq"""
    a, b = S.text("a", n1), S.text("b", n2)
    S.check(S.iff(key_eq(a, b), S.eq(a, b)), "texts")
    r, r2 = keys.rsa_raw(1), keys.rsa_raw(2)
    S.check(S.truth(key_eq(r, r)), "same")
    S.check(S.truth(key_eq(r, r.public_key())), "same numbers")
    S.check(S.neg(key_eq(r, r2)), "others")
    S.check(S.neg(key_eq(r, a)), "another kind")
    S.check(S.neg(key_eq(a, r)), "another kind")
    x, y = S.int("n", 0, 1 << 64), S.int("e", 0, 1 << 32)
    u, v = S.int("n2", 0, 1 << 64), S.int("e2", 0, 1 << 32)
    one, two = Construct.construct([x, y]), Construct.construct([u, v])
    S.check(S.iff(rsa_eq(one, two), S.all(S.eq(x, u), S.eq(y, v))),
            "numbers")
    S.reach("compared")


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, reach="compared", weight=5, bounds="", **k):
        for opt in (False, True):
            out.append(Case(name + ("-O" if opt else ""), fn, k,
                            reach=(reach,), weight=weight, bounds=bounds +
                            ("; without assertions" if opt else ""),
                            optimize=opt))
    B = "every value of 1, 5 and 32 octets, id, use and algorithm of a " \
        "character"
    R = "every modulus of 8 octets, three exponents, every id, use and " \
        "algorithm of a character"
    E = "every point of a curve over GF(13), id, use and algorithm of a " \
        "character"
    P = "one point, id, use and algorithm of a character"
    forms = [("oct", f, B) for f in ("octets", "k", "jwk")]
    forms.append(("oct", "zeros", "four values whose thumbprints begin or "
                  "end with zero octets"))
    forms += [("RSA", f, R) for f in ("public", "private")]
    forms += [("RSA-real", f, "one key") for f in ("public", "private")]
    forms += [(c, f, E if "small" in f else P) for c in sorted(jwes.COORD)
              for f in ("small", "small-private", "public", "private")
              if big or c == "P-256" or f in ("small", "private")]
    for kind, f, b in forms:
        for h in sorted(HASHES) if big or f in ("octets", "public") else (
                "SHA-256",):
            add("thumb-%s-%s-%s" % (kind, f, h), thumbprint, "thumbprint",
                kind=kind, form=f, h=h, bounds=b)
        if f == "k":
            continue
        for how in ("add_kid", "no id"):
            add("id-%s-%s-%s" % (kind, f, how), key_id, "id", kind=kind,
                form=f, how=how, bounds=b)
    M = "every id, use, algorithm of a character in the first and up to two " \
        "in the second where named"
    for w in ("kid", "use", "alg", ""):
        which = (w,) if w else ()
        for n1, n2 in ((1, 1), (2, 3), (16, 16)) + (
                ((32, 32), (5, 4), (64, 65)) if big else ()):
            add("oct-%s-%d-%d" % (w, n1, n2), sym, n1=n1, n2=n2, which=which,
                f1="octets", f2="octets", hashed=n1 != 16, bounds="every "
                "two values; " + M)
        for f1, f2 in (("octets", "k"), ("jwk", "octets"), ("k", "jwk")):
            add("oct-%s-%s-%s" % (w, f1, f2), sym, n1=3, n2=3, which=which,
                f1=f1, f2=f2, hashed=True, bounds="every two values of 3 "
                "octets; " + M)
        for f1, f2 in (("public", "public"), ("private", "public"),
                       ("private", "private")):
            add("rsa-%s-%s-%s" % (w, f1, f2), rsa, which=which, f1=f1, f2=f2,
                hashed=f1 == f2, bounds="every two moduli of 4 octets, "
                "exponents of one; " + M)
            add("ec-%s-%s-%s" % (w, f1, f2), ec, which=which, c1="P-256",
                c2="P-256", f1=f1, f2=f2, hashed=False, bounds="every two "
                "points of a curve over GF(13); " + M)
        add("ec-%s-curves" % w, ec, which=which, c1="P-256", c2="P-384",
            f1="public", f2="public", hashed=False, bounds="every two "
            "points; " + M)
        for kind in ("RSA", "EC"):
            add("real-%s-%s" % (kind, w), real, kind=kind, which=which,
                bounds="two keys in four forms; " + M)
    add("ec-hash", ec, which=(), c1="P-256", c2="P-256", f1="public",
        f2="private", hashed=True, weight=20, bounds="every two points of a "
        "curve over GF(13)")
    add("kinds", kinds, bounds="one key of each kind, every symmetric value "
        "of 3 octets, every id of a character")
    for n1, n2 in ((1, 1), (1, 2), (3, 3)):
        add("values-%d-%d" % (n1, n2), values, n1=n1, n2=n2, bounds="every "
            "two texts of %d and %d characters, every two pairs of numbers" %
            (n1, n2))
    return out
