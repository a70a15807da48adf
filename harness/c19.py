"""C19 public exports carry no private key material."""
import json
from jwkest.ecc import NISTEllipticCurve
from jwkest.jwe import JWE
from jwkest.jwk import ECKey, KEYS, RSAKey, keyrep, make_public_copy
from jwkest.jws import JWS
from vlib.api import Case
from harness import jwes, keys, ref
from harness.c18 import ORDER

keyring = keys.ring
ASSUMPTIONS = ["private numbers are arbitrary and need not belong to the "
               "public ones where the case says any"]
OUTSIDE = ["the public numbers are those of fixed keys; certificates; the "
           "command-line scripts; Key.to_dict and str() of a key, which are "
           "documented as private forms; symmetric keys in key sets"]
PLAIN = [c for c in range(0x20, 0x7f) if c not in (0x22, 0x5c)]
SECRET = ["d", "p", "q", "dp", "dq", "di", "qi"]


def b64(v, n=None):
    n = n or max(1, (v.bit_length() + 7) // 8)
    return ref.b64u(v.to_bytes(n, "big")).decode("ascii")


def ec_numbers(crv, i=0):
    q = keys.ec_lib(crv, i).pointQ
    return int(q.x), int(q.y)


def meta(S, which):
    """id, use and algorithm"""
    kw = {}
    if "i" in which:
        kw["kid"] = S.text("kid", 2, PLAIN)
    if "u" in which:
        kw["use"] = S.choose("use", ["sig", "enc"])
    if "a" in which:
        kw["alg"] = S.text("alg", 2, PLAIN)
    return kw


def ec_key(S, crv, how, kw, tag=""):
    """(key, public form) with any private value"""
    x, y = ec_numbers(crv)
    n = jwes.COORD[crv]
    want = {"kty": "EC", "crv": crv, "x": b64(x, n), "y": b64(y, n)}
    want.update(kw)
    if how == "real":
        return keys.ec(crv, 0, True, **kw), want
    if how == "generated":
        c = NISTEllipticCurve.by_name(crv)
        k = ECKey(**kw).load_key(c)
        q = c.public_key_for(k.d)
        want.update({"x": b64(q[0], n), "y": b64(q[1], n)})
        return k, want
    d = S.int("d" + tag, 1, ORDER[crv] - 1)
    if how == "numbers":
        return ECKey(crv=crv, x=x, y=y, d=d, **kw), want
    if how == "jwk":
        j = dict(want, d=b64(d, n))
        return keyrep(j), want
    if how == "jwk-more":
        j = dict(want, d=b64(d, n), k=b64(d, n), oth="x", key_ops=["sign"])
        return keyrep(j), want
    k = ECKey(crv=crv, x=x, y=y, **kw)
    k.d = d
    return k, want


def rsa_key(S, how, kw, tag=""):
    r = keys.rsa_raw(1)
    want = {"kty": "RSA", "n": b64(int(r.n)), "e": b64(int(r.e))}
    want.update(kw)
    if how == "real":
        return keys.rsa(1, True, **kw), want
    if how == "jwk":
        j = dict(want, d=b64(int(r.d)), p=b64(int(r.p)), q=b64(int(r.q)))
        for n in ("dp", "dq", "di", "qi"):
            v = S.int(n + tag, 1 << 1023, (1 << 1024) - 1)
            j[n] = b64(v, 128)
        return keyrep(j), want
    if how == "jwk-more":
        j = dict(want, d=b64(int(r.d)), p=b64(int(r.p)), q=b64(int(r.q)))
        j["oth"] = [{"r": S.text("r" + tag, 4, PLAIN)}]
        j["k"] = S.text("k" + tag, 4, PLAIN)
        return keyrep(j), want
    k = keys.rsa(1, how != "public", **kw)
    for n in SECRET:
        bits = 2048 if n == "d" else 1024
        setattr(k, n, S.int(n + tag, 1 << (bits - 1), (1 << bits) - 1))
    return k, want


def one(S, kty, crv, how, kw, tag=""):
    if how == "generated":
        S.random_policy(lambda i, n: ("fix", 2))
    return ec_key(S, crv, how, kw, tag) if kty == "EC" else \
        rsa_key(S, how, kw, tag)


def serialize(S, kty, crv, how, which):
    k, want = one(S, kty, crv, how, meta(S, which))
    S.check(S.eq(k.serialize(), want), "public form")
    S.check(S.eq(k.serialize(private=False), want), "public form")
    full = k.serialize(private=True)
    S.check("d" in full, "the private form has it")
    S.check(S.eq(k.serialize(), want), "public form after the private one")
    S.check(S.eq(k.serialize(False), want), "public form again")
    S.observe("form", k.serialize())
    S.reach("public")


def key_set(S, hows, which):
    ks, want = KEYS(), []
    for j, (kty, crv, how) in enumerate(hows):
        k, w = one(S, kty, crv, how, meta(S, which) if j == 0 else {},
                   str(j))
        ks.append(k)
        want.append(w)
    S.check(S.eq(json.loads(ks.dump_jwks()), {"keys": want}), "written set")
    S.check(S.eq(json.loads(str(ks)), {"keys": want}), "text of the set")
    S.check(S.eq(json.loads(repr(ks)), {"keys": want}), "text of the set")
    ks.keys()[0].to_dict()
    S.check(S.eq(json.loads(ks.dump_jwks()), {"keys": want}), "written again")
    S.reach("public")


def same_numbers(S, a, b):
    """attributes of two public copies"""
    va, vb = dict(vars(a)), dict(vars(b))
    S.check(sorted(va) == sorted(vb), "attributes")
    for n in sorted(va):
        x, y = va[n], vb[n]
        if hasattr(x, "has_private"):
            S.check(not x.has_private(), "no private part", name=n)
            S.check(S.all(S.eq(int(x.n), int(y.n)), S.eq(int(x.e),
                                                         int(y.e))),
                    "public numbers")
        elif hasattr(x, "name") and hasattr(x, "key_pair"):
            S.check(x.name() == y.name(), "curve")
        else:
            S.check(S.eq(x, y), "does not depend on the private value",
                    name=n)


def public_copy(S, kty, crv, how, which):
    kw = meta(S, which)
    k, want = one(S, kty, crv, how, kw)
    k2, _ = one(S, kty, crv, how, kw, "-2") if how != "generated" else \
        (k, None)
    c = make_public_copy(k)
    S.check(S.eq(c.serialize(), want), "public form of the copy")
    S.check(S.eq(c.serialize(private=True), want), "no private form",
            got=sorted(c.serialize(private=True)))
    same_numbers(S, c, make_public_copy(k2))
    r = S.attempt(c.get_key, private=True)
    S.check(not r.ok or hasattr(r.value, "has_private") and
            not r.value.has_private(), "no private part", got=r.kind)
    full = k.serialize(private=True)
    S.check("d" in full, "the key itself keeps it")
    # a copy of a copy, and a copy of a public key
    S.check(S.eq(make_public_copy(c).serialize(private=True), want),
            "copy of a copy")
    S.reach("public")


def header_jwk(S, kty, crv, how, which, where):
    """the key put in a token header"""
    k, want = one(S, kty, crv, how, meta(S, which))
    if where == "jwe":
        S.random_policy("stream")
        e = JWE(b"message", alg="RSA-OAEP", enc="A128CBC-HS256", jwk=k)
        tok = e.encrypt([keys.rsa(2, False)])
        h = json.loads(ref.unb64(tok.encode("ascii").split(b".")[0]).decode(
            "utf-8"))
        S.check(S.eq(h["jwk"], want), "key in the header", got=h["jwk"])
        S.check(sorted(h) == ["alg", "enc", "jwk"], "other members")
    elif where == "jwe-self":
        # the key encrypted to is the one in the header
        S.random_policy("stream")
        e = JWE(b"message", alg="RSA-OAEP", enc="A128CBC-HS256", jwk=k)
        tok = e.encrypt()
        h = json.loads(ref.unb64(tok.encode("ascii").split(b".")[0]).decode(
            "utf-8"))
        S.check(S.eq(h["jwk"], want), "key in the header", got=h["jwk"])
    elif where == "headers":
        S.check(S.eq(JWS("m", alg="RS256", jwk=k).headers(),
                     {"alg": "RS256", "jwk": want}), "headers")
    elif where == "extra":
        S.check(S.eq(JWS("m", alg="RS256").headers(extra={"jwk": k}),
                     {"alg": "RS256", "jwk": want}), "headers")
    else:
        # signing with the embedded key tells nothing of it but its id
        S.random_policy("stream")
        S.model_ec()
        alg = {"RSA": "RS256", "EC": "ES256"}[kty]
        tok = JWS("m", alg=alg, jwk=k).sign_compact()
        h = json.loads(ref.unb64(tok.encode("ascii").split(b".")[0]).decode(
            "utf-8"))
        w = {"alg": alg}
        if "kid" in want:
            w["kid"] = want["kid"]
        S.check(S.any(S.eq(h, w), S.eq(h, dict(w, jwk=want))), "header",
                got=h)
    S.reach("public")


def epk(S, alg, enc, crv, given):
    """the ephemeral key in the header"""
    kw = {}
    n = jwes.COORD[crv]
    if given:
        x, y = ec_numbers(crv, 1)
        k = keys.ec(crv, 1, True, **meta(S, "iu"))
        kw["epk"] = k
        S.random_policy("stream")
    else:
        S.random_policy(lambda i, m: ("fix", 2) if m == n else
                        bytes((i + 3 * j) & 255 for j in range(m)))
    tok = JWE(b"message", alg=alg, enc=enc, **kw).encrypt(
        [keys.ec(crv, 0, False)])
    h = json.loads(ref.unb64(tok.encode("ascii").split(b".")[0]).decode(
        "utf-8"))
    S.check(S.all(*[m in ("alg", "enc", "epk", "apu", "apv", "kid")
                    for m in sorted(h)]), "members of the header",
            got=sorted(h))
    e = h["epk"]
    for m in sorted(e):
        S.check(m in ("kty", "crv", "x", "y", "kid", "use", "alg"),
                "a public member", name=m)
    S.check(len(ref.unb64(e["x"].encode("ascii"))) == n, "length of x")
    S.check(len(ref.unb64(e["y"].encode("ascii"))) == n, "length of y")
    if given:
        S.check(S.all(S.eq(e["x"], b64(x, n)), S.eq(e["y"], b64(y, n))),
                "public numbers")
    else:
        S.check(sorted(e) == ["crv", "kty", "x", "y"], "members")
        d = None
        for strong, kind, size, v in S.drawn():
            if kind != "bytes":
                d = v % (ORDER[crv] - 1) + 1
        if d is not None:
            s = ref.b64u(d.to_bytes(n, "big")).decode("ascii")
            S.check(S.neg(S.any(S.eq(e["x"], s), S.eq(e["y"], s))),
                    "not the private value")
    S.reach("public")


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, weight=5, bounds="", **k):
        out.append(Case(name, fn, k, reach=("public",), weight=weight,
                        bounds=bounds))
    kinds = [("EC", c, h) for c in sorted(jwes.COORD) for h in
             ("numbers", "jwk", "jwk-more", "later", "real", "generated")]
    kinds += [("RSA", "", h) for h in ("numbers", "public", "jwk",
                                       "jwk-more", "real")]
    for kty, crv, how in kinds:
        name = "-".join(x for x in (kty, crv, how) if x)
        for which in ("", "iua") + (("i", "u", "a", "iu") if big else ()):
            if how == "jwk-more" and crv and which and not big:
                continue
            b = "every private value of the range, key id and algorithm of " \
                "two characters" if how != "real" and how != "generated" \
                else "one private value, every key id and algorithm of two " \
                "characters"
            add("serialize-%s-%s" % (name, which or "plain"), serialize,
                kty=kty, crv=crv, how=how, which=which, bounds=b)
            add("copy-%s-%s" % (name, which or "plain"), public_copy,
                kty=kty, crv=crv, how=how, which=which, bounds=b)
        for where in ("jwe", "headers", "extra"):
            if how == "generated" and where == "jwe":
                continue
            add("header-%s-%s" % (where, name), header_jwk, kty=kty, crv=crv,
                how=how, which="i", where=where, bounds=b)
        if how == "real" and crv in ("", "P-256"):
            add("header-sign-" + name, header_jwk, kty=kty, crv=crv, how=how,
                which="i", where="sign", bounds=b)
        if kty == "RSA" and how in ("numbers", "real", "jwk"):
            add("header-jwe-self-" + name, header_jwk, kty=kty, crv=crv,
                how=how, which="i", where="jwe-self", bounds=b)
    sets = [[kinds[0]], [kinds[1], kinds[-1]], [kinds[-2], kinds[-5]],
            [kinds[3], kinds[9], kinds[15]], [kinds[4], kinds[-3]],
            [kinds[5], kinds[-1], kinds[8]]]
    for j, s in enumerate(sets):
        for which in ("", "iua"):
            add("set-%d-%s" % (j, which or "plain"), key_set, hows=s,
                which=which, weight=10, bounds="every private value of the "
                "keys in the set, key id and algorithm of two characters")
    for alg in jwes.EC:
        for crv in sorted(jwes.COORD):
            for given in (False, True):
                add("epk-%s-%s-%s" % (alg, crv, "given" if given else
                                      "drawn"), epk, alg=alg,
                    enc="A128CBC-HS256" if crv != "P-256" else
                    "A192CBC-HS384", crv=crv, given=given, weight=10,
                    bounds="four drawn private values, or a given one with "
                    "every key id of two characters")
    return out
