"""C20 keys survive serialisation."""
import json
import jwkest.jwk
from jwkest.jwk import (ECKey, KEYS, RSAKey, SYMKey, jwk_wrap,
                        key_from_jwk_dict, keyitems2keyreps, keyrep,
                        load_jwks)
from jwkest.jwe import JWE
from jwkest.jws import JWS
from vlib.api import Case
from harness import c11, jwes, keys, ref, tiny
from harness.c18 import ORDER
from harness.c19 import PLAIN, b64, ec_numbers

keyring = keys.ring
ASSUMPTIONS = ["cases named rsa-any and rsa-public: Cryptodome's RSA.construct accepts the "
               "numbers (a stand-in records them)"]
OUTSIDE = ["illegal characters between legal ones in an EC or RSA number "
           "(the decoder skips them, as base64 decoders do); EC points other "
           "than fixed ones and those of small curves; certificates; keys "
           "of a type other than oct, RSA and EC"]
# private values whose points have a leading zero octet in x or in y
LEAD = {"P-256": (379, 43), "P-384": (197, 176), "P-521": (273, 73)}


class Numbers(object):
    """stand-in for an RSA key of the library"""

    def __init__(self, comps):
        for n, v in zip("nedpq", comps):
            setattr(self, n, v)


class Construct(object):
    @staticmethod
    def construct(comps, consistency_check=True):
        return Numbers(list(comps))


def meta(S, which, n=1, alphabet=None):
    kw = {}
    if "i" in which:
        kw["kid"] = S.text("kid", n, alphabet)
    if "u" in which:
        kw["use"] = S.text("use", n, alphabet)
    if "a" in which:
        kw["alg"] = S.text("alg", n, alphabet)
    return kw


def same_meta(S, a, b):
    for n in ("kty", "kid", "use", "alg"):
        S.check(S.eq(getattr(b, n), getattr(a, n)), "keeps its " + n,
                got=getattr(b, n))


def pass_on(S, how, key, private):
    """write and read"""
    if how == "keyrep":
        return keyrep(key.serialize(private))
    if how == "text":
        return keyrep(json.loads(json.dumps(key.serialize(private))))
    if how == "add":
        ks = KEYS()
        ks.add(key.serialize(private))
        return ks.keys()[0]
    if how == "dict":
        return key_from_jwk_dict(key.serialize(private), private)
    if how == "init":
        return type(key)(**key.serialize(private))
    if how == "load_dict":
        ks = KEYS()
        ks.load_dict({"keys": [key.serialize(private)]})
        return ks.keys()[0]
    ks = KEYS()
    ks.append(key)
    if how == "load_jwks":
        return load_jwks(ks.dump_jwks())[0]
    return KEYS().load_jwks(str(ks)).keys()[0]


def sym(S, n, how, which, given):
    wide = how in ("keyrep", "add", "load_dict")
    kw = meta(S, which, 1, None if wide else PLAIN)
    if given == "text":
        t = S.text("secret", n)
        secret = t.encode("utf-8")
        k = SYMKey(key=t, **kw)
    else:
        secret = S.bytes("secret", n)
        k = SYMKey(key=secret, **kw) if given == "octets" else \
            SYMKey(k=ref.b64u(secret).decode("ascii"), **kw)
    b = pass_on(S, how, k, True)
    S.check(S.eq(b.key, secret), "the value", got=b.key)
    if how != "dict":
        same_meta(S, k, b)
    want = {"kty": "oct", "k": ref.b64u(secret).decode("ascii")}
    want.update(kw)
    S.check(S.eq(k.serialize(), want), "written form")
    if how != "dict":
        S.check(S.eq(b.serialize(), want), "written again")
        S.check(S.truth(b == k), "equal")
        S.check(S.truth(k == b), "equal, the other way")
    else:
        S.check(S.eq(b.kid, k.kid), "keeps its id")
    # the same operations
    t1 = S.attempt(JWS("m", alg="HS256").sign_compact, [k])
    t2 = S.attempt(JWS("m", alg="HS256").sign_compact, [b])
    S.check(t1.ok == t2.ok, "signs or refuses alike", got=t2.kind)
    if t1.ok:
        S.check(S.eq(t1.value, t2.value), "same signature")
        S.check(S.eq(JWS(alg="HS256").verify_compact(t1.value, [b]), "m"),
                "verifies")
    S.check(S.eq(b.encryption_key(alg="A128KW"),
                 k.encryption_key(alg="A128KW")), "same key-wrapping key")
    S.reach("back")


def ec_small(S, crv, pp, order, how, which, private):
    """every point and private value of a small curve"""
    bits = c11.NIST[crv]
    dom = tiny.curve(pp, order)
    tiny.use(bits, dom)
    n = jwes.COORD[crv]
    if how == "keyrep" and crv == "P-256" and not which:
        x, y = c11.point(S, "q", dom)
    else:
        x, y = S.choose("point", tiny.points(dom[0], dom[2]))
    # (0 stands for no value: a member of the key that is zero is unset)
    S.assume(S.all(x > 0, y > 0))
    kw = meta(S, which)
    d = S.int("d", 1, dom[1] - 1)
    k = ECKey(crv=crv, x=x, y=y, d=d, **kw) if private != "none" else \
        ECKey(crv=crv, x=x, y=y, **kw)
    form = private == "full"
    s = k.serialize(form)
    want = {"kty": "EC", "crv": crv, "x": b64(x, n), "y": b64(y, n)}
    want.update(kw)
    if form:
        want["d"] = b64(d, n)
    S.check(S.eq(s, want), "written form, coordinates of full length",
            got=s)
    b = pass_on(S, how, k, form)
    if how != "dict":
        same_meta(S, k, b)
        S.check(S.eq(b.serialize(form), s), "written again")
        S.check(S.truth(b == k), "equal")
    S.check(S.all(S.eq(b.x, x), S.eq(b.y, y)), "coordinates",
            got=(b.x, b.y))
    S.check(S.eq(b.get_key(), (x, y)), "public value")
    S.check(S.eq(b.crv, crv), "curve")
    S.check(S.eq(b.curve.name(), crv), "curve")
    if form:
        S.check(S.eq(b.d, d), "private value", got=b.d)
        S.check(S.eq(b.get_key(private=True), d), "private value")
        S.check(S.eq(b.decryption_key(), d), "private value")
    else:
        r = S.attempt(b.get_key, private=True)
        S.check(not r.ok, "no private value", got=r.kind)
    S.reach("back")


def ec_real(S, crv, which, how, private, point):
    """real points, any private value"""
    n = jwes.COORD[crv]
    if isinstance(point, str):
        q = keys.ECC.construct(curve=crv, d=LEAD[crv]["xy".index(point)])
        x, y = int(q.pointQ.x), int(q.pointQ.y)
    else:
        x, y = ec_numbers(crv, point)
    wide = how in ("keyrep", "add", "load_dict", "init")
    kw = meta(S, which, 1, None if wide else PLAIN)
    d = S.int("d", ORDER[crv] >> 1 if which else 1, ORDER[crv] - 1)
    k = ECKey(crv=crv, x=x, y=y, d=d, **kw)
    b = pass_on(S, how, k, private)
    want = {"kty": "EC", "crv": crv, "x": b64(x, n), "y": b64(y, n)}
    want.update(kw)
    S.check(S.eq(k.serialize(), want), "written form")
    S.check(S.eq(b.get_key(), (x, y)), "coordinates")
    if private:
        want["d"] = b64(d, n)
        S.check(S.eq(k.serialize(True), want), "written private form")
        S.check(S.eq(b.get_key(private=True), d), "private value")
    if how != "dict":
        same_meta(S, k, b)
        S.check(S.eq(b.serialize(private), want), "written again")
        S.check(S.truth(b == k), "equal")
    else:
        S.check(S.eq(b.kid, k.kid), "keeps its id")
    S.reach("back")


def ec_lengths(S, crv):
    """any numbers have the full length"""
    n = jwes.COORD[crv]
    x, y = ec_numbers(crv)
    k = ECKey(crv=crv, x=x, y=y)
    top = S.choose("octets", [1, n // 2, n - 1, n])
    hi = min(1 << (8 * top), k.curve.p) - 1
    k.x = S.int("x", 1 << (8 * top - 8) if top < n else 1, hi)
    k.y = S.int("y", 1, (1 << 16) - 1)
    k.d = S.int("d", 1, 255)
    s = k.serialize(True)
    for m, v in (("x", k.x), ("y", k.y), ("d", k.d)):
        S.check(S.eq(s[m], b64(v, n)), "full length", name=m, got=s[m])
    S.reach("length")


def ops_ec(S, crv, how):
    """a key read back signs and verifies like the original"""
    S.random_policy("stream")
    alg = {"P-256": "ES256", "P-384": "ES384", "P-521": "ES512"}[crv]
    S.model_ec()
    kw = meta(S, "i", 1, PLAIN)
    k = keys.ec(crv, 0, True, **kw)
    b = pass_on(S, how, k, True)
    pub = pass_on(S, how, k, False)
    m = "m" + S.text("m", 1, PLAIN)
    for signer, verifier in ((k, pub), (b, k), (b, pub), (k, b)):
        t = JWS(m, alg=alg).sign_compact([signer])
        S.check(S.eq(JWS(alg=alg).verify_compact(t, [verifier]), m),
                "verifies")
    r = S.attempt(JWS(m, alg=alg).sign_compact, [pub])
    S.check(not r.ok, "the public form cannot sign", got=r.kind)
    S.reach("ops")


def rsa_real(S, how, which, private, i):
    wide = how in ("keyrep", "add", "load_dict", "init") and "i" not in which
    kw = meta(S, which, 1, None if wide else PLAIN)
    raw = keys.rsa_raw(i)
    k = keys.rsa(i, True, **kw)
    b = pass_on(S, how, k, private)
    want = {"kty": "RSA", "n": b64(int(raw.n)), "e": b64(int(raw.e))}
    want.update(kw)
    S.check(S.eq(k.serialize(), want), "written form")
    for n in "nedpq" if private else "ne":
        S.check(S.eq(getattr(b, n), int(getattr(raw, n))), "number",
                name=n)
        S.check(S.eq(int(getattr(b.key, n)), int(getattr(raw, n))),
                "number of the library's key", name=n)
    S.check(bool(b.key.has_private()) == private, "private or public")
    if private:
        want.update(dict((n, b64(int(getattr(raw, n)))) for n in "dpq"))
        S.check(S.eq(k.serialize(True), want), "written private form")
    if how != "dict":
        same_meta(S, k, b)
        S.check(S.eq(b.serialize(private), want), "written again")
        S.check(S.truth(b == k), "equal")
    else:
        S.check(S.eq(b.kid, k.kid), "keeps its id")
    t = S.attempt(JWS("m", alg="RS256").sign_compact, [k])
    if t.ok:
        S.check(S.eq(JWS(alg="RS256").verify_compact(t.value, [b]), "m"),
                "verifies")
    t2 = S.attempt(JWS("m", alg="RS256").sign_compact, [b])
    if private:
        S.check(t2.ok == t.ok, "signs or refuses alike", got=t2.kind)
        if t.ok:
            S.check(S.eq(t.value, t2.value), "signs the same")
    else:
        S.check(not t2.ok, "the public form cannot sign", got=t2.kind)
    S.reach("back")


def rsa_public(S, n, how, which):
    """any odd modulus and exponent"""
    jwkest.jwk.RSA = Construct
    v = S.int("n", (1 << (8 * n - 8)) + 1, (1 << (8 * n)) - 1)
    e = S.int("e", 0x10001, 0xffffff)
    S.assume(S.all(v & 1 == 1, e & 1 == 1))
    kw = meta(S, which, 1, PLAIN)
    j = {"kty": "RSA", "n": b64(v, n), "e": b64(e, 3)}
    j.update(kw)
    k = keyrep(j)
    S.check(S.all(S.eq(k.n, v), S.eq(k.e, e)), "numbers")
    S.check(S.all(S.eq(int(k.key.n), v), S.eq(int(k.key.e), e)),
            "numbers of the library's key")
    S.check(S.eq(k.serialize(), j), "written as it was read")
    b = pass_on(S, how, k, False)
    S.check(S.all(S.eq(b.n, v), S.eq(b.e, e)), "numbers")
    S.check(S.truth(b == k), "equal")
    same_meta(S, k, b)
    S.reach("back")


def rsa_any(S, n, how, which):
    """all numbers of a private key"""
    jwkest.jwk.RSA = Construct
    kw = meta(S, which, 1, PLAIN)
    nums = {"n": S.int("n", 1 << (8 * n - 8), (1 << (8 * n)) - 1),
            "e": S.int("e", 3, 255)}
    for m in ("d", "p", "q", "dp", "dq", "di", "qi"):
        w = n if m == "d" else n // 2
        nums[m] = S.int(m, 1 << (8 * w - 8), (1 << (8 * w)) - 1)
    j = {"kty": "RSA"}
    for m in nums:
        j[m] = b64(nums[m], {"n": n, "d": n, "e": 1}.get(m, n // 2))
    j.update(kw)
    k = keyrep(j)
    b = pass_on(S, how, k, True)
    for key in (k, b):
        for m in nums:
            S.check(S.eq(getattr(key, m), nums[m]), "number", name=m)
        for m in "nedpq":
            S.check(S.eq(getattr(key.key, m), nums[m]),
                    "number of the library's key", name=m)
        S.check(S.eq(key.serialize(True), j), "private form")
        S.check(S.eq(key.serialize(), dict((m, j[m]) for m in j if m in (
            "kty", "n", "e", "kid", "use", "alg"))), "public form")
    same_meta(S, k, b)
    S.check(S.truth(k == b), "equal")
    S.reach("back")


def make_one(S, kind, tag, kid):
    if kind == "oct":
        return SYMKey(key=S.bytes("s" + tag, 4), kid=kid)
    if kind == "EC":
        return keys.ec("P-256", 0, True, kid=kid)
    if kind == "EC2":
        return keys.ec("P-521", 1, False, kid=kid)
    return keys.rsa(1, kind == "RSA", kid=kid)


def key_set(S, kinds, kid_n):
    """a set keeps its keys, in order, and finds them"""
    ids = [S.text("kid%d" % j, kid_n + (j == 0), PLAIN)
           for j in range(len(kinds))]
    ks = KEYS()
    orig = []
    for j, kind in enumerate(kinds):
        orig.append(make_one(S, kind, str(j), ids[j]))
        ks.append(orig[-1])
    S.check(len(ks) == len(kinds), "number of keys")
    b = KEYS().load_jwks(ks.dump_jwks())
    S.check(len(b) == len(kinds), "number of keys")
    wanted = S.text("wanted", S.choose("length", [1, kid_n + 1, 0]), PLAIN)
    for group in (ks, b):
        got = group.keys()
        S.check(len(got) == len(kinds), "number of keys")
        for j, k in enumerate(got):
            S.check(S.eq(k.kid, ids[j]), "id, in order")
            S.check(type(k) is type(orig[j]), "type")
            S.check(S.truth(k == orig[j]), "equal")
        S.check(len([1 for a, c in zip(list(group), got) if a is c]) ==
                len(kinds), "iteration")
        S.check(S.eq(group.kids(), [i for i in ids if i]), "ids")
        found = group.by_kid(wanted)
        S.check(S.eq([k.kid for k in found], [i for i in ids
                                              if i == wanted]), "by id")
        for kty in ("oct", "RSA", "EC"):
            want = [k for k in got if k.kty == kty]
            for name in (kty, kty.lower(), kty.upper()):
                sel = group[name]
                S.check(len(sel) == len(want) and not [
                    1 for a, c in zip(sel, want) if a is not c],
                    "by type", kty=name)
            S.check(len(group.as_dict().get(kty, [])) == len(want),
                    "as a dictionary")
        S.check(sorted(group.key_types()) ==
                sorted(set(k.kty for k in orig)), "types")
    S.reach("set")


def wrap(S, kind):
    """keys of the libraries put into a set keep id and use"""
    kid, use = S.text("kid", 1), S.text("use", 1)
    if kind == "oct":
        v = S.text("v", 2)
        k = jwk_wrap(v, use=use, kid=kid)
        S.check(S.eq(k.key, v.encode("utf-8")), "value")
        S.check(k.kty == "oct", "type")
        other = keyitems2keyreps({"oct": [v]})[0]
        S.check(S.eq(other.key, v.encode("utf-8")), "value")
    else:
        v = keys.rsa_raw(2)
        k = jwk_wrap(v, use=use, kid=kid)
        S.check(k.n == int(v.n) and k.e == int(v.e) and k.d == int(v.d),
                "numbers")
        S.check(k.kty == "RSA", "type")
        other = keyitems2keyreps({"rsa": [v]})[0]
        S.check(other.n == int(v.n) and other.d == int(v.d), "numbers")
    S.check(S.all(S.eq(k.kid, kid), S.eq(k.use, use)), "id and use")
    S.check(S.all(S.eq(k.serialize()["kid"], kid),
                  S.eq(k.serialize()["use"], use)), "written")
    ks = KEYS()
    ks.wrap_add(v, use=use, kid=kid)
    S.check(S.truth(ks.keys()[0] == k), "the same in a set")
    S.check(len(ks.by_kid(kid)) == 1, "found by id")
    S.reach("wrapped")


def unusable(S, k):
    """nothing can be done with it"""
    r = S.attempt(k.serialize)
    S.check(not r.ok, "no written form", got=r.value)
    kty = k.kty
    alg = {"EC": "ES256", "RSA": "RS256", "oct": "HS256"}[kty]
    r = S.attempt(JWS("m", alg=alg).sign_compact, [k])
    S.check(not r.ok, "does not sign", got=r.value)
    r = S.attempt(JWE(b"m", alg={"EC": "ECDH-ES", "RSA": "RSA-OAEP",
                                      "oct": "A128KW"}[kty],
                           enc="A128CBC-HS256").encrypt, [k])
    S.check(not r.ok, "does not encrypt", got=r.value)


def good(S, kty, private):
    if kty == "oct":
        j = {"kty": "oct", "k": "c2VjcmV0"}
    elif kty == "EC":
        j = keys.ec("P-256", 0, True).serialize(private)
    else:
        j = keys.rsa(1, True).serialize(private)
    return j


def missing(S, kty, member, private, what):
    """a required member is left out or is not a text"""
    S.random_policy("stream")
    j = good(S, kty, private)
    j["kid"] = "a" if kty == "EC" else S.text("kid", 1, PLAIN)
    if what == "absent":
        del j[member]
    elif what == "other":
        j[member] = S.choose("value", [None, 5, 0, -1, True, False, [], {},
                                       [65], 1.5])
    else:
        j[member] = ""
    r = S.attempt(keyrep, j)
    if r.ok:
        unusable(S, r.value)
    S.reach("refused")


def no_type(S):
    j = good(S, S.choose("kty", ["oct", "EC", "RSA"]), True)
    del j["kty"]
    r = S.attempt(keyrep, j)
    S.check(not r.ok, "no key without a type", got=r.value)
    S.reach("refused")


def curve_name(S, n):
    """only the three names"""
    j = good(S, "EC", True)
    t = S.text("crv", n)
    j["crv"] = t
    r = S.attempt(keyrep, j)
    if r.ok:
        S.check(S.eq(t, "P-256"), "an unknown curve", got=t)
    else:
        S.check(S.neg(S.eq(t, "P-256")), "the curve is known", got=r.kind)
    S.reach("name")


def coordinate(S, crv, pp, order, which, n):
    """any octets as a coordinate: a point, or refused"""
    bits = c11.NIST[crv]
    dom = tiny.curve(pp, order)
    tiny.use(bits, dom)
    raw = S.bytes("octets", n)
    other = dom[3] if which == "y" else dom[4]
    v = int.from_bytes(raw, "big")
    j = {"kty": "EC", "crv": crv, which: ref.b64u(raw).decode("ascii"),
         "x" if which == "y" else "y": b64(other)}
    x, y = (v, other) if which == "x" else (other, v)
    r = S.attempt(keyrep, j)
    is_point = S.all(x < dom[0], y < dom[0], c11.on_curve(
        dom[0], dom[2], x, y))
    if r.ok:
        S.check(is_point, "a point of the curve", got=v)
        S.check(S.eq((r.value.x, r.value.y), (x, y)), "its number")
    else:
        S.check(S.neg(is_point), "a point is accepted", got=r.kind)
    S.reach("coordinate")


def not_base64(S, kty, member, n):
    """text without any base64url character, in place of a number"""
    j = good(S, kty, kty != "oct")
    bad = [c for c in range(1, 0x80) if c not in ref.ALPHA and
           chr(c) not in "+/="]
    t = S.text("t", n, bad)
    j[member] = t
    r = S.attempt(keyrep, j)
    S.check(not r.ok, "refused", got=r.value)
    S.reach("refused")


def secret_text(S, n):
    """the value of a symmetric key is base64url or refused"""
    t = S.text("k", n, list(range(0x20, 0x7f)))
    r = S.attempt(keyrep, {"kty": "oct", "k": t})
    core, legal = ref.b64url_legal(t.encode("ascii"))
    if r.ok:
        S.check(legal, "accepted only if legal", got=t)
        if len(core):
            S.check(S.eq(r.value.key, ref.b64url_value(core)), "its value",
                    got=r.value.key)
    else:
        S.check(not legal, "a legal text is accepted", got=r.kind)
    S.reach("text")


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, reach="back", weight=5, bounds="", **k):
        out.append(Case(name, fn, k, reach=(reach,), weight=weight,
                        bounds=bounds))
    HOWS = ("keyrep", "text", "add", "init", "load_dict", "load_jwks", "str")
    for n in (1, 2, 3, 16, 33) + ((32, 64, 129) if big else ()):
        add("oct-%d" % n, sym, n=n, how="keyrep", which="", given="octets",
            bounds="every value of %d octets" % n)
    for how in HOWS + ("dict",):
        for which in ("i", "u", "a") + (("iua",) if big or how == "keyrep"
                                        else ()):
            if how == "dict" and which != "i":
                continue
            add("oct-%s-%s" % (how, which), sym, n=4, how=how, which=which,
                given="octets", bounds="every value of 4 octets; id, use, "
                "algorithm: every character" + ("" if how in (
                    "keyrep", "add", "load_dict") else " of printable "
                    "ASCII but quote and backslash"))
    add("oct-text", sym, n=2, how="keyrep", which="", given="text",
        bounds="every value of 2 characters")
    add("oct-k", sym, n=5, how="text", which="i", given="k",
        bounds="every value of 5 octets")
    for crv, pp, order in (("P-256", 17, 23), ("P-384", 23, 31),
                           ("P-521", 29, 31)):
        for private in ("none", "stripped", "full"):
            for how in ("keyrep", "init", "text") if not big else HOWS:
                add("ec-small-%s-%s-%s" % (crv, private, how), ec_small,
                    crv=crv, pp=pp, order=order, how=how, which="",
                    private=private, bounds="every point of a curve over "
                    "GF(%d), every private value" % pp)
    add("ec-small-meta", ec_small, crv="P-256", pp=13, order=19,
        how="keyrep", which="iua", private="full", bounds="every point of a "
        "curve over GF(13), every private value, id, use and algorithm of "
        "one character")
    add("ec-small-dict", ec_small, crv="P-256", pp=13, order=19,
        how="dict", which="i", private="full", bounds="every point of a "
        "curve over GF(13), every private value")
    for crv in sorted(jwes.COORD):
        for point in (0, "x", "y"):
            for how in HOWS if big else ("keyrep", "load_jwks", "text") \
                    if point == 0 else ("keyrep",):
                for private in (True, False):
                    if how in ("load_jwks", "str") and private:
                        continue
                    for which in ("", "i", "u", "a") if point == 0 else \
                            ("",):
                        add("ec-%s-%s-%s-%s-%s" % (
                            crv, point, how, "private" if private else
                            "public", which or "plain"), ec_real, crv=crv,
                            which=which, how=how, private=private,
                            point=point, bounds="one point, every private "
                            "value" + (" of full length, every character"
                                       if which else ""))
        add("ec-%s-dict" % crv, ec_real, crv=crv, which="i", how="dict",
            private=True, point=0, bounds="one point, every private value")
        add("ec-%s-lengths" % crv, ec_lengths, "length", crv=crv,
            bounds="every x of 1, half, all but one and all octets, y below "
            "65536, d below 256")
        for how in ("text", "init"):
            add("ec-%s-ops-%s" % (crv, how), ops_ec, "ops", 20, crv=crv,
                how=how, bounds="one key, every message and id of a "
                "character")
    for how in HOWS + ("dict",):
        for private in (True, False):
            if how in ("load_jwks", "str") and private:
                continue
            for which in ("", "i", "u", "a") if how != "dict" else ("i",):
                add("rsa-%s-%s-%s" % (how, "private" if private else
                                      "public", which or "plain"), rsa_real,
                    how=how, private=private, which=which, i=1,
                    bounds="one key, every id, use and algorithm of a "
                    "character")
    for n in (4, 8) + ((32, 256) if big else (64,)):
        for how in ("keyrep", "load_jwks"):
            add("rsa-public-%d-%s" % (n, how), rsa_public, n=n, how=how,
                which="i", bounds="every odd modulus of %d octets, every "
                "odd exponent of 17 to 24 bits" % n)
    for n in (4,) + ((32, 128) if big else (16,)):
        for how in ("keyrep", "text", "init"):
            add("rsa-any-%d-%s" % (n, how), rsa_any, n=n, how=how, which="i",
                bounds="every number of %d and %d octets in all nine "
                "members" % (n, n // 2))
    for kinds in (["oct", "oct"], ["oct", "EC"], ["RSA", "oct", "EC2"],
                  ["RSA-public", "RSA"], ["EC", "EC2"], []):
        add("set-" + ("-".join(kinds) or "empty"), key_set, "set", 20,
            kinds=kinds, kid_n=1, bounds="every id of a character, every "
            "symmetric value of 4 octets")
    for kind in ("oct", "RSA"):
        add("wrap-" + kind, wrap, "wrapped", kind=kind,
            bounds="every id and use of a character")
    for kty, members in (("oct", ["k"]), ("EC", ["crv", "x", "y"]),
                         ("RSA", ["n", "e"])):
        for member in members:
            for private in (True, False):
                if kty == "oct" and not private:
                    continue
                for what in ("absent", "other", "empty"):
                    if (what == "other" and (kty, member) != ("oct", "k")) \
                            or what != "other":
                        add("missing-%s-%s-%s-%s" % (
                            kty, member, what, "private" if private else
                            "public"), missing, "refused", kty=kty,
                            member=member, private=private, what=what,
                            bounds="every id of a character; ten other "
                            "values")
            if member != "crv":
                for n in (1, 2) + ((3,) if big else ()):
                    add("not64-%s-%s-%d" % (kty, member, n), not_base64,
                        "refused", kty=kty, member=member, n=n,
                        bounds="every text of %d ASCII characters that are "
                        "not of base64" % n)
    add("not64-EC-d", not_base64, "refused", kty="EC", member="d", n=2,
        bounds="every text of 2 ASCII characters not of base64")
    add("not64-RSA-d", not_base64, "refused", kty="RSA", member="d", n=2,
        bounds="every text of 2 ASCII characters not of base64")
    add("no-type", no_type, "refused", bounds="three keys")
    for n in (1, 4, 5) + ((6,) if big else ()):
        add("curve-%d" % n, curve_name, "name", n=n, bounds="every name of "
            "%d characters" % n)
    for which in "xy":
        for n in (1, 2) + ((3, 32) if big else ()):
            add("coordinate-%s-%d" % (which, n), coordinate, "coordinate",
                crv="P-256", pp=17, order=23, which=which, n=n,
                bounds="every number of %d octets" % n)
    for n in (1, 2, 3) + ((4,) if big else ()):
        add("secret-text-%d" % n, secret_text, "text", n=n,
            bounds="every printable text of %d characters" % n)
    return out
