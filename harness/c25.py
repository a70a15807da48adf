"""C25 an object used before accepts nothing a new one refuses."""
import json
import hmac
import hashlib
from jwkest.jwe import JWE, JWEnc
from jwkest.jwe import factory as jwe_factory
from jwkest.jwk import KEYS, SYMKey
from jwkest.jws import JWS, JWSig
from jwkest.jws import factory as jws_factory
from vlib.api import Case
from harness import jwes, keys, ref, sigs
from harness.c19 import PLAIN

keyring = keys.ring
ASSUMPTIONS = []
OUTSIDE = ["sequences of more than two calls before the last one; keys "
           "fetched from a URL; the object's attributes read directly"]
SECRET = {"a": b"secret of key a", "b": b"the other secret",
          "evil": b"a stranger's secret"}
HASH = {"HS256": hashlib.sha256, "HS512": hashlib.sha512}


def oct_key(i, **kw):
    return SYMKey(key=SECRET[i], **kw)


def ring_of(which):
    """the verifier's keys"""
    if which == "none":
        return None
    if which == "a":
        return [oct_key("a", kid="a")]
    if which == "mixed":
        return [keys.rsa(1, False, kid="r"), oct_key("a", kid="a"),
                oct_key("b")]
    ks = KEYS()
    for k in (oct_key("a", kid="a"), oct_key("b", kid="b")):
        ks.append(k)
    return ks


def snap(ks):
    out = []
    for k in ks or []:
        d = dict(vars(k))
        d.pop("_hash")
        out.append((k, d))
    return out


def unchanged(S, ks, before):
    now = [k for k in ks or []]
    S.check(len(now) == len(before) and all(
        k is o for k, (o, _) in zip(now, before)),
        "the same keys in the same order")
    odd = []
    for k, (o, d) in zip(now, before):
        n = dict(vars(k))
        n.pop("_hash")
        for m in sorted(set(n) | set(d)):
            if n.get(m) is d.get(m):
                continue
            same = S.eq(n.get(m), d.get(m))
            if S.settled(same) is None:
                S.check(same, "a key stays what it was", changed=m)
            elif not S.settled(same):
                odd.append(m)
    S.check(not odd, "a key stays what it was", changed=odd)


def jwk_of(i):
    return {"kty": "oct", "k": ref.b64u(SECRET[i]).decode("ascii")}


def parts(S, tag, kind):
    """(protected header, payload, signature) of a token"""
    if tag:
        p = b'"earlier %s"' % tag.encode("ascii")
    else:
        p = b'"' + ("p" + S.text("p", 1, PLAIN)).encode("ascii") + b'"'
    head = {"alg": "HS256"}
    who = "a"
    if kind == "b":
        head["kid"] = who = "b"
    elif kind == "512":
        head["alg"] = "HS512"
    elif kind == "evil":
        head["jwk"], who = jwk_of("evil"), "evil"
    elif kind == "stranger":
        who = "evil"
    elif kind == "kid":
        head["kid"], who = "a", "a" if tag else "evil"
    elif kind == "none":
        head["alg"] = "none"
    elif kind == "no alg":
        del head["alg"]
    elif kind == "cty":
        head["cty"] = "JWT"
    elif kind == "rs":
        head["alg"], p = "RS256", b'"p!"'
    h = json.dumps(head).encode("ascii")
    if kind == "none":
        return h, p, b""
    data = ref.tok(h, p)
    if kind in ("any", "b") or kind == "kid" and tag:
        if tag:
            return h, p, S.choose("s" + tag, [b"no" * 16, hmac.new(
                SECRET[who], data, hashlib.sha256).digest()])
        return h, p, S.bytes("s", 32)
    if kind == "rs":
        from Cryptodome.Hash import SHA256
        from Cryptodome.Signature import pkcs1_15
        return h, p, pkcs1_15.new(keys.rsa_raw(1)).sign(SHA256.new(data))
    f = HASH[head.get("alg", "HS256")]
    return h, p, hmac.new(SECRET[who], data, f).digest()


def compact(S, tag, kind):
    if kind == "broken":
        return "eyJhbGciOiJIUzI1NiJ9.YQ"
    return ref.tok(*parts(S, tag, kind)).decode("ascii")


def as_json(S, tag, kind, flat=False):
    if kind == "broken":
        return '{"payload": "YQ", "signatures": [{"signature": "YQ"}]}'
    h, p, s = parts(S, tag, kind)
    e = {"protected": ref.b64u(h).decode("ascii"),
         "signature": ref.b64u(s).decode("ascii")}
    if kind == "evil":
        e["header"] = {"jwk": jwk_of("evil"), "kid": "evil"}
    d = {"payload": ref.b64u(p).decode("ascii")}
    if flat:
        d.update(e)
    else:
        d["signatures"] = [e]
    return json.dumps(d)


KINDS = ["any", "b", "512", "evil", "stranger", "kid", "none", "no alg",
         "cty", "rs", "broken"]


def do(S, o, op, tag, ring):
    """one call on the object"""
    name, kind = op
    ks = ring_of("none" if name.endswith("0") else ring)
    before = snap(ks)
    if name == "sign":
        r = S.attempt(o.sign_compact, ks)
    elif name == "sign json":
        r = S.attempt(o.sign_json, ks, [({"cty": "x"}, {"jwk": "x"})])
    elif name == "is_jws":
        r = S.attempt(o.is_jws, compact(S, tag, kind))
    elif name.startswith("json"):
        r = S.attempt(o.verify_json, as_json(S, tag, kind, "flat" in name),
                      ks)
    else:
        r = S.attempt(o.verify_compact, compact(S, tag, kind), ks,
                      "none" in name)
    unchanged(S, ks, before)
    return r


def fresh(settings):
    kw = dict(settings)
    if kw.pop("factory", None):
        return jws_factory("eyJhbGciOiJIUzI1NiIsImtpZCI6ImEifQ.YQ.YQ")
    return JWS(**kw)


def last(S, o, how, kind, ring, token):
    """the last call, on either object, with the same token"""
    ks = ring_of("none" if "0" in how else ring)
    before = snap(ks)
    kw = {}
    if "none" in how:
        kw["allow_none"] = True
    if "sigalg" in how:
        kw["sigalg"] = "HS256"
    f = o.verify_json if "json" in how else o.verify_compact
    r = S.attempt(f, token, ks, **kw)
    unchanged(S, ks, before)
    return r


def signatures(S, settings, ops, how, ring, kinds=KINDS):
    """JWS: calls, then a verification, against a new object"""
    o = fresh(settings)
    for j, menu in enumerate(ops):
        do(S, o, S.choose("op%d" % j, menu), str(j), ring)
    how = S.choose("last", how)
    kind = S.choose("kind", kinds)
    token = as_json(S, "", kind, "flat" in how) if "json" in how else \
        compact(S, "", kind)
    used = last(S, o, how, kind, ring, token)
    new = last(S, fresh(settings), how, kind, ring, token)
    if used.ok:
        S.check(new.ok, "a new object accepts it too", got=new.kind)
        S.check(S.eq(used.value, new.value), "the same message",
                got=used.value)
        if ring != "none" and "0" not in how and "json" not in how and \
                kind != "none":
            S.check(S.eq(o.msg, used.value), "message kept in the object")
    S.reach("compared")


def verbose(S, first, kind):
    """the key that is reported is of this token"""
    o = JWS()
    ks = ring_of("mixed")
    S.attempt(o.verify_compact, compact(S, "0", first), ks)
    t = compact(S, "", kind)
    used = S.attempt(o.verify_compact_verbose, t, ks)
    new = S.attempt(JWS().verify_compact_verbose, t, ks)
    if used.ok:
        S.check(new.ok, "a new object accepts it too", got=new.kind)
        S.check(S.eq(used.value["msg"], new.value["msg"]), "same message")
        S.check(used.value.get("key") is new.value.get("key"), "same key")
        S.check(sorted(used.value) == sorted(new.value), "same members")
    S.reach("compared")


# -- encryption ---------------------------------------------------------------

ENC = "A128CBC-HS256"


def changed(S, alg, tag, what, kid=None):
    """a token for key 0 of the algorithm"""
    extra = {"kid": kid} if kid else {}
    msg = b"message " + tag.encode("ascii")
    if what == "other key":
        ps = jwes.make(alg, ENC, msg, i=1, fixed=True, extra=extra)
    elif what == "zip":
        ps = jwes.make(alg, ENC, msg, fixed=True, extra={"zip": "DEF"})
    else:
        ps = jwes.make(alg, ENC, msg, fixed=True, extra=extra)
    ps = list(ps)
    if what == "tag":
        ps[4] = S.bytes("tag", 16) if tag == "z" else b"no tag at all..."
    elif what == "ciphertext":
        ps[3] = S.bytes("ct", 16) if tag == "z" else b"no ciphertext..."
    elif what == "no key":
        ps[1] = b""
    elif what == "foreign key":
        ps[1] = jwes.make(alg, ENC, msg, i=1, fixed=True)[1]
    return ref.tok(*ps).decode("ascii")


def ring_enc(algs):
    out = []
    for a in algs:
        out.append(jwes.key(a, 0, kid="k0"))
        out.append(jwes.key(a, 2 if a in jwes.RSA else 0))
    return out


CEK = bytes((17 * j + 3) & 255 for j in range(32))


def enc_op(S, o, op, alg, tag, ks):
    before = snap(ks)
    if op == "encrypt":
        S.attempt(o.encrypt, ks)
    elif op == "encrypt cek":
        S.attempt(o.encrypt, ks, cek=CEK, iv=b"\1" * 16)
    elif op == "decrypt cek":
        S.attempt(o.decrypt, changed(S, alg, tag, ""), ks, cek=CEK)
    elif op == "other alg":
        a = "RSA-OAEP" if alg not in jwes.RSA else "A128KW"
        S.attempt(o.decrypt, changed(S, a, tag, ""), ks)
    else:
        S.attempt(o.decrypt, changed(S, alg, tag, op), ks)
    unchanged(S, ks, before)


def fresh_enc(settings, alg):
    kw = dict(settings)
    if kw.pop("alg", None):
        kw.update(alg=alg, enc=ENC)
    f = kw.pop("factory", None)
    if f:
        t = jwes.make(alg, ENC, b"first", fixed=True, extra={"kid": "k0"})
        return jwe_factory(ref.tok(*t).decode("ascii"))
    return JWE(b"text", **kw)


def encryption(S, settings, alg, ops, whats):
    S.random_policy("stream")
    ks = ring_enc([alg, "A128KW" if alg in jwes.RSA else "RSA-OAEP"])
    o = fresh_enc(settings, alg)
    for j, menu in enumerate(ops):
        enc_op(S, o, S.choose("op%d" % j, menu), alg, str(j), ks)
    what = S.choose("what", whats)
    t = changed(S, alg, "z", what)
    how = S.choose("how", ["keys", "none", "alg"])
    rs = []
    for x in (o, fresh_enc(settings, alg)):
        before = snap(ks)
        if how == "none":
            rs.append(S.attempt(x.decrypt, t))
        elif how == "alg":
            rs.append(S.attempt(x.decrypt, t, ks, alg=alg))
        else:
            rs.append(S.attempt(x.decrypt, t, ks))
        unchanged(S, ks, before)
    used, new = rs
    if used.ok:
        S.check(new.ok, "a new object accepts it too", got=new.kind)
        S.check(S.eq(used.value, new.value), "the same message")
    S.reach("compared")


def unpacked(S, cls, n1, n2):
    """a container that is filled again holds nothing of the first token"""
    def parts_(tag, n):
        return [json.dumps({"alg": "x", "k" + tag: S.text("h" + tag, 1,
                                                           PLAIN)})
                .encode("ascii")] + [
            S.bytes("q%s%d" % (tag, j), 2) for j in range(n - 1)]
    a, b = ref.tok(*parts_("1", n1)), ref.tok(*parts_("2", n2))
    c = {"JWSig": JWSig, "JWEnc": JWEnc}[cls]
    o = c()
    o.unpack(a)
    bad = S.choose("in between", [None, b"", b"a", b"!.!", b"e30.YQ",
                                  b"WzFd.YQ"])
    if bad is not None:
        S.attempt(o.unpack, bad)
    o.unpack(b)
    f = c().unpack(b)
    S.check(S.eq(o.headers, f.headers), "headers", got=o.headers)
    S.check(S.eq(o.part, f.part), "parts")
    S.check(S.eq(o.b64part, f.b64part), "texts")
    S.check(S.eq(o.pack(), f.pack()), "packed again")
    S.check(len(o) == len(f), "length")
    if cls == "JWSig":
        S.check(S.eq(o.sign_input(), f.sign_input()), "signed octets")
        S.check(S.eq(o.signature(), f.signature()), "signature")
    S.reach("compared")


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, weight=5, bounds="", **k):
        out.append(Case(name, fn, k, reach=("compared",), weight=weight,
                        bounds=bounds))
    SET = {"plain": {}, "alg": {"alg": "HS256"}, "kid": {"kid": "a"},
           "both": {"alg": "HS256", "kid": "a"}, "factory": {"factory": 1},
           "512": {"alg": "HS512", "msg": "m"}}
    names = ["compact", "compact0", "compact none", "json", "json0",
             "json flat"]
    bad = ["any", "kid", "evil", "stranger", "none", "cty", "512", "rs", "broken",
           "no alg", "b"] if big else ["any", "evil", "none", "cty", "512",
                                       "kid", "broken"]
    last_kinds = KINDS if big else ["any", "b", "512", "evil", "none", "cty",
                                    "no alg"]
    menu = dict((n, [(n, k) for k in bad]) for n in names)
    menu["sign"] = [("sign", ""), ("sign json", ""), ("is_jws", "any"),
                    ("is_jws", "evil"), ("is_jws", "none")]
    LAST = ["compact", "compact0", "compact none", "json", "json0"] + (
        ["compact sigalg", "json flat sigalg"] if big else [])
    B = "every payload character, every signature of 32 octets, %d token " \
        "forms before and %d after"
    for s in sorted(SET):
        for n in sorted(menu):
            if not big and s not in ("plain", "factory") and n not in (
                    ("compact",) if s in ("both", "512") else
                    ("compact", "json0", "sign")):
                continue
            add("one-%s-%s" % (s, n), signatures, settings=SET[s],
                ops=[menu[n]], how=LAST, ring="set", weight=10,
                kinds=last_kinds, bounds=B % (len(menu[n]), len(
                    last_kinds)))
        if not big and s not in ("plain", "factory", "kid"):
            continue
        for ring in ("mixed", "a"):
            add("ring-%s-%s" % (s, ring), signatures, settings=SET[s],
                ops=[[("compact", "rs"), ("compact", "any"),
                      ("json", "rs"), ("json0", "evil"), ("sign", "")]],
                how=LAST[:4] if not big else LAST, ring=ring, weight=10,
                bounds=B % (5, len(KINDS)))
    short = [("compact", "any"), ("compact", "cty"), ("compact", "none"),
             ("compact none", "none"), ("json", "evil"), ("json0", "evil"),
             ("json", "512"), ("compact", "512"), ("sign", ""),
             ("compact", "broken")]
    for s in sorted(SET) if big else ("plain", "factory", "kid"):
        for a in (short if big else [("json0", "evil"), ("compact", "512"),
                                     ("compact none", "none")]):
            add("two-%s-%s-%s" % (s, a[0], a[1]), signatures,
                settings=SET[s], ops=[[a], short],
                how=LAST if big else ["compact", "compact0", "json"],
                ring="set", weight=10, kinds=last_kinds if big else
                last_kinds[:5], bounds=B % (len(short), len(last_kinds)))
    for first in bad:
        for kind in ("any", "b", "rs", "512"):
            add("verbose-%s-%s" % (first, kind), verbose, first=first,
                kind=kind, bounds="every payload character, every signature "
                "of 32 octets")
    ESET = {"plain": {}, "alg": {"alg": 1}, "kid": {"kid": "k0"},
            "factory": {"factory": 1}}
    eops = ["", "encrypt", "encrypt cek", "decrypt cek", "other alg", "tag",
            "foreign key", "no key", "other key", "zip"]
    whats = ["", "tag", "ciphertext", "no key", "foreign key", "other key"]
    EB = "every tag and ciphertext of one block; %d calls before, %d tokens"
    algs = jwes.ALGS if big else ["A128KW", "RSA-OAEP", "RSA1_5", "ECDH-ES",
                                  "ECDH-ES+A128KW"]
    for s in sorted(ESET):
        for alg in algs:
            less = not big and (s != "plain" or alg in (
                "RSA1_5", "ECDH-ES+A128KW"))
            if less and s != "plain" and alg not in ("A128KW", "RSA-OAEP"):
                continue
            for op in eops[1:6] if less else eops:
                w = whats[:2] + whats[4:5] if less else whats
                add("jwe-%s-%s-%s" % (s, alg, op), encryption,
                    settings=ESET[s], alg=alg, ops=[[op]], whats=w,
                    bounds=EB % (1, len(w)))
        if big:
            for alg in ("A128KW", "RSA-OAEP", "ECDH-ES"):
                for op in eops:
                    add("jwe2-%s-%s-%s" % (s, alg, op), encryption,
                        settings=ESET[s], alg=alg, ops=[[op], eops],
                        whats=whats, weight=20, bounds=EB % (
                            len(eops), len(whats)))
    for cls in ("JWSig", "JWEnc"):
        for n1, n2 in ((3, 3), (5, 3), (3, 5), (2, 3), (3, 2)):
            if cls == "JWSig" and n2 < 3:
                continue
            add("unpack-%s-%d-%d" % (cls, n1, n2), unpacked, cls=cls, n1=n1,
                n2=n2, bounds="every header character and part of 2 octets, "
                "six texts in between")
    return out
