"""C24 header parameters arrive unchanged."""
import copy
import json
from jwkest.jwe import JWE, JWEnc
from jwkest.jwe import factory as jwe_factory
from jwkest.jws import JWS, JWSig
from jwkest.jws import factory as jws_factory
from jwkest.jwt import JWT
from vlib.api import Case
from harness import jwes, keys, ref, sigs
from harness.c19 import PLAIN

keyring = keys.ring
ASSUMPTIONS = []
OUTSIDE = ["alg, kid and typ among the protected parameters of a compact "
           "signature are those of the object and the key used, when it has "
           "them; the algorithm is added to the caller's protected "
           "dictionary by sign_json; apv with an RSA algorithm; empty "
           "parameter values of RSA encryption, which are left out; a 'jwk' "
           "parameter with a symmetric or EC algorithm; parameter names "
           "other than the listed ones"]
NAMES = ["cty", "crit", "jku", "x5u", "x5t", "x5c", "iss", "b64", "nonce",
         "http://example.com/x", "Alg", "KID", "zip", "enc", "apu"]


def value(S, shape, tag=""):
    if shape == "char":
        return S.text("v" + tag, 1)
    if shape == "text":
        return S.text("v" + tag, 3, PLAIN)
    if shape == "empty":
        return ""
    if shape == "int":
        return S.int("v" + tag, -120, 120)
    if shape == "const":
        return S.choose("v" + tag, [True, False, None, 0, 1, 1.5, -1, [],
                                    {}, 1 << 70])
    if shape == "list":
        return [S.text("v" + tag, 1, PLAIN), S.text("w" + tag, 2, PLAIN)]
    return {"a": S.text("v" + tag, 1, PLAIN), "b": [S.text(
        "w" + tag, 1, PLAIN), {"c": 1}]}


def header(S, part):
    return json.loads(ref.unb64(part).decode("utf-8"))


def compact(S, alg, names, shape, kid, own):
    """protected parameters of a compact signature"""
    S.random_policy("stream")
    S.model_ec()
    p = {}
    for j, n in enumerate(names):
        p[n] = value(S, shape, str(j))
    before = copy.deepcopy(p)
    kw, own_kw = {}, {}
    want = dict(p)
    want["alg"] = alg
    if kid:
        kw["kid"] = want["kid"] = S.text("kid", 2, PLAIN)
    if "typ" in own:
        own_kw["typ"] = want["typ"] = S.text("typ", 2, PLAIN)
    if "kid" in own:
        own_kw["kid"] = kw.get("kid", "")
    k = None if alg == "none" else sigs.key(alg, 0, **kw)
    if alg == "none":
        want.pop("kid", None)
    s = JWS("m", alg=alg, **own_kw)
    t = s.sign_compact([k] if k is not None else None, protected=p)
    parts = t.encode("ascii").split(b".")
    S.check(len(parts) == 3, "three parts")
    h = header(S, parts[0])
    S.check(S.eq(h, want), "the header", got=h)
    S.check(S.eq(p, before), "the caller's dictionary stays", got=p)
    r = jws_factory(t)
    S.check(S.eq(r.jwt.headers, want), "read again", got=r.jwt.headers)
    # the same object and dictionary once more
    t2 = s.sign_compact([k] if k is not None else None, protected=p)
    S.check(S.eq(header(S, t2.encode("ascii").split(b".")[0]), want),
            "the same again")
    # without them
    t3 = s.sign_compact([k] if k is not None else None)
    w = dict((n, want[n]) for n in want if n not in p)
    S.check(S.eq(header(S, t3.encode("ascii").split(b".")[0]), w),
            "nothing stays behind")
    S.reach("header")


def protected_id(S, n, kid):
    """a protected key id with a key that has none"""
    p = {"kid": S.text("kid", n, PLAIN), "cty": "x"}
    want = dict(p, alg="HS256")
    t = JWS("m", alg="HS256").sign_compact([sigs.key("HS256", 0)],
                                           protected=p)
    S.check(S.eq(header(S, t.encode("ascii").split(b".")[0]), want),
            "the header")
    S.check(S.eq(p, {"kid": want["kid"], "cty": "x"}), "caller's dictionary")
    S.reach("header")


def key_alg(S, alg):
    """the algorithm of the only key, when none is given"""
    S.random_policy("stream")
    S.model_ec()
    kw = {"kid": S.text("kid", 1, PLAIN), "alg": alg}
    t = JWS("m").sign_compact([sigs.key(alg, 0, **kw)])
    S.check(S.eq(header(S, t.encode("ascii").split(b".")[0]), kw),
            "the header")
    S.reach("header")


def json_form(S, alg, protected, unprotected, flatten, count, shape):
    """protected and unprotected parameters of the JSON serialisation"""
    S.random_policy("stream")
    S.model_ec()
    heads, want = [], []
    for j in range(count):
        p = dict((n, value(S, shape, "%s%d" % (n, j))) for n in protected)
        u = dict((n, value(S, shape, "%s%du" % (n, j)))
                 for n in unprotected)
        heads.append((p, u or None))
        want.append((dict(p, alg=alg), dict(u)))
    kid = S.text("kid", 1, PLAIN)
    if not protected and not unprotected and count == 1:
        arg = None
    else:
        arg = heads
    k = sigs.key(alg, 0, kid=kid)
    out = json.loads(JWS("m", alg=alg).sign_json([k], arg, flatten))
    entries = [out] if flatten and count == 1 else out["signatures"]
    S.check(len(entries) == count, "number of signatures")
    S.check(("signatures" in out) == (not (flatten and count == 1)), "form")
    for j, e in enumerate(entries):
        h = header(S, e["protected"].encode("ascii"))
        p, u = want[j]
        S.check(S.eq(h, dict(p, kid=kid)), "protected header", got=h)
        if u:
            S.check(S.eq(e["header"], u), "unprotected header",
                    got=e["header"])
        else:
            S.check("header" not in e, "no unprotected header")
    for (p, u), (wp, wu) in zip(heads, want):
        # ('alg' is added to it)
        S.check(S.any(S.eq(p, wp), S.eq(dict(p, alg=alg), wp)),
                "protected parameters of the caller", got=p)
        S.check("kid" not in p, "no key id in them")
        S.check(S.eq(u or {}, wu), "unprotected parameters of the caller")
    S.reach("header")


def json_id(S, count):
    """a key id in the protected header picks the key and arrives"""
    ids = [S.text("id%d" % j, 1, PLAIN) for j in range(2)]
    S.assume(S.neg(S.eq(ids[0], ids[1])))
    ks = [sigs.key("HS256", j, kid=ids[j]) for j in range(2)]
    heads = [({"kid": ids[j], "cty": "c"}, None) for j in range(count)]
    out = json.loads(JWS("m", alg="HS256").sign_json(ks, heads))
    for j, e in enumerate(out["signatures"]):
        h = header(S, e["protected"].encode("ascii"))
        S.check(S.eq(h, {"alg": "HS256", "kid": ids[j], "cty": "c"}),
                "protected header", got=h)
    S.reach("header")


def json_alg(S, flatten):
    """an algorithm in the protected header goes before the object's"""
    algs = [S.choose("alg%d" % j, ["HS256", "HS384", "HS512"])
            for j in range(1 if flatten else 2)]
    kid = S.text("kid", 1, PLAIN)
    c = S.text("cty", 1, PLAIN)
    heads = [({"alg": a, "cty": c}, None) for a in algs]
    s = JWS("m", alg="HS256")
    out = json.loads(s.sign_json([sigs.key("HS256", 0, kid=kid)], heads,
                                 flatten))
    for a, e in zip(algs, [out] if flatten else out["signatures"]):
        h = header(S, e["protected"].encode("ascii"))
        S.check(S.eq(h, {"alg": a, "cty": c, "kid": kid}), "header", got=h)
        S.check(len(ref.unb64(e["signature"].encode("ascii"))) ==
                sigs.size(a), "length of the signature")
    S.check(s["alg"] == "HS256", "the object keeps its algorithm")
    S.reach("header")


def encrypted(S, alg, enc, names, shape, kid):
    """parameters of an encrypted token"""
    S.random_policy("stream")
    kw = {}
    for j, n in enumerate(names):
        kw[n] = value(S, shape, str(j))
        if alg in jwes.RSA:
            S.assume(bool(kw[n]))
        if n in ("apu", "apv"):
            kw[n] = ref.b64u(kw[n].encode("utf-8")).decode("ascii")
    before = copy.deepcopy(kw)
    kkw = {}
    want = dict(kw, alg=alg, enc=enc)
    if kid:
        kkw["kid"] = want["kid"] = S.text("kid", 2, PLAIN)
    if kid == "both":
        kw["kid"] = kkw["kid"]
    e = JWE(b"message", alg=alg, enc=enc, **kw)
    t = e.encrypt([jwes.key(alg, 0, private=False, **kkw)])
    h = header(S, t.encode("ascii").split(b".")[0])
    if alg in jwes.EC:
        for n in ("epk", "apu", "apv"):
            S.check(n in h, "agreement parameters")
            if n not in want:
                want[n] = h[n]
        S.check(S.eq(sorted(h["epk"]), ["crv", "kty", "x", "y"]),
                "members of the ephemeral key")
        S.check(h["epk"]["crv"] == "P-256", "curve of the ephemeral key")
    S.check(S.eq(h, want), "the header", got=h)
    before.update(dict((n, kw[n]) for n in kw if n == "kid"))
    S.check(S.eq(kw, before), "the caller's values stay")
    S.check(S.eq(JWEnc().unpack(t).headers, want), "read again")
    S.reach("header")


def several(S, alg, enc):
    """the key id of the key used, of several"""
    S.random_policy("stream")
    ids = [S.text("id%d" % j, 1, PLAIN) for j in range(2)]
    ks = [jwes.key(alg, j, private=False, kid=ids[j]) for j in range(2)]
    if S.choose("named", [False, True]):
        w = S.text("wanted", 1, PLAIN)
        r = S.attempt(JWE(b"message", alg=alg, enc=enc, kid=w).encrypt, ks)
        some = S.any(S.eq(w, ids[0]), S.eq(w, ids[1]))
        if not r.ok:
            S.check(S.neg(some), "there is such a key", got=r.kind)
            S.reach("header")
            return
        S.check(some, "there is no such key")
        h = header(S, r.value.encode("ascii").split(b".")[0])
        S.check(S.eq(h["kid"], w), "the key id asked for")
    else:
        t = JWE(b"message", alg=alg, enc=enc).encrypt(ks)
        h = header(S, t.encode("ascii").split(b".")[0])
        S.check(S.eq(h["kid"], ids[0]), "id of the first key", got=h["kid"])
    S.reach("header")


def packed(S, names, shape, cls, where):
    """the header of a token put together by hand"""
    h = dict((n, value(S, shape, str(j))) for j, n in enumerate(names))
    h["alg"] = "X"
    want = copy.deepcopy(h)
    c = {"JWT": JWT, "JWSig": JWSig, "JWEnc": JWEnc}[cls]
    if where == "init":
        t = c(**h).pack(parts=[b"a", b"b"])
    else:
        t = c().pack(parts=[b"a", b"b"], headers=h)
    S.check(S.eq(header(S, t.encode("ascii").split(b".")[0]), want),
            "the header")
    S.check(S.eq(c().unpack(t).headers, want), "read again")
    S.check(S.eq(h, want), "the caller's dictionary stays")
    S.reach("header")


def listed(S, names, shape):
    """JWx.headers: each parameter under its own name"""
    kw = dict((n, value(S, shape, str(j))) for j, n in enumerate(names))
    for n in names:
        S.assume(bool(kw[n]))
    s = JWS("m", alg="HS256", **kw)
    S.check(S.eq(s.headers(), dict(kw, alg="HS256")), "parameters",
            got=s.headers())
    S.check(S.eq(s.dump_header(), dict(kw, alg="HS256")), "parameters",
            got=s.dump_header())
    for n in names:
        S.check(S.eq(s[n], kw[n]), "each", name=n)
        S.check(S.eq(getattr(s, n), kw[n]), "each", name=n)
    other = {"alg": "none", names[0]: value(S, shape, "x")}
    S.check(S.eq(s.headers(other), dict(kw, **other)), "more parameters")
    S.check(S.eq(s.headers(), dict(kw, alg="HS256")), "parameters")
    S.reach("header")


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, weight=5, bounds="", **k):
        out.append(Case(name, fn, k, reach=("header",), weight=weight,
                        bounds=bounds))
    SH = {"char": "every character", "text": "every text of 3 printable "
          "ASCII characters", "empty": "the empty text", "int": "every "
          "number from -120 to 120", "const": "ten constants", "list":
          "every list of texts of 1 and 2 characters", "dict": "every "
          "dictionary of that shape"}
    for shape in sorted(SH):
        if shape == "int":
            continue
        for n in ("cty", "crit") + (tuple(NAMES[2:]) if big or
                                    shape == "text" else ()):
            add("compact-%s-%s" % (n, shape), compact, alg="HS256",
                names=[n], shape=shape, kid=True, own=(),
                bounds=SH[shape] + ", every key id of 2 characters")
        for where in ("init", "pack"):
            for cls in ("JWT", "JWSig", "JWEnc"):
                add("packed-%s-%s-%s" % (cls, where, shape), packed,
                    names=["kid", "typ"] if shape != "char" else [
                        "kid"], shape=shape, cls=cls, where=where,
                    bounds=SH[shape])
    for alg in sigs.ALGS + ["none"]:
        for kid in (False, True):
            for own in ((), ("typ",)) + ((("kid", "typ"),) if kid and
                                         alg != "none" else ()):
                add("compact-%s-%s-%s" % (alg, "kid" if kid else "", "-".join(
                    own)), compact, alg=alg, names=["cty", "crit", "nonce"],
                    shape="list", kid=kid, own=own, bounds=SH["list"] +
                    " in three parameters")
        if alg != "none":
            add("key-alg-" + alg, key_alg, alg=alg, bounds="every key id of "
                "a character")
    for n in (1, 2):
        add("protected-id-%d" % n, protected_id, n=n, kid=False,
            bounds="every id of %d characters" % n)
    for alg in ("HS256", "RS256", "ES256"):
        for flatten in (False, True):
            for count in (1, 2):
                for pr, un, sh in (((), (), "text"), (("cty",), (), "text"),
                                   ((), ("iss",), "text"),
                                   (("cty", "crit"), ("x5u", "nonce"),
                                    "text"), (("b64",), ("iss",), "const"),
                                   (("crit",), ("iss",), "list")):
                    if alg != "HS256" and sh != "list" and not big:
                        continue
                    if count == 2 and (sh == "const" or not pr and not un):
                        continue
                    add("json-%s-%s-%d-%s-%s-%s" % (
                        alg, "flat" if flatten else "general", count,
                        "-".join(pr), "-".join(un), sh), json_form, alg=alg,
                        protected=pr, unprotected=un, flatten=flatten,
                        count=count, shape=sh, bounds=SH[sh] + " in each of "
                        "%d signatures" % count)
    for count in (1, 2):
        add("json-id-%d" % count, json_id, count=count, bounds="every two "
            "ids of a character")
    for flatten in (False, True):
        add("json-alg-%s" % flatten, json_alg, flatten=flatten,
            bounds="three algorithms, every id and type of a character")
    for alg in jwes.ALGS:
        enc = "A128CBC-HS256"
        for kid in ("", "key", "both"):
            add("jwe-%s-%s" % (alg, kid), encrypted, alg=alg, enc=enc,
                names=["typ", "cty"], shape="text", kid=kid,
                bounds=SH["text"] + " in two parameters")
        for n in ("crit", "x5c"):
            add("jwe-%s-%s" % (alg, n), encrypted, alg=alg, enc=enc,
                names=[n], shape="list", kid="key", bounds=SH["list"])
        for n in ("jku", "x5u", "x5t", "typ", "cty"):
            for sh in ("text", "char") if big else ("char",) if n in (
                    "typ", "cty") else ("text",):
                add("jwe-%s-%s-%s" % (alg, n, sh), encrypted, alg=alg,
                    enc=enc, names=[n], shape=sh, kid="", bounds=SH[sh])
        if alg in jwes.EC:
            for names in (["apu"], ["apv"], ["apu", "apv", "cty"]):
                add("jwe-%s-%s" % (alg, "-".join(names)), encrypted, alg=alg,
                    enc=enc, names=names, shape="text", kid="key",
                    bounds=SH["text"])
        if alg in jwes.RSA:
            add("jwe-%s-apu" % alg, encrypted, alg=alg, enc=enc,
                names=["apu"], shape="text", kid="key", bounds=SH["text"])
        add("several-" + alg, several, alg=alg, enc=enc, bounds="every two "
            "ids of a character, and the wanted one")
    for enc in jwes.ENCS:
        if enc.endswith("GCM") and not big:
            continue
        for alg in ("RSA-OAEP", "A128KW", "ECDH-ES"):
            add("jwe-%s-%s" % (alg, enc), encrypted, alg=alg, enc=enc,
                names=["cty"], shape="text", kid="key", bounds=SH["text"])
    for names in (["typ"], ["cty", "crit"], ["x5u", "x5t", "x5c", "jku"]):
        for sh in ("text", "char", "list"):
            if sh == "list" and names[0] == "typ" or sh == "char" and \
                    len(names) > 2:
                continue
            add("listed-%s-%s" % ("-".join(names), sh), listed, names=names,
                shape=sh, bounds=SH[sh] + " in each")
    return out
