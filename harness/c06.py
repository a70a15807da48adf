"""C06 only keys that fit the header and purpose are used."""
import hashlib
import hmac
import json
from jwkest.jwe import JWE
from jwkest.jwe import factory as jwe_factory
from jwkest.jwk import KEYS
from jwkest.jws import JWS
from vlib.api import Case
from harness import jwes, keys, ref, sigs

keyring = keys.ring
ASSUMPTIONS = ["HMAC is an uninterpreted function of key and message; "
               "different secrets give different signatures of the same "
               "octets (as they do on the real code, where every "
               "counterexample is tried)"]
OUTSIDE = ["more than three keys; a key id demanded by both the object and "
           "the token; an empty key id demanded"]
PLAIN = [c for c in range(0x20, 0x7f) if c not in (0x22, 0x5c)]


class Attrs(object):
    """the declared attributes of key j: absent or any"""

    def __init__(self, S, j, which, nalg):
        self.kid = self.use = self.alg = ""
        if "K" in which:
            self.kid = S.text("kid%d" % j, S.choose("nkid%d" % j, 4), PLAIN)
        if "k" in which and S.choose("has_kid%d" % j, [True, False]):
            self.kid = S.text("kid%d" % j, 1, PLAIN)
        if "u" in which and S.choose("has_use%d" % j, [True, False]):
            self.use = S.text("use%d" % j, 3, PLAIN)
        if "a" in which and S.choose("has_alg%d" % j, [True, False]):
            self.alg = S.text("alg%d" % j, nalg, PLAIN)

    def kw(self):
        return {"kid": self.kid, "use": self.use, "alg": self.alg}


def fits(S, a, use, alg, kid):
    out = []
    if kid is not None:
        out.append(S.eq(a.kid, kid))
    if len(a.use):
        out.append(S.eq(a.use, use))
    if len(a.alg):
        out.append(S.eq(a.alg, alg))
    return S.all(True, *out)


def container(how, ks):
    if how == "KEYS":
        out = KEYS()
        for k in ks:
            out.append(k)
        return out
    return tuple(ks) if how == "tuple" else list(ks)


def others(alg, how, /, **kw):
    """keys of other types with the attributes of a fitting one"""
    if how == "alone":
        return []
    t = "EC" if alg.startswith("ECDH") else \
        "RSA" if alg.startswith("RSA") else \
        "oct" if alg in jwes.KW else sigs.KTY[alg[:2]]
    out = []
    if t != "oct":
        out.append(sigs.key("HS256", 0, **kw))
    if t != "RSA":
        out.append(keys.rsa(1, **kw))
    if t != "EC":
        out.append(keys.ec("P-256", 0, **kw))
    return out


def macs(S, alg, n, msg):
    """the signatures of msg under the keys, taken to be different"""
    out = [hmac.new(b"secret number %d" % j, msg,
                    sigs.HASH[alg[2:]][0]).digest() for j in range(n)]
    for i in range(n):
        for j in range(i):
            S.assume(S.neg(S.eq(out[i], out[j])))
    return out


def want_kid(S, demand, which):
    return None if demand == "no" else S.text(
        "kid", 2 if "K" in which else 1, PLAIN)


def verify(S, alg, n, which, demand, signer, how):
    """a token signed with key number signer"""
    kid = want_kid(S, demand, which)
    at = [Attrs(S, j, which, len(alg)) for j in range(n)]
    head = {"alg": alg}
    if demand == "token":
        head["kid"] = kid
    msg = ref.tok(json.dumps(head).encode("utf-8"), b"message")
    sig = macs(S, alg, max(n, signer + 1), msg)[signer]
    ks = [sigs.key(alg, j, **a.kw()) for j, a in enumerate(at)]
    ks = others(alg, how, **(at[0].kw() if at else {})) + ks
    j = JWS(kid=kid, alg=alg) if demand == "object" else JWS()
    r = S.attempt(j.verify_compact_verbose, msg + b"." + ref.b64u(sig),
                  keys=container(how, ks))
    ok = fits(S, at[signer], "sig", alg, kid) if signer < n else False
    S.check(S.iff(r.ok, ok), "accepted exactly if the key fits", got=r.kind)
    S.observe("kind", r.kind)
    if r.ok:
        S.check(r.value["key"] is ks[len(ks) - n + signer], "that key")
        S.check(S.eq(r.value["msg"], "message"), "message")
    S.reach("accepted" if r.ok else "refused")


def sign(S, alg, n, which, demand, how):
    kid = want_kid(S, demand, which)
    at = [Attrs(S, j, which, len(alg)) for j in range(n)]
    ks = [sigs.key(alg, j, **a.kw()) for j, a in enumerate(at)]
    ks = others(alg, how, **(at[0].kw() if at else {})) + ks
    kw = {"kid": kid} if demand != "no" else {}
    if demand == "json":
        r = S.attempt(JWS(b"message", alg=alg).sign_json,
                      keys=container(how, ks),
                      headers=[({"alg": alg, "kid": kid}, None)],
                      flatten=True)
        if r.ok:
            o = json.loads(r.value)
            r.value = "%s.%s.%s" % (o["protected"], o["payload"],
                                    o["signature"])
    else:
        r = S.attempt(JWS(b"message", alg=alg, **kw).sign_compact,
                      container(how, ks))
    S.check(S.iff(r.ok, S.any(False, *[fits(S, a, "sig", alg, kid)
                                       for a in at])),
            "signed exactly if a key fits", got=r.kind)
    S.observe("kind", r.kind)
    if not r.ok:
        return S.reach("refused")
    h, p, s = r.value.encode("ascii").split(b".")
    head = json.loads(ref.unb64(h).decode("ascii"))
    sig = ref.unb64(s)
    used = []
    real = macs(S, alg, n, h + b"." + p)
    for j, a in enumerate(at):
        same = S.eq(head["kid"], a.kid) if "kid" in head else \
            len(a.kid) == 0
        used.append(S.all(fits(S, a, "sig", alg, kid), S.eq(sig, real[j]),
                          same))
    S.check(S.any(*used), "signed with a fitting key and its key id")
    S.reach("signed")


def decrypt(S, alg, enc, n, which, demand, receiver, how):
    """a token for key number receiver"""
    S.random_policy("stream")
    kid = want_kid(S, demand, which)
    at = [Attrs(S, j, which, len(alg)) for j in range(n)]
    tok = jwes.token(alg, enc, b"message", i=receiver,
                     extra={"kid": kid} if demand == "token" else None)
    ks = [jwes.key(alg, j, **a.kw()) for j, a in enumerate(at)]
    ks = others(alg, how, **(at[0].kw() if at else {})) + ks
    if demand == "object":
        e = JWE(kid=kid, alg=alg, enc=enc)
    elif demand == "token":
        e = jwe_factory(tok)
    else:
        e = JWE()
    given = {} if demand == "token" else {"token": tok}
    r = S.attempt(e.decrypt, keys=container(how, ks), **given)
    ok = fits(S, at[receiver], "enc", alg, kid) if receiver < n else False
    S.check(S.iff(r.ok, ok), "decrypted exactly if the key fits",
            got=r.kind)
    S.observe("kind", r.kind)
    if r.ok:
        S.check(S.eq(r.value, b"message"), "message")
    S.reach("accepted" if r.ok else "refused")


def encrypt(S, alg, enc, n, which, demand, how):
    S.random_policy("stream")
    kid = want_kid(S, demand, which)
    at = [Attrs(S, j, which, len(alg)) for j in range(n)]
    ks = [jwes.key(alg, j, **a.kw()) for j, a in enumerate(at)]
    ks = others(alg, how, **(at[0].kw() if at else {})) + ks
    kw = {"kid": kid} if demand == "object" else {}
    r = S.attempt(JWE(b"message", alg=alg, enc=enc, **kw).encrypt,
                  container(how, ks))
    S.check(S.iff(r.ok, S.any(False, *[fits(S, a, "enc", alg, kid)
                                       for a in at])),
            "encrypted exactly if a key fits", got=r.kind)
    S.observe("kind", r.kind)
    if not r.ok:
        return S.reach("refused")
    parts = r.value.encode("ascii").split(b".")
    S.check(len(parts) == 5, "five parts")
    raw = [ref.unb64(p) for p in parts]
    head = json.loads(raw[0].decode("ascii"))
    ok = False
    for j, a in enumerate(at):
        if jwes.content_key(alg, enc, head, raw[1], j) is not None:
            same = S.eq(head["kid"], a.kid) if "kid" in head else \
                len(a.kid) == 0
            ok = S.any(ok, S.all(fits(S, a, "enc", alg, kid), same))
    S.check(ok, "for a fitting key with its key id")
    S.reach("encrypted")


def curve(S, alg, crv, what):
    """an ECDSA algorithm and a key of a curve"""
    S.random_policy("stream")
    k = keys.ec(crv, 0)
    fit = sigs.CRV[alg] == crv
    if what == "sign":
        r = S.attempt(JWS(b"message", alg=alg).sign_compact, [k])
        S.check(r.ok == fit, "signed exactly if the curve fits", got=r.kind)
    else:
        S.model_ec()
        sig = S.bytes("sig", sigs.size(alg))
        msg = ref.tok(ref.jdump({"alg": alg}), b"message")
        r = S.attempt(JWS().verify_compact, msg + b"." + ref.b64u(sig),
                      keys=[k])
        ok = sigs.valid(S, alg, 0, msg, sig) if fit else False
        S.check(S.iff(r.ok, ok), "accepted exactly if valid and the curve "
                "fits")
    S.reach("used" if r.ok else "refused")


ANY = ("every key id of 1 character (or up to 3), use of 3 and algorithm "
       "name of the right length, each present or not")


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, reach, weight=5, **k):
        for opt in (False, True):
            if opt and not big and k.get("n", 0) > 1 and \
                    k.get("demand") == "no":
                continue
            out.append(Case(name + ("-O" if opt else ""), fn, k, reach=reach,
                            weight=weight, optimize=opt,
                            bounds=ANY))
    AR = ("accepted", "refused")
    for demand in ("no", "token", "object"):
        for how in ("list", "alone"):
            for which in ("kua",) + (("K",) if demand != "no" else ()):
                add("verify-%s-%s-%s" % (which, demand, how), verify, AR,
                    alg="HS256", n=1, which=which, demand=demand, signer=0,
                    how=how)
                add("decrypt-%s-%s-%s" % (which, demand, how), decrypt, AR,
                    alg="A128KW", enc="A128CBC-HS256", n=1, which=which,
                    demand=demand, receiver=0, how=how)
        for which in ("k", "u", "a"):
            if demand == "no" and which == "k":
                continue
            for signer in (0, 1):
                add("verify-%s-%s-%d" % (which, demand, signer), verify,
                    AR, alg="HS384", n=2, which=which, demand=demand,
                    signer=signer, how=("KEYS", "tuple")[signer])
                add("decrypt-%s-%s-%d" % (which, demand, signer), decrypt,
                    AR, alg="A256KW", enc="A256GCM", n=2,
                    which=which, demand=demand, receiver=signer,
                    how=("list", "KEYS")[signer])
    for demand in ("no", "object", "json"):
        for how in ("list", "alone"):
            for which in ("kua",) + (("K",) if demand != "no" else ()):
                add("sign-%s-%s-%s" % (which, demand, how), sign,
                    ("signed", "refused"), alg="HS256", n=1, which=which,
                    demand=demand, how=how)
        for which in ("k", "u", "a"):
            add("sign-%s-%s" % (which, demand), sign,
                ("signed",) + (("refused",) if demand != "no" or
                               which != "k" else ()),
                alg="HS512", n=2, which=which, demand=demand, how="KEYS")
    for demand in ("no", "object"):
        for how in ("list", "alone"):
            for which in ("kua",) + (("K",) if demand != "no" else ()):
                add("encrypt-%s-%s-%s" % (which, demand, how), encrypt,
                    ("encrypted", "refused"), alg="A128KW",
                    enc="A128CBC-HS256", n=1, which=which, demand=demand,
                    how=how)
        for which in ("k", "u", "a"):
            for alg in ("A192KW", "RSA-OAEP", "ECDH-ES"):
                add("encrypt-%s-%s-%s" % (alg, which, demand), encrypt,
                    ("encrypted",) + (("refused",) if demand != "no" or
                                      which != "k" else ()),
                    alg=alg, enc="A128CBC-HS256", n=2, which=which,
                    demand=demand, how="tuple")
    for alg in ("RSA-OAEP", "RSA1_5", "ECDH-ES"):
        for which in ("u", "a"):
            add("decrypt-%s-%s" % (alg, which), decrypt, AR, alg=alg,
                enc="A128CBC-HS256", n=1, which=which, demand="no",
                receiver=0, how="list")
    for d in ("no", "object"):
        add("verify-none-%s" % d, verify, ("refused",), alg="HS256", n=0,
            which="", demand=d, signer=0, how="list")
    if big:
        for which in ("k", "u", "a", "ku"):
            add("verify-3-%s" % which, verify, AR, alg="HS256", n=3,
                which=which, demand="token", signer=2, how="list")
            add("sign-3-%s" % which, sign, ("signed", "refused"),
                alg="HS256", n=3, which=which, demand="object", how="list")
            add("decrypt-3-%s" % which, decrypt, AR, alg="A192KW",
                enc="A192GCM", n=3, which=which, demand="object", receiver=1,
                how="list")
            add("encrypt-3-%s" % which, encrypt, ("encrypted", "refused"),
                alg="A192KW", enc="A192CBC-HS384", n=3, which=which,
                demand="object", how="list")
    for alg in sigs.ES:
        for crv in sorted(keys.EC_D):
            for what in ("sign", "verify"):
                out.append(Case("curve-%s-%s-%s" % (what, alg, crv), curve,
                                {"alg": alg, "crv": crv, "what": what},
                                reach=("used",) if sigs.CRV[alg] == crv
                                else ("refused",), bounds="one key of the "
                                "curve, every signature"))
    return out
