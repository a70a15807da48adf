"""C08 JSON-serialised signatures all count."""
import json
from jwkest.jws import JWS
from vlib.api import Case
from harness import ref, sigs, keys

keyring = keys.ring
ASSUMPTIONS = ["SHA-2 and HMAC are uninterpreted functions, so is the "
               "RSASSA-PKCS1-v1_5 signature of a digest under a key; whether "
               "octets are a PSS or ECDSA signature of a digest is an "
               "uninterpreted relation"]
OUTSIDE = ["more than three signatures; payloads longer than stated"]
PLAIN = [c for c in range(0x20, 0x7f) if c not in (0x22, 0x5c)]
LETTERS = [ord(c) for c in "ghijklmopqrsuvwxyz"]


def message(S, n):
    return S.text("first", 1, LETTERS) + S.text("rest", n - 1, PLAIN)


def pool(algs, private=False):
    """one key for each algorithm, number of the position"""
    return [sigs.key(a, i % 2, private=private, kid="k%d" % i)
            for i, a in enumerate(algs)]


def sign(S, algs, flatten, extra, kind):
    S.model_ec()
    S.random_policy("stream")
    m = message(S, 4)
    heads = []
    for i, a in enumerate(algs):
        prot = {"alg": a, "kid": "k%d" % i}
        un = None
        if "p" in extra:
            prot["x%d" % i] = S.text("x%d" % i, 2, PLAIN)
        if "u" in extra:
            un = {"y": S.text("y%d" % i, 2, PLAIN), "z": [1, None]}
        heads.append((prot, un))
    given = [(dict(p), dict(u) if u else u) for p, u in heads]
    msg = {"text": m, "octets": m.encode("ascii"), "object": {"a": m}}[kind]
    out = JWS(msg, alg="HS256").sign_json(keys=pool(algs, True),
                                          headers=given, flatten=flatten)
    o = json.loads(out)
    want = ref.jdump({"a": m}) if kind == "object" else m.encode("ascii")
    S.check(S.eq(o["payload"], ref.b64u(want).decode("ascii")), "payload")
    if flatten and len(algs) == 1:
        entries = [o]
        S.check("signatures" not in o, "flattened")
        names = ["payload", "protected", "signature"]
    else:
        entries = o["signatures"]
        S.check(sorted(o) == ["payload", "signatures"], "members")
        names = ["protected", "signature"]
    S.check(len(entries) == len(algs), "one signature per header pair")
    for i, (e, (prot, un)) in enumerate(zip(entries, heads)):
        S.check(sorted(e) == sorted(names + (["header"] if un else [])),
                "members of a signature", got=sorted(e))
        h = e["protected"].encode("ascii")
        S.check(S.eq(json.loads(ref.unb64(h).decode("utf-8")), prot),
                "protected header")
        if un:
            S.check(S.eq(e["header"], un), "unprotected header")
        S.check(sigs.valid(S, algs[i], i % 2, h + b"." +
                           o["payload"].encode("ascii"),
                           ref.unb64(e["signature"].encode("ascii"))),
                "signature over its own header and the payload")
    r = JWS().verify_json(out, pool(algs))
    S.check(S.eq(r, {"a": m} if kind == "object" else m),
            "verifies to the payload", got=r)
    S.observe("payload", o["payload"])
    S.reach("signed")


def default(S, alg, flatten):
    """no headers given: one signature with the object's algorithm"""
    S.model_ec()
    S.random_policy("stream")
    m = message(S, 5)
    k = sigs.key(alg, 0)
    out = JWS(m, alg=alg).sign_json(keys=[k], flatten=flatten)
    o = json.loads(out)
    e = o if flatten else o["signatures"][0]
    S.check(flatten or len(o["signatures"]) == 1, "one signature")
    h = e["protected"].encode("ascii")
    S.check(S.eq(json.loads(ref.unb64(h).decode("ascii")), {"alg": alg}),
            "protected header")
    S.check(sigs.valid(S, alg, 0, h + b"." + o["payload"].encode("ascii"),
                       ref.unb64(e["signature"].encode("ascii"))),
            "signature")
    r = JWS(alg=alg).verify_json(out, [sigs.key(alg, 0, private=False)])
    S.check(S.eq(r, m), "verifies to the payload")
    S.reach("signed")


def entry(S, alg, i, sig, place):
    prot = {"alg": alg}
    un = {}
    if place == "mixed":
        place = "no" if i % 2 else "header"
    if place == "protected":
        prot["kid"] = "k%d" % i
    elif place == "header":
        un["kid"] = "k%d" % i
    elif place == "jwk":
        un["kid"] = "k%d" % i
        un["jwk"] = sigs.key("HS256", 9).serialize(True)
    h = ref.b64u(ref.jdump(prot))
    e = {"protected": h.decode("ascii"),
         "signature": ref.b64u(sig).decode("ascii")}
    if un:
        e["header"] = un
    return h, e


def fitting(algs, i, place):
    """numbers of the keys that fit entry i"""
    if place == "mixed":
        place = "no" if i % 2 else "header"
    if place != "no":
        return [i % 2]
    a = algs[i]
    return sorted(set(j % 2 for j, b in enumerate(algs)
                      if a == b or a[:2] != "ES" and
                      sigs.KTY[a[:2]] == sigs.KTY[b[:2]]))


def verify(S, algs, flat, place, n):
    """any signatures, any payload"""
    S.model_ec()
    m = message(S, n)
    pay = ref.b64u(m.encode("ascii"))
    es, ok = [], []
    for i, a in enumerate(algs):
        sig = S.bytes("sig%d" % i, sigs.size(a))
        h, e = entry(S, a, i, sig, place)
        es.append(e)
        ok.append((a, i, h + b"." + pay, sig))
    o = {"payload": pay.decode("ascii")}
    if flat:
        o.update(es[0])
    else:
        o["signatures"] = es
    r = S.attempt(JWS().verify_json, json.dumps(o), pool(algs))
    ok = [S.any(*[sigs.valid(S, a, j, x, s) for j in
                  fitting(algs, i, place)]) for a, i, x, s in ok]
    S.check(S.iff(r.ok, S.all(True, *ok)), "accepted exactly if all are "
            "valid", got=r.kind)
    S.observe("kind", r.kind)
    if r.ok:
        S.check(S.eq(r.value, m), "payload")
        S.reach("accepted")
    else:
        S.reach("refused")


def wrong_key(S, algs, bad):
    """all right but one, which is right under a key not given"""
    S.model_ec()
    pay = ref.b64u(b"message")
    es, ok = [], []
    ks = pool(algs)
    for i, a in enumerate(algs):
        sig = S.bytes("sig%d" % i, sigs.size(a))
        h, e = entry(S, a, i, sig, "no" if i == bad else "protected")
        es.append(e)
        n = i % 2
        if i == bad:
            n = 1 - n
            ks[i] = sigs.key(a, i % 2, private=False)
            S.assume(S.neg(sigs.valid(S, a, i % 2, h + b"." + pay, sig)))
        S.assume(sigs.valid(S, a, n, h + b"." + pay, sig))
    r = S.attempt(JWS().verify_json, json.dumps(
        {"payload": pay.decode("ascii"), "signatures": es}), [ks[i] for i in
                                                              range(len(ks))
                                                              if i == bad or
                                                              algs[i][:2] !=
                                                              algs[bad][:2]])
    S.check(not r.ok, "one bad signature refuses the whole")
    S.reach("refused")


def named_key(S, flat, place, algs, owner):
    """the key id that is named, in either header, decides the key"""
    S.model_ec()
    pay = ref.b64u(b"message")
    kid = S.text("kid", 2, [ord(c) for c in "ak01"])
    es, good = [], []
    for i, a in enumerate(algs):
        prot, un = {"alg": a}, {}
        if place == "protected":
            prot["kid"] = kid
        elif place == "header":
            un["kid"] = kid
        elif place == "header+":
            un = {"x": 1, "kid": kid, "y": None}
        h = ref.b64u(ref.jdump(prot))
        sig = S.bytes("sig%d" % i, sigs.size(a))
        e = {"protected": h.decode("ascii"),
             "signature": ref.b64u(sig).decode("ascii")}
        if un:
            e["header"] = un
        es.append(e)
        S.assume(sigs.valid(S, a, owner, h + b"." + pay, sig))
        S.assume(S.neg(sigs.valid(S, a, 1 - owner, h + b"." + pay, sig)))
    o = {"payload": pay.decode("ascii")}
    if flat:
        o.update(es[0])
    else:
        o["signatures"] = es
    ks = [sigs.key(a, j, private=False, kid="k%d" % j) for a in
          sorted(set(algs)) for j in (0, 1)]
    r = S.attempt(JWS().verify_json, json.dumps(o), ks)
    S.check(S.iff(r.ok, S.eq(kid, "k%d" % owner)),
            "accepted exactly with the key that is named", got=r.kind)
    if r.ok:
        S.check(S.eq(r.value, "message"), "payload")
        S.reach("accepted")
    else:
        S.reach("refused")


def twisted(S, what):
    """other JSON texts around one right signature"""
    pay = ref.b64u(b"message").decode("ascii")
    h = ref.b64u(b'{"alg":"HS256"}').decode("ascii")
    n = ref.b64u(b'{"alg":"none"}').decode("ascii")
    from hashlib import sha256
    import hmac
    sig = ref.b64u(hmac.new(b"secret number 0", (h + "." + pay).encode(
        "ascii"), sha256).digest()).decode("ascii")
    good = {"protected": h, "signature": sig}
    x = S.text("x", 2, [ord(c) for c in "ABCab_-019"])
    o = {"payload": pay}
    if what == "empty":
        o["signatures"] = []
    elif what == "nothing":
        pass
    elif what == "none":
        o["signatures"] = [{"protected": n, "signature": ""}]
    elif what == "none-too":
        o["signatures"] = [good, {"protected": n, "signature": x}]
    elif what == "none-first":
        o["signatures"] = [{"protected": n, "signature": ""}, good]
    elif what == "missing":
        o["signatures"] = [good, {"protected": h}]
    elif what == "payload":
        o = {"payload": pay + x, "signatures": [good]}
    elif what == "payload-first":
        o = {"payload": x + pay[2:], "signatures": [good]}
        S.assume(S.neg(S.eq(x, pay[:2])))
    elif what == "protected":
        o["signatures"] = [{"protected": h + x, "signature": sig}]
    elif what == "unprotected":
        o["signatures"] = [{"header": {"alg": "HS256"}, "signature": sig}]
    elif what == "two-places":
        # a bad one in the list, a right one at the top
        o.update(good)
        o["signatures"] = [{"protected": h, "signature": x}]
    elif what == "no-payload":
        o = {"signatures": [good]}
    elif what == "null":
        o["signatures"] = None
        o.update({"protected": h, "signature": x})
    elif what == "short":
        o["signatures"] = [{"protected": h, "signature": sig[:-2]}]
    elif what == "long":
        o["signatures"] = [{"protected": h, "signature": sig + x}]
    elif what == "no-kid":
        o["signatures"] = [good, dict(good, header={"kid": x})]
    else:
        o.update({"protected": h, "signature": x})
    if what.startswith("p"):
        # another text with the same MAC would be a collision
        e = o["signatures"][0]
        S.assume(S.neg(sigs.valid(
            S, "HS256", 0, (e["protected"] + "." + o["payload"]).encode(
                "ascii"), ref.unb64(sig.encode("ascii")))))
    r = S.attempt(JWS().verify_json, json.dumps(o), [sigs.key("HS256", 0)])
    S.check(not r.ok, "refused", value=r.value if r.ok else None)
    S.observe("kind", r.kind)
    S.reach("refused")


TWISTS = ["empty", "nothing", "none", "none-too", "none-first", "missing",
          "payload", "payload-first", "protected", "unprotected",
          "two-places", "no-payload", "null", "short", "long", "no-kid",
          "flat"]


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, reach, weight=5, bounds="", **k):
        out.append(Case(name, fn, k, reach=reach, weight=weight,
                        bounds=bounds))
    mixes = [["HS256"], ["HS256", "HS512"], ["RS256", "HS384", "ES256"],
             ["ES384", "RS512"], ["PS256", "HS256"],
             ["HS256", "HS256", "HS256"], []]
    if big:
        mixes += [[a] for a in sigs.ALGS if a != "HS256"]
        mixes += [["RS256", "RS256", "RS256"], ["ES256", "ES256"],
                  ["PS512", "PS384", "ES512"]]
    for algs in mixes:
        name = "+".join(algs) or "none"
        for flat in (False, True):
            for kind in ("text", "octets", "object"):
                for extra in ("", "pu"):
                    if not algs or kind != "text" and (
                            extra or len(algs) > 2) and not big:
                        continue
                    add("sign-%s-%s-%s-%s" % (name, kind, extra or "plain",
                                              "flat" if flat else "list"),
                        sign, ("signed",), algs=algs, flatten=flat,
                        extra=extra, kind=kind,
                        bounds="every printable message of 4 characters and "
                        "parameter values of 2")
        for flat in (False, True):
            if flat and len(algs) != 1 or not algs:
                continue
            for place in ("no", "protected", "header", "jwk", "mixed"):
                if place == "mixed" and len(algs) < 2:
                    continue
                if place == "no" and len(set(algs)) != len(algs):
                    continue
                add("verify-%s-%s-%s" % (name, place,
                                         "flat" if flat else "list"),
                    verify, ("accepted", "refused"), algs=algs, flat=flat,
                    place=place, n=5, weight=10,
                    bounds="every signature octets, every printable message "
                    "of 5 characters")
        if len(algs) > 1:
            for bad in range(len(algs)):
                add("wrong-key-%s-%d" % (name, bad), wrong_key,
                    ("refused",), algs=algs, bad=bad,
                    bounds="every signature valid under another key")
    for alg in sigs.ALGS:
        for flat in (False, True):
            add("default-%s-%s" % (alg, flat), default, ("signed",),
                alg=alg, flatten=flat, bounds="every printable message of 5 "
                "characters")
    for algs in (["HS256"], ["RS256"], ["ES256"], ["HS384", "HS384"]):
        for flat in (False, True):
            if flat and len(algs) > 1:
                continue
            for place in ("protected", "header", "header+"):
                for owner in (0, 1):
                    add("named-%s-%s-%s-%d" % (
                        "+".join(algs), place, "flat" if flat else "list",
                        owner), named_key, ("accepted", "refused"),
                        algs=algs, flat=flat, place=place, owner=owner,
                        bounds="every key id of two characters of a sample, "
                        "every signature right under one of two keys")
    for t in TWISTS:
        add("twisted-" + t, twisted, ("refused",), what=t,
            bounds="every two base64url characters of a sample")
    return out
