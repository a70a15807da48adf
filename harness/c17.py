"""C17 a changed or foreign encrypted token is refused."""
import json
from jwkest.jwe import JWE
from jwkest.jwe import factory
from jwkest.jwk import SYMKey
from vlib.api import Case
from harness import jwes, keys, ref

keyring = keys.ring
ASSUMPTIONS = ["authentication tags, wrapped keys and RSA ciphertexts that "
               "the change makes valid by accident for an independent "
               "receiver (a forgery of the primitive) are left out; AES, "
               "hashes, HMAC and RSA on symbolic octets are uninterpreted "
               "functions, GHASH is exact"]
OUTSIDE = ["headers changed in more than one octet other than the member "
           "changes tried; changes of the base64url text that stand for the "
           "same octets of a part; ephemeral keys other than those tried"]
MSG = b"attack at dawn, 17 men"
KEYNAMES = ["header", "key", "iv", "ciphertext", "tag"]


def original(S, alg, enc, crv, who="own"):
    """parts of a valid token, made by this library or independently"""
    S.random_policy("stream")
    if who == "ref" or alg in jwes.RSA:
        return jwes.make(alg, enc, MSG, 0, crv=crv, apu=b"Alice",
                         apv=b"Bob") if alg in jwes.EC else \
            jwes.make(alg, enc, MSG, 0, fixed=True)
    tok = JWE(MSG, alg=alg, enc=enc).encrypt([jwes.key(alg, 0, False, crv)])
    return [ref.unb64(p) for p in tok.encode("ascii").split(b".")]


def no_forgery(S, parts, crv="P-256"):
    """leave out what an independent receiver would take"""
    h = S.attempt(lambda: json.loads(parts[0].decode("utf-8")))
    if not h.ok or not isinstance(h.value, dict):
        return
    h = h.value
    a, e = h.get("alg"), h.get("enc")
    for x, names in ((a, jwes.ALGS), (e, jwes.ENCS)):
        if not isinstance(x, str):
            return
        for n in names:
            if x == n:
                break
        else:
            return
    a = [n for n in jwes.ALGS if n == a][0]
    e = [n for n in jwes.ENCS if n == e][0]
    r = S.attempt(jwes.expected_tag, a, e, h, parts[1:],
                  ref.b64u(parts[0]), 0, crv)
    if r.ok and r.value is not None:
        S.assume(S.neg(S.eq(r.value, parts[4])))


def no_unwrap(S, alg, parts, crv):
    """a changed wrapped key does not unwrap by accident"""
    ek = parts[1]
    if alg in jwes.RSA or alg == "ECDH-ES" or len(ek) < 24 or len(ek) % 8:
        return
    if alg in jwes.KW:
        k = jwes.kek(alg, 0)
    else:
        h = json.loads(parts[0].decode("utf-8"))
        e = h["epk"]
        x, y = [int.from_bytes(ref.unb64(e[n].encode("ascii")), "big")
                for n in "xy"]
        k = jwes.agreed(alg, None, crv, x, y, keys.EC_D[crv][0],
                        *[ref.unb64(h[n].encode("ascii"))
                          for n in ("apu", "apv")])
    a, cek = jwes.ref_unwrap(k, ek)
    S.assume(int.from_bytes(a, "big") != int.from_bytes(jwes.A6, "big"))


def receive(S, how, raw, ks, **kw):
    if how == "factory":
        return S.attempt(lambda: factory(raw).decrypt(keys=ks, **kw))
    if how == "object":
        return S.attempt(JWE(alg="RSA-OAEP", enc="A128GCM").decrypt, raw, ks,
                         **kw)
    return S.attempt(JWE().decrypt, raw, ks, **kw)


def refused(S, parts, alg, crv, how="new", **kw):
    no_forgery(S, parts, crv)
    r = receive(S, how, ref.tok(*parts), [jwes.key(alg, 0, True, crv)], **kw)
    S.check(not r.ok, "refused", got=r.value if r.ok else r.kind)
    S.reach("refused")


def accepted(S, parts, alg, crv, how="new"):
    r = receive(S, how, ref.tok(*parts), [jwes.key(alg, 0, True, crv)])
    S.check(r.ok and S.truth(S.eq(r.value, MSG)), "unchanged is accepted",
            got=r.kind)


def changed(S, alg, enc, crv, part, how, who="own"):
    """any other octets of the same length"""
    parts = original(S, alg, enc, crv, who)
    accepted(S, parts, alg, crv, how)
    new = S.bytes("new", len(parts[part]))
    S.assume(S.neg(S.eq(new, parts[part])))
    parts[part] = new
    if part == 1:
        no_unwrap(S, alg, parts, crv)
    refused(S, parts, alg, crv, how)


def resized(S, alg, enc, crv, part, how, who="own"):
    """any octets of another length, or cut off or extended at either end"""
    parts = original(S, alg, enc, crv, who)
    p = parts[part]
    n = len(p)
    ops = ["any", "front", "back"] if part != 0 else ["front", "back"]
    op = S.choose("op", ops)
    if op == "any":
        sizes = sorted(set([0, 1, 7, 8, 12, 16, 24, n - 8, n - 1, n + 1,
                            n + 8, n + 16]) - {n, -1, -8})
        sizes = [s for s in sizes if 0 <= s]
        parts[part] = S.bytes("new", S.choose("size", sizes))
    elif op == "front":
        k = S.choose("cut", list(range(1, min(n, 17) + 1)) +
                     ([-1] if part == 0 else [-1, -2, -8]))
        parts[part] = p[k:] if k > 0 else S.bytes("more", -k) + p
    else:
        k = S.choose("cut", list(range(1, min(n, 17) + 1)) +
                     ([-1, -2] if part == 0 else [-1, -2, -8]))
        parts[part] = p[:n - k] if k > 0 else p + S.bytes("more", -k)
    if part == 1:
        no_unwrap(S, alg, parts, crv)
    refused(S, parts, alg, crv, how)


def two(S, alg, enc, crv, a, b):
    """two parts changed at once, in their length or not"""
    parts = original(S, alg, enc, crv)
    for x in (a, b):
        d = S.choose("len%d" % x, [0, -1, 1])
        new = S.bytes("new%d" % x, len(parts[x]) + d)
        if d == 0:
            S.assume(S.neg(S.eq(new, parts[x])))
        parts[x] = new
    refused(S, parts, alg, crv)


def header_octet(S, alg, enc, crv, lo, step, who="own"):
    """one octet of the header replaced, added or left out"""
    parts = original(S, alg, enc, crv, who)
    h = parts[0]
    p = S.choose("at", list(range(len(h)))[lo::step])
    op = S.choose("op", ["replace", "insert", "delete"])
    if op == "delete":
        parts[0] = h[:p] + h[p + 1:]
    else:
        c = S.bytes("octet", 1)
        if op == "replace":
            S.assume(S.neg(S.eq(c, h[p:p + 1])))
        parts[0] = h[:p] + c + h[p + (op == "replace"):]
    refused(S, parts, alg, crv)


def header_member(S, alg, enc, crv):
    """members added, left out, or replaced"""
    parts = original(S, alg, enc, crv)
    h = json.loads(parts[0].decode("utf-8"))
    ops = ["add", "alg", "enc", "zip", "order", "space"] + \
        ["del-" + n for n in sorted(h)]
    op = S.choose("op", ops)
    if op == "add":
        h[S.choose("name", ["kid", "typ", "x", "cek", "apu2"])] = \
            S.text("v", 2, "abcxyz019_-")
    elif op == "zip":
        h["zip"] = S.choose("v", ["DEF", "", "XYZ"])
    elif op in ("alg", "enc"):
        h[op] = S.choose("v", [v for v in (jwes.ALGS if op == "alg" else
                                           jwes.ENCS) if v != h[op]] +
                         ["", None, "none", "dir"])
    elif op == "order":
        h = dict(reversed(list(h.items())))
    elif op != "space":
        del h[op[4:]]
    h = json.dumps(h).encode("utf-8")
    if op == "space":
        h = S.choose("v", [h + b" ", b"\n" + h, h.replace(b" ", b"")])
    S.assume(h != parts[0])
    parts[0] = h
    refused(S, parts, alg, crv, S.choose("how", ["new", "factory"]))


def party(S, alg, enc, crv):
    """other party information, or another ephemeral key"""
    parts = original(S, alg, enc, crv, S.choose("who", ["own", "ref"]))
    h = json.loads(parts[0].decode("utf-8"))
    op = S.choose("op", ["apu", "apv", "epk", "swap", "x", "y", "noepk"])
    if op in ("apu", "apv"):
        h[op] = ref.b64u(S.bytes("party", S.choose("n", [0, 1, 16]))
                         ).decode("ascii")
    elif op == "swap":
        h["apu"], h["apv"] = h["apv"], h["apu"]
    elif op == "epk":
        h["epk"] = jwes.epk_json(S.choose("crv", sorted(jwes.COORD)), 99)
    elif op == "noepk":
        h["epk"] = S.choose("v", [None, {}, "", h["epk"]["x"], [h["epk"]]])
    else:
        v = ref.unb64(h["epk"][op].encode("ascii"))
        v = S.choose("v", [v[:-1] + bytes([v[-1] ^ 1]), b"\0" + v, v[1:],
                           bytes(len(v)), b""])
        h["epk"][op] = ref.b64u(v).decode("ascii")
    h = json.dumps(h).encode("utf-8")
    S.assume(S.neg(S.eq(h, parts[0])))
    parts[0] = h
    refused(S, parts, alg, crv)


def count(S, alg, enc, crv, n):
    """another number of parts"""
    parts = original(S, alg, enc, crv)
    how = S.choose("how", ["new", "factory", "object"])
    op = S.choose("op", ["left", "cut", "any"])
    if op == "left":
        drop = S.choose("drop", 5) if n < 5 else 0
        seq = (parts * 2)[drop:drop + n]
    elif op == "cut":
        seq = parts[:n] + [b""] * (n - 5)
    else:
        at = S.choose("at", 6)
        seq = (parts[:at] + [S.bytes("extra%d" % j, 3)
                             for j in range(max(0, n - 5))] + parts[at:])[:n]
        if n < 5:
            seq = seq[:-1] + [S.bytes("last", 4)] if n else []
    raw = ref.tok(*seq) if seq else b""
    r = receive(S, how, raw, [jwes.key(alg, 0, True, crv)])
    S.check(not r.ok, "refused", got=r.value if r.ok else r.kind)
    S.reach("refused")


def wrong_key(S, alg, enc, crv):
    """keys that are not the token's"""
    parts = original(S, alg, enc, crv, S.choose("who", ["own", "ref"]))
    k = S.choose("key", ["other", "secret", "two", "type", "curve", "none"])
    if k == "other":
        ks = [jwes.key(alg, 1, True, crv)]
    elif k == "two":
        ks = [jwes.key(alg, 1, True, crv),
              jwes.key(alg, 2 if alg not in jwes.EC else 1, True, crv)]
    elif k == "type":
        ks = [keys.rsa(1), SYMKey(key=jwes.secret(alg, 0)),
              keys.ec("P-256", 0)]
        ks = [x for x in ks if x.kty != jwes.key(alg, 0, True, crv).kty]
    elif k == "curve":
        ks = [jwes.key(alg, 0, True, c) for c in sorted(jwes.COORD)
              if c != crv]
        S.assume(alg in jwes.EC)
    elif k == "none":
        ks = []
    else:
        S.assume(alg in jwes.KW)
        s = S.bytes("secret", S.choose("n", [1, 16, 23, 24]))
        S.assume(S.neg(S.eq(s, jwes.secret(alg, 0))))
        ks = [SYMKey(key=s)]
        import hashlib
        kek = hashlib.sha256(s).digest()[:int(alg[1:4]) // 8]
        a, cek = jwes.ref_unwrap(kek, parts[1])
        S.assume(S.neg(S.eq(a, jwes.A6)))
    r = receive(S, S.choose("how", ["new", "factory"]), ref.tok(*parts), ks)
    S.check(not r.ok, "refused", got=r.value if r.ok else r.kind)
    S.reach("refused")


def demanded(S, alg, enc, crv):
    """another algorithm than the one in the header is demanded"""
    parts = original(S, alg, enc, crv)
    if S.choose("which", ["known", "any"]) == "known":
        a = S.choose("alg", [x for x in jwes.ALGS if x != alg] +
                     ["none", alg.lower(), alg + " ", "dir", enc])
    else:
        a = S.text("alg", S.choose("n", [1, 3, len(alg)]), range(0x20, 0x7f))
        S.assume(S.neg(S.eq(a, alg)))
    r = receive(S, S.choose("how", ["new", "factory", "object"]),
                ref.tok(*parts), [jwes.key(alg, 0, True, crv)], alg=a)
    S.check(not r.ok, "refused", got=r.value if r.ok else r.kind)
    ok = receive(S, "new", ref.tok(*parts), [jwes.key(alg, 0, True, crv)],
                 alg=alg)
    S.check(ok.ok and S.truth(S.eq(ok.value, MSG)), "the right one is fine",
            got=ok.kind)
    S.reach("refused")


def given_cek(S, alg, enc, crv, part):
    """the content key is given by the caller: changed parts, or another
    content key"""
    S.random_policy("stream")
    cek = bytes((17 * j + 3) & 255 for j in range(jwes.CEKLEN[enc]))
    parts = jwes.make(alg, enc, MSG, 0, cek=cek, crv=crv, fixed=True)
    if part == "cek":
        parts[1] = b"\x01" * len(parts[1])
        cek = S.bytes("cek", len(cek)) if enc.endswith("512") else \
            S.choose("cek", [bytes(len(cek)), cek[:-1] + b"!", cek[:-1],
                             cek + cek, cek[:16] + bytes(len(cek) - 16),
                             cek[:1]])
        S.assume(S.neg(S.eq(cek, parts[1])))
        S.assume(S.neg(S.eq(cek, bytes((17 * j + 3) & 255 for j in range(
            jwes.CEKLEN[enc])))))
    else:
        n = len(parts[part]) + S.choose("d", [0, -1, 1])
        new = S.bytes("new", n)
        S.assume(S.neg(S.eq(new, parts[part])))
        parts[part] = new
    aad = ref.b64u(parts[0])
    if len(cek) == jwes.CEKLEN[enc] and len(parts[2]) == jwes.ivlen(enc):
        if enc.endswith("GCM"):
            t = jwes.gcm_tag(cek, parts[2], aad, parts[3])
        else:
            t = jwes.cbc_tag(cek, parts[2], aad, parts[3])
        S.assume(S.neg(S.eq(t, parts[4])))
    if part == "cek":
        ks = []
    else:
        ks = S.choose("keys", [0, 1])
        ks = [jwes.key(alg, 1, True, crv)] if ks else []
    r = receive(S, "new", ref.tok(*parts), ks, cek=cek)
    S.check(not r.ok, "refused", got=r.value if r.ok else r.kind)
    S.reach("refused")


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, weight=5, bounds="", **k):
        out.append(Case(name, fn, k, reach=("refused",), weight=weight,
                        bounds=bounds))
    hows = ("new", "factory", "object")
    for a, alg in enumerate(jwes.ALGS):
        for j, enc in enumerate(jwes.ENCS):
            crv = sorted(jwes.COORD)[(a + j) % 3] if alg in jwes.EC else \
                "P-256"
            for part in (1, 2, 3, 4):
                if not big and part in (1,) and j not in (a % 3,
                                                          a % 3 + 3):
                    continue
                if not big and part > 1 and (j + a + part) % 3:
                    continue
                if alg in jwes.RSA and part == 1 and enc.endswith("GCM"):
                    continue    # GHASH under an unknown key
                for fn in (changed, resized):
                    if fn is changed and alg == "ECDH-ES" and part == 1:
                        continue    # empty
                    add("%s-%s-%s-%s" % (fn.__name__, alg, enc,
                                         KEYNAMES[part]), fn, alg=alg,
                        enc=enc, crv=crv, part=part,
                        how=hows[(a + j + part) % 3],
                        who="ref" if big and (a + j) % 2 else "own",
                        bounds="a message of 22 octets, one sample of random "
                        "values, any octets in place of the part")
    for a, alg in enumerate(jwes.ALGS):
        crv = sorted(jwes.COORD)[a % 3] if alg in jwes.EC else "P-256"
        for enc in ("A128CBC-HS256", "A128GCM") if not big else jwes.ENCS:
            add("member-%s-%s" % (alg, enc), header_member, alg=alg, enc=enc,
                crv=crv)
            add("wrong-key-%s-%s" % (alg, enc), wrong_key, alg=alg,
                enc=enc if alg not in jwes.KW else enc, crv=crv, weight=8)
        add("demanded-" + alg, demanded, alg=alg, enc="A128CBC-HS256",
            crv=crv)
        for n in (0, 1, 2, 3, 4, 6, 7):
            if big or (n + a) % 3 == 0:
                add("count-%d-%s" % (n, alg), count, alg=alg,
                    enc="A128CBC-HS256", crv=crv, n=n)
        if alg in jwes.EC:
            add("party-" + alg, party, alg=alg, enc="A192CBC-HS384", crv=crv,
                weight=10)
        else:
            for part in (2, 3, 4, "cek"):
                for enc in ("A128GCM", "A256CBC-HS512"):
                    add("given-%s-%s-%s" % (alg, enc, part), given_cek,
                        alg=alg, enc=enc, crv=crv, part=part)
    for alg, enc in (("A128KW", "A128GCM"), ("RSA-OAEP", "A128CBC-HS256")) \
            if not big else [(a, e) for a in ("RSA1_5", "RSA-OAEP", "A256KW",
                                              "ECDH-ES+A128KW")
                             for e in ("A128GCM", "A128CBC-HS256")]:
        step = 4 if alg[0] != "E" else 20
        for lo in range(step):
            add("header-%s-%s-%d" % (alg, enc, lo), header_octet, alg=alg,
                enc=enc, crv="P-256", lo=lo, step=step, weight=15,
                bounds="any one octet replaced, added or left out")
        add("resized-header-%s-%s" % (alg, enc), resized, alg=alg, enc=enc,
            crv="P-256", part=0, how="new", weight=10)
    for alg, enc in (("A128KW", "A128CBC-HS256"), ("RSA-OAEP", "A256GCM"),
                     ("ECDH-ES", "A192CBC-HS384")):
        for x in range(2, 5):
            for y in range(x + 1, 5):
                add("two-%s-%d%d" % (alg, x, y), two, alg=alg, enc=enc,
                    crv="P-256", a=x, b=y)
    return out
