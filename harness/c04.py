"""C04 a signature is accepted only if valid for exactly that token."""
from jwkest.jws import JWS
from vlib.api import Case
from harness import ref, sigs, keys

keyring = keys.ring
ASSUMPTIONS = [
    "SHA-2 and HMAC are uninterpreted functions, so is the RSASSA-PKCS1-v1_5 "
    "signature of a digest under a key; whether octets are a PSS or ECDSA "
    "signature of a digest is an uninterpreted relation (both sides of a "
    "comparison use the same); ECDSA itself is C10"]
OUTSIDE = ["payloads, headers and HMAC keys longer than stated; keys found by "
           "jku, x5u and x5c"]
LETTERS = "ghijklmopqrsuvwxyz"       # no JSON text starts like that
HEAD = {}


def run(S, alg, token, ks, **kw):
    S.model_ec()
    return S.attempt(JWS().verify_compact_verbose, token, keys=ks, **kw)


def one_key(S, alg, n, siglen, ksize):
    """any payload and any signature octets of a length"""
    S.model_ec()
    pay = S.bytes("first", 1, [ord(c) for c in LETTERS]) + \
        S.bytes("payload", n - 1, range(128))
    secret = S.bytes("secret", ksize) if alg[0] == "H" else None
    sig = S.bytes("sig", siglen)
    k = sigs.key(alg, 0, secret, private=False)
    msg = ref.tok(ref.jdump({"alg": alg}), pay)
    r = run(S, alg, msg + b"." + ref.b64u(sig), [k])
    ok = sigs.valid(S, alg, 0, msg, sig, secret)
    S.check(S.implies(r.ok, ok), "accepted only if valid")
    S.check(S.implies(ok, r.ok), "valid signatures are accepted")
    if r.ok:
        S.check(S.eq(r.value["msg"], pay.decode("ascii")), "message")
        S.check(r.value["key"] is k, "key")
    S.observe("ok", r.ok)
    S.reach("accepted" if r.ok else "refused")


def two_keys(S, alg):
    """any signature with two keys given: valid under one of them"""
    S.model_ec()
    sig = S.bytes("sig", sigs.size(alg))
    ks = [sigs.key(alg, i, private=False) for i in (0, 1)]
    msg = ref.tok(ref.jdump({"alg": alg}), b"message")
    r = run(S, alg, msg + b"." + ref.b64u(sig), ks)
    ok = [sigs.valid(S, alg, i, msg, sig) for i in (0, 1)]
    S.check(S.iff(r.ok, S.any(*ok)), "accepted exactly if valid under one")
    if r.ok:
        S.check(S.any(S.all(ok[0], r.value["key"] is ks[0]),
                      S.all(ok[1], r.value["key"] is ks[1])),
                "the key it is valid under")
    S.reach("accepted" if r.ok else "refused")


def other_text(S, alg, part, n):
    """a valid token with any other text in one of its parts"""
    S.model_ec()
    head = ref.jdump({"alg": alg, "x": "00"})
    pay = b"message"
    msg = ref.tok(head, pay)
    sig = S.bytes("sig", sigs.size(alg))
    S.assume(sigs.valid(S, alg, 0, msg, sig))
    new = S.bytes("new", n)
    if part == "header":
        # any value of a header parameter
        S.assume(S.all(*[S.any(*[S.eq(c, x) for x in b"0123456789abcdef"])
                         for c in new]))
        msg2 = ref.tok(b'{"alg":"' + alg.encode() + b'","x":"' + new + b'"}',
                       pay)
    else:
        S.assume(S.all(*[S.any(*[S.eq(c, x) for x in LETTERS.encode()])
                         for c in new]))
        msg2 = ref.tok(head, new)
    r = run(S, alg, msg2 + b"." + ref.b64u(sig),
            [sigs.key(alg, 0, private=False)])
    S.check(S.implies(r.ok, sigs.valid(S, alg, 0, msg2, sig)),
            "accepted only if valid for the new text")
    S.reach("accepted" if r.ok else "refused")


def raw_text(S, where, n):
    """any text of the given number of octets as one part of a token, the
    signature being that of the received text"""
    pay = ref.b64u(b"message")
    head = ref.b64u(ref.jdump({"alg": "HS256"}))
    t = S.bytes("text", n)
    sig = S.bytes("sig", 32)
    if where == "payload":
        pay = t
    elif where == "header":
        head = head[:-n] + t
    msg = head + b"." + pay
    tok = msg + b"." + ref.b64u(sig) + (t if where == "signature" else b"")
    r = run(S, "HS256", tok, [sigs.key("HS256", 0)])
    if where == "signature":
        # trailing characters: only padding is no part of the octets
        S.check(S.implies(r.ok, S.all(*[S.eq(c, 0x3d) for c in t])),
                "text after the signature")
    S.check(S.implies(r.ok, sigs.valid(S, "HS256", 0, msg, sig)),
            "signature over the received text")
    S.reach("accepted" if r.ok else "refused")


def parts(S, k):
    """any other number of parts, signature right for the first two"""
    import hashlib
    import hmac
    alg = "HS256"
    msg = ref.tok(ref.jdump({"alg": alg}), b"message")
    sig = ref.b64u(hmac.new(b"secret number 0", msg,
                            hashlib.sha256).digest())
    x = ref.b64u(S.bytes("extra", 3))
    tok = {1: msg.split(b".")[0], 2: msg, 4: msg + b"." + sig + b"." + x,
           "4b": msg + b"." + x + b"." + sig,
           "4c": x + b"." + msg + b"." + sig,
           5: msg + b"." + sig + b"." + x + b"." + x,
           "4e": msg + b"." + sig + b".", "3e": msg + b".",
           "2s": msg.split(b".")[0] + b"." + sig}[k]
    r = S.attempt(JWS().verify_compact, tok, keys=[sigs.key(alg, 0)])
    S.check(not r.ok, "refused", value=r.value if r.ok else None)
    r = S.attempt(JWS().verify_compact, msg + b"." + sig,
                  keys=[sigs.key(alg, 0)])
    S.check(r.ok and r.value == "message", "the token itself")
    S.reach("refused")


def wrong_length(S, alg, n):
    """no signature of another length"""
    sig = S.bytes("sig", n)
    msg = ref.tok(ref.jdump({"alg": alg}), b"message")
    r = run(S, alg, msg + b"." + ref.b64u(sig),
            [sigs.key(alg, 0, private=False)])
    S.check(not r.ok, "refused")
    S.reach("refused")


def genuine(S, alg):
    """signatures of Cryptodome over fixed texts, changed in chosen ways, on
    the unabstracted code"""
    import hashlib
    import hmac
    i = S.choose("message", [0, 1, 2])
    msg = ref.tok(ref.jdump({"alg": alg}),
                  [b"message", b"", b"m" * 200][i])
    t = alg[:2]
    h, H = sigs.HASH[alg[2:]]
    if t == "HS":
        sig = hmac.new(b"secret number 0", msg, h).digest()
    elif t == "RS":
        from Cryptodome.Signature import pkcs1_15
        sig = pkcs1_15.new(keys.rsa_raw(1)).sign(H.new(msg))
    elif t == "PS":
        from Cryptodome.Signature import pss
        sig = pss.new(keys.rsa_raw(1), rand_func=lambda n: b"\x5a" * n).sign(
            H.new(msg))
    else:
        sig = es_sign(sigs.CRV[alg], h(msg).digest())
    n = len(sig)
    how = S.choose("how", ["none", "first", "last", "middle", "cut", "front",
                           "long", "zero", "ones", "swap", "empty", "twice",
                           "shift", "other key", "other payload",
                           "other header"])
    k = sigs.key(alg, 0, private=False)
    if how == "first":
        sig = bytes([sig[0] ^ 1]) + sig[1:]
    elif how == "last":
        sig = sig[:-1] + bytes([sig[-1] ^ 0x80])
    elif how == "middle":
        sig = sig[:n // 2] + bytes([sig[n // 2] ^ 0x10]) + sig[n // 2 + 1:]
    elif how == "cut":
        sig = sig[:-1]
    elif how == "front":
        sig = sig[1:]
    elif how == "long":
        sig = sig + b"\0"
    elif how == "zero":
        sig = bytes(n)
    elif how == "ones":
        sig = b"\xff" * n
    elif how == "swap":
        sig = sig[n // 2:] + sig[:n // 2]
    elif how == "empty":
        sig = b""
    elif how == "twice":
        sig = sig + sig
    elif how == "shift":
        sig = b"\0" + sig[:-1]
    elif how == "other key":
        k = sigs.key(alg, 1, private=False)
    elif how == "other payload":
        msg = ref.tok(ref.jdump({"alg": alg}), b"massage")
    elif how == "other header":
        msg = ref.b64u(b'{"alg": "' + alg.encode() + b'"}') + b"." + \
            msg.split(b".")[1]
    r = S.attempt(JWS().verify_compact, msg + b"." + ref.b64u(sig), keys=[k])
    S.check(r.ok == (how == "none"), "accepted exactly if unchanged")
    S.reach("accepted" if r.ok else "refused")


def es_sign(crv, digest):
    from Cryptodome.PublicKey import ECC
    N = int(ECC._curves[crv].order)
    n = (N.bit_length() + 7) // 8
    h = int.from_bytes(digest, "big") >> max(
        0, 8 * len(digest) - N.bit_length())
    k = 0x1234567890abcdef1234567
    r = int(ECC.construct(curve=crv, d=k).pointQ.x) % N
    s = pow(k, -1, N) * (h + r * keys.EC_D[crv][0]) % N
    return r.to_bytes(n, "big") + s.to_bytes(n, "big")


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, reach=("accepted", "refused"), weight=5, bounds="",
            **k):
        out.append(Case(name, fn, k, reach=reach, weight=weight,
                        bounds=bounds))
    for alg in sigs.ALGS:
        for n in (1, 3, 8) + ((17, 64) if big else ()):
            add("one-%s-%d" % (alg, n), one_key, alg=alg, n=n,
                siglen=sigs.size(alg), ksize=16, weight=10,
                bounds="every ASCII payload of %d octets, every signature "
                "(and HMAC key of 16 octets)" % n)
        add("two-" + alg, two_keys, alg=alg, bounds="every signature")
        for part in ("header", "payload"):
            add("other-%s-%s" % (part, alg), other_text,
                ("refused", "accepted"), alg=alg, part=part,
                n=2 if part == "header" else 7,
                bounds="every signature valid for another text")
        sz = sigs.size(alg)
        for n in sorted({0, 1, sz // 2, sz - 1, sz + 1, 2 * sz}):
            add("length-%s-%d" % (alg, n), wrong_length, ("refused",),
                alg=alg, n=n, weight=1,
                bounds="every signature of %d octets" % n)
        add("genuine-" + alg, genuine, alg=alg, weight=3,
            bounds="listed changes of signatures by Cryptodome")
    for ksize in (1, 32, 64, 65, 130):
        add("key-%d" % ksize, one_key, alg="HS256", n=2, siglen=32,
            ksize=ksize, bounds="every HMAC key of %d octets" % ksize)
    for n in (1, 2, 3) + ((4, 5) if big else ()):
        for where in ("payload", "signature") + (("header",) if n < 3 or big
                                                 else ()):
            add("raw-%s-%d" % (where, n), raw_text, where=where, n=n,
                weight=20, bounds="every text of %d octets" % n)
    for k in (1, 2, 4, "4b", "4c", 5, "4e", "3e", "2s"):
        add("parts-%s" % k, parts, ("refused",), k=k,
            bounds="every extra part of 3 octets")
    return out
