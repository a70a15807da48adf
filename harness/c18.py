"""C18 secrets are fresh, full-length cryptographic randomness.

What a message's secret must be is stated in terms of what was drawn from a
secure generator while that message was made: octet secrets are a piece of
the drawn octets of their own, private values and nonces are a drawn number of
the full length brought into the range 1..N-1."""
import itertools
import json
from Cryptodome.PublicKey import ECC
from jwkest.ecc import NISTEllipticCurve
from jwkest.jwe import JWE
from jwkest.jws import JWS
from jwkest.jwk import ECKey, SYMKey, jwk_wrap
from vlib.api import Case
from harness import jwes, keys, ref, sigs, tiny
from harness.c11 import table

keyring = keys.ring
ASSUMPTIONS = ["os.urandom, secrets, random.SystemRandom and Cryptodome's "
               "generators are secure, the other functions of the standard "
               "random module are not; AES under a symbolic key is an "
               "uninterpreted permutation, RSA encryption is inverted by the "
               "private key; random paddings inside Cryptodome's RSA are its "
               "own"]
OUTSIDE = ["quality of the generators themselves; content keys for GCM other "
           "than a sample (GHASH under an unknown subkey is out of reach); "
           "private values on the NIST curves other than the samples "
           "(decided for all on small curves)"]
MSG = b"message"
ORDER = {
    "P-256": int("ffffffff00000000ffffffffffffffff"
                 "bce6faada7179e84f3b9cac2fc632551", 16),
    "P-384": int("f" * 48 + "c7634d81f4372ddf"
                 "581a0db248b0a77aecec196accc52973", 16),
    "P-521": int("1" + "f" * 64 + "fa51868783bf2f966b7fcc0148f709a5"
                 "d03bb5c9b8899c47aebb6fb71e91386409", 16)}


def strong_octets(draws):
    """(octets, boundaries) of the octets from secure generators"""
    out, cuts = b"", [0]
    for strong, kind, n, v in draws:
        if strong and kind != "bytes" and kind == "bits" and n % 8 == 0 \
                and n <= 1024:
            kind, v = "bytes", v.to_bytes(n // 8, "big")
        if strong and kind == "bytes":
            out = out + v
            cuts.append(len(out))
    return out, cuts


def pieces(S, draws, secrets, label):
    """the secrets are pieces of what was drawn, no two from one place"""
    octets, cuts = strong_octets(draws)
    total = len(octets)
    offs = set(cuts)
    for k in range(1, len(secrets) + 1):
        for c in list(offs):
            for s in secrets:
                offs.add(c + len(s))
        if len(offs) > 24:
            break
    options = []
    for s in secrets:
        row = []
        for o in sorted(offs):
            if o + len(s) <= total:
                e = S.eq(s, octets[o:o + len(s)])
                if S.settled(e) != False:
                    row.append((o, o + len(s), e))
        sure = [x for x in row if S.settled(x[2])]
        options.append(sure or row[:8])
    ways = []
    for pick in itertools.islice(itertools.product(*options), 4000):
        if all(a[1] <= b[0] or b[1] <= a[0]
               for a, b in itertools.combinations(pick, 2)):
            ways.append(S.all(True, *[x[2] for x in pick]))
            if S.settled(ways[-1]):
                break
    S.check(S.any(False, *ways), label, drawn=len(draws), octets=total)


def residues(draws, n, bits):
    """numbers in 1..n-1 that a full-length secure draw may stand for"""
    out = []
    for strong, kind, size, v in draws:
        if kind == "bytes":
            if 8 * size > bits + 71:
                continue        # for something else
            size, v, kind = 8 * size, int.from_bytes(v, "big"), "bits"
        if not strong or size < (1 << bits if kind == "below" else bits) and \
                not (kind == "below" and size >= n - 1):
            continue
        if kind == "bits" and size < bits:
            continue
        out += [v % (n - 1) + 1, v, v + 1, v % n]
    return out


# -- encryption

def policy(S, alg, enc, crv, numbers, small=1):
    """draws for an elliptic private value are one of the numbers (or small
    and any), a key for GCM is a sample, all else is any"""
    def p(i, n):
        if alg in jwes.EC and n == jwes.COORD[crv]:
            if numbers is None:
                return "fix", small
            return numbers[0]
        if enc.endswith("GCM") and n == jwes.CEKLEN[enc]:
            return bytes((29 * j + 7 * i + 1) & 255 for j in range(n))
        if alg in jwes.EC and enc.endswith("GCM") and n == 16:
            return bytes((31 * j + 5 * i + 2) & 255 for j in range(n))
        return None
    S.random_policy(p)


def parts_of(tok):
    return [ref.unb64(p) for p in tok.encode("ascii").split(b".")]


def epk_private(S, head, crv, draws):
    x, y = [int.from_bytes(ref.unb64(head["epk"][n].encode("ascii")), "big")
            for n in "xy"]
    n = ORDER[crv]
    yes = []
    for c in residues(draws, n, n.bit_length()):
        if isinstance(c, int) and 0 < c < n:
            q = ECC.construct(curve=crv, d=c).pointQ
            yes.append(S.all(S.eq(x, int(q.x)), S.eq(y, int(q.y))))
    S.check(S.any(False, *yes), "the ephemeral key is a drawn number's")


def one(S, e, alg, enc, crv, ks, kw):
    before = len(S.drawn())
    tok = e.encrypt(list(ks), **kw)
    draws = S.drawn()[before:]
    parts = parts_of(tok)
    head = json.loads(parts[0].decode("ascii"))
    S.check(len(parts[2]) == jwes.ivlen(enc), "length of the IV")
    secrets = []
    if "iv" in kw:
        S.check(S.eq(parts[2], kw["iv"]), "the IV given is used")
    else:
        secrets.append(parts[2])
    if alg != "ECDH-ES" and "cek" not in kw:
        cek = jwes.content_key(alg, enc, head, parts[1], 0, crv)
        S.check(cek is not None and len(cek) == jwes.CEKLEN[enc],
                "length of the content key")
        secrets.append(cek)
    elif "cek" in kw and alg in jwes.KW:
        S.check(S.eq(jwes.content_key(alg, enc, head, parts[1], 0, crv),
                     kw["cek"]), "the key given is used")
    if alg in jwes.EC:
        for n in ("apu", "apv"):
            v = ref.unb64(head[n].encode("ascii"))
            S.check(len(v) == 16, "length of " + n)
            secrets.append(v)
        epk_private(S, head, crv, draws)
    pieces(S, draws, secrets, "secrets are octets drawn for this message")
    return parts


def encrypt(S, alg, enc, crv, times, between="", given=(), numbers=None,
            small=1):
    policy(S, alg, enc, crv, numbers, small)
    e = JWE(MSG, alg=alg, enc=enc)
    ks = [jwes.key(alg, 0, False, crv)]
    for i in range(times):
        kw = {}
        if i == 0:
            if "iv" in given:
                kw["iv"] = S.bytes("iv", jwes.ivlen(enc))
            if "cek" in given:
                kw["cek"] = bytes(range(jwes.CEKLEN[enc])) if enc.endswith(
                    "GCM") else S.bytes("cek", jwes.CEKLEN[enc])
        one(S, e, alg, enc, crv, ks, kw)
        if i + 1 < times and between:
            other(S, e, between, alg, enc, crv)
            e.msg = MSG
    S.reach("drawn")


def other(S, e, what, alg, enc, crv):
    """something else done with the object in between"""
    if what == "decrypt":
        before = len(S.drawn())
        r = S.attempt(e.decrypt, jwes.token(alg, enc, MSG, 0, crv=crv,
                                            fixed=True),
                      [jwes.key(alg, 0, True, crv)])
        if alg == "RSA1_5":
            # (the random replacement for a bad key is not the right one)
            cek = bytes((17 * j + 3) & 255 for j in range(jwes.CEKLEN[enc]))
            for x in S.drawn()[before:]:
                S.assume(S.neg(S.eq(x[3], cek)))
        S.check(r.ok, "decrypts", got=r.kind)
    elif what == "bad":
        r = S.attempt(e.decrypt, jwes.token(alg, enc, MSG, 1, crv=crv,
                                            fixed=True),
                      [jwes.key(alg, 0, True, crv)])
        S.check(not r.ok, "refused", got=r.kind)
    elif what == "foreign":
        # a token of another algorithm
        a = "A128KW" if alg in jwes.RSA else "RSA-OAEP"
        r = S.attempt(e.decrypt, jwes.token(a, "A128CBC-HS256", MSG, 1,
                                            fixed=True), [jwes.key(a, 1)])
        S.check(r.ok, "decrypts", got=r.kind)
    elif what == "failed":
        r = S.attempt(e.encrypt, [SYMKey(key=b"x", use="sig")])
        S.check(not r.ok, "no key")


EDGE = ["0", "1", "N-2", "N-1", "N", "max", "top", "any"]


def edge(crv, name, k=0):
    n = ORDER[crv]
    b = n.bit_length()
    size = (b + 7) // 8
    v = {"0": 0, "1": 1, "N-2": n - 2, "N-1": n - 1, "N": n,
         "max": (1 << b) - 1, "top": 1 << (b - 1),
         "any": int.from_bytes(bytes((91 * j + 13 + k) & 255
                                     for j in range(size)), "big") &
         ((1 << b) - 1)}[name]
    return (v ^ (k << 3)).to_bytes(size, "big")


def epk_edges(S, alg, enc, crv):
    which = S.choose("number", EDGE)
    encrypt(S, alg, enc, crv, 1, numbers=[edge(crv, which)])


# -- generated keys and nonces

def edges(S, crv):
    a, b = S.choose("first", EDGE), S.choose("second", EDGE)
    S.random_policy(lambda i, n: edge(crv, a, 0) if i == 0 else
                    edge(crv, b, 1))


def generate(S, crv, how):
    """two generated keys on a NIST curve, for draws at the edges"""
    edges(S, crv)
    n = ORDER[crv]
    for _ in range(2):
        before = len(S.drawn())
        c = NISTEllipticCurve.by_name(crv)
        if how == "pair":
            d, (x, y) = c.key_pair()
        else:
            k = jwk_wrap(c) if how == "wrap" else ECKey().load_key(c)
            d, x, y = k.d, k.x, k.y
        draws = S.drawn()[before:]
        S.check(0 < d < n, "range")
        q = ECC.construct(curve=crv, d=int(d)).pointQ
        S.check(S.all(S.eq(x, int(q.x)), S.eq(y, int(q.y))), "public key")
        S.check(S.any(False, *[S.eq(d, c) for c in
                               residues(draws, n, n.bit_length())]),
                "the private value is a drawn number", draws=len(draws))
    S.reach("drawn")


def nonce(S, crv):
    """two ECDSA signatures on a NIST curve, for draws at the edges"""
    edges(S, crv)
    n = ORDER[crv]
    bits = n.bit_length()
    c = NISTEllipticCurve.by_name(crv)
    d = keys.EC_D[crv][0]
    for h in (0x1234567890, 0x1234567890):
        before = len(S.drawn())
        sig = c.sign(h, d)
        draws = S.drawn()[before:]
        half = len(sig) // 2
        r = int.from_bytes(sig[:half], "big")
        s = int.from_bytes(sig[half:], "big")
        k = pow(s, -1, n) * (h + r * d) % n
        S.check(S.any(False, *[S.any(S.eq(x % n, k)) for x in
                               residues(draws, n, bits)]),
                "the nonce is a drawn number", draws=len(draws))
    S.reach("drawn")


def token_nonce(S, alg, times):
    """the same through signed tokens, one object signing again"""
    crv = sigs.CRV[alg]
    edges(S, crv)
    n = ORDER[crv]
    c = JWS("message", alg=alg)
    d = keys.EC_D[crv][0]
    for i in range(times):
        before = len(S.drawn())
        if i % 2:
            o = json.loads(c.sign_json(keys=[sigs.key(alg, 0)]))
            o = o["signatures"][0] if "signatures" in o else o
            tok = o["protected"] + "." + ref.b64u(b"message").decode(
                "ascii") + "." + o["signature"]
        else:
            tok = c.sign_compact([sigs.key(alg, 0)])
        draws = S.drawn()[before:]
        raw = tok.encode("ascii")
        sig = ref.unb64(raw.split(b".")[2])
        half = len(sig) // 2
        r = int.from_bytes(sig[:half], "big")
        s = int.from_bytes(sig[half:], "big")
        h, H = sigs.HASH[alg[2:]]
        dig = h(raw.rsplit(b".", 1)[0]).digest()
        e = int.from_bytes(dig, "big")
        e >>= max(0, 8 * len(dig) - n.bit_length())
        k = pow(s, -1, n) * (e + r * d) % n
        S.check(S.any(False, *[S.eq(x % n, k) for x in
                               residues(draws, n, n.bit_length())]),
                "the nonce is a drawn number", draws=len(draws))
    S.reach("drawn")


def small_generate(S, p, order, how):
    """every draw, on a small curve"""
    dom = tiny.curve(p, order)
    tiny.use(256, dom)
    t, n = table(dom), dom[1]
    S.random_policy(lambda i, size: ("bits", 6))
    for _ in range(2):
        before = len(S.drawn())
        c = NISTEllipticCurve.by_name("P-256")
        if how == "pair":
            d, pub = c.key_pair()
        else:
            k = ECKey().load_key(c)
            d, pub = k.d, (k.x, k.y)
        draws = S.drawn()[before:]
        S.check(S.all(d > 0, d < n), "range", d=d)
        S.check(S.any(False, *[S.eq(d, x) for x in
                               residues(draws, n, n.bit_length())]),
                "the private value is a drawn number", draws=len(draws))
        d = S.fix(d)
        S.check(S.all(S.eq(pub[0], t[d][0]), S.eq(pub[1], t[d][1])),
                "public key")
    S.reach("drawn")


def small_nonce(S, p, order, again):
    """every draw, hash and private value, on a small curve"""
    dom = tiny.curve(p, order)
    tiny.use(256, dom)
    t, n = table(dom), dom[1]
    S.random_policy(lambda i, size: ("fix", 5) if i == 0 else (7 * i + 2))
    h = S.int("h", 0, (1 << n.bit_length()) - 1)
    d = S.int("d", 1, n - 1)
    c = NISTEllipticCurve.by_name("P-256")
    for _ in range(2 if again else 1):
        before = len(S.drawn())
        sig = c.sign(h, d)
        draws = S.drawn()[before:]
        r, s = sig[31], sig[63]
        yes = []
        for x in residues(draws, n, n.bit_length()):
            x = x % n
            if 0 < x:
                yes.append(S.all(S.eq(r, t[x][0] % n),
                                 S.eq((s * x - h - r * d) % n, 0)))
        S.check(S.any(False, *yes), "the nonce is a drawn number",
                draws=len(draws))
    S.reach("drawn")


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, weight=5, bounds="", **k):
        out.append(Case(name, fn, k, reach=("drawn",), weight=weight,
                        bounds=bounds))
    for alg in jwes.ALGS:
        for j, enc in enumerate(jwes.ENCS):
            if alg in jwes.EC:
                # a curve whose private values do not have a key's length
                crv = {32: "P-521", 48: "P-521", 64: "P-384", 16: "P-256",
                       24: "P-384"}[jwes.CEKLEN[enc]]
                if enc.endswith("GCM") and jwes.CEKLEN[enc] == 32:
                    crv = "P-384"
                if not big and (j + len(alg)) % 2:
                    continue
            else:
                crv = "P-256"
            add("encrypt-%s-%s" % (alg, enc), encrypt, alg=alg, enc=enc,
                crv=crv, times=2, small=2 if big else 1, weight=10,
                bounds="every value drawn (%s), two messages with one object"
                % ("a sample for the key and parties" if enc.endswith("GCM")
                   else "few small private values" if alg in jwes.EC else
                   "all"))
        encs = ("A128CBC-HS256", "A256GCM")
        for enc in encs:
            crv = "P-521"
            for b in ("decrypt", "bad", "failed", "foreign"):
                add("then-%s-%s-%s" % (b, alg, enc), encrypt, alg=alg,
                    enc=enc, crv=crv, times=2, between=b, weight=10,
                    bounds="the same with something else done in between")
        if alg in jwes.KW or alg in jwes.RSA:
            for enc in encs:
                for given in [("iv",)] + ([("cek",), ("iv", "cek")]
                                          if alg in jwes.KW else []):
                    add("given-%s-%s-%s" % ("+".join(given), alg, enc),
                        encrypt, alg=alg, enc=enc, crv="P-256", times=2,
                        given=given, weight=10, bounds="every value given "
                        "for the first of two messages and drawn")
        else:
            for crv, enc in (("P-256", "A256CBC-HS512"),
                             ("P-384", "A256CBC-HS512"),
                             ("P-521", "A192CBC-HS384")):
                if not big and crv != {"ECDH-ES": "P-521",
                                       "ECDH-ES+A128KW": "P-384"}.get(
                                           alg, "P-256"):
                    continue
                add("edges-%s-%s-%s" % (alg, enc, crv), epk_edges, alg=alg,
                    enc=enc, crv=crv, weight=20,
                    bounds="eight values drawn for the ephemeral key, every "
                    "other octet drawn")
    for crv in sorted(ORDER):
        for how in ("pair", "wrap", "load"):
            add("generate-%s-%s" % (crv, how), generate, crv=crv, how=how,
                weight=20, bounds="eight times eight draws at the edges")
        add("nonce-" + crv, nonce, crv=crv, weight=20,
            bounds="eight times eight draws at the edges")
    for alg in sigs.ES:
        add("token-" + alg, token_nonce, alg=alg, times=3 if big else 2,
            weight=20, bounds="eight times eight draws at the edges")
    for p, order in [(13, 19), (17, 23)] + ([(31, 37)] if big else []):
        for how in ("pair", "load"):
            add("small-generate-%d-%s" % (p, how), small_generate, p=p,
                order=order, how=how, weight=10, bounds="every draw below 64 "
                "(and the length asked for), curve of order %d" % order)
        for again in (False, True):
            add("small-nonce-%d-%s" % (p, again), small_nonce, p=p,
                order=order, again=again, weight=10, bounds="every first "
                "draw below 32, hash and private value, curve of order %d" %
                order)
    return out
