"""C10 ECDSA (FIPS 186-4 section 6)."""
from Cryptodome.PublicKey import ECC
from jwkest.ecc import NISTEllipticCurve
from vlib.api import Case
from harness import tiny
from harness.c11 import table, same, NIST

ASSUMPTIONS = ["the random numbers drawn are arbitrary"]
OUTSIDE = ["keys, nonces and hashes of the NIST curves in general (decided "
           "on small curves of the same form, with prime order below and "
           "above the prime); hashes longer than the order, which the "
           "registered algorithms never have"]


def setup(p, order, skip=0):
    dom = tiny.curve(p, order, skip)
    tiny.use(256, dom)
    return dom, table(dom), NISTEllipticCurve.by_name("P-256")


def equation(S, dom, t, h, r, s, d, label):
    """(r, s) is a signature of h under the private value d: for the nonce k
    with s k = h + r d, r is the x-coordinate of kG"""
    n = dom[1]
    S.check(S.all(r > 0, r < n, s > 0, s < n), label + ": range", r=r, s=s)
    conds = []
    for k in range(n):
        hyp = S.eq((s * k - h - r * d) % n, 0)
        good = False if k == 0 else S.eq(r, t[k][0] % n)
        conds.append(S.implies(hyp, good))
    S.check(S.all(*conds), label + ": equation", r=r, s=s)


def hashes(dom):
    return (1 << dom[1].bit_length()) - 1


def nonces(first):
    """random numbers: the first ones arbitrary, then 0, 1, 2, ..."""
    def policy(i, n):
        return ("fix", 4) if i < first else i - first
    return policy


def sign(S, p, order, given):
    """every private value, hash and (given or drawn) nonce"""
    dom, t, c = setup(p, order)
    n = dom[1]
    h = S.int("h", 0, hashes(dom))
    d = S.int("d", 1, n - 1)
    S.random_policy(nonces(0 if given else 1))
    pub = None
    if given:
        k = S.fix(S.int("k", 1, n - 1))
        sig = c.sign(h, d, k)
    else:
        sig = c.sign(h, d)
    S.check(len(sig) == 64, "length")
    S.check(S.eq(sig[:31] + sig[32:63], bytes(62)), "range")
    r, s = sig[31], sig[63]
    equation(S, dom, t, h, r, s, d, "signature")
    if given:
        # the nonce asked for is used if it can be
        x = t[k][0] % n
        usable = S.all(x != 0, S.neg(S.eq((h + x * d) % n, 0)))
        S.check(S.implies(usable, S.eq(r, x)), "nonce")
        S.reach("again" if not S.truth(usable) else "first")
    else:
        S.reach("again" if len(S.drawn()) > 1 else "first")


def both(S, p, order, hi):
    """what is signed verifies"""
    dom, t, c = setup(p, order)
    n = dom[1]
    h = S.int("h", 0, hi)
    d = S.fix(S.int("d", 1, n - 1))
    S.random_policy(nonces(0))
    sig = c.sign(h, d, S.fix(S.int("k", 1, n - 1)))
    S.check(S.eq(c.verify(h, sig, t[d]), True), "verifies")
    S.reach("verified")


def accepted(S, dom, t, h, r, s, i):
    """FIPS 186-4 on a small curve, by discrete logarithms"""
    n = dom[1]
    yes = []
    for k in range(1, n):
        if t[k][0] % n:
            yes.append(S.all(S.eq((s * k - h - r * i) % n, 0),
                             S.eq(r, t[k][0] % n)))
    return S.all(r > 0, r < n, s > 0, s < n, S.any(*yes))


def verify(S, p, order, rlow, s, qs):
    """every hash, public key and first number"""
    dom, t, c = setup(p, order)
    h = S.int("h", 0, hashes(dom))
    i = S.choose("Q", qs or list(range(1, dom[1])))
    pub = t[i]
    r = S.int("r", 0, rlow)
    sig = r.to_bytes(32, "big") + s.to_bytes(32, "big")
    got = c.verify(h, sig, pub)
    S.check(got is True or got is False, "answer is true or false")
    S.check(S.iff(got, accepted(S, dom, t, h, r, s, i)),
            "accepted exactly if valid", got=got)
    S.observe("got", got)
    S.reach("accepted" if S.truth(got) else "refused")


def out_of_range(S, p, order, which):
    """every pair of numbers of the full length with one out of range"""
    dom, t, c = setup(p, order)
    n = dom[1]
    h = S.int("h", 0, hashes(dom))
    pub = t[S.choose("Q", [1, 2, n - 1])]
    bad = S.bytes("bad", 32)
    v = int.from_bytes(bad, "big")
    S.assume(S.any(S.eq(v, 0), v >= n))
    ok = S.int("ok", 0, 255).to_bytes(32, "big")
    sig = bad + ok if which == "r" else ok + bad
    S.check(S.eq(c.verify(h, sig, pub), False), "refused")
    S.reach("refused")


def wrong_length(S, n, p, order):
    """no octet string of another length is accepted"""
    dom, t, c = setup(p, order)
    sig = S.bytes("sig", n)
    r = S.attempt(c.verify, 1, sig, t[1])
    S.check(r.ok, "no failure")
    S.check(S.eq(r.value, False), "refused")
    S.reach("refused")


def padded(S, p, order, how):
    """a valid signature in another length"""
    dom, t, c = setup(p, order)
    n = dom[1]
    h = S.int("h", 0, hashes(dom))
    d = S.choose("d", [1, 2, n - 1])
    S.random_policy(nonces(0))
    sig = c.sign(h, d, S.fix(S.int("k", 1, n - 1)))
    pub = t[d]
    alt = {
        "cut-front": sig[1:], "cut-back": sig[:-1],
        "short-r": sig[1:32] + sig[32:], "short-s": sig[:32] + sig[33:],
        "bare": sig[31:32] + sig[63:], "half": sig[:32], "empty": b"",
        "front": b"\0" + sig, "back": sig + b"\0",
        "both": b"\0" + sig[:32] + b"\0" + sig[32:],
        "twice": sig + sig,
    }[how]
    r = S.attempt(c.verify, h, alt, pub)
    S.check(r.ok, "no failure")
    S.check(S.eq(r.value, False), "refused")
    S.reach("refused")


def key_pair(S, p, order):
    """any random number gives a private value in range and its point"""
    dom, t, c = setup(p, order)
    S.random_policy(nonces(1) if order not in (5, 17) else
                    lambda i, n: None)
    priv, pub = c.key_pair()
    S.check(S.all(priv > 0, priv < dom[1]), "range", priv=priv)
    S.check(S.any(*[S.all(S.eq(priv, i), same(S, pub, t[i]))
                    for i in range(1, dom[1])]), "public point")
    S.reach("made")


def lib_point(crv, k):
    q = ECC.construct(curve=crv, d=k).pointQ
    return int(q.x), int(q.y)


def nist(S, crv):
    """hand-made signatures on the NIST curves"""
    bits = NIST[crv]
    c = NISTEllipticCurve.by_name(crv)
    N = int(ECC._curves[crv].order)
    nb = (bits + 7) // 8
    hl = {256: 256, 384: 384, 521: 512}[bits]
    d = S.choose("d", [1, 2, N - 1, 0x1234567890abcdef])
    k = S.choose("k", [1, 3, N - 1, N // 2, 0xfedcba9876543210f])
    h = S.choose("h", [0, 1, N - 1 if hl == bits else 77, (1 << hl) - 1,
                       (1 << hl - 1), 0xabcdef, 1 << hl - 9])
    pub = lib_point(crv, d)
    r = lib_point(crv, k)[0] % N
    s = pow(k, -1, N) * (h + r * d) % N
    sig = r.to_bytes(nb, "big") + s.to_bytes(nb, "big")
    S.check(S.eq(c.sign(h, d, k), sig), "signature")

    def ask(r_, s_, h_=h, q=pub):
        return c.verify(h_, r_.to_bytes(nb, "big") + s_.to_bytes(nb, "big"),
                        q)
    S.check(S.eq(ask(r, s), True), "valid")
    S.check(S.eq(ask(r, N - s), True), "the other valid one")
    for a, b, what in ((0, s, "r=0"), (r, 0, "s=0"), (0, 0, "both 0"),
                       (N, s, "r=N"), (r, N, "s=N"), (r ^ 1, s, "r changed"),
                       (r, s ^ 1, "s changed"), (N - r, s, "-r")):
        S.check(S.eq(ask(a, b), False), what)
    if r not in (s, N - s):
        S.check(S.eq(ask(s, r), False), "swapped")
        S.check(S.eq(ask(r, r), False), "r twice")
    top = (1 << (8 * nb)) - 1
    if r + N <= top:
        S.check(S.eq(ask(r + N, s), False), "r+N")
    if s + N <= top:
        S.check(S.eq(ask(r, s + N), False), "s+N")
    S.check(S.eq(ask(r, s, h ^ 2), False), "other hash")
    S.check(S.eq(ask(r, s, h, lib_point(crv, d + 5 if d < N - 9
                                          else d - 5)), False),
            "other key")
    # the point at infinity
    h0 = -r * d % N
    if h0.bit_length() <= hl:
        S.check(S.eq(ask(r, 5, h0), False), "point at infinity")
    S.reach("compared")


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(name, fn, reach, weight=5, bounds="", **k):
        out.append(Case(name, fn, k, reach=reach, weight=weight,
                        bounds=bounds, query_ms=60000))
    curves = [(7, 5), (11, 7), (7, 11)] + ([(11, 17), (13, 19)] if big else
                                           [])
    for p, o in curves:
        nm = "%d-%d" % (p, o)
        for given in (True, False) if o > 5 else ():
            # (with order 5 there are inputs no nonce can sign)
            add("sign-%s-%s" % ("given" if given else "drawn", nm), sign,
                ("first", "again"), p=p, order=o, given=given, weight=30,
                bounds="every private value, nonce and hash of that many "
                "bits")
        for s in range(o + 2 if o < 11 or big else 2):
            add("verify-%s-%d" % (nm, s), verify,
                ("accepted", "refused") if 0 < s < o else ("refused",),
                p=p, order=o, rlow=2 * o, s=s, weight=40 + o,
                qs=None if o < 11 or big else [1, 3],
                bounds="every public key (two with order 11 in quick) and "
                "hash, s=%d, r to %d" % (s, 2 * o))
        if o == 7 or big and o > 5:
            add("both-" + nm, both, ("verified",), p=p, order=o,
                hi=2 * o, weight=30,
                bounds="every private value and nonce, hash numbers to %d" % (2 * o))
        for which in "rs":
            add("range-%s-%s" % (which, nm), out_of_range, ("refused",),
                p=p, order=o, which=which, weight=5,
                bounds="every number of 32 octets out of range")
        add("key-pair-" + nm, key_pair, ("made",), p=p, order=o, weight=20,
            bounds="every random number")
    for n in (0, 1, 2, 31, 32, 33, 62, 63, 65, 66, 96, 128):
        add("length-%d" % n, wrong_length, ("refused",), n=n, p=11, order=7,
            bounds="every octet string of %d" % n)
    for how in ("cut-front", "cut-back", "short-r", "short-s", "bare", "half",
                "empty", "front", "back", "both", "twice"):
        add("padded-" + how, padded, ("refused",), p=11, order=7, how=how,
            weight=15, bounds="every hash and nonce")
    for crv in sorted(NIST):
        add("nist-" + crv, nist, ("compared",), crv=crv, weight=60,
            bounds="listed edge values")
    return out
