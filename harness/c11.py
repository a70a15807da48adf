"""C11 elliptic curve arithmetic and point checks."""
from Cryptodome.PublicKey import ECC
from jwkest import elliptic
from jwkest.curves import get_curve
from jwkest.ecc import NISTEllipticCurve
from jwkest.jwe import JWE_EC, JWEnc
from jwkest.jwk import ECKey, KEYS, keyrep
from vlib.api import Case
from harness import ref, tiny

ASSUMPTIONS = []
OUTSIDE = ["group law for every pair of points of the NIST curves (products "
           "of 256-bit numbers are beyond the solver): the functions are "
           "decided on small curves of the same form, the NIST parameters by "
           "value and at the ends of the scalar range"]
NIST = {"P-256": 256, "P-384": 384, "P-521": 521}
# FIPS 186-4 D.1.2, from Cryptodome
LIB = {"P-256": "p256", "P-384": "p384", "P-521": "p521"}


def table(dom):
    """multiples of the generator; entry 0 is the neutral point"""
    t = [None]
    for _ in range(dom[1] - 1):
        t.append(tiny.add(dom[0], t[-1], (dom[3], dom[4])))
    return t


def on_curve(p, b, x, y):
    return (x * x * x - 3 * x + b - y * y) % p == 0


def point(S, name, dom, neutral=False):
    """any point of the curve: coordinates under one equation"""
    p, n, b = dom[:3]
    if neutral and S.choose(name + "=0", [False, True]):
        return None
    x = S.int(name + "x", 0, p - 1)
    y = S.int(name + "y", 0, p - 1)
    S.assume(on_curve(p, b, x, y))
    return x, y


def same(S, a, b):
    if a is None or b is None:
        return a is b
    return S.all(S.eq(a[0], b[0]), S.eq(a[1], b[1]))


def expect(S, t, ks, pts, out, label, f):
    """out = f(discrete logarithms of pts) whatever the points are"""
    n = len(t)
    if len(pts) == 1:
        combos = [(i,) for i in range(n)]
    else:
        combos = [(i, j) for i in range(n) for j in range(n)]
    conds = []
    for c in combos:
        hyp = S.all(*[same(S, q, t[i]) for q, i in zip(pts, c)])
        conds.append(S.implies(hyp, same(S, out, t[f(*c) % n])))
    S.check(S.all(*conds), label, out=out)


def affine(S, p, order, skip):
    """add() on any two points, the neutral one too"""
    dom = tiny.curve(p, order, skip)
    t = table(dom)
    A = point(S, "A", dom, True)
    B = point(S, "B", dom, True)
    out = elliptic.add(3, p - dom[2], p, A, B)
    expect(S, t, None, [A, B], out, "sum", lambda i, j: i + j)
    S.observe("sum", out)
    S.reach("neutral" if out is None else "finite")


def to_jacobian(S, name, p, A):
    """A in projective coordinates with any Z"""
    if A is None:
        return None
    z = S.int(name, 1, p - 1)
    zs = z * z % p
    zc = zs * z % p
    return A[0] * zs % p, A[1] * zc % p, z, zs, zc


def jacobian(S, p, order, skip, what):
    """addf(), doublef(), neg() on any two points in any representation"""
    dom = tiny.curve(p, order, skip)
    t = table(dom)
    q = p - dom[2]
    A = point(S, "A", dom, True)
    if what == "add":
        B = point(S, "B", dom, True)
        out = elliptic.addf(3, q, p, to_jacobian(S, "Az", p, A),
                            to_jacobian(S, "Bz", p, B))
    elif what == "double":
        out = elliptic.doublef(3, q, p, to_jacobian(S, "Az", p, A))
    else:
        out = elliptic.neg(to_jacobian(S, "Az", p, A), p)
    if out is not None:
        S.check(S.all(S.eq(out[2] * out[2] % p, out[3]),
                      S.eq(out[3] * out[2] % p, out[4])), "powers of Z")
        S.check(S.neg(S.eq(out[2] % p, 0)), "Z is not zero")
    out = elliptic.from_projective(out, p)
    if what == "add":
        expect(S, t, None, [A, B], out, "sum", lambda i, j: i + j)
    elif what == "double":
        expect(S, t, None, [A], out, "double", lambda i: 2 * i)
    else:
        expect(S, t, None, [A], out, "negative", lambda i: -i)
    S.observe("out", out)
    S.reach("neutral" if out is None else "finite")


def multiple(S, p, order, skip, hi, slow):
    """mulp() / mul() of any point by any scalar"""
    dom = tiny.curve(p, order, skip)
    t = table(dom)
    A = point(S, "A", dom)
    c = S.int("c", 0, hi)
    f = elliptic.mul if slow else elliptic.mulp
    out = f(3, p - dom[2], p, A, c)
    conds = []
    for k in range(dom[1]):
        hyp = S.eq(c % dom[1], k)
        if hyp is not False and S.truth(hyp):
            expect(S, t, None, [A], out, "multiple", lambda i: i * k)
            break
    S.observe("out", out)
    S.reach("neutral" if out is None else "finite")


def double_multiple(S, p, order, skip, c1, hi):
    """muladdp(): c1 A + c2 B for any two points and any scalars"""
    dom = tiny.curve(p, order, skip)
    t = table(dom)
    A = point(S, "A", dom)
    B = point(S, "B", dom)
    c2 = S.int("c2", 0, hi)
    out = elliptic.muladdp(3, p - dom[2], p, A, c1, B, c2)
    for k in range(dom[1]):
        if S.truth(S.eq(c2 % dom[1], k)):
            expect(S, t, None, [A, B], out, "sum of multiples",
                   lambda i, j: c1 * i + k * j)
            break
    S.observe("out", out)
    S.reach("neutral" if out is None else "finite")


def inversion(S, n, lo, hi):
    a = S.int("a", lo, hi)
    S.assume(S.neg(S.eq(a % n, 0)))
    i = elliptic.inv(a, n)
    S.check(S.eq(a * i % n, 1), "product with the inverse", i=i)
    S.check(S.all(i >= 0, i < n), "range", i=i)
    S.observe("i", i)
    S.reach("inverse")


def membership(S, p, order, hi):
    dom = tiny.curve(p, order)
    x = S.int("x", 0, hi)
    y = S.int("y", 0, hi)
    got = elliptic.element((x, y), 3, p - dom[2], p)
    S.check(S.iff(got, on_curve(p, dom[2], x, y)), "element()")
    S.check(elliptic.element(None, 3, p - dom[2], p) is True, "neutral point")
    S.reach("asked")


VIA = {
    "ECKey": lambda a: ECKey(**a),
    "keyrep": lambda a: keyrep(dict(a, kty="EC")),
    "load_dict": lambda a: loaded(a),
}


def loaded(a):
    k = KEYS()
    k.load_dict({"keys": [dict(a, kty="EC")]})
    return k._keys[0]


def stored(S, p, order, nx, ny, via):
    """any two coordinates as a stored key"""
    dom = tiny.curve(p, order)
    tiny.use(256, dom)
    xb = S.bytes("x", nx)
    yb = S.bytes("y", ny)
    x = int.from_bytes(xb, "big")
    y = int.from_bytes(yb, "big")
    r = S.attempt(VIA[via], {"crv": "P-256",
                             "x": ref.b64u(xb).decode("ascii"),
                             "y": ref.b64u(yb).decode("ascii")})
    good = S.all(x < p, y < p, on_curve(p, dom[2], x, y))
    S.check(S.implies(r.ok, good), "only points of the curve are accepted")
    S.check(S.implies(good, r.ok), "points of the curve are accepted")
    if r.ok:
        S.check(S.all(S.eq(r.value.x, x), S.eq(r.value.y, y)), "coordinates")
    S.observe("kind", r.ok)
    S.reach("accepted" if r.ok else "refused")


def ephemeral(S, p, order, nx, ny):
    """any two coordinates as the ephemeral key of a token"""
    dom = tiny.curve(p, order)
    tiny.use(256, dom)
    xb = S.bytes("x", nx)
    yb = S.bytes("y", ny)
    x = int.from_bytes(xb, "big")
    y = int.from_bytes(yb, "big")
    head = {"alg": "ECDH-ES", "enc": "A128GCM",
            "epk": {"kty": "EC", "crv": "P-256",
                    "x": ref.b64u(xb).decode("ascii"),
                    "y": ref.b64u(yb).decode("ascii")}}
    tok = ref.tok(ref.jdump(head), b"", b"iv", b"ct", b"tag")
    key = ECKey(crv="P-256", x=dom[3], y=dom[4], d=1)
    r = S.attempt(JWE_EC().dec_setup, JWEnc().unpack(tok), key=key)
    good = S.all(x < p, y < p, on_curve(p, dom[2], x, y))
    S.check(S.implies(r.ok, good), "only points of the curve are used")
    S.check(S.implies(S.all(good, x > 0, y > 0), r.ok),
            "points of the curve are used")
    S.reach("used" if r.ok else "refused")


def nist(S, crv):
    """the parameters of the NIST curve and the ends of the scalar range"""
    bits = NIST[crv]
    c = NISTEllipticCurve.by_name(crv)
    lib = ECC._curves[crv]
    S.check(S.all(int(lib.p) == c.p, int(lib.order) == c.N,
                  int(lib.Gx) == c.G[0], int(lib.Gy) == c.G[1],
                  int(lib.b) == (-c.b) % c.p, c.a == 3, c.bits == bits,
                  c.bytes == (bits + 7) // 8, c.name() == crv),
            "curve parameters")
    q, p, N, a, b, G = get_curve(bits)
    k = S.choose("k", [1, 2, 3, 4, 7, 255, 256, N - 1, N - 2, N // 2,
                       N // 2 + 1, (1 << (bits - 1)) - 1, 1 << (bits - 2),
                       0x5555555555555555555])
    want = ECC.construct(curve=crv, d=k).pointQ
    want = int(want.x), int(want.y)
    S.check(S.eq(c.public_key_for(k), want), "public key")
    m = S.choose("m", [1, 2, N - 1, N - 2, 12345])
    pub = ECC.construct(curve=crv, d=m).pointQ
    pub = int(pub.x), int(pub.y)
    prod = k * m % N
    x = int(ECC.construct(curve=crv, d=prod).pointQ.x)
    S.check(S.eq(c.dh_z(k, pub), x.to_bytes(c.bytes, "big")),
            "shared secret")
    s = (k + 5 * m) % N
    got = elliptic.muladdp(a, b, p, G, k, pub, 5)
    if s == 0:
        S.check(got is None, "neutral sum")
    else:
        w = ECC.construct(curve=crv, d=s).pointQ
        S.check(S.eq(got, (int(w.x), int(w.y))), "sum of multiples")
    S.check(elliptic.mulp(a, b, p, G, N) is None, "order")
    S.reach("compared")


def nist_points(S, crv):
    """coordinates next to those of a real point"""
    lib = ECC._curves[crv]
    p = int(lib.p)
    n = (p.bit_length() + 7) // 8
    g = ECC.construct(curve=crv, d=77).pointQ
    x, y = int(g.x), int(g.y)
    h = ECC.construct(curve=crv, d=2).pointQ
    cands = [(x, y, True), (x, p - y, True), (x + 1, y, False),
             (x, y + 1, False), (x ^ 1, y, False), (y, x, False),
             (x + p, y, False), (x, y + p, False), (0, 0, False),
             (int(h.x), y, False), (p - x, y, False), (x, 0, False),
             (x ^ (1 << 200), y, False), (p, y, False)]
    a, b, good = S.choose("point", cands)
    via = S.choose("via", sorted(VIA))
    r = S.attempt(VIA[via], {
        "crv": crv, "x": ref.b64u(a.to_bytes(n + 1, "big")).decode("ascii"),
        "y": ref.b64u(b.to_bytes(n + 1, "big")).decode("ascii")})
    S.check(r.ok is good, "point check")
    head = {"alg": "ECDH-ES", "enc": "A128GCM", "epk": {
        "kty": "EC", "crv": crv,
        "x": ref.b64u(a.to_bytes(n + 1, "big")).decode("ascii"),
        "y": ref.b64u(b.to_bytes(n + 1, "big")).decode("ascii")}}
    tok = ref.tok(ref.jdump(head), b"", b"iv", b"ct", b"tag")
    key = ECKey(crv=crv, x=int(h.x), y=int(h.y), d=2)
    r = S.attempt(JWE_EC().dec_setup, JWEnc().unpack(tok), key=key)
    S.check(r.ok is good, "point check of the ephemeral key")
    S.reach("accepted" if good else "refused")


def cases(tier):
    big = tier == "thorough"
    out = []
    def add(name, fn, reach=("neutral", "finite"), weight=5, bounds="", **k):
        out.append(Case(name, fn, k, reach=reach, weight=weight,
                        bounds=bounds, query_ms=60000))
    curves = [(7, 5), (11, 7), (11, 17), (13, 19), (17, 23), (31, 41)]
    for p, o in curves:
        nm = "%d-%d" % (p, o)
        add("affine-" + nm, affine, p=p, order=o, skip=0, weight=2 * p,
            bounds="every two points of a curve over GF(%d)" % p)
        for what in ("add", "double", "neg"):
            if what == "add" and p > (13 if big else 11):
                continue
            add("jacobian-%s-%s" % (what, nm), jacobian, p=p, order=o, skip=0,
                what=what, weight=p * (5 if what == "add" else 1),
                bounds="every point(s) of a curve over "
                "GF(%d), every representation" % p)
    for p, o, hi in [(7, 5, 31), (11, 7, 15), (11, 17, 17)] + (
            [(7, 5, 511), (11, 7, 40), (11, 17, 40), (13, 19, 21),
             (17, 23, 25)] if big else []):
        for slow in (False, True):
            add("%s-%d-%d-%d" % ("mul" if slow else "mulp", p, o, hi),
                multiple, p=p, order=o, skip=0, hi=hi, slow=slow,
                weight=p * hi / 10,
                bounds="every point, every scalar to %d" % hi)
    for p, o in [(7, 5)] + ([(11, 7)] if big else []):
        for c1 in range(o + 2):
            add("muladdp-%d-%d-%d" % (p, o, c1), double_multiple, p=p,
                order=o, skip=0, c1=c1, hi=o + 2, weight=20,
                bounds="every two points, c1=%d, every c2 to %d" % (
                    c1, o + 2))
    for n, hi in [(7, 30), (11, 40), (31, 80), (61, 61), (127, 127)] + (
            [(251, 251), (509, 509)] if big else []):
        add("inv-%d" % n, inversion, ("inverse",), n=n, lo=-n + 1, hi=hi,
            weight=n // 4, bounds="every residue and its multiples in "
            "-%d..%d" % (n - 1, hi))
    for p, o in [(7, 5), (17, 23), (31, 41)]:
        add("element-%d" % p, membership, ("asked",), p=p, order=o,
            hi=2 * p, bounds="every pair of numbers to %d" % (2 * p))
    for p, o in [(7, 5), (17, 23) if not big else (31, 41)]:
        for via in sorted(VIA):
            for nx, ny in ((1, 1), (2, 1), (1, 2)):
                add("stored-%d-%s-%d-%d" % (p, via, nx, ny), stored,
                    ("accepted", "refused"), p=p, order=o, nx=nx, ny=ny,
                    via=via, bounds="every coordinates of %d and %d octets" %
                    (nx, ny))
        add("epk-%d" % p, ephemeral, ("used", "refused"), p=p, order=o, nx=1,
            ny=1, weight=20, bounds="every coordinates of one octet")
    for crv in sorted(NIST):
        add("nist-" + crv, nist, ("compared",), crv=crv, weight=10,
            bounds="parameters; scalars at the ends of the range")
        add("points-" + crv, nist_points, ("accepted", "refused"), crv=crv,
            weight=8, bounds="coordinates next to a point's")
    return out
