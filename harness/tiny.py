"""Small prime curves in the form the code uses (y^2 = x^3 - 3x + b), so that
the whole elliptic code runs on numbers the solver can decide; and the group
law from the textbook."""
from jwkest import curves


def inv_mod(a, p):
    return pow(a, p - 2, p)


def points(p, b):
    """all finite points, by trying"""
    return [(x, y) for x in range(p) for y in range(p)
            if (y * y - x * x * x + 3 * x - b) % p == 0]


def add(p, P, Q):
    """group law; None is the neutral point"""
    if P is None:
        return Q
    if Q is None:
        return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0:
            return None
        s = (3 * P[0] * P[0] - 3) * inv_mod(2 * P[1], p) % p
    else:
        s = (P[1] - Q[1]) * inv_mod((P[0] - Q[0]) % p, p) % p
    x = (s * s - P[0] - Q[0]) % p
    return x, (s * (P[0] - x) - P[1]) % p


def mul(p, P, k):
    r = None
    for _ in range(k):
        r = add(p, r, P)
    return r


def is_prime(n):
    return n > 1 and all(n % i for i in range(2, n))


def curve(p, order=None, skip=0):
    """(p, order, b, x, y): the first curve over GF(p) whose group has prime
    order (the wanted one, if given), and a generator"""
    for b in range(1, p):
        if (4 * -27 + 27 * b * b) % p == 0:
            continue
        pts = points(p, b)
        n = len(pts) + 1
        if (order is None and is_prime(n) and n != p) or n == order:
            if skip:
                skip -= 1
                continue
            return p, n, b, pts[0][0], pts[0][1]
    raise ValueError("no such curve")


def use(bits, dom):
    """make the code's curve of that name a small one (undone per path)"""
    old = curves.DOMAINS[bits]
    curves.DOMAINS[bits] = dom
    return old
