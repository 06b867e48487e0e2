"""FIPS 180-4 SHA-256 of one 64-byte message, over terms. Written from the standard."""
from terms import add, and_, not_, ror, shr, xor


def primes(n):
    p, c = [], 2
    while len(p) < n:
        if all(c % q for q in p):
            p.append(c)
        c += 1
    return p


def iroot(x, k):
    r = int(round(x ** (1.0 / k)))
    while r ** k > x:
        r -= 1
    while (r + 1) ** k <= x:
        r += 1
    return r


# first 32 bits of the fractional parts of the square and cube roots of the first primes
H0 = [iroot(p << 64, 2) & 0xffffffff for p in primes(8)]
K = [iroot(p << 96, 3) & 0xffffffff for p in primes(64)]


def compress(h, w):
    w = list(w)
    for t in range(16, 64):
        x, y = w[t - 15], w[t - 2]
        s0 = xor(xor(ror(x, 7), ror(x, 18)), shr(x, 3))
        s1 = xor(xor(ror(y, 17), ror(y, 19)), shr(y, 10))
        w.append(add(add(s1, w[t - 7]), add(s0, w[t - 16])))
    a, b, c, d, e, f, g, hh = h
    for t in range(64):
        S1 = xor(xor(ror(e, 6), ror(e, 11)), ror(e, 25))
        ch = xor(and_(e, f), and_(not_(e), g))
        t1 = add(add(add(hh, S1), ch), add(w[t], K[t]))
        S0 = xor(xor(ror(a, 2), ror(a, 13)), ror(a, 22))
        mj = xor(xor(and_(a, b), and_(a, c)), and_(b, c))
        t2 = add(S0, mj)
        a, b, c, d, e, f, g, hh = add(t1, t2), a, b, c, add(d, t1), e, f, g
    return [add(x, y) for x, y in zip(h, (a, b, c, d, e, f, g, hh))]


def sha256_64(m):
    """m: sixteen big-endian words"""
    h = compress(H0, m)
    return compress(h, [0x80000000] + [0] * 14 + [512])
