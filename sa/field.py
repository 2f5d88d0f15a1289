"""Arithmetic of the fingerprint domain: the field F_{p^2}, p = 3 mod 4 (so that i^2 = -1 is irreducible).

A fingerprint is the image of a value-graph node under a ring homomorphism from the ring of expressions into
the field (random interpretation, Gulwani & Necula 2003): two nodes that are equal as algebraic expressions
have equal fingerprints; two nodes that are not equal collide with probability about 1e-18.
Elements of the base field are Python ints, the others are instances of Ext.
"""
import hashlib

# p = 2^61 - 1 is 7 mod 8: 2 is a quadratic residue; but 3, 5, ... need not be. The prime below is congruent
# to 7 mod 8 and every prime up to 37 is a quadratic residue, hence sqrt(a * b) = sqrt(a) * sqrt(b) for all of them.


def _is_prime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


P = 2305843009213682039
assert P % 8 == 7 and _is_prime(P) and all(pow(q, (P - 1) // 2, P) == 1 for q in (2, 3, 5, 7, 11, 13, 17, 19, 23))
_HALF = (P - 1) // 2
_QUARTER = (P + 1) // 4


class Ext:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __eq__(self, o):
        return isinstance(o, Ext) and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash((self.a, self.b))

    def __repr__(self):
        return f"({self.a}+{self.b}i)"


def _norm(a, b):
    return a if b == 0 else Ext(a, b)


def add(x, y):
    if type(x) is int:
        if type(y) is int:
            return (x + y) % P
        return _norm((x + y.a) % P, y.b)
    if type(y) is int:
        return _norm((x.a + y) % P, x.b)
    return _norm((x.a + y.a) % P, (x.b + y.b) % P)


def neg(x):
    if type(x) is int:
        return -x % P
    return Ext(-x.a % P, -x.b % P)


def mul(x, y):
    if type(x) is int:
        if type(y) is int:
            return x * y % P
        return _norm(x * y.a % P, x * y.b % P)
    if type(y) is int:
        return _norm(x.a * y % P, x.b * y % P)
    return _norm((x.a * y.a - x.b * y.b) % P, (x.a * y.b + x.b * y.a) % P)


def inv(x):
    if type(x) is int:
        return pow(x, -1, P)
    n = pow(x.a * x.a + x.b * x.b, -1, P)
    return _norm(x.a * n % P, -x.b * n % P)


def powi(x, n):
    if n < 0:
        return powi(inv(x), -n)
    if type(x) is int:
        return pow(x, n, P)
    r = 1
    while n:
        if n & 1:
            r = mul(r, x)
        x = mul(x, x)
        n >>= 1
    return r


def is_qr(x):
    return type(x) is int and (x == 0 or pow(x, _HALF, P) == 1)


def sqrt(x):
    """A fixed square root; multiplicative on quadratic residues."""
    if type(x) is int:
        if x == 0:
            return 0
        if pow(x, _HALF, P) == 1:
            r = pow(x, _QUARTER, P)  # itself a residue
            return r
        return Ext(0, pow(-x % P, _QUARTER, P))
    # general square root in F_{p^2}: x = a + bi, find (c + di)^2 = x
    n = (x.a * x.a + x.b * x.b) % P  # the norm of a square is a square in F_p
    if not is_qr(n):
        return None
    s = pow(n, _QUARTER, P)
    half = pow(2, -1, P)
    for sg in (s, -s % P):
        c2 = (x.a + sg) * half % P
        if c2 and is_qr(c2):
            c = pow(c2, _QUARTER, P)
            d = x.b * half % P * pow(c, -1, P) % P
            return _norm(c, d)
    return None


def legendre(x):
    if type(x) is int:
        if x == 0:
            return 0
        return 1 if pow(x, _HALF, P) == 1 else P - 1
    return 1


def hash_elt(*key):
    """A pseudo random non zero quadratic residue (so that sqrt and abs behave as on positive reals)."""
    h = hashlib.blake2b(repr(key).encode(), digest_size=16).digest()
    v = int.from_bytes(h, "big") % P
    v = v or 1
    # 8-th power: roots of order 2, 4, 8 are available and are residues themselves
    return pow(v, 8, P)


def hash_signed(*key):
    """the same, of a sign that is part of the evaluation"""
    h = hashlib.blake2b(repr(key).encode(), digest_size=17).digest()
    v = hash_elt(*key)
    return v if h[16] & 1 else P - v


def frac(fr):
    n, d = fr.numerator, fr.denominator
    if d == 1:
        return n % P
    return n % P * pow(d, -1, P) % P
