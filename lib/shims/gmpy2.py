"""Pure-Python stand-in for the gmpy2 calls this repository makes (gmpy2 is not installed here)."""
import math
import random as _random

mpz = int


def powmod(a, b, c):
    return pow(int(a), int(b), int(c))


def invert(a, b):
    try:
        return pow(int(a), -1, int(b))
    except ValueError:
        raise ZeroDivisionError("invert() no inverse exists")


def bit_set(x, n):
    return int(x) | (1 << n)


def isqrt(n):
    return math.isqrt(int(n))


def gcd(*a):
    return math.gcd(*[int(x) for x in a])


_SMALL = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97,
          101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199]


def is_prime(n, k=25):
    n = int(n)
    if n < 2:
        return False
    for p in _SMALL:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    rnd = _random.Random(n)
    bases = _SMALL[:12] if n < 3317044064679887385961981 else [rnd.randrange(2, n - 1) for _ in range(k)]
    for a in bases:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def next_prime(n):
    n = int(n) + 1
    if n <= 2:
        return 2
    if n % 2 == 0:
        n += 1
    while not is_prime(n):
        n += 2
    return n
