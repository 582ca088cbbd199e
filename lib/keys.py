"""Key pairs that are a pure function of (bits, index), so that cases replay exactly."""
import random

import boot
boot.install()
import vf
from ml.secureprotol.encrypt import PaillierEncrypt
from ml.secureprotol.fate_paillier import PaillierKeypair

_cache = {}


def paillier(bits, idx=0):
    if (bits, idx) not in _cache:
        state = vf._sys_rng.getstate()
        old = random.SystemRandom
        vf._sys_rng.seed(bits * 1000 + idx)
        random.SystemRandom = vf.SeededSystemRandom
        try:
            _cache[(bits, idx)] = PaillierKeypair.generate_keypair(bits)
        finally:
            vf._sys_rng.setstate(state)
            random.SystemRandom = old
    return _cache[(bits, idx)]


def encrypter(bits, idx=0):
    e = PaillierEncrypt()
    pub, priv = paillier(bits, idx)
    e.set_public_key(pub)
    e.set_privacy_key(priv)
    return e


def isprime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    rnd = random.Random(n ^ 0xABCDEF)
    for _ in range(30):
        x = pow(rnd.randrange(2, n - 1), d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True
