import boot
boot.install()
import math
import pickle
import random
import gmpy2
import numpy as np
import keys
import gen
import vf
from keys import isprime
from vf import Sub, require
from hypothesis import strategies as st
from ml.secureprotol import gmpy_math
from ml.secureprotol.encrypt import PaillierEncrypt
from ml.secureprotol.fate_paillier import PaillierKeypair, PaillierPrivateKey, PaillierPublicKey


def generate(bits, how):
    if how == 0:
        return PaillierKeypair.generate_keypair(bits)
    e = PaillierEncrypt()
    e.generate_key(bits)
    require(e.get_key_pair() == (e.get_public_key(), e.get_privacy_key()), "the key pair differs from the two keys")
    return e.get_public_key(), e.get_privacy_key()


def check_pair(pub, priv, bits):
    n = pub.n
    require(isinstance(n, int) and n.bit_length() == bits, "asked for %d bits, the modulus has %d", bits, n.bit_length())
    require(priv.p * priv.q == n, "the private key does not factor the modulus")
    require(priv.p != priv.q and isprime(priv.p) and isprime(priv.q), "p = %d, q = %d are not two different primes", priv.p, priv.q)
    require(priv.public_key == pub and pub.nsquare == n * n and pub.g == n + 1, "public values of the key are inconsistent")
    require(math.gcd(n, (priv.p - 1) * (priv.q - 1)) == 1, "the modulus is not coprime to phi")
    require(1 <= pub.max_int and 2 * pub.max_int < n and pub.max_int >= n // 4, "the range of the key is %d of %d", pub.max_int, n)


def keygen(case, ctx):
    vf.real_system_random()
    bits = case["bits"]
    seen = []
    for _ in range(case["times"]):
        # a program that seeds the ordinary generators must not get predictable keys
        random.seed(case["seed"])
        np.random.seed(case["seed"])
        pub, priv = generate(bits, case["how"])
        check_pair(pub, priv, bits)
        for m in case["values"]:
            m = m % (2 ** 40)
            require(priv.decrypt(pub.encrypt(m)) == m and priv.decrypt(pub.encrypt(-m)) == -m, "%d decrypts to %r", m, priv.decrypt(pub.encrypt(m)))
        seen.append(pub.n)
        for x in (priv.p, priv.q):
            k = x.bit_length()
            if k >= 64:
                low = x - (1 << (k - 1))
                require(low.bit_length() > k - 45, "the prime %d is hardly random", x)
    if bits >= 96:
        require(len(set(seen)) == len(seen), "generating keys again gives the same key: %r", seen)
    ctx.mark()
    ctx.label("odd" if bits % 2 else "even")


def keygen_small(case, ctx):
    """Keys so short that the two primes would often be equal."""
    pub, priv = generate(case["bits"], case["how"])
    n = pub.n
    require(n.bit_length() == case["bits"] and priv.p * priv.q == n, "asked for %d bits: modulus %d, primes %d and %d", case["bits"], n, priv.p, priv.q)
    require(priv.p != priv.q and isprime(priv.p) and isprime(priv.q), "p = %d, q = %d are not two different primes", priv.p, priv.q)
    for m in case["values"]:
        m = m % (pub.max_int + 1)
        for v in (m, -m):
            require(priv.decrypt(pub.encrypt(v, random_value=1)) == v, "modulus %d: %d decrypts to %r", n, v, priv.decrypt(pub.encrypt(v, random_value=1)))
    ctx.mark()
    ctx.label("%d bits" % case["bits"])


def blinding_factor(pub, priv, c):
    """r of c = (1+n)^m r^n mod n^2."""
    n = pub.n
    lam = (priv.p - 1) * (priv.q - 1)
    return pow(c % n, pow(n, -1, lam), n)


def randomised(case, ctx):
    vf.real_system_random()
    pub, priv = keys.paillier(case["bits"], case["key"])
    n2 = pub.nsquare
    vf.real_system_random()
    floor = pub.n >> 64
    factors = []

    def blinded(c, what):
        r = blinding_factor(pub, priv, c)
        require(r != 1, "%s is not blinded", what)
        require(r > floor, "%s is blinded with the small number %d", what, r)
        factors.append(r)

    v = case["v"]
    cs = []
    for _ in range(case["times"]):
        random.seed(case["seed"])
        np.random.seed(case["seed"])
        c = pub.encrypt(v)
        raw = c.ciphertext(be_secure=False)
        require(0 < raw < n2 and math.gcd(raw, pub.n) == 1, "the ciphertext %d is not a unit modulo n^2", raw)
        blinded(raw, "the encryption of %r" % (v,))
        cs.append(c)
        back = pickle.loads(pickle.dumps(c))
        require(back.ciphertext(False) == raw and priv.decrypt(back) == priv.decrypt(c), "a pickled ciphertext comes back differently")
    require(len({c.ciphertext(False) for c in cs}) == len(cs), "encrypting %r twice gives the same ciphertext", v)
    want = priv.decrypt(cs[0])
    require(all(priv.decrypt(c) == want for c in cs), "encryptions of one value decrypt differently")
    # results of computations, when handed out
    a = cs[0]
    unblinded = pub.encrypt(v, random_value=1) if case["explicit"] else pub.encrypt(v) * 0
    outs = [("E(v)*0", a * 0, 0), ("E(v)+0", a + 0, v), ("E(v)*2", a * 2, 2 * v), ("E(v)+E(v)", a + cs[-1], 2 * v), ("E(v)-E(v)", a - a, 0),
            ("E(v)+s", a + case["s"], v + case["s"]), ("unblinded", unblinded, v if case["explicit"] else 0),
            ("product of unblinded", unblinded * 3, 3 * (v if case["explicit"] else 0))]
    for f in case["factors"]:
        # products carry the exponents of all their factors
        outs.append(("%s*%r" % (outs[-1][0], f), outs[-1][1] * f, outs[-1][2] * f))
        outs.append(("E(%r)+E(%r)" % (v * f, f), pub.encrypt(v * f) + pub.encrypt(f), v * f + f))
        outs.append(("%r+E(%r)" % (v, f), v + pub.encrypt(f), v + f))
    for what, c, value in outs:
        plain = c.ciphertext(be_secure=False)
        first = c.ciphertext()
        require(first != plain, "%s is handed out as the bare result of the computation", what)
        got = priv.decrypt(c)
        require(abs(got - value) <= 1e-9 * (1 + abs(value)), "%s, after being handed out, decrypts to %r, expected %r", what, got, value)
        r0, r1 = blinding_factor(pub, priv, plain), blinding_factor(pub, priv, first)
        fresh = r1 * pow(r0, -1, pub.n) % pub.n
        require(fresh > floor, "%s is handed out with the small blinding %d", what, fresh)
        factors.append(fresh)
        require(c.ciphertext() == c.ciphertext(False), "%s changes every time it is read", what)
    require(len(set(factors)) == len(factors), "the same blinding factor is used twice")
    ctx.mark(case["times"] > 1)


def refused(fn, what):
    try:
        fn()
    except (ValueError, TypeError):
        return
    raise vf.Violation("%s is not refused" % what)


def wrong_keys(case, ctx):
    pa, sa = keys.paillier(case["bits"], 0)
    pb, sb = keys.paillier(case["bits2"], 1)
    x, y = pa.encrypt(case["v"]), pb.encrypt(case["w"])
    refused(lambda: x + y, "adding numbers under different keys")
    refused(lambda: y + x, "adding numbers under different keys")
    refused(lambda: x - y, "subtracting numbers under different keys")
    refused(lambda: sb.decrypt(x), "decrypting under the wrong key")
    refused(lambda: sa.decrypt(y), "decrypting under the wrong key")
    refused(lambda: sa.decrypt(case["v"]), "decrypting a plain number")
    refused(lambda: x * y, "multiplying two encrypted numbers")
    refused(lambda: x * x, "multiplying two encrypted numbers")
    refused(lambda: PaillierPrivateKey(pa, sb.p, sb.q), "a private key for another public key")
    refused(lambda: PaillierPrivateKey(PaillierPublicKey(sa.p * sa.p), sa.p, sa.p), "a private key with equal primes")
    refused(lambda: sa.raw_decrypt(1.5), "decrypting a float")
    same = PaillierPublicKey(pa.n)
    require(same == pa and hash(same) == hash(pa), "equal public keys differ")
    require(abs(sa.decrypt(same.encrypt(case["v"]) + x) - 2 * case["v"]) <= 1e-9 * (1 + abs(case["v"])), "numbers under equal keys do not combine")
    e1, e2 = PaillierEncrypt(), PaillierEncrypt()
    require(e1.encrypt(3) is None and e1.decrypt(x) is None, "a cipher without keys returns a value")
    e1.set_public_key(pa)
    e2.set_privacy_key(sa)
    require(e1.decrypt(x) is None and e2.encrypt(3) is None, "a cipher without the needed key returns a value")
    require(e2.decrypt(e1.encrypt(case["v"])) == sa.decrypt(x), "keys handed over give another value")
    ctx.mark()


def helpers(case, ctx):
    a, b, m = case["a"], case["b"], case["m"]
    if m > 1:
        require(gmpy_math.powmod(a, b, m) == pow(a, b, m), "%d ** %d mod %d is %r, reported %r", a, b, m, pow(a, b, m), gmpy_math.powmod(a, b, m))
    try:
        x = gmpy_math.invert(a, m)
    except ZeroDivisionError:
        require(m < 2 or math.gcd(a, m) != 1, "%d has an inverse modulo %d, but it is refused", a, m)
        ctx.label("no inverse")
    else:
        require(type(x) is int and 0 <= x < max(m, 1) and (a * x) % m == 1 % m, "the inverse of %d modulo %d is reported as %r", a, m, x)
        ctx.label("inverse")
    r = gmpy_math.isqrt(a)
    require(type(r) is int and r * r <= a < (r + 1) ** 2, "the integer square root of %d is reported as %r", a, r)
    n = case["bits"]
    p = gmpy_math.getprimeover(n)
    require(type(p) is int and p.bit_length() == n and gmpy2.is_prime(p, 40), "a prime of %d bits: %r", n, p)
    ctx.mark(m > 2 and a > 1 and b > 1)


value = st.one_of(st.integers(-10 ** 6, 10 ** 6), gen.ints(60), st.integers(-9999, 9999).map(lambda v: v / 16.0))
natural = st.one_of(st.integers(1, 40), gen.ints(70, False).map(lambda v: v + 1), st.integers(1, 600).flatmap(lambda k: st.integers(1, 2 ** k)), st.integers(2 ** 64 - 3, 2 ** 64 + 3))
SUBS = [
    Sub("keygen", st.fixed_dictionaries({"bits": st.one_of(st.integers(64, 200), st.sampled_from([64, 65, 66, 127, 128, 129, 255, 256, 257, 511, 512])),
                                         "times": st.integers(2, 3), "seed": st.integers(0, 99), "how": st.integers(0, 1),
                                         "values": st.lists(gen.ints(40, False), min_size=1, max_size=3)}),
        keygen, quick=240, thorough=4000, shards=8, tshards=8, rule="2-3 key pairs of one length with the ordinary generators re-seeded each time, primality tested "
        "independently; all non-trivial"),
    Sub("keygen_small", st.fixed_dictionaries({"bits": st.integers(4, 16).map(lambda k: 2 * k), "how": st.integers(0, 1), "salt": st.integers(0, 10 ** 6),
                                               "values": st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=4)}),
        keygen_small, quick=2000, thorough=20000, shards=2, rule="keys of 8 to 32 bits, where choosing the same prime twice is likely; all non-trivial"),
    Sub("keygen_default", st.fixed_dictionaries({"bits": st.sampled_from([1024, 1023]), "times": st.just(1), "seed": st.integers(0, 99), "how": st.integers(0, 1),
                                                 "values": st.just([5])}), keygen, quick=4, thorough=40, shards=2, rule="default key length"),
    Sub("randomised", st.fixed_dictionaries({"bits": st.sampled_from([256, 320, 384]), "key": st.integers(0, 2), "v": value, "s": st.integers(-50, 50),
                                             "times": st.integers(1, 4), "seed": st.integers(0, 99), "explicit": st.booleans(),
                                             "factors": st.lists(st.one_of(st.integers(1, 999).map(lambda k: k / 8.0), st.sampled_from([1e-20, -1e-9, 0.1])), max_size=2)}),
        randomised, quick=800, thorough=10000, shards=8, tshards=8,
        rule="encryptions of one value and results of operations; the blinding factor of each ciphertext is recovered with the private key; non-trivial = several encryptions"),
    Sub("helpers", st.fixed_dictionaries({"a": natural, "b": st.one_of(st.integers(0, 300), natural), "m": natural, "bits": st.integers(20, 300)}), helpers,
        quick=2000, thorough=40000, shards=2, rule="the modular arithmetic underneath (power, inverse, root, primes) against Python's own; non-trivial = operands above one"),
    Sub("wrong_keys", st.fixed_dictionaries({"bits": st.sampled_from([128, 192, 256]), "bits2": st.sampled_from([128, 192, 256]), "v": value, "w": value}),
        wrong_keys, quick=240, thorough=2000, shards=4, rule="two keys mixed in every operation; all non-trivial"),
]
ASSUMPTIONS = ["the system's random source is random (probabilities of false alarm below 2^-40 per case)"]
