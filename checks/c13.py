import boot
boot.install()
import math
import random
from fractions import Fraction

import numpy as np
import keys
import vf
import gen
from vf import Skip, Sub, require
from hypothesis import strategies as st
from Cryptodome.PublicKey import RSA
from computing.d_table import DTable
from ml.secureprotol import encrypt as E
from ml.secureprotol.affine import AffineCipher, AffineCipherKey
from ml.secureprotol.affine_encoder import AffineEncoder

_rsa = {}


def rsa_key(bits, idx):
    if (bits, idx) not in _rsa:
        r = random.Random(bits * 100 + idx)
        _rsa[(bits, idx)] = RSA.generate(bits, lambda k: r.randbytes(k))
    return _rsa[(bits, idx)]


class FixedRandom:
    """Stands in for Cryptodome.Random: key generation becomes a function of the case."""

    @staticmethod
    def new():
        r = random.Random(vf._sys_rng.getrandbits(64))

        class G:
            read = staticmethod(lambda k: r.randbytes(k))
        return G


def value(v, n):
    kind, x = v
    if kind == "edge":
        return x if x >= 0 else n + x
    if kind == "bits":
        return min(n - 1, (1 << min(x, n.bit_length() - 1)) - 1)
    return random.Random(x).randrange(n)


def rsa(case, ctx):
    k = rsa_key(case["bits"], case["idx"])
    e, d, n = int(k.e), int(k.d), int(k.n)
    full = E.RsaEncrypt()
    require(full.encrypt(5) is None and full.decrypt(5) is None, "a cipher without keys returns %r and %r", full.encrypt(5), full.decrypt(5))
    full.set_public_key({"e": e, "n": n})
    require(full.decrypt(5) is None, "decryption without the private key returns %r", full.decrypt(5))
    require(tuple(full.get_public_key()) == (e, n), "the public key comes back as %r", full.get_public_key())
    only = E.RsaEncrypt()
    only.set_privacy_key({"d": d, "n": n})
    require(only.encrypt(5) is None, "encryption without the public key returns %r", only.encrypt(5))
    require(tuple(only.get_privacy_key()) == (d, n), "the private key comes back as %r", only.get_privacy_key())
    pub = full
    if case["both"]:
        full.set_privacy_key({"d": d, "n": n})
        require(tuple(full.get_key_pair()) == (e, d, n), "the key pair comes back as %r", full.get_key_pair())
        only = full
    vals = [value(v, n) for v in case["values"]]
    for m in vals:
        c = pub.encrypt(m)
        require(type(c) is int and c == pow(m, e, n), "encryption of %d is %r", m, c)
        p = only.decrypt(c)
        require(p == m, "%d decrypts to %r", m, p)
    cs = pub.encrypt_list(vals)
    require(cs == [pow(m, e, n) for m in vals], "encrypting the list differs from encrypting its elements")
    require(only.decrypt_list(cs) == vals, "the list decrypts to %r", only.decrypt_list(cs))
    t = DTable(True, [(("k", i), m) for i, m in enumerate(vals)])
    ct = pub.distribute_encrypt(t)
    require(list(ct.collect()) == [(("k", i), c) for i, c in enumerate(cs)], "encrypting the table differs from encrypting its elements")
    require(list(only.distribute_decrypt(ct).collect()) == list(t.collect()), "the table decrypts differently")
    ctx.mark(any(m > 1 for m in vals))
    ctx.label("both" if case["both"] else "apart")


def rsa_keygen(case, ctx):
    old = E.Random
    E.Random = FixedRandom
    try:
        c = E.RsaEncrypt()
        c.generate_key(case["bits"]) if case["bits"] != 1024 or case["seed"] % 2 else c.generate_key()
    finally:
        E.Random = old
    e, d, n = (int(x) for x in c.get_key_pair())
    require(n.bit_length() == case["bits"], "a %d-bit key has a modulus of %d bits", case["bits"], n.bit_length())
    for i in range(5):
        m = random.Random(case["seed"] * 7 + i).randrange(n)
        require(c.decrypt(c.encrypt(m)) == m and pow(pow(m, e, n), d, n) == m, "%d decrypts to %r", m, c.decrypt(c.encrypt(m)))
    o = E.RsaEncrypt()
    pe, pn = c.get_public_key()
    pd, pn2 = c.get_privacy_key()
    o.set_public_key({"e": pe, "n": pn})
    require(c.decrypt(o.encrypt(m)) == m, "after handing over the public key %d decrypts to %r", m, c.decrypt(o.encrypt(m)))
    o.set_privacy_key({"d": pd, "n": pn2})
    require(o.decrypt(c.encrypt(m)) == m, "after handing over the private key %d decrypts to %r", m, o.decrypt(c.encrypt(m)))
    ctx.mark()


def affine(case, ctx):
    size = case["bits"]
    ar, br = case["ratios"]
    if case["default"]:
        c = E.AffineEncrypt()
        require(c.encrypt(3) is None and c.decrypt(3) is None, "a cipher without a key returns %r", c.encrypt(3))
        c.generate_key(size)
        key = c.key
    else:
        kw = {}
        if ar is not None:
            kw["a_ratio"] = ar
        if br is not None:
            kw["b_ratio"] = br
        key = c = AffineCipher.generate_keypair(key_size=size, encode_precision=2 ** case["prec"], **kw)
    n = key.n
    require(isinstance(key, AffineCipherKey) and n.bit_length() <= size, "a %d-bit key has a modulus of %d bits", size, n.bit_length())
    mult = 2 ** 100 if case["default"] else 2 ** case["prec"]

    def room(x):
        if not -(n // 16) < x * mult < n * 3 // 4:
            raise Skip()
        return x

    def scaled(x):
        return Fraction(int(mult * Fraction(x)), mult)

    def check(ct, want, what):
        d = c.decrypt(ct)
        require(abs(Fraction(d) - want) <= abs(want) * Fraction(1, 2 ** 51), "%s decrypts to %r instead of %r", what, d, float(want))

    acc = acc_v = None
    text = ""
    for x, k, op in case["terms"]:
        v = scaled(x)
        room(v)
        ct = c.encrypt(x)
        check(ct, v, "%r" % x)
        room(v * k)
        term = ct * k if op % 2 else k * ct
        check(term, v * k, "%d * %r" % (k, x))
        if acc is None:
            acc, acc_v, text = term, v * k, "%d*%r" % (k, x)
        elif op < 4:
            acc, acc_v, text = acc + term, acc_v + v * k, "%s + %d*%r" % (text, k, x)
        else:
            acc, acc_v, text = acc - term, acc_v - v * k, "%s - %d*%r" % (text, k, x)
        room(acc_v)
        check(acc, acc_v, text)
    check(sum([acc]), acc_v, "sum([%s])" % text)
    if -(n // 16) < -acc_v * mult < n * 3 // 4:
        check(0 - acc, -acc_v, "0 - (%s)" % text)
    for bad in (1, 1.5, "a", None):
        try:
            r = acc + bad
        except TypeError:
            continue
        require(False, "adding %r to a ciphertext gives %r", bad, r)
    for bad in (1.5, "a", None, acc):
        for op in (lambda: acc * bad, lambda: bad * acc):
            try:
                r = op()
            except TypeError:
                continue
            require(False, "multiplying a ciphertext by %r gives %r", bad, r)
    ctx.mark(len(case["terms"]) > 1 and acc_v != 0)
    ctx.label("neg" if acc_v < 0 else "pos")


def affine_edges(case, ctx):
    """Plaintexts anywhere in the range that decodes unambiguously: from a tenth of the modulus below zero to nine tenths of it above."""
    if case["default"]:
        c = E.AffineEncrypt()
        c.generate_key(case["bits"])
        n, mult = c.key.n, 2 ** 100
    else:
        c = AffineCipher.generate_keypair(key_size=case["bits"], encode_precision=2 ** case["prec"])
        n, mult = c.n, 2 ** case["prec"]
    if n.bit_length() < case["bits"] - 20:
        raise Skip()
    unit = n // mult
    top, bottom = unit * 9 // 10 - (unit >> 40) - 2, -(unit // 10) + (unit >> 40) + 2    # 0.9 is compared as a float

    def at(f):
        return (top if f[0] else bottom) * int(f[1] * 2 ** 40) // 2 ** 40

    def check(ct, v, what):
        d = c.decrypt(ct)
        require(abs(Fraction(d) - v) <= abs(v) * Fraction(1, 2 ** 51), "%s of modulus %d decrypts to %r instead of %d", what, n, d, v)

    for f in case["at"]:
        v = at(f)
        if unit < 64 or not bottom <= v <= top:
            continue
        check(c.encrypt(v), v, "%d" % v)
        a = at((f[0], f[1] / 3))
        check(c.encrypt(a) + c.encrypt(v - a), v, "%d + %d" % (a, v - a))
        k = 7
        check(c.encrypt(v // k) * k, v // k * k, "%d * %d" % (v // k, k))
        ctx.mark()
        ctx.label("above" if f[0] else "below")


def encoder(case, ctx):
    e = AffineEncoder(mult=2 ** case["prec"], trans=case["trans"])
    tot, raw = Fraction(0), 0
    k = 0
    for x in case["values"]:
        r = e.encode(x)
        require(type(r) is int, "%r is encoded as %r", x, r)
        d = e.decode(r)
        tol = Fraction(1, 2 ** case["prec"]) + Fraction(abs(x) + case["trans"]) / 2 ** 50
        require(abs(Fraction(d) - Fraction(x)) <= tol, "%r decodes to %r", x, d)
        tot, raw, k = tot + Fraction(x), raw + r, k + 1
        d = e.decode(raw, k)
        require(abs(Fraction(d) - tot) <= k * (Fraction(1, 2 ** case["prec"]) + Fraction(sum(map(abs, case["values"])) + k * case["trans"]) / 2 ** 49),
                "the sum of %d encodings decodes to %r instead of %r", k, d, float(tot))
    ctx.mark(len(case["values"]) > 1)


def bulk(case, ctx):
    rnd = random.Random(case["seed"])
    shape = tuple(case["shape"])
    size = int(np.prod(shape))
    vals = [case["values"][rnd.randrange(len(case["values"]))] for _ in range(size)]
    name = case["cipher"]
    if name == "paillier":
        c = keys.encrypter(case["bits"])
        bare = E.PaillierEncrypt()
    elif name == "rsa":
        k = rsa_key(1024, 0)
        c = E.RsaEncrypt()
        c.set_public_key({"e": int(k.e), "n": int(k.n)}), c.set_privacy_key({"d": int(k.d), "n": int(k.n)})
        bare = E.RsaEncrypt()
        vals = [abs(int(v)) for v in vals]
    else:
        c, bare = E.FakeEncrypt(), None
    if bare is not None:
        require(bare.encrypt(vals[0]) is None and bare.decrypt(vals[0]) is None, "a cipher without keys returns %r", bare.encrypt(vals[0]))
    wide = case["wide"] and name != "fake"
    if wide:
        vals = [case["wide"][rnd.randrange(len(case["wide"]))] for _ in range(size)]
        A = np.empty(size, dtype=object)
        A[:] = [abs(v) if name == "rsa" else v for v in vals]
        A = A.reshape(shape)
    elif case["ints"] or name == "rsa":
        A = np.array([int(v) for v in vals], dtype=np.int64).reshape(shape)
    else:
        A = np.array(vals, dtype=float).reshape(shape)
    flat = [x if type(x) is int else x.item() for x in A.flat]
    # numpy itself makes floats of lists that mix signs and integers of 64 bits
    exact = A.dtype.kind == "O" and (case["form"] != "list" or np.array(A.tolist()).dtype.kind in "Oi")

    def dec(x):
        return c.decrypt(x)

    def same(got, what):
        got = list(got)
        require(len(got) == len(flat), "%s: %d values instead of %d", what, len(got), len(flat))
        for g, w in zip(got, flat):
            require(abs(float(g) - w) <= 1e-12 * abs(w), "%s: %r instead of %r", what, g, w)
            require(not (wide and exact) or what == "recursive_decrypt" or (type(g) is int and g == w), "%s: %r instead of %r", what, g, w)

    el = c.encrypt_list(flat)
    require(type(el) is list, "encrypt_list returns %r", type(el))
    same([dec(x) for x in el], "encrypt_list")
    dl = c.decrypt_list(el)
    require(type(dl) is list, "decrypt_list returns %r", type(dl))
    same(dl, "decrypt_list")
    ks = ["r%d" % ((i * 7) % 101) if case["strkeys"] else i * 2 - 3 for i in range(size)]
    t = DTable(True, list(zip(ks, flat)))
    et = list(c.distribute_encrypt(t).collect())
    require([k for k, _ in et] == ks, "distribute_encrypt: keys %r instead of %r", [k for k, _ in et], ks)
    same([dec(v) for _, v in et], "distribute_encrypt")
    dt = list(c.distribute_decrypt(DTable(True, et)).collect())
    require([k for k, _ in dt] == ks, "distribute_decrypt: keys %r instead of %r", [k for k, _ in dt], ks)
    same([v for _, v in dt], "distribute_decrypt")
    require(list(t.collect()) == list(zip(ks, flat)), "the caller's table changes")

    src = A
    if case["form"] == "list":
        src = A.tolist()
    elif case["form"] == "table":
        rows = list(A)
        src = DTable(True, list(zip(ks, rows)))
    want = (1,) + shape if len(shape) == 1 else shape
    Ea = c.recursive_encrypt(src)
    require(isinstance(Ea, np.ndarray) and Ea.shape in (want, shape), "encrypting an array of shape %r gives shape %r", shape, getattr(Ea, "shape", type(Ea)))
    same([dec(x.item() if isinstance(x, np.generic) else x) for x in Ea.flat], "recursive_encrypt")
    if name == "paillier":
        require(Ea.dtype == object, "encrypting an array gives elements of type %s", Ea.dtype)
    back = {"array": Ea, "list": list(Ea) if Ea.shape == want and len(want) == 1 else Ea.tolist(), "table": None}[case["form"]]
    if back is None:
        back = DTable(True, list(zip(ks, list(Ea) if Ea.shape == shape else list(Ea[0]))))
    Da = c.recursive_decrypt(back)
    require(isinstance(Da, np.ndarray) and Da.shape in (want, shape), "decrypting an array of shape %r gives shape %r", shape, getattr(Da, "shape", type(Da)))
    require(Da.dtype == np.float64, "decrypting an array gives elements of type %s", Da.dtype)
    same(Da.flat, "recursive_decrypt")
    require([x if type(x) is int else x.item() for x in A.flat] == flat, "the caller's array changes")
    ctx.mark(size > 1 and len(shape) > 1)
    ctx.label(name, case["form"], "%dd" % len(shape))


rv = st.one_of(st.tuples(st.just("edge"), st.integers(-3, 5)), st.tuples(st.just("bits"), st.integers(1, 1100)), st.tuples(st.just("any"), st.integers(0, 10 ** 6)))
real = st.one_of(st.integers(-1000, 1000), st.floats(-1000, 1000).map(lambda x: x if abs(x) > 1e-12 else 0.0), st.sampled_from([0, 0.5, -0.1, 1e6, 2 ** 40, -1e-9]))
terms = st.lists(st.tuples(real, st.integers(-20, 20), st.integers(0, 5)), min_size=1, max_size=6)

SUBS = [
    Sub("rsa", st.fixed_dictionaries({"bits": st.just(1024), "idx": st.integers(0, 3), "both": st.booleans(), "values": st.lists(rv, min_size=1, max_size=4)}),
        rsa, quick=300, thorough=4000, shards=6, tshards=8, rule="1-4 plaintexts from the whole range of a 1024-bit key, keys together or handed over apart; non-trivial = a plaintext above 1"),
    Sub("rsa_keygen", st.fixed_dictionaries({"bits": st.sampled_from([1024, 1024, 1280]), "seed": st.integers(0, 10 ** 6)}), rsa_keygen, quick=16, thorough=120, shards=8, tshards=8,
        rule="generated keys and a hand-over through getters and setters; all non-trivial"),
    Sub("affine", st.fixed_dictionaries({"bits": st.sampled_from([160, 200, 256, 300, 1024, 2048]), "prec": st.sampled_from([100, 100, 60, 80]), "default": st.booleans(),
                                         "ratios": st.tuples(st.sampled_from([None, 0.05, 0.5, 0.99, 1.0]), st.sampled_from([None, 0, 0.05, 0.5, 1.0])),
                                         "terms": terms, "salt": st.integers(0, 1000)}), affine, quick=6000, thorough=100000, shards=8, tshards=8,
        rule="a fresh key and a linear combination of 1-6 ciphertexts, decrypted after every step; non-trivial = several terms and a result not zero"),
    Sub("affine_edges", st.fixed_dictionaries({"bits": st.sampled_from([200, 256, 300, 1024]), "prec": st.sampled_from([100, 60, 80]), "default": st.booleans(), "salt": st.integers(0, 1000),
                                               "at": st.lists(st.tuples(st.booleans(), st.one_of(st.just(1.0), st.floats(0.5, 1), st.floats(0, 1))), min_size=1, max_size=5)}),
        affine_edges, quick=2000, thorough=40000, shards=4, tshards=4, rule="whole numbers up to both ends of the range, alone, as sums and as multiples; all non-trivial"),
    Sub("encoder", st.fixed_dictionaries({"prec": st.sampled_from([100, 60, 80]), "trans": st.sampled_from([0, 0, 1, 0.5, 1000]), "values": st.lists(real, min_size=1, max_size=6)}),
        encoder, quick=4000, thorough=60000, shards=2, tshards=4, rule="sums of 1-6 encodings, with and without translation; non-trivial = several"),
    Sub("bulk", st.fixed_dictionaries({"cipher": st.sampled_from(["paillier", "paillier", "rsa", "fake"]), "bits": st.sampled_from([256, 320]), "form": st.sampled_from(["array", "list", "table"]),
                                       "shape": st.lists(st.integers(1, 4), min_size=1, max_size=4).filter(lambda s: np.prod(s) <= 36), "ints": st.booleans(), "strkeys": st.booleans(),
                                       "wide": st.one_of(st.none(), st.none(), st.lists(gen.ints(120), min_size=1, max_size=5)),
                                       "values": st.lists(st.one_of(real, real, st.sampled_from([1e-13, -3.3e-20, 7e-50, 2.5e-100, 1e-7 / 3, 123456.789e10])), min_size=1, max_size=6), "seed": st.integers(0, 1000)}), bulk, quick=800, thorough=12000, shards=8, tshards=8,
        rule="lists, tables and arrays of 1-4 dimensions through the bulk operations of every cipher, against element-wise use; non-trivial = several values in two or more dimensions"),
]
SUBS.append(Sub("bulk_large", st.fixed_dictionaries({
    "cipher": st.sampled_from(["paillier", "fake", "rsa"]), "bits": st.just(256), "form": st.sampled_from(["array", "list", "table"]),
    "shape": st.sampled_from([[65], [129], [300], [20, 17], [3, 2, 60], [257, 1]]), "ints": st.booleans(), "strkeys": st.just(False), "wide": st.none(),
    "values": st.lists(real, min_size=1, max_size=6), "seed": st.integers(0, 1000)}), bulk, quick=24, thorough=300, shards=4, tshards=8, rule="as bulk with 65 to 340 values"))
ASSUMPTIONS = ["affine sums stay within the part of the range that decodes unambiguously"]
