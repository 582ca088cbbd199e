import boot
boot.install()
import math
import random
from fractions import Fraction

import numpy as np
import gen
from vf import Skip, Sub, require
from hypothesis import strategies as st
from ml.secureprotol.fixedpoint import FixedPointNumber as FP

Q = 293973345475167247070445277780365744413
REL = Fraction(1, 2 ** 48)


def modulus(case):
    if case["nbits"] is None:
        return None, None, Q // 3 - 1
    n = random.Random(case["nseed"]).getrandbits(case["nbits"]) | 1 | (1 << (case["nbits"] - 1))
    return n, n // 3 - 1, n // 3 - 1


KINDS = {"int": int, "float": float, "np.int16": np.int16, "np.int32": np.int32, "np.int64": np.int64, "np.float16": np.float16, "np.float32": np.float32,
         "np.float64": np.float64}


def make(v):
    kind, x = v
    if kind.startswith("np.int"):
        b = int(kind[6:]) - 1
        x = max(-2 ** b, min(2 ** b - 1, int(x)))
    if kind == "np.float16":
        x = max(-6e4, min(6e4, x))
    if kind == "np.float32":
        x = max(-3e38, min(3e38, x))
        if abs(x) < 1e-30:
            x = 0.0
    return KINDS[kind](x)


def exact(x):
    """The value as a Fraction, whether it counts as an integer, and the number of base-16 digits its encoding has."""
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x)), True, 0
    x = float(x)
    if abs(x) < 1e-200:
        return Fraction(0), True, 0
    return Fraction(x), False, math.floor((53 - math.frexp(x)[1]) / 4)


def size(v, exp):
    return abs(v) * Fraction(16) ** exp


def close(got, want, scale, what, *args):
    if isinstance(got, float) and not math.isfinite(got):
        require(False, what + ": %r instead of %r", *args, got, float(want))
    require(abs(Fraction(got) - want) <= REL * scale, what + ": %r instead of %s", *args, got, float(want))


def encode(case, ctx):
    x = make(case["v"])
    v, isint, exp = exact(x)
    n, m, maxint = modulus(case)
    fits = size(v, exp) <= maxint
    if not fits and size(v, exp) <= maxint + 2:
        raise Skip()
    try:
        e = FP.encode(x, n, m)
    except (ValueError, OverflowError) as err:
        require(not fits, "encoding %r for a modulus of %d bits is refused: %s", x, maxint.bit_length(), err)
        ctx.label("refused")
        ctx.mark()
        return
    require(fits, "%r does not fit a modulus of %d bits but is encoded (decodes to %r)", x, maxint.bit_length(), e.decode())
    d = e.decode()
    if isint and not isinstance(x, (float, np.floating)):
        require(d == int(v), "%r decodes to %r", x, d)
    elif isint:
        require(abs(d) < 1e-199, "%r decodes to %r", x, d)
    else:
        close(d, v, abs(v), "%r decodes", x)
    require(e.n == (n or Q), "the encoding's modulus is %r", e.n)
    require(0 <= e.encoding < e.n, "encoding %r outside the modulus", e.encoding)
    for up in (0, 1, 5, 60, 130, 250):
        if size(v, e.exponent + up) < maxint and (e.exponent + up <= 0 or abs(v) < 10 ** 308):
            u = e.increase_exponent_to(e.exponent + up)
            close(u.decode(), v, abs(v), "%r decodes after a change of exponent by %d", x, up)
    least = case["least"]
    if least is not None and size(v, max(least, exp)) < maxint and abs(least) < 60 and (isint or size(v, max(least, exp)) < 2 ** 1000):
        k = FP.encode(x, n, m, max_exponent=least)
        require(k.exponent >= least, "the exponent %r is below the one asked for, %r", k.exponent, least)
        close(k.decode(), v, abs(v), "%r encoded with exponent %d decodes", x, least)
        ctx.label("least")
    ctx.mark(v != 0)
    ctx.label(case["v"][0], "neg" if v < 0 else "pos")


def compare(case, ctx):
    x, y = make(case["v"]), make(case["w"])
    (a, ia, ea), (b, ib, eb) = exact(x), exact(y)
    n, m, maxint = modulus(case)
    if size(a, ea) > maxint - 2 or size(b, eb) > maxint - 2:
        raise Skip()
    if not (ia and ib) and a != b and abs(a - b) <= 4 * REL * max(abs(a), abs(b)):
        raise Skip()
    if a == b and not (ia and ib) and type(x) is not type(y):
        raise Skip()
    p = FP.encode(x, n, m)
    # the two may belong to different moduli and have different exponents
    n2, m2, maxint2 = modulus({"nbits": case["nbits2"], "nseed": case["nseed"] + 1}) if case["nbits2"] else (n, m, maxint)
    if size(b, eb) > maxint2 - 2:
        raise Skip()
    q = FP.encode(y, n2, m2)
    up = case["up"]
    if up and size(a, max(p.exponent + up, ea)) < maxint and abs(a) < 2 ** 53:
        p = p.increase_exponent_to(p.exponent + up)
    if a == b:
        require(q == p, "equal numbers %r and %r compare unequal", y, x)
        require(p == q, "equal numbers %r and %r compare unequal", x, y)
    for name, want, f in (("<", a < b, lambda s, t: s < t), (">", a > b, lambda s, t: s > t), ("<=", a <= b, lambda s, t: s <= t),
                          (">=", a >= b, lambda s, t: s >= t), ("==", a == b, lambda s, t: s == t), ("!=", a != b, lambda s, t: s != t)):
        require(bool(f(p, q)) == want, "encodings of %r %s %r is %r", x, name, y, f(p, q))
        if (a != b or ia) and not isinstance(y, (np.float16, np.float32)):  # numpy compares those in their own type
            require(bool(f(p, y)) == want, "encoding of %r %s plain %r is %r", x, name, y, f(p, y))
        if not isinstance(x, np.generic) and (a != b or ia):
            require(bool(f(x, q)) == want, "plain %r %s encoding of %r is %r", x, name, y, f(x, q))
    ctx.mark(a != b)
    ctx.label("eq" if a == b else "ne", "other modulus" if case["nbits2"] else "one modulus", "raised" if up else "as encoded")


class M:
    """What the reference knows of a number: its value, the error allowed, the digits of its encoding."""

    def __init__(self, v, err, isint, exp):
        self.v, self.err, self.isint, self.exp = v, err, isint, exp


def plain(x, maxint):
    v, isint, exp = exact(x)
    return M(v, 0 if isint else REL * abs(v) / 4, isint, exp)


def fit(v, exp, maxint):
    if size(v, exp) > maxint // 4:
        raise Skip()


def digits(v, err):
    if abs(v) < Fraction(1, 10 ** 60):
        if v == 0 and not err:
            return 0
        raise Skip()  # cancellation to (almost) nothing: the digits needed are unbounded
    return max(0, math.floor((53 - math.frexp(float(v))[1]) / 4))


def renew(v, err, isint, maxint):
    """The reference for a value that is decoded and encoded again."""
    if isint:
        return M(v, err, True, 0)
    if v == 0 or abs(v) < Fraction(1, 10 ** 60):
        raise Skip()  # cancellation to (almost) nothing: the digits needed are unbounded
    if abs(v) > 2 ** 1000:
        raise Skip()
    exp = math.floor((53 - math.frexp(float(v))[1]) / 4)
    return M(v, err + REL * abs(v) / 3, exp <= 0 and v.denominator == 1, max(exp, 0) + 1)


def apply(op, a, b, maxint):
    r = _apply(op, a, b, maxint)
    if not r.isint and abs(r.v) > 2 ** 1000:
        raise Skip()  # not a float
    return r


def approx(v):
    return float(v) if abs(v) < 2 ** 1000 else int(v)


def _apply(op, a, b, maxint):
    if op in "+-":
        v = a.v + b.v if op == "+" else a.v - b.v
        # an operand or the result may be decoded and encoded again on the way, with the digits it needs then
        e = max([a.exp, b.exp, 0] + [digits(x.v, x.err) for x in (a, b) if not x.isint])
        fit(a.v, e, maxint), fit(b.v, e, maxint)
        if not (a.isint and b.isint) and v and abs(v) >= Fraction(1, 10 ** 60):
            e = max(e, digits(v, 0))
        return M(v, a.err + b.err + (0 if a.isint and b.isint else REL * (abs(a.v) + abs(b.v)) / 3), a.isint and b.isint, e + 1 if not (a.isint and b.isint) else 0)
    if op == "/":
        if b.v == 0:
            raise Skip()
        inv = 1 / b.v
        if b.err >= abs(b.v) / 1000 or abs(inv) < Fraction(1, 10 ** 60):
            raise Skip()
        r = M(inv, b.err * inv * inv * 2 + REL * abs(inv) / 4, False, math.floor((53 - math.frexp(float(inv))[1]) / 4) + 1)
        return _apply("*", a, r, maxint)
    if abs(a.v) > 0 and abs(b.v) > 0:
        fit(a.v * b.v, a.exp + b.exp + 1, maxint)
        fit(a.v, a.exp, maxint), fit(b.v, b.exp, maxint)
    v = a.v * b.v
    err = abs(a.v) * b.err + abs(b.v) * a.err + a.err * b.err
    if a.isint and b.isint:
        return M(v, err, True, 0)
    if v == 0:
        if err:
            raise Skip()
        return M(v, 0, False, 1)
    return renew(v, err, False, maxint)


def compute(op, x, y):
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    return x / y


def arithmetic(case, ctx):
    n, m, maxint = modulus(case)
    x = make(case["v"])
    cur_m = plain(x, maxint)
    fit(cur_m.v, cur_m.exp, maxint)
    cur = FP.encode(x, n, m)
    trail = "enc(%r)" % (x,)
    nontriv = 0
    for op, w, form, swap in case["ops"]:
        y = make(w)
        if isinstance(y, np.integer) and y == np.iinfo(type(y)).min:
            y = y.item()  # numpy has no negative of it
        ym = plain(y, maxint)
        if isinstance(y, np.generic) and (swap and form == "plain" or op == "/" and isinstance(y, (np.float16, np.float32, np.integer))):
            y = y.item()  # numpy's own operator would be used on the left; and 1/y would be rounded in its own type
            ym = plain(y, maxint)
        fit(ym.v, ym.exp, maxint)
        o = y
        if form == "enc":
            o = FP.encode(y, n, m)
        elif form == "other":  # encoded for the default modulus
            fit(ym.v, ym.exp, Q // 3)
            o = FP.encode(y)
        if form == "other" and swap:
            swap = False
        a, b = (ym, cur_m) if swap else (cur_m, ym)
        # what the operators compute internally must fit as well
        nm = apply(op, a, b, maxint)
        fit(nm.v, nm.exp, maxint)
        before = (cur.encoding, cur.exponent)
        new = compute(op, o, cur) if swap else compute(op, cur, o)
        require((cur.encoding, cur.exponent) == before, "the operand changes in %s %s %r", trail, op, y)
        s = "%s %s(%r)" % (op, form, y)
        trail = "(%s(%r) %s %s)" % (form, y, op, trail) if swap else "(%s %s)" % (trail, s)
        require(isinstance(new, FP), "%s is %r", trail, new)
        require(new.n == (n or Q), "%s has modulus %r instead of %r", trail, new.n, n or Q)
        require(0 <= new.encoding < new.n, "%s: encoding outside the modulus", trail)
        d = new.decode()
        if isinstance(d, float) and not math.isfinite(d):
            require(False, "%s is %r", trail, d)
        require(abs(Fraction(d) - nm.v) <= nm.err, "%s is %r instead of %r (allowed error %.3g)", trail, d, approx(nm.v), approx(nm.err))
        cur, cur_m = new, nm
        nontriv += nm.v != 0
        ctx.label(op + form[0] + ("r" if swap else ""))
    ctx.mark(nontriv)


whole = st.one_of(st.integers(-20, 20), st.integers(-10 ** 6, 10 ** 6), gen.ints(63), st.sampled_from([-2 ** 63, 2 ** 63 - 1, -2 ** 31, 2 ** 31, -2 ** 15]))
twoof = {"nbits2": st.sampled_from([None, None, 128, 200, 300]), "up": st.sampled_from([0, 0, 1, 3])}
real = st.one_of(st.integers(-20, 20).map(float), st.floats(-100, 100, allow_nan=False).filter(lambda x: x == 0 or abs(x) > 1e-9), st.floats(-1e6, 1e6).filter(lambda x: x == 0 or abs(x) > 1e-9),
                 st.sampled_from([0.0, -0.0, 0.1, -0.1, 1 / 3, 1e-5, 1e5, 2.0 ** -20, 2.0 ** 20 - 1]))
wide = st.one_of(real, st.floats(allow_nan=False, allow_infinity=False), st.tuples(st.floats(1, 16), st.integers(-250, 300)).map(lambda t: t[0] * 10.0 ** t[1]).filter(math.isfinite))
big = st.one_of(whole, st.tuples(st.sampled_from([-1, 1]), st.integers(0, 600), st.integers(-3, 3)).map(lambda t: t[0] * 2 ** t[1] + t[2]),
                st.tuples(st.sampled_from([-1, 1]), st.integers(-2, 2)).map(lambda t: t[0] * (Q // 3 - 1) + t[1]))


def typed(i, f, small=False):
    return st.one_of(st.tuples(st.just("int"), i), st.tuples(st.just("float"), f), st.tuples(st.sampled_from(["np.int16", "np.int32", "np.int64"]), whole),
                     st.tuples(st.just("np.float64"), f), st.tuples(st.sampled_from(["np.float32", "np.float16"]), real))


mods = {"nbits": st.sampled_from([None, None, 64, 80, 128, 129, 200, 256, 512, 1024, 2048]), "nseed": st.integers(0, 30)}
hugemods = {"nbits": st.sampled_from([1024, 1500, 2048, 3072]), "nseed": st.integers(0, 30)}
far = st.tuples(st.sampled_from([1, -1]), st.integers(0, 10 ** 6), st.integers(-290, 290)).map(lambda t: t[0] * (1 + t[1] / 1234577.0) * 2.0 ** t[2])
bigmods = {"nbits": st.sampled_from([None, None, 128, 129, 200, 256, 512]), "nseed": st.integers(0, 30)}
ops = st.tuples(st.sampled_from("++--**/"), typed(whole, real), st.sampled_from(["plain", "plain", "enc", "other"]), st.booleans())

SUBS = [
    Sub("encode", st.fixed_dictionaries(dict(mods, v=typed(big, wide), least=st.one_of(st.none(), st.integers(-5, 40)))), encode, quick=16000, thorough=400000, shards=4, tshards=8,
        rule="one number of any kind and one modulus, with values around and beyond the modulus; non-trivial = not zero, or refused"),
    Sub("compare", st.fixed_dictionaries(dict(bigmods, **twoof, v=typed(whole, real), w=typed(whole, real))), compare, quick=16000, thorough=300000, shards=4, tshards=8,
        rule="two numbers, encoded (for the same or different moduli, at different exponents) and plain, all six comparisons; non-trivial = different numbers"),
    Sub("compare_near", st.fixed_dictionaries(dict(bigmods, **twoof, v=typed(whole, real), d=st.sampled_from([-2, -1, 0, 1]))).map(
        lambda c: dict(c, w=(c["v"][0], c["v"][1] + c["d"] if c["d"] > -2 else -c["v"][1]))), compare, quick=4000, thorough=60000, shards=2, tshards=8,
        rule="a number against its neighbour, itself or its negative; non-trivial as compare"),
    Sub("arithmetic", st.fixed_dictionaries(dict(bigmods, v=typed(whole, real), ops=st.lists(ops, min_size=1, max_size=1))), arithmetic, quick=24000, thorough=600000, shards=8, tshards=8,
        rule="one operation with a plain number or an encoding (same or default modulus), in either order; non-trivial = result not zero"),
    Sub("far apart", st.fixed_dictionaries(dict(hugemods, v=typed(big, far), ops=st.lists(st.tuples(st.sampled_from("++--**/"), typed(big, far), st.sampled_from(["plain", "enc"]), st.booleans()),
                                                                                         min_size=1, max_size=2))), arithmetic, quick=8000, thorough=200000, shards=4, tshards=8,
        rule="one or two operations on numbers of magnitudes from 1e-87 to 1e87 or integers up to 600 bits, with moduli of 1024 to 3072 bits; non-trivial = result not zero"),
    Sub("compare far apart", st.fixed_dictionaries(dict(hugemods, nbits2=st.sampled_from([None, 1024, 2048]), up=st.sampled_from([0, 1, 100, 200]), v=typed(big, far), w=typed(big, far))), compare,
        quick=4000, thorough=100000, shards=2, tshards=8, rule="as compare, with the numbers of far apart"),
    Sub("chains", st.fixed_dictionaries(dict(bigmods, v=typed(st.integers(-1000, 1000), real), ops=st.lists(ops, min_size=2, max_size=5))), arithmetic, quick=16000, thorough=400000, shards=8, tshards=8,
        rule="2-5 operations in a row; non-trivial = result not zero"),
]
ASSUMPTIONS = ["intermediate encodings stay below a quarter of the modulus", "reciprocals of numpy scalars narrower than a double are excluded",
               "the most negative numpy integers are encoded and compared, but no plain operands of arithmetic"]
