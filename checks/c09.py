import boot
boot.install()
import math
from fractions import Fraction
import numpy as np
import gen
import keys
from vf import Sub, Skip, Violation, require
from hypothesis import strategies as st
from ml.secureprotol.fate_paillier import PaillierEncryptedNumber

EPS = Fraction(1, 2 ** 46)
NP = {"int16": np.int16, "int32": np.int32, "int64": np.int64, "float16": np.float16, "float32": np.float32, "float64": np.float64}


def make(spec):
    """spec: (type name, value) -> the operand as the code gets it."""
    t, v = spec
    return {"int": int, "float": float}.get(t, NP.get(t))(v)


def exact(x):
    return Fraction(int(x)) if isinstance(x, (int, np.integer)) else Fraction(float(x))


def is_int(x):
    return isinstance(x, (int, np.integer))


def scale_of(x):
    """Upper bound of the number of hexadecimal places a plain operand needs."""
    if is_int(x) or float(x) == 0:
        return 0
    return math.floor((53 - math.frexp(float(x))[1]) / 4)


class Ref:
    """Exact value, sum of absolute terms, number of hex places, whether integers only."""

    def __init__(self, value, mag, scale, integer):
        self.value, self.mag, self.scale, self.integer = value, mag, scale, integer

    def check(self, n):
        # everything the computation touches stays well inside the key's range and doubles' range
        m = max(self.mag, abs(self.value), Fraction(1)) * Fraction(16) ** self.scale
        if m * 16 >= n or self.scale > 180 or self.scale < -180 or self.mag > Fraction(10) ** 150:
            raise Skip()
        return self


def leaf(x):
    return Ref(exact(x), abs(exact(x)), scale_of(x), is_int(x))


def add(a, b, sign, n):
    s = max(a.scale, b.scale)
    for r in (a, b):
        Ref(r.value, r.mag, s, False).check(n)
    return Ref(a.value + sign * b.value, a.mag + b.mag, s, a.integer and b.integer).check(n)


def mul(a, v, vs, integer, n):
    return Ref(a.value * v, a.mag * abs(v), a.scale + vs, a.integer and integer).check(n)


def verify(dec, ref, what):
    if ref.integer:
        require(isinstance(dec, int) or float(dec).is_integer(), "%s decrypts to %r, expected the integer %s", what, dec, ref.value)
        if abs(ref.value) < 2 ** 53:
            require(exact(dec) == ref.value, "%s decrypts to %r, expected %s", what, dec, ref.value)
        else:
            require(abs(exact(dec) - ref.value) <= EPS * abs(ref.value), "%s decrypts to %r, expected %s", what, dec, ref.value)
        return
    tol = EPS * ref.mag + Fraction(1, 10 ** 190)
    require(not isinstance(dec, float) or math.isfinite(dec), "%s decrypts to %r, expected %s", what, dec, float(ref.value))
    require(abs(exact(dec) - ref.value) <= tol, "%s decrypts to %r, expected %r", what, dec, float(ref.value))


def expression(case, ctx):
    pub, priv = keys.paillier(case["bits"], case["key"])
    n = pub.n
    stack = []
    text = []

    def push(c, r, t):
        require(isinstance(c, PaillierEncryptedNumber), "%s is %r, not an encrypted number", t, type(c))
        verify(priv.decrypt(c), r, t)
        stack.append((c, r, t))

    vals = [make(s) for s in case["leaves"]]
    for x in vals:
        r = leaf(x).check(n)
        c = pub.encrypt(x)
        d = priv.decrypt(c)
        if is_int(x):
            require(type(d) is int and d == int(x), "%r decrypts to %r", x, d)
        else:
            require(abs(exact(d) - exact(x)) <= Fraction(1, 2 ** 48) * abs(exact(x)), "%r decrypts to %r", x, d)
        stack.append((c, r, "E(%r)" % (x,)))
    kinds = set()
    for op, i, j, s in case["ops"]:
        a, ra, ta = stack[i % len(stack)]
        b, rb, tb = stack[j % len(stack)]
        s = make(s)
        v = exact(s)
        kinds.add(op)
        if op == "add":
            r = add(ra, rb, 1, n)
            push(a + b, r, "(%s + %s)" % (ta, tb))
        elif op == "sub":
            r = add(ra, rb, -1, n)
            push(a - b, r, "(%s - %s)" % (ta, tb))
        elif op in ("adds", "radds"):
            r = add(ra, leaf(s), 1, n)
            push(a + s if op == "adds" else s + a, r, "(%s %s %r)" % (ta, op, s))
        elif op == "subs":
            r = add(ra, leaf(s), -1, n)
            push(a - s, r, "(%s - %r)" % (ta, s))
        elif op == "rsubs":
            r = add(ra, leaf(s), -1, n)
            push(s - a, Ref(-r.value, r.mag, r.scale, r.integer), "(%r - %s)" % (s, ta))
        elif op in ("muls", "rmuls"):
            r = mul(ra, v, scale_of(s), is_int(s), n)
            push(a * s if op == "muls" else s * a, r, "(%s %s %r)" % (ta, op, s))
        elif op == "divs":
            if abs(v) < Fraction(1, 10 ** 60) or abs(v) > 10 ** 60 or isinstance(s, (np.float16, np.float32)):
                continue  # (numpy forms reciprocals of short floats in their own precision)
            q = 1 / float(s)
            r = mul(ra, Fraction(1) / v, scale_of(q), False, n)
            push(a / s, r, "(%s / %r)" % (ta, s))
        if len(ta) > 400:
            break
    # operands keep their values
    for x, (c, r, t) in zip(vals, stack):
        verify(priv.decrypt(c), r, t + " (after use as operand)")
    ctx.mark(len(kinds) > 1 and any(not is_int(x) for x in vals))
    ctx.label(*sorted(kinds))


small = st.integers(-1000, 1000)


def operands(big=60, tiny=-60):
    return st.one_of(
        small.map(lambda v: ("int", v)),
        st.integers(-10 ** 9, 10 ** 9).map(lambda v: ("int", v)),
        gen.ints(70).map(lambda v: ("int", v)),
        st.tuples(st.floats(-10, 10, allow_nan=False), st.integers(tiny, big)).map(lambda t: ("float", t[0] * 10.0 ** t[1])),
        st.floats(-1, 1, allow_nan=False).map(lambda v: ("float", v)),
        st.integers(-99999, 99999).map(lambda v: ("float", v / 100.0)),
        small.map(lambda v: ("int16", v)), gen.ints(31).map(lambda v: ("int32", v)),
        gen.ints(63).map(lambda v: ("int64", v)), st.integers(-5, 5).map(lambda v: ("int64", v)),
        st.floats(-1000, 1000, allow_nan=False, width=16).map(lambda v: ("float16", v)),
        st.floats(-1e6, 1e6, allow_nan=False, width=32).map(lambda v: ("float32", v)),
        st.floats(-1e6, 1e6, allow_nan=False).map(lambda v: ("float64", v)),
    )


OPS = ["add", "sub", "adds", "radds", "subs", "rsubs", "muls", "rmuls", "divs", "add", "sub"]


def expr_cases(bits):
    return st.fixed_dictionaries({
        "bits": st.sampled_from(bits), "key": st.integers(0, 2),
        "leaves": st.lists(operands(6, -6) if max(bits) <= 512 else operands(), min_size=1, max_size=4),
        "ops": st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 9), st.integers(0, 9), operands(5, -5)), min_size=1, max_size=6)})


def sums(case, ctx):
    """Weighted sums of many terms, as a histogram or an aggregation forms them."""
    pub, priv = keys.paillier(case["bits"], case["key"])
    xs = [make(s) for s in case["xs"]]
    total, ref = 0, Ref(Fraction(0), Fraction(0), 0, True)
    for x in xs:
        r = leaf(x).check(pub.n)
        ref = add(ref, r, 1, pub.n)
        total = total + pub.encrypt(x)
    verify(priv.decrypt(total), ref, "the sum of %r" % (xs,))
    half = 0
    for x in xs[::2]:
        half = half + pub.encrypt(x)
    rest = total - half
    r2 = sum((exact(x) for x in xs[1::2]), Fraction(0))
    verify(priv.decrypt(rest), Ref(r2, ref.mag * 2, ref.scale, ref.integer), "the sum of %r by subtraction" % (xs[1::2],))
    ctx.mark(len(xs) > 3)


def bounds(case, ctx):
    """Values at and beyond the range of the key."""
    pub, priv = keys.paillier(case["bits"], case["key"])
    m = pub.n // 3 - 1
    v = case["sign"] * (m + case["off"])
    if abs(v) > m:
        ok = False
        try:
            pub.encrypt(v)
        except (ValueError, OverflowError):
            ok = True
        require(ok, "%d is beyond the range %d of the key, but is encrypted", v, m)
        ctx.label("rejected")
    else:
        require(priv.decrypt(pub.encrypt(v)) == v, "%d decrypts to %d", v, priv.decrypt(pub.encrypt(v)))
        ctx.label("accepted")
    # a sum of two numbers in range is right or reported
    a = case["sign"] * (m - case["a"] % m)
    b = case["bsign"] * (case["b"] % (m + 1))
    c = pub.encrypt(a) + (pub.encrypt(b) if case["enc"] else b)
    try:
        got = priv.decrypt(c)
    except OverflowError:
        require(abs(a + b) > m, "%d + %d is in range but reported as overflow", a, b)
        ctx.label("overflow")
    else:
        require(got == a + b, "%d + %d decrypts to %d", a, b, got)
        ctx.label("sum in range")
    # floats far beyond the range are refused as well
    f = case["sign"] * 2.0 ** (case["bits"] + case["off"] % 50 + 3)
    if f not in (float("inf"), float("-inf")):
        c = pub.encrypt(f)  # representable: a large float needs few digits
        require(priv.decrypt(c) == f, "%r decrypts to %r", f, priv.decrypt(c))
    for bad in (float("nan"), float("inf"), -float("inf")):
        ok = False
        try:
            pub.encrypt(bad)
        except (ValueError, OverflowError, TypeError):
            ok = True
        require(ok, "%r is encrypted", bad)
    ctx.mark()


def wrong_type(case, ctx):
    pub, priv = keys.paillier(128, 0)
    for bad in (case["bad"],):
        for what, fn in (("encrypt", lambda: pub.encrypt(bad)), ("add", lambda: pub.encrypt(1) + bad), ("multiply by", lambda: pub.encrypt(1) * bad)):
            ok = False
            try:
                fn()
            except Exception:
                ok = True
            require(ok, "%s accepts %r", what, bad)
    ctx.mark()


SUBS = [
    Sub("expression", expr_cases([128, 192, 256, 512, 512]), expression, quick=2400, thorough=60000, shards=6, tshards=8,
        rule="expressions of 1-6 operations over encrypted numbers and plain scalars of nine types, each intermediate result decrypted and compared "
             "with exact rational arithmetic; non-trivial = two kinds of operations and a non-integer"),
    Sub("expression_large", expr_cases([1024]), expression, quick=160, thorough=4000, shards=4, tshards=8,
        rule="as expression with 1024-bit keys and operands up to 1e61"),
    Sub("sums", st.fixed_dictionaries({"bits": st.sampled_from([256, 384, 512]), "key": st.integers(0, 2),
                                       "xs": st.lists(operands(4, -4), min_size=1, max_size=24)}), sums, quick=800, thorough=10000, shards=4, tshards=8,
        rule="sums of 1-24 encrypted numbers and differences of sums; non-trivial = more than three terms"),
    Sub("bounds", st.fixed_dictionaries({"bits": st.sampled_from([128, 130, 192, 256]), "key": st.integers(0, 4), "sign": st.sampled_from([1, -1]),
                                         "bsign": st.sampled_from([1, -1]), "off": st.integers(-4, 4), "a": st.integers(0, 5), "enc": st.booleans(),
                                         "b": st.one_of(st.integers(0, 6), gen.ints(130, False))}),
        bounds, quick=1200, thorough=20000, shards=4, tshards=8, rule="numbers at the edge of the key's range and their sums; all non-trivial"),
    Sub("wrong_type", st.fixed_dictionaries({"bad": st.sampled_from(["1", None, [1], (1,), {"a": 1}, b"1"])}), wrong_type, quick=6, thorough=12,
        rule="operands that are not numbers are refused; all non-trivial"),
]
ASSUMPTIONS = ["gmpy2 is replaced by Python integers"]
