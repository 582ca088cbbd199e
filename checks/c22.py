import boot
boot.install()
import math
import random
from fractions import Fraction

import numpy as np
import keys
from vf import Sub, require
from hypothesis import strategies as st
from ml.feature.instance import Instance
from ml.optim import activation as A
from ml.secureprotol import gmpy_math as G
from ml.utils import fate_operator as F

LD = np.longdouble


def close(got, want, rel, absolute=0.0):
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=LD)
    if g.shape != w.shape or np.any(np.isnan(g)):
        return False
    return bool(np.all(np.abs(g.astype(LD) - w) <= rel * np.abs(w) + absolute))


REF = {
    "sigmoid": lambda x: 1 / (1 + np.exp(-x)),
    "tanh": np.tanh,
    "softplus": lambda x: np.maximum(x, 0) + np.log1p(np.exp(-np.abs(x))),
    "log_logistic": lambda x: np.minimum(x, 0) - np.log1p(np.exp(-np.abs(x))),
    "softsign": lambda x: x / (1 + np.abs(x)),
    "hard_sigmoid": lambda x: np.clip(LD(0.2) * x + LD(0.5), 0, 1),
}
RANGE = {"sigmoid": (0, 1), "tanh": (-1, 1), "softplus": (0, math.inf), "log_logistic": (-math.inf, 0), "softsign": (-1, 1), "hard_sigmoid": (0, 1)}
SCALAR_ONLY = ("sigmoid", "log_logistic")


def activations(case, ctx):
    name, xs = case["f"], case["xs"]
    f, ref = getattr(A, name), REF[name]
    lo, hi = RANGE[name]
    forms = [("float", x) for x in xs] + [("numpy", np.float64(x)) for x in xs] + [("one", np.array([x])) for x in xs]
    forms += [("int", int(x)) for x in xs if abs(x) < 1e15]
    if name not in SCALAR_ONLY:
        forms += [("array", np.array(xs)), ("matrix", np.array([xs, xs[::-1]]))]
    for form, x in forms:
        keep = np.array(x, copy=True)
        got = f(x)
        want = ref(np.asarray(x, dtype=LD))
        require(np.shape(got) == np.shape(x), "%s(%r) has shape %r", name, x, np.shape(got))
        require(close(got, want, 1e-14, 3e-16), "%s(%r) is %r instead of %r", name, x, got, want.astype(float))
        if name in ("sigmoid", "tanh", "softplus", "softsign"):    # small results keep their digits
            require(close(got, want, 1e-9, 1e-300), "%s(%r) is %r instead of %r", name, x, got, want.astype(float))
        require(np.all(np.asarray(got) >= lo) and np.all(np.asarray(got) <= hi), "%s(%r) is %r, outside [%r, %r]", name, x, got, lo, hi)
        require(np.array_equal(keep, x), "%s changes its argument", name)
    srt = sorted(xs)
    vals = [float(np.asarray(f(x))) for x in srt]
    for a, b, u, v in zip(srt, srt[1:], vals, vals[1:]):
        require(u <= v + 1e-15 * abs(v), "%s is not monotone: %r at %r, %r at %r", name, u, a, v, b)
    ctx.mark(any(x != 0 for x in xs))
    ctx.label(name, "large" if any(abs(x) > 700 for x in xs) else "small")


def softmax(case, ctx):
    x = np.array(case["rows"][0] if case["form"] == "vector" else [(r * 6)[:len(case["rows"][0])] for r in case["rows"]], dtype=float)
    keep = x.copy()
    axis = {"vector": -1, "matrix": -1, "axis0": 0}[case["form"]]
    got = A.softmax(x) if axis == -1 else A.softmax(x, axis=axis)
    X = x.astype(LD)
    e = np.exp(X - X.max(axis, keepdims=True))
    want = e / e.sum(axis, keepdims=True)
    require(close(got, want, 1e-13, 1e-300), "softmax of %r is %r instead of %r", x, got, want.astype(float))
    require(np.all(got >= 0) and np.all(got <= 1) and close(np.sum(got, axis), np.ones(np.sum(got, axis).shape), 1e-13), "softmax of %r is %r", x, got)
    require(np.array_equal(x, keep), "softmax changes its argument")
    ctx.mark(x.size > 1)
    ctx.label(case["form"])


def dots(case, ctx):
    w = case["w"]
    rows = [[r[j % len(r)] for j in range(len(w))] for r in case["rows"]]
    form = case["form"]
    conv = (lambda v: np.array(v, dtype=float)) if case["np"] else (lambda v: v)

    def exact(x, w):
        return sum((Fraction(a) * Fraction(b) for a, b in zip(x, w)), Fraction(0))

    def tol(x, w):
        return float(sum(abs(a * b) for a, b in zip(x, w))) * 1e-14 + sum(abs(b) * 1e-5 for a, b in zip(x, w) if abs(a) <= 1e-5)

    def check(got, x, what):
        require(np.shape(got) == () and abs(float(got) - float(exact(x, w))) <= tol(x, w), "dot of %s%r and %r is %r instead of %r", what, x, w, got, float(exact(x, w)))
    if form == "vector":
        check(F.dot(conv(rows[0]), conv(w)), rows[0], "")
    elif form == "instance":
        check(F.dot(Instance(features=conv(rows[0])), conv(w)), rows[0], "instance ")
    elif form == "matrix":
        got = F.dot(conv(rows), conv(w))
        require(np.shape(got) == (len(rows),), "dot of a matrix with %d rows and a vector has shape %r", len(rows), np.shape(got))
        for g, r in zip(got, rows):
            check(g, r, "row ")
    elif form == "scalar":
        got = F.dot(conv(w), rows[0][0])
        require(np.shape(got) == (len(w),) and all(abs(g - a * rows[0][0]) <= 1e-15 * abs(a * rows[0][0]) for g, a in zip(got, w)), "dot of %r and %r is %r", w, rows[0][0], got)
    else:
        B = [w, w[::-1]]
        got = F.dot(np.array(rows), np.array(B).T)
        require(np.shape(got) == (len(rows), 2), "dot of two matrices has shape %r", np.shape(got))
        for i, r in enumerate(rows):
            for j, b in enumerate(B):
                require(abs(got[i][j] - float(exact(r, b))) <= 1e-14 * sum(abs(p * q) for p, q in zip(r, b)), "entry %d,%d of the product of %r and %r is %r", i, j, rows, B, got[i][j])
    ctx.mark(len(w) > 1)
    ctx.label(form)


def norms(case, ctx):
    v, p = case["v"], case["p"]
    arg = {"array": np.array(v, dtype=float), "list": v, "tuple": tuple(v), "ints": np.array([int(x) for x in v])}[case["form"]]
    if case["form"] == "ints":
        v = [int(x) for x in v]
    if p is not None and p < 1:
        try:
            r = F.norm(arg, p)
        except ValueError:
            ctx.label("refused")
            return
        require(False, "norm accepts p = %r and gives %r", p, r)
    got = F.norm(arg) if p is None else F.norm(arg, p)
    q = 2 if p is None else p
    m = max(map(abs, v))
    want = m if q == math.inf or m == 0 else m * float(sum((LD(abs(x)) / m) ** LD(q) for x in v) ** (1 / LD(q)))
    require(np.shape(got) == () and abs(float(got) - want) <= 1e-13 * want, "the %r-norm of %r is %r instead of %r", p, v, got, want)
    ctx.mark(len(v) > 1)
    ctx.label("p%s" % p)


def reduce_add(case, ctx):
    kind = case["kind"]

    def arg(v):
        if v is None:
            return None
        return {"scalar": lambda: v[0], "numpy": lambda: np.float64(v[0]), "list": lambda: list(v), "array": lambda: np.array(v), "tuple": lambda: tuple(v)}[kind]()
    x, y = case["x"], case["y"]
    if x is not None and y is not None:
        n = min(len(x), len(y))
        x, y = x[:n], y[:n]
    a, b = arg(x), arg(y)
    got = F.reduce_add(a, b)
    if x is None or y is None:
        want = x if y is None else y
        if want is None:
            require(got is None, "the sum of nothing is %r", got)
        else:
            require(np.array_equal(np.asarray(got), np.asarray(arg(want))), "adding %r to nothing gives %r", want, got)
    elif kind in ("scalar", "numpy"):
        require(np.shape(got) == () and got == x[0] + y[0], "%r + %r is %r", x[0], y[0], got)
    else:
        require(len(got) == len(x) and all(g == p + q for g, p, q in zip(got, x, y)), "%r + %r is %r", x, y, got)
        require(np.array_equal(np.asarray(a), np.asarray(arg(x))) and np.array_equal(np.asarray(b), np.asarray(arg(y))), "the arguments change")
    ctx.mark(x is not None and y is not None)
    ctx.label(kind)


def integer(v):
    kind, x, b = v
    if kind == "small":
        return x
    r = random.Random(x)
    return {"big": lambda: r.getrandbits(b) | (1 << b >> 1), "power": lambda: (1 << b) + x % 5 - 2, "square": lambda: (r.getrandbits(b // 2 + 1)) ** 2 + x % 3 - 1}[kind]()


def integers(case, ctx):
    a, b, c = (abs(integer(v)) for v in case["v"])
    f = case["f"]
    if f == "powmod":
        c = max(2, c)
        b %= 1 << 600
        if case["neg"]:
            a = -a
        got = G.powmod(a, b, c)
        require(type(got) is int and got == pow(a, b, c), "%d ** %d mod %d is %r instead of %r", a, b, c, got, pow(a, b, c))
    elif f == "invert":
        c = max(2, c)
        if case["neg"]:
            a = -a
        if math.gcd(a, c) == 1:
            x = G.invert(a, c)
            require(type(x) is int and a * x % c == 1 and 0 < x < c, "the inverse of %d mod %d is %r", a, c, x)
        else:
            try:
                x = G.invert(a, c)
            except ZeroDivisionError:
                ctx.label("no inverse")
                return
            require(False, "%d has no inverse mod %d, but %r is returned", a, c, x)
    elif f == "isqrt":
        r = G.isqrt(a)
        require(type(r) is int and r * r <= a < (r + 1) ** 2, "the integer root of %d is %r", a, r)
    else:
        n = 32 + b % 300
        p = G.getprimeover(n)
        require(type(p) is int and p.bit_length() == n, "a prime of %d bits is asked for, %r has %d", n, p, p.bit_length())
        require(keys.isprime(p), "%d is not prime", p)
        q = G.getprimeover(n)
        require(n < 40 or q != p, "the same prime of %d bits twice", n)
    ctx.mark(max(a, b, c) >= 2 ** 64)
    ctx.label(f)


finite = st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.tuples(st.floats(-10, 10), st.integers(-300, 2)).map(lambda t: t[0] * 10.0 ** t[1]), st.floats(-40, 40), st.integers(-5, 5).map(float), st.sampled_from([0.0, -0.0, 709.0, 710.0, 745.2, -745.2, -710.0, 36.7, -36.7, 1e308, -1e308, 5e-324, 2.5, -2.5]))
vec = st.floats(-1000, 1000).map(lambda x: x if abs(x) > 1e-12 else 0.0)
dv = st.one_of(vec, st.sampled_from([0.0, 1e-5, 9.9e-6, -9e-6, 1.1e-5, 1.0, -1.0]))
iv = st.tuples(st.sampled_from(["small", "big", "power", "square"]), st.integers(0, 1000), st.one_of(st.integers(2, 80), st.integers(60, 70), st.integers(80, 700)))

SUBS = [
    Sub("activations", st.fixed_dictionaries({"f": st.sampled_from(sorted(REF)), "xs": st.lists(finite, min_size=1, max_size=5)}), activations, quick=12000, thorough=300000, shards=8, tshards=8,
        rule="any finite inputs, scalar, one-element and array, against extended precision; non-trivial = an input not zero"),
    Sub("activations_long", st.fixed_dictionaries({"f": st.sampled_from(sorted(REF)), "xs": st.lists(finite, min_size=2, max_size=8), "n": st.sampled_from([33, 129, 300])}).map(
            lambda c: dict(c, xs=[c["xs"][i % len(c["xs"])] * (1 - (i // len(c["xs"])) / 512.0) for i in range(c["n"])])), activations,
        quick=200, thorough=4000, shards=8, tshards=8, rule="as activations with arrays of 33 to 300 values"),
    Sub("long", st.fixed_dictionaries({"form": st.sampled_from(["vector", "instance", "matrix", "product"]), "np": st.booleans(), "w": st.lists(vec, min_size=2, max_size=6), "n": st.sampled_from([17, 65, 129, 300]),
                                       "rows": st.lists(st.lists(dv, min_size=1, max_size=6), min_size=1, max_size=3)}).map(lambda c: dict(c, w=[c["w"][i % len(c["w"])] for i in range(c["n"])])), dots,
        quick=400, thorough=6000, shards=4, tshards=8, rule="as dot with 17 to 300 components"),
    Sub("norm_long", st.fixed_dictionaries({"form": st.sampled_from(["array", "list", "tuple", "ints"]), "v": st.lists(vec, min_size=2, max_size=6), "n": st.sampled_from([17, 65, 300]),
                                            "p": st.sampled_from([None, 2, 1, 3, 1.5, math.inf])}).map(lambda c: dict(c, v=[c["v"][i % len(c["v"])] for i in range(c["n"])])), norms,
        quick=300, thorough=4000, shards=2, tshards=4, rule="as norm with 17 to 300 components"),
    Sub("softmax", st.fixed_dictionaries({"form": st.sampled_from(["vector", "matrix", "axis0"]), "rows": st.lists(st.lists(st.one_of(vec, st.floats(-1e300, 1e300)), min_size=1, max_size=5), min_size=1, max_size=3)}),
        softmax, quick=4000, thorough=80000, shards=4, tshards=8, rule="vectors and matrices along both axes; non-trivial = several entries"),
    Sub("dot", st.fixed_dictionaries({"form": st.sampled_from(["vector", "instance", "matrix", "scalar", "product"]), "np": st.booleans(), "w": st.lists(vec, min_size=1, max_size=6),
                                      "rows": st.lists(st.lists(dv, min_size=1, max_size=6), min_size=1, max_size=3)}), dots, quick=6000, thorough=100000, shards=4, tshards=8,
        rule="vectors, matrices and instances against exact sums; non-trivial = several components"),
    Sub("norm", st.fixed_dictionaries({"form": st.sampled_from(["array", "list", "tuple", "ints"]), "v": st.lists(vec, min_size=1, max_size=6), "p": st.sampled_from([None, 2, 1, 3, 1.5, 7, math.inf, 0.5, 0, -1])}), norms,
        quick=4000, thorough=60000, shards=2, tshards=4, rule="p-norms including p below one; non-trivial = several components"),
    Sub("reduce_add", st.fixed_dictionaries({"kind": st.sampled_from(["scalar", "numpy", "list", "array", "tuple"]), "x": st.one_of(st.none(), st.lists(vec, min_size=1, max_size=4)),
                                             "y": st.one_of(st.none(), st.lists(vec, min_size=1, max_size=4))}), reduce_add, quick=2000, thorough=20000, shards=1, tshards=2,
        rule="sums of scalars and sequences with missing operands; non-trivial = both present"),
    Sub("integers", st.fixed_dictionaries({"f": st.sampled_from(["powmod", "powmod", "invert", "isqrt", "isqrt", "prime"]), "v": st.tuples(iv, iv, iv), "neg": st.sampled_from([False, False, True])}), integers,
        quick=6000, thorough=120000, shards=8, tshards=8, rule="small and large integers around powers of two and squares; non-trivial = an operand of more than 64 bits"),
]
ASSUMPTIONS = ["modular powers have an exponent of at least zero and a modulus of at least two", "primes are asked for with at least 32 bits",
               "gmpy2 is not installed: its functions are replaced by pure Python"]
