import boot
boot.install()
import math

import numpy as np
from vf import Sub, require
from hypothesis import strategies as st
from computing.d_table import DTable
from ml.loss.cross_entropy import SigmoidBinaryCrossEntropyLoss, SoftmaxCrossEntropyLoss
from ml.loss.regression_loss import FairLoss, HuberLoss, LeastAbsoluteErrorLoss, LeastSquaredErrorLoss, LogCoshLoss, TweedieLoss

LD = np.longdouble


def lse(d, c):
    return d * d, 2 * d, LD(2)


def lae(d, c):
    return abs(d), LD(0) if d == 0 else d / abs(d), LD(1)


def huber(d, c):
    q = d / c
    r = np.sqrt(1 + q * q)
    return c * c * (q * q / (r + 1)), d / r, 1 / r ** 3


def fair(d, c):
    a = abs(d)
    return c * c * (a / c - np.log1p(a / c)), c * d / (a + c), c * c / (a + c) ** 2


def logcosh(d, c):
    a = abs(d)
    t = np.tanh(d)
    return a + np.log1p(np.exp(-2 * a)) - np.log(LD(2)), t, 1 / np.cosh(min(a, LD(300))) ** 2


KINDS = {"lse": (lambda c: LeastSquaredErrorLoss(), lse), "lae": (lambda c: LeastAbsoluteErrorLoss(), lae), "huber": (HuberLoss, huber),
         "fair": (FairLoss, fair), "log_cosh": (lambda c: LogCoshLoss(), logcosh)}


def make(case):
    cls, ref = KINDS[case["kind"]]
    c = case["param"]
    return cls(c), ref, LD(1e-6 if c is None or abs(c) < 1e-6 else c)


def near(got, want, tol):
    return np.all(np.isfinite(np.asarray(got, dtype=float))) and np.all(np.abs(np.asarray(got, dtype=LD) - want) <= tol)


def apart(y, p):
    """Scores so close to the label that only the last bits tell them apart are equal to it."""
    return p if abs(p - y) > 1e-5 * (1 + abs(y)) else y


def regression(case, ctx):
    loss, ref, c = make(case)
    ys = [y for y, _ in case["rows"]]
    ps = [apart(y, p) for y, p in case["rows"]]
    refs = [ref(LD(p) - LD(y), c) for y, p in zip(ys, ps)]
    g = np.array([r[1] for r in refs])
    h = np.array([r[2] for r in refs])
    # rounding of the difference itself, then of the formula
    dd = np.array([2.3e-16 * (abs(y) + abs(p)) for y, p in zip(ys, ps)])
    curv = {"lse": 2.0, "lae": 0.0}.get(case["kind"], 1.0)
    gtol = 1e-14 * np.abs(g) + dd * curv + 1e-15
    htol = 1e-12 * np.abs(h) + 1e-14 + dd
    if case["kind"] in ("huber", "fair"):
        htol = 1e-12 * np.abs(h) + 8 * np.abs(h) * dd / (np.array([abs(p - y) for y, p in zip(ys, ps)]) + float(c)) + 1e-300
    name = "%s(%r)" % (case["kind"], case["param"])
    for i, (y, p) in enumerate(zip(ys, ps)):
        for form, (a, b) in {"scalar": (y, p), "numpy": (np.float64(y), np.float64(p)), "one": (y, np.array([p])), "both": (np.array([y]), np.array([p]))}.items():
            got = loss.compute_grad(a, b)
            require(near(got, g[i], gtol[i]), "%s: gradient at label %r, score %r (%s) is %r, the derivative of the loss is %r", name, y, p, form, got, float(g[i]))
            require(np.shape(got) == (() if form in ("scalar", "numpy") else (1,)), "%s: gradient %r has the wrong shape (%s)", name, got, form)
            got = loss.compute_hess(a, b)
            require(near(got, h[i], htol[i]), "%s: hessian at label %r, score %r (%s) is %r, the second derivative is %r", name, y, p, form, got, float(h[i]))
            require(np.shape(got) == (() if form in ("scalar", "numpy") else (1,)), "%s: hessian %r has the wrong shape (%s)", name, got, form)
        require(loss.predict(p) == p, "%s: the prediction for score %r is %r", name, p, loss.predict(p))
    ya, pa = np.array(ys), np.array(ps)
    got = loss.compute_grad(ya, pa)
    require(np.shape(got) == (len(ys),) and near(got, g, gtol), "%s: gradients %r instead of %r for labels %r, scores %r", name, got, g.astype(float), ys, ps)
    got = loss.compute_hess(ya, pa)
    require(np.shape(got) == (len(ys),) and near(got, h, htol), "%s: hessians %r instead of %r for labels %r, scores %r", name, got, h.astype(float), ys, ps)
    require(list(ya) == ys and list(pa) == ps, "the arguments change")
    ks = ["k%d" % (i * 7 % 1009) if case["strkeys"] else i for i in range(len(ys))]
    one = case["arrays"]
    yt = DTable(True, list(zip(ks, ys)))
    pt = DTable(True, list(zip(ks, [np.array([p]) if one else p for p in ps]))[::-1])
    got = loss.compute_loss(yt, pt)
    got = got.reshape(-1)[0] if isinstance(got, np.ndarray) and got.size == 1 else got
    want = sum(r[0] for r in refs) / len(refs)
    ltol = 1e-12 * abs(want) + 1e-14 + sum(abs(float(r[1])) * e for r, e in zip(refs, dd)) / len(refs) * 2 + (float(c) ** 2 + 0) * 1e-14 * (case["kind"] in ("huber", "fair"))
    if case["kind"] == "fair":
        ltol += float(c) * 1e-14 * sum(abs(p - y) for y, p in zip(ys, ps)) / len(ys)
    if case["kind"] == "log_cosh":
        ltol += 1e-14 * (1 + sum(abs(p - y) for y, p in zip(ys, ps)) / len(ys))
    require(near(got, want, ltol), "%s: the loss of labels %r and scores %r is %r instead of %r", name, ys, ps, got, float(want))
    ctx.mark(any(p != y for y, p in zip(ys, ps)))
    ctx.label(case["kind"])


def slope(case, ctx):
    """The reported gradient is the slope of the reported loss, whatever its formula."""
    loss, ref, c = make(case)
    y, p = case["rows"][0]
    scale = {"huber": float(c), "fair": float(c)}.get(case["kind"], 1.0)
    # distances from the label in units of the loss's own scale
    d = ((p % 8.0) - 4.0) * scale
    if case["kind"] == "lae" and abs(d) < 0.5:
        d = 0.5 + abs(d)
    if case["kind"] == "fair" and abs(d) < 0.1 * scale:  # its third derivative jumps at the label
        d += 0.25 * scale
    y = round(y) % 5 if scale > 0.01 else 0.0
    p = y + d

    def L(s):
        v = loss.compute_loss(DTable(False, [y]), DTable(False, [s]))
        return float(v)
    e = 1e-3 * scale
    num = (8 * (L(p + e) - L(p - e)) - (L(p + 2 * e) - L(p - 2 * e))) / (12 * e)
    g = float(loss.compute_grad(y, p))
    unit = scale if case["kind"] in ("huber", "fair") else 1.0
    require(abs(num - g) <= 1e-8 * (unit + abs(g)), "%s(%r): gradient at label %r, score %r is %r, the loss has slope %r", case["kind"], case["param"], y, p, g, num)
    if case["kind"] != "lae":
        G = lambda s: float(loss.compute_grad(y, s))
        num = (8 * (G(p + e) - G(p - e)) - (G(p + 2 * e) - G(p - 2 * e))) / (12 * e)
        h = float(loss.compute_hess(y, p))
        require(abs(num - h) <= 1e-8 * (1 + abs(h)), "%s(%r): hessian at label %r, score %r is %r, the gradient has slope %r", case["kind"], case["param"], y, p, h, num)
    ctx.mark(d != 0)
    ctx.label(case["kind"])


def binary(case, ctx):
    L = SigmoidBinaryCrossEntropyLoss()
    ys = [y for y, _ in case["rows"]]
    ss = [s for _, s in case["rows"]]
    ps = []
    for y, s in zip(ys, ss):
        p = L.predict(s)
        S = LD(s)
        sig = 1 / (1 + np.exp(-S))
        small = float(min(LD(1e-15), 1e-13 * sig)) + 1e-305     # tiny probabilities are exact to their last digits
        require(near(p, sig, small), "the probability at score %r is %r", s, p)
        ps.append(p)
        for form, q in (("scalar", float(p)), ("array", np.array([p]))):
            g = L.compute_grad(y, q)
            require(np.shape(g) == np.shape(q) and near(g, sig - y, 1e-15 if y else small), "gradient at label %r, score %r (%s) is %r, the derivative of the loss is %r", y, s, form, g, float(sig - y))
            h = L.compute_hess(y, q)
            require(np.shape(h) == np.shape(q) and near(h, sig * (1 - sig), min(4e-16, 2 * small) if s < 0 else 4e-16), "hessian at label %r, score %r (%s) is %r, the second derivative is %r", y, s, form, h, float(sig * (1 - sig)))
    pa = np.array(ps)
    require(near(L.compute_grad(np.array(ys), pa), [LD(p) - y for y, p in zip(ys, ps)], 1e-15), "gradients of an array")
    require(near(L.compute_hess(np.array(ys), pa), [LD(p) * (1 - LD(p)) for p in ps], 4e-16), "hessians of an array")
    ks = ["k%d" % i for i in range(len(ys))]
    got = L.compute_loss(DTable(True, list(zip(ks, ys))), DTable(True, list(zip(ks, [np.array([p]) for p in ps] if case["arrays"] else ps))[::-1]))
    want = sum(np.log1p(np.exp(LD(-s if y else s))) for y, s in zip(ys, ss)) / len(ys)
    # the loss is computed from the probability, which near one knows the score only up to its last bit
    tol = sum(1e-13 * abs(s) + (0 if y else 4e-16 * np.exp(LD(max(s, 0)))) for y, s in zip(ys, ss)) / len(ys) + 1e-13
    require(np.size(got) == 1 and near(got, want, tol), "the loss of labels %r and scores %r is %r instead of %r", ys, ss, got, float(want))
    ctx.mark(len(ys) > 1)


def softmax(case, ctx):
    L = SoftmaxCrossEntropyLoss()
    k = case["k"]
    rows = [(y % k, [row[j % len(row)] + 0.25 * j for j in range(k)]) for y, row in case["rows"]]
    tot = LD(0)
    tol = 1e-13
    ps = []
    for y, s in rows:
        S = np.array(s, dtype=LD)
        e = np.exp(S - S.max())
        ref = e / e.sum()
        p = L.predict(np.array(s))
        fine = np.minimum(LD(2e-15), ref * 2e-12) + 1e-305
        require(near(p, ref, fine), "the probabilities at scores %r are %r", s, p)
        keep = p.copy()
        one = np.array([LD(j == y) for j in range(k)])
        g = L.compute_grad(y, p)
        require(near(g, ref - one, np.where(one == 1, LD(3e-15), fine)), "gradient at label %r, scores %r is %r, the derivative of the loss is %r", y, s, g, (ref - one).astype(float))
        h = L.compute_hess(y, p)
        require(near(h, ref * (1 - ref), 4e-15), "hessian at label %r, scores %r is %r, the diagonal of second derivatives is %r", y, s, h, (ref * (1 - ref)).astype(float))
        require(np.array_equal(p, keep), "computing the gradient changes the probabilities")
        ps.append(p)
        tot += -np.log(ref[y])
        tol += 2e-12 * (1 + abs(float(np.log(ref[y])))) / len(rows)
    ks = list(range(len(rows)))
    got = L.compute_loss(DTable(True, list(zip(ks, [y for y, _ in rows]))), DTable(True, list(zip(ks, ps))[::-1]))
    require(near(got, tot / len(rows), tol), "the loss of %r is %r instead of %r", rows, got, float(tot / len(rows)))
    ctx.mark(k > 2)


def initial(case, ctx):
    ys = [case["ys"][i % len(case["ys"])] + case["step"] * (i * 37 % 11) for i in range(case["n"])]
    ks = ["k%d" % (i * 3) for i in range(len(ys))]
    yt = DTable(True, list(zip(ks, ys)))
    kind = case["kind"]

    def shape(res, dims):
        t, s = res
        got = list(t.collect())
        require(sorted(k for k, _ in got) == sorted(ks), "the initial scores are for records %r instead of %r", [k for k, _ in got], ks)
        for k, v in got:
            require(np.shape(v) == (dims,) and np.array_equal(v, s), "the initial score of %r is %r, of the model %r", k, v, s)
        require(np.shape(s) == (dims,), "the initial score is %r", s)
        return [float(x) for x in s]
    if kind == "binary":
        require(shape(SigmoidBinaryCrossEntropyLoss().initialize(yt), 1) == [0.0], "the initial score is not zero")
    elif kind == "softmax":
        k = case["k"]
        require(shape(SoftmaxCrossEntropyLoss().initialize(yt, k), k) == [0.0] * k, "the initial scores are not zero")
    else:
        loss = TweedieLoss(1.5) if kind == "tweedie" else KINDS[kind][0](0.5)
        s, = shape(loss.initialize(yt), 1)
        if kind == "lae":
            require(s in [float(y) for y in ys], "the initial score %r is not one of the labels", s)
            lo, hi = sum(y < s for y in ys), sum(y <= s for y in ys)
            slack = 1 + 4e-4 * len(ys)
            require(lo <= len(ys) / 2 + slack and hi >= len(ys) / 2 - slack, "the initial score %r has rank %d to %d of %d labels", s, lo + 1, hi, len(ys))
        else:
            want = math.fsum(ys) / len(ys)
            require(abs(s - want) <= 1e-12 * (1 + max(map(abs, ys))) * len(ys) ** 0.5, "the initial score of %s is %r, the mean label %r", kind, s, want)
    require(list(yt.collect()) == list(zip(ks, ys)), "the labels change")
    ctx.mark(len(set(ys)) > 1)
    ctx.label(kind)


def tweedie(case, ctx):
    """Tweedie: scalars and arrays alike, and the mean over the records."""
    L = TweedieLoss(case["rho"])
    ys = [abs(y) for y, _ in case["rows"]]
    ps = [0.01 + abs(p) for _, p in case["rows"]]
    for f in (L.compute_grad, L.compute_hess):
        arr = f(np.array(ys), np.array(ps))
        for i, (y, p) in enumerate(zip(ys, ps)):
            for v in (f(y, p), f(y, np.array([p]))[0], arr[i]):
                require(abs(v - f(y, p)) <= 1e-12 * (abs(y) + 1) * (p + 1) * 30, "array and scalar results differ: %r and %r", v, f(y, p))
    one = [float(L.compute_loss(DTable(False, [y]), DTable(False, [p]))) for y, p in zip(ys, ps)]
    got = float(L.compute_loss(DTable(False, ys), DTable(False, ps)))
    require(abs(got - sum(one) / len(one)) <= 1e-12 * sum(map(abs, one)), "the loss of the table is %r, the mean over its records %r", got, sum(one) / len(one))
    ctx.mark(len(ys) > 1)


def tweedie_probe():
    L = TweedieLoss(1.5)
    y, p, e = 2.0, 1.25, 1e-4
    loss = lambda s: float(L.compute_loss(DTable(False, [y]), DTable(False, [s])))
    return abs((loss(p + e) - loss(p - e)) / (2 * e) - L.compute_grad(y, p)) > 1e-3


KNOWN = {"tweedie-derivative": tweedie_probe}

label = st.one_of(st.integers(-20, 20).map(float), st.floats(-100, 100).map(lambda x: x if abs(x) > 1e-6 else 0.0), st.floats(-1e5, 1e5).map(lambda x: x if abs(x) > 1e-6 else 0.0), st.just(0.0))
rows = st.lists(st.one_of(st.tuples(label, label), label.map(lambda y: (y, y)), st.tuples(label, st.floats(-3, 3)).map(lambda t: (t[0], t[0] + t[1]))), min_size=1, max_size=6)
param = st.one_of(st.none(), st.sampled_from([0, 1e-9, 1e-6, 0.1, 1, 1.0, 2.5, 10, 100.0]), st.floats(0.01, 20))
score = st.one_of(st.integers(-20, 20).map(float), st.floats(-30, 30).map(lambda x: x if abs(x) > 1e-9 else 0.0))
far = st.one_of(st.integers(30, 600), st.integers(30, 45)).flatmap(lambda k: st.sampled_from([float(k), -float(k), k + 0.37]))
kinds = st.sampled_from(sorted(KINDS))

SUBS = [
    Sub("regression", st.fixed_dictionaries({"kind": kinds, "param": param, "rows": rows, "strkeys": st.booleans(), "arrays": st.booleans()}), regression, quick=8000, thorough=200000, shards=8, tshards=8,
        rule="1-6 labels and scores, every regression objective and parameter, scalars and arrays, against closed forms in extended precision; non-trivial = a residual not zero"),
    Sub("slope", st.fixed_dictionaries({"kind": kinds, "param": param, "rows": rows}), slope, quick=4000, thorough=80000, shards=4, tshards=8,
        rule="numerical derivatives of the reported loss and gradient; non-trivial = residual not zero"),
    Sub("binary", st.fixed_dictionaries({"rows": st.lists(st.one_of(st.tuples(st.integers(0, 1), score), st.tuples(st.just(1), far), st.tuples(st.just(0), far.map(lambda s: -abs(s)))), min_size=1, max_size=6), "arrays": st.booleans()}), binary, quick=4000, thorough=80000, shards=4, tshards=8,
        rule="1-6 labels and scores; non-trivial = several"),
    Sub("softmax", st.fixed_dictionaries({"k": st.integers(2, 6), "rows": st.lists(st.tuples(st.integers(0, 5), st.lists(st.one_of(score, score, far.map(lambda s: s / 2)), min_size=1, max_size=6)), min_size=1, max_size=4)}), softmax,
        quick=4000, thorough=80000, shards=4, tshards=8, rule="1-4 labels and score vectors of 2-6 classes; non-trivial = more than two classes"),
    Sub("initial", st.fixed_dictionaries({"kind": st.sampled_from(sorted(KINDS) + ["tweedie", "binary", "softmax", "lae"]), "ys": st.lists(label, min_size=1, max_size=8), "step": st.sampled_from([0, 0, 1, 0.5]),
                                          "n": st.one_of(st.integers(1, 12), st.sampled_from([100, 1000])), "k": st.integers(2, 5)}), initial, quick=800, thorough=12000, shards=8, tshards=8,
        rule="initial scores of 1-1000 labels for every objective; non-trivial = different labels"),
    Sub("tweedie", st.fixed_dictionaries({"rho": st.sampled_from([0, 0.5, 1.5, 1.2, None]), "rows": rows}), tweedie, quick=1000, thorough=10000, shards=2, tshards=4, rule="consistency of Tweedie's results; non-trivial = several records"),
]
def cycled(c):
    r = c["rows"]
    return dict(c, rows=[r[i % len(r)] for i in range(c["n"])])


SUBS += [
    Sub("regression_many", st.fixed_dictionaries({"kind": kinds, "param": param, "rows": rows, "strkeys": st.booleans(), "arrays": st.booleans(), "n": st.sampled_from([33, 100, 129, 300])}).map(cycled), regression,
        quick=96, thorough=2000, shards=8, tshards=8, rule="as regression with 33 to 300 records"),
    Sub("binary_many", st.fixed_dictionaries({"rows": st.lists(st.tuples(st.integers(0, 1), score), min_size=2, max_size=6), "arrays": st.booleans(), "n": st.sampled_from([33, 100, 129, 300])}).map(cycled), binary,
        quick=96, thorough=2000, shards=8, tshards=8, rule="as binary with 33 to 300 records"),
    Sub("softmax_many", st.fixed_dictionaries({"k": st.sampled_from([3, 12, 40]), "rows": st.lists(st.tuples(st.integers(0, 39), st.lists(score, min_size=2, max_size=6)), min_size=2, max_size=6),
                                               "n": st.sampled_from([12, 33, 100])}).map(cycled), softmax, quick=64, thorough=1000, shards=8, tshards=8, rule="as softmax with 12 to 100 records and up to 40 classes"),
]
ASSUMPTIONS = ["scores within rounding of the label count as equal to it", "binary cross entropy: scores of records labelled 0 are at most 30 (above, the probability is one to the last bit and the loss cannot be told from it); otherwise scores reach 600 either way",
               "Tweedie's gradient and hessian are not those of its loss (known finding) and are checked for consistency only"]
