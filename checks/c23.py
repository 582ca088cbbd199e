import boot
boot.install()
from decimal import Decimal
from fractions import Fraction

import gen
import model
import numpy as np
from vf import Sub, require
from hypothesis import strategies as st
from checks import c08
from computing.d_table import DTable
from ml.utils.classfiy_label_checker import ClassifyLabelChecker, RegressionLabelChecker

FAMILIES = {
    "int": lambda i: i,
    "far int": lambda i: 10 ** 12 + 7 * i,
    "negative int": lambda i: -2000 + i,
    "float": lambda i: i * 0.25 - 3.5,
    "tiny float": lambda i: i * 1e-9,
    "str": lambda i: "class %04d" % i,
    "number str": lambda i: "%05d" % i,
    "np int": lambda i: np.int64(i - 5),
    "np float": lambda i: np.float64(i) / 8,
    "np str": lambda i: np.str_("n%04d" % i),
    "tuple": lambda i: (i // 7, i % 7),
    "fraction": lambda i: Fraction(i, 7),
    "mixed numbers": lambda i: i if i % 2 else i + 0.5,
}
LIMIT = 1000


def table_of(ys, keys):
    return DTable(True, list(zip(keys, ys))) if keys else DTable(False, list(ys))


def classify(case, ctx):
    k, fam = case["k"], FAMILIES[case["family"]]
    names = [fam(i + case["off"]) for i in range(k)]
    step = case["step"]
    # every class at least once, then repetitions, in a generated order
    ys = [names[(i * step) % k] for i in range(k)] if np.gcd(step, k) == 1 else list(reversed(names))
    ys += [names[c % k] for c in case["more"]]
    if case["front"]:
        ys = ys[::-1]
    keys = ["r%d" % i for i in range(len(ys))] if case["keys"] else None
    t = table_of(ys, keys)
    before = list(t.collect())
    try:
        num, labels = ClassifyLabelChecker.validate_y(t)
    except Exception as e:
        require(k > LIMIT, "%d distinct labels are refused: %s", k, e)
        require(isinstance(e, ValueError), "%d distinct labels are refused with %r", k, e)
        ctx.mark()
        ctx.label("refused")
        return
    require(k <= LIMIT, "%d distinct labels are accepted", k)
    labels = list(labels)
    require(num == k and len(labels) == k and set(labels) == set(names), "%d distinct labels: the checker reports %r, %d labels", k, num, len(labels))
    require(list(t.collect()) == before, "checking changes the labels")
    ctx.mark(k > 1)
    ctx.label(case["family"], "at the limit" if k == LIMIT else "below")


GOOD = [0, 1, -7, 2.5, -1e300, 1e-300, 10 ** 15, True, np.int32(4), np.float64(-0.25), np.float32(1.5), np.int64(-3)]
BAD = ["a", "", None, [1.0], {}, "1.0.0", "one", (1,), object, b"\xff", 1j]


def regress(case, ctx):
    ys = [GOOD[c % len(GOOD)] for c in case["ys"]]
    t = table_of(ys, None)
    try:
        RegressionLabelChecker.validate_y(t)
    except Exception as e:
        require(False, "numeric labels %r are refused: %r", ys, e)
    require(list(v for _, v in t.collect()) == ys, "checking changes the labels")
    if case["bad"] is None:
        ctx.label("numeric")
        return
    b, pos = BAD[case["bad"] % len(BAD)], case["pos"] % (len(ys) + 1)
    zs = ys[:pos] + [b] + ys[pos:]
    try:
        RegressionLabelChecker.validate_y(table_of(zs, None))
    except Exception:
        ctx.mark(len(ys) > 0)
        ctx.label("refused")
        return
    require(False, "the label %r (record %d of %d) is accepted for regression", b, pos, len(zs))


RENAME = {
    "one-based": lambda c: c + 1,
    "from two": lambda c: c + 2,
    "gaps": lambda c: [0, 3, 50, 51, 1000][c],
    "negative": lambda c: [-1, 1, 2, 5, 9][c],
    "all negative": lambda c: -50 + c * 7,
    "zero in the middle": lambda c: c - 1,
    "float": lambda c: c * 1.5 - 0.5,
    "float like ints": lambda c: float(c),
    "small floats": lambda c: c / 4,
    "str": lambda c: ["cat", "dog", "eel", "fox", "gnu"][c],
    "upper and lower": lambda c: ["B", "C", "a", "b", "c"][c],
    "number strings": lambda c: str(c),
    "number strings by text": lambda c: ["10", "100", "9", "91", "99"][c],
    "np.int64": lambda c: np.int64(c + 3),
    "np.int64 from zero": lambda c: np.int64(c),
    "np.float64": lambda c: np.float64(c) - 1,
    "np.str": lambda c: np.str_("k%d" % c),
    "bool": lambda c: bool(c) if c < 2 else c,
    "same": lambda c: c,
}


def results(case, ys):
    cfg = case["cfg"]
    if case["trainer"] == "local":
        rows = c08.joined_columns(case)
        m = c08.local_fit(rows, ys, cfg, case["sparse"])
        return m, m.predict(model.table(rows, model.header("c", len(rows[0])), ys, sparse=case["sparse"]))
    f = model.Federation(cfg, len(case["H"]), case["schedule"])
    c = dict(case, y=ys)
    gt, hts = model.tables_of(c, sparse=case["sparse"])
    gt2, hts2 = model.tables_of(c, sparse=case["sparse"])
    return f.guest, f.fit_predict(gt, hts, gt2, hts2)


def rename(case, ctx):
    used = sorted(set(case["y"]))
    k = len(used)
    ys = [used.index(y) for y in case["y"]]
    r = RENAME[case["rename"]]
    names = [r(c) for c in range(k)]
    zs = [names[y] for y in ys]
    m1, base = results(case, ys)
    m2, got = results(case, zs)
    base, got = list(base.collect()), list(got.collect())
    require([i for i, _ in base] == [i for i, _ in got], "different records are predicted")
    require(m1.num_classes == k and m2.num_classes == k, "%d classes, the trainers count %r and %r", k, m1.num_classes, m2.num_classes)
    require(len(m1.history_loss) == len(m2.history_loss) and all(model.close(a, b, 1e-9, 1e-9) for a, b in zip(m1.history_loss, m2.history_loss)),
            "losses %r with labels 0..%d and %r with the labels %r", m1.history_loss, k - 1, m2.history_loss, names)
    for (i, a), (_, b) in zip(base, got):
        require(a[0] == ys[i] and b[0] == zs[i] and type(b[0]) is type(zs[i]), "record %d has label %r, the result says %r", i, zs[i], b[0])
        require(a[1] in range(k) and b[1] == names[int(a[1])] and isinstance(b[1], type(names[int(a[1])])),
                "record %d is predicted %r with labels 0..%d and %r with the labels %r", i, a[1], k - 1, b[1], names)
        require(model.close(a[2], b[2], 1e-9, 1e-9), "record %d scores %r with labels 0..%d and %r with %r", i, a[2], k - 1, b[2], names)
        keys = ["0", "1"] if k == 2 else [str(n) for n in names]
        require(set(b[3]) == set(keys), "record %d: class table %r for the labels %r", i, b[3], names)
        for c in range(k):
            require(model.close(a[3][str(c)], b[3][keys[c]], 1e-9, 1e-9), "record %d: class tables %r and %r", i, a[3], b[3])
    ctx.mark(case["rename"] != "same" and len(set(str(b[1]) for _, b in got)) > 1)
    ctx.label(case["rename"], case["trainer"], "%d classes" % k)


def training():
    def finish(c):
        c["cfg"]["mode"] = "strict"
        # spread evenly over the families, whatever the generator prefers
        h = c["rename"] + 5 * len(c["y"]) + 3 * sum(c["y"]) + 7 * int(sum(sum(map(abs, r)) for r in c["G"]))
        c["rename"] = sorted(RENAME)[h % len(RENAME)]
        c["trainer"] = ["federated", "local", "federated"][h % 3]
        return c
    return gen.federation_case(max_rows=16, max_hosts=2, classes=(2, 2, 3, 3, 4, 5, 1), max_trees=2, generic=True, extra=st.fixed_dictionaries({
        "rename": st.integers(0, len(RENAME) - 1), "sparse": st.booleans()})).map(finish)


SUBS = [
    Sub("classification labels", st.fixed_dictionaries({
        "k": st.one_of(st.integers(1, 12), st.integers(1, 60), st.sampled_from([999, 1000, 1000, 1001, 1001, 1002, 1500, 2000])),
        "family": st.sampled_from(sorted(FAMILIES)), "off": st.integers(0, 20), "step": st.sampled_from([1, 3, 7, 11]),
        "more": st.lists(st.integers(0, 2000), max_size=30), "front": st.booleans(), "keys": st.booleans()}), classify,
        quick=1200, thorough=20000, shards=2, tshards=8, rule="label tables of 1..2000 distinct labels of 13 families, in any order with repetitions; accepted exactly up to 1000 and counted "
        "exactly; non-trivial = more than one class or a refusal"),
    Sub("regression labels", st.fixed_dictionaries({
        "ys": st.lists(st.integers(0, 100), max_size=20), "bad": st.one_of(st.none(), st.integers(0, 100)), "pos": st.integers(0, 30)}), regress,
        quick=1500, thorough=30000, shards=1, tshards=4, rule="numeric labels pass, one non-numeric label anywhere is refused; non-trivial = a refusal among good labels"),
    Sub("renamed labels", training(), rename, quick=200, thorough=4000, shards=6, tshards=8,
        rule="training and prediction with labels 0..k-1 and the same labels renamed monotonically (19 families); non-trivial = renamed and more than one label predicted"),
]
ASSUMPTIONS = ["labels are hashable and mutually comparable", "strings that spell a number are neither required nor forbidden as regression labels"]
