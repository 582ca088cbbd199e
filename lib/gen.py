"""Hypothesis strategies shared by the checks."""
import random
from hypothesis import strategies as st


def ints(bits, signed=True):
    """Integers of every length up to the given one (hypothesis prefers small ones)."""
    return st.tuples(st.integers(0, bits), st.integers(0, 10 ** 6), st.sampled_from([1, -1] if signed else [1])).map(
        lambda t: t[2] * random.Random(t[1] * 1000 + t[0]).getrandbits(t[0]) if t[0] else 0)


def feature_value():
    return st.one_of(
        st.integers(-3, 3).map(float),
        st.sampled_from([0.0, 0.0, 0.5, -0.5, 1.5, 1e-3, -1e-3, 100.0, -250.25, 1e6]),
        st.integers(-9999, 9999).map(lambda v: v / 100.0),
    )


@st.composite
def column(draw, n):
    kind = draw(st.sampled_from(["small", "mixed", "dense", "sparse", "const", "binary", "spread", "spread", "spread", "levels", "levels"]))
    if kind in ("spread", "levels"):
        # pseudo-random columns: shrinking moves to small parameters, but never to a constant column
        a, b = draw(st.integers(1, 30)), draw(st.integers(0, 12))
        m = {"spread": 29, "levels": draw(st.integers(2, 7))}[kind]
        s = draw(st.sampled_from([1.0, 1.0, 0.5, -2.25, 1e-3, 1e4]))
        return [((((i + 3) * (i + a) * 7919 + 13 * i) >> 2) % m - b) * s for i in range(n)]
    if kind == "const":
        return [draw(feature_value())] * n
    el = {"small": st.integers(-2, 3).map(float), "mixed": feature_value(),
          "dense": st.integers(-9999, 9999).map(lambda v: v / 100.0),
          "sparse": st.sampled_from([0.0, 0.0, 0.0, 1.0, 2.5, -1.25]),
          "binary": st.sampled_from([0.0, 1.0])}[kind]
    return draw(st.lists(el, min_size=n, max_size=n))


@st.composite
def generic_column(draw, n):
    """Values in general position: columns that order the rows differently, hardly any ties."""
    a, b = draw(st.integers(1, 900)), draw(st.integers(0, 900))
    return [(((i + 3 + b) * (i + a) * 7919 + 131 * i) % 997 - b) / 7.0 for i in range(n)]


@st.composite
def rows(draw, n, ncols, col=None):
    cols = [draw((col or column)(n)) for _ in range(ncols)]
    return [[cols[j][i] for j in range(ncols)] for i in range(n)]


def schedule():
    return st.lists(st.integers(0, 5), min_size=1, max_size=12)


@st.composite
def labels(draw, n, k):
    """n labels 0..k-1, every class present when n >= k."""
    if draw(st.booleans()):
        a = draw(st.integers(1, 40))
        ys = [(((i + 1) * (i + a) * 104729) >> 3) % k for i in range(n)]
    else:
        ys = draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n))
    if n >= k:
        pos = draw(st.permutations(range(n)))
        for c in range(k):
            if c not in ys:
                for p in pos:
                    if ys.count(ys[p]) > 1:
                        ys[p] = c
                        break
    return ys


def record_keys():
    """None: keys 0..n-1 in the same order at every party; else their kind and an order for every host."""
    return st.one_of(st.none(), st.fixed_dictionaries({"kind": st.sampled_from(["int", "str", "far"]),
                                                      "shuffle": st.lists(st.integers(0, 16), min_size=1, max_size=7)}))


@st.composite
def federation_case(draw, min_rows=4, max_rows=22, max_hosts=3, max_cols=3, classes=(2, 2, 2, 3, 4), regression=False,
                    extra=None, min_hosts=1, max_trees=2, generic=False, keyed=False):
    n = draw(st.integers(min_rows, max_rows))
    nh = draw(st.integers(min_hosts, max_hosts))
    gc = draw(st.integers(1, max_cols))
    hc = [draw(st.integers(1, max_cols)) for _ in range(nh)]
    col = generic_column if generic else column
    G = draw(rows(n, gc, col))
    H = [draw(rows(n, c, col)) for c in hc]
    if regression:
        if generic:
            y = draw(generic_column(n))
        elif draw(st.booleans()):
            y = [float(v) for v in draw(column(n))]
        else:
            y = draw(st.lists(st.one_of(st.integers(-5, 20).map(float), st.integers(-999, 999).map(lambda v: v / 10.0)),
                              min_size=n, max_size=n))
        k = 0
    else:
        k = draw(st.sampled_from(list(classes)))
        y = draw(labels(n, k))
    cfg = {
        "max_depth": draw(st.sampled_from([3, 2, 3, 4, 1, 5])),
        "bin_num": draw(st.sampled_from([8, 4, 3, 2, 5, 8, 16, 32])),
        "num_trees": draw(st.integers(1, max_trees)),
        "lr": draw(st.sampled_from([0.1, 0.3, 0.3, 1.0])),
        "reg_lambda": draw(st.sampled_from([0.1, 0.1, 0.5, 1.0, 2.0])),
        "min_impurity_split": draw(st.sampled_from([1e-3, 1e-3, 1e-2, 0.1, 0.5])),
        "min_leaf_node": draw(st.sampled_from([1, 1, 1, 2, 3])),
        "min_sample_split": draw(st.sampled_from([2, 2, 2, 3, 5])),
        "max_split_nodes": draw(st.sampled_from([65536, 65536, 1, 2, 3])),
        "early_stop": draw(st.booleans()),
        "mode": draw(st.sampled_from(["strict", "strict", "strict", "fast", "balance"])),
    }
    if cfg["mode"] == "balance":
        cfg["rate"] = draw(st.sampled_from([0.0, 0.3, 1.0]))
    if regression:
        cfg["task"] = "regression"
    case = {"G": G, "H": H, "y": y, "cfg": cfg, "schedule": draw(schedule())}
    if keyed:
        case["records"] = draw(record_keys())
        case["names"] = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8]))
    if extra:
        case.update(draw(extra))
    return case


def _mix(*a):
    x = 0x9E3779B97F4A7C15
    for v in a:
        x = ((x ^ (v & 0xFFFFFFFF)) * 0xD6E8FEB86659FD93 + 0x632BE59BD9B4E019) & (2 ** 64 - 1)
        x ^= x >> 29
    return x


@st.composite
def scaled_case(draw, kinds=("records", "hosts", "columns", "rounds", "classes", "depth"), extra=None, regression=None, keyed=False, small=False, new=0):
    """One dimension of the data set far larger than in federation_case; values come from a drawn seed."""
    kind = draw(st.sampled_from(list(kinds)))
    seed = draw(st.integers(0, 10 ** 6))
    h = 2 if small else 1       # half the size
    n = draw({"records": st.integers(150 // h, 400 // h), "hosts": st.integers(8, 60), "columns": st.integers(10, 20), "rounds": st.integers(6, 14),
              "classes": st.integers(24, 44), "depth": st.integers(60 // h, 120 // h),
              "thousands": st.integers(1000 // h, 3000 // h), "wide": st.integers(8, 16)}[kind])
    nh = draw(st.integers(10, 13)) if kind == "hosts" else draw(st.integers(1, 2))
    width = {"records": 2, "hosts": 1, "columns": 30, "rounds": 2, "classes": 2, "depth": 2, "thousands": 2, "wide": 280}[kind]
    cols = [draw(st.integers({"columns": 12, "wide": 90}.get(kind, 1), width)) for _ in range(nh + 1)]
    told = kind in ("thousands", "wide") and _mix(seed, 5) % 8 > 0      # do columns determine the labels?
    if kind == "wide" and told:
        cols[0] = 1
    levels = [draw(st.sampled_from([2, 5, 17, 1000003, 1000003])) for _ in range(3)]
    zero = draw(st.sampled_from([0, 3, 10]))     # zeros in ten

    def value(site, i, j):
        r = _mix(seed, site, i, j)
        if r % 10 < zero and (site + j) % 2:
            return 0.0
        m = levels[(site + j) % 3]
        return float((r >> 8) % m - m // 2) / (1.0 if m < 100 else 977.0)
    sites = [[[value(s, i, j) for j in range(c)] for i in range(n)] for s, c in enumerate(cols)]
    reg = regression if regression is not None else (kind != "classes" and draw(st.booleans()))
    if reg:
        y = [round(sum(r[s % len(r)] * (1 + s % 3) for s, r in enumerate([x[i] for x in sites])) % 7, 3) + (_mix(seed, i, 77) % 100) / 25.0 for i in range(n)]
    else:
        k = draw(st.integers(10, 14)) if kind == "classes" else draw(st.sampled_from([2, 2, 3]))
        y = [i % k if i < k else _mix(seed, i, 99) % k for i in range(n)]
    if told:
        s = 1 + _mix(seed, 6) % nh
        s, s2 = (s, s) if kind == "wide" else (s, 0)
        by = sorted(range(n), key=lambda i: (sites[s][i][_mix(seed, 7) % cols[s]], _mix(seed, i)))
        by2 = sorted(range(n), key=lambda i: (sites[s2][i][_mix(seed, 8) % cols[s2]], _mix(seed, i)))
        pos = {i: r for r, i in enumerate(by)}
        pos2 = {i: r for r, i in enumerate(by2)}
        for i in range(n):
            q = (pos[i] * 8 // n + 3 * (pos2[i] * 4 // n) + (_mix(seed, i, 9) % 8 == 0)) % 7
            y[i] = (q * 1.5 - 3 + (_mix(seed, i, 77) % 100) / 50.0) if reg else q % k
        if not reg:
            for i in range(k):
                y[i] = i
    cfg = {"max_depth": {"records": draw(st.integers(4, 7)), "depth": draw(st.integers(7, 12)), "hosts": draw(st.integers(2, 6)), "thousands": draw(st.integers(2, 5)), "wide": draw(st.integers(2, 4))}.get(kind, draw(st.integers(2, 4))),
           "bin_num": draw(st.sampled_from([32, 8, 64, 128])), "num_trees": {"rounds": draw(st.integers(11, 24))}.get(kind, draw(st.integers(1, 2)) if kind not in ("classes", "thousands", "wide") else 1),
           "lr": draw(st.sampled_from([0.1, 0.3])), "reg_lambda": draw(st.sampled_from([0.1, 1.0])), "min_impurity_split": draw(st.sampled_from([1e-3, 1e-2])),
           "min_leaf_node": draw(st.sampled_from([1, 1, 2])), "min_sample_split": draw(st.sampled_from([2, 2, 4])), "max_split_nodes": draw(st.sampled_from([65536, 65536, 3, 10])),
           "early_stop": kind != "rounds" and draw(st.booleans()), "mode": draw(st.sampled_from(["strict", "strict", "fast", "balance"]))}
    if cfg["mode"] == "balance":
        cfg["rate"] = 0.3
    if reg:
        cfg.update(task="regression", objective="lse")
    case = {"kind": kind, "G": sites[0], "H": sites[1:], "y": y, "cfg": cfg, "schedule": draw(schedule())}
    if new:     # further records
        m = draw(st.integers(1, new))
        more = [[[value(s, n + i, j) for j in range(c)] for i in range(m)] for s, c in enumerate(cols)]
        case["G2"], case["H2"] = more[0], more[1:]
        case["ridx"] = list(draw(st.permutations(range(nh))))
    if keyed:
        case["records"] = draw(record_keys())
        case["names"] = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8]))
    if extra:
        case.update(draw(extra))
    return case
