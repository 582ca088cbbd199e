import boot
boot.install()
import copy
from bisect import bisect_left, bisect_right

import numpy as np
from hypothesis import strategies as st

import gen
import model
from vf import Sub, Violation, require
from ml.feature.binning.quantile_binning import QuantileBinning
from ml.param.feature_binning_param import FeatureBinningParam


def snapshot(t, sparse):
    return [(k, i.inst_id, i.label, i.weight, (i.features.shape, dict(i.features.sparse_vec)) if sparse else [float(x) for x in i.features])
            for k, i in t.collect()]


def bin_of(v, pts):
    """The definition: how many split points lie strictly below v."""
    return sum(1 for p in pts if p < v)


def clean(rows):
    """Numbers the project treats as zero (|v| < 1e-6) are written as 0, so both representations mean the same."""
    return [[0.0 if abs(v) < 1e-6 else float(v) for v in r] for r in rows]


@st.composite
def cases(draw, big=False, tidy=True):
    n = draw(st.integers(1, 30) if not big else st.integers(60, 400))
    c = draw(st.integers(1, 4 if not big else 2))
    if big:
        cols = []
        for _ in range(c):
            a, m, o = draw(st.integers(1, 999)), draw(st.integers(2, 1000)), draw(st.integers(0, 900))
            z = draw(st.sampled_from([1, 1, 2, 3, 7]))
            cols.append([float((i * a) % m - o) if i % z == 0 else 0.0 for i in range(n)])
        rows = [[cols[j][i] for j in range(c)] for i in range(n)]
    else:
        rows = draw(gen.rows(n, c))
    which = draw(st.sampled_from(["all", "all", "some"]))
    cols = -1 if which == "all" else sorted(draw(st.sets(st.integers(0, c - 1), min_size=1)), key=lambda x: draw(st.integers(0, 9)))
    if draw(st.integers(0, 2)) == 0:
        # neighbouring and tiny values: v -> o + v * s per column
        tr = [draw(st.sampled_from([(0.0, 1.0), (0.0, 1e-4), (1.0, 1e-8), (-3.0, 1e-9), (100.0, 1e-10), (0.0, 1e-7), (0.0, 1e-9), (1e6, 1e-6), (0.0, 1e12)]))
              for _ in range(c)]
        rows = [[tr[j][0] + v * tr[j][1] for j, v in enumerate(r)] for r in rows]
    return {"rows": clean(rows) if tidy else rows, "cols": cols, "sparse": draw(st.booleans()), "bins": draw(st.sampled_from([2, 3, 4, 5, 8, 10, 16, 32] + ([64, 129, 200, 300, 500] if big else []))),
            "error": draw(st.sampled_from([1e-3, 1e-3, 1e-4, 0.01, 0.05])),
            "head": draw(st.sampled_from([10000, 10000, 5, 20, 64])), "thres": draw(st.sampled_from([10000, 10000, 10, 40])),
            "other": clean(draw(gen.rows(draw(st.integers(1, 6)), c))),
            "fresh_keys": draw(st.booleans())}


@st.composite
def many_bins(draw):
    """All values of a column differ and the bins are nearly as many."""
    c = draw(cases())
    n, cols = draw(st.integers(150, 420)), draw(st.integers(1, 2))
    steps = [draw(st.sampled_from([1, 7, 11, 13])) for _ in range(cols)]
    lows = [draw(st.integers(-n, 30)) for _ in range(cols)]
    rows = [[float((i * a) % n + o) for a, o in zip(steps, lows)] for i in range(n)]
    at = draw(st.sets(st.integers(0, n - 1), max_size=5))
    return dict(c, rows=rows, cols=-1, bins=draw(st.sampled_from([129, 140, 257, 300, 500])), error=draw(st.sampled_from([1e-3, 1e-4])), head=10000, thres=10000,
                other=[rows[i] for i in sorted(at)] + [[v + 0.5 for v in rows[n // 2]], [v - 0.5 for v in rows[n - 1]], [1e6] * cols])


@st.composite
def very_large(draw):
    """More records than the summaries' buffers hold by default."""
    c = draw(cases())
    n = draw(st.sampled_from([9999, 10000, 10001, 12000, 20001, 25000]))
    a, m, o = draw(st.sampled_from([7919, 1, 104729, 13])), draw(st.sampled_from([n + 1, 30011, 5003, 97])), draw(st.integers(0, 3000))
    z = draw(st.sampled_from([1, 1, 3]))
    return dict(c, rows=[[float((i * a) % m - o) if i % z == 0 else 0.0] for i in range(n)], cols=-1, head=10000, thres=10000, other=[[0.0], [5.0]],
                error=draw(st.sampled_from([1e-3, 1e-3, 1e-4])), bins=draw(st.sampled_from([8, 32, 100, 300])))


def fit(case, sparse):
    c = len(case["rows"][0])
    hdr = model.header("x", c)
    b = QuantileBinning(FeatureBinningParam(bin_num=case["bins"], error=case["error"], head_size=case["head"],
                                            compress_thres=case["thres"], cols=copy.copy(case["cols"])))
    keys = ["k%d" % ((i * 7 + 3) % 100003) for i in range(len(case["rows"]))] if case["fresh_keys"] else None
    t = model.table(case["rows"], hdr, labels=[i % 3 for i in range(len(case["rows"]))], keys=keys, sparse=sparse,
                    ids=["r%d" % i for i in range(len(case["rows"]))])
    before = snapshot(t, sparse)
    b.fit_split_points(t)
    require(snapshot(t, sparse) == before, "fitting changed the caller's table")
    return b, t, hdr, before


def selected(case):
    c = len(case["rows"][0])
    return list(range(c)) if case["cols"] == -1 else list(case["cols"])


def fitted(case, ctx, factor=1):
    sparse = case["sparse"]
    b, t, hdr, _ = fit(case, sparse)
    sel = selected(case)
    pts = b.split_points
    require(set(pts) == set(hdr[j] for j in sel), "split points were computed for %r, selected were %r", sorted(pts), [hdr[j] for j in sel])
    n = len(case["rows"])
    for j in sel:
        p = [float(x) for x in pts[hdr[j]]]
        col = sorted(r[j] for r in case["rows"])
        require(all(a < c for a, c in zip(p, p[1:])), "split points of column %r are not strictly increasing: %r", col, p)
        require(1 <= len(p) < case["bins"], "%d split points for %d bins", len(p), case["bins"])
        for v in p:
            require(v in col or (sparse and v == 0.0), "split point %r is not a value of the column %r", v, col)
        allowed = factor * case["error"] * n + 1 + 1e-9
        for i in range(1, case["bins"]):
            r = i / case["bins"] * n
            err = min(max(0.0, bisect_left(col, v) + 1 - r, r - bisect_right(col, v)) for v in p)
            require(err <= allowed, "no split point of column %r lies within %r ranks of the %d/%d quantile: %r",
                    col, allowed, i, case["bins"], p)
        targets = [i / case["bins"] * n for i in range(1, case["bins"])]
        for v in p:
            err = min(max(0.0, bisect_left(col, v) + 1 - r, r - bisect_right(col, v)) for r in targets)
            require(err <= allowed, "split point %r of column %r lies %r ranks from every quantile of %d bins", v, col, err, case["bins"])
        ctx.mark(len(p) > 2)
        ctx.label("both signs" if col[0] < 0 < col[-1] else "one sign")
    ctx.label("sparse" if sparse else "dense", "all" if case["cols"] == -1 else "subset")


def converted(case, ctx):
    sparse = case["sparse"]
    b, t, hdr, before = fit(case, sparse)
    sel = selected(case)
    pts = {k: [float(x) for x in v] for k, v in b.split_points.items()}
    for source, rows in (("fitted", case["rows"]), ("other", case["other"])):
        for sp in (False, True):
            b2 = copy.deepcopy(b)
            if source == "fitted" and sp == sparse:
                tt = t
            else:
                keys = [100 + 3 * i for i in range(len(rows))]
                tt = model.table(rows, hdr, labels=["l%d" % (i % 2) for i in range(len(rows))], keys=keys, sparse=sp)
            snap = snapshot(tt, sp)
            out, arr, zero = b2.convert_feature_to_bin(tt)
            require(snapshot(tt, sp) == snap, "converting to bins changed the caller's table")
            got = list(out.collect())
            require([k for k, _ in got] == [s[0] for s in snap], "records %r became %r", [s[0] for s in snap], [k for k, _ in got])
            require(out.schema.get("header") == hdr, "header became %r", out.schema)
            for (k, inst), s, row in zip(got, snap, rows):
                require((inst.inst_id, inst.label, inst.weight) == (s[1], s[2], s[3]), "id, label or weight of record %r changed", k)
                for j, v in enumerate(row):
                    if sp:
                        g = inst.features.get_data(j, "absent")
                        require((g == "absent") == (v == 0), "record %r column %d: value %r is %r in the converted vector", k, j, v, g)
                        if v == 0:
                            continue
                        require(inst.features.get_shape() == len(row), "vector length changed")
                    else:
                        g = inst.features[j]
                    if j in sel:
                        w = bin_of(v, pts[hdr[j]])
                        require(g == w, "value %r of column %d is put in bin %r; with split points %r it belongs in %d", v, j, g, pts[hdr[j]], w)
                    else:
                        require(g == v, "column %d is not selected, its value %r became %r", j, v, g)
            require(set(zero) == set(sel), "zero bins for columns %r, selected %r", sorted(zero), sel)
            for j in sel:
                require(zero[j] == bin_of(0.0, pts[hdr[j]]), "zero bin of column %d is %r with split points %r", j, zero[j], pts[hdr[j]])
            order = [j for j in range(len(hdr)) if j in sel]
            require(len(arr) == len(order), "%d arrays of split points for %d columns", len(arr), len(order))
            for a, j in zip(arr, order):
                require([float(x) for x in a] == pts[hdr[j]], "split points of column %d are returned as %r, fitted %r", j, list(a), pts[hdr[j]])
    ctx.mark(any(len(p) > 1 for p in pts.values()) and len(case["rows"]) > 3)
    ctx.label(*["%s split points" % next(s for k, s in ((17, "<17"), (65, "<65"), (129, "<129"), (257, "<257"), (10 ** 9, ">=257")) if len(p) < k) for p in pts.values()])
    ctx.label("all" if case["cols"] == -1 else "subset")


def partial_transform(case, ctx):
    sel = selected(case)
    b, t, hdr, before = fit(case, case["sparse"])
    sub = [j for i, j in enumerate(sel) if case["mask"][i % len(case["mask"])]]
    if not sub:
        sub = sel[:1]
    out, _, zero = b.convert_feature_to_bin(t, transform_cols_idx=list(sub))
    for (k, inst), row in zip(out.collect(), case["rows"]):
        for j, v in enumerate(row):
            if case["sparse"]:
                if v == 0:
                    continue
                g = inst.features.get_data(j, None)
            else:
                g = inst.features[j]
            w = bin_of(v, [float(x) for x in b.split_points[hdr[j]]]) if j in sub else v
            require(g == w, "transforming columns %r: value %r of column %d became %r, expected %r", sub, v, j, g, w)
    require(set(zero) == set(sub), "zero bins for %r, transformed %r", sorted(zero), sub)
    extra = [j for j in range(len(hdr)) if j not in sel]
    if extra:
        try:
            b.convert_feature_to_bin(t, transform_cols_idx=[extra[0]])
        except (RuntimeError, ValueError):
            return
        raise Violation("column %d was not fitted but transforming it was accepted" % extra[0])
    ctx.mark(len(sub) < len(hdr))


def again(case, ctx):
    """one binning object converting table after table, with its own and with the caller's split points"""
    b, t, hdr, before = fit(case, case["sparse"])
    sel = selected(case)
    own = {k: [float(x) for x in v] for k, v in b.split_points.items()}
    for turn in case["turns"]:
        pts = own
        if turn["points"]:
            pts = {hdr[j]: sorted(set(turn["points"][(j + i) % len(turn["points"])] + 0.5 * i for i in range(1 + (j + turn["more"]) % 4))) for j in sel}
        sub = sel if turn["mask"] is None else [j for i, j in enumerate(sel) if turn["mask"][i % len(turn["mask"])]]
        rows = case["rows"] if turn["same"] else case["other"]
        sp = case["sparse"] if turn["same"] else turn["sparse"]
        tt = t if turn["same"] else model.table(rows, hdr, keys=[5 * i + turn["more"] for i in range(len(rows))], sparse=sp)
        snap = snapshot(tt, sp)
        given = {k: np.array(v) if turn["array"] else list(v) for k, v in pts.items()} if turn["points"] else None
        keep = copy.deepcopy(given)
        out, arr, zero = b.convert_feature_to_bin(tt, split_points=given) if sub == sel and turn["mask"] is None else \
            b.convert_feature_to_bin(tt, transform_cols_idx=tuple(sub) if turn["array"] else list(sub), split_points=given)
        require(snapshot(tt, sp) == snap, "converting to bins changed the caller's table")
        require(repr(given) == repr(keep), "the caller's split points %r became %r", keep, given)
        got = list(out.collect())
        require([k for k, _ in got] == [s[0] for s in snap], "records %r became %r", [s[0] for s in snap], [k for k, _ in got])
        for (k, inst), row in zip(got, rows):
            for j, v in enumerate(row):
                if sp and v == 0:
                    continue
                g = inst.features.get_data(j, None) if sp else inst.features[j]
                w = bin_of(v, pts[hdr[j]]) if j in sub else v
                require(g == w, "split points %r, columns %r: value %r of column %d became %r, expected %r", pts, sub, v, j, g, w)
        require(zero == {j: bin_of(0.0, pts[hdr[j]]) for j in sub}, "zero bins of columns %r are %r with split points %r", sub, zero, pts)
        require({k: [float(x) for x in v] for k, v in b.split_points.items()} == own, "the fitted split points changed from %r to %r", own, b.split_points)
    ctx.mark(len(case["turns"]) > 1 and any(x["points"] for x in case["turns"]))
    ctx.label("%d conversions" % len(case["turns"]))


def with_turns(c):
    turn = st.fixed_dictionaries({"points": st.one_of(st.just([]), st.lists(st.integers(-8, 8).map(lambda v: v / 2.0), min_size=1, max_size=4)),
                                  "more": st.integers(0, 7), "mask": st.one_of(st.none(), st.lists(st.booleans(), min_size=1, max_size=4)),
                                  "same": st.booleans(), "sparse": st.booleans(), "array": st.booleans()})
    return st.lists(turn, min_size=1, max_size=4).map(lambda t: dict(c, turns=t))


SUBS = [
    Sub("fitted", cases(), fitted, quick=1500, thorough=40000, shards=3,
        rule="random tables of up to 30 records; split points against exact ranks; non-trivial = more than two split points"),
    Sub("fitted_close", cases(tidy=False).map(lambda c: dict(c, sparse=False)), fitted, quick=900, thorough=20000, shards=3,
        rule="dense tables with values of any magnitude and distance, below the project's zero too; non-trivial = more than two split points"),
    Sub("fitted_large", cases(big=True), fitted, quick=240, thorough=6000, shards=3,
        rule="tables of 60-400 records with small buffers; non-trivial = more than two split points"),
    Sub("fitted_very_large", very_large(), fitted, quick=16, thorough=160, shards=4, tshards=8,
        rule="9999-25000 records with the default buffers of 10000; non-trivial = more than two split points"),
    Sub("converted", st.one_of(cases(), cases()), converted, quick=900, thorough=20000, shards=3,
        rule="conversion of the fitted and of another table, dense and sparse, against the definition of a bin; "
             "non-trivial = several split points and more than 3 records"),
    Sub("converted_large", st.one_of(cases(big=True), many_bins()), converted, quick=80, thorough=2000, shards=4, tshards=8,
        rule="the same for 60-420 records and up to 500 bins; non-trivial as converted"),
    Sub("partial_transform", cases().flatmap(lambda c: st.lists(st.booleans(), min_size=1, max_size=4).map(lambda m: dict(c, mask=m))),
        partial_transform, quick=500, thorough=10000, shards=2, rule="non-trivial = not every column is transformed"),
    Sub("again", cases().flatmap(with_turns), again, quick=1500, thorough=20000, shards=4, tshards=8,
        rule="one fitted object converting one to four times: other tables, column subsets and the caller's own split points; non-trivial = several conversions, one with given points"),
]
ASSUMPTIONS = ["finite feature values; values the project treats as zero (|v| < 1e-6) are written as 0"]
