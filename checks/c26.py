import boot
boot.install()
import copy
import math
from bisect import bisect_left, bisect_right
from fractions import Fraction

import numpy as np
from vf import Sub, require
from hypothesis import strategies as st
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.statistic import data_overview
from ml.statistic.statics import MultivariateStatisticalSummary, SummaryStatistics
from ml.utils.abnormal_detection import empty_table_detection

ERR = 0.001          # the summaries' documented default error


def exact(vals):
    xs = [Fraction(v) for v in vals]
    n = len(xs)
    mean = sum(xs) / n
    return n, mean, sum((x - mean) ** 2 for x in xs) / n, max(vals), min(vals)


def tolerances(vals):
    m, n = max(map(abs, vals)), len(vals)
    return 4e-16 * (n + 4) * m + 5e-324, 2e-6 + 2e-15 * (n + 6) * m * m


def check_moments(got, vals, what):
    n, mean, var, hi, lo = exact(vals)
    tm, tv = tolerances(vals)
    if "mean" in got:
        require(abs(got["mean"] - float(mean)) <= tm, "%s: mean of %r is %r, reported %r", what, vals, float(mean), got["mean"])
    if "variance" in got:
        require(abs(got["variance"] - float(var)) <= tv, "%s: variance of %r is %r, reported %r", what, vals, float(var), got["variance"])
        require(got["variance"] >= 0, "%s: the variance of %r is reported as %r", what, vals, got["variance"])
    if "std_variance" in got:
        s = got["std_variance"]
        require(s >= 0 and abs(s * s - float(var)) <= tv * 1.01, "%s: standard deviation of %r is %r, reported %r", what, vals, math.sqrt(var), s)
    require(got.get("max_value", hi) == hi and got.get("min_value", lo) == lo, "%s: extremes of %r are reported as %r and %r", what, vals, got.get("min_value"), got.get("max_value"))


def check_rank(ans, p, vals, what):
    srt = sorted(vals)
    n = len(srt)
    lo, hi = bisect_left(srt, ans) + 1, bisect_right(srt, ans)
    require(hi >= lo, "%s: the %r quantile of %r is %r, which is none of the values", what, p, srt, ans)
    want = p * n
    off = 0 if lo <= want <= hi else min(abs(lo - want), abs(hi - want))
    require(off <= 2 * ERR * n + 1 + 1e-9, "%s: the %r quantile of %r is reported as %r, which has rank %d..%d of %d", what, p, srt, ans, lo, hi, n)


SCALES = [("unit", 1.0), ("thousand", 1e3), ("milli", 1e-3), ("big", 1e8), ("huge", 1e25), ("tiny", 1e-8)]


@st.composite
def column(draw, n):
    kind = draw(st.sampled_from(["mixed", "const", "spread", "offset", "negative", "floats", "spread"]))
    scale = dict(SCALES)[draw(st.sampled_from(["unit", "unit", "thousand", "milli", "big", "huge", "tiny"]))]
    a, m, b = draw(st.integers(1, 40)), draw(st.integers(2, 60)), draw(st.integers(-30, 30))
    if kind == "const":
        return [(b + a / 7.0) * scale] * n
    if kind == "mixed":
        return [float(v) for v in draw(st.lists(st.integers(-9, 9), min_size=n, max_size=n))]
    if kind == "floats":
        return draw(st.lists(st.floats(-1e6, 1e6), min_size=n, max_size=n))
    off = {"spread": -m // 2, "offset": 3 * m + b, "negative": -4 * m}[kind]
    return [((i * i * 31 + i * a) % m + off) / 4.0 * scale for i in range(n)]


@st.composite
def table_case(draw):
    n, c = draw(st.one_of(st.integers(1, 12), st.integers(10, 60))), draw(st.integers(1, 5))
    cols = [draw(column(n)) for _ in range(c)]
    return {"rows": [[cols[j][i] for j in range(c)] for i in range(n)], "form": draw(st.sampled_from(["instance", "array", "list", "ints"])),
            "abnormal": draw(st.sampled_from([None, None, [], [-999.0], [-999.0, 12345.5], ["NA", None, -999.0], [0.0], [0]])),
            "bad": draw(st.lists(st.tuples(st.integers(0, 59), st.integers(0, 4), st.integers(0, 3)), max_size=12)),
            "cols": draw(st.one_of(st.just(-1), st.lists(st.integers(0, c - 1), min_size=1, max_size=c, unique=True))),
            "ask": draw(st.sampled_from([0, 1, 2, 3, 4, 4, 4, 5])), "masks": draw(st.lists(st.integers(1, 31), min_size=1, max_size=8)), "cut": draw(st.integers(0, 60)), "ps": draw(st.lists(st.one_of(st.floats(0, 1), st.sampled_from([0.0, 0.25, 0.5, 0.9, 1.0])), min_size=1, max_size=4)),
            "order": draw(st.integers(0, 5))}


@st.composite
def large_case(draw):
    """More rows than the summaries' buffers hold by default."""
    c = draw(table_case())
    n, k = draw(st.sampled_from([500, 1001, 3000, 9999, 10000, 10001, 12000])), draw(st.integers(1, 2))
    cols = []
    for _ in range(k):
        a, m, o = draw(st.sampled_from([1, 7919, 13])), draw(st.sampled_from([97, 5003, 30011])), draw(st.integers(-3000, 3000))
        cols.append([((i * a) % m + o) / 4.0 for i in range(n)])
    return dict(c, rows=[[cols[j][i] for j in range(k)] for i in range(n)], cols=-1, cut=draw(st.sampled_from([1, n // 3, n - 1])))


def prepared(case):
    """(rows with abnormal values planted, table, abnormal list, per column: its normal values)"""
    ab = case["abnormal"]
    rows = [list(r) for r in case["rows"]]
    form = case["form"]
    if form == "ints":
        rows = [[int(max(-1e15, min(1e15, v))) for v in r] for r in rows]
    c = len(rows[0])
    for i, j, k in case["bad"]:
        if ab:
            v = ab[k % len(ab)]
            if form == "list" or isinstance(v, (int, float)):
                rows[i % len(rows)][j % c] = v
    normal = [[r[j] for r in rows if not (ab and r[j] in ab)] for j in range(c)]
    if form == "instance":
        items = [Instance(inst_id=i, features=np.array([float(v) for v in r])) for i, r in enumerate(rows)]
    elif form == "list":
        items = [list(r) for r in rows]
    elif form == "ints" and not any(isinstance(v, float) for r in rows for v in r):
        items = [Instance(inst_id=i, features=np.array(r)) for i, r in enumerate(rows)]
    else:
        items = [np.array([float(v) for v in r]) for r in rows]
    return rows, items, ab, normal


def make(items, header):
    t = DTable(False, items) if header[0] != "k0" else DTable(True, [("id%d" % i, v) for i, v in enumerate(items)])
    t.schema["header"] = list(header)
    return t


GET = {"mean": "get_mean", "variance": "get_variance", "std_variance": "get_std_variance", "max_value": "get_max", "min_value": "get_min"}


def snapshot(t):
    return repr([(k, (v.inst_id, list(v.features)) if isinstance(v, Instance) else list(v)) for k, v in t.collect()])


def whole(case, ctx):
    rows, items, ab, normal = prepared(case)
    c = len(rows[0])
    header = ["%s%d" % ("kx"[case["order"] % 2], j) for j in range(c)]
    t = make(items, header)
    before = snapshot(t)
    sel = list(range(c)) if case["cols"] == -1 else case["cols"]
    keep_ab = copy.deepcopy(ab)
    s = MultivariateStatisticalSummary(t, cols_index=case["cols"] if case["cols"] == -1 else list(case["cols"]), abnormal_list=ab)
    usable = [j for j in sel if normal[j]]
    if not usable:
        ctx.label("nothing left")
        return
    names = {header[j]: j for j in usable}
    partial = usable != sel
    asks = {}
    jobs = [("median", None)] + [("quantile", p) for p in case["ps"]] + [(k, None) for k in GET]
    turn = 0
    r = case["order"] * 2 + 1
    jobs = jobs[r % len(jobs):] + jobs[:r % len(jobs)]
    for what, p in jobs:
        for again in range(2):
            # a column without normal values has no statistics: ask for the others by name only
            arg = {h: j for h, j in names.items()} if partial or case["ask"] == 1 else None
            if case["ask"] == 2:
                first = sorted(names)[0]
                arg = {first: names[first]}
            elif case["ask"] == 4:
                # another subset each time, in another order
                turn += 1
                m = case["masks"][turn % len(case["masks"])]
                arg = {h: names[h] for k, h in enumerate(sorted(names, reverse=m % 2 == 0)) if m >> k & 1}
                if m == 31 and not partial:
                    arg = None
                elif m % 3 == 0:
                    arg = dict({"nosuch": 0, **{header[j]: j for j in range(c) if j not in sel}}, **arg)
            elif case["ask"] == 3:
                arg = dict({h: j for h, j in names.items()}, nosuch=0)
                others = [j for j in range(c) if j not in sel]
                if others:
                    arg[header[others[0]]] = others[0]
            if what == "median":
                if partial:
                    continue        # computes every selected column at once
                got = s.get_median(arg) if arg is not None else s.get_median()
            elif what == "quantile":
                got = s.get_quantile_point(p, arg) if arg is not None else s.get_quantile_point(p)
            else:
                got = getattr(s, GET[what])(arg) if arg is not None else getattr(s, GET[what])()
            want = set(names) if arg is None else set(arg) & set(names)
            require(set(got) == want, "%s: columns %r are reported, asked for %r of the selected %r", what, sorted(got), arg, sorted(names))
            for h in want:
                if what in GET and h in asks.get("again", {}).get(what, {}):
                    require(got[h] == asks["again"][what][h], "%s of column %s is reported as %r and then as %r", what, h, asks["again"][what][h], got[h])
                elif what in GET:
                    asks.setdefault("again", {}).setdefault(what, {})[h] = got[h]
                if what in GET:
                    asks.setdefault(h, {})[what] = got[h]
                else:
                    check_rank(got[h], 0.5 if what == "median" else p, normal[names[h]], "%s of column %s" % (what, h))
            if case["ask"] in (4, 5):
                got.clear()     # the caller may do with an answer what it likes
                got["x0"] = "mine"
    asks.pop("again", None)
    for h, got in asks.items():
        check_moments(got, normal[names[h]], "column %s" % h)
    require(snapshot(t) == before and t.schema["header"] == header, "computing statistics changes the table")
    require(repr(ab) == repr(keep_ab), "computing statistics changes the abnormal list")
    ctx.mark(len(rows) > 2 and any(len(set(normal[j])) > 2 for j in usable))
    ctx.label(case["form"], "abnormal" if ab and any(len(normal[j]) < len(rows) for j in usable) else "plain", "subset" if len(sel) < c else "all columns")


def merging(case, ctx):
    """statistics of a table, of its parts merged, and of the table itself agree"""
    rows, items, ab, normal = prepared(case)
    c = len(rows[0])
    header = ["x%d" % j for j in range(c)]
    cut = [case["cut"] % (len(rows) + 1), (case["cut"] * 7 + case["order"]) % (len(rows) + 1)]
    cut = [0] + sorted(cut) + [len(rows)]
    parts = [list(enumerate(items))[a:b] for a, b in zip(cut, cut[1:])]
    cols = {header[j]: j for j in range(c)}
    ab_ = ab if ab is not None else []
    M = MultivariateStatisticalSummary
    stats = [M.static_in_partition(p, cols, ab_)[0] for p in parts]
    sums = [M.static_summaries_in_partition(p, cols, ab_)[0] for p in parts]
    if case["order"] % 3 == 0:
        merge = lambda d: M.aggregate_statics(M.aggregate_statics(d[0], d[1]), d[2])
    elif case["order"] % 3 == 1:
        merge = lambda d: M.aggregate_statics(d[2], M.aggregate_statics(d[0], d[1]))
    else:
        merge = lambda d: M.aggregate_statics(M.aggregate_statics(None, M.aggregate_statics(d[1], None)), M.aggregate_statics(d[0], d[2]))
    a, q = merge(stats), merge(sums)
    require(M.aggregate_statics(None, None) is None, "merging nothing gives something")
    for h, j in cols.items():
        if not normal[j]:
            continue
        o = a[h]
        require(o.count == len(normal[j]), "column %s: %d values merged, counted %r", h, len(normal[j]), o.count)
        check_moments({k: getattr(o, k) for k in GET}, normal[j], "merged column %s" % h)
        for p in case["ps"]:
            check_rank(q[h].query(p), p, normal[j], "merged column %s" % h)
    ctx.mark(sum(1 for p in parts if p) > 1)
    ctx.label("%d parts" % sum(1 for p in parts if p), case["form"])


def overview(case, ctx):
    n = case["n"]
    kind = case["kind"]
    mk = {"sparse": lambda i: Instance(features=SparseVector([0], [1.0], 3)), "dense": lambda i: Instance(features=np.zeros(3)),
          "array": lambda i: np.zeros(3), "list": lambda i: [0.0] * 3}[kind]
    t = DTable(False, [mk(i) for i in range(n)])
    t.schema["header"] = ["a", "b", "c"]
    try:
        empty_table_detection(t)
        ok = True
    except ValueError:
        ok = False
    require(ok == (n > 0), "a table of %d records is %s", n, "accepted" if ok else "refused as empty")
    require(data_overview.get_header(t) == ["a", "b", "c"], "the header is reported as %r", data_overview.get_header(t))
    if n:
        require(data_overview.is_sparse_data(t) == (kind == "sparse"), "%s records count as %ssparse", kind, "" if data_overview.is_sparse_data(t) else "not ")
    for bad in ([c for c in (3, 7)], ["x"]):
        try:
            MultivariateStatisticalSummary(t, cols_index=bad)
        except ValueError:
            continue
        require(False, "the column selection %r of 3 columns is accepted", bad)
    ctx.mark(n > 0)
    ctx.label(kind)


def single(case, ctx):
    """one SummaryStatistics object over a history of insertions and merges"""
    objs = [(SummaryStatistics(case["abnormal"]), []) for _ in range(3)]
    for op, a, b in case["ops"]:
        o, vals = objs[a % 3]
        if op == "merge" and a % 3 != int(b) % 3:
            p, w = objs[int(b) % 3]
            o.merge(p)
            vals.extend(w)
        elif op == "add":
            o.add_value(b)
            if b not in (case["abnormal"] or []):
                vals.append(b)
        for o, vals in objs:
            require(o.count == len(vals), "%d values, counted %r", len(vals), o.count)
            if vals:
                check_moments({k: getattr(o, k) for k in GET}, vals, "after %s" % op)
    ctx.mark(any(len(set(v)) > 2 for _, v in objs))
    ctx.label("merged" if any(o[0] == "merge" for o in case["ops"]) else "added")


val = st.one_of(st.integers(-20, 20), st.floats(-1e9, 1e9), st.sampled_from([0.0, 1e-7, 1e22, -1e22, 1e19, -1e19, 5.0, -999.0]))
SUBS = [
    Sub("tables", table_case(), whole, quick=4000, thorough=15000, shards=4, tshards=8,
        rule="tables of 1..60 rows and 1..5 columns of any magnitude (records, arrays, lists), abnormal values, column selections and repeated queries in any order, "
             "against exact rational moments and ranks; non-trivial = more than two rows and distinct values"),
    Sub("merging", table_case(), merging, quick=3000, thorough=10000, shards=2, tshards=8, rule="a table cut into three parts and merged in any order; non-trivial = more than one non-empty part"),
    Sub("large", large_case(), whole, quick=24, thorough=200, shards=4, tshards=8, rule="as tables with 500 to 12000 rows"),
    Sub("large_merging", large_case(), merging, quick=16, thorough=120, shards=4, tshards=8, rule="as merging with 500 to 12000 rows"),
    Sub("histories", st.fixed_dictionaries({"abnormal": st.sampled_from([None, [], [-999.0, 5]]),
                                            "ops": st.lists(st.one_of(st.tuples(st.just("add"), st.integers(0, 2), val), st.tuples(st.just("add"), st.integers(0, 2), val),
                                                                      st.tuples(st.just("merge"), st.integers(0, 2), st.integers(0, 2))), min_size=1, max_size=20)}), single,
        quick=900, thorough=10000, shards=2, tshards=4, rule="insertions into and merges between three summaries, all checked after every step"),
    Sub("overview", st.fixed_dictionaries({"n": st.integers(0, 5), "kind": st.sampled_from(["sparse", "dense", "array", "list"])}), overview, quick=100, thorough=400,
        rule="emptiness, header, sparseness and the range of column selections"),
]
ASSUMPTIONS = ["records are dense; NaN is not a value", "a variance below the project's FLOAT_ZERO may be reported as zero, and is otherwise accurate to the rounding of a sum of squares",
               "a column all of whose values are abnormal has no statistics"]
