import boot
boot.install()
import copy
import math
import random
from bisect import bisect_left, bisect_right

from hypothesis import strategies as st

from vf import Sub, Violation, require
from ml.utils import consts
from ml.feature.quantile_summaries import QuantileSummaries, SparseQuantileSummaries

QS = [0.0, 1.0, 0.5, 0.25, 0.1, 0.9, 0.01, 0.99, 0.75]


def values(max_size=160):
    el = st.one_of(st.integers(-20, 20), st.floats(-1e6, 1e6, allow_nan=False), st.integers(-3, 3),
                   st.sampled_from([1e-9, -1e-9, 1e-7, 0.5, 1e300, -1e300]))

    @st.composite
    def big(draw):
        n = draw(st.integers(1, max_size))
        kind = draw(st.sampled_from(["up", "down", "zigzag", "mod", "lcg", "blocks"]))
        a = draw(st.integers(1, 97))
        m = draw(st.integers(2, 211))
        if kind == "up":
            return [float(i) for i in range(n)]
        if kind == "down":
            return [float(-i) for i in range(n)]
        if kind == "zigzag":
            return [float(i if i % 2 else -i) for i in range(n)]
        if kind == "mod":
            return [float((i * a) % m) - m // 2 for i in range(n)]
        if kind == "blocks":
            return [float((i // max(1, n // 7) * a) % 13) + (i % 5) / 8.0 for i in range(n)]
        x, r = a, []
        for _ in range(n):
            x = (x * 1103515245 + 12345) % (1 << 31)
            r.append(float(x % 100003) - 50000)
        return r
    return st.one_of(st.lists(el, max_size=40), big(), big())


@st.composite
def settings(draw, small=True):
    err = draw(st.sampled_from([1e-4, 1e-3, 0.01, 0.02, 0.05, 0.1, 0.2]))
    if draw(st.booleans()):
        return {"error": err, "head_size": draw(st.sampled_from([1, 2, 3, 7, 20, 50])),
                "compress_thres": draw(st.sampled_from([1, 2, 5, 10, 50, 10000]))}
    return {"error": err, "head_size": draw(st.sampled_from([10, 10000])), "compress_thres": 10000}


def quantiles():
    return st.lists(st.one_of(st.sampled_from(QS), st.floats(0, 1), st.integers(1, 31).map(lambda i: i / 32)),
                    min_size=1, max_size=12)


def rank_error(vals, p, ans):
    """Distance from p*n to the interval of ranks that `ans` has among the sorted `vals`."""
    lo = bisect_left(vals, ans) + 1
    hi = bisect_right(vals, ans)
    r = p * len(vals)
    return max(0.0, lo - r, r - hi)


def check_answers(s, vals, qs, slack, err, allowed_zero, where):
    n = len(vals)
    for p in qs:
        a = s.query(p)
        require(a in vals or (allowed_zero and a == 0.0), "%s: query(%r) gives %r, which was never inserted", where, p, a)
        if a in vals or vals:
            e = rank_error(vals, p, a)
            require(e <= slack * err * n + 1 + 1e-9,
                    "%s: query(%r) of %d numbers (error %r) gives %r, off by %r ranks, allowed %r",
                    where, p, n, err, a, e, slack * err * n + 1)


def build(case, sparse=False):
    cls = SparseQuantileSummaries if sparse else QuantileSummaries
    return cls(abnormal_list=list(case.get("abnormal", [])), **case["set"])


def single(case, ctx):
    s = build(case)
    vals = []
    for n, v in enumerate(case["values"]):
        if case["junk"] and n % 5 == 2:
            s.insert(case["junk"])          # not a number: ignored
        s.insert(str(v) if case["text"] and n % 3 == 0 and not case["abnormal"] else v)
        if v not in case["abnormal"]:
            vals.append(float(v))
    vals.sort()
    if not vals:
        for p in case["q"]:
            s.query(p)
        return
    early = copy.deepcopy(s)
    check_answers(s, vals, case["q"], 1, case["set"]["error"], False, "summary")
    early.compress()
    early.compress()
    check_answers(early, vals, case["q"], 1, case["set"]["error"], False, "compressed summary")
    a = [s.query(p) for p in case["q"]]
    require(a == [s.query(p) for p in case["q"]], "asking the same quantiles again gives other answers")
    for v in case["later"]:
        s.insert(v)
        if v not in case["abnormal"]:
            vals.append(float(v))
    vals.sort()
    check_answers(s, vals, case["q"], 1, case["set"]["error"], False, "summary queried between insertions")
    ctx.mark(len(set(vals)) > 3 and len(vals) > case["set"]["head_size"])
    ctx.label("buffer flushed" if len(vals) > case["set"]["head_size"] else "one buffer")


def sparse_single(case, ctx):
    s = build(case, True)
    nz = [float(v) for v in case["values"] if abs(v) >= consts.FLOAT_ZERO]
    for v in nz:
        s.insert(v)
    for v in case["abnormal"]:
        s.insert(v)
    nz = [v for v in nz if v not in case["abnormal"]]
    vals = sorted(nz + [0.0] * case["zeros"])
    if not vals:
        return
    s.set_total_count(len(vals))
    early = copy.deepcopy(s)
    check_answers(s, vals, case["q"], 1, case["set"]["error"], True, "sparse summary")
    early.compress()
    check_answers(early, vals, case["q"], 1, case["set"]["error"], True, "compressed sparse summary")
    ctx.mark(case["zeros"] > 0 and min(vals) < 0 < max(vals))
    ctx.label("both signs" if min(vals) < 0 < max(vals) else "one sign", "zeros" if case["zeros"] else "no zeros")


def merged(case, ctx):
    sparse = case["sparse"]
    parts = case["parts"]
    sums = []
    vals = []
    for part in parts:
        s = build(case, sparse)
        for v in part:
            if sparse and abs(v) < consts.FLOAT_ZERO:
                continue
            s.insert(v)
            vals.append(float(v))
        if case["compress"]:
            s.compress()
        sums.append(s)
    if sparse:
        vals += [0.0] * case["zeros"]
    vals.sort()
    if not vals:
        return
    copies = [copy.deepcopy(s) for s in sums[1:]]
    if case["shape"] == "left":
        acc = sums[0]
        for s in sums[1:]:
            acc.merge(s)
    else:
        todo = list(sums)
        while len(todo) > 1:
            nxt = []
            for i in range(0, len(todo) - 1, 2):
                todo[i].merge(todo[i + 1])
                nxt.append(todo[i])
            if len(todo) % 2:
                nxt.append(todo[-1])
            todo = nxt
        acc = todo[0]
    if sparse:
        acc.set_total_count(len(vals))
    require(acc.count == len(vals) - (case["zeros"] if sparse else 0), "the merged summary counts %d numbers, %d were inserted",
            acc.count, len(vals))
    check_answers(acc, vals, case["q"], 1, case["set"]["error"], sparse, "merged summary")
    if case["shape"] == "left":
        for s, c, part in zip(sums[1:], copies, parts[1:]):
            pv = sorted(float(v) for v in part if not (sparse and abs(v) < consts.FLOAT_ZERO))
            if pv and not sparse:
                check_answers(s, pv, case["q"], 1, case["set"]["error"], False, "summary that was merged into another")
    ctx.mark(sum(1 for p in parts if len(p) > 1) > 1 and len(set(vals)) > 3)
    ctx.label("parts=%d" % len(parts), "sparse" if sparse else "dense")


def rejects(case, ctx):
    for sparse in (False, True):
        s = build(case, sparse)
        for v in case["values"]:
            s.insert(v)
        if sparse:
            s.set_total_count(max(1, len(case["values"]) + 2))
        try:
            r = s.query(case["p"])
        except ValueError:
            continue
        raise Violation("query(%r) of a %s summary of %d numbers answers %r" % (case["p"], "sparse" if sparse else "dense",
                                                                              len(case["values"]), r))
    ctx.mark(len(case["values"]) > 0)


def sequence(kind, n, a):
    """n numbers of the named shape."""
    rnd = random.Random(a)
    if kind == "up":
        return [float(i) for i in range(n)]
    if kind == "down":
        return [float(-i) for i in range(n)]
    if kind == "zigzag":
        return [float(i if i % 2 else -i) for i in range(n)]
    if kind == "mod":
        return [float((i * a) % (1 + a * 7 % 997)) for i in range(n)]
    if kind == "repeated":
        return [float(rnd.randint(0, a)) for _ in range(n)]
    if kind == "blocks":
        return [(i // (n // 5 + 1)) * 10 + rnd.random() * 60 for i in range(n)]
    return [rnd.uniform(-1, 1) for _ in range(n)]


def long(case, ctx):
    """Thousands of numbers through small buffers, in one summary or in several merged ones of different errors."""
    parts = case["parts"]
    vals = sequence(case["kind"], case["n"], case["a"])
    n = len(vals)
    sparse = case["sparse"]
    cls = SparseQuantileSummaries if sparse else QuantileSummaries
    errs = [case["errors"][i % len(case["errors"])] for i in range(parts)]
    sums = [cls(error=e, head_size=case["head"], compress_thres=case["thres"]) for e in errs]
    cuts = [0, n]
    if parts > 1:
        cuts = sorted({0, n} | {int(n * c) for c in case["cuts"][:parts - 1]})
    where = [0] * n
    if case["spread"]:
        where = [i % parts for i in range(n)]
    else:
        for k, (lo, hi) in enumerate(zip(cuts, cuts[1:])):
            where[lo:hi] = [k] * (hi - lo)
    if sparse:
        vals = [v if abs(v) >= consts.FLOAT_ZERO else 0.0 for v in vals]
    for i, v in enumerate(vals):
        if not sparse or v:
            sums[where[i]].insert(v)
        if case["peek"] and i % 97 == 96 and (not sparse):
            sums[where[i]].query(0.5)
    acc = sums[0]
    for s in sums[1:]:
        acc.merge(s)
    for v in case["later"]:
        if not sparse or v:
            acc.insert(v)
        vals.append(v)
    if sparse:
        vals += [0.0] * case["zeros"]
        acc.set_total_count(len(vals))
    vals.sort()
    check_answers(acc, vals, [i / 50 for i in range(51)] + [0.005, 0.995, 0.001, 0.999], 1, max(errs), sparse,
                  "summary of %d numbers" % len(vals) if parts == 1 else "merged summary")
    ctx.mark(acc.count > 5 * len(acc.sampled))
    ctx.label("parts=%d" % parts, "sparse" if sparse else "dense", case["kind"])


abn = st.lists(st.sampled_from([1, -2, 3.0, 7, 0.5]), max_size=2)

SUBS = [
    Sub("single", st.fixed_dictionaries({"values": values(), "later": values(60), "q": quantiles(), "set": settings(), "abnormal": abn,
                                         "junk": st.sampled_from(["", "", "", "NA", "one", "1,5"]), "text": st.sampled_from([False, False, True])}),
        single, quick=2400, thorough=60000, shards=4,
        rule="insertion sequences with interleaved queries against exact ranks; non-trivial = more than 3 distinct numbers and a full head buffer"),
    Sub("sparse", st.fixed_dictionaries({"values": values(), "zeros": st.integers(0, 120), "q": quantiles(), "set": settings(),
                                         "abnormal": abn}),
        sparse_single, quick=2000, thorough=60000, shards=4,
        rule="non-zero numbers plus a count of implicit zeros against exact ranks; non-trivial = zeros and both signs"),
    Sub("merged", st.fixed_dictionaries({"parts": st.lists(values(60), min_size=2, max_size=6), "zeros": st.integers(0, 60),
                                         "sparse": st.booleans(), "compress": st.booleans(), "q": quantiles(), "set": settings(),
                                         "shape": st.sampled_from(["left", "tree"])}),
        merged, quick=1600, thorough=40000, shards=4, rule="2-6 summaries merged; non-trivial = two parts of several numbers"),
    Sub("long", st.fixed_dictionaries({"kind": st.sampled_from(["up", "down", "zigzag", "mod", "repeated", "blocks", "uniform"]), "n": st.integers(200, 3000), "a": st.integers(1, 200),
                                       "parts": st.sampled_from([1, 1, 2, 3, 5]), "cuts": st.lists(st.floats(0, 1), min_size=4, max_size=4), "spread": st.booleans(),
                                       "errors": st.one_of(st.sampled_from([1e-3, 2e-3, 0.005, 0.01, 0.02, 0.05]).map(lambda e: [e]), st.lists(st.sampled_from([1e-3, 0.005, 0.01, 0.05, 0.1]), min_size=2, max_size=3)),
                                       "head": st.sampled_from([1, 2, 3, 7, 20, 50, 100]), "thres": st.sampled_from([1, 2, 5, 10, 50, 200]), "peek": st.booleans(),
                                       "sparse": st.sampled_from([False, False, True]), "zeros": st.integers(0, 500), "later": st.lists(st.integers(-400, 400).map(lambda i: i / 8), max_size=3)}),
        long, quick=400, thorough=12000, shards=4, tshards=8, rule="200-3000 numbers through small buffers, 1-5 summaries merged; non-trivial = the summary keeps less than a fifth of the numbers"),
    Sub("rejects", st.fixed_dictionaries({"values": st.lists(st.integers(1, 9), max_size=5), "set": settings(),
                                          "p": st.one_of(st.floats(1.0000001, 5), st.floats(-5, -1e-9))}),
        rejects, quick=300, shards=1, rule="non-trivial = summary not empty"),
]
ASSUMPTIONS = ["the rank may be off by one more than e*n, since p*n is not a whole rank"]
