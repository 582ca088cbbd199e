import boot
boot.install()
import math

import gen
import model
import numpy as np
from vf import Sub, Skip, require
from hypothesis import strategies as st
from checks import c08
from ml.optim.convergence import AbsConverge, DiffConverge, WeightDiffConverge

OBJECTIVES = ["lse", "lae", "huber", "fair", "log_cosh", "tweedie"]
PARAM = {"huber": [1.5, 0.4, 5.0], "fair": [2.0, 0.7, 5.0], "tweedie": [1.5, 1.2, 1.9]}


class Run:
    """A training run, local or federated: what the oracles look at."""

    def __init__(self, case, cfg=None):
        cfg = cfg or case["cfg"]
        self.case = case
        if case["trainer"] == "local":
            self.rows = c08.joined_columns(case)
            self.m = c08.local_fit(self.rows, case["y"], cfg, case["sparse"])
            self.hosts = []
        else:
            self.f = model.Federation(cfg, len(case["H"]), case["schedule"])
            self.f.fit(*model.tables_of(case, sparse=case["sparse"]))
            self.m, self.hosts = self.f.guest, self.f.hosts
        self.trees = model.joined_trees(self.m, self.hosts)
        self.losses = list(self.m.history_loss)

    def predict(self, g, h):
        c = dict(self.case, G=g, H=h)
        if self.case["trainer"] == "local":
            rows = c08.joined_columns(c)
            return self.m.predict(model.table(rows, model.header("c", len(rows[0])), None))
        return self.f.predict(*model.tables_of(c, with_labels=False))

    def rows_of(self, g, h, i):
        """feature access for record i"""
        if self.case["trainer"] == "local":
            r = c08.joined_columns(dict(self.case, G=g, H=h))[i]
            return lambda s, fid: model.zeroed(r[fid])
        rows = {"guest": g}
        rows.update(enumerate(h))
        return lambda s, fid: model.zeroed(rows[s][i][fid])


def initial(case):
    y = sorted(case["y"])
    n = len(y)
    if case["cfg"].get("task") != "regression":
        k = len(set(y))
        return [0.0] * (k if k > 2 else 1)
    if case["cfg"]["objective"] == "lae":
        return [y[(n + 1) // 2 - 1]], [y[n // 2]]
    return [float(sum(y)) / n]


def end_to_end(case, ctx):
    cfg = case["cfg"]
    r = Run(case)
    init = initial(case)
    if cfg["objective"] == "lae":
        got = [float(v) for v in np.atleast_1d(r.m.init_score)]
        lo, hi = init
        n = len(case["y"])
        srt = sorted(case["y"])
        # a median value, up to the rank error that the summaries document
        slack = 1 + int(2 * 0.001 * n)
        require(len(got) == 1 and got[0] in srt and srt[max(0, srt.index(lo[0]) - slack)] <= got[0] <= srt[min(n - 1, n - 1 - srt[::-1].index(hi[0]) + slack)],
                "the initial score for absolute error of the labels %r is %r", srt, got)
        init = got
    oracle = cfg["objective"] != "tweedie"
    if oracle:
        if case["trainer"] == "local":
            orc = model.check_training(c08.Holder(r.m), {"cfg": cfg, "G": r.rows, "H": [], "y": case["y"]}, base=init)
        else:
            orc = model.check_training(r.f, case, base=init)
    n = len(case["G"])
    final = dict(r.m.F.collect())
    require(sorted(final) == list(range(n)), "training ends with scores of the records %r of %d", sorted(final), n)
    for i in range(n):
        s = model.record_score(r.trees, 1, cfg["lr"], init, r.rows_of(case["G"], case["H"], i))
        require(model.close(float(final[i][0]), s[0], 1e-12, 1e-12), "record %d ends training with score %r; initial score and shrunken leaves give %r", i, final[i], s)
    for what, g, h in (("training data", case["G"], case["H"]), ("new data", case["G2"], case["H2"])):
        res = dict(r.predict(g, h).collect())
        require(sorted(res) == list(range(len(g))), "%s: predictions for %r of %d records", what, sorted(res), len(g))
        for i in range(len(g)):
            s = model.record_score(r.trees, 1, cfg["lr"], init, r.rows_of(g, h, i))
            model.check_row(res[i], None, s, cfg, None, "%s, record %d" % (what, i))
    splits = sum(1 for t in r.trees for nd in t.values() if not nd.leaf)
    if oracle:
        require(len(r.losses) == len(r.trees), "%d losses for %d trees", len(r.losses), len(r.trees))
    ctx.mark(splits > 1)
    ctx.label(cfg["objective"], case["trainer"], "split" if splits else "no split")


def improving(case, ctx):
    cfg = case["cfg"]
    r = Run(case)
    y = case["y"]
    mean = sum(y) / len(y)
    start = sum((v - mean) ** 2 for v in y) / len(y)
    seq = [start] + r.losses
    scale = max(start, max(v * v for v in y) * 1e-13)
    for i, (a, b) in enumerate(zip(seq, seq[1:])):
        require(b <= a + 1e-9 * scale + 1e-15, "the loss grows from %r to %r in round %d (learning rate %r): %r", a, b, i, cfg["lr"], seq)
        require(b >= 0, "the squared error after round %d is %r", i, b)
    for t, nodes in enumerate(r.trees):
        if any(not nd.leaf for nd in nodes.values()):
            require(seq[t + 1] < seq[t] + 1e-12 * scale, "round %d splits, but the loss stays at %r", t, seq[t])
    ctx.mark(len(seq) > 3 and seq[-1] < 0.9 * seq[0])
    ctx.label("lr=%s" % cfg["lr"], case["trainer"], "%d rounds" % len(r.losses))


def stopping(case, ctx):
    """The full loss sequence, then the same with early stopping at tolerances around its own steps."""
    cfg = dict(case["cfg"], early_stop=False)
    full = Run(case, cfg)
    L, dim = full.losses, 1 if cfg.get("task") == "regression" or len(set(case["y"])) == 2 else len(set(case["y"]))
    require(len(L) == cfg["num_trees"], "%d rounds are trained without early stopping, %d requested", len(L), cfg["num_trees"])
    require(len(full.trees) == dim * cfg["num_trees"], "%d trees in %d rounds of %d", len(full.trees), cfg["num_trees"], dim)
    gaps = [abs(a - b) for a, b in zip(L, L[1:])]
    stopped = False
    for k, how in case["tols"]:
        g = gaps[k % len(gaps)] if gaps else 0.01
        exactly = case["trainer"] == "local" and how == 2
        tol = g if exactly else g * (1 + 1e-3) + 1e-7 if how == 0 else g * (1 - 1e-3) if how == 1 else [1e-4, 0.0, 0.05, 1e9][k % 4]
        if not exactly and any(abs(x - tol) <= 1e-7 + 1e-6 * x for x in gaps):
            ctx.label("too close")        # encryption rounding could decide
            continue
        want = next((i + 2 for i, x in enumerate(gaps) if x < tol), cfg["num_trees"])
        r = Run(case, dict(cfg, early_stop=True, tol=tol))
        require(len(r.losses) == want, "early stopping at tolerance %r with losses %r: %d rounds, expected %d", tol, L, len(r.losses), want)
        require(len(r.trees) == want * dim, "%d trees in %d rounds of %d", len(r.trees), want, dim)
        for h in r.hosts:
            require(len(h.trees_) == want * dim, "a host has %d trees, the guest %d", len(h.trees_), want * dim)
        require(all(model.close(a, b, 1e-7, 1e-9) for a, b in zip(r.losses, L)), "losses %r with early stopping, %r without", r.losses, L)
        stopped = stopped or want < cfg["num_trees"]
        ctx.label("stopped" if want < cfg["num_trees"] else "all rounds", *(["exact tolerance"] if exactly else []))
    ctx.mark(stopped)
    ctx.label(case["trainer"], "regression" if cfg.get("task") == "regression" else "classification")


def converge(case, ctx):
    eps, seq = case["eps"], case["seq"]
    d = DiffConverge(eps=eps) if eps is not None else DiffConverge()
    a = AbsConverge(eps=eps if eps is not None else 1e-6)
    e = 1e-6 if eps is None else eps
    prev = None
    if case["pre"] is not None:
        d = DiffConverge(case["pre"], e)
        prev = case["pre"]
    hits = 0
    for i, x in enumerate(seq):
        want = prev is not None and abs(prev - x) < e
        got = d.is_converge(x)
        require(bool(got) == want, "the difference test with tolerance %r says %r at %d of %r (before: %r)", e, got, i, seq, case["pre"])
        prev = x
        if x != e:
            got2 = a.is_converge(x)
            require(bool(got2) == (x < e), "the absolute test with tolerance %r says %r of %r", e, got2, x)
        hits += want
    ctx.mark(0 < hits < len(seq))
    ctx.label("hit" if hits else "none")


def weights(case, ctx):
    eps = case["eps"]
    w = WeightDiffConverge(eps=eps)
    prev = None
    hits = 0
    ws = [np.array((v * 4)[:len(case["seq"][0])], dtype=float) for v in case["seq"]]
    if case["start"] and len(ws) > 1:
        w = WeightDiffConverge(ws[0].copy(), eps)
        prev, ws = ws[0], ws[1:]
    for i, x in enumerate(ws):
        kept = x.copy()
        got = bool(w.is_converge(x))
        require(np.array_equal(kept, x), "the weight test changes the weights")
        if prev is None:
            require(not got, "the first weights count as converged")
        else:
            diff, lim = math.sqrt(sum((a - b) ** 2 for a, b in zip(prev, x))), eps * max(math.sqrt(sum(a * a for a in x)), 1)
            if abs(diff - lim) > 1e-9 * lim:
                require(got == (diff < lim), "weights move from %r to %r with tolerance %r: converged is %r", prev, x, eps, got)
                hits += got
        prev = kept
    ctx.mark(0 < hits < len(ws))
    ctx.label("hit" if hits else "none")


@st.composite
def training(draw, objectives, max_rows=24, max_trees=3, classification=False, max_hosts=2, lrs=None):
    obj = objectives[draw(st.integers(0, 10 ** 4)) % len(objectives)]
    pick = draw(st.integers(0, 10 ** 4))
    case = draw(gen.federation_case(max_rows=max_rows, max_hosts=max_hosts, regression=not classification, generic=draw(st.booleans()), max_trees=max_trees))
    cfg = case["cfg"]
    cfg["mode"] = "strict"
    cfg["objective"] = obj
    cfg["objective_params"] = [PARAM[obj][pick % 3]] if obj in PARAM else None
    if obj in ("log_cosh", "huber", "fair", "lae") and pick % 2:
        case["y"] = [v / 10 for v in case["y"]]
    if obj == "tweedie":
        case["y"] = [abs(v) + 1 for v in case["y"]]
        cfg["lr"] = 0.1
    if lrs:
        cfg["lr"] = lrs[pick % len(lrs)]
    m = 1 + pick % 4
    case["G2"] = [[v + 0.3 * (i - 1) for v in case["G"][i % len(case["G"])]] for i in range(m)]
    case["H2"] = [[[v - 0.7 * (i - 1) for v in h[(i * 3) % len(h)]] for i in range(m)] for h in case["H"]]
    case["sparse"] = bool(pick % 3 == 0)
    case["trainer"] = ["local", "federated"][(pick // 4 + len(case["y"])) % 2]
    return case


def with_tols(s):
    return st.tuples(s, st.lists(st.tuples(st.integers(0, 7), st.integers(0, 3)), min_size=1, max_size=3)).map(lambda t: dict(t[0], tols=t[1]))


def more_rounds(s):
    def f(c):
        c["cfg"]["num_trees"] = 3 + c["cfg"]["num_trees"] + len(c["y"]) % 3
        c["cfg"]["early_stop"] = False
        return c
    return s.map(f)


num = st.one_of(st.floats(-10, 10), st.integers(-5, 5), st.sampled_from([0.0, 1e-6, 5e-7, 1e-7, 0.5, 0.50000049, 1e9]))
SUBS = [
    Sub("end to end", training(OBJECTIVES), end_to_end, quick=240, thorough=6000, shards=8, tshards=8,
        rule="regression with each of the six objectives, local or federated: trees against the exhaustive search (not Tweedie), final scores and predictions of training "
             "and new records against initial score plus shrunken leaves; non-trivial = more than one split"),
    Sub("loss never grows", more_rounds(training(["lse"], max_rows=30, max_hosts=1, lrs=[0.1, 0.3, 1.0, 0.7, 1.0])), improving, quick=160, thorough=4000, shards=8, tshards=8,
        rule="4..8 rounds of squared error with learning rates up to one; non-trivial = more than two rounds and the loss falls by a tenth"),
    Sub("early stopping", with_tols(more_rounds(training(["lse", "lse", "log_cosh", "huber"], max_rows=16, max_hosts=1))), stopping, quick=64, thorough=1500, shards=8, tshards=8,
        rule="a run without early stopping gives the losses; runs with tolerances just above, just below and exactly at its steps must stop where the rule says; non-trivial = a stop before the end"),
    Sub("early stopping with classes", with_tols(more_rounds(training(["cross_entropy"], max_rows=14, max_hosts=1, classification=True))), stopping, quick=48, thorough=1000, shards=8, tshards=8,
        rule="as early stopping, two to four classes"),
    Sub("convergence tests", st.fixed_dictionaries({"eps": st.one_of(st.none(), st.sampled_from([1e-6, 1e-4, 0.5, 1, 0.0]), st.floats(1e-9, 5)), "seq": st.lists(num, min_size=1, max_size=12),
                                                    "pre": st.one_of(st.none(), st.none(), num)}), converge, quick=2500, thorough=40000, shards=1, tshards=4,
        rule="loss sequences against the documented rule at every position; non-trivial = some but not all positions converge"),
    Sub("weight convergence", st.fixed_dictionaries({"eps": st.sampled_from([1e-6, 1e-3, 0.1, 1.0]), "start": st.booleans(),
                                                     "seq": st.lists(st.lists(st.sampled_from([0.0, 1.0, 1.0005, 0.9, -1.0, 100.0, 100.01, 3.5]), min_size=1, max_size=4), min_size=1, max_size=8)}), weights,
        quick=1500, thorough=20000, shards=1, tshards=2, rule="sequences of weight vectors; non-trivial = some but not all converge"),
]
ASSUMPTIONS = ["the Tweedie objective is exercised for its bookkeeping only: its formulas are a known finding (C21)",
               "a loss exactly equal to the tolerance of the absolute test is not judged (text and code differ on equality)"]
