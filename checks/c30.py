import boot
boot.install()
import itertools
import random

import numpy as np
from hypothesis import strategies as st

import gen
import model
from checks import c02, c08
from vf import Sub, Violation, require


def share(rate, n):
    return max(1, int(rate * n))


class SamplingOracle(model.TreeOracle):
    """A tree is valid if some choice of the prescribed number of columns per party makes it optimal."""

    allowed = None
    memo = None

    def candidates(self, idx, gh):
        key = tuple(idx)
        if key not in self.memo:
            self.memo[key] = super().candidates(idx, gh)
        return [c for c in self.memo[key] if (c[1], c[2]) in self.allowed]

    def tree(self, nodes, gh, where):
        self.memo = {}
        used = {s: set() for s in self.rows}
        for nd in nodes.values():
            if not nd.leaf:
                used[nd.site].add(nd.fid)
        choices = []
        for s in self.rows:
            n = len(self.points[s])
            k = share(self.cfg["subsample"], n)
            require(len(used[s]) <= k, "%s: columns %r of %r are used, at rate %r a tree may use %d of %d", where, sorted(used[s]), s,
                    self.cfg["subsample"], k, n)
            choices.append([frozenset((s, f) for f in c) for c in itertools.combinations(range(n), k) if used[s] <= set(c)])
        failures = []
        stats, splits = dict(self.stats), list(self.splits)
        result = None
        self.fits = 0
        for combo in itertools.product(*choices):
            self.allowed = frozenset().union(*combo)
            self.stats, self.splits = dict(stats), list(splits)
            try:
                contrib = super().tree(nodes, gh, where)
            except Violation as e:
                failures.append((sorted(self.allowed, key=str), str(e)))
                continue
            self.fits += 1
            if result is None:
                result = (contrib, self.stats, self.splits)
        if result is None:
            raise Violation("%s: no choice of columns at rate %r explains the tree; with %r: %s" % (where, self.cfg["subsample"], failures[0][0], failures[0][1]))
        contrib, self.stats, self.splits = result
        return contrib


def check(holder, case, base, rows):
    cfg = case["cfg"]
    trees = model.joined_trees(holder.guest, holder.hosts)
    orc = SamplingOracle(case["G"], case["H"], case["y"], cfg, base=base)
    d = orc.obj.dim
    require(len(trees) % d == 0 and len(trees) // d == len(holder.guest.history_loss), "%d trees and %d losses at %d trees per round", len(trees),
            len(holder.guest.history_loss), d)
    pinned = 0
    for r in range(len(trees) // d):
        loss = orc.round_trees(trees[r * d:(r + 1) * d], "round %d" % r)
        pinned += orc.fits == 1
        require(model.loss_close(orc, loss, holder.guest.history_loss[r]), "loss after round %d is recorded as %r, is %r", r, holder.guest.history_loss[r], loss)
    final = dict(holder.guest.F.collect())
    for i in range(len(case["G"])):
        s = model.record_score(trees, d, cfg["lr"], base or [0.0] * d, lambda site, fid: model.zeroed(rows[site][i][fid]))
        require(all(model.close(float(a), b, 1e-10, 1e-12) for a, b in zip(final[model.key_of(case, i)], s)), "record %d: training ended with %r, the trees give %r",
                i, final[model.key_of(case, i)], s)
    return orc, pinned


def base_of(case):
    return [sum(case["y"]) / len(case["y"])] if case["cfg"].get("task") == "regression" else None


def reseed(case):
    random.seed(case["rng"])
    np.random.seed(case["rng"])


def federated(case, ctx):
    reseed(case)
    f = model.Federation(case["cfg"], len(case["H"]), case["schedule"])
    f.fit(*model.tables_of(case, sparse=case["sparse"]))
    rows = {"guest": case["G"]}
    for i, h in enumerate(case["H"]):
        rows[i] = h
    orc, pinned = check(f, case, base_of(case), rows)
    ctx.mark(orc.stats["splits"] > 1 and any(share(case["cfg"]["subsample"], len(r[0])) < len(r[0]) for r in rows.values()))
    ctx.label("host split" if orc.stats["host_splits"] else "no host split", "rate=%s" % case["cfg"]["subsample"], "choice pinned down" if pinned else "several choices fit")
    # predictions do not sample
    init = c02.base_score(case)
    classes = None if case["cfg"].get("task") == "regression" else sorted(set(case["y"]))
    trees = model.joined_trees(f.guest, f.hosts)
    res = dict(f.predict(*model.tables_of(case, sparse=case["sparse"])).collect())
    for i in range(len(case["G"])):
        s = model.record_score(trees, len(init), case["cfg"]["lr"], init, lambda site, fid: model.zeroed(rows[site][i][fid]))
        model.check_row(res[model.key_of(case, i)], case["y"][i], s, case["cfg"], classes, "record %d" % i)


def local(case, ctx):
    reseed(case)
    cols = c08.joined_columns(case)
    m = c08.local_fit(cols, case["y"], case["cfg"], case["sparse"])
    orc, pinned = check(c08.Holder(m), dict(case, G=cols, H=[], records=None), base_of(case), {"guest": cols})
    ctx.mark(orc.stats["splits"] > 1 and share(case["cfg"]["subsample"], len(cols[0])) < len(cols[0]))
    ctx.label("rate=%s" % case["cfg"]["subsample"], "choice pinned down" if pinned else "several choices fit")


def fair(case, ctx):
    """One column of k per tree: all get their turn, about equally often."""
    reseed(case)
    k, n, rounds = case["columns"], 6, case["rounds"]
    multi = case["classes"] > 1
    y = [i // 2 for i in range(n)] if multi else [float(i) for i in range(n)]
    informative = [[float(i)] * k for i in range(n)]
    flat = [[1.0] * case["flat"]] * n
    cfg = {"task": "regression", "objective": "lse", "max_depth": 2, "num_trees": rounds, "lr": 0.01, "bin_num": 3, "subsample": case["rate"],
           "early_stop": False, "mode": case["mode"]}
    if multi:
        # a tree for each of three classes in every round, and each tree draws for itself
        rounds = rounds // 2
        cfg.update(task="classification", objective="cross_entropy", num_trees=rounds)
    if case["where"] == "local":
        m = c08.local_fit(informative, y, cfg, False)
        trees, site = model.joined_trees(m, []), "guest"
    else:
        G, H = (informative, [flat]) if case["where"] == "guest" else (flat, [informative]) if case["where"] == "host" else (flat, [flat, informative])
        site = {"guest": "guest", "host": 0, "second host": 1}[case["where"]]
        f = model.Federation(cfg, len(H), [0])
        f.fit(*model.tables_of({"G": G, "H": H, "y": y}))
        trees = model.joined_trees(f.guest, f.hosts)
    if multi:
        rounds *= 3
    require(len(trees) == rounds, "%d trees in rounds of %d", len(trees), 3 if multi else 1)
    count = [0] * k
    for t, nodes in enumerate(trees):
        require(not nodes[0].leaf and nodes[0].site == site, "tree %d: the root is not split although every column of %s separates the records", t, case["where"])
        count[nodes[0].fid] += 1
    p = 1.0 / k
    dev = 6 * (rounds * p * (1 - p)) ** 0.5 + 1
    require(all(count) and all(abs(c - rounds * p) <= dev for c in count), "one of %d equal columns is chosen for each of %d trees; they are chosen %r times",
            k, rounds, count)
    seq = [nodes[0].fid for nodes in trees]
    for lag in (1, 2, 3, 4):
        m = rounds - lag
        eq = sum(a == b for a, b in zip(seq, seq[lag:]))
        require(abs(eq - m * p) <= 6 * (m * p * (1 - p)) ** 0.5 + 1, "trees %d apart choose the same of %d equal columns %d times of %d: %r", lag, k, eq, m, seq)
    ctx.mark(k > 1)
    ctx.label(case["where"], "columns=%d" % k, "three classes" if multi else "regression")


def many_columns(case, ctx):
    """Dozens of random columns: every tree keeps to a share of them, and trees draw differently."""
    reseed(case)
    n, trees_n = 40, case["trees"]
    widths = case["widths"]
    m = lambda *a: gen._mix(case["rng"], *a)
    cols = [[[float(m(s, i, j) % 1009) for j in range(w)] for i in range(n)] for s, w in enumerate(widths)]
    y = [float(m(99, i) % 1000) / 50.0 for i in range(n)]
    cfg = {"task": "regression", "objective": "lse", "max_depth": 5, "num_trees": trees_n, "lr": 0.3, "bin_num": 16, "subsample": case["rate"], "early_stop": False, "mode": "fast"}
    if case["local"]:
        cols, widths = cols[:1], widths[:1]
        trees = model.joined_trees(c08.local_fit(cols[0], y, cfg, False), [])
    else:
        f = model.Federation(cfg, len(widths) - 1, [0])
        f.fit(*model.tables_of({"G": cols[0], "H": cols[1:], "y": y}))
        trees = model.joined_trees(f.guest, f.hosts)
    require(len(trees) == trees_n, "%d trees, asked for %d", len(trees), trees_n)
    full = 0
    for s, w in enumerate(widths):
        site = "guest" if s == 0 else s - 1
        k = share(case["rate"], w)
        union = set()
        for t, nodes in enumerate(trees):
            used = set(nd.fid for nd in nodes.values() if not nd.leaf and nd.site == site)
            require(all(0 <= c < w for c in used), "tree %d uses columns %r of %d", t, sorted(used), w)
            require(len(used) <= k, "tree %d uses %d columns of %s (%r), at rate %r it may use %d of %d", t, len(used), site, sorted(used), case["rate"], k, w)
            full += len(used) == k < w
            union |= used
        if k * 3 <= w and trees_n >= 8 and len(widths) == 1:
            require(len(union) > k, "all %d trees draw from the same columns %r of %d", trees_n, sorted(union), w)
    ctx.mark(full > 0)
    ctx.label("local" if case["local"] else "federated", "rate=%s" % case["rate"], "a tree uses its whole share" if full else "no tree uses its whole share")


RATES = [0.5, 0.34, 0.67, 0.8, 0.0, 0.25, 0.75, 0.99, 1.0, 1, 0]


def cases(**kw):
    ex = st.fixed_dictionaries({"rng": st.integers(0, 10 ** 6), "sparse": st.booleans(), "rate": st.sampled_from(RATES)})

    def rate(c):
        c = dict(c, cfg=dict(c["cfg"], subsample=c["rate"]))
        if kw.get("regression"):
            c["cfg"]["objective"] = "lse"
        return c
    return gen.federation_case(extra=ex, keyed=True, **kw).map(rate)


SUBS = [
    Sub("federated", cases(max_cols=4, max_hosts=2), federated, quick=320, thorough=5000, shards=8, tshards=8,
        rule="a federated fit at a generated column rate; every tree must be what plain training gives for some choice of exactly max(1 int(rate*n)) "
             "columns per party; non-trivial = more than one split and some party's columns really sampled"),
    Sub("federated_regression", cases(max_cols=4, max_hosts=2, regression=True), federated, quick=120, thorough=2000, shards=8, tshards=8, rule="as federated"),
    Sub("local", st.one_of(cases(max_cols=2, max_hosts=2), cases(max_cols=2, max_hosts=2, regression=True)), local, quick=320, thorough=5000, shards=4, tshards=8,
        rule="as federated, for the trainer in one place"),
    Sub("many columns", st.fixed_dictionaries({"rng": st.integers(0, 10 ** 6), "trees": st.sampled_from([8, 4, 1]), "local": st.booleans(), "rate": st.sampled_from([0.1, 0.05, 0.3, 0.15, 0.5, 0.29]),
                                               "widths": st.lists(st.one_of(st.integers(10, 40), st.sampled_from([20, 21, 30, 70])), min_size=2, max_size=3)}), many_columns,
        quick=40, thorough=1200, shards=8, tshards=8, rule="10-70 columns per party: no tree uses more than its share; non-trivial = some tree uses its whole share"),
    Sub("fair", st.fixed_dictionaries({"columns": st.sampled_from([2, 3, 3, 4]), "rounds": st.sampled_from([70, 70, 80]), "rate": st.sampled_from([0.0, 0.1, 0.24]), "rng": st.integers(0, 10 ** 6),
                                       "where": st.sampled_from(["guest", "host", "second host", "local"]), "flat": st.integers(1, 2), "classes": st.sampled_from([1, 3]),
                                       "mode": st.sampled_from(["fast", "strict"])}), fair, quick=32, thorough=400, shards=8, tshards=8,
        rule="70 rounds with one of 2-4 equal columns sampled per tree, one or three trees in a round: each must be chosen within 6 standard deviations of equally often, and trees 1-4 apart must agree as often as independent draws; all non-trivial"),
]
ASSUMPTIONS = ["the share of columns is rounded down, at least one is used (as the code has it; C30 states it)",
               "numpy's generator gives independent samples"]
