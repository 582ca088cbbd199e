import boot
boot.install()
import keys
from vf import Skip, Sub, require
from hypothesis import strategies as st
from ml.param.boosting_tree_param import DecisionTreeParam
from ml.tree.creterion import XgboostCriterion
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
from ml.tree.node import Node, SplitInfo
from ml.tree.splitter import Splitter
from ml.utils import consts

EPS = 1e-6


def gain_of(G, H, Gl, Hl, lam):
    def s(g, h):
        return g * g / (h + lam)
    return s(Gl, Hl) + s(G - Gl, H - Hl) - s(G, H)


def build(case):
    """Accumulated histograms of nodes whose features all describe the same records."""
    nodes = []
    for node in case["nodes"]:
        recs = node["recs"]
        hist = []
        for f in range(case["nf"]):
            if not case["valid"][f % len(case["valid"])] and case["empty"]:
                hist.append([])
                continue
            nb = node["nbins"][f % len(node["nbins"])]
            bins = [[0.0, 0.0, 0] for _ in range(nb)]
            for i, (g, h) in enumerate(recs):
                b = bins[((i + 1) * (f * 5 + node["mix"]) >> 1) % nb]
                b[0] += g
                b[1] += h * node["hscale"]
                b[2] += 1
            for k in range(1, nb):
                for r in range(3):
                    bins[k][r] += bins[k - 1][r]
            hist.append(bins)
        nodes.append(hist)
    valid = [bool(case["valid"][f % len(case["valid"])]) for f in range(case["nf"])]
    return nodes, valid


def admissible(hist, valid, case):
    out = []
    for f, bins in enumerate(hist):
        if not valid[f] or not bins or bins[-1][2] < case["min_sample_split"]:
            continue
        for b, (g, h, n) in enumerate(bins):
            if n >= case["min_leaf_node"] and bins[-1][2] - n >= case["min_leaf_node"]:
                out.append((f, b, g, h, gain_of(bins[-1][0], bins[-1][1], g, h, case["lam"])))
    return out


def snapshot(nodes):
    return [[[list(c) for c in f] for f in n] for n in nodes]


def splitter(case):
    return Splitter("xgboost", [case["lam"], 1.0], case["min_gain"], case["min_sample_split"], case["min_leaf_node"])


def guest(case, ctx):
    nodes, valid = build(case)
    before = snapshot(nodes)
    res = splitter(case).find_split(nodes, valid)
    require(snapshot(nodes) == before, "the histograms change")
    require(len(res) == len(nodes), "%d splits for %d nodes", len(res), len(nodes))
    some = 0
    for i, (r, hist) in enumerate(zip(res, nodes)):
        cand = admissible(hist, valid, case)
        scale = max([abs(c[4]) for c in cand] + [1.0]) + sum(c[0] ** 2 for f in hist for c in f[-1:]) / case["lam"]
        tol = 1e-13 * scale
        good = [c for c in cand if c[4] > case["min_gain"] + tol]
        close = [c for c in cand if abs(c[4] - case["min_gain"]) <= tol]
        if r.best_fid is None:
            require(not good, "node %d: no split although %r is admissible with gain %r > %r", i, good[:1], good and max(g[4] for g in good), case["min_gain"])
            require(r.gain <= case["min_gain"] + tol, "node %d: no split but gain %r", i, r.gain)
            continue
        require(r.sitename == consts.GUEST, "node %d: the guest's split is attributed to %r", i, r.sitename)
        match = [c for c in cand if (c[0], c[1]) == (r.best_fid, r.best_bid)]
        require(match, "node %d: split (%r, %r) is not admissible (valid %r)", i, r.best_fid, r.best_bid, valid)
        f, b, g, h, gain = match[0]
        require(abs(r.sum_grad - g) <= 1e-12 * (1 + abs(g)) and abs(r.sum_hess - h) <= 1e-12 * (1 + abs(h)), "node %d: left sums %r, %r instead of %r, %r", i, r.sum_grad, r.sum_hess, g, h)
        require(abs(r.gain - gain) <= tol, "node %d: gain %r of split (%d, %d) is %r", i, r.gain, f, b, gain)
        require(match[0] in good or match[0] in close, "node %d: split of gain %r does not exceed %r", i, gain, case["min_gain"])
        best = max(c[4] for c in cand)
        require(gain >= best - tol, "node %d: split (%d, %d) has gain %r, (%r) has %r", i, f, b, gain, [c[:2] for c in cand if c[4] == best], best)
        some += 1
    ctx.mark(some)
    ctx.label("split" if some else "none")


def host(case, ctx):
    nodes, valid = build(case)
    before = snapshot(nodes)
    site = [consts.HOST, "host.0", "host.7"][case["site"]]
    s = splitter(case)
    infos, sums = s.find_split_host(nodes, valid, site) if case["site"] else s.find_split_host(nodes, valid)
    require(snapshot(nodes) == before, "the histograms change")
    require(len(infos) == len(nodes) == len(sums), "%d and %d lists for %d nodes", len(infos), len(sums), len(nodes))
    total = 0
    for i, hist in enumerate(nodes):
        want = {(f, b): (g, h) for f, b, g, h, _ in admissible(hist, valid, case)}
        got = [(x.best_fid, x.best_bid) for x in infos[i]]
        require(len(got) == len(set(got)), "node %d: a split is listed twice: %r", i, got)
        require(set(got) == set(want), "node %d: splits %r are listed, %r are admissible", i, sorted(got), sorted(want))
        require(len(sums[i]) == len(got), "node %d: %d sums for %d splits", i, len(sums[i]), len(got))
        for x, gh in zip(infos[i], sums[i]):
            w = want[(x.best_fid, x.best_bid)]
            require(tuple(gh) == w and (x.sum_grad, x.sum_hess) == w, "node %d: sums %r and %r of split (%d, %d) are %r", i, gh, (x.sum_grad, x.sum_hess), x.best_fid, x.best_bid, w)
            require(x.sitename == site, "node %d: a split of %r is attributed to %r", i, site, x.sitename)
        total += len(got)
    ctx.mark(total > 1)
    ctx.label("some" if total else "none")


class Wire:
    """Stands in for the transport of a guest."""

    def __init__(self, incoming):
        self.incoming = list(incoming)
        self.sent = []

    def recv_data_from_hosts(self, index):
        return self.incoming.pop(0)

    def send_data_to_hosts(self, data, index):
        self.sent.append((index, data))


def tree(case, enc):
    p = DecisionTreeParam(criterion_params=[case["lam"], 1.0], min_sample_split=case["min_sample_split"], min_leaf_node=case["min_leaf_node"])
    p.min_impurity_split = case["min_gain"]
    p.check()
    t = HeteroDecisionTreeGuest(p)
    t.set_encrypter(enc)
    return t


def federated(case, ctx):
    """The guest picks, for every host and node, the best of the splits the host sent."""
    enc = keys.encrypter(256) if case["real"] else keys_fake()
    t = tree(case, enc)
    nodes = [Node(id=i, sum_grad=g, sum_hess=h) for i, (g, h, _) in enumerate(case["nodes"])]
    t.cur_split_nodes = nodes
    nh = case["hosts"]
    plain = []
    for j in range(nh):
        plain.append([[(gl * (1 + ((j + k) % 3)), min(hl, h) * 0.999) for k, (gl, hl) in enumerate(c)][j % 2:] for (g, h, c) in case["nodes"]])
    wire = Wire([[[[(enc.encrypt(a), enc.encrypt(b)) for a, b in c] for c in hs] for hs in plain]])
    t.set_transfer_inst(wire) if hasattr(t, "set_transfer_inst") else setattr(t, "transfer_inst", wire)
    t.federated_find_split(0, 0)
    sent = {}
    for index, data in wire.sent:
        require(index not in sent and 0 <= index < nh, "a result is sent to host %r (of %d) or twice", index, nh)
        sent[index] = data
    require(len(sent) == nh, "results are sent to hosts %r of %d", sorted(sent), nh)
    found = 0
    for j in range(nh):
        require(len(sent[j]) == len(nodes), "host %d gets %d results for %d nodes", j, len(sent[j]), len(nodes))
        for i, (idx, gain) in enumerate(sent[j]):
            gains = [gain_of(nodes[i].sum_grad, nodes[i].sum_hess, a, b, case["lam"]) for a, b in plain[j][i]]
            scale = 1 + max([abs(x) for x in gains] + [0]) + nodes[i].sum_grad ** 2 / case["lam"] + max([a * a for a, _ in plain[j][i]] + [0]) / case["lam"]
            tol = 1e-9 * scale
            best = max(gains, default=-1e300)
            g = enc.decrypt(gain)
            if idx == -1:
                require(best <= case["min_gain"] + tol, "host %d, node %d: no split although one of gain %r is offered", j, i, best)
                require(g <= case["min_gain"] + tol, "host %d, node %d: no split but gain %r", j, i, g)
                continue
            require(0 <= idx < len(gains), "host %d, node %d: index %r of %d splits", j, i, idx, len(gains))
            require(gains[idx] >= best - tol and abs(g - gains[idx]) <= tol, "host %d, node %d: split %d of gain %r (reported %r), the best has %r", j, i, idx, gains[idx], g, best)
            require(gains[idx] > case["min_gain"] - tol, "host %d, node %d: split of gain %r is below %r", j, i, gains[idx], case["min_gain"])
            found += 1
    ctx.mark(found)
    ctx.label("real" if case["real"] else "fake", "hosts%d" % nh)


def keys_fake():
    from ml.secureprotol.encrypt import FakeEncrypt
    return FakeEncrypt()


def merge(case, ctx):
    """Choosing between the guest's split and the hosts'."""
    enc = keys.encrypter(256) if case["real"] else keys_fake()
    t = tree(dict(case, lam=0.1, min_gain=1e-3, min_sample_split=2, min_leaf_node=1), enc)
    nn, nh = len(case["gains"]), case["hosts"]
    gains = [[row[j % len(row)] for j in range(nh + 1)] for row in case["gains"]]
    gs = [SplitInfo(consts.GUEST, 10 + i, 20 + i, 1.5 + i, 2.5 + i, gains[i][0]) for i in range(nn)]
    hs = [[SplitInfo("host.%d" % j, 100 * (j + 1) + i, 7 * j + i, enc.encrypt(-0.5 * (j + 1) - i), enc.encrypt(3.25 + j + i), enc.encrypt(gains[i][j + 1])) for i in range(nn)] for j in range(nh)]
    res = t.merge_splitinfo(gs, hs)
    require(len(res) == nn, "%d splits for %d nodes", len(res), nn)
    for i, r in enumerate(res):
        best_host = max(gains[i][1:])
        if abs(gains[i][0] - best_host) <= 2e-6 and gains[i][0] != best_host:
            allowed = [j for j in range(nh + 1) if gains[i][j] >= best_host - 2e-6]
        elif gains[i][0] >= best_host:
            allowed = [0]
        else:
            allowed = [j + 1 for j in range(nh) if gains[i][j + 1] >= best_host - 1e-9 * (1 + abs(best_host))]
        ids = {0: (consts.GUEST, 10 + i, 20 + i)}
        ids.update({j + 1: ("host.%d" % j, 100 * (j + 1) + i, 7 * j + i) for j in range(nh)})
        pick = [j for j in allowed if ids[j] == (r.sitename, r.best_fid, r.best_bid)]
        require(pick, "node %d: %r is chosen among gains %r", i, (r.sitename, r.best_fid, r.best_bid), gains[i])
        j = pick[0]
        want = (1.5 + i, 2.5 + i) if j == 0 else (-0.5 * j - i, 3.25 + j - 1 + i)
        for got, w, n in ((r.sum_grad, want[0], "gradient"), (r.sum_hess, want[1], "hessian"), (r.gain, gains[i][j], "gain")):
            require(isinstance(got, (int, float)) and abs(got - w) <= 1e-9 * (1 + abs(w)), "node %d: %s of the chosen split is %r instead of %r", i, n, got, w)
        ctx.label("guest" if j == 0 else "host")
    ctx.mark(nh > 1)


def formulas(case, ctx):
    G, H, Gl, Hl = case["v"]
    lam = case["lam"]
    for c in (XgboostCriterion(lam), Splitter("xgboost", [lam, 0], 0.01)):
        require(abs(c.node_gain(G, H) - G * G / (H + lam)) <= 1e-12 * (1 + G * G / lam), "gain of (%r, %r) is %r", G, H, c.node_gain(G, H))
        require(abs(c.node_weight(G, H) + G / (H + lam)) <= 1e-12 * (1 + abs(G) / lam), "weight of (%r, %r) is %r", G, H, c.node_weight(G, H))
        args = (G, H, Gl, Hl, G - Gl, H - Hl) if isinstance(c, Splitter) else ([G, H], [Gl, Hl], [G - Gl, H - Hl])
        want = gain_of(G, H, Gl, Hl, lam)
        require(abs(c.split_gain(*args) - want) <= 1e-12 * (1 + (G * G + Gl * Gl + (G - Gl) ** 2) / lam), "gain of splitting (%r, %r) at (%r, %r) with %r is %r instead of %r", G, H, Gl, Hl, lam, c.split_gain(*args), want)
    ctx.mark(G != 0)


g_ = st.one_of(st.integers(-8, 8).map(lambda v: v / 8), st.floats(-2, 2).map(lambda x: x if abs(x) > 1e-9 else 0.0))
h_ = st.one_of(st.integers(1, 8).map(lambda v: v / 8), st.floats(0.01, 2))
rec = st.one_of(st.tuples(g_, h_), st.tuples(g_, h_), st.tuples(st.sampled_from([1e-7, -1e-7, 3e-5, -3e-5, 1e-3]), st.sampled_from([1e-7, 1e-5, 0.0])))  # the last: hardly any weight
lam_ = st.sampled_from([0.1, 0.1, 1.0, 0.5, 5.0])
mg_ = st.sampled_from([1e-3, 1e-2, 0.1, 0.5, 2.0])
node = st.fixed_dictionaries({"recs": st.lists(rec, min_size=1, max_size=14), "nbins": st.lists(st.integers(1, 6), min_size=1, max_size=3), "mix": st.integers(1, 40),
                              "hscale": st.sampled_from([1.0, 1.0, 1.0, 1e3, 1e-3, 1e-6, 1e-9, 1e-12, 0.0])})
base = {"nodes": st.lists(node, min_size=1, max_size=4), "nf": st.integers(1, 4), "valid": st.lists(st.sampled_from([True, True, False]), min_size=1, max_size=4), "empty": st.booleans(), "lam": lam_,
        "min_gain": mg_, "min_sample_split": st.sampled_from([2, 2, 3, 5, 9]), "min_leaf_node": st.sampled_from([1, 1, 2, 3])}
vals = st.one_of(st.integers(-8, 8).map(lambda v: v / 4), st.floats(-10, 10).map(lambda x: x if abs(x) > 1e-9 else 0.0))
gains = st.one_of(st.integers(0, 6).map(float), st.sampled_from([0.001, 0.00099, 1.0, 1.0 + 1e-5, 1.0 - 1e-5, 100.0, -1.0]), st.floats(0, 5).map(lambda x: x if x > 1e-9 else 0.0))

SUBS = [
    Sub("guest", st.fixed_dictionaries(base), guest, quick=12000, thorough=300000, shards=8, tshards=8,
        rule="accumulated histograms of 1-4 nodes, against enumeration of all admissible splits; non-trivial = a split is found"),
    Sub("host", st.fixed_dictionaries(dict(base, site=st.integers(0, 2))), host, quick=12000, thorough=300000, shards=8, tshards=8,
        rule="the same for the host's list; non-trivial = several splits listed"),
    Sub("federated", st.fixed_dictionaries({"real": st.sampled_from([False, False, True]), "hosts": st.integers(1, 3), "lam": lam_, "min_gain": mg_, "min_sample_split": st.just(2), "min_leaf_node": st.just(1),
                                            "nodes": st.lists(st.tuples(vals, h_.map(lambda v: v * 5), st.lists(st.tuples(vals, h_), max_size=5)), min_size=1, max_size=3)}), federated,
        quick=2400, thorough=40000, shards=8, tshards=8, rule="splits offered by 1-3 hosts, encrypted, against the gain formula; non-trivial = a split is chosen"),
    Sub("merge", st.fixed_dictionaries({"real": st.sampled_from([False, False, True]), "hosts": st.integers(1, 4), "gains": st.lists(st.lists(gains, min_size=2, max_size=5), min_size=1, max_size=4)}), merge,
        quick=2400, thorough=40000, shards=8, tshards=8, rule="gains of the guest's and 1-4 hosts' splits with ties and near-ties; non-trivial = several hosts"),
    Sub("formulas", st.fixed_dictionaries({"v": st.tuples(vals, h_.map(lambda v: v + 2), vals, h_), "lam": lam_}), formulas, quick=4000, thorough=40000, shards=2, tshards=4,
        rule="gain and weight formulas on random sums; non-trivial = gradient not zero"),
]
ASSUMPTIONS = ["differences of gain below the rounding of the formula (1e-9 relative to its terms, 1e-13 at the guest; 2e-6 absolute between guest and host) are ties"]
