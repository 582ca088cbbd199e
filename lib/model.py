"""Builds federations of the code under test from plain cases, and reads their results back."""
import boot
boot.install()
import copy

import numpy as np

import fed
from vf import Violation, require

from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.param.boosting_tree_param import BoostingTreeParam, DecisionTreeParam, ObjectiveParam
from ml.param.encrypt_param import EncryptParam
from ml.param.encrypted_mode_calculation_param import EncryptedModeCalculatorParam
from ml.param.predict_param import PredictParam
from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest
from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost
from ml.utils import consts


def make_param(cfg):
    p = BoostingTreeParam(
        tree_param=DecisionTreeParam(
            criterion_params=[cfg.get("reg_lambda", 0.1)],
            max_depth=cfg.get("max_depth", 3),
            min_sample_split=cfg.get("min_sample_split", 2),
            min_leaf_node=cfg.get("min_leaf_node", 1),
            max_split_nodes=cfg.get("max_split_nodes", consts.MAX_SPLIT_NODES),
            feature_importance_type=cfg.get("importance", "split"),
            tol=cfg.get("tol", 1e-4)),
        task_type=consts.REGRESSION if cfg.get("task") == "regression" else consts.CLASSIFICATION,
        objective_param=ObjectiveParam(cfg.get("objective", "cross_entropy"), cfg.get("objective_params")),
        learning_rate=cfg.get("lr", 0.3),
        num_trees=cfg.get("num_trees", 2),
        subsample_feature_rate=cfg.get("subsample", 1.0),
        n_iter_no_change=cfg.get("early_stop", True),
        tol=cfg.get("tol", 1e-4),
        encrypt_param=EncryptParam(key_length=cfg.get("key_length", 256)),
        bin_num=cfg.get("bin_num", 8),
        encrypted_mode_calculator_param=EncryptedModeCalculatorParam(mode=cfg.get("mode", "strict"),
                                                                     re_encrypted_rate=cfg.get("rate", 1)),
        predict_param=PredictParam(threshold=cfg.get("threshold", 0.5)))
    p.tree_param.min_impurity_split = cfg.get("min_impurity_split", 1e-3)
    p.check()
    return p


def table(rows, header, labels=None, keys=None, sparse=False, ids=None):
    """rows: list of list of floats -> a table of instances as the entry scripts build it."""
    insts = []
    for i, r in enumerate(rows):
        if sparse:
            idx = [j for j, v in enumerate(r) if abs(v) >= consts.FLOAT_ZERO]
            f = SparseVector(idx, [float(r[j]) for j in idx], len(r))
        else:
            f = np.array([float(v) for v in r], dtype=float)
        insts.append(Instance(inst_id=(ids[i] if ids is not None else i), features=f,
                              label=None if labels is None else labels[i]))
    t = DTable(True, list(zip(keys, insts))) if keys is not None else DTable(False, insts)
    t.schema["header"] = list(header)
    return WRAP(t) if WRAP else t


WRAP = None     # C31 replaces every table by one of several partitions


def header(prefix, n, style=0):
    """Column names; the styles other than 0 are unusual ones."""
    return [["%s%d" % (prefix, i), " %s %d " % (prefix.upper(), i), "%s\t\u00e9\u4e2d.%d\n" % (prefix, i), i * 7 - 3, "x%d" % i, "%s%d" % (prefix, 99 - i),
             "0.%d" % i, (prefix, i), "host_%d_%d:guest_0" % (n - i, i)][style] for i in range(n)]


class Federation:
    """k hosts with runtime indices `ridx`; every call runs all parties under one schedule."""

    def __init__(self, cfg, n_hosts, schedule=(0,), ridx=None, rendezvous=False):
        self.cfg = cfg
        self.n = n_hosts
        self.schedule = list(schedule)
        self.ridx = list(ridx) if ridx is not None else list(range(n_hosts))
        self.rendezvous = rendezvous
        self.guest = HeteroSecureBoostingTreeGuest()
        self.guest._init_model(make_param(cfg))
        self.hosts = []
        for i in range(n_hosts):
            h = HeteroSecureBoostingTreeHost()
            h._init_model(make_param(cfg))
            h.set_runtime_idx(self.ridx[i])
            self.hosts.append(h)
        self.logs = []

    def run(self, guest_fn, host_fns):
        sched = fed.Scheduler(self.schedule)
        wire = fed.Wire(sched, self.n, self.rendezvous)
        self.guest.set_transfer_inst(fed.GuestLink(wire))
        for i, h in enumerate(self.hosts):
            h.set_transfer_inst(fed.HostLink(wire, i))
        g = sched.spawn("guest", guest_fn)
        for i, fn in enumerate(host_fns):
            sched.spawn("host%d" % i, fn)
        self.wire = wire
        sched.run()
        self.logs.append(wire.log)
        require(wire.leftovers() == 0, "%d messages were sent and never received", wire.leftovers())
        return g.result

    def fit(self, gt, hts):
        return self.run(lambda: self.guest.fit(gt), [lambda h=h, t=t: h.fit(t) for h, t in zip(self.hosts, hts)])

    def predict(self, gt, hts):
        return self.run(lambda: self.guest.predict(gt),
                        [lambda h=h, t=t: h.predict(t) for h, t in zip(self.hosts, hts)])

    def fit_predict(self, gt, hts, gt2, hts2):
        def g():
            self.guest.fit(gt)
            return self.guest.predict(gt2)
        def hf(h, a, b):
            h.fit(a)
            h.predict(b)
        return self.run(g, [lambda h=h, a=a, b=b: hf(h, a, b) for h, a, b in zip(self.hosts, hts, hts2)])


class TNode:
    __slots__ = ("id", "site", "fid", "thr", "weight", "leaf", "left", "right")


def joined_trees(guest, hosts):
    """Combines the guest's and hosts' per-tree parameters into plain trees.
    site: 'guest' or index of the host in `hosts`; thr: the real-valued threshold."""
    sites = {}
    for i, h in enumerate(hosts):
        sites["host.%d" % h.runtime_idx] = i
    out = []
    for t, gp in enumerate(guest.trees_):
        nodes = {}
        for nd in gp.tree_:
            x = TNode()
            x.id = nd.id
            x.weight = nd.weight
            x.leaf = nd.is_leaf
            x.left = nd.left_nodeid
            x.right = nd.right_nodeid
            x.fid = nd.fid
            x.thr = None
            x.site = None
            require(nd.id not in nodes, "tree %d: node id %d occurs twice", t, nd.id)
            if not nd.is_leaf:
                if nd.sitename == consts.GUEST:
                    x.site = "guest"
                    require(nd.id in gp.split_maskdict, "tree %d: no threshold recorded by the guest for its node %d", t, nd.id)
                    x.thr = gp.split_maskdict[nd.id]
                else:
                    require(nd.sitename in sites, "tree %d: node %d belongs to unknown site %r", t, nd.id, nd.sitename)
                    i = sites[nd.sitename]
                    x.site = i
                    hp = hosts[i].trees_[t]
                    require(nd.id in hp.split_maskdict, "tree %d: no threshold recorded by host %d for its node %d", t, i, nd.id)
                    x.thr = hp.split_maskdict[nd.id]
                    hn = [m for m in hp.tree_ if m.id == nd.id]
                    require(len(hn) == 1, "tree %d: host %d has %d copies of node %d", t, i, len(hn), nd.id)
                    x.fid = hn[0].fid
                    require(hn[0].left_nodeid == nd.left_nodeid and hn[0].right_nodeid == nd.right_nodeid,
                            "tree %d: host %d and guest disagree on the children of node %d", t, i, nd.id)
            nodes[nd.id] = x
        out.append(nodes)
    return out


def value(rows, site, i, fid):
    return rows[site][i][fid]


def walk(nodes, getval):
    """getval(site, fid) -> float.  Returns (leaf node, path)."""
    nid = 0
    path = []
    for _ in range(len(nodes) + 1):
        nd = nodes[nid]
        path.append(nid)
        if nd.leaf:
            return nd, path
        nid = nd.left if getval(nd.site, nd.fid) <= nd.thr else nd.right
    raise Violation("tree walk does not end: cycle among nodes %r" % (path,))


# ------------------------------------------------------------------ reference boosting

def sigmoid(x):
    import math
    if x >= 0:
        return 1.0 / (1.0 + math.exp(-x))
    e = math.exp(x)
    return e / (1.0 + e)


def softmax(xs):
    import math
    m = max(xs)
    es = [math.exp(x - m) for x in xs]
    s = sum(es)
    return [e / s for e in es]


class RefObjective:
    """Independent formulas for the objectives; scores are lists of length dim."""

    def __init__(self, cfg, y):
        self.task = cfg.get("task", "classification")
        self.name = cfg.get("objective", "cross_entropy")
        self.par = (cfg.get("objective_params") or [None])[0]
        self.y = y
        self.ymax = 0.0
        if self.task == "regression":
            self.classes = None
            self.dim = 1
            self.ymax = max(abs(v) for v in y)
        else:
            self.classes = sorted(set(y))
            self.k = len(self.classes)
            self.dim = self.k if self.k > 2 else 1
            self.yi = [self.classes.index(v) for v in y]

    def grad_hess(self, i, f, t):
        import math
        if self.task != "regression":
            if self.k == 2:
                p = sigmoid(f[0])
                return p - self.yi[i], p * (1 - p)
            p = softmax(f)[t]
            return p - (1.0 if self.yi[i] == t else 0.0), p * (1 - p)
        d = f[0] - self.y[i]
        if self.name == "lse":
            return 2 * d, 2.0
        if self.name == "lae":
            return (1.0 if d > 1e-6 else -1.0 if d < -1e-6 else 0.0), 1.0
        if self.name == "huber":
            q = 1 + d * d / self.par ** 2
            return d / math.sqrt(q), q ** -1.5
        if self.name == "fair":
            return self.par * d / (abs(d) + self.par), self.par ** 2 / (abs(d) + self.par) ** 2
        if self.name == "log_cosh":
            return math.tanh(d), 1 - math.tanh(d) ** 2
        raise KeyError(self.name)

    def loss(self, fs):
        import math
        tot = 0.0
        for i, f in enumerate(fs):
            if self.task != "regression":
                if self.k == 2:
                    x = f[0] if self.yi[i] == 1 else -f[0]
                    tot += (math.log1p(math.exp(-x)) if x > -30 else -x)
                else:
                    m = max(f)
                    tot += m + math.log(sum(math.exp(v - m) for v in f)) - f[self.yi[i]]
                continue
            d = f[0] - self.y[i]
            if self.name == "lse":
                tot += d * d
            elif self.name == "lae":
                tot += abs(d)
            elif self.name == "huber":
                tot += self.par ** 2 * (math.sqrt(1 + (d / self.par) ** 2) - 1)
            elif self.name == "fair":
                tot += self.par * abs(d) - self.par ** 2 * math.log(abs(d) / self.par + 1)
            elif self.name == "log_cosh":
                tot += abs(d) + math.log1p(math.exp(-2 * abs(d))) - math.log(2)
        return tot / len(fs)


def split_points_of(rows, bin_num):
    """Thresholds of each column of one party, by the project's own binning (decided by C18)."""
    from ml.feature.binning.quantile_binning import QuantileBinning
    from ml.param.feature_binning_param import FeatureBinningParam
    b = QuantileBinning(FeatureBinningParam(bin_num=bin_num))
    hdr = header("c", len(rows[0]))
    sp_rows = [[0.0 if abs(v) < consts.FLOAT_ZERO else v for v in r] for r in rows]
    b.fit_split_points(table(sp_rows, hdr, sparse=True))
    return [[float(x) for x in b.split_points[c]] for c in hdr]


class TreeOracle:
    """Validity of boosted trees: recomputes everything from raw data, checks each tree is one plain
    XGBoost training could have produced, and accumulates scores."""

    def __init__(self, G, H, y, cfg, base=None, points=None):
        self.rows = {"guest": G}
        for i, h in enumerate(H):
            self.rows[i] = h
        self.n = len(G)
        self.cfg = cfg
        self.obj = RefObjective(cfg, y)
        self.lam = cfg.get("reg_lambda", 0.1)
        self.min_imp = cfg.get("min_impurity_split", 1e-3)
        self.min_leaf = cfg.get("min_leaf_node", 1)
        self.min_split = cfg.get("min_sample_split", 2)
        self.depth = cfg.get("max_depth", 3)
        self.lr = cfg.get("lr", 0.3)
        self.points = points or {s: split_points_of(r, cfg.get("bin_num", 8)) for s, r in self.rows.items()}
        self.f = [list(base) if base is not None else [0.0] * self.obj.dim for _ in range(self.n)]
        self.ambiguous = self.tied_features = False
        self.gh_history, self.f_history = [], []
        self.splits = []  # (site, fid, gain) of every internal node
        self.stats = {"splits": 0, "host_splits": 0, "guest_splits": 0, "leaves": 0, "forced_leaves": 0}

    def val(self, site, i, fid):
        v = self.rows[site][i][fid]
        return 0.0 if abs(v) < consts.FLOAT_ZERO else v

    def gain(self, gl, hl, g, h):
        gr, hr = g - gl, h - hl
        return gl * gl / (hl + self.lam) + gr * gr / (hr + self.lam) - g * g / (h + self.lam)

    def gain_error(self, gl, hl, g, h):
        """What rounding of the sums can do to the gain."""
        out = 0.0
        for x, y in ((gl, hl), (g - gl, h - hl), (g, h)):
            q = (abs(x) + self.now) / (y + self.lam)
            out += self.now * (2 * q + q * q) + 1e-15 * q * abs(x)
        return out

    def round_trees(self, trees, where):
        """trees: the `dim` trees of one boosting round."""
        gh = [[self.obj.grad_hess(i, self.f[i], t) for i in range(self.n)] for t in range(self.obj.dim)]
        # rounding of sums that are passed down the tree as differences
        self.delta = [1e-12 * (1 + sum(abs(v[0]) + abs(v[1]) for v in x) + max(abs(u) for f in self.f for u in f) + self.obj.ymax) for x in gh]
        self.gh_history.append(gh)
        self.f_history.append([list(x) for x in self.f])
        add = []
        for t, nodes in enumerate(trees):
            self.now = self.delta[t]
            add.append(self.tree(nodes, gh[t], "%s, tree %d" % (where, t)))
        for t, a in enumerate(add):
            for i in range(self.n):
                self.f[i][t] += self.lr * a[i]
        return self.obj.loss(self.f)

    def candidates(self, idx, gh, site_filter=None):
        """(gain, site, fid, bin, frozenset(left)) of all admissible splits of the node."""
        g = sum(gh[i][0] for i in idx)
        h = sum(gh[i][1] for i in idx)
        out = []
        if len(idx) < self.min_split:
            return out
        for site in self.rows:
            for fid, pts in enumerate(self.points[site]):
                for b, s in enumerate(pts):
                    left = [i for i in idx if self.val(site, i, fid) <= s]
                    nl = len(left)
                    if nl < self.min_leaf or len(idx) - nl < self.min_leaf:
                        continue
                    gl = sum(gh[i][0] for i in left)
                    hl = sum(gh[i][1] for i in left)
                    out.append((self.gain(gl, hl, g, h), site, fid, b, frozenset(left)))
        return out

    def tree(self, nodes, gh, where):
        contrib = [None] * self.n
        require(0 in nodes, "%s: no root node 0", where)
        seen = set()
        todo = [(0, list(range(self.n)), 1)]
        while todo:
            nid, idx, level = todo.pop()
            require(nid in nodes, "%s: node %s is referenced but does not exist", where, nid)
            require(nid not in seen, "%s: node %s is reached twice", where, nid)
            seen.add(nid)
            nd = nodes[nid]
            g = sum(gh[i][0] for i in idx)
            h = sum(gh[i][1] for i in idx)
            cands = self.candidates(idx, gh) if level < self.depth else []

            def err(left):
                return self.gain_error(sum(gh[i][0] for i in left), sum(gh[i][1] for i in left), g, h)
            best, _, _, _, top = max(cands, key=lambda c: c[0], default=(None, None, None, None, []))
            # differences of gain up to FLOAT_ZERO count as ties
            tol = consts.FLOAT_ZERO * 1.01 + err(top)
            if nd.leaf:
                self.stats["leaves"] += 1
                if level >= self.depth:
                    self.stats["forced_leaves"] += 1
                require(best is None or best <= self.min_imp + tol,
                        "%s: node %d is a leaf although the split %r gains %r > %r",
                        where, nid, best is not None and [c[1:4] for c in cands if c[0] == best][0], best, self.min_imp)
                w = -g / (h + self.lam)
                require(abs(nd.weight - w) <= self.now * (1 + abs(w)) / (h + self.lam) + 1e-13 * abs(w),
                        "%s: leaf %d of %d records has weight %r, -G/(H+lambda) is %r", where, nid, len(idx), nd.weight, w)
                for i in idx:
                    contrib[i] = nd.weight
                continue
            self.stats["splits"] += 1
            self.stats["guest_splits" if nd.site == "guest" else "host_splits"] += 1
            require(level < self.depth, "%s: node %d at level %d is split, maximum depth is %d", where, nid, level, self.depth)
            require(0 <= nd.fid < len(self.points[nd.site]), "%s: node %d uses unknown feature %r of %r", where, nid, nd.fid, nd.site)
            pts = self.points[nd.site][nd.fid]
            require(any(abs(nd.thr - s) <= 1e-12 * (1 + abs(s)) for s in pts),
                    "%s: node %d uses threshold %r, the bins of the feature are %r", where, nid, nd.thr, pts)
            left = frozenset(i for i in idx if self.val(nd.site, i, nd.fid) <= nd.thr)
            mine = [c for c in cands if c[1] == nd.site and c[2] == nd.fid and c[4] == left]
            tol += err(left)
            require(mine, "%s: node %d splits %d records into %d and %d with feature %r of %r at %r, which is not admissible",
                    where, nid, len(idx), len(left), len(idx) - len(left), nd.fid, nd.site, nd.thr)
            require(mine[0][0] > self.min_imp - tol, "%s: node %d is split with gain %r, minimum is %r", where, nid, mine[0][0], self.min_imp)
            require(mine[0][0] >= best - tol, "%s: node %d is split by %r (gain %r), but %r gains %r",
                    where, nid, mine[0][1:4], mine[0][0], [c[1:4] for c in cands if c[0] == best][0], best)
            if any(c[0] >= best - 10 * tol and c[4] != left for c in cands) or best <= self.min_imp + 10 * tol:
                self.ambiguous = True
            if any(c[0] >= best - 10 * tol and c[1:3] != (nd.site, nd.fid) for c in cands):
                self.tied_features = True  # the same training result from another feature
            self.splits.append((nd.site, nd.fid, mine[0][0]))
            todo.append((nd.left, sorted(left), level + 1))
            todo.append((nd.right, sorted(set(idx) - left), level + 1))
        require(seen == set(nodes), "%s: nodes %r are not reachable from the root", where, sorted(set(nodes) - seen))
        require(all(c is not None for c in contrib), "%s: a record reaches no leaf", where)
        return contrib


def loss_close(orc, loss, recorded):
    """The recorded loss is that of the scores, up to rounding."""
    fmax = max(abs(u) for f in orc.f for u in f)
    if orc.obj.task == "regression":
        slack = 1e-12 * (1 + fmax + orc.obj.ymax) ** (2 if orc.obj.name == "lse" else 1)
    else:
        slack = 1e-12 + 1e-15 * 2.718281828459045 ** min(fmax * 2, 80.0)   # 1 - p for p close to one
    return close(loss, recorded, 1e-10, slack)


def close(a, b, rel=1e-6, abs_=1e-9):
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


def check_training(f, case, base=None, exact_rounds=True):
    """Runs the tree oracle over everything a federation trained; returns the oracle."""
    cfg = case["cfg"]
    trees = joined_trees(f.guest, f.hosts)
    orc = TreeOracle(case["G"], case["H"], case["y"], cfg, base=base)
    d = orc.obj.dim
    require(len(trees) % d == 0, "%d trees for %d trees per round", len(trees), d)
    rounds = len(trees) // d
    require(len(f.guest.history_loss) == rounds, "%d losses recorded in %d rounds", len(f.guest.history_loss), rounds)
    for i, h in enumerate(f.hosts):
        require(len(h.trees_) == len(trees), "host %d has %d trees, the guest %d", i, len(h.trees_), len(trees))
    for r in range(rounds):
        loss = orc.round_trees(trees[r * d:(r + 1) * d], "round %d" % r)
        require(loss_close(orc, loss, f.guest.history_loss[r]), "loss after round %d is recorded as %r, is %r", r, f.guest.history_loss[r], loss)
    return orc


def scores_of(result, cfg, n, keys=None):
    """Predicted probabilities/scores per record from a prediction result table."""
    d = dict(result.collect())
    return [d[k] for k in (keys if keys is not None else range(n))]


def tables_of(case, gkey="G", hkey="H", with_labels=True, sparse=False):
    """case["records"], if present: {"kind": kind of record keys, "shuffle": ints that order each host's records}."""
    rec, names = case.get("records"), case.get("names", 0)
    n = len(case[gkey])
    keys = None if rec is None else [key_of(case, i) for i in range(n)]
    gt = table(case[gkey], header("g", len(case[gkey][0]) if case[gkey] else 0, names),
               case["y"] if with_labels else None, sparse=sparse, keys=keys, ids=keys)
    hts = []
    for i, h in enumerate(case[hkey]):
        hdr = header("h%d_" % i, len(h[0]) if h else 0, names)
        if rec is None:
            hts.append(table(h, hdr, sparse=sparse))
            continue
        sh = rec["shuffle"]
        order = sorted(range(n), key=lambda r: ((sh[(r + i) % len(sh)] * (r + 1)) % 17, r))
        hts.append(table([h[r] for r in order], hdr, sparse=sparse, keys=[keys[r] for r in order], ids=[keys[r] for r in order]))
    return gt, hts


def key_of(case, i):
    """The key of record i of the tables of a case."""
    kind = (case.get("records") or {}).get("kind", "int")
    if kind == "str":
        return "id-%d" % ((i * 7919 + 13) % 10007)
    if kind == "far":
        return 10 ** 6 - 37 * i
    return i


def thresholds_of(trees):
    """{(site, fid): sorted thresholds} used anywhere in the joined trees."""
    out = {}
    for nodes in trees:
        for nd in nodes.values():
            if not nd.leaf:
                out.setdefault((nd.site, nd.fid), set()).add(nd.thr)
    return {k: sorted(v) for k, v in out.items()}


def zeroed(v):
    return 0.0 if abs(v) < consts.FLOAT_ZERO else v


def record_score(trees, dim, lr, init, getval):
    f = [float(x) for x in init]
    for t, nodes in enumerate(trees):
        leaf, _ = walk(nodes, getval)
        f[t % dim] += lr * leaf.weight
    return f


def check_row(row, label, f, cfg, classes, where):
    """One prediction row [label, predicted label, score, per-class dict] against the score f."""
    require(isinstance(row, (list, tuple)) and len(row) == 4, "%s: prediction row is %r", where, row)
    require(row[0] == label or (row[0] is None and label is None), "%s: the row carries label %r, the record has %r", where, row[0], label)
    if cfg.get("task") == "regression":
        for v in (row[1], row[2], row[3].get("label")):
            require(close(v, f[0], 1e-11, 1e-12), "%s: predicted %r, the trees give %r", where, row, f[0])
        return
    if len(classes) == 2:
        p = sigmoid(f[0])
        require(close(row[2], p, 1e-11, 1e-13), "%s: probability %r, the trees give %r", where, row[2], p)
        thr = cfg.get("threshold", 0.5)
        if abs(p - thr) > 1e-9:
            require(row[1] == classes[1 if p > thr else 0], "%s: predicted %r with probability %r and threshold %r; classes %r",
                    where, row[1], p, thr, classes)
        require(set(row[3]) == {"0", "1"} and close(row[3]["1"], p, 1e-11, 1e-13) and close(row[3]["0"], 1 - p, 1e-11, 1e-12),
                "%s: class table %r for probability %r", where, row[3], p)
        require(abs(row[3]["0"] - (1 - row[2])) <= 1e-15 and row[3]["1"] == row[2], "%s: the class table %r disagrees with the probability %r",
                where, row[3], row[2])
        return
    ps = softmax(f)
    require(close(row[2], max(ps), 1e-11, 1e-13), "%s: probability %r, the trees give %r", where, row[2], max(ps))
    require(row[1] in classes, "%s: predicted label %r is none of %r", where, row[1], classes)
    require(ps[classes.index(row[1])] >= max(ps) - 1e-9, "%s: predicted %r, but the probabilities of %r are %r", where, row[1], classes, ps)
    require(list(row[3]) == [str(c) for c in classes] or set(row[3]) == set(str(c) for c in classes),
            "%s: class table %r for classes %r", where, row[3], classes)
    for c, p in zip(classes, ps):
        require(close(row[3][str(c)], p, 1e-11, 1e-13), "%s: class table %r, the trees give %r", where, row[3], ps)


def BoostingTree_table(rows):
    """A table as predict on a tree receives it (sparse records)."""
    return table(rows, header("c", len(rows[0])), sparse=True)
