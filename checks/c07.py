import boot
boot.install()
import struct
import fed
import model
import gen
from vf import Sub, require
from hypothesis import strategies as st
from arch.api.boosting_tree_model_meta_pb2 import DecisionTreeModelMeta
from arch.api.boosting_tree_model_param_pb2 import DecisionTreeModelParam
from ml.param.boosting_tree_param import DecisionTreeParam
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost
from ml.tree.node import Node
from ml.utils import consts

FIELDS = ("id", "sitename", "fid", "bid", "weight", "is_leaf", "left_nodeid", "right_nodeid")


def bits(x):
    return struct.pack("<d", float(x))


def same_num(a, b):
    return bits(a) == bits(b) or float(a) == float(b) == 0.0


def blob(msg):
    return msg.SerializeToString(deterministic=True)


def through_bytes(meta, param):
    return (DecisionTreeModelMeta.FromString(meta.SerializeToString()),
            DecisionTreeModelParam.FromString(param.SerializeToString()))


def same_node(a, b, where):
    for f in FIELDS:
        x, y = getattr(a, f), getattr(b, f)
        if f in ("bid", "weight"):
            require(same_num(x or 0.0, y or 0.0), "%s: %s was %r and is %r", where, f, x, y)
        else:
            require((x or 0) == (y or 0) and type(bool(x)) is bool, "%s: %s was %r and is %r", where, f, x, y)


# ------------------------------------------------------------------ synthetic trees

def build(case):
    """-> (joined tree as {id: TNode}, guest nodes, guest mask, [(host nodes, host mask)])"""
    k = case["hosts"]
    shape = case["shape"]
    nodes = {}
    todo = [(0, 1)]
    nxt = 1
    used = 0
    order = []
    while todo:
        nid, depth = todo.pop(0)
        x = model.TNode()
        x.id = nid
        spec = shape[used % len(shape)]
        used += 1
        x.leaf = depth >= case["max_depth"] or (spec["leaf"] and nid != 0) or used > 40
        x.weight = case["weights"][nid % len(case["weights"])]
        x.thr = x.site = x.fid = None
        x.left = x.right = -1
        if not x.leaf:
            x.site = "guest" if spec["site"] % (k + 1) == 0 else spec["site"] % (k + 1) - 1
            x.fid = spec["fid"] % case["ncols"]
            x.thr = case["thr"][(nid * 7 + x.fid) % len(case["thr"])]
            x.left, x.right = nxt, nxt + 1
            todo += [(nxt, depth + 1), (nxt + 1, depth + 1)]
            nxt += 2
        nodes[nid] = x
        order.append(nid)
    gnodes, gmask, hosts = [], {}, [([], {}) for _ in range(k)]
    for nid in sorted(nodes):
        x = nodes[nid]
        site = consts.GUEST if x.leaf or x.site == "guest" else "host.%d" % case["ridx"][x.site]
        gnodes.append(Node(id=nid, sitename=site, fid=x.fid if site == consts.GUEST and not x.leaf else None,
                           bid=None if x.leaf else nid % 5, weight=x.weight, is_leaf=x.leaf, left_nodeid=x.left, right_nodeid=x.right))
        if site == consts.GUEST and not x.leaf:
            gmask[nid] = x.thr
        for i, (hn, hm) in enumerate(hosts):
            mine = not x.leaf and x.site == i
            hn.append(Node(id=nid, sitename=site, fid=x.fid if mine else None, bid=None if x.leaf else nid % 5, weight=0.0, is_leaf=x.leaf,
                           left_nodeid=x.left, right_nodeid=x.right))
            if mine:
                hm[nid] = x.thr
    return nodes, gnodes, gmask, hosts


def check_copy(tree, nodes, mask, where):
    require(len(tree.tree_) == len(nodes), "%s: the tree had %d nodes and has %d", where, len(nodes), len(tree.tree_))
    for a, b in zip(nodes, tree.tree_):
        same_node(a, b, "%s, node %d" % (where, a.id))
    require(set(tree.split_maskdict) == set(mask), "%s: thresholds of nodes %r, were of %r", where, sorted(tree.split_maskdict), sorted(mask))
    for k, v in mask.items():
        require(same_num(v, tree.split_maskdict[k]), "%s: the threshold of node %d was %r and is %r", where, k, v, tree.split_maskdict[k])


def synthetic(case, ctx):
    nodes, gnodes, gmask, hosts = build(case)
    par = DecisionTreeParam(criterion_params=case["crit"], max_depth=case["max_depth"], min_sample_split=case["mss"],
                            min_impurity_split=case["mis"], min_leaf_node=case["mln"])
    other = DecisionTreeParam(criterion_params=[0.7], max_depth=9, min_sample_split=7, min_impurity_split=0.25, min_leaf_node=3)

    def carry(cls, tree_nodes, mask, where):
        src = cls(par)
        src.tree_ = tree_nodes
        src.split_maskdict = dict(mask)
        meta, param = src.get_model()
        meta2, param2 = through_bytes(meta, param)
        dst = cls(other)
        if case["stale"]:
            # loading replaces whatever the object held
            dst.load_model(DecisionTreeModelMeta.FromString(meta.SerializeToString()),
                           DecisionTreeModelParam(tree_=[{"id": 0, "sitename": consts.GUEST, "is_leaf": True, "weight": 9.0, "left_nodeid": -1, "right_nodeid": -1}],
                                                  split_maskdict={10 ** 6: 3.5}))
        dst.load_model(meta2, param2)
        check_copy(dst, tree_nodes, mask, where)
        want = {"max_depth": par.max_depth, "min_sample_split": par.min_sample_split, "min_impurity_split": par.min_impurity_split,
                "min_leaf_node": par.min_leaf_node}
        if cls is HeteroDecisionTreeGuest:
            want["criterion_method"] = par.criterion_method
            want["criterion_params"] = list(par.criterion_params)
        for f, v in want.items():
            got = getattr(dst, f)
            got = list(got) if isinstance(v, list) else got
            require(got == v and type(got) is type(v), "%s: %s was %r and is %r", where, f, v, got)
        meta3, param3 = dst.get_model()
        require(blob(meta3) == blob(meta), "%s: the description handed out again differs: %s, %s", where, meta3, meta)
        require(blob(param3) == blob(param), "%s: the parameters handed out again differ: %s, %s", where, param3, param)
        # what was handed out is a description, not a view of the live tree
        keep = blob(param3)
        dst.split_maskdict[424242] = 1.0
        dst.tree_.append(Node(id=999))
        require(blob(param3) == keep, "%s: changing the tree changes the parameters already handed out", where)
        del dst.split_maskdict[424242]
        dst.tree_.pop()
        return dst

    g = carry(HeteroDecisionTreeGuest, gnodes, gmask, "guest")
    hs = []
    for i, (hn, hm) in enumerate(hosts):
        h = carry(HeteroDecisionTreeHost, hn, hm, "host %d" % i)
        h.set_runtime_idx(case["ridx"][i])
        hs.append(h)
    # the loaded trees route records as the original one does
    thrs = [x.thr for x in nodes.values() if not x.leaf]
    m = len(case["codes"])
    pool = thrs + [0.0, 1.5, -2.0, 1e300, -1e300]
    data = {s: [[pool[(c * 13 + 5 * f + 11 * (0 if s == "guest" else s + 1) + r) % len(pool)] for f in range(case["ncols"])]
                for r, c in enumerate(case["codes"])] for s in ["guest"] + list(range(len(hosts)))}
    sched = fed.Scheduler(case["schedule"])
    wire = fed.Wire(sched, len(hosts))
    g.set_transfer_inst(fed.GuestLink(wire))
    for i, h in enumerate(hs):
        h.set_transfer_inst(fed.HostLink(wire, i))
    tabs = {s: model.BoostingTree_table(rows) for s, rows in data.items()}
    pg = sched.spawn("guest", lambda: g.predict(tabs["guest"]))
    for i, h in enumerate(hs):
        sched.spawn("host%d" % i, lambda h=h, i=i: h.predict(tabs[i]))
    sched.run()
    got = dict(pg.result.collect())
    require(sorted(got) == list(range(m)), "leaf weights of records %r were returned, there are %d records", sorted(got), m)
    for r in range(m):
        leaf, _ = model.walk(nodes, lambda s, f: model.zeroed(data[s][r][f]))
        require(same_num(got[r], leaf.weight), "record %d gets weight %r from the loaded tree, its leaf %d has %r", r, got[r], leaf.id, leaf.weight)
    ctx.mark(len(nodes) > 3 and len({x.site for x in nodes.values() if not x.leaf}) > 1)
    ctx.label("nodes<=3" if len(nodes) <= 3 else "nodes>3")


special = st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0.1, 1 / 3, 1e-300, 5e-324, 1.7e308, -0.0, 123456789.123456789]),
                    st.floats(-10, 10))


@st.composite
def synth(draw):
    k = draw(st.integers(1, 3))
    return {"hosts": k, "ridx": list(draw(st.permutations(range(k)))) if draw(st.booleans()) else draw(st.sampled_from([[0, 1, 2], [1, 2, 3], [10, 1, 2], [2, 20, 0]]))[:k],
            "shape": draw(st.lists(st.fixed_dictionaries({"leaf": st.sampled_from([False, False, True]), "site": st.integers(0, 3), "fid": st.integers(0, 3)}), min_size=1, max_size=12)),
            "ncols": draw(st.integers(1, 4)), "max_depth": draw(st.integers(1, 5)),
            "weights": draw(st.lists(special, min_size=1, max_size=8)), "thr": draw(st.lists(special, min_size=1, max_size=8)),
            "crit": draw(st.lists(st.floats(0, 10), min_size=1, max_size=2)), "mss": draw(st.integers(2, 50)), "mis": draw(st.floats(1e-9, 5)),
            "mln": draw(st.integers(1, 50)), "stale": draw(st.booleans()), "codes": draw(st.lists(st.integers(0, 999), min_size=1, max_size=8)),
            "schedule": draw(gen.schedule())}


# ------------------------------------------------------------------ trained models

def trained(case, ctx):
    f = model.Federation(case["cfg"], len(case["H"]), case["schedule"], ridx=case["ridx"])
    gt, hts = model.tables_of(case)
    f.fit(gt, hts)
    first = list(f.predict(*model.tables_of(case, "G2", "H2", with_labels=False)).collect())
    trees = model.joined_trees(f.guest, f.hosts)
    # a new federation takes over the saved trees (the boosting level has no save of its own)
    f2 = model.Federation(case["cfg"], len(case["H"]), case["schedule"][::-1], ridx=case["ridx"])
    for a, b in [(f.guest, f2.guest)] + list(zip(f.hosts, f2.hosts)):
        b.tree_meta = DecisionTreeModelMeta.FromString(a.tree_meta.SerializeToString())
        b.trees_ = [DecisionTreeModelParam.FromString(p.SerializeToString()) for p in a.trees_]
        b.tree_dim = a.tree_dim
        for t, p in enumerate(a.trees_):
            cls = HeteroDecisionTreeGuest if a is f.guest else HeteroDecisionTreeHost
            inst = cls(b.tree_param)
            inst.load_model(b.tree_meta, b.trees_[t])
            meta, param = inst.get_model()
            require(blob(param) == blob(p) and blob(meta) == blob(a.tree_meta), "tree %d, saved and loaded, is handed out as\n%s\ninstead of\n%s", t, param, p)
    for name, v in vars(f.guest).items():
        if name not in ("transfer_inst", "trees_", "tree_meta", "tree_dim"):
            setattr(f2.guest, name, v)
    tm = model.joined_trees(f2.guest, f2.hosts)
    require(len(tm) == len(trees), "%d trees, saved and loaded %d", len(trees), len(tm))
    second = list(f2.predict(*model.tables_of(case, "G2", "H2", with_labels=False)).collect())
    require(len(first) == len(second), "%d predictions before saving, %d after", len(first), len(second))
    for (k, a), (k2, b) in zip(first, second):
        require(k == k2 and a[1] == b[1] and same_num(a[2], b[2]) and {x: bits(v) for x, v in a[3].items()} == {x: bits(v) for x, v in b[3].items()},
                "record %r is predicted as %r before and as %r after saving", k, a, b)
    cfg = case["cfg"]
    m = f2.guest.tree_meta
    want = [cfg["max_depth"], cfg["min_sample_split"], cfg["min_impurity_split"], cfg["min_leaf_node"], [cfg["reg_lambda"]]]
    got = [m.max_depth, m.min_sample_split, m.min_impurity_split, m.min_leaf_node, list(m.criterion_meta.criterion_param)]
    require(want == got, "the saved description says %r, training used %r", got, want)
    ctx.mark(sum(len(t) > 1 for t in tm) > 0 and any(nd.site not in ("guest", None) for t in tm for nd in t.values()))


@st.composite
def trained_cases(draw):
    reg = draw(st.booleans())
    case = draw(gen.federation_case(max_rows=16, max_hosts=3, max_cols=3, regression=reg))
    if reg:
        case["cfg"]["objective"] = "lse"
    m = draw(st.integers(1, 6))
    case["G2"] = draw(gen.rows(m, len(case["G"][0])))
    case["H2"] = [draw(gen.rows(m, len(h[0]))) for h in case["H"]]
    case["ridx"] = list(draw(st.permutations(range(len(case["H"])))))
    return case


SUBS = [
    Sub("synthetic", synth(), synthetic, quick=1600, thorough=20000, shards=8, tshards=8,
        rule="generated trees over a guest and 1-3 hosts with arbitrary double thresholds and weights: saved, parsed, loaded (also over another tree), "
             "compared bit by bit, predicted with; non-trivial = more than three nodes on several parties"),
    Sub("large", gen.scaled_case(kinds=("hosts", "classes", "depth", "rounds"), small=True, new=6), trained, quick=48, thorough=800, shards=8, tshards=8,
        rule="as trained with many hosts, classes, levels or rounds"),
    Sub("trained", trained_cases(), trained, quick=240, thorough=4000, shards=8, tshards=8,
        rule="trained models moved to a new federation through bytes; non-trivial = a host split"),
]
ASSUMPTIONS = ["boosting-level state (initial score, classes) is copied by the harness: the repository saves trees only"]
