import boot
boot.install()
import model
import gen
from vf import Sub, Violation, require
from hypothesis import strategies as st
from ml.utils import consts


def fit(case, **over):
    c = dict(case, cfg=dict(case["cfg"], **over))
    f = model.Federation(c["cfg"], len(c["H"]), c["schedule"], ridx=c["ridx"])
    f.fit(*model.tables_of(c, sparse=c["sparse"]))
    return f, c


def shape(nodes, cfg, where):
    """Structure alone: ids, children, depth."""
    require(0 in nodes, "%s: there is no node 0", where)
    parent = {}
    for i, nd in nodes.items():
        if nd.leaf:
            require(nd.left == -1 and nd.right == -1, "%s: leaf %d has children %r and %r", where, i, nd.left, nd.right)
            continue
        require(nd.left != nd.right, "%s: both children of node %d are %d", where, i, nd.left)
        for c in (nd.left, nd.right):
            require(c in nodes, "%s: child %r of node %d does not exist", where, c, i)
            require(c not in parent and c != 0, "%s: node %r has two parents", where, c)
            parent[c] = i
    require(len(parent) == len(nodes) - 1, "%s: nodes %r are attached nowhere", where, sorted(set(nodes) - set(parent) - {0}))
    for i in nodes:
        d, x = 1, i
        while x != 0:
            x = parent[x]
            d += 1
            require(d <= len(nodes) + 1, "%s: node %d is on a cycle", where, i)
        require(d <= cfg["max_depth"], "%s: node %d is on level %d, the maximum is %d", where, i, d, cfg["max_depth"])


def limits(case, ctx):
    f, case = fit(case)
    cfg = case["cfg"]
    trees = model.joined_trees(f.guest, f.hosts)
    rows = {"guest": case["G"]}
    for i, h in enumerate(case["H"]):
        rows[i] = h
    n = len(case["G"])
    stopped = 0
    for t, nodes in enumerate(trees):
        where = "tree %d" % t
        shape(nodes, cfg, where)
        reach = {i: [] for i in nodes}
        for r in range(n):
            leaf, path = model.walk(nodes, lambda s, fid: model.zeroed(rows[s][r][fid]))
            for i in path:
                reach[i].append(r)
        require(sum(len(reach[i]) for i, nd in nodes.items() if nd.leaf) == n, "%s: the leaves hold %d of %d records", where,
                sum(len(reach[i]) for i, nd in nodes.items() if nd.leaf), n)
        for i, nd in nodes.items():
            if nd.leaf:
                stopped += 1
                continue
            k = len(reach[i])
            require(k >= cfg["min_sample_split"], "%s: node %d of %d records is split, the minimum is %d", where, i, k, cfg["min_sample_split"])
            for c in (nd.left, nd.right):
                require(len(reach[c]) >= cfg["min_leaf_node"], "%s: node %d gets %d records, the minimum is %d", where, c, len(reach[c]), cfg["min_leaf_node"])
    # gains and importances
    base = [sum(case["y"]) / n] if cfg.get("task") == "regression" else None
    orc = model.check_training(f, case, base=base)
    expect = {}
    for site, fid, gain in orc.splits:
        name = consts.GUEST if site == "guest" else "host.%d" % case["ridx"][site]
        require(gain > cfg["min_impurity_split"] - 1e-7, "a split gains %r, the minimum is %r", gain, cfg["min_impurity_split"])
        expect[(name, fid)] = expect.get((name, fid), 0) + (1 if cfg["importance"] == "split" else gain)
    got = f.guest.feature_importances_
    require(set(got) == set(expect), "importances of %r, splits use %r", sorted(got), sorted(expect))
    for k, v in expect.items():
        require(abs(got[k] - v) <= 1e-9 * (1 + abs(v) + orc.obj.ymax), "importance (%s) of %r is %r, its splits give %r", cfg["importance"], k, got[k], v)
    ctx.mark(len(orc.splits) > 2)
    ctx.label("importance=" + cfg["importance"], "hosts=%d" % len(case["H"]))


def batches(case, ctx):
    case = dict(case, cfg=dict(case["cfg"], mode="strict"))  # (see C04: only then are exact ties settled alike)
    f0, _ = fit(case, max_split_nodes=65536)
    a = [sorted((i, nd.site, nd.fid if not nd.leaf else None, nd.thr, nd.leaf, nd.left, nd.right, round(nd.weight, 9)) for i, nd in t.items())
         for t in model.joined_trees(f0.guest, f0.hosts)]
    wide = any(len(t) > 3 for t in a)
    for b in case["batches"]:
        f1, _ = fit(case, max_split_nodes=b)
        c = [sorted((i, nd.site, nd.fid if not nd.leaf else None, nd.thr, nd.leaf, nd.left, nd.right, round(nd.weight, 9)) for i, nd in t.items())
             for t in model.joined_trees(f1.guest, f1.hosts)]
        require(a == c, "splitting %d nodes at a time gives other trees than splitting all at once:\n%r\n%r", b, c, a)
        x, y = f0.guest.feature_importances_, f1.guest.feature_importances_
        require(set(x) == set(y) and all(model.close(x[k], y[k], 1e-9) for k in x), "importances depend on the batch size: %r, %r", x, y)
    ctx.mark(wide)


@st.composite
def cases(draw, rows=30, regression=False):
    case = draw(gen.federation_case(keyed=True, min_rows=8, max_rows=rows, max_hosts=2, regression=regression))
    case["cfg"]["importance"] = draw(st.sampled_from(["split", "gain"]))
    case["cfg"]["max_depth"] = draw(st.sampled_from([4, 3, 5, 2, 1]))
    case["cfg"]["min_leaf_node"] = draw(st.sampled_from([1, 2, 3, 4, 6]))
    case["cfg"]["min_sample_split"] = draw(st.sampled_from([2, 3, 5, 8, 12]))
    case["cfg"]["min_impurity_split"] = draw(st.sampled_from([1e-3, 0.05, 0.3, 1.0]))
    case["ridx"] = list(draw(st.permutations(range(len(case["H"])))))
    case["sparse"] = draw(st.booleans())
    case["batches"] = draw(st.lists(st.integers(1, 5), min_size=1, max_size=2, unique=True))
    if regression:
        case["cfg"]["objective"] = "lse"
    return case


def large(**kw):
    def finish(t):
        case, imp, batch = t
        case["cfg"]["importance"] = imp
        case["batches"] = [batch]
        return case
    return st.tuples(gen.scaled_case(keyed=True, small=True, new=1, **kw, extra=st.fixed_dictionaries({"sparse": st.booleans()})),
                     st.sampled_from(["split", "gain"]), st.sampled_from([1, 2, 7, 16])).map(finish)


SUBS = [
    Sub("limits", cases(), limits, quick=320, thorough=6000, shards=8, tshards=8,
        rule="growth limits, structure and importances of every trained tree, from the records that reach each node; non-trivial = more than two splits"),
    Sub("limits_regression", cases(regression=True), limits, quick=120, thorough=2000, shards=4, tshards=8, rule="as limits"),
    Sub("large", large(), limits, quick=96, thorough=1500, shards=8, tshards=8, rule="as limits with many records, hosts, columns, rounds, classes or levels"),
    Sub("very_large", large(kinds=("thousands", "wide")), limits, quick=16, thorough=400, shards=4, tshards=8,
        rule="as limits with 500 to 1500 records, or 90 to 280 columns per party"),
    Sub("large_batches", large(), batches, quick=32, thorough=500, shards=8, tshards=8, rule="as batches with many records, hosts, columns, rounds, classes or levels"),
    Sub("batches", cases(rows=24), batches, quick=160, thorough=3000, shards=8, tshards=8,
        rule="the same training with other batch sizes; non-trivial = some level has several nodes"),
]
ASSUMPTIONS = ["Paillier keys of 256 bits", "max_depth counts levels of nodes"]
