import boot
boot.install()
import numpy as np
import gen
import keys
from vf import Sub, require
from hypothesis import strategies as st
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.secureprotol.fate_paillier import PaillierEncryptedNumber
from ml.tree.feateur_histogram import FeatureHistogram


def setup(case):
    nf = len(case["bins"])
    pts = np.array([np.array([float(j) for j in range(b)]) for b in case["bins"]])
    sparse = [s % (b + 1) for s, b in zip(case["zero"], case["bins"])]
    recs = []
    for i, (row, where, gh) in enumerate(zip(case["rows"], case["where"], case["gh"])):
        ent = []
        for f in range(nf):
            v = row[f % len(row)]
            if v is not None:
                ent.append((f, v % (case["bins"][f] + 1)))
        if case["perm"] % 2:  # a sparse vector's columns may be stored in any order
            ent.sort(key=lambda e: (e[0] * 7 + case["perm"] + i) % 5)
        recs.append(("r%d" % i, ent, where, gh))
    nodes = sorted(set(case["nodes"]), key=lambda x: (x * 7 + case["perm"]) % 11)
    node_map = {nid: j for j, nid in enumerate(nodes)}
    valid = None if case["valid"] is None else [case["valid"][f % len(case["valid"])] for f in range(nf)]
    return nf, pts, sparse, recs, node_map, valid


def reference(nf, case, sparse, recs, node_map, valid):
    """Per node, feature and bin: sums of g, h and the number of records; and the sum of absolute values."""
    res = [[None if valid is not None and not valid[f] else [[0.0, 0.0, 0] for _ in range(case["bins"][f] + 1)] for f in range(nf)] for _ in node_map]
    size = 0.0
    for _, ent, (alive, nid), (g, h) in recs:
        size += abs(g) + abs(h)
        if not alive or nid not in node_map:
            continue
        d = dict(ent)
        for f in range(nf):
            if res[0][f] is None:
                continue
            cell = res[node_map[nid]][f][d.get(f, sparse[f])]
            cell[0] += g
            cell[1] += h
            cell[2] += 1
    return res, size


def compare(got, want, size, dec, what):
    require(len(got) == len(want), "%s: histograms of %d nodes instead of %d", what, len(got), len(want))
    tol = 1e-9 * (1 + size)
    for n, (gn, wn) in enumerate(zip(got, want)):
        require(len(gn) == len(wn), "%s: %d features instead of %d at node %d", what, len(gn), len(wn), n)
        for f, (gf, wf) in enumerate(zip(gn, wn)):
            if wf is None:
                require(len(gf) == 0, "%s: feature %d is not valid but has histogram %r", what, f, gf)
                continue
            require(len(gf) == len(wf), "%s: %d bins instead of %d at node %d, feature %d", what, len(gf), len(wf), n, f)
            for b, (gc, wc) in enumerate(zip(gf, wf)):
                require(gc[2] == wc[2], "%s: %r records instead of %d at node %d, feature %d, bin %d", what, gc[2], wc[2], n, f, b)
                for r in (0, 1):
                    x = dec(gc[r])
                    require(abs(x - wc[r]) <= tol, "%s: sum of %s is %r instead of %r at node %d, feature %d, bin %d", what, ("gradients", "hessians")[r], x, wc[r], n, f, b)


def histogram(case, ctx):
    nf, pts, sparse, recs, node_map, valid = setup(case)
    enc = keys.encrypter(case["bits"]) if case["bits"] else None

    def cipher(x):
        return enc.encrypt(x) if enc else x

    def dec(x):
        return float(enc.decrypt(x)) if isinstance(x, PaillierEncryptedNumber) else float(x)

    data = [(k, (Instance(inst_id=k, features=SparseVector([f for f, _ in ent], [v for _, v in ent], nf), label=1), where)) for k, ent, where, _ in recs]
    grads = [(k, (cipher(gh[0]), cipher(gh[1]))) for k, _, _, gh in recs]
    if case["extra"]:  # records known to one of the two tables only take no part
        grads = [("only grad", (cipher(5.0), cipher(3.0)))] + grads[::-1]
        data = data + [("only data", (Instance(inst_id="x", features=SparseVector([], [], nf), label=1), (1, case["nodes"][0])))]
    table = DTable(True, data)
    gtable = DTable(True, grads)
    want, size = reference(nf, case, sparse, recs, node_map, valid)
    sp = dict(enumerate(sparse)) if case["extra"] else sparse
    kw = {} if valid is None else {"valid_features": valid}
    before = [(k, list(v[0].features.get_all_data()), v[1]) for k, v in table.collect()]
    got = FeatureHistogram.calculate_histogram(table, gtable, pts, sp, node_map=node_map, **kw)
    compare(got, want, size, dec, "histogram")
    require(before == [(k, list(v[0].features.get_all_data()), v[1]) for k, v in table.collect()], "the records change")
    acc = FeatureHistogram.accumulate_histogram(got)
    wacc = [[None if wf is None else [[sum(c[r] for c in wf[:b + 1]) for r in range(3)] for b in range(len(wf))] for wf in wn] for wn in want]
    compare(acc, wacc, size, dec, "accumulated histogram")
    for n in range(len(node_map)):
        tot = [sum(r[3][0] for r in recs if r[2][0] and node_map.get(r[2][1]) == n), sum(r[3][1] for r in recs if r[2][0] and node_map.get(r[2][1]) == n)]
        for f in range(nf):
            if wacc[n][f] is not None:
                for r in (0, 1):
                    require(abs(dec(acc[n][f][-1][r]) - tot[r]) <= 1e-9 * (1 + size), "the last entry is %r, the node's total %r", dec(acc[n][f][-1][r]), tot[r])
    # the parts of a partitioned table add up
    kv = [(k, (v, dict(grads)[k])) for k, v in data if k in dict(grads)]
    cut = case["perm"] % (len(kv) + 1)
    parts = [FeatureHistogram.batch_calculate_histogram(iter(p), bin_split_points=pts, bin_sparse_points=sp, valid_features=valid, node_map=node_map)[0] for p in (kv[:cut], kv[cut:])]
    compare(FeatureHistogram.aggregate_histogram(parts[0], parts[1]), want, size, dec, "sum of the parts' histograms")
    used = sum(1 for r in recs if r[2][0] and r[2][1] in node_map)
    ctx.mark(used > 1 and nf > 0 and any(w is not None for w in want[0]))
    ctx.label("enc" if enc else "plain", "all features" if valid is None else "selection", "absent" if any(len(r[1]) < nf for r in recs) else "full",
              "elsewhere" if used < len(recs) else "everywhere")


num = st.one_of(st.integers(-8, 8).map(lambda v: v / 8), st.floats(-3, 3).map(lambda x: x if abs(x) > 1e-12 else 0.0), st.just(0.0))


def cases(bits, maxn):
    return st.integers(0, maxn).flatmap(lambda n: st.fixed_dictionaries({
        "bits": st.sampled_from(bits), "bins": st.lists(st.integers(0, 5), min_size=1, max_size=4), "zero": st.lists(st.integers(0, 5), min_size=4, max_size=4),
        "rows": st.lists(st.lists(st.one_of(st.none(), st.integers(0, 5)), min_size=4, max_size=4), min_size=n, max_size=n),
        "where": st.lists(st.tuples(st.sampled_from([1, 1, 1, 0]), st.sampled_from([0, 1, 2, 5, 6, 9])), min_size=n, max_size=n),
        "gh": st.lists(st.tuples(num, num), min_size=n, max_size=n), "nodes": st.lists(st.sampled_from([0, 1, 2, 5, 6, 8]), min_size=1, max_size=4),
        "perm": st.integers(0, 50), "valid": st.one_of(st.none(), st.lists(st.booleans(), min_size=1, max_size=4)), "extra": st.booleans()}))


@st.composite
def large(draw):
    """Hundreds of records on dozens of nodes, dozens of features or hundreds of bins, from a drawn seed."""
    s = draw(st.integers(0, 10 ** 6))
    kind = draw(st.sampled_from(["records", "features", "bins", "nodes"]))
    n = draw(st.sampled_from([900, 1025, 2049, 2500, 4097, 5000])) if kind == "records" else draw(st.integers(60, 300))
    nf = draw(st.integers(12, 40)) if kind == "features" else draw(st.integers(1, 4))
    top = draw(st.integers(100, 400)) if kind == "bins" else draw(st.sampled_from([1, 5, 12, 32]))
    nodes = draw(st.integers(12, 70)) if kind == "nodes" else draw(st.integers(1, 5))
    m = lambda *a: gen._mix(s, *a)
    skip = draw(st.sampled_from([0, 0, 2, 5]))
    return {"bits": 0, "bins": [max(1, top - m(1, f) % 4) for f in range(nf)], "zero": [m(2, f) % (top + 1) for f in range(nf)],
            "rows": [[None if skip and m(3, i, f) % skip == 0 else m(4, i, f) % (top + 1) for f in range(nf)] for i in range(n)],
            "where": [(0 if m(5, i) % 8 == 0 else 1, m(6, i) % (nodes + 2) * 3) for i in range(n)],
            "gh": [((m(7, i) % 2001 - 1000) / 1000.0, (m(8, i) % 1000) / 4000.0) for i in range(n)],
            "nodes": [3 * i for i in range(nodes)], "perm": draw(st.integers(0, 50)),
            "valid": draw(st.one_of(st.none(), st.just([m(9, f) % 3 > 0 for f in range(nf)]))), "extra": draw(st.booleans())}


SUBS = [
    Sub("plain", cases([0], 25), histogram, quick=8000, thorough=200000, shards=8, tshards=8,
        rule="0-25 binned records on several nodes and finished leaves, node batches and feature selections, against direct counting; non-trivial = several records counted"),
    Sub("encrypted", cases([256, 320], 10), histogram, quick=600, thorough=8000, shards=8, tshards=8, rule="the same with Paillier gradients, decrypted afterwards; non-trivial as plain"),
    Sub("large", large(), histogram, quick=96, thorough=3000, shards=8, tshards=8, rule="as plain with up to 5000 records, 40 features, 400 bins or 70 nodes"),
]
ASSUMPTIONS = ["sums are compared to a relative error of 1e-9", "a feature appears at most once in a record"]
