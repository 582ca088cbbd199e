import boot
boot.install()
import model
import gen
from vf import Sub, require
from hypothesis import strategies as st
from checks import c02
from ml.utils import consts
from xgboost.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as Local


class Holder:
    """A local model in the form the oracles of a federation expect."""

    def __init__(self, m):
        self.guest = m
        self.hosts = []


def joined_columns(case, g="G", h="H"):
    return [sum((src[i] for src in [case[g]] + case[h]), []) for i in range(len(case[g]))]


def local_fit(rows, y, cfg, sparse):
    m = Local()
    m._init_model(model.make_param(cfg))
    m.fit(model.table(rows, model.header("c", len(rows[0])), y, sparse=sparse))
    return m


def check_result(res, m, trees, rows, labels, case, init, where):
    """The result table against walking the trees over raw values."""
    cfg = case["cfg"]
    classes = None if cfg.get("task") == "regression" else sorted(set(case["y"]))
    got = dict(res.collect())
    require(sorted(got) == list(range(len(rows))), "%s: %d records, predictions for %r", where, len(rows), sorted(got))
    out = []
    for i in range(len(rows)):
        f = model.record_score(trees, len(init), cfg["lr"], init, lambda s, fid: model.zeroed(rows[i][fid]))
        model.check_row(got[i], None if labels is None else labels[i], f, cfg, classes, "%s, record %d" % (where, i))
        out.append(f)
    return out


def local(case, ctx):
    cfg = case["cfg"]
    rows = joined_columns(case)
    m = local_fit(rows, case["y"], cfg, case["sparse"])
    base = [sum(case["y"]) / len(rows)] if cfg.get("task") == "regression" else None
    orc = model.check_training(Holder(m), {"cfg": cfg, "G": rows, "H": [], "y": case["y"]}, base=base)
    d = orc.obj.dim
    rounds = len(m.history_loss)
    stop = next((r + 1 for r in range(1, rounds) if abs(m.history_loss[r] - m.history_loss[r - 1]) < cfg["tol"]), None) if cfg["early_stop"] else None
    want = cfg["num_trees"] if stop is None else stop
    require(rounds == want, "%d rounds of boosting for the losses %r, expected %d (tolerance %r)", rounds, m.history_loss, want, cfg["tol"])
    for t, nodes in enumerate(model.joined_trees(m, [])):
        from checks import c05
        c05.shape(nodes, cfg, "tree %d" % t)
    trees = model.joined_trees(m, [])
    init = c02.base_score(case)
    # training ended with the scores of the model
    final = dict(m.F.collect())
    for i in range(len(rows)):
        require(all(model.close(float(a), b, 1e-11, 1e-11) for a, b in zip(final[i], orc.f[i])), "training record %d ends with score %r, the trees give %r", i, final[i], orc.f[i])
    hdr = model.header("c", len(rows[0]))
    check_result(m.predict(model.table(rows, hdr, case["y"], sparse=case["sparse"])), m, trees, rows, case["y"], case, init, "training data")
    new = joined_columns(case, "G2", "H2")
    check_result(m.predict(model.table(new, hdr, None, sparse=not case["sparse"])), m, trees, new, None, case, init, "new data")
    # records on the thresholds and right beside them
    thr = model.thresholds_of(trees)
    picked = [[c02.pick(code * 31 + fid * 7 + code // 5, [x[fid] for x in rows], thr.get((consts.GUEST, fid), [])) for fid in range(len(rows[0]))]
              for code in case["codes"]]
    check_result(m.predict(model.table(picked, hdr, None, sparse=case["sparse"])), m, trees, picked, None, case, init, "records near the thresholds")
    # records one by one give the same
    one = dict(m.predict(model.table(new[-1:], hdr, None)).collect())[0]
    all_ = dict(m.predict(model.table(new, hdr, None)).collect())[len(new) - 1]
    require(list(one[3].values()) == list(all_[3].values()), "a record is predicted as %r alone and as %r among others", one, all_)
    expect = {}
    for site, fid, gain in orc.splits:
        expect[(consts.GUEST, fid)] = expect.get((consts.GUEST, fid), 0) + (1 if cfg["importance"] == "split" else gain)
    got = m.feature_importances_
    require(set(got) == set(expect) and all(abs(got[k] - v) <= 1e-9 * (1 + abs(v) + orc.obj.ymax) for k, v in expect.items()),
            "feature importances (%s) %r, the splits give %r", cfg["importance"], got, expect)
    ctx.mark(orc.stats["splits"] > 1)
    ctx.label("dim=%d" % d, "stopped" if stop else "full", cfg.get("task", "classification"))


def against_federation(case, ctx):
    cfg = case["cfg"]
    rows = joined_columns(case)
    m = local_fit(rows, case["y"], cfg, case["sparse"])
    base = [sum(case["y"]) / len(rows)] if cfg.get("task") == "regression" else None
    o1 = model.check_training(Holder(m), {"cfg": cfg, "G": rows, "H": [], "y": case["y"]}, base=base)
    f = model.Federation(cfg, len(case["H"]), case["schedule"])
    gt, hts = model.tables_of(case, sparse=case["sparse"])
    f.fit(gt, hts)
    o2 = model.check_training(f, case, base=base)
    if o1.ambiguous or o2.ambiguous:
        ctx.label("tie")
        return
    require(len(m.history_loss) == len(f.guest.history_loss) and all(model.close(a, b, 1e-6, 1e-9) for a, b in zip(m.history_loss, f.guest.history_loss)),
            "losses of the local trainer %r, of the federation %r", m.history_loss, f.guest.history_loss)
    hdr = model.header("c", len(rows[0]))
    data = [("training data", rows, model.tables_of(case))]
    if not (o1.tied_features or o2.tied_features):
        data.append(("new data", joined_columns(case, "G2", "H2"), model.tables_of(case, "G2", "H2", with_labels=False)))
    for what, rs, ts in data:
        a = dict(m.predict(model.table(rs, hdr, None)).collect())
        b = dict(f.predict(*ts).collect())
        require(set(a) == set(b), "%s: different records", what)
        for k in a:
            require(all(model.close(x, y, 1e-6, 1e-8) for x, y in zip(a[k][3].values(), b[k][3].values())),
                    "%s, record %r: the local trainer predicts %r, the federation %r", what, k, a[k], b[k])
    ctx.mark(o1.stats["splits"] > 1)
    ctx.label("compared")


@st.composite
def cases(draw, regression=False, generic=False, max_rows=24):
    case = draw(gen.federation_case(max_rows=max_rows, max_hosts=2, regression=regression, generic=generic, max_trees=3))
    m = draw(st.integers(1, 6))
    col = gen.generic_column if generic else gen.column
    case["G2"] = draw(gen.rows(m, len(case["G"][0]), col))
    case["H2"] = [draw(gen.rows(m, len(h[0]), col)) for h in case["H"]]
    case["sparse"] = draw(st.booleans())
    case["codes"] = draw(st.lists(st.integers(0, 400), min_size=1, max_size=8))
    cfg = case["cfg"]
    cfg["tol"] = draw(st.sampled_from([1e-4, 1e-4, 0.05, 0.5]))
    cfg["importance"] = draw(st.sampled_from(["split", "gain"]))
    cfg["threshold"] = draw(st.sampled_from([0.5, 0.5, 0.3, 0.45, 0.55, 0.7]))
    if regression:
        cfg["objective"] = "lse"
    return case


def large(**kw):
    def finish(t):
        t[0]["cfg"].update(t[1])
        return t[0]
    return st.tuples(gen.scaled_case(small=True, new=6, **kw, extra=st.fixed_dictionaries({
        "sparse": st.booleans(), "codes": st.lists(st.integers(0, 400), min_size=1, max_size=8)})), st.fixed_dictionaries({
        "tol": st.sampled_from([1e-4, 0.05]), "importance": st.sampled_from(["split", "gain"]), "threshold": st.sampled_from([0.5, 0.45])})).map(finish)


SUBS = [
    Sub("large", large(), local, quick=96, thorough=1500, shards=8, tshards=8, rule="as local with many records, columns, rounds, classes or levels"),
    Sub("very large", large(kinds=("thousands", "wide")), local, quick=16, thorough=400, shards=4, tshards=8,
        rule="as local with 500 to 1500 records, or 90 to 280 columns per party"),
    Sub("local", cases(max_rows=40), local, quick=640, thorough=8000, shards=8, tshards=8,
        rule="the single-party trainer on all columns: trees against exhaustive split search, growth limits, rounds, importances, predictions of "
             "training and new records; non-trivial = more than one split"),
    Sub("local_regression", cases(regression=True, max_rows=40), local, quick=320, thorough=4000, shards=8, tshards=8, rule="as local, squared error"),
    Sub("against_federation", cases(max_rows=16), against_federation, quick=120, thorough=2000, shards=8, tshards=8,
        rule="the same data trained locally and federated; non-trivial = no tie decides and more than one split"),
    Sub("against_federation_generic", cases(regression=True, generic=True, max_rows=16), against_federation, quick=120, thorough=2000, shards=8, tshards=8,
        rule="as against_federation with values in general position (few ties)"),
]
ASSUMPTIONS = ["Paillier keys of 256 bits"]
