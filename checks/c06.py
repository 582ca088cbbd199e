import boot
boot.install()
import copy
import numpy as np
import model
import gen
from vf import Sub, require
from hypothesis import strategies as st
from ml.feature.binning.quantile_binning import QuantileBinning
from ml.param.feature_binning_param import FeatureBinningParam
from ml.statistic.statics import MultivariateStatisticalSummary


def show(v):
    """Plain comparable image of a record or value, types included."""
    if isinstance(v, np.ndarray):
        return ("array", str(v.dtype), v.shape, [float(x) for x in v.ravel()])
    if type(v).__name__ == "SparseVector":
        # the mapping of a sparse vector is its content, together with its length
        return ("sparse", sorted((int(i), float(x)) for i, x in v.get_all_data()), v.get_shape())
    return (type(v).__name__, repr(v))


def snapshot(t):
    out = []
    for k, inst in t.collect():
        out.append((k, show(inst.inst_id), show(inst.weight), show(inst.features), show(inst.label)))
    return out, (list(t.schema["header"]), repr(sorted(t.schema.items()))), t.count()


def compare(before, t, what):
    now = snapshot(t)
    require(now[1] == before[1], "%s: the header and schema were %r and are %r", what, before[1], now[1])
    require(len(now[0]) == len(before[0]), "%s: the table had %d records and has %d", what, len(before[0]), len(now[0]))
    for a, b in zip(before[0], now[0]):
        require(a == b, "%s: the caller's record was %r and is %r", what, a, b)


def sequence(case, ctx):
    cfg = dict(case["cfg"], mode="strict")
    case = dict(case, cfg=cfg)
    shared = {}

    def fresh():
        gt, hts = model.tables_of(case, sparse=case["sparse"])
        gp, hps = model.tables_of(case, "G2", "H2", with_labels=False, sparse=case["sparse"])
        for t in [gt, gp] + hts + hps:
            # entries that nothing here is about
            t.schema.update(sid_name=" id", label_name="y", extra=[1, {"a": None}])
            # parts of a record that training does not use
            for i, (_, inst) in enumerate(t.collect()):
                inst.inst_id, inst.weight = [(inst.inst_id, inst.weight), (None, 2.5), (None, None), (str(i), 0.0)][case["other"] * (i + case["other"]) % 4]
        return {"train": [gt] + hts, "other": [gp] + hps}

    shared = fresh()
    before = {k: [snapshot(t) for t in ts] for k, ts in shared.items()}

    def check_all(what):
        for k, ts in shared.items():
            for i, t in enumerate(ts):
                compare(before[k][i], t, "%s, %s table of party %d" % (what, k, i))

    def fed():
        return model.Federation(cfg, len(case["H"]), case["schedule"], ridx=case["ridx"])

    def rows_of(res):
        return [(k, [row[1]] + [float(x) for x in [row[2]] + list(row[3].values())]) for k, row in res.collect()]

    def same(a, b, what):
        require(len(a) == len(b), "%s: %d and %d predictions", what, len(a), len(b))
        for (k, x), (k2, y) in zip(a, b):
            require(k == k2 and x[0] == y[0] and all(model.close(u, v, 1e-9, 1e-12) for u, v in zip(x[1:], y[1:])),
                    "%s: record %r is predicted as %r and as %r", what, k, x, y)

    f = fed()
    f.fit(shared["train"][0], shared["train"][1:])
    check_all("training")
    import checks.c04 as c04
    trees = c04.tree_text(f.guest, f.hosts)
    hist = list(f.guest.history_loss)
    truth = {}
    for k in ("train", "other"):
        t = fresh()[k]
        truth[k] = rows_of(f.predict(t[0], t[1:]))
    refits = predicts = 0
    for n, op in enumerate(case["ops"]):
        what = "operation %d (%s)" % (n, op)
        if op in ("train", "other"):
            t = shared[op]
            same(truth[op], rows_of(f.predict(t[0], t[1:])), what)
            predicts += 1
        elif op == "fit":
            g = fed()
            g.fit(shared["train"][0], shared["train"][1:])
            now = c04.tree_text(g.guest, g.hosts)
            require(now == trees, "%s: training again on the same tables gives\n%r\ninstead of\n%r", what, now, trees)
            require(all(model.close(a, b, 1e-9) for a, b in zip(hist, g.guest.history_loss)), "%s: losses %r, at first %r", what, g.guest.history_loss, hist)
            refits += 1
        elif op in ("bin", "bin_some"):
            for t in shared["train"]:
                b = QuantileBinning(FeatureBinningParam(bin_num=cfg["bin_num"]))
                if op == "bin_some":
                    b = QuantileBinning(FeatureBinningParam(bin_num=cfg["bin_num"], cols=[0]))
                b.fit_split_points(t)
                b.convert_feature_to_bin(t)
        elif op == "stats":
            for t in shared["train"]:
                if case["sparse"]:
                    continue
                s = MultivariateStatisticalSummary(t, cols_index=-1)
                s.get_mean()
        check_all(what)
    ctx.mark(predicts > 0 and refits > 0 and any(len(x) > 1 for x in trees))
    ctx.label("sparse" if case["sparse"] else "dense", "refit" if refits else "no refit")


@st.composite
def cases(draw):
    reg = draw(st.booleans())
    case = draw(gen.federation_case(keyed=True, max_rows=14, max_hosts=2, max_cols=3, regression=reg))
    if reg:
        case["cfg"]["objective"] = draw(st.sampled_from(["lse", "lae", "log_cosh"]))
    m = draw(st.integers(1, 6))
    case["G2"] = draw(gen.rows(m, len(case["G"][0])))
    case["H2"] = [draw(gen.rows(m, len(h[0]))) for h in case["H"]]
    case["other"] = draw(st.sampled_from([0, 1, 2, 3]))
    case["ridx"] = list(range(len(case["H"])))
    case["sparse"] = draw(st.booleans())
    if not reg:
        # class labels need not be 0..k-1
        names = draw(st.sampled_from([None, None, [-1, 1, 4, 9], [1, 2, 3, 4], [7, 3, 11, 5], [1.0, 2.0, 3.0, 4.0], ["a", "b", "no", "yes"]]))
        if names:
            case["y"] = [names[v] for v in case["y"]]
    case["ops"] = draw(st.lists(st.sampled_from(["train", "other", "train", "fit", "fit", "bin", "bin_some", "stats"]), min_size=2, max_size=6))
    return case


SUBS = [
    Sub("sequence", cases(), sequence, quick=960, thorough=12000, shards=8, tshards=8,
        rule="fit, then 1-6 operations (predict train/other tables, fit again, binning, statistics) on the same table objects, which are compared "
             "with a deep image after each; non-trivial = predicted and refitted with a tree that has a split"),
]
ASSUMPTIONS = ["a new model object is used for every training (a fitted object is not refitted)"]
