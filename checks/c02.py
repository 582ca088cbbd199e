import math
import boot
boot.install()
import model
import gen
from vf import Sub, require
from hypothesis import strategies as st

SPECIAL = [0.0, 1e-7, -1e-7, 1e-5, -1e-5, 1.0, -1.0, 1e9, -1e9, 2.5]


def pick(code, train, thrs):
    """Decodes an integer into a feature value: thresholds, their neighbours, training values, specials."""
    if thrs and code % 2 == 0:
        t = thrs[(code // 8) % len(thrs)]
        far, near = max(1e-4, abs(t) * 1e-3), max(2e-6 if t == 0 else 0.0, abs(t) * 1e-11)
        return [t, [t + far, t + near, math.nextafter(t, math.inf)][code // 8 % 3], t + far,
                [t - far, t - near, math.nextafter(t, -math.inf)][code // 8 % 3]][(code // 2) % 4]
    c = code // 2
    if c % 4 == 0:
        return SPECIAL[(c // 4) % len(SPECIAL)]
    return train[(c // 4) % len(train)] + (0.0 if c % 4 < 3 else 0.37)


def base_score(case):
    if case["cfg"].get("task") == "regression":
        return [sum(case["y"]) / len(case["y"])]
    k = len(set(case["y"]))
    return [0.0] * (k if k > 2 else 1)


def predict_rows(case, ctx):
    cfg = case["cfg"]
    f = model.Federation(cfg, len(case["H"]), case["schedule"])
    f.fit(*model.tables_of(case, sparse=case["sparse"]))
    trees = model.joined_trees(f.guest, f.hosts)
    classes = None if cfg.get("task") == "regression" else sorted(set(case["y"]))
    init = base_score(case)
    dim = len(init)
    n = len(case["G"])
    rows = {"guest": case["G"]}
    for i, h in enumerate(case["H"]):
        rows[i] = h
    # the scores training ended with
    final = dict(f.guest.F.collect())
    for i in range(n):
        s = model.record_score(trees, dim, cfg["lr"], init, lambda site, fid: model.zeroed(rows[site][i][fid]))
        got = [float(x) for x in final[model.key_of(case, i)]]
        require(len(got) == dim and all(model.close(a, b, 1e-12, 1e-12) for a, b in zip(got, s)),
                "training record %d: training ended with score %r, the trees give %r", i, got, s)
    thr = model.thresholds_of(trees)
    m = len(case["codes"])
    new = {}
    for site, rs in rows.items():
        new[site] = [[pick(case["codes"][r] * 31 + fid * 7 + (0 if site == "guest" else 3 + site) + case["codes"][(r + fid + 1) % m],
                           [x[fid] for x in rs], thr.get((site, fid), [])) for fid in range(len(rs[0]))] for r in range(m)]
    keys = ["p%d" % ((r * 17 + 5) % 10007) for r in range(m)] if case["strkeys"] else [r * 3 + 100 for r in range(m)]
    labels = [case["y"][r % n] for r in range(m)] if case["with_labels"] else None

    def run(idx, sparse_flags):
        def host_order(i, idx):
            if not case.get("records"):
                return idx
            sh = case["records"]["shuffle"]
            return sorted(idx, key=lambda r: ((sh[(r + i) % len(sh)] * (r + 1)) % 17, r))

        gt = model.table([new["guest"][r] for r in idx], model.header("g", len(new["guest"][0])),
                         None if labels is None else [labels[r] for r in idx], keys=[keys[r] for r in idx], sparse=sparse_flags[0])
        held = list(idx)
        if case.get("records") and case["records"]["shuffle"][0] % 3 == 0:
            # hosts may hold records the guest does not ask for
            held += [r for r in range(m) if r not in idx]
        hts = [model.table([new[i][r] for r in idx], model.header("h%d_" % i, len(new[i][0])), keys=[keys[r] for r in idx],
                           sparse=sparse_flags[(i + 1) % len(sparse_flags)]) for i, idx in [(i, host_order(i, held)) for i in range(len(case["H"]))]]
        res = f.predict(gt, hts)
        got = list(res.collect())
        require(sorted(map(str, [k for k, _ in got])) == sorted(str(keys[r]) for r in idx),
                "predicted records %r, asked for %r", [k for k, _ in got], [keys[r] for r in idx])
        return dict(got)

    flags = case["flags"]
    res = run(list(range(m)), flags)
    host_leaf = False
    for r in range(m):
        s = model.record_score(trees, dim, cfg["lr"], init, lambda site, fid: model.zeroed(new[site][r][fid]))
        model.check_row(res[keys[r]], None if labels is None else labels[r], s, cfg, classes, "record %r" % (keys[r],))
    sub = sorted(set(c % m for c in case["subset"]), key=lambda x: (case["codes"][x % m] * 7 + x) % 11)
    res2 = run(sub, [not x for x in flags] if case["swap"] else flags)
    for r in sub:
        require(repr(res2[keys[r]]) == repr(res[keys[r]]), "record %r is predicted %r among %d records and %r among %d",
                keys[r], res[keys[r]], m, res2[keys[r]], len(sub))
    if classes is not None and len(classes) == 2 and case["swap"]:
        # the threshold at a probability that occurs: strictly greater is positive
        at = float(res[keys[case["codes"][0] % m]][2])
        if 0 < at < 1:
            cfg2 = dict(cfg, threshold=at)
            f = model.Federation(cfg2, len(case["H"]), case["schedule"])
            f.fit(*model.tables_of(case, sparse=case["sparse"]))
            res3 = run(list(range(m)), flags)
            for r in range(m):
                row = res3[keys[r]]
                require(row[1] == classes[1 if row[2] > at else 0], "record %r: predicted %r with probability %r and threshold %r; classes %r",
                        keys[r], row[1], row[2], at, classes)
            if any(row[2] == at for row in res3.values()):
                ctx.label("probability at the threshold")
    hosts_used = any(nd.site not in (None, "guest") for t in trees for nd in t.values())
    guest_used = any(nd.site == "guest" for t in trees for nd in t.values())
    ctx.mark(hosts_used and sum(len(t) for t in trees) > len(trees) * 3)
    ctx.label("host and guest splits" if hosts_used and guest_used else "one side", "dim=%d" % dim,
              "regression" if classes is None else "classification")


def extra():
    return st.fixed_dictionaries({
        "sparse": st.booleans(), "codes": st.lists(st.integers(0, 400), min_size=1, max_size=12),
        "subset": st.lists(st.integers(0, 11), min_size=1, max_size=6), "flags": st.lists(st.booleans(), min_size=2, max_size=3),
        "swap": st.booleans(), "strkeys": st.booleans(), "with_labels": st.booleans()})


def with_threshold(case):
    return st.sampled_from([0.5, 0.5, 0.2, 0.45, 0.55, 0.9, 0, 1, 0.0, 1.0]).map(lambda t: dict(case, cfg=dict(case["cfg"], threshold=t)))


SUBS = [
    Sub("classification", gen.federation_case(keyed=True, extra=extra()).flatmap(with_threshold), predict_rows,
        quick=400, thorough=5000, shards=8, tshards=8,
        rule="a federated fit, then prediction of generated records (thresholds, their neighbours, unseen and special values) against a "
             "walk of the joined trees, and of a permuted subset; non-trivial = a host split and more than three nodes per tree"),
    Sub("near ties", gen.federation_case(keyed=True, extra=extra()).flatmap(lambda c: st.sampled_from([1e-3, 1e-4, 1e-5, 1e-6]).map(lambda lr: dict(c, cfg=dict(c["cfg"], lr=lr)))),
        predict_rows, quick=160, thorough=2000, shards=4, tshards=8, rule="as classification with learning rates of 1e-3 to 1e-6: the probabilities of the classes hardly differ"),
    Sub("regression", gen.federation_case(keyed=True, regression=True, extra=extra()).map(
        lambda c: dict(c, cfg=dict(c["cfg"], objective="lse"))), predict_rows,
        quick=160, thorough=2000, shards=4, tshards=8, rule="as classification"),
    Sub("many hosts", gen.scaled_case(kinds=("hosts",), keyed=True, small=True, extra=extra()), predict_rows, quick=64, thorough=1500, shards=8, tshards=8,
        rule="as classification with 10 to 13 hosts, up to 60 records and trees up to six levels deep"),
    Sub("large", gen.scaled_case(keyed=True, small=True, extra=extra()), predict_rows, quick=96, thorough=1500, shards=8, tshards=8,
        rule="as classification with one dimension much larger: up to 200 records, 13 hosts, 30 columns per party, 24 rounds, 14 classes or 12 levels"),
    Sub("very large", gen.scaled_case(kinds=("thousands", "wide"), keyed=True, small=True, extra=extra()).flatmap(
            lambda c: st.sampled_from([40, 300, 1100, 2100]).map(lambda m: dict(c, codes=[gen._mix(c["codes"][i % len(c["codes"])], i) % 401 for i in range(m)]))),
        predict_rows, quick=24, thorough=500, shards=4, tshards=8,
        rule="as classification with 500 to 1500 records, or 90 to 280 columns per party, and up to 2100 records to predict"),
]
ASSUMPTIONS = ["Paillier keys of 256 bits", "values with |v| < 1e-6 count as zero, as the project documents by FLOAT_ZERO"]
