import boot
boot.install()
from contextlib import contextmanager

from hypothesis import strategies as st

import gen
import model
import parts
from checks import c01, c02, c08, c18, c23, c26
from vf import Sub, require


@contextmanager
def partitioned(case):
    """Every table built inside is spread over partitions."""
    p = case["partitions"]
    seen = []

    def wrap(t):
        # parties and tables differ in their partitioning
        n = len(seen)
        seen.append(1)
        codes = [c + n for c in p["codes"]]
        return parts.split(t, codes, 1 + (p["count"] + n) % 5 if p["vary"] else p["count"], p["empty"])
    model.WRAP = wrap
    try:
        yield wrap
    finally:
        model.WRAP = None


def training(case, ctx):
    with partitioned(case):
        f = model.Federation(case["cfg"], len(case["H"]), case["schedule"])
        f.fit(*model.tables_of(case, sparse=case["sparse"]))
        again = model.tables_of(case, sparse=case["sparse"])
    reg = case["cfg"].get("task") == "regression"
    base = [sum(case["y"]) / len(case["y"])] if reg else None
    orc = model.check_training(f, case, base=base)
    res = dict(f.predict(*again).collect())
    trees = model.joined_trees(f.guest, f.hosts)
    init = c02.base_score(case)
    rows = {"guest": case["G"]}
    for i, h in enumerate(case["H"]):
        rows[i] = h
    classes = None if reg else sorted(set(case["y"]))
    require(set(res) == {model.key_of(case, i) for i in range(len(case["G"]))}, "predicted records %r", sorted(map(str, res)))
    for i in range(len(case["G"])):
        s = model.record_score(trees, len(init), case["cfg"]["lr"], init, lambda site, fid: model.zeroed(rows[site][i][fid]))
        model.check_row(res[model.key_of(case, i)], case["y"][i], s, case["cfg"], classes, "record %d" % i)
    ctx.mark(orc.stats["splits"] > 1 and case["partitions"]["count"] > 1)
    ctx.label("regression" if reg else "classification", "host split" if orc.stats["host_splits"] else "no host split")


def local(case, ctx):
    with partitioned(case):
        c08.local(dict(case), ctx)


def binning(case, ctx):
    with partitioned(case):
        c18.fitted(case, ctx, 4)


@contextmanager
def replaced(mod, name, wrap):
    old = getattr(mod, name)
    setattr(mod, name, lambda *a, **k: wrap(old(*a, **k)))
    try:
        yield
    finally:
        setattr(mod, name, old)


def statistics(case, ctx):
    with partitioned(case) as wrap, replaced(c26, "make", wrap):
        c26.whole(case, ctx)


def labels(case, ctx):
    with partitioned(case) as wrap, replaced(c23, "table_of", wrap):
        c23.classify(case, ctx)


def plan(empty=True):
    return st.fixed_dictionaries({"codes": st.lists(st.integers(0, 6), min_size=1, max_size=9), "count": st.integers(2, 6), "vary": st.booleans(),
                                  "empty": st.booleans() if empty else st.just(False)})


def with_plan(s, empty=True):
    return st.tuples(s, plan(empty)).map(lambda t: dict(t[0], partitions=t[1]))


def sub(mod, name):
    return {s.name: s for s in mod.SUBS}[name]


def lse(c):
    return dict(c, cfg=dict(c["cfg"], objective="lse"))


extra = st.fixed_dictionaries({"sparse": st.booleans()})
SUBS = [
    Sub("training", with_plan(st.one_of(gen.federation_case(keyed=True, max_hosts=2, extra=extra),
                                        gen.federation_case(keyed=True, max_hosts=2, regression=True, extra=extra).map(lse))), training,
        quick=320, thorough=5000, shards=8, tshards=8,
        rule="a federated fit and prediction on tables of 2-6 partitions, different ones per party, against the reference split search and tree walk; "
             "non-trivial = more than one split"),
    Sub("local", with_plan(sub(c08, "local").strategy), local, quick=240, thorough=4000, shards=4, tshards=8, rule="the trainer in one place; non-trivial as in C08"),
    Sub("binning", with_plan(st.one_of(c18.cases(), c18.cases(big=True))), binning, quick=600, thorough=10000, shards=4, tshards=8,
        rule="split points of partitioned tables against exact ranks (twice the error of one partition); non-trivial = more than two split points"),
    Sub("statistics", with_plan(c26.table_case()), statistics, quick=1200, thorough=20000, shards=4, tshards=8, rule="as C26 on partitioned tables"),
    Sub("labels", with_plan(sub(c23, c23.SUBS[0].name).strategy), labels, quick=300, thorough=4000, shards=2, tshards=8, rule="as C23 on partitioned tables"),
]
ASSUMPTIONS = ["the partitioned table is the harness's own implementation of the table interface: functions see the records of one partition at a time, reduce "
               "folds each partition first; DTable itself has one partition"]
