import boot
boot.install()
import model
import gen
from vf import Sub, require
from hypothesis import strategies as st


def valid_training(case, ctx):
    f = model.Federation(case["cfg"], len(case["H"]), case["schedule"])
    f.fit(*model.tables_of(case, sparse=case["sparse"]))
    base = [sum(case["y"]) / len(case["y"])] if case["cfg"].get("task") == "regression" else None
    orc = model.check_training(f, case, base=base)
    ctx.mark(orc.stats["host_splits"] > 0 and orc.stats["splits"] > 1)
    ctx.label("large: " + case["kind"] if "kind" in case else "small", "host_split" if orc.stats["host_splits"] else "no_host_split",
              "guest_split" if orc.stats["guest_splits"] else "no_guest_split",
              "hosts=%d" % len(case["H"]), "dim=%d" % orc.obj.dim, "sparse" if case["sparse"] else "dense",
              "keys=" + (case.get("records") or {"kind": "default"})["kind"])


def train_scores(case):
    f = model.Federation(case["cfg"], len(case["H"]), case["schedule"])
    f.fit(*model.tables_of(case, sparse=case.get("sparse", False)))
    orc = model.check_training(f, case)
    r = f.predict(*model.tables_of(case, sparse=case.get("sparse", False)))
    return f, orc, [list(v[3].values()) for v in model.scores_of(r, case["cfg"], len(case["G"]), [model.key_of(case, i) for i in range(len(case["G"]))])]


def repartition(case, ctx):
    """Moving columns between parties does not change the scores (when no tie decides)."""
    cols = []
    for src in [case["G"]] + case["H"]:
        for j in range(len(src[0])):
            cols.append([r[j] for r in src])
    order = sorted(range(len(cols)), key=lambda i: (case["perm"][i % len(case["perm"])], i))
    cols = [cols[i] for i in order]
    k = min(case["parties"], len(cols))
    groups = [cols[i::k] for i in range(k)]
    if k == 1:
        groups.append([[0.0] * len(case["G"])])
    parts = [[[c[i] for c in g] for i in range(len(case["G"]))] for g in groups]
    other = dict(case, G=parts[0], H=parts[1:])
    f1, o1, s1 = train_scores(case)
    f2, o2, s2 = train_scores(other)
    if o1.ambiguous or o2.ambiguous:
        ctx.label("tie")
        return
    ctx.label("compared", "k=%d" % k)
    ctx.mark(o1.stats["splits"] > 1)
    require(len(f1.guest.trees_) == len(f2.guest.trees_), "%d trees with one partition of the columns, %d with another",
            len(f1.guest.trees_), len(f2.guest.trees_))
    for i, (a, b) in enumerate(zip(s1, s2)):
        require(len(a) == len(b) and all(model.close(x, y, 1e-6, 1e-8) for x, y in zip(a, b)),
                "record %d scores %r with one partition of the columns and %r with another", i, a, b)


SUBS = [
    Sub("valid_training", gen.federation_case(keyed=True, extra=st.fixed_dictionaries({"sparse": st.booleans()})), valid_training,
        quick=480, thorough=6000, shards=8, tshards=8,
        rule="random vertically partitioned data set and parameters, one federated fit, every tree checked against an "
             "independent exhaustive split search; non-trivial = more than one split, at least one by a host"),
    Sub("deep_training", gen.federation_case(keyed=True, min_rows=16, max_rows=48, max_hosts=2, max_cols=2, max_trees=3,
                                             extra=st.fixed_dictionaries({"sparse": st.booleans()})), valid_training,
        quick=160, thorough=2500, shards=8, tshards=8,
        rule="as valid_training with more records and rounds"),
    Sub("large_training", gen.scaled_case(keyed=True, extra=st.fixed_dictionaries({"sparse": st.booleans()})), valid_training,
        quick=96, thorough=2000, shards=8, tshards=8,
        rule="as valid_training with one dimension much larger: up to 400 records, 13 hosts, 30 columns per party, 24 rounds, 14 classes or 12 levels"),
    Sub("very_large_training", gen.scaled_case(kinds=("thousands", "wide"), keyed=True, extra=st.fixed_dictionaries({"sparse": st.booleans()})), valid_training,
        quick=32, thorough=600, shards=4, tshards=8, rule="as valid_training with 1000 to 3000 records, or 90 to 280 columns per party"),
    Sub("repartition", gen.federation_case(keyed=True, max_rows=16, extra=st.fixed_dictionaries(
        {"perm": st.lists(st.integers(0, 50), min_size=1, max_size=9), "parties": st.integers(1, 4),
         "sparse": st.booleans()})), repartition,
        quick=200, thorough=3000, shards=8, tshards=8,
        rule="the same columns distributed differently over the parties; non-trivial = no tie decides and more than one split"),
]
ASSUMPTIONS = ["Paillier keys of 256 bits instead of the default 1024 (C09 varies the key length)",
               "numpy 2.5 with a shim for two behaviours of the pinned numpy 1.21"]
