import boot
boot.install()
import model
import gen
from vf import Sub, require
from hypothesis import strategies as st


def tree_text(guest, hosts):
    """Everything the parties hold after training, in comparable form."""
    out = []
    for t, nodes in enumerate(model.joined_trees(guest, hosts)):
        out.append([(i, nd.site, nd.fid if not nd.leaf else None, nd.thr, nd.leaf, nd.left, nd.right, round(nd.weight, 9))
                    for i, nd in sorted(nodes.items())])
    return out


def run(case, schedule, rendezvous, one_session):
    f = model.Federation(case["cfg"], len(case["H"]), schedule, ridx=case["ridx"], rendezvous=rendezvous)
    gt, hts = model.tables_of(case, sparse=case["sparse"])
    gp, hps = model.tables_of(case, "G2", "H2", with_labels=False, sparse=case["sparse"])
    if one_session:
        res = f.fit_predict(gt, hts, gp, hps)
    else:
        f.fit(gt, hts)
        res = f.predict(gp, hps)
    k = len(f.guest.trees_)
    for i, h in enumerate(f.hosts):
        require(len(h.trees_) == k, "the guest built %d trees, host %d %d", k, i, len(h.trees_))
    return f, [(k, [row[1]] + [round(float(x), 9) for x in [row[2]] + list(row[3].values())]) for k, row in res.collect()]


def schedules(case, ctx):
    base = None
    # re-used encryptions are re-randomised by random factors, which may decide exact ties by rounding
    case = dict(case, cfg=dict(case["cfg"], mode="strict"))
    runs = [(case["schedule"], case["rendezvous"], False)] + [(s, i % 2 == 0, True) for i, s in enumerate(case["more"])]
    for schedule, rv, one in runs:
        f, pred = run(case, schedule, rv, one)
        t = tree_text(f.guest, f.hosts)
        hist = [round(x, 9) for x in f.guest.history_loss]
        if base is None:
            base = (t, pred, hist)
        else:
            require(base[0] == t, "schedule %r gives other trees than schedule %r:\n%r\n%r", schedule, case["schedule"], t, base[0])
            require(base[1] == pred, "schedule %r gives other predictions than schedule %r:\n%r\n%r", schedule, case["schedule"], pred, base[1])
            require(base[2] == hist, "schedule %r gives other losses than schedule %r: %r, %r", schedule, case["schedule"], hist, base[2])
    rounds = len(base[2])
    ctx.mark(len(case["H"]) > 1 and any(len(x) > 1 for x in base[0]))
    ctx.label("hosts=%d" % len(case["H"]), "stopped early" if rounds < case["cfg"]["num_trees"] else "all rounds",
              "identity ridx" if case["ridx"] == list(range(len(case["ridx"]))) else "permuted ridx")


def connection_order(case, ctx):
    """Connecting the same hosts in another order changes nothing but ties."""
    order = sorted(range(len(case["H"])), key=lambda i: (case["perm"][i % len(case["perm"])], i))
    other = dict(case, H=[case["H"][i] for i in order], H2=[case["H2"][i] for i in order], ridx=[case["ridx"][i] for i in order])
    a, pa = run(case, case["schedule"], False, True)
    base = [sum(case["y"]) / len(case["y"])]
    oa = model.check_training(a, case, base=base)
    b, pb = run(other, case["more"][0], case["rendezvous"], True)
    ob = model.check_training(b, other, base=base)
    if oa.ambiguous or ob.ambiguous or oa.tied_features or ob.tied_features:
        ctx.label("tie")
        return
    ctx.mark(oa.stats["host_splits"] > 0 and order != list(range(len(order))))
    require(len(pa) == len(pb), "%d and %d predictions", len(pa), len(pb))
    for (k, x), (k2, y) in zip(pa, pb):
        require(k == k2 and all(model.close(u, v, 1e-6, 1e-8) for u, v in zip(x[1:], y[1:])),
                "connecting in order %r predicts %r for record %r, connecting in the given order %r", order, y, k, x)


@st.composite
def cases(draw, hosts=4, generic=False):
    if generic:
        case = draw(gen.federation_case(keyed=True, min_rows=8, max_rows=20, min_hosts=2, max_hosts=hosts, max_cols=2, max_trees=2, regression=True, generic=True))
        case["cfg"]["objective"] = "lse"
    else:
        case = draw(gen.federation_case(keyed=True, max_rows=14, max_hosts=hosts, max_cols=2, max_trees=3))
    m = draw(st.integers(1, 6))
    col = gen.generic_column if generic else gen.column
    case["G2"] = draw(gen.rows(m, len(case["G"][0]), col))
    case["H2"] = [draw(gen.rows(m, len(h[0]), col)) for h in case["H"]]
    case["ridx"] = list(draw(st.permutations(range(len(case["H"])))))
    case["rendezvous"] = draw(st.booleans())
    case["sparse"] = draw(st.booleans())
    case["more"] = draw(st.lists(gen.schedule(), min_size=1, max_size=3))
    case["perm"] = draw(st.lists(st.integers(0, 9), min_size=1, max_size=4))
    if draw(st.integers(0, 3)) == 0:
        case["cfg"]["tol"] = draw(st.sampled_from([0.5, 0.05, 0.01]))
        case["cfg"]["num_trees"] = 4
        case["cfg"]["early_stop"] = True
    return case


SUBS = [
    Sub("schedules", cases(), schedules, quick=240, thorough=5000, shards=8, tshards=8,
        rule="training and prediction under 2-4 generated schedules, with and without buffering (every send waits for its receiver), "
             "compared with each other; non-trivial = several hosts and a tree with a split"),
    Sub("connection_order", cases(generic=True), connection_order, quick=160, thorough=3000, shards=8, tshards=8,
        rule="the hosts attached in another order; non-trivial = really permuted, a host split and no tie"),
]
SUBS.append(Sub("large", gen.scaled_case(kinds=("hosts", "hosts", "rounds", "classes"), keyed=True, small=True, new=4, extra=st.fixed_dictionaries(
    {"rendezvous": st.booleans(), "sparse": st.booleans(), "more": st.lists(gen.schedule(), min_size=1, max_size=1)})), schedules, quick=32, thorough=600, shards=8, tshards=8,
    rule="as schedules with 10-13 hosts, 11-24 rounds or 10-14 classes"))
ASSUMPTIONS = ["parties are scheduled at their sends and receives; between those they only touch their own state"]
