import boot
boot.install()
import numpy as np
import gen
import keys
import model
from vf import Sub, require
from hypothesis import strategies as st
from computing.d_table import DTable
from ml.secureprotol.encrypt import FakeEncrypt, PaillierEncrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
from ml.secureprotol.fate_paillier import PaillierEncryptedNumber

SHAPES = {"scalar": lambda v: v[0], "tuple": tuple, "list": list, "array": lambda v: np.array(v, dtype=float), "array_as_given": lambda v: np.array([int(x) for x in v] if all(float(x).is_integer() for x in v) else v),
          "pair": lambda v: (v[0], v[-1])}


class Counting:
    """An encrypter that records every value it is asked to encrypt."""

    def __init__(self, inner):
        self.inner = inner
        self.seen = []

    def encrypt(self, v):
        self.seen.append(v)
        return self.inner.encrypt(v)


def leaves(row):
    if isinstance(row, np.ndarray):
        return list(row)
    if isinstance(row, (tuple, list)):
        return list(row)
    return [row]


def history(case, ctx):
    enc = keys.encrypter(case["bits"]) if case["bits"] else FakeEncrypt()
    cnt = Counting(enc)
    calc = EncryptModeCalculator(cnt, case["mode"], case["rate"])
    shape = SHAPES[case["shape"]]
    n = case["n"]
    all_keys = ks = [("k%d" % i if case["strkeys"] else i * 3) for i in range(n)]
    biggest = 0.0
    raw_seen = set()
    previous = set()
    for rnd, vals in enumerate(case["rounds"]):
        if case.get("picks"):
            # a table of other records, or of the same ones in another order
            pick = case["picks"][rnd % len(case["picks"])]
            order = sorted(range(case["n"]), key=lambda i: ((pick >> 4) * (i + 1) % 7, i))
            ks = [all_keys[i] for i in order if pick & (1 << i)] or all_keys[:1]
            n = len(ks)
        rows = [shape([vals[(i * 5 + j * 3) % len(vals)] + (i * 0.125 if case["vary"] else 0) for j in range(case["width"])]) for i in range(n)]
        data = DTable(True, list(zip(ks, rows)))
        before = [(k, [float(x) for x in leaves(v)], type(v)) for k, v in data.collect()]
        biggest = max([biggest] + [abs(x) for _, v, _ in before for x in v])
        calls = len(cnt.seen)
        out = calc.encrypt(data)
        made = len(cnt.seen) - calls
        total = sum(len(v) for _, v, _ in before)
        require(before == [(k, [float(x) for x in leaves(v)], type(v)) for k, v in data.collect()], "round %d: the input table is modified", rnd)
        res = list(out.collect())
        if not case.get("picks"):
            require([k for k, _ in res] == ks, "round %d: keys %r, input has %r", rnd, [k for k, _ in res], ks)
        require(len(res) == len(ks) and {k for k, _ in res} == set(ks), "round %d: keys %r, the table given has %r (the one before had %r)",
                rnd, [k for k, _ in res], ks, sorted(previous))
        res = [(k, dict(res)[k]) for k in ks]
        new = [k for k in ks if k not in previous]
        expect_new = sum(len(v) for k, v, _ in before if k in new)
        previous = set(ks)
        for (k, row), (_, vs, t) in zip(res, before):
            require(type(row) is t or (t in (int, float, np.float64) and not isinstance(row, (tuple, list, np.ndarray))),
                    "round %d, key %r: a %s becomes a %s", rnd, k, t, type(row))
            got = leaves(row)
            require(len(got) == len(vs), "round %d, key %r: %d values for %d", rnd, k, len(got), len(vs))
            for a, b in zip(got, vs):
                if case["bits"]:
                    require(isinstance(a, PaillierEncryptedNumber), "round %d, key %r: %r is not encrypted", rnd, k, a)
                d = float(enc.decrypt(a))
                require(abs(d - b) <= 1e-12 * (1 + biggest) * (rnd + 1), "round %d, key %r: the table decrypts to %r, the value given is %r (mode %s, rate %r)",
                        rnd, k, d, b, case["mode"], case["rate"])
        fresh = made == total
        require(fresh or made == expect_new, "round %d: %d of %d values are encrypted afresh, %d belong to new records", rnd, made, total, expect_new)
        if rnd == 0 or case["mode"] == "strict" or (case["mode"] == "balance" and case["rate"] >= 1):
            require(fresh, "round %d in mode %s at rate %r reuses earlier ciphertexts", rnd, case["mode"], case["rate"])
        elif case["mode"] == "fast":
            require(not fresh or expect_new == total, "round %d in fast mode encrypts everything again", rnd)
        if fresh and case["bits"]:
            now = {a.ciphertext(False) for _, row in res for a in leaves(row)}
            require(len(now) == total and not now & raw_seen, "round %d: a fresh encryption repeats a ciphertext", rnd)
            raw_seen |= now
        if rnd and new:
            ctx.label("new keys, all fresh" if fresh else "new keys, the others updated")
        ctx.label("fresh" if fresh else "updated")
    ctx.mark(len(case["rounds"]) > 1 and n > 1 and case["mode"] != "strict")
    ctx.label(case["mode"], case["shape"])


def rates(case, ctx):
    """The share of re-encrypted rounds follows the rate."""
    cnt = Counting(FakeEncrypt())
    calc = EncryptModeCalculator(cnt, "balance", case["rate"])
    m = 400
    fresh = 0
    for r in range(m + 1):
        c = len(cnt.seen)
        calc.encrypt(DTable(False, [float(r)]))
        fresh += len(cnt.seen) > c
    fresh -= 1
    p = case["rate"]
    dev = 6 * (m * p * (1 - p)) ** 0.5 + 1.5
    require(abs(fresh - m * p) <= dev, "%d of %d rounds are re-encrypted at rate %r", fresh, m, p)
    ctx.mark(0 < p < 1)


def tame(x):
    return x if abs(x) >= 1e-12 else 0.0  # denormal-sized values need more digits than a 256-bit key has


def federated(case, ctx):
    """Training uses the configured mode and rate for the gradients of every tree of every class."""
    cfg = dict(case["cfg"], mode=case["mode"][0], rate=case["mode"][1])
    calls = []
    made = []
    real = EncryptModeCalculator.encrypt
    plain = PaillierEncrypt.encrypt

    def counted(self, *a, **kw):
        made.append(self)
        return plain(self, *a, **kw)

    def recorded(self, table):
        given = [(k, [float(x) for x in leaves(v)]) for k, v in table.collect()]
        before = len(made)
        out = real(self, table)
        calls.append((given, len(made) - before, list(out.collect())))
        return out

    f = model.Federation(cfg, len(case["H"]), case["schedule"])
    EncryptModeCalculator.encrypt = recorded
    PaillierEncrypt.encrypt = counted
    try:
        f.fit(*model.tables_of(case))
    finally:
        EncryptModeCalculator.encrypt = real
        PaillierEncrypt.encrypt = plain
    trees = len(f.guest.trees_)
    if not calls:
        return ctx.label("the calculator is not called through its public method")
    require(len(calls) == trees, "%d trees are grown and %d gradient tables encrypted", trees, len(calls))
    mode, rate = case["mode"]
    for t, (given, count, out) in enumerate(calls):
        total = sum(len(v) for _, v in given)
        out = dict(out)
        require(set(out) == {k for k, _ in given}, "tree %d: the encrypted table has keys %r, the gradients %r", t, sorted(out, key=str), given)
        for k, vs in given:
            for a, b in zip(leaves(out[k]), vs):
                require(isinstance(a, PaillierEncryptedNumber), "tree %d, record %r: %r is not encrypted", t, k, a)
                d = float(made[-1].decrypt(a))
                require(abs(d - b) <= 1e-9, "tree %d, record %r: the hosts receive the encryption of %r, the gradient is %r", t, k, d, b)
        if mode == "strict" or (mode == "balance" and rate >= 1) or t == 0:
            require(count == total, "tree %d of %d: in mode %s at rate %r only %d of %d values are encrypted afresh", t, trees, mode, rate, count, total)
        elif t and (mode == "fast" or rate == 0):
            require(count == 0, "tree %d of %d: in mode %s at rate %r %d of %d values are encrypted again", t, trees, mode, rate, count, total)
    if case.get("many") and trees >= 40:
        again = sum(1 for given, count, _ in calls[1:] if count)
        m = trees - 1
        dev = 6 * (m * rate * (1 - rate)) ** 0.5 + 1.5
        require(abs(again - m * rate) <= dev and 0 < again < m, "%d of %d tables are re-encrypted at rate %r", again, m, rate)
    ctx.mark(len(calls) > 2)
    ctx.label(mode, "classes=%s" % (len(set(case["y"])) if cfg.get("task") != "regression" else "-"))


num = st.one_of(st.integers(-5, 5).map(float), st.floats(-1, 1, allow_nan=False).map(tame), st.floats(-100, 100, allow_nan=False).map(tame),
                st.sampled_from([0.0, 0.25, -0.5, 1e-9]))
modes = st.sampled_from([("strict", 1), ("fast", 1), ("fast", 0.2), ("balance", 0), ("balance", 0.0), ("balance", 0.3), ("balance", 0.5), ("balance", 1), ("balance", 1.0)])


def cases(bits):
    return st.tuples(modes, st.fixed_dictionaries({
        "bits": st.sampled_from(bits), "shape": st.sampled_from(sorted(SHAPES)), "n": st.integers(1, 5), "width": st.integers(1, 3), "strkeys": st.booleans(),
        "vary": st.booleans(), "rounds": st.lists(st.lists(num, min_size=1, max_size=6), min_size=1, max_size=6)})).map(
        lambda t: dict(t[1], mode=t[0][0], rate=t[0][1]))


SUBS = [
    Sub("history", cases([256, 320]), history, quick=1200, thorough=20000, shards=8, tshards=8,
        rule="1-6 gradient tables with equal keys through one calculator, every element decrypted each round; non-trivial = several rounds and records, "
             "not strict"),
    Sub("history_long", st.tuples(cases([256]), st.lists(st.lists(num, min_size=1, max_size=3), min_size=12, max_size=25)).map(lambda t: dict(t[0], rounds=t[1], n=2, width=1)),
        history, quick=120, thorough=2000, shards=4, tshards=8, rule="12-25 rounds; non-trivial as history"),
    Sub("changing_keys", st.tuples(cases([256, 0]), st.lists(st.integers(1, 127), min_size=2, max_size=5)).map(lambda t: dict(t[0], n=4, picks=t[1])),
        history, quick=600, thorough=10000, shards=8, tshards=8, rule="as history, with other records or another order every round; non-trivial as history"),
    Sub("history_large", st.tuples(cases([256, 0]), st.sampled_from([65, 129, 200])).map(lambda t: dict(t[0], n=t[1], width=2, rounds=t[0]["rounds"][:3])),
        history, quick=16, thorough=300, shards=4, tshards=8, rule="as history with 65 to 200 records and up to three rounds"),
    Sub("rates", st.fixed_dictionaries({"rate": st.sampled_from([0, 0.1, 0.25, 0.5, 0.75, 0.9, 1])}), rates, quick=7, thorough=14,
        rule="400 rounds per rate; non-trivial = rate strictly between 0 and 1"),
    Sub("federated", st.one_of(gen.federation_case(classes=(3, 4, 2), max_rows=10, max_hosts=2, max_trees=3), gen.federation_case(regression=True, max_rows=10, max_hosts=2, max_trees=3).map(
            lambda c: dict(c, cfg=dict(c["cfg"], objective="lse")))).flatmap(lambda c: modes.map(lambda m: dict(c, mode=list(m)))),
        federated, quick=160, thorough=3000, shards=8, tshards=8,
        rule="federated fits in every mode, with the calculator's calls recorded: one per tree, in the configured mode, decrypting to the gradients given; "
             "non-trivial = more than two trees"),
    Sub("federated_rate", gen.federation_case(classes=(3,), max_rows=5, max_cols=1, max_hosts=1).flatmap(
            lambda c: st.sampled_from([0.3, 0.5, 0.7]).map(lambda r: dict(
                c, many=True, mode=["balance", r], cfg=dict(c["cfg"], max_depth=1, num_trees=20, early_stop=False, lr=0.1)))),
        federated, quick=8, thorough=32, shards=2, tshards=8, rule="as federated, 60 trees in balance mode: the share of re-encrypted tables follows the rate"),
]
ASSUMPTIONS = ["the rows of one calculator's tables have equal shapes"]
