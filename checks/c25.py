import boot
boot.install()
import csv
import glob
import importlib
import os
import random
import tempfile

import numpy as np
from vf import Sub, require
from hypothesis import strategies as st
from i_o.utils import read_from_csv_with_lable, read_from_csv_with_no_lable
from ml.feature.instance import Instance

guest = importlib.import_module("guest")
host = importlib.import_module("host")

# ------------------------------------------------------------------ reading


def spell(v, how):
    """a spelling of the double v that denotes exactly v"""
    forms = [repr(v), "%.17g" % v, "%.16e" % v, ("%+.17g" % v), " " + repr(v), repr(v) + " ", "%.17G" % v]
    if abs(v) < 1e15 and v == int(v):
        forms += ["%d" % v if v or np.copysign(1, v) > 0 else "-0", "%d." % v if v else repr(v), "%d.000" % v if v else repr(v), "%05d" % v if v > 0 else repr(v)]
    return forms[how % len(forms)]


value = st.one_of(st.integers(-1000, 1000).map(float), st.floats(allow_nan=False, width=64), st.floats(-10, 10),
                  st.sampled_from([0.0, -0.0, 1e-6, 1e-7, 0.1, 1e300, 5e-324, float("inf"), -float("inf"), 123456789.123456789]))
word = st.one_of(st.integers(-5, 10 ** 6).map(str), st.text("abcXYZ019_-. #", min_size=1, max_size=8), st.sampled_from(["1", "0", "1.0", "-1", "yes", "id", "x0", "0001", "é", "日本", "", " a "]))


@st.composite
def csv_case(draw):
    labelled = draw(st.integers(0, 9)) % 2 == 0
    n, c = draw(st.integers(0, 12)), draw(st.integers(0, 6))
    rows = [[draw(value) for _ in range(c)] for _ in range(n)]
    return {"labelled": labelled, "header": draw(st.lists(word, min_size=c, max_size=c)), "ids": draw(st.lists(word, min_size=n, max_size=n)),
            "labels": draw(st.lists(word, min_size=n, max_size=n)), "rows": rows, "how": draw(st.lists(st.integers(0, 20), min_size=1, max_size=8)),
            "end": draw(st.sampled_from(["\n", "\n", "\r\n"])), "last": draw(st.booleans()), "idname": draw(word), "yname": draw(word)}


@st.composite
def long_csv(draw):
    """The rows of a small file over and over, each under an id of its own."""
    c = draw(csv_case().filter(lambda c: c["rows"] and c["header"]))
    n = draw(st.sampled_from([100, 999, 1000, 1025, 3000, 10001]))
    k = len(c["rows"])
    return dict(c, rows=[c["rows"][(i * 7) % k] for i in range(n)], ids=["%s%d" % (c["ids"][i % k], i) for i in range(n)], labels=[c["labels"][(i * 5) % k] for i in range(n)])


def same(a, b):
    return a == b and np.signbit(a) == np.signbit(b)


def read(case, ctx):
    lab, n = case["labelled"], len(case["rows"])
    lines = [",".join([case["idname"]] + ([case["yname"]] if lab else []) + case["header"])]
    k = 0
    for i, r in enumerate(case["rows"]):
        cells = []
        for v in r:
            cells.append(spell(v, case["how"][k % len(case["how"])] + k))
            k += 1
        lines.append(",".join([case["ids"][i]] + ([case["labels"][i]] if lab else []) + cells))
    # a record whose line is empty cannot be told from the end of the file
    text = case["end"].join(lines) + (case["end"] if case["last"] or lines[-1] == "" else "")
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "t.csv")
        with open(path, "w", newline="") as fh:
            fh.write(text)
        for again in range(2):
            if lab:
                header, ids, feats, labels = read_from_csv_with_lable(path)
                require(list(labels) == case["labels"], "labels %r are read as %r", case["labels"], labels)
            else:
                header, ids, feats = read_from_csv_with_no_lable(path)
            require(list(header) == case["header"], "the header %r is read as %r", lines[0], header)
            require(list(ids) == case["ids"], "the ids %r are read as %r", case["ids"], ids)
            require(len(feats) == n, "%d rows, %d feature vectors", n, len(feats))
            for i, r in enumerate(case["rows"]):
                f = feats[i]
                require(isinstance(f, np.ndarray) and f.shape == (len(r),), "the features of row %d are %r", i, f)
                require(all(same(float(a), b) for a, b in zip(f, r)), "row %r is read as %r instead of %r", lines[i + 1], list(f), r)
        with open(path, newline="") as fh:
            require(fh.read() == text, "reading changes the file")
    ctx.mark(n > 1 and len(case["header"]) > 0)
    ctx.label("labelled" if lab else "unlabelled", "rows" if n else "empty")


def shipped_files():
    return sorted(os.path.relpath(p, boot.REPO) for p in glob.glob(os.path.join(boot.REPO, "data", "*", "*.csv")))


def shipped(case, ctx):
    path = os.path.join(boot.REPO, case)
    with open(path, newline="") as fh:
        rows = list(csv.reader(fh))
    lab = rows[0][1] == "y" or (os.path.basename(path).endswith("_guest.csv"))
    out = read_from_csv_with_lable(path) if lab else read_from_csv_with_no_lable(path)
    k = 2 if lab else 1
    require(list(out[0]) == rows[0][k:] and list(out[1]) == [r[0] for r in rows[1:]], "%s: header or ids differ", case)
    require(all(np.array_equal(f, [float(x) for x in r[k:]]) for f, r in zip(out[2], rows[1:])) and len(out[2]) == len(rows) - 1, "%s: features differ", case)
    if lab:
        require(list(out[3]) == [r[1] for r in rows[1:]], "%s: labels differ", case)
    ctx.mark()


# ------------------------------------------------------------------ splitting


def items(n, kind):
    if kind == "ints":
        return list(range(n))
    if kind == "equal":
        return [Instance(inst_id="same", features=np.zeros(1)) for _ in range(n)]
    return [Instance(inst_id="r%d" % i, features=np.array([float(i)]), label=str(i % 2)) for i in range(n)]


def disturb(k):
    random.seed(k)
    for _ in range(k % 5):
        random.random()
    np.random.seed(k % 1000)


def split(case, ctx):
    n, ratio, seed, shuffle = case["n"], case["ratio"], case["seed"], case["shuffle"]
    if seed is None and shuffle:
        seed = 2
    got = {}
    for who, mod, kind in (("guest", guest, "inst"), ("host", host, "ints"), ("host 2", host, "inst"), ("guest again", guest, "equal"), ("host last", host, "equal")):
        if who == "guest again" or who == "host last":
            disturb(case["noise"] + 1)
        else:
            disturb(case["noise"] * 3 + len(who))
        xs = items(n, kind)
        pos = {id(x): i for i, x in enumerate(xs)} if kind != "ints" else None
        orig = list(xs)
        a, b = mod.data_split(xs, ratio, shuffle, seed) if case["positional"] else mod.data_split(xs, ratio, shuffle=shuffle, random_seed=seed)
        a, b = list(a), list(b)
        ia = [pos[id(x)] if pos is not None else x for x in a]
        ib = [pos[id(x)] if pos is not None else x for x in b]
        require(sorted(ia + ib) == list(range(n)), "%s: splitting %d records at %r gives %r and %r", who, n, ratio, ia, ib)
        require(abs(len(ia) - n * ratio) <= 1 + 1e-9, "%s: %d of %d records for a proportion of %r", who, len(ia), n, ratio)
        got[who] = (ia, ib)
        del orig
    first = got["guest"]
    for who, v in got.items():
        require(v == first, "splitting %d records at %r with seed %r: the guest selects %r, %s selects %r", n, ratio, seed, first, who, v)
    if not shuffle:
        require(first[0] + first[1] == list(range(n)), "splitting without shuffling reorders: %r", first)
    ctx.mark(n > 3 and 0 < len(first[0]) < n and shuffle)
    ctx.label("shuffle" if shuffle else "in order", "n<10" if n < 10 else "n>=10")


def shuffled(case, ctx):
    """with shuffling and many records, the selection is not simply a prefix, and depends on the seed"""
    n, seed = case["n"], case["seed"]
    sel = []
    for s in (seed, seed + 1):
        a, b = guest.data_split(list(range(n)), 0.5, True, s)
        sel.append((list(a), list(b)))
    require(sel[0][0] + sel[0][1] != list(range(n)), "splitting %d records with shuffling keeps their order", n)
    require(sel[0] != sel[1], "seeds %d and %d select the same of %d records in the same order", seed, seed + 1, n)
    ctx.mark()


ratio = st.one_of(st.floats(0, 1), st.integers(0, 100).map(lambda v: v / 100), st.sampled_from([0.0, 0.5, 0.7, 0.8, 0.29, 0.999, 1.0, 1 / 3]))
SUBS = [
    Sub("reading", csv_case(), read, quick=2500, thorough=40000, shards=2, tshards=8,
        rule="tables of up to 12 rows written with many spellings of each number, with and without label column, line ends of both kinds; non-trivial = rows and columns"),
    Sub("reading long files", long_csv(), read, quick=24, thorough=300, shards=4, tshards=8, rule="as reading with 100 to 10001 rows"),
    Sub("shipped files", None, shipped, quick=1, exhaustive=shipped_files, rule="every data file of the repository against an independent reader"),
    Sub("splitting", st.fixed_dictionaries({"n": st.one_of(st.integers(0, 12), st.integers(0, 300), st.integers(0, 300), st.sampled_from([999, 1000, 1001, 1023, 1024, 1025, 2049, 4097, 10001]), st.integers(300, 6000)), "ratio": ratio, "seed": st.one_of(st.none(), st.integers(0, 10 ** 6), st.just(2)),
                                            "shuffle": st.sampled_from([True, True, True, False]), "noise": st.integers(0, 1000), "positional": st.booleans()}), split,
        quick=2000, thorough=40000, shards=2, tshards=8, rule="the splits of both programs over any lists of n records, with the random generators disturbed in between; non-trivial = shuffled, both parts non-empty"),
    Sub("shuffling", st.fixed_dictionaries({"n": st.integers(60, 200), "seed": st.integers(0, 10 ** 6)}), shuffled, quick=200, thorough=2000,
        rule="60..200 records: the chance of a shuffle in order is below 1e-80"),
]
ASSUMPTIONS = ["cells contain no comma, quote or line break", "the whole file is in the interpreter's default encoding"]
