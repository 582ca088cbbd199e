import boot
boot.install()
import numpy as np
from vf import Sub, require
from hypothesis import strategies as st
from computing.d_table import DTable


def order(v):
    return (type(v).__name__, repr(v))


def pick(a, b):
    return a if order(a) >= order(b) else b


def is_none(v):
    return v is None


MAP = {"pair": lambda k, v: (k, v), "value": lambda k, v: v, "none": lambda k, v: None, "text": lambda k, v: "%r/%r" % (k, v), "wrap": lambda k, v: [v], "key": lambda k, v: k,
       "size": lambda k, v: len(repr(v)), "falsy": lambda k, v: [0, "", None, False, []][len(repr(k)) % 5]}
FILTER = {"int key": lambda k, v: isinstance(k, int), "truth": lambda k, v: v, "none": lambda k, v: v is None, "not none": lambda k, v: v is not None, "all": lambda k, v: True,
          "nothing": lambda k, v: False, "np": lambda k, v: np.bool_(len(repr(k)) % 2), "text": lambda k, v: "yes" if isinstance(v, str) else "",
          "number": lambda k, v: len(repr(v)) % 3, "short": lambda k, v: len(repr(v)) < 4, "nothing2": lambda k, v: None}
PAIR = {"first": lambda a, b: a, "second": lambda a, b: b, "both": lambda a, b: (a, b), "none": lambda a, b: None, "text": lambda a, b: "%r-%r" % (a, b), "falsy": lambda a, b: 0}
REDUCE = {"max": pick, "absorb": lambda a, b: None if a is None or b is None else pick(a, b), "none": lambda a, b: None, "zero": lambda a, b: 0}
SIZES = {"len": lambda k, v: len(repr(v)), "one": lambda k, v: 1, "neg": lambda k, v: -len(repr(k))}


def group_of(k, v):
    return [len(repr(k)) % 3, type(v).__name__, repr(v)[:1]]


def view(m):
    return {order(k): (k, order(v)) for k, v in m}


def same(t, model, what, *args):
    require(isinstance(t, DTable), what + " returns %r", *args, type(t))
    got = list(t.collect())
    require(len(got) == len(model), what + " gives %r, expected %r", *args, got, model)
    for k, v in got:
        require(k in model and order(model[k]) == order(v), what + ": at key %r %r, expected %r", *args, k, v, model.get(k, "no such key"))
    require(t.count() == len(model), what + ": count %r, expected %d", *args, t.count(), len(model))


def bad_items(case, ctx):
    kind, base = case["kind"], [(k, v) for k, v in case["items"]]
    pos = min(case["pos"], len(base))

    def refused(f, what):
        try:
            r = f()
        except (TypeError, ValueError):
            return
        require(False, "%s is accepted: %r", what, r)

    if kind == "duplicate":
        if base:
            k = base[case["pos"] % len(base)][0]
            if isinstance(k, int) and case["alias"]:
                k = float(k)
            refused(lambda: DTable(True, base[:pos] + [(k, "x")] + base[pos:]), "a list with key %r twice" % (k,))
            ctx.mark()
    elif kind == "item":
        item = [5, None, "ab", [1, 2], (1,), (1, 2, 3), (), {1: 2}][case["which"] % 8]
        refused(lambda: DTable(True, base[:pos] + [item] + base[pos:]), "the item %r" % (item,))
        ctx.mark()
    elif kind == "flag":
        flag = [1, 0, None, "True", [], 1.0][case["which"] % 6]
        refused(lambda: DTable(flag, base), "the flag %r" % (flag,))
        ctx.mark()
    else:
        data = [tuple(base), dict(base), iter(base), 5, "ab", range(3)][case["which"] % 6]
        refused(lambda: DTable(case["alias"], data), "data of type %s" % type(data).__name__)
        ctx.mark()
    # a refusal does not depend on anything but the arguments
    same(DTable(True, list(base)), dict(base), "a table of %r", base)
    same(DTable(True), {}, "a table of nothing")
    same(DTable(False), {}, "a table of nothing")


def history(case, ctx):
    pool = []

    def add(t, m, text):
        pool.append((t, m, text))

    for flag, items in case["tables"]:
        data = list(items) if flag else [v for _, v in items]
        keep = list(data)
        t = DTable(flag, data)
        m = dict(items) if flag else dict(enumerate(v for _, v in items))
        add(t, m, "t%d" % len(pool))
        require(len(data) == len(keep) and all(order(a) == order(b) for a, b in zip(data, keep)), "creating a table changes the list it was given")
        data.append((("unseen",), 1) if flag else 1)
        same(t, m, "the table created from %r, after that list grew,", keep)
    for i, (op, a, b, fn, n) in enumerate(case["ops"]):
        t, m, name = pool[a % len(pool)]
        u, w, uname = pool[b % len(pool)]

        def f(table):
            return sorted(table)[fn % len(table)]
        text = "%s.%s" % (name, op)
        if op == "map":
            text += "(%s)" % f(MAP)
            add(t.map(MAP[f(MAP)]), {k: MAP[f(MAP)](k, v) for k, v in m.items()}, text)
        elif op == "mapValues":
            g = MAP[f(MAP)]
            text += "(%s)" % f(MAP)
            add(t.mapValues(lambda v: g(0, v)), {k: g(0, v) for k, v in m.items()}, text)
        elif op == "mapPartitions":
            g = MAP[f(MAP)]
            r = t.mapPartitions(lambda part: [g(k, v) for k, v in part])
            got = sorted(order(v) for _, v in r.collect())
            require(got == sorted(order(g(k, v)) for k, v in m.items()), "%s(%s per record) gives %r for %r", text, f(MAP), got, m)
            s = SIZES[f(SIZES)]
            r = t.mapPartitions(lambda part: [sum(s(k, v) for k, v in part)])
            require(sum(v for _, v in r.collect()) == sum(s(k, v) for k, v in m.items()), "%s(sum of %s) gives %r for %r", text, f(SIZES), list(r.collect()), m)
        elif op == "mapReducePartitions":
            s = SIZES[f(SIZES)]
            def mapper(part):
                return [(g, s(k, v)) for k, v in part for g in group_of(k, v)[:1 + n % 3]]
            want = {}
            for g, x in mapper(m.items()):
                want[g] = want[g] + x if g in want else x
            add(t.mapReducePartitions(mapper, lambda x, y: x + y), want, "%s(sums of %s)" % (text, f(SIZES)))
            def mapper2(part):
                return [(g, [None, v, 0][n % 3]) for k, v in part for g in group_of(k, v)]
            want = {}
            for g, x in mapper2(m.items()):
                want[g] = REDUCE["absorb"](want[g], x) if g in want else x
            same(t.mapReducePartitions(mapper2, REDUCE["absorb"]), want, "%s(absorb)", text)
        elif op == "reduce":
            s = SIZES[f(SIZES)]
            r = t.map(s).reduce(lambda x, y: x + y)
            require(r == (sum(s(k, v) for k, v in m.items()) if m else None), "%s(sum) gives %r for %r", text, r, m)
            g = REDUCE[f(REDUCE)]
            want = None
            for j, v in enumerate(m.values()):
                want = v if j == 0 else g(want, v)
            r = t.reduce(g)
            require(order(r) == order(want), "%s(%s) gives %r instead of %r for %r", text, f(REDUCE), r, want, m)
        elif op == "filter":
            g = FILTER[f(FILTER)]
            add(t.filter(g), {k: v for k, v in m.items() if g(k, v)}, "%s(%s)" % (text, f(FILTER)))
        elif op in ("join", "union"):
            g = PAIR[f(PAIR)]
            text += "(%s, %s)" % (uname, f(PAIR))
            both = {k: g(m[k], w[k]) for k in m if k in w}
            if f(PAIR) == "first" and n % 2:
                r = getattr(t, op)(u)
            else:
                r = getattr(t, op)(u, func=g) if n % 3 else getattr(t, op)(u, g)
            add(r, both if op == "join" else {**w, **m, **both}, text)
        elif op == "subtractByKey":
            add(t.subtractByKey(u), {k: v for k, v in m.items() if k not in w}, "%s(%s)" % (text, uname))
        elif op == "grow":  # combining lists in place must not reach back into the table
            l1, l2 = t.mapValues(lambda v: [v]), u.mapValues(lambda v: [v])
            def ext(x, y):
                x.extend(y)
                return x
            r = l1.union(l2, func=ext)
            want = {k: [v] for k, v in list(w.items()) + list(m.items())}
            want.update({k: [m[k], w[k]] for k in m if k in w})
            same(r, want, "%s(union extending lists)", text)
            same(l1, {k: [v] for k, v in m.items()}, "%s: the first table after a union that extends lists", text)
            same(l2, {k: [v] for k, v in w.items()}, "%s: the second table after a union that extends lists", text)
        elif op == "take":
            r = t.take(n)
            require(type(r) is list and len(r) == min(n, len(m)), "%s(%d) gives %r for %d records", text, n, r, len(m))
            require(len(set(k for k, _ in r)) == len(r) and all(k in m and order(m[k]) == order(v) for k, v in r), "%s(%d) gives %r for %r", text, n, r, m)
            if n == 1:
                require(t.take() == r, "%s() gives %r", text, t.take())
        elif op == "first":
            r = t.first()
            require((not m and r is None) or any(order(r) == order(v) for v in m.values()), "%s() gives %r for %r", text, r, m)
        elif op == "keys":
            require(sorted(map(order, t.get_keys())) == sorted(map(order, m)), "%s: %r for %r", text, list(t.get_keys()), m)
            require(sorted(map(order, t.get_values())) == sorted(map(order, m.values())), "%s: %r for %r", text, list(t.get_values()), m)
            require(view(t.get_kvs()) == view(m.items()), "%s: %r for %r", text, list(t.get_kvs()), m)
        elif op == "schema":
            t.schema = {"header": [i]}
            require(t.schema == {"header": [i]}, "the schema set is %r", t.schema)
            require(DTable(False, [1]).schema == {}, "a new table has schema %r", DTable(False, [1]).schema)
        for t2, m2, nm in pool:
            same(t2, m2, "after %s, table %s", text, nm)
        if len(pool) > 7:
            del pool[0]
        ctx.label(op)
        ctx.mark(bool(m) and i > 0)


keyst = st.one_of(st.integers(-2, 4), st.sampled_from(["a", "b", "", "tt", None, (1, 2), ("a",), 2.5]))
valst = st.one_of(st.none(), st.booleans(), st.integers(-3, 3), st.floats(-2, 2), st.sampled_from(["", "x", "pp", (), (1,), [], [0], {}, {"a": 1}, 0.0, float("inf")]), st.integers())
items = st.lists(st.tuples(keyst, valst), max_size=8, unique_by=lambda kv: kv[0])
OPS = ["map", "mapValues", "mapPartitions", "mapReducePartitions", "reduce", "filter", "filter", "join", "join", "union", "union", "subtractByKey", "grow", "take", "first", "keys", "schema"]
ops = st.tuples(st.sampled_from(OPS), st.integers(0, 7), st.integers(0, 7), st.integers(0, 20), st.integers(0, 9))

SUBS = [
    Sub("history", st.fixed_dictionaries({"tables": st.lists(st.tuples(st.booleans(), items), min_size=1, max_size=3), "ops": st.lists(ops, min_size=1, max_size=12)}),
        history, quick=16000, thorough=400000, shards=8, tshards=8,
        rule="1-3 tables and 1-12 operations on them and on their results, every live table compared with its dictionary after each; "
             "non-trivial = a later operation on a non-empty table"),
    Sub("large", st.fixed_dictionaries({"tables": st.lists(st.tuples(st.booleans(), st.integers(20, 300).flatmap(lambda n: st.integers(0, 50).map(
        lambda s: [((i * 7 + s) % 401, (i * i + s) % 13 or None) for i in range(n)]))), min_size=2, max_size=2), "ops": st.lists(ops, min_size=1, max_size=6)}),
        history, quick=800, thorough=10000, shards=8, tshards=8, rule="two tables of 20-300 records and 1-6 operations; non-trivial as history"),
    Sub("very large", st.fixed_dictionaries({"tables": st.lists(st.tuples(st.booleans(), st.integers(1000, 6000).flatmap(lambda n: st.integers(0, 50).map(
        lambda s: [((i * 7 + s) % 7001, (i * i + s) % 13 or None) for i in range(n)]))), min_size=2, max_size=2), "ops": st.lists(ops, min_size=1, max_size=3)}),
        history, quick=48, thorough=800, shards=8, tshards=8, rule="two tables of 1000-6000 records and 1-3 operations; non-trivial as history"),
    Sub("creation", st.fixed_dictionaries({"kind": st.sampled_from(["duplicate", "item", "flag", "data"]), "items": items, "pos": st.integers(0, 8), "which": st.integers(0, 8), "alias": st.booleans()}),
        bad_items, quick=4000, thorough=40000, shards=2, tshards=4, rule="duplicate keys, malformed items, wrong flags and wrong containers at every position; all non-trivial except duplicates of nothing"),
]
ASSUMPTIONS = ["functions handed to reduce and mapReducePartitions are associative and commutative", "the order of records in a table is not checked (the interface does not promise one)"]
