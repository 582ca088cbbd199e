import boot
boot.install()
import bisect
import functools
import math
import pickle

import numpy as np
from hypothesis import strategies as st

import gen
import model
from vf import Sub, Violation, require
from ml.utils import consts

CIPHER = "PaillierEncryptedNumber"
PRIVATE = ("PaillierPrivateKey",)
CLEAR_FEATURES = ("Instance", "SparseVector")


class Walk:
    """Everything reachable from a received object."""

    def __init__(self, obj):
        self.floats, self.ints, self.strs, self.ciphers, self.types, self.fixed = [], [], [], [], set(), []
        self.tables, self.lists, self.splitinfos = [], [], []
        self.cleared = set()
        self.beside = []     # (ciphertext, large integers kept beside it)
        self.seen = set()
        todo = [obj]
        while todo:
            x = todo.pop()
            if x is None or isinstance(x, bool) or isinstance(x, np.bool_):
                continue
            if isinstance(x, (float, np.floating)):
                self.floats.append(float(x))
                continue
            if isinstance(x, (int, np.integer)):
                self.ints.append(int(x))
                continue
            if isinstance(x, (str, bytes)):
                self.strs.append(x)
                continue
            if id(x) in self.seen:
                continue
            self.seen.add(id(x))
            if isinstance(x, np.ndarray):
                todo.extend(x.tolist())
                self.lists.append(x.tolist())
                continue
            if isinstance(x, dict):
                todo.extend(x.keys())
                todo.extend(x.values())
                continue
            if isinstance(x, (list, tuple, set, frozenset)):
                todo.extend(x)
                self.lists.append(list(x))
                continue
            name = type(x).__name__
            self.types.add(name)
            if name == CIPHER:
                self.ciphers.append(x)
                own = x.ciphertext(False)
                todo.extend(v for v in vars(x).values() if not isinstance(v, int))
                self.beside.append((x, [v for v in vars(x).values() if isinstance(v, int) and v != own and v > 2 ** 20]))
                continue
            if name == "FixedPointNumber":
                self.fixed.append(x)
                continue
            if name == "DTable":
                self.tables.append(list(x.collect()))
            if name == "SplitInfo":
                self.splitinfos.append(x)
            todo.extend(getattr(x, "__dict__", {}).values())
            for s in getattr(type(x), "__slots__", ()):
                if hasattr(x, s):
                    todo.append(getattr(x, s))


class Secrets:
    def __init__(self):
        self.v = []

    def add(self, what, values):
        for x in values:
            if isinstance(x, (int, float, np.floating)) and x == x and abs(x) > 1e-12 and abs(x - round(x)) > 1e-9:
                self.v.append((float(x), what))

    def freeze(self):
        self.v.sort()
        self.keys = [a for a, _ in self.v]

    def find(self, x):
        """The secret equal to x up to 1e-9 relative, if any."""
        tol = 1e-9 * (1 + abs(x))
        i = bisect.bisect_left(self.keys, x - tol)
        if i < len(self.keys) and self.keys[i] <= x + tol:
            return self.v[i][1]
        return None


def distinct(case):
    """Moves all data off the integers so that a leaked value can be told from an index."""
    def shift(rows, base):
        return [[v + base + 0.01 * math_frac(j) for j, v in enumerate(r)] for r in rows]

    def math_frac(j):
        return 0.618034 * (j + 1) % 1
    case = dict(case)
    case["G"] = shift(case["G"], 0.413719)
    case["H"] = [shift(h, 0.271828 + 0.0173 * i) for i, h in enumerate(case["H"])]
    case["G2"] = shift(case["G2"], 0.119713)
    case["H2"] = [shift(h, 0.593377 + 0.0173 * i) for i, h in enumerate(case["H2"])]
    if case["cfg"].get("task") == "regression":
        if case["labels"] != "plain":
            case["y"] = [v + 0.357911 for v in case["y"]]
    else:
        case["plain_y"] = list(case["y"])
        if case["labels"] == "int":
            case["y"] = [40009 + 1013 * v for v in case["y"]]
        elif case["labels"] == "str":
            case["y"] = ["label<%d>" % v for v in case["y"]]
    return case


def secret_ints(private_key, n):
    """The factors, whatever the key calls them, and the numbers the key keeps beside them."""
    ints = {int(v) for v in vars(private_key).values() if isinstance(v, int) and v > 2 ** 64}
    fs = {math.gcd(v, n) for v in ints} - {1, n}
    fs |= {n // p for p in fs}
    res = set(fs) | {p * p for p in fs} | {p - 1 for p in fs} | {n + 1 - p - n // p for p in fs} | ints
    return res - {n, n + 1, n * n, n // 3 - 1, n // 3}


@functools.lru_cache(None)
def texts_of(key_ints):
    return [t for k in key_ints if k > 2 ** 40 for t in (str(k), "%x" % k, "%X" % k)]


def secret_texts(key_ints):
    return texts_of(frozenset(key_ints))


def inspect(walk, secrets, key_ints, n, who, phase):
    t = walk.types & set(PRIVATE)
    require(not t, "%s, %s: a private key is sent (%r)", phase, who, t)
    t = walk.types & set(CLEAR_FEATURES)
    require(not t, "%s, %s: records with features are sent (%r)", phase, who, t)
    for x in walk.floats:
        s = secrets.find(x)
        require(s is None, "%s, %s: the message contains %r, which is %s", phase, who, x, s)
    for x in walk.fixed:
        try:
            v = float(x.decode())
        except Exception:
            continue
        s = secrets.find(v)
        require(s is None, "%s, %s: the message contains an encoded number whose value %r is %s", phase, who, v, s)
    for x in walk.ints:
        require(x not in key_ints, "%s, %s: the message contains a secret part of the key", phase, who)
        if x > 2 ** 20 and x not in walk.cleared:
            # numbers that give the factors away
            require(math.gcd(x, n) in (1, n), "%s, %s: the message contains a multiple of a factor of the key", phase, who)
            require(pow(3, x, n) != 1, "%s, %s: the message contains a multiple of the order of the key", phase, who)
            walk.cleared.add(x)
    for x in walk.strs:
        if len(x) > 30:
            t = x if isinstance(x, str) else x.decode("latin1")
            require(not any(s in t for s in secret_texts(key_ints)), "%s, %s: the message contains a secret part of the key in %r", phase, who, t[:80])


def cipher_paths(values):
    """path -> which of the values have a ciphertext / something else there"""
    res = {}
    for k, v in enumerate(values):
        todo = [((), v)]
        while todo:
            path, x = todo.pop()
            if isinstance(x, np.ndarray):
                x = list(x)
            if isinstance(x, (list, tuple)):
                todo.extend((path + (i,), e) for i, e in enumerate(x))
            else:
                a, b = res.setdefault(path, ([], []))
                (a if type(x).__name__ == CIPHER else b).append(x)
    return res


def all_protected(walk, keys, who, phase):
    """Where some records carry a ciphertext, all do; and nothing a guest says about a training record is a real number."""
    def shapes(values):
        return {len(v) if isinstance(v, (list, tuple, np.ndarray)) else -1 for v in values}
    alike = [vs for vs in ([v for _, v in t] for t in walk.tables) if len(shapes(vs)) == 1]
    alike += [vs for vs in walk.lists if len(shapes(vs)) == 1 and -1 not in shapes(vs)]
    for values in alike:
        for path, (enc, clear) in cipher_paths(values).items():
            require(not enc or not clear, "%s, %s: %r stands in the clear where other records have ciphertexts", phase, who, clear[:1])
    if phase == "training":
        for t in walk.tables:
            if t and all(k in keys for k, _ in t):
                for k, v in t:
                    w = Walk(v)
                    require(not w.floats, "%s, %s: the number %r is sent in the clear for record %r", phase, who, w.floats[:1], k)


def no_leak(case, ctx):
    case = distinct(case)
    cfg = case["cfg"]
    reg = cfg.get("task") == "regression"
    f = model.Federation(cfg, len(case["H"]), case["schedule"])
    n = len(case["G"])
    keys = ["id%d" % i for i in range(n)] if case["strkeys"] else [100000 + i for i in range(n)]
    gt = model.table(case["G"], model.header("g", len(case["G"][0])), case["y"], keys=keys)
    hts = [model.table(h, model.header("h%d_" % i, len(h[0])), keys=keys) for i, h in enumerate(case["H"])]
    f.fit(gt, hts)
    m = len(case["G2"])
    keys2 = [200000 + i for i in range(m)]
    gt2 = model.table(case["G2"], model.header("g", len(case["G"][0])), [case["y"][i % n] for i in range(m)], keys=keys2)
    hts2 = [model.table(h, model.header("h%d_" % i, len(h[0])), keys=keys2) for i, h in enumerate(case["H2"])]
    res = f.predict(gt2, hts2)
    trees = model.joined_trees(f.guest, f.hosts)
    base = [sum(case["y"]) / n] if reg else None
    orc = model.check_training(f, case, base=base)

    gs = Secrets()
    for r in case["G"] + case["G2"]:
        gs.add("a feature value of the guest", r)
    if reg:
        gs.add("a label", case["y"])
    for gh in orc.gh_history:
        for t in gh:
            gs.add("the gradient of one record", [g for g, _ in t])
            gs.add("the hessian of one record", [h for _, h in t])
            gs.add("the gradient sum of all records", [sum(g for g, _ in t)])
            gs.add("the hessian sum of all records", [sum(h for _, h in t)])
    for fs in orc.f_history[1:] + [orc.f]:
        gs.add("the score of a training record", [x for v in fs for x in v])
    gs.add("the score of a training record", [float(x) for v in dict(f.guest.F.collect()).values() for x in v])
    for gp in f.guest.trees_:
        gs.add("the weight of a tree node", [nd.weight for nd in gp.tree_])
        gs.add("a threshold of the guest", gp.split_maskdict.values())
    for pts in f.guest.bin_split_points:
        gs.add("a threshold of the guest", [float(x) for x in pts])
    for row in dict(res.collect()).values():
        gs.add("a predicted score", [x for x in row[3].values()] + [row[2]])
    gs.add("the gain of a split", [s[2] for s in orc.splits])
    gs.freeze()
    hs = []
    for i, h in enumerate(f.hosts):
        s = Secrets()
        for r in case["H"][i] + case["H2"][i]:
            s.add("a feature value of host %d" % i, r)
        for pts in h.bin_split_points:
            s.add("a threshold of host %d" % i, [float(x) for x in pts])
        s.freeze()
        hs.append(s)
    pk = f.guest.encrypter.privacy_key
    key_ints = secret_ints(pk, f.guest.encrypter.public_key.n)
    n_, n2 = f.guest.encrypter.public_key.n, f.guest.encrypter.public_key.n ** 2
    labels = set(case["y"])
    yi = None if reg else [sorted(labels).index(v) for v in case["y"]]
    messages = 0
    for phase, log in zip(("training", "prediction"), f.logs):
        for src, dst, blob in log:
            messages += 1
            w = Walk(pickle.loads(blob))
            who = "message %s -> %s" % (src, dst)
            if src == "guest":
                inspect(w, gs, key_ints, n_, who, phase)
                if not reg and case["labels"] != "plain":
                    bad = [x for x in w.ints + w.strs if x in labels]
                    require(not bad, "%s, %s: the message contains the label %r", phase, who, bad[:1])
                for s in w.strs:
                    text = s if isinstance(s, str) else ""
                    require("label<" not in text, "%s, %s: the message contains a label in %r", phase, who, text)
                all_protected(w, set(keys), who, phase)
                for c, ints in w.beside:
                    require(pk.raw_decrypt(c.ciphertext(False)) not in ints, "%s, %s: a ciphertext carries its plaintext", phase, who)
                raw = [c.ciphertext(False) for c in w.ciphers]
                require(len(set(raw)) == len(raw), "%s, %s: two ciphertexts are equal, so equal values show", phase, who)
                for c in w.ciphers:
                    v = c.ciphertext(False)
                    plain = pk.raw_decrypt(v)
                    require(v % n2 != (1 + n_ * plain) % n2, "%s, %s: a ciphertext is not blinded", phase, who)
                if phase == "training" and yi is not None and len(set(yi)) > 1:
                    for t in w.tables:
                        if len(t) == n:
                            d = dict(t)
                            require(vectors_free_of([d.get(k) for k in keys], (yi, case["y"])),
                                    "%s, %s: a table of all records carries their labels", phase, who)
                    for l in w.lists:
                        require(len(l) != n or not (l == yi or l == case["y"]), "%s, %s: a list carries the labels", phase, who)
            else:
                i = int(src[4:])
                inspect(w, hs[i], key_ints, n_, who, phase)
                for si in w.splitinfos:
                    b = getattr(si, "best_bid", None)
                    require(b is None or b == -1, "%s, %s: a split is returned with its bin %r", phase, who, b)
    # what each side keeps
    for t, gp in enumerate(f.guest.trees_):
        mine = set(nd.id for nd in gp.tree_ if not nd.is_leaf and nd.sitename == consts.GUEST)
        require(set(gp.split_maskdict) == mine, "tree %d: the guest keeps thresholds of nodes %r, its nodes are %r", t, sorted(gp.split_maskdict), sorted(mine))
        for i, h in enumerate(f.hosts):
            hp = h.trees_[t]
            own = set(nd.id for nd in trees[t].values() if nd.site == i)
            require(set(hp.split_maskdict) == own, "tree %d: host %d keeps thresholds of nodes %r, its nodes are %r", t, i, sorted(hp.split_maskdict), sorted(own))
            for nd in hp.tree_:
                for x in (nd.weight, nd.bid if isinstance(nd.bid, float) else 0.0):
                    s = gs.find(x)
                    require(s is None, "tree %d: host %d keeps %r of node %d, which is %s", t, i, x, nd.id, s)
    ctx.mark(orc.stats["host_splits"] > 0 and orc.stats["guest_splits"] > 0)
    ctx.label("both sides split" if orc.stats["host_splits"] and orc.stats["guest_splits"] else "one side",
              "mode=%s" % cfg["mode"], "messages>40" if messages > 40 else "messages<=40")


def vectors_free_of(values, targets):
    """No component of the per-record values equals one of the target vectors."""
    cols = {}
    for k, v in enumerate(values):
        todo = [((), v)]
        while todo:
            path, x = todo.pop()
            if isinstance(x, (list, tuple)):
                todo.extend((path + (i,), e) for i, e in enumerate(x))
            elif isinstance(x, (int, float, str)) and not isinstance(x, bool):
                cols.setdefault(path, {})[k] = x
    for c in cols.values():
        if len(c) == len(values):
            vec = [c[k] for k in range(len(values))]
            if any(vec == list(t) for t in targets):
                return False
    return True


@st.composite
def cases(draw, regression=False):
    case = draw(gen.federation_case(regression=regression, max_rows=16))
    m = draw(st.integers(1, 5))
    case["G2"] = draw(gen.rows(m, len(case["G"][0])))
    case["H2"] = [draw(gen.rows(m, len(h[0]))) for h in case["H"]]
    case["labels"] = draw(st.sampled_from(["plain", "int", "str"]))
    case["strkeys"] = draw(st.booleans())
    if regression:
        case["cfg"]["objective"] = "lse"
    return case


SUBS = [
    Sub("classification", cases(), no_leak, quick=240, thorough=4000, shards=6, tshards=8,
        rule="a federated fit and prediction with every message recorded; all objects reachable from each message are searched for secrets; "
             "non-trivial = both guest and host own splits"),
    Sub("regression", cases(True), no_leak, quick=100, thorough=1500, shards=2, tshards=8, rule="as classification"),
]
ASSUMPTIONS = ["a leak is recognised as a value of a secret (up to 1e-9) reachable in a message, an unblinded or repeated ciphertext, or a table "
               "carrying the labels; information flow through ciphertext exponents and through node positions is inherent to the protocol"]
