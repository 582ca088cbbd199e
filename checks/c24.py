import boot
boot.install()
import copy
import io
import contextlib

import gen
import model
from vf import Sub, Skip, require
from hypothesis import strategies as st
from checks import c08
from ml.param import base_param
from ml.param.boosting_tree_param import BoostingTreeParam, DecisionTreeParam, ObjectiveParam
from ml.param.cross_validation_param import CrossValidationParam
from ml.param.encrypt_param import EncryptParam
from ml.param.encrypted_mode_calculation_param import EncryptedModeCalculatorParam
from ml.param.evaluation_param import EvaluateParam
from ml.param.feature_binning_param import FeatureBinningParam, TransformParam
from ml.param.predict_param import PredictParam
from ml.utils.param_extract import ParamExtract

# ------------------------------------------------------------------ what the documentation allows
# per field: a strategy of values it allows and a strategy of values it forbids (None: nothing to say);
# values about which the documentation says nothing occur in neither.

flt = st.one_of(st.floats(-10, 10), st.sampled_from([0.1, 1e-3, 1e-9, 1e9]))
num = st.one_of(flt, st.integers(-5, 100))
pos_int = st.one_of(st.integers(1, 40), st.sampled_from([1, 2, 1024, 65536, 10 ** 6]))
STR = st.sampled_from(["", "5", "abc", "true", "none", "0.5"])
OTHER = st.sampled_from([[], [1], {}, (), (1,), b"x", 1j])
BOOL = st.booleans()


def cased(*names):
    """the given option names in any letter case"""
    return st.tuples(st.sampled_from(names), st.integers(0, 2 ** 14)).map(
        lambda t: "".join(c.upper() if t[1] >> (i % 14) & 1 else c.lower() for i, c in enumerate(t[0])))


BADNAME = st.sampled_from(["", "x", "xgboost ", "unknown", "split2", " gain", "paillier2", "lse,lae", "xg", "none", "multi-class"])
not_int = st.one_of(st.floats(allow_nan=False, allow_infinity=False), STR, OTHER, st.none())
not_num = st.one_of(STR, OTHER, st.none())
not_bool = st.one_of(st.sampled_from([0, 1, 1.0, "true", "True", "", None]), OTHER)
not_name = st.one_of(BADNAME, st.integers(-3, 3), OTHER, flt, BOOL)
nonpos = st.one_of(st.sampled_from([0, -1]), st.integers(-50, 0))

SPEC = {
    "DecisionTreeParam": (DecisionTreeParam, {
        "criterion_method": (cased("xgboost"), st.one_of(not_name, st.none())),
        "criterion_params": (st.lists(num, min_size=1, max_size=3), st.one_of(st.just([]), not_num.filter(lambda v: not isinstance(v, list)), num, not_num.map(lambda v: [v]))),
        "max_depth": (pos_int, st.one_of(not_int, nonpos)),
        "min_sample_split": (pos_int, not_int),
        "min_impurity_split": (num, not_num),
        "min_leaf_node": (pos_int, not_int),
        "max_split_nodes": (st.integers(1, 65536), st.one_of(not_int, nonpos)),
        "n_iter_no_change": (BOOL, not_bool),
        "feature_importance_type": (cased("split", "gain"), st.one_of(not_name, st.none())),
        "tol": (num, not_num)}),
    "EncryptParam": (EncryptParam, {
        "method": (st.one_of(cased("paillier"), st.sampled_from(["none", "rsa", "plain"])), st.one_of(num, OTHER, BOOL)),
        "key_length": (pos_int, st.one_of(not_int, nonpos))}),
    "PredictParam": (PredictParam, {
        "with_proba": (BOOL, not_bool),
        "threshold": (num, not_num)}),
    "EncryptedModeCalculatorParam": (EncryptedModeCalculatorParam, {
        "mode": (cased("strict", "fast", "balance"), st.one_of(not_name, st.none())),
        "re_encrypted_rate": (num, None)}),
    "TransformParam": (TransformParam, {
        "transform_cols": (st.one_of(st.none(), st.just(-1), st.lists(st.integers(0, 9), max_size=4)), st.one_of(STR, st.integers(0, 5), flt, st.just({}))),
        "transform_type": (st.sampled_from(["bin_num", None]), st.one_of(BADNAME, st.integers(0, 5), st.just("woe"), st.just([])))}),
    "FeatureBinningParam": (FeatureBinningParam, {
        "method": (cased("quantile"), st.one_of(not_name, st.none())),
        "compress_thres": (pos_int, st.one_of(not_int, nonpos)),
        "head_size": (pos_int, st.one_of(not_int, nonpos)),
        "error": (st.one_of(st.floats(0, 0.999), st.sampled_from([0.0, 0.001, 0.5])), st.one_of(not_num, st.floats(1.0, 9.0), st.floats(-9, -1e-6), st.just(1.0))),
        "bin_num": (pos_int, st.one_of(not_int, nonpos)),
        "cols": (st.one_of(st.just(-1), st.lists(st.integers(0, 9), max_size=4), st.integers(0, 9)), st.one_of(STR, flt, st.just({}), st.none())),
        "adjustment_factor": (st.floats(0.001, 0.999), st.one_of(not_num, st.sampled_from([0.0, 1.0, 1.5, -0.2]))),
        "transform_param": ("TransformParam", "TransformParam"),
        "local_only": (BOOL, not_bool)}),
    "EvaluateParam": (EvaluateParam, {
        "eval_type": (cased("binary", "multi", "regression"), st.one_of(not_name.filter(lambda v: v != "multi"), st.none())),
        "pos_label": (st.one_of(num, st.sampled_from(["", "a", "1"])), OTHER)}),
    "CrossValidationParam": (CrossValidationParam, {
        "n_splits": (pos_int, st.one_of(not_int, nonpos)),
        "mode": (cased("hetero", "homo"), st.one_of(not_name, st.none())),
        "role": (cased("guest", "host", "arbiter"), st.one_of(not_name, st.none())),
        "shuffle": (BOOL, not_bool),
        "random_seed": (pos_int, not_int),
        "evaluate_param": ("EvaluateParam", "EvaluateParam")}),
    "BoostingTreeParam": (BoostingTreeParam, {
        "task_type": (st.sampled_from(["classification", "regression"]), st.one_of(not_name, st.none())),
        "tree_param": ("DecisionTreeParam", "DecisionTreeParam"),
        "objective_param": ("ObjectiveParam", "ObjectiveParam"),
        "learning_rate": (num, not_num),
        "num_trees": (pos_int, st.one_of(STR, OTHER, st.none(), nonpos)),
        "subsample_feature_rate": (st.one_of(st.floats(0, 1), st.sampled_from([0, 1])), st.one_of(not_num, st.sampled_from([-0.01, 1.01, -1, 2]))),
        "n_iter_no_change": (BOOL, not_bool),
        "tol": (num, not_num),
        "encrypt_param": ("EncryptParam", "EncryptParam"),
        "bin_num": (st.integers(2, 300), st.one_of(not_int, st.integers(-10, 1))),
        "encrypted_mode_calculator_param": ("EncryptedModeCalculatorParam", "EncryptedModeCalculatorParam"),
        "predict_param": ("PredictParam", "PredictParam"),
        "cv_param": ("CrossValidationParam", "CrossValidationParam")}),
}
NAMES = {"criterion_method", "feature_importance_type", "mode", "role", "eval_type", "objective"}
REG = ["lse", "lae", "huber", "fair", "log_cosh", "tweedie"]


@st.composite
def objective(draw, task, good):
    """(objective, params) a task accepts, or refuses"""
    if good:
        if draw(st.integers(0, 7)) == 0:
            return {"objective": None, "params": None}
        if task == "classification":
            return {"objective": draw(cased("cross_entropy")), "params": None}
        o = draw(cased(*(REG + (["cross_entropy"] if task is None else []))))
        p = None
        if task is not None and o.lower() in ("huber", "fair"):
            p = [draw(st.one_of(st.floats(1e-3, 20), st.integers(1, 9)))] + draw(st.lists(num, max_size=1))
        elif task is not None and o.lower() == "tweedie":
            p = [draw(st.one_of(st.floats(1.0, 1.999), st.sampled_from([1.0, 1])))] + draw(st.lists(num, max_size=1))
        return {"objective": o, "params": p}
    kind = draw(st.sampled_from(["name", "task", "params"]))
    if kind == "name" or task is None:
        return {"objective": draw(not_name), "params": [1.5]}
    if kind == "task":
        return {"objective": draw(cased(*REG)) if task == "classification" else "cross_entropy", "params": [1.5]}
    if task == "classification":
        return {"objective": draw(cased(*REG)), "params": [1.5]}
    o = draw(cased("huber", "fair", "tweedie"))
    bad = st.one_of(st.just([]), st.none(), flt, STR, st.just((1.5,)), st.just({}), not_num.map(lambda v: [v]), st.sampled_from([[0], [0.0], [-1.0], [-2]]))
    if o.lower() == "tweedie":
        bad = st.one_of(bad, st.sampled_from([[2.0], [2], [0.999], [2.5]]))
    return {"objective": o, "params": draw(bad)}


@st.composite
def fields(draw, name, bad_path, task):
    """{field: value}; bad_path: names of the nested fields down to the wrong one, or ()"""
    if name == "ObjectiveParam":
        return draw(objective(task, not bad_path))
    out = {}
    if name == "BoostingTreeParam":
        task = out["task_type"] = draw(st.sampled_from(["classification", "regression"]))
    for f, (good, bad) in SPEC[name][1].items():
        here = bad_path and bad_path[0] == f
        if isinstance(good, str):
            if here or draw(st.integers(0, 2)) == 0:
                out[f] = draw(fields(good, bad_path[1:] if here else (), task))
        elif here:
            out[f] = draw(bad)
        elif f not in out and draw(st.integers(0, 3)) != 0:
            out[f] = draw(good)
    if name == "BoostingTreeParam":
        if task == "regression" and "objective_param" not in out:
            out["objective_param"] = draw(objective(task, True))   # the default objective is for classification
    return out


def paths(name):
    if name == "ObjectiveParam":
        return [("objective",)]
    out = []
    for f, (good, bad) in SPEC[name][1].items():
        if isinstance(good, str):
            out += [(f,) + p for p in paths(good)]
        elif bad is not None:
            out.append((f,))
    return out


CLASSES = sorted(SPEC) + ["ObjectiveParam"]


@st.composite
def case_of(draw, bad):
    name = draw(st.sampled_from(CLASSES + ["BoostingTreeParam"] * 5))
    task = draw(st.sampled_from([None, "classification", "regression"]))
    path = ()
    if bad:
        ps = paths(name)
        path = ps[(draw(st.integers(0, 10 ** 6)) * 31 + len(name)) % len(ps)]
    return {"cls": name, "task": task, "path": list(path), "fields": draw(fields(name, path, task))}


def build(name, fs, how):
    cls = ObjectiveParam if name == "ObjectiveParam" else SPEC[name][0]
    kw, later = {}, {}
    for f, v in fs.items():
        sub = None if name == "ObjectiveParam" or f not in SPEC[name][1] else SPEC[name][1][f][0]
        if isinstance(sub, str):
            v = build(sub, v, how)
        else:
            v = copy.deepcopy(v)
        if how == "set":
            later[f] = v
        else:
            kw[f] = v
    o = cls(**kw)
    for f, v in later.items():
        setattr(o, f, v)
    return o


def state(o):
    if hasattr(o, "__dict__") and isinstance(o, base_param.BaseParam):
        return {k: state(v) for k, v in vars(o).items() if k not in ("builtin_types", "func")}
    return copy.deepcopy(o)


def run_check(o, name, task):
    with contextlib.redirect_stdout(io.StringIO()):
        return o.check(task) if name == "ObjectiveParam" else o.check()


def compare(before, after, fs, where=""):
    for k in set(before) | set(after):
        require(k in before and k in after, "checking adds or removes %s%s", where, k)
        b, a = before[k], after[k]
        if isinstance(b, dict) and isinstance(a, dict):
            compare(b, a, fs.get(k, {}) if isinstance(fs.get(k), dict) else {}, where + k + ".")
        elif k in NAMES and isinstance(b, str):
            require(a == b.lower(), "checking turns %s%s = %r into %r", where, k, b, a)
        elif k == "method" and isinstance(b, str):
            require(a == b or a.lower() == b.lower(), "checking turns %s%s = %r into %r", where, k, b, a)
            require(b.lower() not in ("paillier", "quantile") or a == {"paillier": "Paillier", "quantile": "quantile"}[b.lower()], "checking turns %s%s = %r into %r", where, k, b, a)
        else:
            require(type(a) is type(b) and repr(a) == repr(b), "checking turns %s%s = %r into %r", where, k, b, a)


def accepted(case, ctx):
    name, task = case["cls"], case["task"]
    for how in ("kw", "set"):
        o = build(name, case["fields"], how)
        before = state(o)
        for f, v in case["fields"].items():
            if not isinstance(v, dict):
                require(repr(before[f]) == repr(v), "%s(%s=%r) has %s = %r", name, f, v, f, before[f])
        try:
            run_check(o, name, task)
        except Exception as e:
            require(False, "%s with %r is refused: %s: %s", name, case["fields"], type(e).__name__, e)
        after = state(o)
        compare(before, after, case["fields"])
        run_check(o, name, task)
        require(repr(state(o)) == repr(after), "checking %s twice changes it from %r to %r", name, after, state(o))
    ctx.mark(len(case["fields"]) > 0)
    ctx.label(name)


def refused(case, ctx):
    name, task = case["cls"], case["task"]
    o = build(name, case["fields"], "set")
    try:
        run_check(o, name, task)
    except Exception as e:
        # refused; an error that is not about the value would be an accident
        require(isinstance(e, (ValueError, TypeError)), "%s with %s of %r is refused with %r", name, ".".join(case["path"]), case["fields"], e)
        ctx.mark()
        ctx.label(name + "." + case["path"][0])
        return
    v = case["fields"]
    for p in case["path"] if name != "ObjectiveParam" and case["path"][0] != "objective_param" else case["path"][:1]:
        v = v.get(p, v) if isinstance(v, dict) else v
    require(False, "%s accepts %s = %r (task %r)", name, ".".join(case["path"]), v, task)


EDGES = {}   # (class, field): (values just inside, values just outside)
for _c, _f in (("DecisionTreeParam", "max_depth"), ("DecisionTreeParam", "max_split_nodes"), ("EncryptParam", "key_length"), ("FeatureBinningParam", "compress_thres"),
               ("FeatureBinningParam", "head_size"), ("FeatureBinningParam", "bin_num"), ("CrossValidationParam", "n_splits"), ("BoostingTreeParam", "num_trees")):
    EDGES[_c, _f] = ([1, 2], [0, -1])
EDGES["BoostingTreeParam", "bin_num"] = ([2, 3], [1, 0, -1, 2.0])
EDGES["BoostingTreeParam", "subsample_feature_rate"] = ([0, 1, 0.0, 1.0, 1e-9, 1 - 1e-9], [-1e-9, 1 + 1e-9, 2, -1])
EDGES["FeatureBinningParam", "error"] = ([0.0, 1e-9, 1 - 1e-9], [1.0, -1e-9, 1.5])
EDGES["FeatureBinningParam", "adjustment_factor"] = ([1e-9, 1 - 1e-9], [0.0, 1.0, -1e-9])
for _o, _in, _out in (("tweedie", [1, 1.0, 1.999], [0.999, 2, 2.0, 2.5, 3, 0, -1]), ("huber", [1e-9, 1, 3], [0, 0.0, -1e-9, -1]), ("fair", [1e-9, 1, 3], [0, 0.0, -1e-9, -1])):
    EDGES["ObjectiveParam", _o] = ([{"objective": _o, "params": [v]} for v in _in], [{"objective": _o, "params": [v]} for v in _out])


def edges():
    return [(c, f, v, ok) for (c, f), (good, bad) in sorted(EDGES.items()) for ok, vs in ((True, good), (False, bad)) for v in vs]


def edge(case, ctx):
    """the same value directly in its class and within everything that contains it"""
    c, f, v, ok = case
    own = dict(v) if isinstance(v, dict) else {f: v}
    tries = [(c, own)]
    if c in ("DecisionTreeParam", "EncryptParam", "CrossValidationParam", "ObjectiveParam"):
        part = {"DecisionTreeParam": "tree_param", "EncryptParam": "encrypt_param", "CrossValidationParam": "cv_param", "ObjectiveParam": "objective_param"}[c]
        tries.append(("BoostingTreeParam", {"task_type": "regression" if c == "ObjectiveParam" else "classification", part: own}))
    for name, fs in tries:
        for how in ("kw", "set"):
            o = build(name, fs, how)
            try:
                run_check(o, name, "regression")
                got = True
            except (ValueError, TypeError):
                got = False
            require(got == ok, "%s with %r is %s", name, fs, "accepted" if got else "refused")
    ctx.mark()
    ctx.label(c)


# ------------------------------------------------------------------ no shared state

def mutate(o):
    """changes everything reachable from a parameter object"""
    for k, v in list(vars(o).items()):
        if isinstance(v, base_param.BaseParam):
            mutate(v)
        elif isinstance(v, list):
            v.append("changed")
            v[0] = "changed"
        elif isinstance(v, dict):
            v["changed"] = 1
        setattr(o, k, "changed") if not isinstance(v, (list, base_param.BaseParam)) else None


def isolation(case, ctx):
    name = case["cls"]
    cls = ObjectiveParam if name == "ObjectiveParam" else SPEC[name][0]
    fresh = repr(state(cls()))
    a = cls()
    b = build(name, case["fields"], "kw")
    kept = state(b)
    subs = {f: (build(s[0], case["fields"].get(f, {}), "kw")) for f, s in (SPEC[name][1].items() if name in SPEC else []) if isinstance(s[0], str)}
    c = cls(**subs)
    d = cls(**subs)
    kept_d, kept_subs = repr(state(d)), {f: repr(state(v)) for f, v in subs.items()}
    mutate(a)
    require(repr(state(cls())) == fresh, "changing a default %s changes later ones: %r, before %r", name, state(cls()), fresh)
    require(repr(state(b)) == repr(kept), "changing a default %s changes another: %r, before %r", name, state(b), kept)
    mutate(c)
    require(repr(state(d)) == kept_d, "changing one %s changes another built from the same parts: %r, before %r", name, state(d), kept_d)
    for f, v in subs.items():
        require(repr(state(v)) == kept_subs[f], "changing a %s changes the %s it was given", name, f)
        mutate(v)
    require(repr(state(d)) == kept_d, "changing the part given to a %s changes the object", name)
    require(repr(state(cls())) == fresh, "changing objects of %s changes its defaults: %r, before %r", name, state(cls()), fresh)
    ctx.mark(bool(subs) or bool(case["fields"]))
    ctx.label(name)


# ------------------------------------------------------------------ loading configurations

def spread(config, o):
    """the state of o after the configuration is put into it"""
    out = {}
    for k, v in state(o).items():
        attr = getattr(o, k)
        if k not in config:
            out[k] = v
        elif isinstance(attr, base_param.BaseParam):
            out[k] = spread(config[k], attr)
        else:
            out[k] = config[k]
    return out


def load(case, ctx):
    name = case["cls"]
    cls = ObjectiveParam if name == "ObjectiveParam" else SPEC[name][0]
    section = dict(case["fields"])
    if case["noise"]:
        section["no_such_field"] = 17
    config = {name: section, "OtherParam": {"max_depth": 99, "num_trees": 99}}
    if case["noise"]:
        # sections of parameter objects nested in this one are not its own section
        config["DecisionTreeParam" if name != "DecisionTreeParam" else "BoostingTreeParam"] = {"max_depth": 77}
    if case["absent"]:
        del config[name]
        section = {}
    kept = repr(config)
    p = cls()
    want = spread({k: v for k, v in section.items() if k != "no_such_field"}, p)
    q = ParamExtract().parse_param_from_config(p, config)
    require(type(q) is cls and repr(sorted(state(q).items(), key=repr)) == repr(sorted(want.items(), key=repr)),
            "loading %r gives %r instead of %r", config, state(q), want)
    require(repr(config) == kept, "loading changes the configuration from %s to %r", kept, config)
    if case["valid"] and name != "ObjectiveParam":
        run_check(q, name, case["task"])
        require(repr(config) == kept, "checking the loaded parameters changes the configuration from %s to %r", kept, config)
    require(repr(state(cls())) == repr(state(build(name, {}, "kw"))), "loading changes defaults")
    for junk in (None, [], "x", 5):
        try:
            ParamExtract().parse_param_from_config(cls(), junk)
        except Exception:
            continue
        require(False, "the configuration %r is accepted", junk)
    ctx.mark(bool(section))
    ctx.label(name, "absent" if case["absent"] else "given")


class Nest(base_param.BaseParam):
    def __init__(self, shape):
        self.value = 0
        self.names = [1]
        self.nothing = None
        self.flag = True
        for i, s in enumerate(shape):
            setattr(self, "sub%d" % i, Nest(s))


def depth(shape):
    return 1 + max([depth(s) for s in shape], default=-1) if shape else 0


def configure(shape, draws, k=0):
    """a configuration for Nest(shape), values taken from draws"""
    out = {}
    for f in ("value", "names", "nothing", "flag"):
        d = draws[k % len(draws)]
        k += 1
        if d % 3:
            out[f] = [d, "t%d" % d, [d], None, d / 2, {"a": d}, True][d % 7]
    for i, s in enumerate(shape):
        d = draws[k % len(draws)]
        k += 1
        if d % 4 or s:
            out["sub%d" % i], k = configure(s, draws, k)
    return out, k


def nested(case, ctx):
    shape = case["shape"]
    cfg, _ = configure(shape, case["draws"])
    p = Nest(shape)
    want = spread(cfg, p)
    config = {"Nest": cfg}
    kept = repr(config)
    deep = depth(shape)
    try:
        ParamExtract().parse_param_from_config(p, config)
    except ValueError:
        require(deep > 5, "a configuration nested %d deep is refused", deep)
        ctx.label("too deep")
        return
    require(repr(state(p)) == repr(want), "loading %r gives %r instead of %r", config, state(p), want)
    require(repr(config) == kept, "loading changes the configuration from %s to %r", kept, config)
    ctx.mark(deep > 1)
    ctx.label("depth %d" % deep)


# ------------------------------------------------------------------ loaded configurations take effect

def as_config(cfg, case_of_letters):
    def L(s):
        return s if not case_of_letters else "".join(c.upper() if i % case_of_letters == 0 else c for i, c in enumerate(s))
    reg = cfg.get("task") == "regression"
    sec = {
        "task_type": "regression" if reg else "classification",
        "tree_param": {"criterion_method": L("xgboost"), "criterion_params": [cfg["reg_lambda"]], "max_depth": cfg["max_depth"],
                       "min_sample_split": cfg["min_sample_split"], "min_impurity_split": cfg["min_impurity_split"],
                       "min_leaf_node": cfg["min_leaf_node"], "max_split_nodes": cfg["max_split_nodes"],
                       "feature_importance_type": L(cfg["importance"])},
        "objective_param": {"objective": L(cfg["objective"]), "params": cfg.get("objective_params")},
        "learning_rate": cfg["lr"], "num_trees": cfg["num_trees"], "subsample_feature_rate": 1.0, "n_iter_no_change": cfg["early_stop"],
        "tol": cfg["tol"], "encrypt_param": {"method": L("paillier"), "key_length": 256}, "bin_num": cfg["bin_num"],
        "encrypted_mode_calculator_param": {"mode": L("strict")}, "predict_param": {"threshold": cfg["threshold"]}}
    return {"BoostingTreeParam": sec}


def outcome(g, res):
    return (repr([(i, r[0], r[1], round(float(r[2]), 9)) for i, r in res.collect()]), repr([round(float(x), 9) for x in g.history_loss]), len(g.trees_),
            repr(sorted((str(k), round(float(v), 9)) for k, v in g.feature_importances_.items())))


def effect(case, ctx):
    cfg = case["cfg"]
    config = as_config(cfg, case["letters"])
    if case["default"]:
        # leaving parameters out means their defaults
        for k, field in (("lr", "learning_rate"), ("early_stop", "n_iter_no_change"), ("tol", "tol"), ("bin_num", "bin_num")):
            if case["default"] >> (len(k) % 4) & 1:
                del config["BoostingTreeParam"][field]
                cfg = dict(cfg, **{k: {"lr": 0.3, "early_stop": True, "tol": 0.0001, "bin_num": 32}[k]})
    kept = repr(config)
    case = dict(case, cfg=cfg)
    rows = c08.joined_columns(case)

    def fresh(direct, m):
        if direct:
            m._init_model(model.make_param(cfg))
        else:
            m._init_runtime_parameters(config)
        return m
    outs = []
    for direct in (True, False):
        if case["trainer"] == "local":
            m = fresh(direct, c08.Local())
            m.fit(model.table(rows, model.header("c", len(rows[0])), case["y"]))
            res = m.predict(model.table(rows, model.header("c", len(rows[0])), case["y"]))
        else:
            f = model.Federation(cfg, len(case["H"]), case["schedule"])
            if not direct:
                f.guest = fresh(False, model.HeteroSecureBoostingTreeGuest())
                f.hosts = []
                for i in f.ridx:
                    h = fresh(False, model.HeteroSecureBoostingTreeHost())
                    h.set_runtime_idx(i)
                    f.hosts.append(h)
            gt, hts = model.tables_of(case)
            gt2, hts2 = model.tables_of(case)
            res = f.fit_predict(gt, hts, gt2, hts2)
            m = f.guest
        outs.append(outcome(m, res))
        if not direct:
            keys = {str(k) for k in m.feature_importances_}
    require(repr(config) == kept, "training changes the configuration from %s to %r", kept, config)
    for a, b, what in zip(outs[0], outs[1], ("predictions", "losses", "number of trees", "feature importances")):
        require(a == b, "%s with parameters set directly: %s; loaded from %r: %s", what, a, config, b)
    ctx.mark(outs[0][2] > 0 and len(keys) > 0)
    ctx.label(case["trainer"], "letters" if case["letters"] else "plain", cfg["objective"])


def effect_case():
    def finish(c):
        cfg = c["cfg"]
        cfg["mode"] = "strict"
        cfg["num_trees"] = min(cfg["num_trees"], 3)
        cfg["importance"] = ["split", "gain"][c["pick"] % 2]
        cfg["threshold"] = [0.5, 0.3, 0.7][c["pick"] % 3]
        cfg["tol"] = [1e-4, 0.02, 0.1][c["pick"] // 3 % 3]
        if cfg.get("task") == "regression":
            cfg["objective"] = ["lse", "huber", "log_cosh", "lae"][c["pick"] % 4]
            cfg["objective_params"] = [1.5]
        else:
            cfg["objective"] = "cross_entropy"
        c["trainer"] = ["local", "federated", "local"][c["pick"] % 3]
        return c
    ex = st.fixed_dictionaries({"pick": st.integers(0, 10 ** 4), "letters": st.integers(0, 3), "default": st.sampled_from([0, 0, 5, 10, 15])})
    return st.one_of(gen.federation_case(max_rows=14, max_hosts=2, classes=(2, 2, 3), max_trees=3, generic=True, extra=ex),
                     gen.federation_case(max_rows=14, max_hosts=2, regression=True, max_trees=3, generic=True, extra=ex)).map(finish)


# ------------------------------------------------------------------ helper checks of the base class

P = base_param.BaseParam
VALUES = [0, 1, -1, 7, 10 ** 20, 0.0, 1.0, 0.5, -0.5, 1.5, 1e-12, 2.0, -1e-9, True, False, None, "", "a", "Abc", "ABC", "xgboost", [], [1], {}, (), float("inf"), b"a"]
isint = lambda v: type(v) is int
isnum = lambda v: type(v) in (int, float)
HELPERS = {
    "check_string": lambda v: type(v) is str,
    "check_positive_integer": lambda v: isint(v) and v > 0,
    "check_positive_number": lambda v: isnum(v) and v > 0,
    "check_decimal_float": lambda v: type(v) is float and 0 <= v <= 1,
    "check_boolean": lambda v: type(v) is bool,
    "check_open_unit_interval": lambda v: type(v) is float and 0 < v < 1,
}


def helpers(case, ctx):
    v = VALUES[case["v"]] if case["x"] is None else case["x"]
    for h, ok in HELPERS.items():
        try:
            getattr(P, h)(v, "d")
            got = True
        except ValueError:
            got = False
        require(got == ok(v), "%s(%r): %s", h, v, "accepted" if got else "refused")
    opts = case["opts"]
    try:
        got = P.check_and_change_lower(v, opts, "d")
    except ValueError:
        got = None
    want = v.lower() if isinstance(v, str) and v.lower() in opts else None
    require(got == want, "check_and_change_lower(%r, %r) gives %r", v, opts, got)
    try:
        P.check_valid_value(v, "d", opts)
        got = True
    except ValueError:
        got = False
    require(got == (v in opts), "check_valid_value(%r, %r): %s", v, opts, got)
    types = case["types"]
    try:
        P.check_defined_type(v, "d", types)
        got = True
    except ValueError:
        got = False
    require(got == (type(v).__name__ in types), "check_defined_type(%r, %r): %s", v, types, got)
    ctx.mark()
    ctx.label(type(v).__name__)


shapes = st.recursive(st.just([]), lambda s: st.lists(s, min_size=1, max_size=2), max_leaves=4)
chains = st.integers(0, 8).map(lambda n: [] if n == 0 else eval("[" * n + "[]" + "]" * n)[0:1] if n else [])


def loading():
    return st.tuples(case_of(False), st.booleans(), st.integers(0, 5)).map(
        lambda t: dict(t[0], noise=t[1], absent=t[2] == 0, valid=True))


SUBS = [
    Sub("documented values are accepted", case_of(False), accepted, quick=3000, thorough=40000, shards=2, tshards=8,
        rule="any combination of documented values, set by constructor and by assignment, names in any letter case; non-trivial = some field given"),
    Sub("wrong values are refused", case_of(True), refused, quick=4000, thorough=60000, shards=2, tshards=8,
        rule="one field (or nested field) of the wrong type or out of its range in otherwise valid parameters"),
    Sub("edges", None, edge, quick=1, exhaustive=edges, rule="the values just inside and just outside of every documented range, alone and nested"),
    Sub("separate objects", case_of(False), isolation, quick=800, thorough=10000, shards=1, tshards=4,
        rule="everything reachable from one object is changed; defaults, other objects and parts stay as they were"),
    Sub("loading a configuration", loading(), load, quick=1500, thorough=20000, shards=1, tshards=4,
        rule="configurations of any parameter class with nested sections, unknown names and absent sections; non-trivial = a value given"),
    Sub("nested configurations", st.fixed_dictionaries({"shape": st.one_of(shapes, chains), "draws": st.lists(st.integers(0, 50), min_size=3, max_size=12)}), nested,
        quick=800, thorough=10000, shards=1, tshards=4, rule="parameter trees of any shape; refused only beyond five levels; non-trivial = two levels or more"),
    Sub("configurations take effect", effect_case(), effect, quick=120, thorough=2500, shards=6, tshards=8,
        rule="a model configured by a configuration against one configured by parameter objects, local and federated; non-trivial = a tree with splits"),
    Sub("helper checks", st.fixed_dictionaries({
        "v": st.integers(0, len(VALUES) - 1), "x": st.one_of(st.none(), st.none(), st.integers(), st.floats(allow_nan=False), st.text(max_size=3)),
        "opts": st.lists(st.sampled_from(["a", "abc", "xgboost", "b", ""]), max_size=4), "types": st.lists(st.sampled_from(["int", "str", "float", "list", "bool", "NoneType"]), max_size=3)}),
        helpers, quick=1500, thorough=20000, shards=1, tshards=2, rule="the type and range checks of the base class against their definitions"),
]
ASSUMPTIONS = ["values on which the documentation is silent (such as min_leaf_node = 0) are required neither to pass nor to fail",
               "task_type is documented without letter-case freedom"]
