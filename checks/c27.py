import boot
boot.install()
import copy

import gen
import model
from vf import Sub, require
from hypothesis import strategies as st
from checks import c08, c24
from computing.d_table import DTable
from ml.model_base import ModelBase
from ml.param.base_param import BaseParam

HEADER = ["label", "predict_result", "predict_score", "predict_detail", "type"]


class Flag(BaseParam):
    def __init__(self, name, value):
        setattr(self, name, value)

    def check(self):
        pass


class StubParam(BaseParam):
    def __init__(self, has):
        self.alpha = 1
        self.beta = "b"
        self.sub = Flag("gamma", 0.5)
        self.checked = 0
        if has & 1:
            self.cv_param = Flag("need_cv", False)
        if has & 2:
            self.need_run = True
        if has & 4:
            self.one_vs_rest_param = Flag("need_one_vs_rest", False)

    def check(self):
        self.checked += 1
        if self.alpha == "bad":
            raise ValueError("alpha")


class Variables:
    def __init__(self, log):
        self.log = log

    def set_flowid(self, f):
        self.log.append(("flowid", f))


class Component(ModelBase):
    """Records what the runner does to it; predictions are a function of the record and the state."""

    def __init__(self, has, returns, variables):
        super().__init__()
        self.model_param = StubParam(has)
        self.log = []
        self.returns = returns
        self.got = None
        if variables:
            self.transfer_variable = Variables(self.log)

    def _init_model(self, p):
        self.got = (p.alpha, p.beta, p.sub.gamma, p.checked)
        self.log.append(("init",))

    def _load_model(self, d):
        self.log.append(("load", repr(sorted(d.get("model", d.get("isometric_model"))))))

    def _stage(self, name, t):
        self.log.append((name, id(t), self.flowid, self.got))

    def fit(self, t):
        self._stage("fit", t)
        return self._out("fit", t)

    def transform(self, t):
        self._stage("transform", t)
        return self._out("transform", t)

    def predict(self, t):
        self._stage("predict", t)
        return None if self.returns == "nothing" else rows_of(t, "p")

    def one_vs_rest_fit(self, train_data=None):
        self._stage("ovr fit", train_data)

    def one_vs_rest_predict(self, t):
        self._stage("ovr predict", t)
        return None if self.returns == "nothing" else rows_of(t, "o")

    def cross_validation(self, t):
        self._stage("cv", t)

    def _out(self, name, t):
        if self.returns == "nothing" or t is None:
            return None
        out = t.mapValues(lambda v: (name, v))
        out.schema = dict(t.schema)
        return out


def rows_of(t, tag):
    out = t.mapValues(lambda v: [v, tag + str(v), float(v), {"x": v}])
    return out


def tab(keys, base, sid):
    t = DTable(True, [(k, base + i) for i, k in enumerate(keys)])
    t.schema = {"header": ["f"], "sid_name": sid}
    return t


def expected(case, tabs, taskid):
    """-> (the stages in order, the predictions by key or 'unset')"""
    flow = lambda s: taskid + "." + s
    c = case
    has = c["has"]
    cv, ovr, run = c["cv"] and has & 1, c["ovr"] and has & 4, c["run"] or not has & 2
    train, ev, data = tabs.get("train_data"), tabs.get("eval_data"), tabs.get("data")
    st_, out = [], {}

    def add(t, tag, mark):
        for k, v in t.collect():
            out[k] = [v, tag + str(v), float(v), {"x": v}, mark]
    if c["args"] == "no data":
        return [], None
    if not run:
        return [], ("same", data)
    if cv:
        return [("cv", train, None)], None
    if ovr:
        if train is not None:
            st_ = [("ovr fit", train, None), ("ovr predict", train, None)]
            add(train, "o", "train")
            if ev is not None:
                st_.append(("ovr predict", ev, None))
                add(ev, "o", "validation")
        elif ev is not None:
            st_ = [("ovr predict", ev, None)]
            add(ev, "o", "test")
        return st_, ("rows", out)
    if train is not None:
        st_ = [("fit", train, flow("train")), ("predict", train, flow("predict"))]
        add(train, "p", "train")
        if ev is not None:
            st_.append(("predict", ev, flow("validate")))
            add(ev, "p", "validation")
        return st_, ("rows", out)
    if ev is not None:
        add(ev, "p", "test")
        return [("predict", ev, flow("predict"))], ("rows", out)
    name = "transform" if c["args"] == "model" else "fit"
    return [(name, data, flow(name))], ("stage", name, data)


def run(case, ctx, known=None):
    keys = case["keys"]
    n1, n2 = case["n"][0] % (len(keys) + 1), case["n"][1] % (len(keys) + 1)
    n1, n2 = sorted((n1, n2))
    parts = {"train_data": tab(keys[:n1], 0, "sid%d" % case["sid"]), "eval_data": tab(keys[n1:n2], 100, "other"), "data": tab(keys[n2:], 200, "d")}
    use = [k for i, k in enumerate(("train_data", "eval_data", "data")) if case["use"] >> i & 1]
    cv, run_ = case["cv"] and case["has"] & 1, case["run"] or not case["has"] & 2
    if cv and run_ and "train_data" not in use:
        use.append("train_data")
    tabs = {k: parts[k] for k in use}
    # the tables may come from one or several upstream components, with absent entries as None
    sets = {}
    for i, k in enumerate(use):
        sets.setdefault("args%d" % (i if case["spread"] else 0), {})[k] = tabs[k]
    if case["absent"]:
        sets.setdefault("args0", {}).update({k: None for k in parts if k not in use})
        sets["empty"] = {}
    args = {} if case["args"] == "no data" else {"data": sets}
    if case["args"] == "model":
        args["model"] = {"m": 1}
    elif case["args"] == "isometric":
        args["isometric_model"] = {"iso": 1}
    elif case["args"] == "no data" and case["absent"]:
        args["data"] = None
    section = {"alpha": case["alpha"], "sub": {"gamma": case["gamma"]}}
    if case["has"] & 1:
        section["cv_param"] = {"need_cv": case["cv"]}
    if case["has"] & 2:
        section["need_run"] = case["run"]
    if case["has"] & 4:
        section["one_vs_rest_param"] = {"need_one_vs_rest": case["ovr"]}
    config = {"StubParam": section}
    kept = repr(config), {k: repr(t) for k, t in parts.items()}, repr(sorted(map(str, args)))
    for turn in range(2 if known is None else 1):
        m = known or Component(case["has"], case["returns"], case["variables"])
        m.set_taskid("task7")
        m.log.clear()
        m.model_param.checked = 0
        if case["alpha"] == "bad":
            try:
                m.run(config, args)
            except ValueError:
                require([x for x in m.log if x[0] != "flowid"] == [], "stages %r are run with refused parameters", m.log)
                ctx.label("refused")
                continue
            require(False, "parameters that fail their check are used: %r", m.log)
        m.run(config, args)
        log = [x for x in m.log if x[0] != "flowid"]
        require(log[:1] == [("init",)] and log.count(("init",)) == 1, "the component is not initialised first, once: %r", log)
        want, out = expected(case, tabs, "task7")
        loads = [x for x in log if x[0] == "load"]
        # a saved model is loaded when one is given, before the stages
        if case["args"] in ("model", "isometric") and not cv and not (case["ovr"] and case["has"] & 4 and case["args"] == "isometric"):
            require(len(loads) == 1 and log[1] == loads[0] and loads[0][1] == repr(["m"] if case["args"] == "model" else ["iso"]), "the given model is not loaded before the stages: %r", log)
        elif case["args"] in ("data", "no data"):
            require(not loads, "a model is loaded though none is given: %r", log)
        stages = [x for x in log if x[0] not in ("init", "load")]
        got = [(x[0], x[1]) for x in stages]
        require(got == [(w[0], id(w[1])) for w in want], "arguments %r with %s: stages %r, expected %r", case["args"], use,
                [(x[0], next((k for k, t in tabs.items() if id(t) == x[1]), "?")) for x in stages],
                [(w[0], next((k for k, t in tabs.items() if t is w[1]), "None")) for w in want])
        for x, w in zip(stages, want):
            require(w[2] is None or x[2] == w[2], "stage %s of %s runs as %r instead of %r", x[0], case["args"], x[2], w[2])
            require(x[3] == (case["alpha"], "b", case["gamma"], 1), "stage %s sees parameters %r", x[0], x[3])
        if case["variables"]:
            flows = [x[1] for x in m.log if x[0] == "flowid"]
            require(flows == [w[2] for w in want if w[2] is not None], "the transfer variable is told %r for stages %r", flows, want)
        res = m.save_data()
        if out is None:
            pass
        elif out[0] == "same":
            require(res is out[1], "a component that need not run gives %r instead of its input", res)
        elif out[0] == "stage":
            if case["returns"] == "nothing" or out[2] is None:
                require(res is None, "the output is %r though the stage gave none", res)
            else:
                require(dict(res.collect()) == {k: (out[1], v) for k, v in out[2].collect()}, "the output of %s is %r", out[1], res)
        elif not want and known is not None:
            pass        # what an earlier run left
        elif case["returns"] == "nothing" or not want:
            require(res is None, "the output is %r though there are no predictions", res)
        else:
            require(res is not None and dict(res.collect()) == out[1], "the output of %r with %s is %r, expected %r", case["args"], use, None if res is None else dict(res.collect()), out[1])
            src = tabs.get("train_data", tabs.get("eval_data"))
            require(res.schema.get("header") == HEADER and res.schema.get("sid_name") == src.schema["sid_name"], "the output's schema is %r", res.schema)
        require((repr(config), {k: repr(t) for k, t in parts.items()}, repr(sorted(map(str, args)))) == kept, "running changes the configuration, the arguments or the tables")
        ctx.mark(len(want) > 1)
        ctx.label("%s: %s" % (case["args"], ",".join(w[0] for w in want) or "nothing"))


def repeated(case, ctx):
    """one component object run several times: every run does what its own arguments and configuration ask for"""
    m = Component(case["has"], case["returns"], case["variables"])
    for c in case["runs"]:
        run(dict(c, has=case["has"], returns=case["returns"], variables=case["variables"]), ctx, m)


def real(case, ctx):
    """the project's own trainer run as a component against calling it directly"""
    cfg = case["cfg"]
    rows = c08.joined_columns(case)
    n = len(rows)
    cut = n - 1 - case["cut"] % (n // 2)
    header = model.header("c", len(rows[0]))
    config = c24.as_config(cfg, 0)

    def part(a, b):
        return model.table(rows[a:b], header, case["y"][a:b], keys=["r%d" % i for i in range(a, b)])
    direct = c08.Local()
    direct._init_model(model.make_param(cfg))
    direct.fit(part(0, cut))
    want = {}
    for t, mark in ((part(0, cut), "train"), (part(cut, n), "validation")):
        if mark == "train" or case["both"]:
            for k, v in direct.predict(t).collect():
                want[k] = list(v) + [mark]
    m = c08.Local()
    sets = {"a": {"train_data": part(0, cut)}}
    if case["both"]:
        sets["b"] = {"eval_data": part(cut, n)}
    m.run(config, {"data": sets})
    got = dict(m.save_data().collect())
    require(repr(sorted(got.items())) == repr(sorted(want.items())), "run as a component the trainer gives %r, called directly %r", got, want)
    require(m.save_data().schema["header"] == HEADER, "the output's schema is %r", m.save_data().schema)
    # and prediction only, on the trained component
    m.run(config, {"model": {}, "data": {"a": {"eval_data": part(cut, n)}}})
    got = dict(m.save_data().collect())
    want = {k: list(v) + ["test"] for k, v in direct.predict(part(cut, n)).collect()}
    require(repr(sorted(got.items())) == repr(sorted(want.items())), "a test table is predicted as %r, directly as %r", got, want)
    ctx.mark(bool(direct.feature_importances_) and case["both"])
    ctx.label("train and evaluation" if case["both"] else "train only")


def real_case():
    def finish(c):
        c["cfg"].update(mode="strict", importance="split", threshold=0.5, tol=1e-4, objective="lse" if c["cfg"].get("task") == "regression" else "cross_entropy")
        return c
    ex = st.fixed_dictionaries({"cut": st.integers(0, 20), "both": st.sampled_from([True, True, False])})
    return st.one_of(gen.federation_case(min_rows=6, max_rows=14, max_hosts=1, classes=(2, 2), generic=True, extra=ex),
                     gen.federation_case(min_rows=6, max_rows=14, max_hosts=1, regression=True, generic=True, extra=ex)).map(finish)


@st.composite
def stub_case(draw):
    return {"use": draw(st.integers(0, 7)), "args": draw(st.sampled_from(["data", "data", "data", "model", "isometric", "no data"])), "has": draw(st.integers(0, 7)),
            "cv": draw(st.sampled_from([False, False, True])), "ovr": draw(st.sampled_from([False, False, True])), "run": draw(st.sampled_from([True, True, True, False])),
            "returns": draw(st.sampled_from(["table", "table", "table", "nothing"])), "variables": draw(st.booleans()), "spread": draw(st.booleans()),
            "absent": draw(st.booleans()), "alpha": draw(st.sampled_from([1, 2, "x", None, [3], "bad"])), "gamma": draw(st.floats(0, 1)),
            "keys": draw(st.lists(st.one_of(st.integers(0, 99), st.text("abc", min_size=1, max_size=3)), min_size=3, max_size=12, unique=True)),
            "n": [draw(st.integers(1, 12)), draw(st.integers(1, 12))], "sid": draw(st.integers(0, 3))}


def grid():
    """every combination of the discrete choices"""
    base = {"variables": True, "alpha": 2, "gamma": 0.25, "keys": ["a", "b", 3, "d", 5, "f"], "n": [2, 4], "sid": 1}
    out = []
    for use in range(8):
        for args in ("data", "model", "isometric", "no data"):
            for flags in range(8):
                for returns in ("table", "nothing"):
                    for lay in range(4):
                        out.append(dict(base, use=use, args=args, has=[7, 7, 7, 7, 7, 7, 7, 7][flags], cv=bool(flags & 1), ovr=bool(flags & 2), run=not flags & 4, returns=returns,
                                        spread=bool(lay & 1), absent=bool(lay & 2)))
                        out.append(dict(base, use=use, args=args, has=flags, cv=True, ovr=True, run=False, returns=returns, spread=bool(lay & 1), absent=bool(lay & 2)))
    return out


class Tracker:
    def __init__(self):
        self.calls = []

    def set_metric_meta(self, metric_name, metric_namespace, metric_meta):
        self.calls.append(("meta", metric_name, metric_namespace, metric_meta))

    def log_metric_data(self, metric_name, metric_namespace, metrics):
        self.calls.append(("data", metric_name, metric_namespace, metrics))


class Meta:
    def __init__(self):
        self.got = {"kept": 1}

    def update_metas(self, d):
        self.got.update(d)


def callbacks(case, ctx):
    """Metrics reported by a component arrive at its tracker under the name of their fold and curve."""
    m = ModelBase()
    t = Tracker()
    m.set_tracker(t)
    m.set_taskid(case["task"])
    m.need_cv = case["cv"]
    m.set_cv_fold(0)
    flow = None
    for op, name, space, arg in case["ops"]:
        n = len(t.calls)
        if op == "flow":
            m.set_flowid(arg)
            flow = "%s.%s" % (case["task"], arg)
            require(m.flowid == flow, "flow id %r after set_flowid(%r) in task %r", m.flowid, arg, case["task"])
            continue
        if op == "fold":
            m.set_cv_fold(arg)
            fold = arg
            continue
        fold = m.cv_fold
        full = "%s.%s" % (name, fold) if case["cv"] else name
        if op == "meta":
            if flow is None:
                continue
            meta = Meta()
            m.callback_meta(name, space, meta)
            require(len(t.calls) == n + 1 and t.calls[-1][:3] == ("meta", full, space) and t.calls[-1][3] is meta, "reporting the description of %r (fold %r): %r", name, fold, t.calls[n:])
            curve = flow.split(".", 1)[1] if case["cv"] else name
            require(meta.got == {"kept": 1, "curve_name": curve}, "the curve of metric %r in flow %r is described by %r", name, flow, meta.got)
        elif op == "data":
            data = [arg]
            m.callback_metric(name, space, data)
            require(len(t.calls) == n + 1 and t.calls[-1][:3] == ("data", full, space) and t.calls[-1][3] is data, "reporting metric %r (fold %r): %r", name, fold, t.calls[n:])
        elif op == "name" and flow is not None:
            want = "%s_%s" % (name, flow) if case["cv"] else name
            require(m.get_metric_name(name) == want, "metric name %r instead of %r", m.get_metric_name(name), want)
    ctx.mark(len(t.calls) > 1)
    ctx.label("cross validation" if case["cv"] else "plain")


word = st.sampled_from(["loss", "auc", "train", "ks_fpr", "a.b", "0"])
SUBS = [
    Sub("metric callbacks", st.fixed_dictionaries({"cv": st.booleans(), "task": st.sampled_from(["task", "0", "job_1"]), "ops": st.lists(st.one_of(
        st.tuples(st.sampled_from(["meta", "data", "name", "meta", "data"]), word, word, st.integers(0, 9)),
        st.tuples(st.just("flow"), word, word, st.one_of(word, st.integers(0, 5))), st.tuples(st.just("fold"), word, word, st.integers(0, 5))), min_size=1, max_size=9)}),
        callbacks, quick=1500, thorough=20000, shards=1, rule="sequences of metric reports, flow ids and folds against a recording tracker; non-trivial = several reports"),
    Sub("all combinations", None, run, quick=1, exhaustive=grid, shards=2, tshards=2,
        rule="every combination of present tables, kinds of arguments, flags, layouts of the data sets and components with and without output; non-trivial = more than one stage"),
    Sub("generated runs", stub_case(), run, quick=3000, thorough=40000, shards=2, tshards=8,
        rule="generated configurations, key sets and table sizes (also empty tables); a recording component against a reference runner"),
    Sub("repeated runs", st.fixed_dictionaries({"has": st.integers(0, 7), "returns": st.sampled_from(["table", "table", "nothing"]), "variables": st.booleans(),
                                                "runs": st.lists(stub_case(), min_size=2, max_size=4)}), repeated, quick=1500, thorough=20000, shards=2, tshards=8,
        rule="2-4 runs of one component object with different configurations and arguments, each against the reference runner; non-trivial = a run of several stages"),
    Sub("the trainer as a component", real_case(), real, quick=120, thorough=2500, shards=4, tshards=8,
        rule="the single-party trainer run through the component interface against calling it directly; non-trivial = trees with splits, train and evaluation data"),
]
ASSUMPTIONS = ["the tables of one run have distinct keys (a keyed table cannot hold two records of one key)", "at most one upstream data set provides each kind of table"]
