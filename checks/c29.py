import boot
boot.install()
import contextlib
import io
import itertools
import logging
import os
import random
import re
import runpy
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time

import fakenet
import fed
import gen
import keys
import model
from vf import Sub, Skip, Violation, HarnessError, require
from hypothesis import strategies as st
import federation.transfer_inst as T
from ml.param.boosting_tree_param import BoostingTreeParam
from ml.param.encrypt_param import EncryptParam
from ml.secureprotol.fate_paillier import PaillierKeypair
from ml.utils.logger import MyLoggerFactory

ASSUMPTIONS = [
    "the rows of all CSV files describe the same records in the same order, host indices are distinct, both parts of the "
    "split are non-empty and the training part holds at least two classes",
    "the columns of one party are increasing images of one another, so the random choice of columns (subsample_feature_rate 0.8) "
    "cannot change the trees",
    "the federated reference runs in process with 256-bit keys; the real programs run with the default key length",
    "the in-process runs of the programs replace the socket module and the key length",
]


# ------------------------------------------------------------------ cases

@st.composite
def cases(draw, max_rows=24, max_hosts=3, classes=(2, 2, 2, 3)):
    k = draw(st.integers(1, max_hosts))
    n = draw(st.integers(5, max_rows))
    base = [draw(gen.column(n)) for _ in range(k + 1)]
    parties = []
    for col in base:
        images = draw(st.lists(st.sampled_from([(1, 0), (2, 1), (0.5, -3), (4, 0), (1, 7)]), min_size=1, max_size=3))
        parties.append([[a * v + b for a, b in images] for v in col])
    c = draw(st.sampled_from(list(classes)))
    names = draw(st.sampled_from([["0", "1", "2"], ["1", "0", "2"], ["a", "b", "c"], ["-1", "1", "3"], ["yes", "no", "maybe"],
                                  ["10", "9", "8"], ["0.0", "1.0", "2.0"]]))
    labels = [names[v] for v in draw(gen.labels(n, c))]
    ratio = draw(st.sampled_from(["0.8", "0.5", "0.7", "0.9", "0.6", "0.35", "0.75", "0.85", ".66"]))
    ridx = draw(st.sampled_from([list(range(k)), list(range(k))[::-1], draw(st.lists(st.integers(0, 30), min_size=k, max_size=k, unique=True))]))
    order = draw(st.permutations(list(range(k))))
    return {"parties": parties, "labels": labels, "ratio": ratio, "ridx": ridx, "order": list(order),
            "gap": draw(st.sampled_from(["ordered", "ordered", "together"])),
            "ids": draw(st.sampled_from(["int", "text", "same"])), "float": draw(st.sampled_from(["repr", "exp", "fixed"])),
            "schedule": draw(gen.schedule()), "plans": draw(st.lists(st.lists(st.sampled_from([1, 3, 7, 15, 16, 17, 100, 4096, 10 ** 9]), max_size=3), min_size=1, max_size=4))}


def plain(case):
    """cheap guard used before anything is run: the split has both parts, and the training part has two classes"""
    n = len(case["labels"])
    tr, te = split(n, case["ratio"])
    if not tr or not te or len(tr) < 3:
        raise Skip()
    if len({case["labels"][i] for i in tr}) < 2:
        raise Skip()
    return tr, te


def usable(case):
    try:
        plain(case)
        return True
    except Skip:
        return False


def split(n, ratio):
    order = list(range(n))
    random.Random(2).shuffle(order)
    k = int(n * float(ratio))
    return order[:k], order[k:]


def text(v, how):
    if how == "exp":
        return "%.17e" % v
    if how == "fixed" and float("%.6f" % v) == v:
        return "%.6f" % v
    return repr(float(v))


def write_csv(path, rows, labels, case, prefix):
    ident = {"int": lambda i: str(i), "text": lambda i: "record-%d" % (1000 - i), "same": lambda i: "x"}[case["ids"]]
    with open(path, "w") as fh:
        cols = ["%s%d" % (prefix, j) for j in range(len(rows[0]))]
        fh.write(",".join(["id"] + (["y"] if labels is not None else []) + cols) + "\n")
        for i, r in enumerate(rows):
            fh.write(",".join([ident(i)] + ([labels[i]] if labels is not None else []) + [text(v, case["float"]) for v in r]) + "\n")


def write_all(case, d):
    paths = []
    for p, rows in enumerate(case["parties"]):
        path = os.path.join(d, "guest.csv" if p == 0 else "host%d.csv" % (p - 1))
        write_csv(path, rows, case["labels"] if p == 0 else None, case, "g" if p == 0 else "h%d_" % (p - 1))
        paths.append(path)
    return paths


def reference(case, order):
    """The accuracy of a federated model with default parameters; hosts connect in `order`."""
    tr, te = plain(case)
    k = len(case["parties"]) - 1
    f = model.Federation({}, k, [0], ridx=[case["ridx"][j] for j in order])
    param = BoostingTreeParam(encrypt_param=EncryptParam(key_length=256))
    for p in [f.guest] + f.hosts:
        p._init_model(param)
    for i, h in enumerate(f.hosts):
        h.set_runtime_idx(case["ridx"][order[i]])

    def tabs(idx):
        def t(p, labels):
            rows = [case["parties"][p][i] for i in idx]
            return model.table(rows, model.header("g" if p == 0 else "h%d_" % (p - 1), len(rows[0])), labels)
        return t(0, [case["labels"][i] for i in idx]), [t(j + 1, None) for j in order]
    gt, hts = tabs(tr)
    gt2, hts2 = tabs(te)
    r = f.fit_predict(gt, hts, gt2, hts2)
    rows = [v for _, v in sorted(r.collect())]
    require(len(rows) == len(te), "the federated model predicts %d of %d records", len(rows), len(te))
    return sum(1 for i, v in zip(te, rows) if case["labels"][i] == v[1]) / len(te), [v[1] for v in rows]


def printed(out):
    m = re.findall(r"(?m)^accuracy\b\D*?([-+0-9.eEnainf]+)\s*$", out)
    require(len(m) == 1, "the guest prints the accuracy %d times: %.300r", len(m), out[-300:])
    return float(m[0])


def args_of(case, paths, port):
    k = len(case["parties"]) - 1
    guest = ["guest.py", paths[0], str(k), case["ratio"], case.get("task", "CLASSIFICATION"), str(port)]
    hosts = [["host.py", paths[j + 1], case["ratio"], str(port), str(case["ridx"][j])] for j in range(k)]
    return guest, hosts


# ------------------------------------------------------------------ in one process

class Argv(list):
    """sys.argv of whichever program runs in the current thread."""

    def __init__(self):
        super().__init__(["?"])
        self.of = {}

    def cur(self):
        return self.of.get(threading.current_thread().name, ["?"])

    def __getitem__(self, i):
        return self.cur()[i]

    def __len__(self):
        return len(self.cur())

    def __iter__(self):
        return iter(self.cur())


class Out(io.TextIOBase):
    def __init__(self):
        self.of = {}

    def write(self, s):
        self.of.setdefault(threading.current_thread().name, []).append(s)
        return len(s)

    def text(self, name):
        return "".join(self.of.get(name, []))


def quiet():
    root = logging.getLogger()
    for lg in [root] + [logging.getLogger(n) for n in ("guest", "host")]:
        for h in list(lg.handlers):
            h.close()
            lg.removeHandler(h)


def in_process(case, ctx, missing=0):
    plain(case)
    k = len(case["parties"]) - 1
    d = tempfile.mkdtemp(prefix="vf_cli_", dir=os.getcwd())
    old = (os.getcwd(), sys.argv, lambda: None, PaillierKeypair.generate_keypair, MyLoggerFactory.logger, MyLoggerFactory.__dict__["build"], sys.stdout)
    out, argv = Out(), Argv()
    port = 10000 + len(case["labels"])
    net = fakenet.Net(case["plans"] or [[]])
    sched = fed.Scheduler(case["schedule"], max_switches=2000000)
    connected = []
    net.wait = sched.pause
    key = keys.paillier(256)
    net.on_connect = lambda: connected.append(sched.current.name)
    try:
        paths = write_all(case, d)
        os.chdir(d)
        garg, hargs = args_of(case, paths, port)
        argv.of["guest"] = garg
        sys.argv, sys.stdout = argv, out
        old = old[:2] + (fakenet.install(T, net),) + old[3:]
        PaillierKeypair.generate_keypair = staticmethod(lambda *a, **kw: key)
        MyLoggerFactory.build = classmethod(lambda cls, user_name="default": logging.getLogger("quiet"))
        logging.getLogger("quiet").setLevel(logging.CRITICAL)
        MyLoggerFactory.logger = logging.getLogger("quiet")

        def program(args, wait):
            if wait is not None:
                sched.pause(wait, "starts later")
            runpy.run_path(os.path.join(boot.REPO, args[0]), run_name="__main__")
        sched.spawn("guest", lambda: program(garg, None))
        for pos, j in enumerate(case["order"][:k - missing]):
            name = "host%d" % j
            argv.of[name] = hargs[j]
            ready = (lambda pos=pos: net.listening is not None and len(connected) >= pos) if case["gap"] == "ordered" else (lambda: net.listening is not None)
            sched.spawn(name, lambda j=j, ready=ready: program(hargs[j], ready))
        try:
            sched.run()
        except fed.Deadlock:
            if missing:
                require(not any(c.out.sent for c in net.ends), "the guest of %d hosts starts with %d", k, k - missing)
                require("accuracy" not in out.text("guest"), "the guest of %d hosts finishes with %d", k, k - missing)
                ctx.mark()
                return
            raise
        except fed.PartyError as e:
            if isinstance(e.vf_cause, SystemExit) and not e.vf_cause.code:
                raise HarnessError("a program exits early")
            raise
        require(not missing, "the guest of %d hosts finishes with %d", k, k - missing)
        require(net.listening is not None and net.listening[1] == port, "the guest listens on %r, told %d", net.listening, port)
        acc = printed(out.text("guest"))
    finally:
        os.chdir(old[0])
        old[2]()
        sys.argv, PaillierKeypair.generate_keypair, MyLoggerFactory.logger = old[1], staticmethod(old[3]), old[4]
        MyLoggerFactory.build = old[5]
        sys.stdout = old[6]
        shutil.rmtree(d, ignore_errors=True)
    order = [int(x[4:]) for x in connected]
    if case["gap"] == "ordered":
        require(order == case["order"], "the hosts connect in order %r, started in order %r", order, case["order"])
    want, preds = reference(case, order)
    require(abs(acc - want) < 1e-9, "the guest prints accuracy %r, the federated model has %r (connections %r)", acc, want, order)
    ctx.mark(len(set(preds)) > 1)
    ctx.label("k%d" % k, "accuracy 1" if want == 1 else "accuracy 0" if want == 0 else "mixed")


def short_of_hosts(case, ctx):
    in_process(case, ctx, missing=1)


# ------------------------------------------------------------------ real processes

def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def sockets_at(port, states):
    n = 0
    for f in ("/proc/net/tcp", "/proc/net/tcp6"):
        try:
            with open(f) as fh:
                for line in fh.readlines()[1:]:
                    w = line.split()
                    if int(w[1].rsplit(":", 1)[1], 16) == port and w[3] in states:
                        n += 1
        except OSError:
            pass
    return n


LISTEN, ESTABLISHED = ("0A",), ("01", "03", "08")


class PortTaken(Exception):
    pass


def start(args, d, name):
    out = open(os.path.join(d, name + ".out"), "wb")
    err = open(os.path.join(d, name + ".err"), "wb")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="random", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    wd = os.path.join(d, "cwd_" + name)
    os.mkdir(wd)
    p = subprocess.Popen([sys.executable, "-B", os.path.join(boot.HERE, "launch.py")] + args, cwd=wd, stdin=subprocess.DEVNULL,
                         stdout=out, stderr=err, env=env, start_new_session=True)
    out.close(), err.close()
    return p


def read(d, name, kind):
    with open(os.path.join(d, "%s.%s" % (name, kind)), "rb") as fh:
        return fh.read().decode("utf-8", "replace")


def tail(s, n=700):
    return s[-n:]


def cpu(procs):
    t = 0
    for p in procs:
        with contextlib.suppress(OSError, ValueError, IndexError):
            with open("/proc/%d/stat" % p.pid) as fh:
                w = fh.read().rsplit(")", 1)[1].split()
            if w[0] not in "SZ":
                return -1
            t += int(w[11]) + int(w[12])
    return t


def run_processes(case, d, limit=80.0, idle=8.0):
    """-> {name: (exit status, stdout, stderr)}, what the programs are stuck at or None"""
    port = free_port()
    paths = write_all(case, d)
    garg, hargs = args_of(case, paths, port)
    procs = {}
    t0 = time.time()

    def wait(cond, what):
        last, since = None, time.time()
        while not cond():
            now = time.time()
            if now - t0 > limit:
                raise Skip()  # slow machine: no verdict
            c = cpu(procs.values())
            if c != last or c < 0:
                last, since = c, now
            if now - since > idle:
                raise TimeoutError(what)
            for name, p in procs.items():
                if p.poll() not in (None, 0):
                    raise EarlyEnd()
            time.sleep(0.01)

    class EarlyEnd(Exception):
        pass
    late = None
    try:
        procs["guest"] = start(garg, d, "guest")
        try:
            wait(lambda: sockets_at(port, LISTEN), "the guest does not listen on the port it was given")
            if case["gap"] == "ordered":
                for n, j in enumerate(case["order"]):
                    procs["host%d" % j] = start(hargs[j], d, "host%d" % j)
                    wait(lambda: sockets_at(port, ESTABLISHED) > n or procs["guest"].poll() is not None, "host %d does not connect" % j)
            else:
                for j in case["order"]:
                    procs["host%d" % j] = start(hargs[j], d, "host%d" % j)
            wait(lambda: all(p.poll() is not None for p in procs.values()), "the programs do not finish")
        except EarlyEnd:
            # one program failed; the others get a moment to notice
            t1 = time.time()
            while time.time() - t1 < 15 and any(p.poll() is None for p in procs.values()):
                time.sleep(0.05)
        except TimeoutError as e:
            late = str(e)
        if "Address already in use" in read(d, "guest", "err"):
            raise PortTaken()
        status = {n: p.poll() for n, p in procs.items()}
    finally:
        for p in procs.values():
            if p.poll() is None:
                with contextlib.suppress(ProcessLookupError):
                    os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    return {n: (status[n], read(d, n, "out"), read(d, n, "err")) for n in procs}, late


def attempt(case):
    for _ in range(5):
        d = tempfile.mkdtemp(prefix="vf_cli_", dir=os.getcwd())
        try:
            return run_processes(case, d)
        except PortTaken:
            continue
        finally:
            shutil.rmtree(d, ignore_errors=True)
    raise HarnessError("no free port")


def processes(case, ctx):
    plain(case)
    k = len(case["parties"]) - 1
    res, late = attempt(case)
    for n, (rc, out, err) in sorted(res.items()):
        require(rc in (0, None), "%s ends with status %r: %s", n, rc, tail(err))
    require(not late, "%s: %r", late, {n: (rc, tail(err, 200)) for n, (rc, out, err) in res.items()})
    acc = printed(res["guest"][1])
    orders = [case["order"]] if case["gap"] == "ordered" else [list(p) for p in itertools.permutations(range(k))]
    refs = [reference(case, o) for o in orders]
    require(any(abs(acc - w) < 1e-9 for w, _ in refs), "the guest prints accuracy %r, the federated model has %r", acc, [w for w, _ in refs])
    ctx.mark(len(set(refs[0][1])) > 1)
    ctx.label("k%d" % k, case["gap"], "accuracy 1" if acc == 1 else "accuracy 0" if acc == 0 else "mixed")


def refused(case, ctx):
    """A task type the guest does not support: no program reports success with an accuracy."""
    plain(case)
    res, late = attempt(case)
    require(not late, "%s", late)
    rc, out, err = res["guest"]
    require(rc != 0, "the guest accepts task type %r: %s", case["task"], tail(out, 200))
    ctx.mark()


def with_task(s):
    return st.tuples(s, st.sampled_from(["REGRESSION", "classification", "CLASSIFICATIONS", "", "CLUSTERING"])).map(lambda p: dict(p[0], task=p[1]))


SUBS = [
    Sub("the programs under generated schedules", cases().filter(usable), in_process, quick=240, thorough=4000, shards=8, tshards=8,
        rule="the model predicts more than one class on the held-out part"),
    Sub("the guest waits for every host", cases(max_rows=10).filter(usable), short_of_hosts, quick=24, thorough=200, shards=2, tshards=2,
        rule="one host less than announced"),
    Sub("real processes", cases(max_rows=14).filter(usable), processes, quick=32, thorough=400, shards=8, tshards=8,
        rule="the model predicts more than one class on the held-out part"),
    Sub("unsupported task types", with_task(cases(max_rows=8, max_hosts=2).filter(usable)), refused, quick=4, thorough=24, shards=2, tshards=4,
        rule="every case"),
]
