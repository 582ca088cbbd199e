import boot
boot.install()
import random
import socket
import threading

import numpy as np
import fakenet
import keys
from vf import Sub, require
from hypothesis import strategies as st
from federation.transfer_inst import TransferInst
from computing.d_table import DTable
from ml.feature.sparse_vector import SparseVector
from ml.feature.instance import Instance


class Plain:
    def __init__(self, d):
        self.d = d


def build(spec):
    kind, x = spec
    if kind == "plain":
        return x
    if kind == "bytes":
        return random.Random(x).randbytes(x)
    if kind == "digits":  # contents that look like a header
        return (b"%-16d" % x) * (1 + x % 40)
    if kind == "text":
        return ("%-16d" % x) * (1 + x % 7)
    if kind == "array":
        return np.arange(x, dtype=float).reshape(-1, 1) if x % 2 else np.arange(x)
    if kind == "table":
        return DTable(True, [("k%d" % i, (i, None, [i] * (i % 3))) for i in range(x % 60)])
    if kind == "instance":
        return Instance(features=SparseVector(list(range(x % 9)), [i * 0.5 for i in range(x % 9)], 20), label=x, inst_id="id%d" % x)
    if kind == "cipher":
        pub, _ = keys.paillier(256)
        return [pub.encrypt(float(i)) for i in range(x % 4)] + [pub]
    if kind == "object":
        return Plain({x: [x, str(x)], "self": (x,)})
    raise ValueError(kind)


def norm(o):
    """A comparable description of an object."""
    if isinstance(o, np.ndarray):
        return ("array", str(o.dtype), o.shape, o.tolist())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [norm(x) for x in o])
    if isinstance(o, dict):
        return ("dict", [(norm(k), norm(v)) for k, v in o.items()])
    if isinstance(o, DTable):
        return ("table", norm(list(o.collect())), norm(o.schema))
    if isinstance(o, (int, float, str, bytes, bool, type(None), np.generic, complex)):
        return (type(o).__name__, repr(o))
    if isinstance(o, (set, frozenset)):
        return (type(o).__name__, sorted(map(repr, o)))
    return (type(o).__name__, norm(vars(o)))


def stream(case, ctx):
    a, b = fakenet.pair(case["plans"][0], case["plans"][1])
    ends = [(a, b), (b, a)]
    waiting = [[], []]
    ever = 0
    for d, spec, reads in case["steps"]:
        obj = build(spec)
        want = norm(obj)
        TransferInst.send_data(ends[d][0], obj)
        require(norm(obj) == want, "sending changes the object")
        waiting[d].append((spec, want))
        for r in reads:
            if waiting[r]:
                sp, w = waiting[r].pop(0)
                got = norm(TransferInst.recv_data(ends[r][1]))
                require(got == w, "%r arrives as %.300r, expected %.300r", sp, got, w)
                ever += 1
        ctx.label(spec[0])
    for r in (0, 1):
        for sp, w in waiting[r]:
            got = norm(TransferInst.recv_data(ends[r][1]))
            require(got == w, "%r arrives as %.300r, expected %.300r", sp, got, w)
            ever += 1
        require(not ends[r][1].inn.buf, "%d bytes are left over after the last message", len(ends[r][1].inn.buf))
    cuts = any(0 < p < 16 for pl in case["plans"] for p in pl)
    ctx.mark(ever > 1 and cuts)
    ctx.label("header cut" if cuts else "whole")


def boundary(case, ctx):
    """Messages whose length is around a power of ten, cut at every early byte."""
    target, cut = case
    size = target
    import pickle
    while len(pickle.dumps(b"x" * size)) > target and size > 0:
        size -= 1
    objs = [b"x" * max(0, size - 1), b"y" * size, b"z" * (size + 1), 7]
    a, b = fakenet.pair([cut, 10 ** 9], [cut, 10 ** 9])
    for o in objs:
        TransferInst.send_data(a, o)
    for o in objs:
        got = TransferInst.recv_data(b)
        require(got == o, "a message of %d bytes, first cut after %d, arrives as %.100r", len(o) if o != 7 else 1, cut, got)
    ctx.mark(cut < 16)


def real_socket(case, ctx):
    """The same over a real connection, written in the generated pieces with the reader kept waiting."""
    a, b = socket.socketpair() if case["unix"] else tcp_pair()
    objs = [build(s) for s in case["objs"]]
    rec, rec2 = fakenet.pair()
    for o in objs:
        TransferInst.send_data(rec, o)
    data = bytes(rec2.inn.buf)
    err = []

    def writer():
        try:
            if case["direct"]:
                a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096)
                for o in objs:
                    TransferInst.send_data(a, o)
            else:
                i = k = 0
                while i < len(data):
                    n = case["pieces"][k % len(case["pieces"])]
                    k += 1
                    a.sendall(data[i:i + n])
                    i += n
                    if k < 60:
                        pause.wait(0.0005)
        except BaseException as e:
            err.append(e)
    pause = threading.Event()
    t = threading.Thread(target=writer, daemon=True)
    b.settimeout(20)
    t.start()
    try:
        for spec, o in zip(case["objs"], objs):
            got = norm(TransferInst.recv_data(b))
            require(got == norm(o), "%r arrives as %.300r", spec, got)
        t.join(20)
        require(not err, "sending fails: %r", err)
        b.settimeout(0.01)
        try:
            rest = b.recv(10)
        except (BlockingIOError, TimeoutError):
            rest = b""
        require(not rest, "bytes %r are left over", rest)
    finally:
        a.close(), b.close()
    ctx.mark(len(objs) > 1)
    ctx.label("direct" if case["direct"] else "pieces")


def tcp_pair():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    s.listen(1)
    a = socket.create_connection(s.getsockname())
    b, _ = s.accept()
    s.close()
    a.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return a, b


atoms = st.one_of(st.none(), st.booleans(), st.integers(), st.floats(allow_nan=False), st.text(max_size=8), st.binary(max_size=20))
plain = st.recursive(atoms, lambda s: st.one_of(st.lists(s, max_size=4), st.tuples(s, s), st.dictionaries(st.integers(0, 9), s, max_size=3)), max_leaves=8)
spec = st.one_of(st.tuples(st.just("plain"), plain), st.tuples(st.just("bytes"), st.one_of(st.integers(0, 120), st.sampled_from([980, 995, 1000, 1024, 9990, 65536, 70000]))),
                 st.tuples(st.sampled_from(["digits", "text", "array", "table", "instance", "object"]), st.integers(0, 300)), st.tuples(st.just("cipher"), st.integers(0, 3)))
plan = st.lists(st.one_of(st.integers(1, 20), st.sampled_from([0, 1, 15, 16, 17, 100, 1024, 4096])), max_size=12)

SUBS = [
    Sub("stream", st.fixed_dictionaries({"plans": st.tuples(plan, plan), "steps": st.lists(st.tuples(st.integers(0, 1), spec, st.lists(st.integers(0, 1), max_size=3)), min_size=1, max_size=10)}),
        stream, quick=6000, thorough=150000, shards=8, tshards=8,
        rule="1-10 objects in both directions, receives interleaved, every receive cut to generated sizes; non-trivial = several messages with a cut inside a header"),
    Sub("long", st.fixed_dictionaries({"plans": st.tuples(plan, plan), "times": st.integers(10, 80), "steps": st.lists(st.tuples(st.integers(0, 1), spec, st.lists(st.integers(0, 1), max_size=3)), min_size=2, max_size=8)}).map(
            lambda c: dict(c, steps=[(w ^ (r % 5 == 4), sp, rc) for r in range(c["times"]) for w, sp, rc in c["steps"]])), stream,
        quick=64, thorough=1500, shards=8, tshards=8, rule="as stream with 20 to 640 objects over one connection"),
    Sub("boundary", None, boundary, quick=1, shards=2, tshards=4, exhaustive=lambda: [(t, c) for t in (5, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 99999, 100000, 1000000)
                                                                                      for c in list(range(1, 40)) + [98, 99, 100, 1000, 65536]],
        rule="message lengths around every power of ten and every first cut up to 39 bytes; non-trivial = the cut is inside the header"),
    Sub("huge", None, boundary, quick=1, shards=4, tshards=4, exhaustive=lambda: [(t, c) for t, c in ((10 ** 7, 3), (10 ** 7 - 1, 16), ((1 << 24) - 16, 1 << 22), (1 << 24, 1), ((1 << 24) + 7, 5000), ((1 << 26) + 100, 16))],
        rule="messages of ten million and of 2**24 bytes, give or take one; non-trivial = the first piece ends inside the header"),
    Sub("real_socket", st.fixed_dictionaries({"unix": st.booleans(), "direct": st.booleans(), "objs": st.lists(spec, min_size=1, max_size=4), "pieces": st.lists(st.integers(1, 4000), min_size=1, max_size=6)}),
        real_socket, quick=160, thorough=3000, shards=4, tshards=8, rule="1-4 objects over a real socket pair or TCP connection written in generated pieces; non-trivial = several objects"),
]
ASSUMPTIONS = ["the network delivers bytes in order and without loss, as TCP does"]
