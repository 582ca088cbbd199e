import boot
boot.install()
import fakenet
from checks.c15 import build, norm, spec, plan, plain
from vf import Sub, Violation, require
from hypothesis import strategies as st
import federation.transfer_inst as T


def federation(k, port, plans, order=None):
    net = fakenet.Net(plans or [[]])
    hosts = []

    def on_accept(i):
        require(net.listening is not None, "the guest waits for hosts before it listens")
        require(i < k, "the guest waits for %d hosts, it was told %d", i + 1, k)
        hosts.append(T.TransferInstHost("127.0.0.1", port) if port != 12345 or i % 2 else T.TransferInstHost())
    net.on_accept = on_accept
    undo = fakenet.install(T, net)
    try:
        guest = T.TransferInstGuest(port, k) if k != 1 or port != 12345 else T.TransferInstGuest()
    finally:
        undo()
    require(len(hosts) == k and net.accepted == k, "the guest accepts %d connections for %d hosts", net.accepted, k)
    require(net.listening[1] == port, "the guest listens on %r, told %r", net.listening, port)
    return guest, hosts, net


def refuses(f, what):
    try:
        r = f()
    except fakenet.Stuck:
        raise
    except Exception:
        return
    require(False, "%s gives %r instead of an error", what, r)


def total(net):
    return sum(c.inn.sent for c in net.clients)


def routing(case, ctx):
    k = case["k"]
    guest, hosts, net = federation(k, case["port"], case["plans"])
    down = [[] for _ in range(k)]  # guest -> host i
    up = [[] for _ in range(k)]
    bad = 0

    def check(got, want, what, *a):
        require(norm(got) == want, what + " is %.300r instead of %.300r", *(a + (norm(got), want)))
    for n, (op, i, sp) in enumerate(case["ops"]):
        obj = build(sp)
        want = norm((n, obj))
        if op == "to":
            guest.send_data_to_hosts((n, obj), i % k)
            down[i % k].append(want)
        elif op == "all":
            guest.send_data_to_hosts((n, obj), -1)
            for q in down:
                q.append(want)
        elif op == "up":
            hosts[i % k].send_data_to_guest((n, obj))
            up[i % k].append(want)
        elif op == "get":
            if up[i % k]:
                check(guest.recv_data_from_hosts(i % k), up[i % k].pop(0), "what the guest receives from host %d of %d", i % k, k)
        elif op == "getall":
            if all(up):
                got = guest.recv_data_from_hosts(-1)
                require(isinstance(got, list) and len(got) == k, "receiving from all %d hosts gives %.200r", k, got)
                for j in range(k):
                    check(got[j], up[j].pop(0), "entry %d of what the guest receives from all %d hosts", j, k)
                ctx.label("getall")
        elif op == "down":
            if down[i % k]:
                check(hosts[i % k].recv_data_from_guest(), down[i % k].pop(0), "what host %d of %d receives", i % k, k)
        else:
            idx = [k, k + 1, -2, -k - 1, -3, 100, 2 ** 40, k, -k][i % 9]
            if idx == -1:
                idx = -2
            before = total(net)
            refuses(lambda: guest.send_data_to_hosts((n, obj), idx), "sending to host %d of %d" % (idx, k))
            require(total(net) == before, "sending to host %d of %d is refused after something was sent", idx, k)
            for j in range(k):
                up[j].append(norm(("probe", n)))
                hosts[j].send_data_to_guest(("probe", n))
            refuses(lambda: guest.recv_data_from_hosts(idx), "receiving from host %d of %d" % (idx, k))
            bad += 1
            ctx.label("bad index")
    for j in range(k):
        while down[j]:
            check(hosts[j].recv_data_from_guest(), down[j].pop(0), "what host %d of %d receives", j, k)
        while up[j]:
            check(guest.recv_data_from_hosts(j), up[j].pop(0), "what the guest receives from host %d of %d", j, k)
        require(not net.clients[j].inn.buf and not net.ends[j].inn.buf, "bytes for or from host %d are left over", j)
    ctx.mark(k > 1 and len(case["ops"]) > 2)
    ctx.label("k%d" % k)


def crash(case, ctx):
    """The connection ends at a generated byte: earlier messages arrive, then there is an error."""
    k = case["k"]
    guest, hosts, net = federation(k, 12345, case["plans"])
    v = case["victim"] % k
    toguest = case["toguest"]
    objs = [(n, build(sp)) for n, sp in enumerate(case["objs"])]
    sizes = []
    for n, sp in enumerate(case["objs"]):  # the size of each message on the wire
        a, b = fakenet.pair()
        T.TransferInst.send_data(a, objs[n])
        sizes.append(len(b.inn.buf))
    at = case["at"]
    if at[0] == "boundary":
        cut = sum(sizes[:at[1] % (len(sizes) + 1)])
    elif at[0] == "header":
        cut = sum(sizes[:at[1] % len(sizes)]) + 1 + at[2] % 15
    elif at[0] == "body":
        m = at[1] % len(sizes)
        cut = sum(sizes[:m]) + 16 + at[2] % max(1, sizes[m] - 16)
    else:
        m = at[1] % len(sizes)
        cut = sum(sizes[:m + 1]) - 1 - at[2] % 3
    pipe = net.ends[v].inn if toguest else net.clients[v].inn
    pipe.limit, pipe.how = cut, case["how"]
    whole = 0
    while whole < len(sizes) and sum(sizes[:whole + 1]) <= cut:
        whole += 1
    for o in objs + ["more", "more"]:
        if toguest:
            for h in hosts:
                h.send_data_to_guest(o)
        else:
            guest.send_data_to_hosts(o, v if case["single"] else -1)
    for n in range(whole + 1):
        def recv():
            if not toguest:
                return hosts[v].recv_data_from_guest()
            if case["single"]:
                return guest.recv_data_from_hosts(v)
            return guest.recv_data_from_hosts(-1)[v]
        what = "%s %d of %d, whose peer disappears after %d bytes of messages of sizes %r (%s), " % ("guest receiving from host" if toguest else "host", v, k, cut, sizes, case["how"])
        if n < whole:
            try:
                got = recv()
            except Violation:
                raise
            except Exception as e:
                require(False, what + "fails on message %d, which arrived completely: %r", n, e)
            require(norm(got) == norm(objs[n]), what + "gets %.300r for message %d", got, n)
        else:
            refuses(recv, what + "receiving message %d" % n)
            refuses(recv, what + "receiving once more after message %d" % n)
    ctx.mark(cut not in (0, sum(sizes)))
    ctx.label(at[0], case["how"], "to guest" if toguest else "to host")


def broken_send(case, ctx):
    """Sending to a peer that is gone is reported."""
    k = case["k"]
    guest, hosts, net = federation(k, 12345, [[]])
    v = case["victim"] % k
    if case["toguest"]:
        net.ends[v].close()
        refuses(lambda: hosts[v].send_data_to_guest(case["obj"]), "sending to a guest that is gone")
        refuses(hosts[v].recv_data_from_guest, "receiving from a guest that is gone")
    else:
        net.clients[v].close()
        refuses(lambda: guest.send_data_to_hosts(case["obj"], v), "sending to host %d of %d, which is gone," % (v, k))
        refuses(lambda: guest.send_data_to_hosts(case["obj"], -1), "sending to all %d hosts, of which %d is gone," % (k, v))
        for h in hosts[:v] + hosts[v + 1:]:
            h.send_data_to_guest(case["obj"])
        refuses(lambda: guest.recv_data_from_hosts(-1), "receiving from all %d hosts, of which %d is gone," % (k, v))
    ctx.mark(k > 1)


def every_cut():
    cases = []
    objs = [("plain", [1, "ab"]), ("bytes", 30), ("plain", None)]
    for toguest in (False, True):
        for how in ("eof", "reset"):
            for pl in ([[]], [[3, 100]]):
                for m in range(3):
                    cases.append((m, "boundary", 0))
                    base = {"k": 2, "plans": pl, "victim": 1, "toguest": toguest, "single": m % 2 == 0, "how": how, "objs": objs}
                    cases.pop()
                    cases.append(dict(base, at=("boundary", m, 0)))
                    for b in range(15):
                        cases.append(dict(base, at=("header", m, b)))
                    for b in range(60):
                        cases.append(dict(base, at=("body", m, b)))
    return cases


OPS = ["to", "to", "all", "up", "up", "get", "getall", "down", "bad"]
small = st.one_of(st.tuples(st.just("plain"), plain), st.tuples(st.just("bytes"), st.integers(0, 100)), st.tuples(st.sampled_from(["digits", "array", "table", "text"]), st.integers(0, 60)))
SUBS = [
    Sub("routing", st.fixed_dictionaries({"k": st.integers(1, 5), "port": st.sampled_from([12345, 12345, 23456, 8080]), "plans": st.lists(plan, max_size=4),
                                          "ops": st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 20), small), min_size=1, max_size=24)}), routing,
        quick=6000, thorough=150000, shards=8, tshards=8,
        rule="1-24 sends and receives of a guest and 1-5 hosts over fragmenting connections, against queues; non-trivial = several hosts and operations"),
    Sub("many hosts", st.fixed_dictionaries({"k": st.sampled_from([6, 9, 10, 11, 16, 17, 33, 64]), "port": st.sampled_from([12345, 23456]), "plans": st.lists(plan, max_size=4),
                                             "ops": st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 80), small), min_size=4, max_size=40)}), routing,
        quick=320, thorough=6000, shards=8, tshards=8, rule="as routing with 6 to 64 hosts"),
    Sub("long", st.fixed_dictionaries({"k": st.integers(1, 3), "port": st.sampled_from([12345, 23456]), "plans": st.lists(plan, max_size=4), "times": st.integers(20, 60),
                                       "ops": st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 20), small), min_size=4, max_size=12)}).map(
            lambda c: dict(c, ops=[(op, i + r, sp) for r in range(c["times"]) for op, i, sp in c["ops"]])), routing,
        quick=64, thorough=1500, shards=8, tshards=8, rule="as routing with hundreds of messages"),
    Sub("crash", st.fixed_dictionaries({"k": st.integers(1, 3), "plans": st.lists(plan, max_size=3), "victim": st.integers(0, 2), "toguest": st.booleans(), "single": st.booleans(),
                                        "how": st.sampled_from(["eof", "reset"]), "objs": st.lists(spec, min_size=1, max_size=4),
                                        "at": st.tuples(st.sampled_from(["boundary", "header", "body", "end"]), st.integers(0, 4), st.integers(0, 300))}), crash,
        quick=5000, thorough=120000, shards=8, tshards=8,
        rule="1-4 messages of which the connection delivers a generated number of bytes before it closes or resets; non-trivial = cut inside the stream"),
    Sub("every_cut", None, crash, quick=1, shards=2, tshards=2, exhaustive=every_cut,
        rule="every byte of three small messages as the point of closing or reset; non-trivial as crash"),
    Sub("broken_send", st.fixed_dictionaries({"k": st.integers(1, 4), "victim": st.integers(0, 3), "toguest": st.booleans(), "obj": plain}), broken_send, quick=200, thorough=2000, shards=1, tshards=2,
        rule="sending to and receiving from a peer that has closed; non-trivial = several hosts"),
]
ASSUMPTIONS = ["the network delivers bytes in order and without loss, as TCP does", "a closed peer is seen by the sender as a broken pipe"]
