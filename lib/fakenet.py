"""An in-memory stand-in for the socket module: every recv/send is cut according to a generated
plan, and a peer can be made to close or reset at any byte.  Single-threaded: a receive that could
only be satisfied by a message that was never sent raises Stuck."""
import socket as real
import types

from vf import Violation


class Stuck(Violation):
    pass


class Pipe:
    """One direction of a connection."""

    def __init__(self, plan):
        self.buf = bytearray()
        self.sent = 0
        self.limit = None      # the byte at which the sender disappears
        self.how = None        # "eof" | "reset"
        self.closed = False    # the sender closed in order
        self.reader_gone = False
        self.wait = None       # wait(cond, why): lets other parties run until cond(); None: nobody else runs
        self.plan = plan
        self.turn = 0
        self.empty_reads = 0

    def cut(self, n):
        """How much of n bytes is moved by this call."""
        if not self.plan or n <= 0:
            return n
        p = self.plan[self.turn % len(self.plan)]
        self.turn += 1
        return max(1, min(n, p)) if p > 0 else n

    def write(self, data):
        if self.reader_gone:
            raise BrokenPipeError(32, "Broken pipe")
        data = bytes(data)
        if self.limit is not None:
            keep = max(0, self.limit - self.sent)
            data = data[:keep]
        self.buf += data
        self.sent += len(data)

    @property
    def ended(self):
        return self.closed or (self.limit is not None and self.sent >= self.limit)

    def read(self, n, peek=False):
        if self.wait is not None and not self.buf and not self.ended:
            self.wait(lambda: self.buf or self.ended, "waits for bytes")
        if self.buf:
            k = min(n, len(self.buf))
            out = bytes(self.buf[:k])
            if not peek:
                del self.buf[:k]
            return out
        if self.ended:
            if self.how == "reset":
                raise ConnectionResetError(104, "Connection reset by peer")
            self.empty_reads += 1
            if self.empty_reads > 500:
                raise Stuck("the receiver keeps reading a connection its peer has closed")
            return b""
        raise Stuck("the receiver waits for bytes that were never sent")


class Conn:
    """One end of a connection; the parts of socket.socket a transport may use."""

    def __init__(self, out, inn):
        self.out, self.inn = out, inn
        self.family, self.type = real.AF_INET, real.SOCK_STREAM
        self.open = True

    def recv(self, n, flags=0):
        peek = bool(flags & real.MSG_PEEK)
        if n <= 0:
            return b""
        if flags & real.MSG_WAITALL:
            out = bytearray()
            while len(out) < n:
                try:
                    more = self.inn.read(n - len(out), peek)
                except ConnectionResetError:
                    if out:
                        break
                    raise
                if not more:
                    break
                out += more
                if peek:
                    break
            return bytes(out)
        return self.inn.read(self.inn.cut(n), peek)

    def recv_into(self, buf, nbytes=0, flags=0):
        view = memoryview(buf).cast("B")
        data = self.recv(nbytes or len(view), flags)
        view[:len(data)] = data
        return len(data)

    def recvfrom(self, n, flags=0):
        return self.recv(n, flags), None

    def sendall(self, data, flags=0):
        self.out.write(memoryview(data).cast("B"))

    def send(self, data, flags=0):
        data = bytes(memoryview(data).cast("B"))
        n = self.out.cut(len(data))
        self.out.write(data[:n])
        return n

    def sendmsg(self, buffers, *a):
        return self.send(b"".join(bytes(b) for b in buffers))

    def makefile(self, mode="r", buffering=None, **k):
        import io
        conn = self

        class Raw(io.RawIOBase):
            def readable(self):
                return "r" in mode

            def writable(self):
                return "w" in mode

            def readinto(self, b):
                return conn.recv_into(b)

            def write(self, b):
                return conn.send(b)
        raw = Raw()
        if buffering == 0:
            return raw
        if "r" in mode and "w" in mode:
            return io.BufferedRWPair(raw, raw)
        return io.BufferedReader(raw) if "r" in mode else io.BufferedWriter(raw)

    def close(self):
        self.open = False
        self.out.closed = True
        self.inn.reader_gone = True

    def shutdown(self, how=2):
        if how in (real.SHUT_WR, real.SHUT_RDWR):
            self.out.closed = True

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return None

    def setblocking(self, f):
        pass

    def fileno(self):
        return -1

    peer, name = ("127.0.0.1", 1), ("127.0.0.1", 2)

    def getpeername(self):
        return self.peer

    def getsockname(self):
        return self.name

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def pair(plan_ab=(), plan_ba=()):
    ab, ba = Pipe(plan_ab), Pipe(plan_ba)
    return Conn(ab, ba), Conn(ba, ab)


class Net:
    """A network with one listening address; `on_accept(i)` is called when the server waits for
    connection i and has to make a client connect."""

    def __init__(self, plans=((),)):
        self.plans = [list(p) for p in plans]
        self.listening = None
        self.queue = []
        self.connected = 0
        self.accepted = 0
        self.on_accept = None
        self.wait = None
        self.on_connect = None
        self.ends, self.clients = [], []     # the server's and the clients' ends, in order of connection
        net = self

        class Sock(Conn):
            def __init__(self, family=real.AF_INET, type=real.SOCK_STREAM, proto=0, fileno=None):
                self.addr = None
                self.open = True

            def bind(self, addr):
                self.addr = addr

            def listen(self, backlog=128):
                net.listening = self.addr
                net.backlog = backlog

            def connect(self, addr):
                if net.listening is None or addr[1] != net.listening[1] or addr[0] not in ("127.0.0.1", "localhost", net.listening[0] or "127.0.0.1"):
                    raise ConnectionRefusedError(111, "Connection refused: %r, the server listens at %r" % (addr, net.listening))
                i = net.connected
                net.connected += 1
                a, b = pair(net.plans[(2 * i) % len(net.plans)], net.plans[(2 * i + 1) % len(net.plans)])
                Conn.__init__(self, a.out, a.inn)
                # clients' ports are in no particular order
                self.name = b.peer = ("127.0.0.1", 40000 + (i * 7919 + 4001 * len(net.plans)) % 20011)
                self.peer = b.name = ("127.0.0.1", addr[1])
                if net.wait is not None:
                    a.out.wait = a.inn.wait = net.wait
                net.queue.append(b)
                net.ends.append(b)
                net.clients.append(self)
                if net.on_connect is not None:
                    net.on_connect()

            def accept(self):
                if not net.queue and net.wait is not None:
                    net.wait(lambda: net.queue, "waits for a connection")
                elif not net.queue:
                    net.on_accept(net.accepted)
                if not net.queue:
                    raise Stuck("the server waits for a connection nobody makes")
                net.accepted += 1
                c = net.queue.pop(0)
                return c, c.peer

        self.module = types.SimpleNamespace(**{k: getattr(real, k) for k in dir(real) if not k.startswith("__")})
        self.module.socket = Sock
        self.module.create_connection = lambda addr, *a, **k: (lambda s: (s.connect(addr), s)[1])(Sock())

        def create_server(addr, *a, **k):
            s = Sock()
            s.bind(addr), s.listen()
            return s
        self.module.create_server = create_server


def install(mod, net):
    """Makes `mod` use the network, however it imports the socket module; returns a function that undoes it."""
    here = {id(real): net.module, id(real.socket): net.module.socket, id(real.create_connection): net.module.create_connection}
    if hasattr(real, "create_server"):
        here[id(real.create_server)] = net.module.create_server
    old = {k: v for k, v in vars(mod).items() if id(v) in here}
    for k, v in old.items():
        setattr(mod, k, here[id(v)])

    def undo():
        for k, v in old.items():
            setattr(mod, k, v)
    return undo
