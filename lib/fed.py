"""In-process federation: one guest and k hosts as threads, exactly one of which runs at a time.

A scheduler in the calling thread decides who runs next (from a generated list of integers), so a
whole federated run is a pure function of the case; a state in which nobody can run is a deadlock.
Messages are pickled and unpickled as the socket transport does.
"""
import pickle
import sys
import threading

from vf import Violation


class Abort(BaseException):
    pass


class Deadlock(Violation):
    pass


class PartyError(Exception):
    """An exception raised inside a party; vf_cause keeps the original for classification."""

    def __init__(self, name, cause):
        super().__init__("%s failed: %s: %s" % (name, type(cause).__name__, cause))
        self.vf_cause = cause
        self.party = name


class Party:
    def __init__(self, sched, name, fn):
        self.sched = sched
        self.name = name
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.state = "ready"      # ready | waiting | done
        self.cond = None          # while waiting: a function telling whether it may go on
        self.why = ""
        self.error = None
        self.result = None
        self.thread = threading.Thread(target=self._run, name=name, daemon=True)

    def _run(self):
        self.sem.acquire()
        try:
            if self.sched.aborting:
                raise Abort()
            self.result = self.fn()
        except Abort:
            pass
        except BaseException as e:
            self.error = e
        self.state = "done"
        self.sched.main.release()


class Scheduler:
    def __init__(self, schedule=(), max_switches=200000):
        self.schedule = list(schedule) or [0]
        self.k = 0
        self.parties = []
        self.main = threading.Semaphore(0)
        self.aborting = False
        self.current = None
        self.switches = 0
        self.max_switches = max_switches

    def spawn(self, name, fn):
        p = Party(self, name, fn)
        self.parties.append(p)
        return p

    # called from a party thread
    def pause(self, cond=None, why=""):
        p = self.current
        p.cond = cond
        p.why = why
        p.state = "waiting" if cond is not None else "ready"
        self.main.release()
        p.sem.acquire()
        p.state = "ready"
        p.cond = None
        if self.aborting:
            raise Abort()

    def _choose(self, runnable):
        v = self.schedule[self.k % len(self.schedule)]
        self.k += 1
        return runnable[v % len(runnable)]

    def run(self):
        """Runs all parties to completion.  Raises PartyError for the first party error, Deadlock
        when nobody can run."""
        for p in self.parties:
            p.thread.start()
        dead = None
        while True:
            alive = [p for p in self.parties if p.state != "done"]
            if not alive:
                break
            if any(p.error is not None for p in self.parties):
                break
            runnable = [p for p in alive if p.state == "ready" or p.cond()]
            if not runnable:
                dead = "deadlock: " + "; ".join("%s %s" % (p.name, p.why or p.state) for p in alive)
                break
            self.switches += 1
            if self.switches > self.max_switches:
                dead = "no progress: more than %d scheduling steps" % self.max_switches
                break
            p = self._choose(runnable)
            self.current = p
            p.sem.release()
            self.main.acquire()
        self.aborting = True
        for p in self.parties:
            while p.state != "done":
                self.current = p
                p.sem.release()
                self.main.acquire()
        for p in self.parties:
            p.thread.join(10)
        for p in self.parties:
            if p.error is not None:
                if isinstance(p.error, Violation):
                    raise p.error
                raise PartyError(p.name, p.error) from p.error
        if dead:
            raise Deadlock(dead)


class Wire:
    """One guest <-> k hosts; FIFO per direction."""

    def __init__(self, sched, n_hosts, rendezvous=False):
        self.sched = sched
        self.n = n_hosts
        self.down = [[] for _ in range(n_hosts)]   # guest -> host
        self.up = [[] for _ in range(n_hosts)]     # host -> guest
        self.rendezvous = rendezvous
        self.log = []                              # (src, dst, bytes)

    def put(self, queue, src, dst, obj):
        blob = pickle.dumps(obj)
        self.log.append((src, dst, blob))
        queue.append(blob)
        if self.rendezvous:
            want = len(queue)
            self.sched.pause(lambda q=queue, b=blob: not any(x is b for x in q), "is sending to %s" % dst)
        else:
            self.sched.pause()

    def get(self, queue, who, frm):
        self.sched.pause(lambda q=queue: len(q) > 0, "waits for a message from %s" % frm)
        return pickle.loads(queue.pop(0))

    def leftovers(self):
        return sum(len(q) for q in self.down) + sum(len(q) for q in self.up)


class GuestLink:
    def __init__(self, wire):
        self.wire = wire

    def send_data_to_hosts(self, data, index):
        w = self.wire
        if index == -1:
            idx = range(w.n)
        elif 0 <= index < w.n:
            idx = [index]
        else:
            raise ValueError("index out of range")
        for i in idx:
            w.put(w.down[i], "guest", "host%d" % i, data)

    def recv_data_from_hosts(self, index):
        w = self.wire
        if index == -1:
            return [w.get(w.up[i], "guest", "host%d" % i) for i in range(w.n)]
        if 0 <= index < w.n:
            return w.get(w.up[index], "guest", "host%d" % index)
        raise ValueError("index out of range")


class HostLink:
    def __init__(self, wire, i):
        self.wire = wire
        self.i = i

    def send_data_to_guest(self, data):
        w = self.wire
        w.put(w.up[self.i], "host%d" % self.i, "guest", data)

    def recv_data_from_guest(self):
        w = self.wire
        return w.get(w.down[self.i], "host%d" % self.i, "guest")
