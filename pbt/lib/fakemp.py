"""Deterministic stand-in for the parts of `multiprocessing` the corpus tasks use.

Workers are real forked processes, but each queue operation is a request that a scheduler in the parent answers; which
pending request is answered next is taken from a generated list of integers. Only one worker runs at a time, so a run is a
pure function of (inputs, schedule). When no schedule is active everything is delegated to the real multiprocessing.
"""
import collections
import multiprocessing as _mp
import multiprocessing.connection as _conn
import os
import pickle
import queue as _queue
import signal
import time
import traceback

REAL = {n: getattr(_mp, n) for n in ("Process", "Manager", "Queue", "SimpleQueue", "JoinableQueue", "cpu_count")}
REAL_OS_CPU = os.cpu_count

_active = None       # Scheduler in the parent
_child = None        # connection in a worker


class Stuck(AssertionError):
    """No process can make progress any more: the real program would wait for ever."""


class Scheduler:
    def __init__(self, choices, cpus=9, kills=(), hooks=(), pids=None):
        self.pids = pids                             # (first, stride) of the numbers the workers are told to be their process ids
        self.hooks, self.hooked = list(hooks), 0     # functions called in the parent after the n-th queue operation of the workers
        self.choices, self.pos, self.cpus = list(choices), 0, cpus
        self.kills, self.killed = {(w, n): mode for w, n, mode in kills}, 0     # worker w dies at its n-th queue operation
        self.children, self.queues, self.steps = [], [], 0
        self.crashes, self.trace = [], []

    # -- choices
    def pick(self, n):
        if n <= 1:
            return 0
        if self.pos >= len(self.choices):
            return 0
        c = self.choices[self.pos]
        self.pos += 1
        return c % n

    # -- children
    def wait_request(self, ch, timeout=10.0):
        """Reads the next request of a child (which is running) - or notes its end."""
        if ch.req is not None or ch.done:
            return
        try:
            if not ch.conn.poll(timeout):
                return
            msg = ch.conn.recv()
        except (EOFError, ConnectionError, OSError):
            ch.finish()
            return
        if msg[0] == "exit":
            ch.finish()
        elif msg[0] == "crash":
            self.crashes.append(msg[1])
            ch.finish()
        else:
            ch.req = msg

    def runnable(self):
        out = []
        for ch in self.children:
            if ch.done:
                continue
            if ch.req is None:
                self.wait_request(ch, 0.0)
            if ch.req is None or ch.done:
                continue
            if self.servable(ch.req):
                out.append(ch)
        return out

    def servable(self, req):
        op, qid = req[0], req[1]
        q = self.queues[qid]
        if op == "get":
            return len(q.items) > 0 or not req[2]
        if op == "put":
            return not q.full_() or not req[3]
        return True

    def busy(self):
        return [ch for ch in self.children if not ch.done and ch.req is None]

    def serve(self, ch):
        req, ch.req = ch.req, None
        q = self.queues[req[1]]
        ch.ops += 1
        mode = self.kills.get((self.children.index(ch), ch.ops))
        if mode == "before":
            self.killed += 1
            ch.kill()
            return
        try:
            val = ("ok", q.apply(req))
        except BaseException as e:
            val = ("err", e)
        self.steps += 1
        self.trace.append((self.children.index(ch), req[0], req[1]))
        for n, fn in self.hooks:
            if n == self.steps:
                self.hooked += 1
                fn()
        if self.steps > 20000:
            raise Stuck("more than 20000 queue operations: the workers do not come to an end")
        if mode == "after":
            self.killed += 1
            ch.kill()
            return
        try:
            ch.conn.send(val)
        except (BrokenPipeError, OSError):
            ch.finish()
            return
        self.wait_request(ch)

    def step(self):
        """Lets one worker make one step. False if none can."""
        r = self.runnable()
        while not r:
            b = self.busy()
            if not b:
                return False
            ready = _conn.wait([c.conn for c in b], timeout=150)
            if not ready:
                raise Stuck("worker neither ends nor uses a queue")
            for c in b:
                self.wait_request(c, 0.0)
            r = self.runnable()
            if not r and not self.busy():
                return False
        self.serve(r[self.pick(len(r))])
        return True

    def parent_point(self):
        """Before an operation of the parent, workers may overtake it."""
        while True:
            r = self.runnable()
            if not r:
                return
            k = self.pick(len(r) + 1)
            if k == 0:
                return
            self.serve(r[k - 1])

    def close(self):
        for ch in self.children:
            ch.kill()


class FakeQueue:
    def __init__(self, maxsize=0):
        self.sched = _active
        self.qid = len(_active.queues)
        self.items = collections.deque()
        self.maxsize = maxsize
        self.unfinished = 0
        _active.queues.append(self)

    def __reduce__(self):
        return (_lookup, (self.qid,))

    def full_(self):
        return self.maxsize > 0 and len(self.items) >= self.maxsize

    def apply(self, req):
        op = req[0]
        if op == "put":
            if self.full_():
                raise _queue.Full()
            self.items.append(req[2])
            self.unfinished += 1
            return None
        if op == "get":
            if not self.items:
                raise _queue.Empty()
            return self.items.popleft()
        if op == "qsize":
            return len(self.items)
        if op == "done":
            self.unfinished -= 1
            return None
        raise ValueError(op)

    def _call(self, *req):
        if _child is not None:
            _child.send(req)
            kind, val = _child.recv()
            if kind == "err":
                raise val
            return val
        s = self.sched
        s.parent_point()
        if req[0] in ("get", "put"):
            while not s.servable(req):
                if not s.step():
                    raise Stuck("the parent waits for ever on a queue (%s); worker errors: %s" % (req[0], s.crashes))
        return self.apply(req)

    def put(self, item, block=True, timeout=None):
        self._call("put", self.qid, pickle.dumps(item), block and timeout is None)

    def get(self, block=True, timeout=None):
        return pickle.loads(self._call("get", self.qid, block and timeout is None))

    def put_nowait(self, item):
        self.put(item, False)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return self._call("qsize", self.qid)

    def empty(self):
        return self.qsize() == 0

    def full(self):
        return self.maxsize > 0 and self.qsize() >= self.maxsize

    def task_done(self):
        self._call("done", self.qid)

    def join(self):
        while self.unfinished > 0:
            if not self.sched.step():
                raise Stuck("queue.join() waits for ever")

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


def _lookup(qid):
    return _active.queues[qid]


class FakeProcess:
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        FakeProcess._count += 1
        self.name = name or "FakeProcess-%d" % FakeProcess._count
        self.daemon = bool(daemon)
        self.pid = self.os_pid = None
        self.exitcode = None
        self.done = False
        self.req = None
        self.conn = None
        self.ops = 0

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        global _child
        s = _active
        assert self.pid is None, "process started twice"
        a, b = _mp.Pipe()
        told = s.pids and s.pids[0] + s.pids[1] * len(s.children)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                if told:
                    os.getpid = lambda: told
                for n in (signal.SIGALRM, signal.SIGPROF):
                    signal.signal(n, signal.SIG_DFL)
                _child = b
                a.close()
                for ch in s.children:
                    if ch.conn is not None:
                        ch.conn.close()
                self.pid = os.getpid()
                self.run()
                b.send(("exit",))
                code = 0
            except BaseException:
                try:
                    b.send(("crash", traceback.format_exc()))
                except BaseException:
                    pass
            finally:
                os._exit(code)
        b.close()
        self.pid, self.os_pid, self.conn = told or pid, pid, a
        s.children.append(self)
        s.wait_request(self)

    def finish(self):
        if self.done:
            return
        self.done = True
        _, status = os.waitpid(self.os_pid, 0)
        self.exitcode = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
        self.conn.close()

    def kill(self):
        if not self.done and self.pid:
            try:
                os.kill(self.os_pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.finish()

    terminate = kill

    def join(self, timeout=None):
        s = _active
        while not self.done:
            if not s.step():
                if self.done or timeout is not None:
                    return
                raise Stuck("join() waits for ever: every worker waits on an empty queue; worker errors: %s" % s.crashes)

    def is_alive(self):
        return self.pid is not None and not self.done

    def close(self):
        pass

    @property
    def ident(self):
        return self.pid


class FakeManager:
    def Queue(self, maxsize=0):
        return FakeQueue(maxsize)

    JoinableQueue = Queue

    def shutdown(self):
        pass

    def start(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class _Process:
    """`multiprocessing.Process`: a stand-in while a schedule is active, the real class otherwise."""
    def __new__(cls, *a, **k):
        return FakeProcess(*a, **k) if _active is not None else REAL["Process"](*a, **k)


def _factory(name, fake):
    def make(*a, **k):
        if _active is not None and _child is None:
            return fake(*a, **k)
        return REAL[name](*a, **k)
    make.__name__ = name
    return make


def _cpu_count():
    return _active.cpus if _active is not None else REAL["cpu_count"]()


def install():
    """Must run before the code under test is imported."""
    _mp.Process = _Process
    _mp.Manager = _factory("Manager", FakeManager)
    _mp.Queue = _factory("Queue", FakeQueue)
    _mp.SimpleQueue = _factory("SimpleQueue", lambda: FakeQueue())
    _mp.JoinableQueue = _factory("JoinableQueue", FakeQueue)
    _mp.cpu_count = _cpu_count
    os.cpu_count = lambda: _active.cpus if _active is not None else REAL_OS_CPU()


def elsewhere(f):
    """Run f in another process, outside of the schedule: (True, its result) or (False, text of the exception)."""
    global _active
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _active = None
            try:
                said = (True, f())
            except BaseException:
                said = (False, traceback.format_exc())
            with os.fdopen(w, "wb") as p:
                p.write(pickle.dumps(said))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as p:
        data = p.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (False, "the process ended")


class scheduled:
    """Context manager: run the code under test under the given schedule."""
    def __init__(self, choices=(), cpus=9, kills=(), hooks=(), pids=None):
        self.s = Scheduler(choices, cpus, kills, hooks, pids)

    def __enter__(self):
        global _active
        assert _active is None
        _active = self.s
        return self.s

    def __exit__(self, *a):
        global _active
        _active = None
        self.s.close()
        return False
