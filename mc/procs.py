"""A controlled scheduler for multiprocessing.

Importing this module before the code under test replaces Process, Queue,
JoinableQueue, SimpleQueue and cpu_count of the multiprocessing package by
stand-ins. Processes are real (fork), so memory is separated as it is in
production; but a process stops at every operation on a queue and at its end
until the scheduler, which lives in the parent, lets it take that one step.
World.explore() enumerates the schedules: depth-first, re-executing from the
start, with sleep sets, so every Mazurkiewicz trace of the visible operations is
executed once. Processes which have not taken a step yet are interchangeable and
only the first of them is tried.

Faults (optional): the first process is killed before its n-th step, with or
without the lock of the queue it is waiting at; a timed wait of the parent runs out
while others could still run.
"""
import multiprocessing
import os
import pickle
import queue as _queue
import signal
import socket
import struct
import sys

REAL = {n: getattr(multiprocessing, n) for n in ("Process", "Queue", "JoinableQueue", "SimpleQueue", "cpu_count")}
WORLD = None
CPUS = 2


class Deadlock(BaseException):
    """nothing can run any more, or the parent polls forever"""


class Redundant(BaseException):
    """this schedule is equivalent to one explored already"""


def _send(sock, obj):
    data = pickle.dumps(obj)
    sock.sendall(struct.pack("!I", len(data)) + data)


def _recv(sock):
    def exactly(n):
        buf = b""
        while len(buf) < n:
            part = sock.recv(n - len(buf))
            if not part:
                raise EOFError
            buf += part
        return buf

    return pickle.loads(exactly(struct.unpack("!I", exactly(4))[0]))


class SimProcess(object):
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        SimProcess._count += 1
        self.name = name or "Sim-%d" % SimProcess._count
        self.daemon = bool(daemon)
        self.idx = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        assert self.idx is None, "cannot start a process twice"
        WORLD.start(self)

    @property
    def pid(self):
        return None if self.idx is None else WORLD.kids[self.idx].pid

    ident = pid
    sentinel = None

    def is_alive(self):
        if self.idx is None:
            return False
        return WORLD.parent_op(("alive", ("p", self.idx), None))

    @property
    def exitcode(self):
        if self.idx is None:
            return None
        return WORLD.parent_op(("exitcode", ("p", self.idx), None))

    def join(self, timeout=None):
        assert self.idx is not None, "can only join a started process"
        WORLD.parent_op(("pjoin", ("p", self.idx), timeout))

    def terminate(self):
        if self.idx is not None:
            WORLD.parent_op(("terminate", ("p", self.idx), None))

    kill = terminate

    def close(self):
        pass


class SimQueue(object):
    kind = "queue"

    def __init__(self, maxsize=0, **kw):
        self.qid = WORLD.new_queue()

    def _op(self, name, arg=None):
        return WORLD.op((name, ("q", self.qid), arg))

    def put(self, obj, block=True, timeout=None):
        try:
            data = pickle.dumps(obj)
        except Exception:
            if self.kind == "simple":
                raise
            # the feeder thread of a real queue reports the error and drops the item
            return
        self._op("put", data)

    def put_nowait(self, obj):
        self.put(obj)

    def get(self, block=True, timeout=None):
        if not block:
            r = self._op("get_nowait")
        elif timeout is not None:
            r = self._op("get_timed", timeout)
        else:
            r = self._op("get")
        if r is None:
            raise _queue.Empty
        return pickle.loads(r)

    def get_nowait(self):
        return self.get(block=False)

    def empty(self):
        return self._op("size") == 0

    def qsize(self):
        return self._op("size")

    def full(self):
        return False

    def task_done(self):
        if self._op("task_done") is False:
            raise ValueError("task_done() called too many times")

    def join(self):
        self._op("qjoin")

    def close(self):
        pass

    join_thread = cancel_join_thread = close


class SimSimpleQueue(SimQueue):
    kind = "simple"


def _queue_factory(*a, **kw):
    return SimQueue(*a, **kw) if WORLD is not None else REAL["Queue"](*a, **kw)


def _simple_factory(*a, **kw):
    return SimSimpleQueue() if WORLD is not None else REAL["SimpleQueue"](*a, **kw)


def install():
    multiprocessing.Process = SimProcess
    multiprocessing.Queue = _queue_factory
    multiprocessing.JoinableQueue = _queue_factory
    multiprocessing.SimpleQueue = _simple_factory
    multiprocessing.cpu_count = lambda: CPUS
    os_cpu = os.cpu_count

    class Context(object):
        Process = SimProcess
        Queue = staticmethod(_queue_factory)
        JoinableQueue = staticmethod(_queue_factory)
        SimpleQueue = staticmethod(_simple_factory)
        cpu_count = staticmethod(lambda: CPUS)

    multiprocessing.get_context = lambda method=None: Context
    return os_cpu


class Kid(object):
    def __init__(self, pid, sock):
        self.pid, self.sock = pid, sock
        self.pending = None  # the operation it is about to take
        self.virgin = True
        self.steps = 0
        self.exit = None  # exit code once it ended


class Q(object):
    def __init__(self):
        self.items = []
        self.unfinished = 0
        self.writers, self.readers = set(), set()
        self.polled = False
        self.dead_lock = False  # a killed process still holds the reader's lock


READ_ONLY = ("size",)


def independent(s, a, t, b):
    """do operations a of process s and b of process t commute, when both can be taken"""
    if a[0] == "terminate" and t == a[1][1] or b[0] == "terminate" and s == b[1][1]:
        return False
    if a[0] == "timeout" or b[0] == "timeout":
        return False
    if "killlock" in (a[0], b[0]):
        return not (a[0].startswith("get") or b[0].startswith("get") or a[1] == b[1])
    if a[1] != b[1]:
        return True
    k = {a[0], b[0]}
    if k == {"task_done"} or k <= {"size"}:
        return True
    if "qjoin" in k or "size" in k or "get_nowait" in k:
        return False
    if "task_done" in k:
        return True
    if "put" in k and len(k) == 2:
        return True  # put and get, both possible: the queue is not empty
    return k <= {"alive", "exitcode"}


class Unreduced(BaseException):
    """an assumption of the reduction turned out wrong"""


class World(object):
    def __init__(self, path, kill=None, early_timeouts=0, fifo=True):
        self.fifo = fifo  # assume: queues the caller puts to are only read by blocking get
        self.path = path  # nodes of the search tree, the part to be replayed first
        self.depth = 0
        self.kids = []
        self.queues = []
        self.child = None
        self.kill = kill  # (n, lock): the first process is killed before its n-th step
        self.early = early_timeouts
        self.idle_polls = 0
        self.trace = []
        self.parent_pending = None
        self.was_killed = False

    # ---- used by the code under test
    def new_queue(self):
        self.queues.append(Q())
        return len(self.queues) - 1

    def start(self, proc):
        mine, theirs = socket.socketpair()
        proc.idx = len(self.kids)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                mine.close()
                for k in self.kids:
                    k.sock.close()
                self.child = theirs
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 2)
                try:
                    proc.run()
                    code = 0
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                except BaseException:
                    code = 1
                self.op(("exit", ("p", proc.idx), code))
            except BaseException:
                pass
            finally:
                os._exit(code)
        theirs.close()
        kid = Kid(pid, mine)
        self.kids.append(kid)
        self._await(kid)

    def op(self, op):
        if self.child is None:
            return self.parent_op(op)
        try:
            _send(self.child, op)
            return _recv(self.child)
        except (EOFError, OSError):
            os._exit(9)

    # ---- the scheduler
    def _await(self, kid):
        try:
            kid.pending = _recv(kid.sock)
            kid.steps += 1
            if self.kill is not None and kid is self.kids[0] and kid.steps == self.kill[0]:
                if not self.kill[1]:
                    kid.pending = ("kill", ("p", 0), None)
                elif kid.pending[0] == "get":
                    kid.pending = ("killlock", ("p", 0), kid.pending[1][1])
        except (EOFError, OSError):
            # it ended in a way of its own, like os._exit() or a signal
            kid.pending = None
            _, status = os.waitpid(kid.pid, 0)
            kid.exit = os.waitstatus_to_exitcode(status)

    def possible(self, op, who):
        name, obj, arg = op
        if obj[0] == "q":
            q = self.queues[obj[1]]
            if name in ("get", "get_timed"):
                return bool(q.items) and not (q.dead_lock and who != "main")
            if name == "qjoin":
                return q.unfinished == 0
            return True
        if name == "pjoin":
            return self.kids[obj[1]].exit is not None
        return True

    def options(self):
        out = {}
        if self.parent_pending and self.possible(self.parent_pending, "main"):
            out["main"] = self.parent_pending
        virgin = False
        for i, k in enumerate(self.kids):
            if k.pending is None or k.exit is not None:
                continue
            if self.possible(k.pending, i):
                if self.kill is None or i > 0:
                    if k.virgin and virgin:
                        continue
                    virgin = virgin or k.virgin
                out[i] = k.pending
        others = bool(out)
        if self.parent_pending and "main" not in out:
            name, obj, arg = self.parent_pending
            if (name == "get_timed" or name == "pjoin" and arg is not None) and (not others or self.early > 0):
                out["timeout"] = ("timeout", obj, not others)
        return out

    def reduced(self, opts):
        """a step which commutes with everything others may still do needs no alternative"""
        if self.fifo:
            for t, o in opts.items():
                if o[0] in ("task_done", "exit", "kill") or t == "main" and o[0] in ("put", "get", "pjoin", "qjoin") or t == "main" and o[0] == "get_timed" and not self.early:
                    return [t]
        return list(opts)

    def choose(self):
        if self.depth < len(self.path):
            node = self.path[self.depth]
        else:
            opts = self.options()
            sleep = {}
            if self.path:
                up = self.path[-1]
                c = up["opts"][up["chosen"]]
                for t, o in list(up["sleep"].items()) + [(t, up["opts"][t]) for t in up["done"]]:
                    if t != up["chosen"] and independent(t, o, up["chosen"], c) and opts.get(t) == o:
                        sleep[t] = o
            node = dict(opts=opts, sleep=sleep, done=[], chosen=None)
            if not opts:
                raise Deadlock("nothing can run: caller waits at %s, processes at %s" % (
                    self.parent_pending and self.parent_pending[0],
                    [k.pending and k.pending[0] if k.exit is None else "ended" for k in self.kids]))
            node["try"] = self.reduced(opts)
            free = [t for t in node["try"] if t not in sleep]
            if not free:
                raise Redundant()
            node["chosen"] = free[0]
            self.path.append(node)
        self.depth += 1
        if self.depth > 4000:
            raise Deadlock("no end after %d steps" % self.depth)
        return node["chosen"], node["opts"][node["chosen"]]

    def parent_op(self, op):
        self.parent_pending = op
        while True:
            t, o = self.choose()
            self.trace.append((t, o[0], o[1][1]))
            if t == "main":
                r = self.execute(op, "main")
                self.parent_pending = None
                if op[0] not in ("alive", "exitcode", "size", "get_nowait"):
                    self.idle_polls = 0
                return r
            if t == "timeout":
                self.parent_pending = None
                if o[2]:
                    self.idle_polls += 1
                    if self.idle_polls > 60:
                        raise Deadlock("the caller polls forever")
                else:
                    self.early -= 1
                return None
            self.idle_polls = 0
            kid = self.kids[t]
            kid.virgin = False
            op_, kid.pending = kid.pending, None
            r = self.execute(op_, t)
            if kid.exit is not None:
                continue
            _send(kid.sock, r)
            self._await(kid)

    def execute(self, op, who):
        name, obj, arg = op
        if obj[0] == "q":
            q = self.queues[obj[1]]
            if name == "put":
                q.writers.add(who)
            elif name in ("get_nowait", "size") or name == "get_timed" and who != "main":
                q.polled = True
            if name == "get":
                q.readers.add(who)
            if self.fifo and (q.polled or "main" in q.writers and len(q.writers) > 1 or "main" in q.readers and len(q.readers) > 1):
                raise Unreduced()
            if name == "put":
                q.items.append(arg)
                q.unfinished += 1
            elif name in ("get", "get_timed"):
                return q.items.pop(0)
            elif name == "get_nowait":
                return q.items.pop(0) if q.items else None
            elif name == "size":
                return len(q.items)
            elif name == "task_done":
                if q.unfinished <= 0:
                    return False
                q.unfinished -= 1
            return True
        kid = self.kids[obj[1]]
        if self.fifo and name in ("alive", "exitcode") and kid.exit is None:
            raise Unreduced()
        if name == "alive":
            return kid.exit is None
        if name == "exitcode":
            return kid.exit
        if name == "terminate":
            if kid.exit is None:
                os.kill(kid.pid, signal.SIGKILL)
                os.waitpid(kid.pid, 0)
                kid.sock.close()
                kid.exit, kid.pending = -15, None
        if name in ("kill", "killlock"):
            if name == "killlock":
                self.queues[arg].dead_lock = True
            kid.exit = -9
            self.was_killed = True
            os.kill(kid.pid, signal.SIGKILL)
            os.waitpid(kid.pid, 0)
            kid.sock.close()
        if name == "exit":
            _send(kid.sock, True)
            os.waitpid(kid.pid, 0)
            kid.sock.close()
            kid.exit = arg
        return None

    def running(self):
        return [i for i, k in enumerate(self.kids) if k.exit is None]

    def drain(self):
        """let what is still running go on by itself: what ends, ends"""
        while True:
            for i, k in enumerate(self.kids):
                if k.exit is None and k.pending is not None and self.possible(k.pending, i):
                    break
            else:
                return
            op_, k.pending = k.pending, None
            r = self.execute(op_, i)
            if op_[0] != "exit":
                _send(k.sock, r)
                self._await(k)

    def cleanup(self):
        for k in self.kids:
            if k.exit is None:
                try:
                    os.kill(k.pid, signal.SIGKILL)
                    os.waitpid(k.pid, 0)
                except OSError:
                    pass
                k.exit = -9
            k.sock.close()


def explore(run, kill=None, early_timeouts=0, stats=None):
    """Calls run(world) under every schedule; yields (world, result or exception).

    run is called with the world installed. A schedule may be reported again when
    an assumption of the reduction turns out wrong and the search starts over.
    """
    global WORLD
    path, fifo = [], True
    while True:
        w = WORLD = World(path, kill, early_timeouts, fifo)
        try:
            try:
                r = run(w)
            except (Redundant, Deadlock) as e:
                r = e
            except Unreduced:
                path, fifo = [], False
                continue
            if not isinstance(r, Redundant):
                yield w, r
            elif stats is not None:
                stats["redundant"] = stats.get("redundant", 0) + 1
        finally:
            WORLD = None
            w.cleanup()
        # the next schedule
        while path:
            node = path[-1]
            node["done"].append(node["chosen"])
            rest = [t for t in node["try"] if t not in node["done"] and t not in node["sleep"]]
            if rest:
                node["chosen"] = rest[0]
                break
            path.pop()
        if not path:
            return


if os.environ.get("VERIF_REAL_PROCS") != "1":
    install()
