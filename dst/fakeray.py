"""In-process, deterministic stand-in for `ray`, installed in sys.modules before verse is
imported. Same observable contract as the parts of Ray that Verse may use:

* arguments of a task and objects put in the store are snapshots (serialised when submitted),
  every task and every get() sees its own copy, numpy buffers in such copies are read-only;
* a task may finish at any time after it was submitted, in any order relative to other tasks;
  wait() returns num_returns finished tasks and the rest in the order given;
* a worker may die while it runs a task; the task is run again from its snapshot, up to
  max_retries times; after that get() raises WorkerCrashedError;
* an exception in a task is raised by get() as a RayTaskError that is also an instance of the
  exception's class;
* a lost object is rebuilt by running the task again.

The virtual workers have their own `random` / `numpy.random` state. All times are virtual."""
import heapq
import io
import pickle
import random
import sys
import types

import cloudpickle
import numpy as np

from .core import W, WorkerCrash, StepLimit, Choices

MAX_RETRIES = 3


def _dumps(obj):
    bufs = []
    data = cloudpickle.dumps(obj, protocol=5, buffer_callback=lambda b: bufs.append(bytes(b.raw())))
    return data, bufs


def _loads(snap):
    data, bufs = snap
    return pickle.loads(data, buffers=bufs)  # bytes buffers -> read-only arrays


class RayError(Exception):
    pass


class RayTaskError(RayError):
    def __init__(self, cause, *a):
        super().__init__("task failed: %r" % (cause,))
        self.cause = cause


class WorkerCrashedError(RayError):
    pass


class ObjectLostError(RayError):
    pass


class GetTimeoutError(RayError, TimeoutError):
    pass


class TaskCancelledError(RayError):
    pass


def _task_error(e):
    """like Ray: both a RayTaskError and an instance of the cause's class when possible"""
    if isinstance(e, Exception) and type(e) is not Exception:
        try:
            cls = type("RayTaskError(%s)" % type(e).__name__, (RayTaskError, type(e)), {
                "__init__": lambda self, c: RayTaskError.__init__(self, c),
                "__reduce__": lambda self: (_task_error, (self.cause,))})
            return cls(e)
        except TypeError:
            pass
    return RayTaskError(e)


class ObjectRef:
    __slots__ = ("n", "__weakref__")

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "ObjectRef(%d)" % self.n

    def __hash__(self):
        return hash(("ref", self.n))

    def __eq__(self, o):
        return isinstance(o, ObjectRef) and o.n == self.n

    def hex(self):
        return "%08x" % self.n


class Task:
    __slots__ = ("n", "fn", "args", "state", "result", "attempts", "finish", "retries", "dup")

    def __init__(self, n, fn, args, retries):
        self.n, self.fn, self.args = n, fn, args
        self.state = "pending"
        self.result = None
        self.attempts = 0
        self.retries = retries


class Cluster:
    """The simulated Ray cluster of one case."""

    def __init__(self, sched=None, choices=None):
        sched = sched or {}
        self.sched = sched
        self.ch = choices or Choices()
        self.now = 0.0
        self.inited = bool(sched.get("preinit", False))
        self.store = {}
        self.n = 0
        self.workers = max(1, sched.get("workers", 4))
        self.free = [0.0] * self.workers
        self.rand = []
        for w in range(self.workers):
            r = random.Random(1000 + w)
            self.rand.append((r.getstate(), np.random.RandomState(1000 + w).get_state()))
        self.crash_p = sched.get("crash", 0)  # per cent
        self.lost_p = sched.get("lost", 0)
        self.dup_p = sched.get("dup", 0)
        self.kill_task = sched.get("kill_task")  # index of a task whose worker always dies
        self.mode = sched.get("mode", "random")
        self.tasks = []
        self.inflight = []  # submitted, result not yet handed to the driver
        self.max_inflight = 0
        self.outcome = []  # schedule signature
        self.live_history = []
        self.waits = 0
        self.inner = False

    # -- scheduling ---------------------------------------------------------------------------
    def duration(self):
        m = self.mode
        if m == "fifo":
            return 1.0
        if m == "random":
            return 1.0 + self.ch.draw(16)
        if m == "straggler":
            return 200.0 if self.ch.draw(4) == 1 else 1.0
        if m == "lifo":  # later submissions finish earlier
            return max(0.001, 1000.0 - len(self.tasks))
        if m == "burst":  # all tasks of a window finish together
            return 50.0 - (self.now % 50.0) + 0.001 * self.ch.draw(8)
        return 1.0 + self.ch.draw(16)

    def submit(self, fn, args, kwargs, retries):
        W.seam("ray", "submit")
        if self.inner:
            raise RayError("nested task submission is not modelled")
        if not self.inited:
            self.inited = True
        args = [("ref", a.n) if isinstance(a, ObjectRef) else ("val", _dumps(a)) for a in args]
        kw = {k: ("ref", v.n) if isinstance(v, ObjectRef) else ("val", _dumps(v)) for k, v in kwargs.items()}
        self.n += 1
        t = Task(self.n, _dumps(fn) if not isinstance(fn, types.FunctionType) else fn, (args, kw), retries)
        self.store[self.n] = t
        self.tasks.append(t)
        w = min(range(self.workers), key=lambda i: (self.free[i], i))
        start = max(self.now, self.free[w])
        t.finish = start + self.duration()
        self.free[w] = t.finish
        W.ev("submit", t.n)
        ref = ObjectRef(self.n)
        self.inflight.append(t)
        self.max_inflight = max(self.max_inflight, len(self.inflight))
        return ref

    def value(self, a):
        kind, v = a
        if kind == "val":
            return _loads(v)
        return self.fetch(v)

    def run_once(self, t):
        """one execution of the task body on a virtual worker"""
        w = (t.n + t.attempts) % self.workers
        t.attempts += 1
        args = [self.value(a) for a in t.args[0]]
        kw = {k: self.value(a) for k, a in t.args[1].items()}
        fn = t.fn
        saved = random.getstate(), np.random.get_state()
        random.setstate(self.rand[w][0])
        np.random.set_state(self.rand[w][1])
        outer = W.where, W.task_calls, W.crash_at
        W.where, W.task_calls = ("task", t.n), 0
        W.crash_at = None
        if self.kill_task is not None and self.kill_task == self.tasks.index(t):
            W.crash_at = 1 + self.ch.draw(6)
        elif self.crash_p and t.attempts <= MAX_RETRIES and self.ch.draw(100) >= 100 - self.crash_p:
            W.crash_at = 1 + self.ch.draw(40)
        self.inner = True
        try:
            try:
                res = ("ok", _dumps(fn(*args, **kw)))
            except WorkerCrash:
                W.count("worker_crash_mid_task")
                W.ev("crash", t.n, t.attempts)
                return None
            except StepLimit:
                raise
            except KeyboardInterrupt:
                # a worker killed by a signal
                res = ("err", _dumps(RayTaskError("KeyboardInterrupt")))
            except Exception as e:
                try:
                    res = ("err", _dumps(_task_error(e)))
                    _loads(res[1])
                except Exception:
                    res = ("err", _dumps(RayTaskError(repr(e))))
            if W.crash_at is not None and W.task_calls:
                # died after the work was done, before the result was stored
                W.count("worker_crash_after_task")
                W.ev("crash", t.n, t.attempts)
                return None
            return res
        finally:
            self.inner = False
            W.where, W.task_calls, W.crash_at = outer
            self.rand[w] = (random.getstate(), np.random.get_state())
            random.setstate(saved[0])
            np.random.set_state(saved[1])

    def execute(self, t):
        while True:
            res = self.run_once(t)
            if res is not None:
                break
            if t.attempts > t.retries:
                W.count("worker_crash_final")
                res = ("err", _dumps(WorkerCrashedError("worker died")))
                break
            W.count("task_retry")
            self.now += 1.0
        if res[0] == "ok" and self.dup_p and self.ch.draw(100) >= 100 - self.dup_p:
            W.count("duplicate_execution")
            again = self.run_once(t)
            if again is not None:
                res = again
        t.result = res
        t.state = "done"
        W.ev("done", t.n)

    def fetch(self, n):
        t = self.store[n]
        if isinstance(t, Task):
            if t.state == "pending":
                self.now = max(self.now, t.finish)
                self.execute(t)
            kind, snap = t.result
            if kind == "err":
                raise _loads(snap)
            return _loads(snap)
        return _loads(t[1])

    # -- API ----------------------------------------------------------------------------------
    def put(self, obj):
        self.inited = True
        self.n += 1
        self.store[self.n] = ("obj", _dumps(obj))
        W.ev("put", self.n)
        return ObjectRef(self.n)

    def get(self, refs, timeout=None):
        if isinstance(refs, (list, tuple)):
            return [self.get(r) for r in refs]
        if not isinstance(refs, ObjectRef):
            raise TypeError("Attempting to call `get` on the value %r" % (refs,))
        t = self.store[refs.n]
        if isinstance(t, Task):
            if t.state == "done" and self.lost_p and t.result[0] == "ok" and self.ch.draw(100) >= 100 - self.lost_p:
                W.count("object_lost_rebuilt")
                t.state = "pending"
                t.finish = self.now + 1
            if t in self.inflight:
                self.inflight.remove(t)
            self.outcome.append(t.n)
            W.ev("get", t.n)
        return self.fetch(refs.n)

    def wait(self, refs, num_returns=1, timeout=None, fetch_local=True):
        self.waits += 1
        if not self.inner:
            W.seam("ray", "wait")
        refs = list(refs)
        if not refs:
            raise ValueError("wait() expected a non-empty list of ray.ObjectRef")
        if len(set(refs)) != len(refs):
            raise ValueError("Wait requires a list of unique object refs.")
        if num_returns > len(refs):
            raise ValueError("num_returns cannot be greater than the number of objects")
        self.live_history.append(len(refs))

        def key(r):
            t = self.store[r.n]
            return (t.finish if isinstance(t, Task) else 0.0)

        ready = []
        if timeout is not None:
            horizon = self.now + timeout
            cand = [r for r in refs if key(r) <= horizon]
            num = min(num_returns, len(cand))
            if num < num_returns:
                self.now = horizon
        else:
            cand, num = refs, num_returns
        order = sorted(cand, key=lambda r: (key(r), r.n))
        for _ in range(num):
            t0 = key(order[0])
            # everything that is already complete at that moment is eligible
            moment = max(self.now, t0)
            elig = [r for r in order if key(r) <= moment]
            r = elig[self.ch.draw(len(elig))]
            order.remove(r)
            ready.append(r)
            t = self.store[r.n]
            self.now = max(self.now, key(r))
            if isinstance(t, Task) and t.state == "pending":
                self.execute(t)
        rs = set(ready)
        return [r for r in refs if r in rs], [r for r in refs if r not in rs]


_cur = Cluster()


def install_cluster(c):
    global _cur
    _cur = c
    return c


def current():
    return _cur


class RemoteFunction:
    def __init__(self, fn, **opts):
        self._fn = fn
        self._opts = opts

    def options(self, **o):
        return RemoteFunction(self._fn, **{**self._opts, **o})

    def remote(self, *a, **kw):
        r = self._opts.get("max_retries", MAX_RETRIES)
        return _cur.submit(self._fn, a, kw, 10**6 if r < 0 else r)

    def __call__(self, *a, **kw):
        raise TypeError("Remote functions cannot be called directly.")

    def __reduce__(self):
        return RemoteFunction, (self._fn,)


def make_module():
    m = types.ModuleType("ray")
    m.__path__ = []

    def remote(*a, **kw):
        if len(a) == 1 and not kw and callable(a[0]):
            return RemoteFunction(a[0])
        return lambda f: RemoteFunction(f, **kw)

    def init(*a, **kw):
        if _cur.inited and not kw.get("ignore_reinit_error"):
            raise RuntimeError("Maybe you called ray.init twice by accident?")
        _cur.inited = True
        W.ev("init")

    def shutdown(*a, **kw):
        _cur.inited = False

    m.remote = remote
    m.init = init
    m.shutdown = shutdown
    m.is_initialized = lambda: _cur.inited
    m.put = lambda o, **kw: _cur.put(o)
    m.get = lambda r, timeout=None, **kw: _cur.get(r, timeout)
    m.wait = lambda refs, num_returns=1, timeout=None, fetch_local=True, **kw: _cur.wait(refs, num_returns, timeout, fetch_local)
    m.ObjectRef = ObjectRef
    m.timeline = lambda *a, **kw: []
    m.nodes = lambda: [{"Alive": True}]
    m.cluster_resources = lambda: {"CPU": float(_cur.workers)}
    m.available_resources = lambda: {"CPU": float(_cur.workers)}

    def cancel(ref, **kw):
        t = _cur.store.get(ref.n)
        if isinstance(t, Task) and t.state == "pending":
            t.state = "done"
            t.result = ("err", _dumps(TaskCancelledError()))
            if t in _cur.inflight:
                _cur.inflight.remove(t)

    m.cancel = cancel
    m.kill = lambda *a, **kw: None
    ex = types.ModuleType("ray.exceptions")
    for c in (RayError, RayTaskError, WorkerCrashedError, ObjectLostError, GetTimeoutError, TaskCancelledError):
        setattr(ex, c.__name__, c)
    m.exceptions = ex
    m.__version__ = "2.60.0"
    return m, ex


def install():
    m, ex = make_module()
    sys.modules["ray"] = m
    sys.modules["ray.exceptions"] = ex
    return m
