"""Seams, PRNG and bookkeeping of the deterministic simulator.

Everything nondeterministic that a run of Verse meets is decided here: one PRNG per case, one
choice stream for the schedule, one step counter for seam calls, one fault plan."""
import collections
import hashlib
import random


class Interrupt(KeyboardInterrupt):
    """Injected user interrupt (Ctrl-C delivered at a seam)."""


class AgentFault(RuntimeError):
    """Injected exception out of user agent / sensor code."""


class WorkerCrash(BaseException):
    """Injected death of the worker process which is running a task."""


class StepLimit(BaseException):
    """The run made more seam calls than a terminating run can."""


def sub_rng(*key):
    return random.Random(hashlib.sha256("/".join(map(str, key)).encode()).hexdigest())


class Choices:
    """Stream of scheduling decisions. Explicit recorded decisions first, then (in search) PRNG
    draws, or 0 (the default schedule) once a replayed list is exhausted."""

    def __init__(self, rec=None, seed=None):
        self.rec = list(rec or [])
        self.pos = 0
        self.rng = random.Random(seed) if seed is not None else None
        self.log = []

    def draw(self, n, bias=None):
        """an int in [0, n)"""
        if n <= 1:
            v = 0
        elif self.pos < len(self.rec):
            v = self.rec[self.pos] % n
        elif self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = 0
        self.pos += 1
        self.log.append(v)
        return v


class World:
    """State of one simulated execution."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.calls = 0  # seam calls made so far (driver side and worker side)
        self.kinds = collections.Counter()  # calls per kind of seam
        self.where = "driver"  # or ("task", n)
        self.limit = 10**9
        self.faults = {}  # (context, kind) -> list of plans
        self.fired = {}  # fault kind -> count
        self.plan = []  # [(kind, where, nth call)], one-shot faults
        self.task_calls = 0
        self.events = []
        self.sensed = 0

    def count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def ev(self, *a):
        self.events.append(a)

    def seam(self, kind, who):
        """Called by simulated agents and sensors whenever Verse calls into them."""
        self.calls += 1
        self.kinds[kind] += 1
        if self.calls > self.limit:
            raise StepLimit()
        if self.where != "driver":
            self.task_calls += 1
            if self.crash_at is not None and self.task_calls >= self.crash_at:
                self.crash_at = None
                raise WorkerCrash()
        for p in self.plan:
            if not p.get("done") and p["at"] <= self.calls:
                if p["kind"] == "interrupt":
                    if self.where != "driver":
                        continue
                elif kind == "ray":
                    continue
                p["done"] = True
                self.count(p["kind"])
                if p["kind"] == "agent_exception":
                    raise AgentFault("injected: %s %s" % (kind, who))
                if p["kind"] == "interrupt":
                    raise Interrupt()
                if p["kind"] == "alloc_failure":
                    raise MemoryError("injected")

    crash_at = None


W = World()
