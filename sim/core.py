"""The scheduler: simulated threads, preemption points, fault injection and locks.

Simulated threads are real threads of which exactly one holds the baton; all others are parked on
a semaphore of their own.  The baton moves only where the scenario says so: at preemption points
(every source line and every call executed in the code under test, and in the Keras functions that
run a layer), when a thread blocks on a lock and when it ends.  Nothing else is concurrent, so the
scenario and the code determine the whole execution.
"""
import gc
import sys
import threading
import time
import types
import zlib

_real_lock = threading.Lock
_real_rlock = threading.RLock

TOOL = 4
EVENTS = sys.monitoring.events

LINE, CALL = "line", "call"

EXCEPTIONS = {
    "memory": lambda: MemoryError("simulated: out of memory"),
    "resource": lambda: RuntimeError("RESOURCE_EXHAUSTED: simulated: out of memory on the device"),
    "os": lambda: OSError(5, "simulated: input/output error"),
    "value": lambda: ValueError("simulated: operation failed"),
    "interrupt": lambda: KeyboardInterrupt("simulated"),
    "exit": lambda: SystemExit("simulated"),
}


class Deadlock(Exception):
    pass


class Hang(Exception):
    """No progress in real time: not decided by the simulator, an error of the harness."""


class Abandoned(BaseException):
    """Raised in parked threads to get rid of them when a run is given up."""


_current = None  # the running simulation


# --------------------------------------------------------------------------------------------
# locks created by the code under test


class SimLock:
    """Lock whose waiting is decided by the simulator inside a run, a real lock outside."""

    reentrant = False

    def __init__(self):
        self._real = _real_rlock() if self.reentrant else _real_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = _current
        me = sim.me() if sim else None
        if me is None:
            return self._real.acquire(blocking, timeout)
        sim.preempt_point(me, "lock", "acquire")
        while self._owner is not None and not (self.reentrant and self._owner is me):
            if not blocking:
                return False
            sim.counters["lock_waits"] += 1
            if not sim.block(me, self, timed=timeout is not None and timeout >= 0):
                return False
        self._owner = me
        self._count += 1
        return True

    def release(self):
        sim = _current
        me = sim.me() if sim else None
        if me is None and self._owner is None:
            return self._real.release()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if sim:
                sim.wake(self)

    def locked(self):
        return self._owner is not None or (not self.reentrant and self._real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock(SimLock):
    reentrant = True


_prefix = None


def install_lock_seam(prefix):
    """Locks made by code in files below `prefix` (directly, or by a threading or queue object it
    makes) are simulated."""
    global _prefix
    _prefix = prefix

    def from_code_under_test():
        frame = sys._getframe(2)
        for _ in range(3):
            if frame is None:
                return False
            name = frame.f_code.co_filename
            if name.startswith(_prefix):
                return True
            if not name.endswith(("/threading.py", "/queue.py", "/functools.py")):
                return False
            frame = frame.f_back
        return False

    def lock():
        return SimLock() if from_code_under_test() else _real_lock()

    def rlock(*a, **k):
        return SimRLock() if from_code_under_test() else _real_rlock(*a, **k)

    def waiter():
        return SimLock() if _current and _current.me() and from_code_under_test() else _real_lock()

    threading.Lock = lock
    threading.RLock = rlock
    threading._allocate_lock = waiter  # what conditions, events and queues wait on

    real_sleep = time.sleep

    def sleep(seconds):
        sim = _current
        me = sim.me() if sim else None
        if me is None:
            return real_sleep(seconds)
        sim.sleep(me, seconds)

    time.sleep = sleep


# --------------------------------------------------------------------------------------------
# preemption points

_codes = {}  # code object -> (name, is code under test, faults allowed)

KERAS_POINTS = [
    # module, class, functions, faults allowed
    ("keras.src.layers.convolutional.base_conv", "BaseConv", ["call", "convolution_op"], True),
    ("keras.src.layers.convolutional.base_conv_transpose", "BaseConvTranspose", ["call"], True),
    ("keras.src.layers.pooling.base_pooling", "BasePooling", ["call"], True),
    ("keras.src.layers.convolutional.base_conv", "BaseConv", ["get_config", "compute_output_shape"], False),
    ("keras.src.layers.convolutional.base_conv_transpose", "BaseConvTranspose", ["get_config", "compute_output_shape"], False),
    ("keras.src.layers.pooling.base_pooling", "BasePooling", ["get_config"], False),
    ("keras.src.layers.layer", "Layer", ["__call__", "_maybe_build"], False),
    ("keras.src.backend.common.variables", "KerasVariable", ["assign", "__array__"], False),
    ("keras.src.backend.common.variables", "KerasVariable", ["value"], False),
]


def _walk(code, found):
    if code in found:
        return
    found.add(code)
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            _walk(const, found)


def instrument():
    """Find the code objects of the code under test and ask for their line and call events."""
    import importlib

    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "groco-sim")
    mon.register_callback(TOOL, EVENTS.LINE, _on_line)
    mon.register_callback(TOOL, EVENTS.CALL, _on_call)
    found = set()
    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType) and obj.__code__.co_filename.startswith(_prefix):
            _walk(obj.__code__, found)
    new = [c for c in found if c not in _codes]
    for code in new:
        rel = code.co_filename[len(_prefix):]
        _codes[code] = (f"{rel}:{code.co_qualname}", True, True)
    for module, cls, names, faults in KERAS_POINTS:
        try:
            owner = getattr(importlib.import_module(module), cls)
        except (ImportError, AttributeError):
            continue
        for name in names:
            fn = owner.__dict__.get(name)
            fn = getattr(fn, "fget", None) or getattr(fn, "__wrapped__", None) or fn
            code = getattr(fn, "__code__", None)
            if code is not None and code not in _codes:
                _codes[code] = (f"keras:{cls}.{name}", False, faults)
                new.append(code)
    for code in new:
        mon.set_local_events(TOOL, code, EVENTS.LINE | EVENTS.CALL)
    return len(_codes)


def _on_line(code, line):
    sim = _current
    if sim is None:
        return
    me = sim.me()
    if me is not None:
        info = _codes.get(code)
        if info is not None:
            sim.event(me, LINE, info, line)


def _on_call(code, offset, callable_, arg0):
    sim = _current
    if sim is None:
        return
    me = sim.me()
    if me is not None:
        info = _codes.get(code)
        if info is not None:
            sim.event(me, CALL, info, offset)


# --------------------------------------------------------------------------------------------


class Op:
    """What one thread is doing: the unit faults are addressed by."""

    __slots__ = ("label", "events", "own_events", "faults", "fired", "inhibit")

    def __init__(self, label, faults):
        self.label = label
        self.events = 0  # eligible for an operation failing
        self.own_events = 0  # eligible for an interrupt
        self.faults = faults
        self.fired = []
        self.inhibit = 0


class SimThread:
    def __init__(self, sim, tid, body):
        self.sim, self.tid, self.body = sim, tid, body
        self.baton = threading.Semaphore(0)
        self.steps = 0
        self.done = False
        self.waiting = None
        self.timed = False
        self.op = None
        self.where = "start"
        self.error = None
        self.switches = {}
        self.own_steps = []
        self.thread = threading.Thread(target=self._run, name=f"sim-{tid}", daemon=True)

    def _run(self):
        sim = self.sim
        sim.idents[threading.get_ident()] = self
        self.baton.acquire()
        try:
            if not sim.abandoned:
                self.body()
        except Abandoned:
            pass
        except BaseException as e:  # noqa: a thread body reports everything
            self.error = e
        self.done = True
        sim.idents.pop(threading.get_ident(), None)
        sim.finished(self)


class Sim:
    """One run.

    switches: list of {"t": thread, "k": its k-th preemption point, "to": thread}
    faults: list of {"op": label, "k": k-th eligible event of that op, "kind": line|call,
            "exc": name}
    """

    def __init__(self, switches=(), faults=(), max_steps=400000, hang_after=240.0):
        self.threads = []
        self.idents = {}
        self.switches, self.faults = list(switches), list(faults)
        self.max_steps, self.hang_after = max_steps, hang_after
        self.total = 0
        self.digest = 0
        self.switch_digest = 0
        self.counters = {
            "preemptions": 0, "lock_waits": 0, "steps": 0, "faults": 0,
        }
        self.fault_counts = {}
        self.pairs = set()
        self.fault_sites = set()
        self.abandoned = None
        self.over = _real_lock()
        self.over.acquire()
        self.clock = 0  # event sequence number, for histories
        self.op_log = {}

    # -- set up

    def spawn(self, body):
        t = SimThread(self, len(self.threads), body)
        self.threads.append(t)
        return t

    def me(self):
        return self.idents.get(threading.get_ident())

    def run(self):
        global _current
        for s in self.switches:
            if s["t"] < len(self.threads):
                self.threads[s["t"]].switches[s["k"]] = s["to"]
        for t in self.threads:
            t.thread.start()
        # a thread registers itself before it waits for the baton
        _current = self
        try:
            self.threads[0].baton.release()
            if not self.over.acquire(timeout=self.hang_after):
                raise Hang(self.describe())
        finally:
            _current = None
        for t in self.threads:
            t.thread.join(30)
        self.counters["steps"] = self.total
        if isinstance(self.abandoned, BaseException):
            raise self.abandoned
        for t in self.threads:
            if t.error is not None:
                raise t.error

    def describe(self):
        return "; ".join(
            f"thread {t.tid}: {'done' if t.done else 'at ' + t.where}"
            f"{' waiting for a lock' if t.waiting else ''}"
            for t in self.threads
        )

    # -- while running; only the thread with the baton gets here

    def event(self, me, kind, info, where):
        if self.abandoned:
            return
        name, own, faults = info
        me.steps += 1
        self.total += 1
        me.where = f"{name}:{where}"
        if own or kind == "point":
            me.own_steps.append(me.steps)
        self.digest = zlib.crc32(f"{me.tid}{kind}{name}".encode(), self.digest)
        op = me.op
        if op is not None and faults and not op.inhibit:
            if kind == CALL:
                op.events += 1
                n = op.events
            else:
                op.own_events += own
                n = op.own_events if own else -1
            for fault in op.faults:
                if fault["kind"] == kind and fault["k"] == n and fault not in op.fired:
                    op.fired.append(fault)
                    self.counters["faults"] += 1
                    exc = fault["exc"]
                    self.fault_counts[exc] = self.fault_counts.get(exc, 0) + 1
                    self.fault_sites.add(f"{kind}:{name}")
                    self.digest = zlib.crc32(f"fault{exc}".encode(), self.digest)
                    raise EXCEPTIONS[exc]()
        if self.total > self.max_steps:
            self.give_up(Deadlock("no end after %d steps: %s" % (self.total, self.describe())))
            raise Abandoned()
        to = me.switches.get(me.steps)
        if to is not None:
            self.preempt(me, to)

    def preempt_point(self, me, name, where):
        """A preemption point that is not an event of instrumented code."""
        self.event(me, "point", (name, False, False), where)

    def preempt(self, me, to):
        target = self.threads[to] if to < len(self.threads) else None
        if target is None or target is me or target.done or target.waiting:
            return
        self.counters["preemptions"] += 1
        a, b = me.where.rsplit(":", 1)[0], target.where.rsplit(":", 1)[0]
        self.pairs.add((a, b))
        self.switch_digest = zlib.crc32(f"{me.tid}>{to}@{me.where}".encode(), self.switch_digest)
        self.hand_over(me, target)

    def hand_over(self, me, target):
        target.baton.release()
        me.baton.acquire()
        if self.abandoned:
            raise Abandoned()

    def sleep(self, me, seconds):
        """Sleeping lets the others go on; the simulated clock only counts."""
        self.counters["slept"] = self.counters.get("slept", 0) + seconds
        self.event(me, "point", ("sleep", False, False), "sleep")
        target = self.runnable(me.tid)
        if target is not None and target is not me:
            self.hand_over(me, target)

    def runnable(self, after):
        n = len(self.threads)
        for i in range(1, n + 1):
            t = self.threads[(after + i) % n]
            if not t.done and not t.waiting:
                return t
        for i in range(1, n + 1):  # a timed wait ends when nothing else can happen
            t = self.threads[(after + i) % n]
            if not t.done and t.waiting and t.timed:
                t.waiting = None
                return t
        return None

    def block(self, me, lock, timed):
        """Wait for a lock; False if a timed wait ended without it."""
        me.waiting, me.timed = lock, timed
        target = self.runnable(me.tid)
        if target is None:
            self.give_up(Deadlock(self.describe()))
            raise Abandoned()
        if target is not me:
            self.hand_over(me, target)
        return lock._owner is None or not timed

    def wake(self, lock):
        for t in self.threads:
            if t.waiting is lock:
                t.waiting = None

    def finished(self, me):
        if self.abandoned or me.error is not None:
            if me.error is not None and not self.abandoned:
                self.give_up(me.error)
            for t in self.threads:
                if not t.done:
                    t.baton.release()
            if all(t.done for t in self.threads):
                self._end()
            return
        target = self.runnable(me.tid)
        if target is not None:
            target.baton.release()
        elif all(t.done for t in self.threads):
            self._end()
        else:
            self.give_up(Deadlock(self.describe()))
            for t in self.threads:
                if not t.done:
                    t.baton.release()

    def _end(self):
        try:
            self.over.release()
        except RuntimeError:
            pass

    def give_up(self, error):
        if not self.abandoned:
            self.abandoned = error
            for t in self.threads:
                t.waiting = None

    # -- for bodies

    def op(self, label):
        return _OpScope(self, label)

    def tick(self):
        self.clock += 1
        return self.clock

    def pause(self, name="user"):
        """A preemption point in the workload, for example in a user supplied function."""
        me = self.me()
        if me is not None:
            self.event(me, "point", (name, False, False), me.steps)


class _OpScope:
    def __init__(self, sim, label):
        self.sim, self.label = sim, label

    def __enter__(self):
        me = self.sim.me()
        self.me = me
        self.previous = me.op
        me.op = Op(self.label, [f for f in self.sim.faults if f["op"] == self.label])
        self.sim.op_log[self.label] = me.op
        return me.op

    def __exit__(self, kind, value, tb):
        self.me.op = self.previous
        return False


def current():
    """The simulation of the calling thread, or None."""
    sim = _current
    return sim if sim is not None and sim.me() is not None else None


class inhibit_faults:
    """No faults inside, for what the workload does on its own behalf."""

    def __enter__(self):
        sim = _current
        me = sim.me() if sim else None
        self.op = me.op if me else None
        if self.op:
            self.op.inhibit += 1

    def __exit__(self, *a):
        if self.op:
            self.op.inhibit -= 1
        return False
