"""Deterministic thread scheduler.

`install()` must run before uberjob (and anything that imports lock classes by name) is imported.  It
replaces the threading primitives by versions that behave as usual for ordinary threads, but for
threads belonging to a Session hand a baton around: exactly one controlled thread runs at a time, and
which one runs next is decided by a strategy at every scheduling point (lock operations, blocking,
points inside the plan's functions and, when op tracing is on, every bytecode of uberjob's own files).

Blocking is fully visible to the session, so a state in which no thread can run is detected exactly.
Time is virtual for controlled threads: it advances only when nothing else can run.
"""
import _thread
import os
import random
import sys
import threading
import time
import traceback

_real_alloc = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_time = time.time
_real_monotonic = time.monotonic
_real_perf = time.perf_counter
_real_sleep = time.sleep
_real_join = threading.Thread.join
_real_is_alive = threading.Thread.is_alive
_ident = _thread.get_ident

_by_ident = {}  # thread ident -> ControlledThread


def current():
    return _by_ident.get(_ident())


RUNNABLE, BLOCKED, DONE = 0, 1, 2
MAX_SYNC = 200_000


class ControlledThread:
    __slots__ = ("sess", "tid", "state", "baton", "waiting", "deadline", "timed_out", "inject", "thread", "ident", "gate", "prio")

    def __init__(self, sess, tid, thread):
        self.sess = sess
        self.tid = tid
        self.state = RUNNABLE
        self.baton = _real_alloc()
        self.baton.acquire()
        self.waiting = None
        self.deadline = None
        self.timed_out = False
        self.inject = None
        self.thread = thread
        self.gate = None
        self.ident = None
        self.prio = 0


class Strategy:
    """Chooses the next thread.  `sync` is called at synchronisation points, `op` at bytecodes."""

    def sync(self, sess, cur, runnable):
        return cur

    def pick(self, sess, runnable):
        return runnable[0]

    def next_op(self, sess):
        """number of op points until the next op decision (None: never)"""
        return None

    def op(self, sess, cur, runnable):
        return cur


class RandomStrategy(Strategy):
    def __init__(self, seed, p_sync=0.3, p_op=0.0):
        self.r = random.Random(seed)
        self.p_sync = p_sync
        self.p_op = p_op

    def sync(self, sess, cur, runnable):
        if len(runnable) > 1 and self.r.random() < self.p_sync:
            return self.r.choice(runnable)
        return cur

    def pick(self, sess, runnable):
        return self.r.choice(runnable)

    def next_op(self, sess):
        if not self.p_op:
            return None
        return 1 + int(self.r.expovariate(self.p_op))

    def op(self, sess, cur, runnable):
        return self.r.choice(runnable)


class PctStrategy(Strategy):
    """Probabilistic concurrency testing: random priorities, d random demotion points (op counts)."""

    def __init__(self, seed, d, horizon):
        self.r = random.Random(seed)
        self.points = sorted(self.r.randrange(1, max(2, horizon)) for _ in range(d))
        self.low = 0

    def _top(self, runnable):
        for t in runnable:
            if t.prio == 0:
                t.prio = 1000 + self.r.random()
        return max(runnable, key=lambda t: t.prio)

    def sync(self, sess, cur, runnable):
        return self._top(runnable)

    def pick(self, sess, runnable):
        return self._top(runnable)

    def next_op(self, sess):
        while self.points and self.points[0] <= sess.ops:
            self.points.pop(0)
        return self.points[0] - sess.ops if self.points else None

    def op(self, sess, cur, runnable):
        self.low -= 1
        cur.prio = self.low
        return self._top(runnable)


class PreemptStrategy(Strategy):
    """Non-preemptive except at the given op counts, where the k-th other runnable thread is chosen."""

    def __init__(self, points, seed=0, p_sync=0.0):
        self.points = sorted(points)
        self.r = random.Random(seed)
        self.p_sync = p_sync
        self.hit = 0

    def pick(self, sess, runnable):
        return self.r.choice(runnable)

    def sync(self, sess, cur, runnable):
        if self.p_sync and self.r.random() < self.p_sync:
            return self.r.choice(runnable)
        return cur

    def next_op(self, sess):
        while self.points and self.points[0][0] <= sess.ops:
            self.points.pop(0)
        return self.points[0][0] - sess.ops if self.points else None

    def op(self, sess, cur, runnable):
        k = self.points[0][1] if self.points else 0
        others = [t for t in runnable if t is not cur]
        if not others:
            return cur
        self.hit += 1
        return others[k % len(others)]


class Session:
    def __init__(self, strategy, trace_files=None, on_idle=None, max_points=MAX_SYNC, real_timeout=60.0):
        self.strategy = strategy
        self.threads = []
        self.log = []
        self.on_idle = on_idle
        self.now = 1_000_000.0
        self.ops = 0
        self.points = 0
        self.max_points = max_points
        self.left = None
        self.trace_files = trace_files  # callable filename -> bool, or None
        self.finished = _real_alloc()
        self.finished.acquire()
        self.hang = None
        self.over = False
        self.real_timeout = real_timeout
        self.caller = None
        self.idle_rounds = 0
        self.point_hook = None
        self.prefer = None  # thread that runs on until it blocks
        self.trace_caller = False

    # ------------------------------------------------------------------ core
    def runnable(self):
        return [t for t in self.threads if t.state == RUNNABLE]

    def _switch(self, cur, nxt):
        if nxt is cur:
            return
        nxt.baton.release()
        cur.baton.acquire()

    def point(self, ct):
        """A scheduling point at a synchronisation operation."""
        if self.over:
            return
        self.points += 1
        if self.points > self.max_points:
            self._declare_hang("step limit exceeded")
            self._park_forever()
        if self.point_hook is not None:
            self.point_hook(self, ct)
        r = self.runnable()
        if self.prefer is not None and self.prefer in r:
            self._switch(ct, self.prefer)
        elif len(r) > 1 or r[0] is not ct:
            self._switch(ct, self.strategy.sync(self, ct, r))
        if ct.inject is not None:
            exc, ct.inject = ct.inject, None
            raise exc

    def op_point(self, ct):
        self.ops += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0 or self.over:
            return
        r = self.runnable()
        if self.prefer is not None:
            nxt = self.prefer if self.prefer in r else ct
        elif len(r) > 1:
            nxt = self.strategy.op(self, ct, r)
        else:
            nxt = ct
        self.left = self.strategy.next_op(self)
        self._switch(ct, nxt)

    def block(self, ct, obj, deadline=None, gate=None):
        """Block ct on obj.  Returns False on (virtual) timeout."""
        if self.over:
            self._park_forever()
        self.points += 1
        if self.points > self.max_points:
            self._declare_hang("step limit exceeded")
            self._park_forever()
        if ct is self.prefer:
            self.prefer = None
        ct.state = BLOCKED
        ct.waiting = obj
        ct.deadline = deadline
        ct.timed_out = False
        ct.gate = gate
        nxt = self._next()
        if nxt is None:
            self._park_forever()
        self._switch(ct, nxt)
        ct.waiting = None
        ct.deadline = None
        ct.gate = None
        if ct.inject is not None:
            exc, ct.inject = ct.inject, None
            raise exc
        return not ct.timed_out

    def _next(self):
        """The next thread to run when the current one cannot continue; None when the session is over."""
        while True:
            r = self.runnable()
            if r:
                return self.prefer if self.prefer in r else self.strategy.pick(self, r)
            if all(t.state == DONE for t in self.threads):
                self._finish()
                return None
            timed = [t for t in self.threads if t.state == BLOCKED and t.deadline is not None]
            gated = any(t.gate is not None for t in self.threads if t.state == BLOCKED)
            if timed and (not gated or self.idle_rounds < 2 * len(timed)):
                if gated:
                    self.idle_rounds += 1
                self._advance(timed)
                continue
            self.idle_rounds = 0
            if self.on_idle is not None and self.on_idle(self):
                continue
            if timed:
                self._advance(timed)
                continue
            self._declare_hang("deadlock")
            return None

    def _advance(self, timed):
        """Let time pass until the next deadline."""
        self.now = max(self.now, min(t.deadline for t in timed))
        for t in timed:
            if t.deadline <= self.now:
                t.timed_out = True
                t.state = RUNNABLE

    def _declare_hang(self, why):
        self.hang = why
        self._finish()

    def _finish(self):
        if not self.over:
            self.over = True
            self.finished.release()

    def _park_forever(self):
        lock = _real_alloc()
        lock.acquire()
        lock.acquire()

    def wake(self, obj):
        for t in self.threads:
            if t.state == BLOCKED and t.waiting is obj:
                t.state = RUNNABLE

    def inject(self, ct, exc):
        """Deliver an exception to a thread blocked in a primitive (as a signal handler would)."""
        ct.inject = exc
        if ct.state == BLOCKED:
            ct.state = RUNNABLE

    # ------------------------------------------------------------------ thread life
    def spawn(self, fn, thread=None):
        ct = ControlledThread(self, len(self.threads), thread)
        self.threads.append(ct)

        def main():
            ct.baton.acquire()
            ident = _ident()
            _by_ident[ident] = ct
            ct.ident = ident
            if self.trace_files is not None and (ct is not self.caller or self.trace_caller):
                sys.settrace(make_tracer(self, ct))
            try:
                fn()
            except BaseException as e:  # noqa
                self.log.append({"e": "thread-died", "x": repr(e), "tb": traceback.format_exc()})
            finally:
                sys.settrace(None)
                ct.state = DONE
                _by_ident.pop(ident, None)
                self.wake(ct)
                if not self.over:
                    nxt = self._next()
                    if nxt is not None:
                        nxt.baton.release()

        _real_start(main, ())
        return ct

    def run(self, fn):
        """Run fn as the calling thread of the session; returns when every thread is done or on a hang."""
        self.left = self.strategy.next_op(self)
        self.caller = self.spawn(fn)
        self.caller.baton.release()
        if not self.finished.acquire(True, self.real_timeout):
            self.over = True
            self.hang = "uncontrolled"
        return self.hang

    # ------------------------------------------------------------------ for plan functions
    def gate(self, ct, key):
        """Block until the driver opens the gate."""
        self.block(ct, ("gate", key), gate=key)

    def gated(self):
        return [(t.gate, t) for t in self.threads if t.state == BLOCKED and t.gate is not None]

    def open_gate(self, t):
        t.state = RUNNABLE


def make_tracer(sess, ct):
    want = sess.trace_files
    cache = {}

    def local(frame, event, arg):
        if event == "opcode":
            sess.op_point(ct)
        return local

    def glob(frame, event, arg):
        fn = frame.f_code.co_filename
        w = cache.get(fn)
        if w is None:
            w = cache[fn] = bool(want(fn))
        if w:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return local
        return None

    return glob


# ---------------------------------------------------------------------- primitives
class CLock:
    __slots__ = ("_real", "__weakref__")

    def __init__(self):
        self._real = _real_alloc()

    def acquire(self, blocking=True, timeout=-1):
        ct = _by_ident.get(_ident())
        if ct is None:
            return self._real.acquire(blocking, timeout)
        sess = ct.sess
        sess.point(ct)
        if self._real.acquire(False):
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else sess.now + timeout
        while True:
            ok = sess.block(ct, self, deadline)
            if self._real.acquire(False):
                return True
            if not ok:
                return False

    def release(self):
        self._real.release()
        ct = _by_ident.get(_ident())
        if ct is not None:
            ct.sess.wake(self)
            ct.sess.point(ct)
        else:
            for c in list(_by_ident.values()):
                c.sess.wake(self)

    def locked(self):
        return self._real.locked()

    acquire_lock = acquire
    release_lock = release

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = _real_alloc()


class CRLock:
    def __init__(self):
        self._block = CLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _ident()
        if self._owner == me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    def release(self):
        if self._owner != _ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner == _ident()

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0


def _start_new_thread(fn, args=(), kwargs={}):
    ct = _by_ident.get(_ident())
    if ct is None:
        return _real_start(fn, args, kwargs)
    thread = getattr(fn, "__self__", None)
    sess = ct.sess
    hook = getattr(sess, "start_hook", None)
    if hook is not None:
        hook(sess, ct)  # may raise RuntimeError("can't start new thread")
    child = sess.spawn(lambda: fn(*args, **kwargs), thread)
    if isinstance(thread, threading.Thread):
        thread._vh_ct = child
    return id(child)


def _join(self, timeout=None):
    ct = _by_ident.get(_ident())
    child = getattr(self, "_vh_ct", None)
    if ct is None or child is None:
        return _real_join(self, timeout)
    if child is ct:
        raise RuntimeError("cannot join current thread")
    if not self._started.is_set():
        raise RuntimeError("cannot join thread before it is started")
    sess = ct.sess
    sess.point(ct)
    deadline = None if timeout is None else sess.now + max(timeout, 0)
    while child.state != DONE:
        if not sess.block(ct, child, deadline):
            return
    _real_join(self, None)


def _is_alive(self):
    ct = _by_ident.get(_ident())
    child = getattr(self, "_vh_ct", None)
    if ct is None or child is None:
        return _real_is_alive(self)
    return self._started.is_set() and child.state != DONE


def _time():
    ct = _by_ident.get(_ident())
    return ct.sess.now if ct is not None else _real_time()


def _monotonic():
    ct = _by_ident.get(_ident())
    return ct.sess.now if ct is not None else _real_monotonic()


def _perf():
    ct = _by_ident.get(_ident())
    return ct.sess.now if ct is not None else _real_perf()


def _sleep(secs):
    ct = _by_ident.get(_ident())
    if ct is None:
        return _real_sleep(secs)
    ct.sess.block(ct, ("sleep", id(ct)), ct.sess.now + max(secs, 0))


_installed = False


def install():
    global _installed
    if _installed:
        return
    assert "uberjob" not in sys.modules
    _installed = True
    # Python 3.12 only delivers opcode events to threads that start tracing after some frame has asked for them
    sys._getframe().f_trace_opcodes = True
    import queue

    threading.Lock = CLock
    threading._allocate_lock = CLock
    threading.RLock = CRLock
    threading._start_new_thread = _start_new_thread
    threading._time = _monotonic
    threading.Thread.join = _join
    threading.Thread.is_alive = _is_alive
    time.time = _time
    time.monotonic = _monotonic
    time.perf_counter = _perf
    time.sleep = _sleep
    queue.time = _monotonic
    if hasattr(queue, "_PySimpleQueue"):
        queue.SimpleQueue = queue._PySimpleQueue
