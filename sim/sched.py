"""Deterministic thread scheduler: real threads, one baton, every switch decided here.

A *task* is a real thread which runs only while it holds the baton.  Tasks give the baton
away at yield points: line (or opcode) events inside the traced source files, contended
simulated locks, queue waits, sleeps, joins, pool waits.  Which task runs next is decided
by a seeded policy and recorded; a recorded decision list replays the same execution.
"""

import _thread
import os
import queue
import random
import sys
import threading
import time

_real_lock = _thread.allocate_lock
_real_start = _thread.start_new_thread
_get_ident = _thread.get_ident
_real_sleep = time.sleep
_orig_join = threading.Thread.join

SIM = None  # the simulation under way in this process, if any


class SimDeadlock(BaseException):
    pass


class SimStepLimit(BaseException):
    pass


class Task:
    __slots__ = (
        "tid",
        "name",
        "baton",
        "pred",
        "wake",
        "done",
        "local",
        "next",
        "blocks",
        "client",
        "error",
        "result",
        "yielding",
        "low",
        "call",
    )

    def __init__(self, tid, name, client):
        self.tid = tid
        self.name = name
        self.client = client
        self.baton = _real_lock()
        self.baton.acquire()
        self.pred = None  # not None: blocked until pred() is true
        self.wake = None  # simulated time at which a timed wait ends
        self.done = False
        self.local = 0  # yield points passed
        self.next = 1 << 60
        self.blocks = 0
        self.error = None
        self.result = None
        self.yielding = False
        self.low = False
        self.call = None  # number of the client's current call


class Sim:
    """One simulated execution.

    policy: {"seed": int, "gap": mean number of yield points between preemptions (0: no
    preemption), "starve": task id run only when nothing else can, "opcode": bool}
    decisions: recorded decision list; when given, the policy is ignored.
    """

    def __init__(
        self, policy=None, decisions=None, files=(), max_steps=3_000_000, pool=4
    ):
        self.policy = policy or {}
        self.rng = random.Random(f"sched-{self.policy.get('seed', 0)}")
        self.gap = self.policy.get("gap", 0)
        self.starve = self.policy.get("starve")
        self.opcode = bool(self.policy.get("opcode"))
        self.files = tuple(files)
        self.max_steps = max_steps
        self.pool_size = pool
        self.replay = None
        if decisions is not None:
            self.replay = {}
            self.replay_next = {}
            for t, kind, idx, to in decisions:
                self.replay[(t, kind, idx)] = to
                if kind == "p":
                    self.replay_next.setdefault(t, []).append(idx)
            for t in self.replay_next:
                self.replay_next[t] = sorted(set(self.replay_next[t]), reverse=True)
        self.tasks = []
        self.by_ident = {}
        self.current = None
        self.now = 0.0
        self.steps = 0
        self.switches = 0
        self.preemptions = 0
        self.decisions = []
        self.overlaps = 0
        self.finished = _real_lock()
        self.failure = None
        self.torn = 0  # pieces a threaded einsum with ``out`` is torn into (0: off)
        self.torn_writes = 0
        self.job_no = 0
        self.job_fault = None  # callable(job number) -> exception or None
        self.job_faults_fired = 0
        self.job_fault_calls = []  # (task, call) which submitted a job that failed

    # -- tasks -------------------------------------------------------------------
    def spawn(self, fn, name=None, client=True):
        task = Task(len(self.tasks), name or f"task{len(self.tasks)}", client)
        self.tasks.append(task)
        if self.starve == task.tid:
            task.low = True
        self._plan_next(task)

        def body():
            self.by_ident[_get_ident()] = task
            task.baton.acquire()
            if self.failure is None:
                tracer = self.tracer
                sys.settrace(tracer)
                try:
                    task.result = fn()
                except BaseException as e:  # recorded: judged by the oracle
                    task.error = e
                finally:
                    sys.settrace(None)
            task.done = True
            self._dispatch(task)

        _real_start(body, ())
        return task

    def me(self):
        return self.by_ident.get(_get_ident())

    def run(self):
        """Run until every client task is done; the caller is the controller."""
        global SIM
        if not self.tasks:
            return
        self.finished.acquire()
        SIM = self
        try:
            first = self._choose(None, list(self._runnable(None)), "s", 0)
            self.current = first
            first.baton.release()
            self.finished.acquire()
        finally:
            SIM = None
        if self.failure is not None:
            raise self.failure

    # -- scheduling --------------------------------------------------------------
    def _plan_next(self, task):
        if self.replay is not None:
            nxt = self.replay_next.get(task.tid)
            while nxt and nxt[-1] <= task.local:
                nxt.pop()
            task.next = nxt[-1] if nxt else 1 << 60
        elif self.gap:
            task.next = task.local + 1 + int(self.rng.expovariate(1.0 / self.gap))
        else:
            task.next = 1 << 60

    def _runnable(self, exclude):
        for t in self.tasks:
            if t is exclude or t.done:
                continue
            if t.pred is None or t.pred():
                yield t
            elif t.wake is not None and t.wake <= self.now:
                yield t

    def _choose(self, cur, candidates, kind, idx):
        if not candidates:
            return None
        cid = cur.tid if cur is not None else -1
        if self.replay is not None:
            want = self.replay.get((cid, kind, idx))
            chosen = next((t for t in candidates if t.tid == want), candidates[0])
        else:
            pool = [t for t in candidates if not t.low] or candidates
            chosen = pool[0] if len(pool) == 1 else self.rng.choice(pool)
        self.decisions.append([cid, kind, idx, chosen.tid])
        return chosen

    def _switch(self, cur, nxt):
        self.switches += 1
        self.current = nxt
        nxt.baton.release()
        cur.baton.acquire()
        if self.failure is not None:
            sys.settrace(None)
            _park()

    def _fail(self, exc, cur):
        """End the execution: the controller wakes up, every task stays parked."""
        self.failure = exc
        sys.settrace(None)
        self.finished.release()
        _park()

    def _dispatch(self, cur):
        """cur is done: hand the baton over or finish."""
        if all(t.done for t in self.tasks if t.client):
            self.finished.release()
            return
        nxt = self._pick_blocked(cur)
        if nxt is None:
            self.failure = SimDeadlock(self._describe())
            self.finished.release()
            return
        self.current = nxt
        self.switches += 1
        nxt.baton.release()

    def _pick_blocked(self, cur):
        cur.blocks += 1
        cands = list(self._runnable(None))
        if not cands:
            wakes = [t.wake for t in self.tasks if not t.done and t.wake is not None]
            if not wakes:
                return None
            self.now = max(self.now, min(wakes))
            cands = list(self._runnable(None))
        return self._choose(cur, cands, "b", cur.blocks)

    def _describe(self):
        return "; ".join(
            f"{t.name}:{'done' if t.done else 'blocked'}" for t in self.tasks
        )

    def yield_point(self):
        task = self.current
        task.local += 1
        self.steps += 1
        if task.local < task.next:
            if self.steps > self.max_steps:
                self._fail(SimStepLimit(f"{self.steps} steps"), task)
            return
        self._plan_next_after(task)

    def _plan_next_after(self, task):
        idx = task.local
        cands = list(self._runnable(task))
        if cands:
            nxt = self._choose(task, cands, "p", idx)
            self.preemptions += 1
            self._plan_next(task)
            self._switch(task, nxt)
        else:
            self._plan_next(task)

    def block(self, pred, timeout=None):
        """Block the current task until pred() holds; False on a timeout."""
        task = self.current
        if pred():
            return True
        deadline = None if timeout is None else self.now + max(0.0, timeout)
        task.pred = pred
        task.wake = deadline
        while True:
            nxt = self._pick_blocked(task)
            if nxt is None:
                self._fail(SimDeadlock(self._describe()), task)
            if nxt is not task:
                self._switch(task, nxt)
            if pred():
                ok = True
                break
            if deadline is not None and self.now >= deadline:
                ok = False
                break
        task.pred = None
        task.wake = None
        return ok

    # -- tracing -----------------------------------------------------------------
    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.files):
            if self.opcode:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return self._local_op
            return self._local_line
        return None

    def _local_line(self, frame, event, arg):
        if event == "line":
            self.yield_point()
        return self._local_line

    def _local_op(self, frame, event, arg):
        if event == "opcode":
            self.yield_point()
        return self._local_op


def _park():
    """Park this thread for good (the run's process exits without it)."""
    lock = _real_lock()
    lock.acquire()
    while True:
        lock.acquire()


def insim():
    s = SIM
    if s is None:
        return None
    return s if s.me() is not None else None


# -- simulated primitives ---------------------------------------------------------
class SimLock:
    """Drop-in for _thread.lock; contended acquires yield to the simulator."""

    def __init__(self):
        self._inner = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = insim()
        if s is None:
            return self._inner.acquire(blocking, timeout)
        if self._inner.acquire(False):
            return True
        if not blocking:
            return False
        inner = self._inner
        got = s.block(
            lambda: not inner.locked(), None if timeout is None or timeout < 0 else timeout
        )
        if not got:
            return False
        return inner.acquire(False) or self.acquire(blocking, timeout)

    def release(self):
        self._inner.release()

    def locked(self):
        return self._inner.locked()

    def _at_fork_reinit(self):
        self._inner = _real_lock()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()


def _sim_start_new_thread(function, args, kwargs=None):
    s = insim()
    if s is None:
        return _real_start(function, args, kwargs or {})
    task = s.spawn(
        lambda: function(*args, **(kwargs or {})), name=f"thread{len(s.tasks)}", client=False
    )
    fn_self = getattr(function, "__self__", None)
    if fn_self is not None:
        try:
            fn_self._sim_task = task
        except Exception:
            pass
    return 1 << 20 | task.tid


def _sim_join(self, timeout=None):
    s = insim()
    task = getattr(self, "_sim_task", None)
    if s is None or task is None:
        return _orig_join(self, timeout)
    s.block(lambda: task.done, timeout)


def _sim_sleep(seconds):
    s = insim()
    if s is None:
        return _real_sleep(seconds)
    s.block(lambda: False, seconds)


class _Result:
    def __init__(self, pool, callback=None, error_callback=None):
        self._done = False
        self._value = None
        self._error = None
        self._cb = callback
        self._ecb = error_callback

    def _set(self, value, error):
        self._value, self._error = value, error
        if error is None and self._cb:
            self._cb(value)
        if error is not None and self._ecb:
            self._ecb(error)
        self._done = True

    def ready(self):
        return self._done

    def successful(self):
        if not self._done:
            raise ValueError(f"{self!r} not ready")
        return self._error is None

    def wait(self, timeout=None):
        s = insim()
        if s is not None:
            s.block(lambda: self._done, timeout)

    def get(self, timeout=None):
        self.wait(timeout)
        if not self._done:
            import multiprocessing

            raise multiprocessing.TimeoutError
        if self._error is not None:
            raise self._error
        return self._value


class SimThreadPool:
    """Stand-in for multiprocessing.pool.ThreadPool: worker *tasks* of the simulator.

    Outside a simulation jobs run inline.  Jobs are dequeued in order; which worker runs,
    and when, is the scheduler's decision.
    """

    def __init__(self, processes=None, initializer=None, initargs=(), **kwargs):
        self._n = processes
        self._init = (initializer, initargs)
        self._jobs = []
        self._workers = None
        self._simref = None
        self._closed = False

    @property
    def _processes(self):
        if self._n is not None:
            return self._n
        return SIM.pool_size if SIM is not None else 4

    def _worker(self, s):
        init, initargs = self._init
        if init is not None:
            init(*initargs)
        while True:
            s.block(lambda: bool(self._jobs) or self._closed)
            if not self._jobs:
                if self._closed:
                    return
                continue
            job = self._jobs.pop(0)
            if job is None:
                return
            res, func, args, kwds, no, owner = job
            fault = s.job_fault(no) if s.job_fault else None
            s.yield_point()
            try:
                if fault is not None:
                    s.job_faults_fired += 1
                    s.job_fault_calls.append(owner)
                    raise fault
                value = func(*args, **kwds)
            except Exception as e:
                s.yield_point()
                res._set(None, e)
            else:
                s.yield_point()
                res._set(value, None)

    def _submit(self, res, func, args, kwds):
        if self._closed:
            raise ValueError("Pool not running")
        s = insim()
        if s is None:
            try:
                value = func(*args, **kwds)
            except Exception as e:
                res._set(None, e)
            else:
                res._set(value, None)
            return
        if self._simref is not s:
            self._simref = s
            self._jobs = []
            self._workers = [
                s.spawn(lambda: self._worker(s), name=f"pool{i}", client=False)
                for i in range(self._processes)
            ]
        no = s.job_no
        s.job_no += 1
        me = s.me()
        self._jobs.append((res, func, args, kwds, no, (me.tid, me.call)))
        s.yield_point()

    def apply_async(
        self, func, args=(), kwds=None, callback=None, error_callback=None
    ):
        res = _Result(self, callback, error_callback)
        self._submit(res, func, tuple(args), dict(kwds or {}))
        return res

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def starmap_async(
        self, func, iterable, chunksize=None, callback=None, error_callback=None
    ):
        parts = [self.apply_async(func, a) for a in iterable]
        pool = self

        class _Many(_Result):
            def ready(self):
                return all(p._done for p in parts)

            def wait(self, timeout=None):
                s = insim()
                if s is not None:
                    s.block(self.ready, timeout)
                if self.ready() and not self._done:
                    err = next((p._error for p in parts if p._error is not None), None)
                    self._set([p._value for p in parts], err)

        return _Many(pool, callback, error_callback)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self.starmap_async(
            func, [(a,) for a in iterable], chunksize, callback, error_callback
        )

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable).get()

    def imap(self, func, iterable, chunksize=1):
        parts = [self.apply_async(func, (a,)) for a in iterable]
        for p in parts:
            yield p.get()

    def imap_unordered(self, func, iterable, chunksize=1):
        parts = [self.apply_async(func, (a,)) for a in iterable]
        while parts:
            s = insim()
            if s is not None:
                s.block(lambda: any(p._done for p in parts))
            p = next(p for p in parts if p._done)
            parts.remove(p)
            yield p.get()

    def close(self):
        self._closed = True

    terminate = close

    def join(self):
        s = insim()
        if s is not None and self._simref is s and self._workers:
            s.block(lambda: all(w.done for w in self._workers))

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


_torn_installed = False


def install_patches():
    """Route locks, queues, threads, sleeps and thread pools through the simulator."""
    import multiprocessing.pool

    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = None
    threading._start_new_thread = _sim_start_new_thread
    threading.Thread.join = _sim_join
    queue.SimpleQueue = queue._PySimpleQueue
    time.sleep = _sim_sleep
    multiprocessing.pool.ThreadPool = SimThreadPool


def install_torn_einsum():
    """A threaded einsum with ``out`` becomes a sequence of partial writes."""
    global _torn_installed
    if _torn_installed:
        return
    _torn_installed = True
    import numpy as np

    orig = np.einsum

    def einsum(*operands, out=None, **kwargs):
        s = insim()
        if s is None or not s.torn or out is None:
            if out is None:
                return orig(*operands, **kwargs)
            return orig(*operands, out=out, **kwargs)
        value = orig(*operands, **kwargs)
        flat = np.broadcast_to(value, out.shape)
        n = out.shape[-1] if out.ndim else 0
        pieces = max(1, min(s.torn, n))
        if n == 0 or pieces == 1:
            out[...] = flat
            return out
        edges = [round(i * n / pieces) for i in range(pieces + 1)]
        for a, b in zip(edges[:-1], edges[1:]):
            out[..., a:b] = flat[..., a:b]
            s.torn_writes += 1
            s.yield_point()
        return out

    einsum.__name__ = "einsum"
    np.einsum = einsum


def lib_files():
    from . import boot

    files = [boot.PKG]
    try:
        import einsumt

        files.append(os.path.realpath(einsumt.__file__))
    except Exception:
        pass
    return tuple(files)
