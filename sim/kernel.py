"""The simulator kernel: one run = Sim(tape).run(main) on a simulated asyncio or trio loop.

Owned sources of nondeterminism: task scheduling, timers and clock (virtual), worker threads (baton-passed), disk
(see disk.py), network (see server.py), wall clock `time.time`, os.urandom for `random`/`secrets`, set order of
tasks and cancel scopes inside anyio/trio.
"""
from __future__ import annotations

import asyncio
import collections
import concurrent.futures
import contextvars
import gc
import hashlib
import itertools
import math
import random
import signal
import sys
import threading
import time
import types
import warnings
import weakref

import anyio
import anyio.lowlevel
import anyio.from_thread
import anyio.to_thread
import sniffio
import trio
import trio._core._run as trio_run
from anyio._backends import _asyncio as A
from anyio._backends import _trio as T
from anyio._core import _eventloop as AE

from .tape import Src, Tape

REAL_TIME = time.time
REAL_PERF = time.perf_counter
HORIZON = 10_000.0  # virtual seconds: everything blocked until then means a hang
WALL_LIMIT = 30  # real seconds for one run before it is called stuck
EPOCH = 1_700_000_000.0

current: "Sim | None" = None
owner_var: contextvars.ContextVar = contextvars.ContextVar("sim_owner", default=None)


class SimAbort(BaseException):
    """Raised by the simulator to stop a run (step cap, deadlock, stuck)."""


class SimThreadKill(BaseException):
    pass


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------------------------------ asyncio loop
class _FakeSelector:
    def __init__(self, sim):
        self.sim = sim

    def select(self, timeout):
        sim = self.sim
        sim.steps += 1
        if sim.steps > sim.max_steps:
            sim.abort("livelock", f"more than {sim.max_steps} scheduler steps")
        if timeout is None:
            sim.abort("deadlock", "nothing runnable and no timer")
        if timeout > 0:
            sim._now = max(sim._now, sim.loop.next_deadline())
        return []

    def get_map(self):
        return {}

    def close(self):
        pass


class SimTask(asyncio.Task):
    def __init__(self, *a, **k):
        self._sim_id = next(current._ids)
        super().__init__(*a, **k)

    def __hash__(self):
        return self._sim_id


class SimLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self, sim):
        super().__init__()
        self.sim = sim
        self._selector = _FakeSelector(sim)
        self._clock_resolution = 1e-9
        self.set_task_factory(self._factory)
        self.set_exception_handler(self._on_exc)

    def next_deadline(self):
        return self._scheduled[0]._when if self._scheduled else self.sim._now

    def time(self):
        return self.sim._now

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def _factory(self, loop, coro, context=None, **kw):
        task = SimTask(coro, loop=loop, context=context, **kw)
        self.sim._task_spawned(task, task.get_context(), coro)
        task.add_done_callback(self.sim._task_done)
        return task

    def _on_exc(self, loop, ctx):
        self.sim.loop_errors.append(str(ctx.get("exception") or ctx.get("message")))

    def run_in_executor(self, executor, func, *args):
        return self.create_task(drive_thread(func, args, abandon=False))

    def getaddrinfo(self, *a, **k):
        raise HarnessError("network")


# ------------------------------------------------------------------------------------------ trio clock etc.
class SimClock(trio.abc.Clock):
    def __init__(self, sim):
        self.sim = sim
        self.inf = 0

    def start_clock(self):
        pass

    def current_time(self):
        return self.sim._now

    def deadline_to_sleep_time(self, deadline):
        if deadline == math.inf:
            self.inf += 1
            if self.inf > 50:
                self.sim.abort("deadlock", "nothing runnable and no timer")
            return 0
        self.inf = 0
        if deadline > self.sim._now:
            self.sim._now = deadline
        return 0


class _TrioRandom:
    """Stands in for trio's scheduler PRNG: decides the order of every batch of runnable tasks."""

    def __init__(self, sim):
        self.sim = sim

    def shuffle(self, batch):
        sim = self.sim
        sim.steps += 1
        if sim.steps > sim.max_steps:
            sim.abort("livelock", f"more than {sim.max_steps} scheduler steps")
        n = len(batch)
        if n > 1:
            for i in range(n - 1):
                j = i + sim.tape.draw("t", n - i)
                if j != i:
                    batch[i], batch[j] = batch[j], batch[i]

    def random(self):
        return 0.9

    def uniform(self, a, b):
        return a


class _TrioInstr(trio.abc.Instrument):
    def __init__(self, sim):
        self.sim = sim

    def task_spawned(self, task):
        self.sim._task_spawned(task, task.context, task.coro)

    def task_exited(self, task):
        self.sim._task_done(task)


def _install_global_patches():
    trio_run._ALLOW_DETERMINISTIC_SCHEDULING = True

    def task_hash(self):
        s = current
        return self._counter - s._trio_base if s is not None else self._counter

    trio_run.Task.__hash__ = task_hash

    def cs_hash(self):
        s = current
        if s is None:
            return id(self) >> 4
        e = s._cs_ids.get(id(self))
        if e is None or e[1] is not self:
            e = s._cs_ids[id(self)] = (next(s._ids), self)
        return e[0]

    trio_run.CancelStatus.__hash__ = cs_hash

    def scope_hash(self):
        d = self.__dict__
        h = d.get("_sim_hash")
        if h is None:
            h = d["_sim_hash"] = next(current._ids) if current is not None else id(self) >> 4
        return h

    A.CancelScope.__hash__ = scope_hash

    for backend in (A.AsyncIOBackend, T.TrioBackend):
        backend.run_sync_in_worker_thread = classmethod(_run_sync_in_worker_thread)
        backend.run_async_from_thread = classmethod(_run_async_from_thread)
        backend.run_sync_from_thread = classmethod(_run_sync_from_thread)
        backend.check_cancelled = classmethod(lambda cls: None)

    async def trio_to_thread(func, *args, thread_name=None, abandon_on_cancel=False, limiter=None, **kw):
        return await drive_thread(func, args, abandon_on_cancel, None)

    trio.to_thread.run_sync = trio_to_thread

    time.time = lambda: current.wall() if current is not None else REAL_TIME()
    real_urandom = random._urandom

    def urandom(n):
        s = current
        if s is None:
            return real_urandom(n)
        s._urand += 1
        return hashlib.shake_128(b"%d/%s" % (s._urand, str(s.useed).encode())).digest(n)

    random._urandom = urandom


# ------------------------------------------------------------------------------------------ worker threads
class Worker(threading.Thread):
    """An OS thread that only ever runs while the loop thread waits for it (baton passing)."""

    tls = threading.local()

    def __init__(self):
        super().__init__(daemon=True)
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.job = None
        self.kill = False
        self.start()

    def run(self):
        Worker.tls.worker = self
        while True:
            self.go.acquire()
            if self.kill:
                return
            ctx, func, args, backend, token = self.job
            AE.threadlocals.current_async_backend = backend
            AE.threadlocals.current_token = token
            try:
                res = ("ok", ctx.run(func, *args))
            except SimThreadKill:
                return
            except BaseException as e:
                res = ("exc", e)
            self.job = ctx = func = args = None
            self.req = ("done", res)
            res = None
            self.back.release()

    def begin(self, *job):
        self.job = job

    def step(self):
        self.go.release()
        self.back.acquire()
        req, self.req = self.req, None
        return req

    def park(self, *req):
        if self.kill:
            raise SimThreadKill
        self.req = req
        self.back.release()
        self.go.acquire()
        if self.kill:
            raise SimThreadKill
        rep, self.reply = self.reply, None
        return rep


def this_worker():
    return getattr(Worker.tls, "worker", None)


_idle: list[Worker] = []


async def _run_sync_in_worker_thread(cls, func, args, abandon_on_cancel=False, limiter=None):
    await cls.checkpoint()
    return await drive_thread(func, args, abandon_on_cancel, limiter or cls.current_default_thread_limiter(), cls)


async def drive_thread(func, args, abandon=False, limiter=None, backend=None):
    sim = current
    if backend is None:
        backend = A.AsyncIOBackend if sniffio.current_async_library() == "asyncio" else T.TrioBackend
    if limiter is None:
        limiter = backend.current_default_thread_limiter()
    borrower = _Borrower()
    await _acquire(limiter, borrower)
    job = _ThreadJob(sim, func, args, limiter, borrower, backend)
    try:
        with anyio.CancelScope(shield=not abandon):
            await job.drive()
    except BaseException:
        if not job.done:
            # abandoned thread: it keeps running on its own (on trio, holding its limiter slot)
            sim.probe("thread-abandoned")
            if backend is A.AsyncIOBackend:
                job.release()
            sim.spawn_orphan(job.drive)
        raise
    return job.result()


async def _acquire(limiter, borrower):
    # anyio's asyncio limiter hands a free token both to a woken waiter and to a newcomer, and its
    # `acquire_on_behalf_of` releases the wrong borrower when cancelled; waiting is done here instead, in order
    if type(limiter).__module__ != A.__name__:
        return await limiter.acquire_on_behalf_of(borrower)
    q = current._limiter_queues.setdefault(id(limiter), (limiter, collections.deque()))[1]
    if not q:
        try:
            limiter.acquire_on_behalf_of_nowait(borrower)
        except anyio.WouldBlock:
            pass
        else:
            try:
                await anyio.lowlevel.cancel_shielded_checkpoint()
            except BaseException:
                _release(limiter, borrower)
                raise
            return
    me = [anyio.Event()]
    q.append(me)
    try:
        while True:
            await me[0].wait()
            try:
                limiter.acquire_on_behalf_of_nowait(borrower)
                return
            except anyio.WouldBlock:
                me[0] = anyio.Event()
    finally:
        q.remove(me)
        _wake(limiter, q)


def _wake(limiter, q):
    if q and limiter.available_tokens > 0:
        q[0][0].set()


def _release(limiter, borrower):
    limiter.release_on_behalf_of(borrower)
    e = current._limiter_queues.get(id(limiter))
    if e is not None:
        _wake(*e)


class _Borrower:
    __slots__ = ()


class _ThreadJob:
    def __init__(self, sim, func, args, limiter, borrower, backend):
        self.sim, self.limiter, self.borrower = sim, limiter, borrower
        ctx = contextvars.copy_context()
        ctx.run(sniffio.current_async_library_cvar.set, None)
        self.w = _idle.pop() if _idle else Worker()
        sim.busy_workers.append(self.w)
        self.w.begin(ctx, func, args, backend, backend.current_token())
        self.done = False
        self.holding = True
        self.res = None
        sim.threads_now += 1
        sim.threads_peak = max(sim.threads_peak, sim.threads_now)
        sim.counts["threads"] = sim.counts.get("threads", 0) + 1

    async def drive(self):
        sim = self.sim
        await sim.pause("thread-start")
        while True:
            req = self.w.step()
            if req[0] == "done":
                self.res = req[1]
                break
            elif req[0] == "pause":
                self.w.reply = None
                if req[2] is not None:
                    await anyio.sleep(req[2])
                else:
                    await sim.pause(req[1])
            elif req[0] == "async":
                try:
                    self.w.reply = ("ok", await req[1](*req[2]))
                except Exception as e:
                    self.w.reply = ("exc", e)
                except BaseException:
                    self.w.reply = ("exc", concurrent.futures.CancelledError())
                    raise
            elif req[0] == "sync":
                try:
                    self.w.reply = ("ok", req[1](*req[2]))
                except Exception as e:
                    self.w.reply = ("exc", e)
        sim.busy_workers.remove(self.w)
        _idle.append(self.w)
        sim.threads_now -= 1
        self.done = True
        self.release()
        await sim.pause("thread-end")

    def release(self):
        if self.holding:
            self.holding = False
            _release(self.limiter, self.borrower)

    def result(self):
        kind, v = self.res
        if kind == "ok":
            return v
        try:
            raise v
        finally:
            v = None
            self.res = None


def _from_thread(kind, func, args):
    w = this_worker()
    if w is None:
        raise RuntimeError("not in a simulated worker thread")
    k, v = w.park(kind, func, args)
    if k == "ok":
        return v
    raise v


def _run_async_from_thread(cls, func, args, token=None):
    return _from_thread("async", func, args)


def _run_sync_from_thread(cls, func, args, token=None):
    return _from_thread("sync", func, args)


# ------------------------------------------------------------------------------------------ timers of the code under test
# In some runs the environment (clients, servers, backends, disks, threads) is RATE times slower than usual.  Scaling every
# delay of the harness up is the same execution as scaling the time-outs of the code under test down, which is done here:
# time-outs and long sleeps that are requested by a function of starlette itself are divided by the rate of the run.
RATES = [(1, 3), (100, 1), (10_000, 1)]


def _own_timer(fn, pos, name, least):
    def wrapper(*args, **kwargs):
        sim = current
        if sim is not None and sim.rate != 1 and sys._getframe(1).f_globals.get("__name__", "").startswith("starlette"):
            if len(args) > pos and isinstance(args[pos], (int, float)) and args[pos] >= least:
                args = (*args[:pos], args[pos] / sim.rate, *args[pos + 1:])
            elif isinstance(kwargs.get(name), (int, float)) and kwargs[name] >= least:
                kwargs = {**kwargs, name: kwargs[name] / sim.rate}
        return fn(*args, **kwargs)

    wrapper.__wrapped__ = fn
    return wrapper


for _mod, _fn, _pos, _name, _least in (
    (anyio, "move_on_after", 0, "delay", 0.02), (anyio, "fail_after", 0, "delay", 0.02), (anyio, "sleep", 0, "delay", 1),
    (asyncio, "sleep", 0, "delay", 1), (asyncio, "wait_for", 1, "timeout", 0.02), (asyncio, "timeout", 0, "delay", 0.02),
    (asyncio, "wait", 1, "timeout", 0.02), (trio, "sleep", 0, "seconds", 1), (trio, "move_on_after", 0, "seconds", 0.02),
    (trio, "fail_after", 0, "seconds", 0.02),
):
    setattr(_mod, _fn, _own_timer(getattr(_mod, _fn), _pos, _name, _least))


# ------------------------------------------------------------------------------------------ the simulator
# pause profiles: what a schedule draw of 0..7 means (n = nothing, y = yield, Y = several yields, s = sleep)
PROFILES = ["nnyyyYss", "nnnnnnny", "yyyyyyYY", "nnnyssss", "nnnnnnnn", "yYsyYsyY", "nnnnysss", "ssssssss"]
SLEEPS = [0.001, 0.002, 0.003, 0.005, 0.008, 0.013, 0.1, 1.0]


class Sim:
    def __init__(self, tape: Tape, max_steps=60_000, record=True):
        self.tape = tape
        self.w = Src(tape, "w")
        self.s = Src(tape, "s")
        self.f = Src(tape, "f")
        self.c = Src(tape, "c")
        self._now = 100.0
        self.skew = 0.0
        self.rate = self.c.weighted(RATES)
        self.steps = 0
        self.max_steps = max_steps
        self.trace = []
        self.record = record
        self.hasher = hashlib.blake2b(digest_size=12)
        self.ihasher = hashlib.blake2b(digest_size=12)  # interleaving only: which actor did what kind of step
        self.failures = []
        self.counts = {}
        self.faults = {}
        self.probes = {}
        self.loop_errors = []
        self.live = {}
        self.busy_workers = []
        self.threads_now = self.threads_peak = 0
        self._ids = itertools.count(1)
        self.seq = itertools.count(1)
        self._cs_ids = {}
        self._limiter_queues = {}
        self._trio_base = 0
        self._urand = 0
        self.useed = 0
        self.loop = None
        self.orphans = 0
        self.aborted = None
        self.main_done = False
        self.backend = None
        self.profile = None
        self.cleanups = []
        self.loop_thread = threading.get_ident()

    # -- recording
    def log(self, actor, kind, *data):
        self.hasher.update(repr((round(self._now, 6), actor, kind, data)).encode())
        self.ihasher.update(f"{actor}.{kind};".encode())
        if self.record:
            self.trace.append((round(self._now - 100, 6), actor, kind, *data))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def fail(self, code, msg):
        """Record a violation of the property (first one wins for reporting)."""
        self.failures.append((code, msg))
        self.log("oracle", "FAIL", code)

    def check(self, cond, code, msg):
        if not cond:
            self.fail(code, msg() if callable(msg) else msg)
        return cond

    def abort(self, code, msg):
        if self.aborted is None:
            self.aborted = (code, msg)
        raise SimAbort(f"{code}: {msg}")

    # -- time
    def now(self):
        return self._now

    def wall(self):
        return EPOCH + self._now + self.skew

    # -- tasks
    def _task_spawned(self, task, ctx, coro):
        owner = ctx.get(owner_var) if ctx is not None else None
        if owner is not None and type(coro).__name__ not in ("async_generator_athrow", "async_generator_asend"):
            self.live.setdefault(owner, {})[id(task)] = (task, getattr(coro, "__qualname__", str(coro)))

    def _task_done(self, task):
        tid = id(task)
        for d in self.live.values():
            if tid in d:
                del d[tid]
                break

    def owned_tasks(self, owner):
        return sorted(
            name
            for task, name in self.live.get(owner, {}).values()
            if not (isinstance(task, asyncio.Task) and task.done())
        )

    def spawn_orphan(self, fn):
        self.orphans += 1

        async def run():
            owner_var.set(None)
            try:
                await fn()
            finally:
                self.orphans -= 1

        if self.backend == "trio":
            trio.lowlevel.spawn_system_task(run, context=contextvars.Context())
        else:
            self._keep = getattr(self, "_keep", [])
            self._keep.append(self.loop.create_task(run(), context=contextvars.Context()))

    # -- the schedule seam
    async def pause(self, tag=""):
        v = self.tape.draw("s", 8)
        k = self.profile[v]
        if k == "n":
            return
        if k == "y":
            await anyio.lowlevel.checkpoint()
        elif k == "Y":
            for _ in range(2 + self.tape.draw("s", 4)):
                await anyio.lowlevel.checkpoint()
        else:
            await anyio.sleep(SLEEPS[self.tape.draw("s", len(SLEEPS))])

    async def sleep(self, dt):
        await anyio.sleep(dt)

    def tpause(self, tag="tpause", dt=None):
        """From inside a worker thread: let the loop run, for a scheduled (or given) time."""
        w = this_worker()
        if w is not None:
            w.park("pause", tag, dt)
        elif dt is not None:
            self.fail("blocking-on-loop", f"blocking call {tag} executed on the event loop thread")

    def in_worker(self):
        return this_worker() is not None

    # -- running
    def run(self, main, backend=None, horizon=HORIZON):
        """Run `await main()`; returns its value.  Hangs and livelocks are recorded in self.aborted."""
        global current
        if backend is None:
            backend = ("asyncio", "trio")[self.tape.draw("w", 2)]
        self.backend = backend
        if self.profile is None:
            self.profile = PROFILES[self.tape.draw("w", len(PROFILES))]
        self.useed = self.tape.draw("w", 1 << 16)
        if self.rate != 1:
            self.fault("slow environment")
        prev = current
        current = self
        gc_was = gc.isenabled()
        gc.disable()

        async def outer():
            try:
                with anyio.move_on_after(horizon) as scope:
                    r = await main()
                    self.main_done = True
                    if self.orphans:
                        for _ in range(1000):
                            if not self.orphans:
                                break
                            await anyio.sleep(1)
                    return r
                if scope.cancelled_caught and not self.main_done and self.aborted is None:
                    self.aborted = ("hang", "blocked forever (nothing but the horizon timer left)")
            finally:
                self._last = None

        try:
            if backend == "trio":
                trio_run._r = _TrioRandom(self)
                self._trio_base = _peek_trio_counter()
                return trio.run(outer, clock=SimClock(self), instruments=[_TrioInstr(self)])
            self.loop = loop = SimLoop(self)
            asyncio.set_event_loop(None)
            try:
                return self._drive_asyncio(loop, outer)
            finally:
                try:
                    if self.aborted is None:
                        loop.run_until_complete(loop.shutdown_asyncgens())
                finally:
                    loop.close()
        except SimAbort:
            return None
        except trio.TrioInternalError as e:
            if self.aborted is not None:
                return None
            raise HarnessError(f"trio internal error: {e.__cause__!r}") from e
        except BaseExceptionGroup as e:
            if self.aborted is not None:
                return None
            raise
        finally:
            for wk in self.busy_workers:
                wk.kill = True
                wk.go.release()
            self.busy_workers.clear()
            for fn in self.cleanups:
                fn()
            current = prev
            if gc_was:
                gc.enable()

    def _drive_asyncio(self, loop, outer):
        # `run_until_complete`, but with abort support
        task = loop.create_task(outer())
        return loop.run_until_complete(task)

    @property
    def digest(self):
        return self.hasher.hexdigest()


def _peek_trio_counter():
    """The next trio task counter value (so task hashes are relative to the start of the run)."""
    for a in trio_run.Task.__attrs_attrs__:
        if a.name == "_counter":
            return a.default.factory()
    raise HarnessError("trio task counter")


_install_global_patches()
