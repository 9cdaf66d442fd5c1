"""C26: the first finished of several functions ends the others."""
from __future__ import annotations

import warnings

import anyio
import anyio.lowlevel
import anyio.to_thread

from sim.kernel import owner_var
from starlette.concurrency import run_until_first_complete

from .apps import AppGroup, ERRS as ALL_ERRS
from .common import adelay, gather

# a task group may hand on an application's group inside its own, or divided
ERRS = [e for e in ALL_ERRS if e is not AppGroup]

RUNS = 30000
PROBES = ("first-returns", "first-fails", "tie", "tie-fails", "cancelled-scope", "cancelled-native", "timeout", "cleanup", "cleanup-fails", "endless",
          "children", "in-thread", "no-functions", "one-function", "many", "nested", "arguments", "two-calls", "ignores-cancel", "at-once", "several-errors",
          "waits-for-another", "cancel-meets-end", "same-function")
TIMES = [0, "yield", 0.001, 0.002, 0.002, 0.003, 0.005, 0.01, 0.1, 1.0]


def scenario(sim):
    w = sim.w

    async def main():
        n = w.weighted([(1, 3), (2, 1)])
        if n > 1:
            sim.probe("two-calls")
        await gather(*(Call(sim, f"k{i}").go() for i in range(n)))

    sim.run(main)


class Fn:
    """One of the functions."""

    def __init__(self, call, i):
        sim, w = call.sim, call.sim.w
        self.call, self.sim, self.i, self.name = call, sim, i, f"{call.name}f{i}"
        self.kind = w.weighted([("return", 4), ("forever", 3), ("raise", 2), ("child", 1), ("thread", 1), ("nested", 1), ("wait", 1)])
        self.times = [w.pick(TIMES) for _ in range(w.int(0, 3))]
        self.fails = self.kind == "raise" or self.kind in ("child", "thread", "nested") and w.chance(0.2)
        self.err = w.pick(ERRS)(self.name)
        self.cleanup = w.weighted([(None, 5), (0, 1), (0.002, 1), (0.5, 1)])
        self.cleanup_err = w.pick(ERRS)(self.name + "-cleanup") if self.cleanup is not None and w.chance(0.15) else None
        self.stubborn = w.chance(0.05)  # swallows its cancellation and returns
        self.args = {"x": w.int(0, 5), "y": [1]} if w.chance(0.3) else {}
        self.state = "new"
        self.end = None
        self.inner = 0

    def __repr__(self):
        return f"<{self.name} {self.kind} {self.times} fails={self.fails} cleanup={self.cleanup} {self.state} end={self.end}>"

    def finish(self, state):
        self.state = state
        self.end = (next(self.sim.seq), self.sim.now())
        self.sim.log(self.name, state)

    async def __call__(self, **kw):
        sim = self.sim
        self.state = "running"
        if kw != self.args:
            sim.fail("arguments", f"{self}: {kw} instead of {self.args}")
        if kw:
            sim.probe("arguments")
        sim.log(self.name, "begin")
        state = "cancelled"
        try:
            try:
                await self.work()
                state = "returned"
            except ERRS_T as e:
                if e is not self.err and not (isinstance(e, RuntimeError) and "nested" in self.kind):
                    raise
                state = "failed"
                raise
            except BaseException:
                if self.stubborn and self.call.cancel is None and self.call.timeout is None:
                    sim.probe("ignores-cancel")
                    state = "cancelled"
                    return
                raise
            finally:
                if self.cleanup is not None:
                    sim.probe("cleanup")
                    with anyio.CancelScope(shield=True):
                        await anyio.sleep(self.cleanup)
                    if self.cleanup_err is not None:
                        sim.probe("cleanup-fails")
                        state = "failed"
                        self.err = self.cleanup_err
                        raise self.cleanup_err
        finally:
            self.finish(state)

    async def work(self):
        sim = self.sim
        for t in self.times:
            await adelay(t)
        k = self.kind
        if k == "forever":
            sim.probe("endless")
            await anyio.sleep_forever()
        elif k == "child":
            sim.probe("children")
            async with anyio.create_task_group() as tg:
                tg.start_soon(self.child)
                await anyio.sleep(0.002)
                if not self.fails:
                    tg.cancel_scope.cancel()
            if self.fails:
                raise self.err
        elif k == "thread":
            sim.probe("in-thread")
            self.inner += 1
            try:
                await anyio.to_thread.run_sync(lambda: sim.tpause("fn", 0.003))
            finally:
                self.inner -= 1
        elif k == "nested":
            sim.probe("nested")
            await call(((self.sleeper, {"d": 0.002}), (self.sleeper, {"d": 0.004})))
        elif k == "wait":
            # the end of another function is what this one waits for
            others = [f for f in self.call.fns if f is not self]
            if others:
                sim.probe("waits-for-another")
                while others[0].end is None:
                    await anyio.sleep(0.002)
        if self.fails:
            raise self.err

    async def sleeper(self, d):
        self.inner += 1
        try:
            await anyio.sleep(d)
        finally:
            self.inner -= 1

    async def child(self):
        self.inner += 1
        try:
            await anyio.sleep(0.004 if self.fails else 100)
        finally:
            self.inner -= 1


ERRS_T = tuple(ERRS)


async def the_same(fn, kw):
    await fn(**kw)


async def call(pairs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return await run_until_first_complete(*pairs)


class Call:
    def __init__(self, sim, name):
        w, f = sim.w, sim.f
        self.sim, self.name = sim, name
        self.cancel = None
        if f.chance(0.35):
            self.cancel = (f.pick(["scope", "native"]), f.pick([0.0, 0.001, 0.002, 0.002, 0.003, 0.004, 0.01, 0.1, 0.5, 1.0, 2.0]), f.int(0, 4))
        self.timeout = f.pick([0.001, 0.002, 0.003, 0.01, 0.1, 1.0]) if self.cancel is None and f.chance(0.15) else None
        n = w.weighted([(2, 5), (3, 3), (1, 1), (0, 1), (6, 1)])
        self.fns = []
        for i in range(n):
            self.fns.append(Fn(self, i))
        sim.probe({0: "no-functions", 1: "one-function", 6: "many"}.get(n, "at-once"))
        self.same = n > 1 and w.chance(0.3)
        if self.same:
            sim.probe("same-function")

    async def go(self):
        sim = self.sim
        owner_var.set(self.name)
        self.exc = None
        self.cancelled = self.returned = self.timed_out = False
        mode = self.cancel[0] if self.cancel else None
        if mode == "native" and sim.backend != "asyncio":
            mode = "scope"
        if self.fns and self.cancel is None and all(f.kind in ("forever", "wait") for f in self.fns):
            self.timeout = self.timeout or 1.0
        t0 = sim.now()
        async with anyio.create_task_group() as tg:
            scope = anyio.CancelScope()
            target = {}

            async def body():
                try:
                    pairs = [(f, f.args) for f in self.fns]
                    if self.same:
                        pairs = [(the_same, {"fn": f, "kw": f.args}) for f in self.fns]
                    r = await call(pairs)
                    if r is not None:
                        sim.fail("result", f"{self}: {r!r}")
                    self.returned = True
                finally:
                    self.end = (next(sim.seq), sim.now())

            async def canceller():
                await anyio.sleep(self.cancel[1])
                for _ in range(self.cancel[2]):
                    await anyio.lowlevel.checkpoint()
                self.cancelled = True
                self.cancel_at = (next(sim.seq), sim.now())
                sim.fault("cancel-" + mode)
                sim.log(self.name, "cancel")
                if mode == "native":
                    target["task"].cancel()
                else:
                    scope.cancel()

            if self.cancel:
                tg.start_soon(canceller)
            try:
                with scope:
                    if mode == "native":
                        import asyncio

                        target["task"] = asyncio.get_running_loop().create_task(body())
                        try:
                            await target["task"]
                        except asyncio.CancelledError:
                            if not self.cancelled:
                                raise
                    elif self.timeout is not None:
                        with anyio.move_on_after(self.timeout) as lim:
                            await body()
                        self.timed_out = lim.cancelled_caught
                    else:
                        with anyio.move_on_after(500) as lim:
                            await body()
                        if lim.cancelled_caught:
                            sim.fail("hang", f"{self}")
            except Exception as e:
                self.exc = e
            left = [x for x in sim.owned_tasks(self.name) if "canceller" not in x and "body" not in x and "Call.go" not in x]
            tg.cancel_scope.cancel()
        self.judge(t0, left)

    def __repr__(self):
        return f"<{self.name} cancel={self.cancel and self.cancel[0]} timeout={self.timeout} returned={self.returned} exc={self.exc!r} {self.fns}>"

    def judge(self, t0, left):
        sim, fns = self.sim, self.fns
        fail = lambda code, more="": sim.fail(code, f"{self} {more}")  # noqa: E731
        if left or any(f.inner for f in fns):
            return fail("tasks-left", str(left))
        for f in fns:
            if f.state == "running":
                return fail("still-running", f"{f}")
            if f.end and f.end[0] > self.end[0]:
                return fail("returned-before-the-others-ended", f"{f}")
        if not fns:
            return
        done = sorted((f for f in fns if f.state in ("returned", "failed")), key=lambda f: f.end)
        failed = [f for f in fns if f.state == "failed"]
        outside = self.cancelled or self.timed_out
        if self.cancelled:
            sim.probe("cancelled-" + ("native" if self.cancel[0] == "native" and sim.backend == "asyncio" else "scope"))
            if done:
                sim.probe("cancel-meets-end")
        if self.timed_out:
            sim.probe("timeout")
        if not done and not outside:
            return fail("returned-before-any-completed")
        if not outside and any(f.state == "new" for f in fns) and done[0].end[1] > t0:
            return fail("not-started")
        # a failure is never lost
        errs = flat(self.exc)
        for f in failed:
            if not any(e is f.err for e in errs) and not (f.kind == "nested" and errs):
                if not (outside and not errs and self.swallowed(f)):
                    return fail("error-lost", f"{f}")
        if len(failed) > 1:
            sim.probe("several-errors")
        if errs and not failed:
            return fail("error", f"{errs}")
        if failed:
            sim.probe("first-fails" if done[0] in failed else "tie-fails")
        elif not outside:
            sim.probe("first-returns")
            if not self.returned:
                return fail("not-returned")
        # when the first has completed everything else goes: at that instant, or when its cleanup is over
        first = done[0].end[1] if done else None
        if outside and self.cancelled:
            first = self.cancel_at[1] if first is None else min(first, self.cancel_at[1])
        elif self.timed_out:
            first = t0 + self.timeout if first is None else min(first, t0 + self.timeout)
        if any(f.state == "returned" for f in done[1:]):
            sim.probe("tie")
        for f in fns:
            if not f.end:
                continue
            grace = (f.cleanup or 0) + (0.003 + 1e-9 if f.kind in ("thread", "child", "nested") else 0)
            if f.kind == "thread":
                grace += 3.1  # a thread is waited for: its own pauses
            # an error of another function's cleanup is what it takes for others that wait for it
            if f.end[1] > first + grace + max([g.cleanup or 0 for g in fns if g.cleanup_err], default=0) + 1e-9:
                return fail("not-cancelled", f"{f} ended {f.end[1] - first:.6f} s after the first one")
        last = max((f.end[1] for f in fns if f.end), default=first)
        if self.end[1] > max(last, first) + 1e-9:
            return fail("late", f"returned {self.end[1] - last:.6f} s after the last function")

    def swallowed(self, f):
        return False


def flat(e):
    if e is None:
        return []
    if isinstance(e, BaseExceptionGroup):
        return [y for x in e.exceptions for y in flat(x)]
    return [e]
