"""anyio's blocking portal on the simulated loop: the thread that uses the portal is a simulated worker thread.

The real `anyio.from_thread.BlockingPortal` runs; only the start of a new loop in a new thread, the hand-over of a call
from one thread to the other, and the wait for a future are replaced."""
from __future__ import annotations

import contextlib
import functools
from concurrent.futures import Future

import anyio
import anyio.from_thread as AF
from anyio._backends import _asyncio as A
from anyio._backends import _trio as T

from . import kernel

real_start = AF.start_blocking_portal


class SimFuture(Future):
    def result(self, timeout=None):
        sim = kernel.current
        if sim is None or self.done():
            return super().result(timeout)
        if not sim.in_worker():
            sim.abort("blocked-loop", "the event loop thread waits for a future that only it could complete")
        kernel._from_thread("async", _until_done, (self,))
        sim.tpause("future")
        return super().result(0)


async def _until_done(fut):
    ev = anyio.Event()
    fut.add_done_callback(lambda f: ev.set())
    await ev.wait()


def _spawn(self, func, args, kwargs, name, future):
    sim = kernel.current
    if sim is not None and sim.in_worker():
        sim.tpause("spawn")
    return kernel._from_thread("sync", functools.partial(self._task_group.start_soon, name=name), (self._call_func, func, args, kwargs, future))


@contextlib.contextmanager
def start_blocking_portal(backend="asyncio", backend_options=None):
    sim = kernel.current
    if sim is None:
        with real_start(backend, backend_options) as portal:
            yield portal
        return
    sim.portals.append(backend)
    future, ended = SimFuture(), SimFuture()

    async def host():
        try:
            async with AF.BlockingPortal() as portal:
                future.set_result(portal)
                await portal.sleep_until_stopped()
        except BaseException as exc:
            if not future.done():
                future.set_exception(exc)
            if not isinstance(exc, (Exception, BaseExceptionGroup)):
                raise
        finally:
            ended.set_result(None)

    kernel._from_thread("sync", sim.portal_group.start_soon, (host,))
    try:
        cancel = False
        portal = future.result()
        try:
            yield portal
        except BaseException:
            cancel = True
            raise
        finally:
            try:
                portal.call(portal.stop, cancel)
            except RuntimeError:
                pass
    finally:
        ended.result()


def install():
    AF.Future = SimFuture
    AF.start_blocking_portal = start_blocking_portal
    A.BlockingPortal._spawn_task_from_thread = _spawn
    T.BlockingPortal._spawn_task_from_thread = _spawn
