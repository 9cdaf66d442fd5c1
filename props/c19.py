"""C19: blocking work runs in worker threads, within the limit, and its effects come back exactly."""
from __future__ import annotations

import contextvars
import functools

import anyio
import anyio.from_thread
import anyio.to_thread

from starlette.background import BackgroundTask, BackgroundTasks
from starlette.concurrency import iterate_in_threadpool, run_in_threadpool
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException
from starlette.requests import ClientDisconnect
from starlette.responses import PlainTextResponse, StreamingResponse
from starlette.routing import Mount, Route

from sim.server import draw_cancel

from .apps import make_app
from .common import ClientGone, Http, adelay, check_grammar, draw_gone, gather

RUNS = 16000
KINDS = ["endpoint", "method", "class", "partial", "handler", "status-handler", "handler-500", "background", "backgrounds", "iterator", "call",
         "iterate", "async", "async-partial", "calls"]
PROBES = tuple(KINDS) + ("limit-reached", "limit-1", "empty-iterator", "iterator-error", "error", "from-thread", "cancelled", "client-gone",
                         "object", "return-none", "own-iterator", "loop-served", "threads-overlap", "stop-value", "any-items", "stop-inside")

var = contextvars.ContextVar("var", default="unset")
END = object()
inner_var = contextvars.ContextVar("inner_var", default="unset")


class Err(Exception):
    pass


class Fail(Exception):
    pass


class ErrFor(Exception):
    """Handled by a synchronous handler."""


def scenario(sim):
    async def main():
        h = Harness(sim)
        await h.run()

    sim.run(main)


class Harness:
    def __init__(self, sim):
        w, f = sim.w, sim.f
        self.sim = sim
        self.active = 0
        self.peak = 0
        self.limit = w.weighted([(40, 2), (1, 2), (2, 3), (3, 1)])
        if self.limit == 1:
            sim.probe("limit-1")
        n = w.weighted([(3, 3), (1, 1), (2, 2), (5, 2), (8, 1)])
        self.units = {}
        for i in range(n):
            u = Unit(self, f"r{i}")
            self.units[u.name] = u

    async def run(self):
        sim = self.sim
        anyio.to_thread.current_default_thread_limiter().total_tokens = self.limit
        routes = [u.route() for u in self.units.values()]
        if sim.w.chance(0.2):
            prefix = "/m"
            routes = [Mount("/m", routes=routes)]
        else:
            prefix = ""
        as_object = sim.w.chance(0.3)

        class Obj:
            def __init__(self, fn):
                self.fn = fn

            def __call__(self, request, exc):
                return self.fn(request, exc)

        wrap = Obj if as_object else (lambda f: f)
        if as_object:
            sim.probe("object")
        app = make_app(sim, routes=routes, exception_handlers={
            ErrFor: wrap(functools.partial(self.handler, "handler")), 418: wrap(functools.partial(self.handler, "status-handler")),
            sim.w.pick([500, Exception]): wrap(functools.partial(self.handler, "handler-500"))})

        async def outer(scope, receive, send):
            var.set(scope["path"].rsplit("/", 1)[1])
            await app(scope, receive, send)

        for u in self.units.values():
            u.setup(outer, prefix)
        await gather(*(u.go() for u in self.units.values()))
        for u in self.units.values():
            u.judge()
        if self.active:
            sim.fail("thread-left", f"{self.active} blocking calls still running")
        if self.peak > 1:
            sim.probe("threads-overlap")
        if self.peak == self.limit:
            sim.probe("limit-reached")

    def handler(self, kind, request, exc):
        u = self.units[request.url.path.rsplit("/", 1)[1]]
        if not u.mine(exc) and not isinstance(exc, (ClientGone, ClientDisconnect)):
            u.bad(f"handler got {exc!r}, not the error raised")
        u.block(kind)
        return PlainTextResponse(f"{u.name}:handled:{kind}", status_code=exc.status_code if isinstance(exc, HTTPException) else 599)


class Unit:
    def __init__(self, h, name):
        sim = h.sim
        w, s, f = sim.w, sim.s, sim.f
        self.h, self.sim, self.name = h, sim, name
        self.kind = w.pick(KINDS)
        sim.probe(self.kind)
        self.problem = None
        self.log = []
        self.err = None
        self.start_at = s.weighted([(0, 4), (0.001, 2), (0.01, 1), (0.3, 1)])
        self.durations = [s.pick([0, 0.001, 0.004, 0.05, 1.0]) for _ in range(4)]
        self.fail = False
        if self.kind in ("endpoint", "method", "class", "partial", "call", "iterate", "iterator", "calls"):
            self.fail = f.chance(0.3)
        if self.kind in ("handler", "status-handler", "handler-500"):
            self.fail = True
        if self.fail:
            self.err = {"handler": ErrFor("x"), "status-handler": HTTPException(418)}.get(self.kind) or self.draw_err(f)
            sim.fault("blocking-error")
        self.items = [f"{name}.{i};" for i in range(w.weighted([(2, 3), (0, 2), (1, 2), (4, 1)]))]
        if self.kind == "iterate" and w.chance(0.4):
            sim.probe("any-items")
            self.items = [w.pick([None, 0, "", b"", False, (), StopIteration, Ellipsis, x]) for x in self.items]
        self.fail_at = f.int(0, len(self.items)) if self.fail else None
        self.own_iter = w.pick(["gen", "object", "list", "nogen"])
        self.stops = self.fail and self.kind in ("iterate", "iterator") and self.own_iter in ("gen", "nogen") and w.chance(0.15)
        if self.stops:
            # a StopIteration raised inside a generator is an error of that generator, not its end
            self.err = StopIteration("boom")
            sim.probe("stop-inside")
        self.use_from_thread = w.chance(0.15)
        self.token = object()
        # (a natively cancelled task leaves its thread behind, which is how anyio works)
        self.cancel = ("scope", draw_cancel(sim, 12)[1]) if f.chance(0.08) else None
        self.gone = draw_gone(sim, 0.1)
        self.in_next = 0

    def draw_err(self, f):
        c = f.pick([Err, ValueError, KeyError, OSError, RuntimeError, TimeoutError, Fail, None])
        # (a streaming response collapses a group of one exception, so groups are only raised elsewhere)
        return (Err("boom") if self.kind == "iterator" else ExceptionGroup("boom", [Err("y")])) if c is None else c("boom")

    def bad(self, what):
        if self.problem is None:
            self.problem = what

    def mine(self, e):
        """e is the error this unit raised"""
        if self.stops:
            return isinstance(e, RuntimeError) and e.__cause__ is self.err
        return e is self.err

    # -- what runs in a thread
    def block(self, what, fail=None):
        sim, h = self.sim, self.h
        self.log.append(what)
        if not sim.in_worker():
            sim.fail("on-the-loop", f"{self.kind}: {what} runs on the event loop thread")
            return
        h.active += 1
        h.peak = max(h.peak, h.active)
        if h.active > h.limit:
            sim.fail("over-the-limit", f"{h.active} blocking calls at once, limit {h.limit}")
        try:
            if var.get() != self.name:
                self.bad(f"{what} sees the context variable of {var.get()}")
            if inner_var.get() != self.want_inner:
                self.bad(f"{what} sees inner variable {inner_var.get()} instead of {self.want_inner}")
            d = self.durations[len(self.log) % 4]
            sim.tpause(what, d if d else None)
            if self.use_from_thread:
                sim.probe("from-thread")
                if anyio.from_thread.run(self.on_loop, 5) != (5, self.name):
                    self.bad("from_thread.run")
            var.set("changed in thread")
            if fail is not None:
                raise fail
        finally:
            h.active -= 1

    async def on_loop(self, x):
        if self.sim.in_worker():
            self.bad("callback not on the loop")
        await adelay(self.durations[0])
        return x, var.get()

    want_inner = "unset"

    def iterator(self):
        unit = self
        if not self.items:
            self.sim.probe("empty-iterator")

        def step(i):
            unit.in_next += 1
            try:
                if unit.in_next > 1:
                    unit.bad("iterator advanced twice at once")
                if unit.ended:
                    unit.bad("iterator advanced after its end")
                unit.pulled.append(i)
                if unit.fail_at == i:
                    unit.ended = True
                    unit.sim.probe("iterator-error")
                unit.block(f"next{i}", unit.err if unit.fail_at == i else None)
                if i >= len(unit.items):
                    unit.ended = True
                    return END
                return unit.items[i]
            finally:
                unit.in_next -= 1

        class It:
            def __init__(self):
                self.i = 0

            def __iter__(self):
                return self

            def __next__(self):
                i = self.i
                self.i += 1
                v = step(i)
                if v is END:
                    raise StopIteration
                return v

        def gen():
            i = 0
            while True:
                v = step(i)
                i += 1
                if v is END:
                    unit.sim.probe("stop-value")
                    return "value"
                yield v

        class NoGen:
            def __iter__(self):
                return gen()

        self.pulled = []
        self.ended = False
        if self.own_iter == "list":
            self.fail_at = None
            self.pulled = None
            return list(self.items)
        if self.own_iter != "gen":
            self.sim.probe("own-iterator")
        return {"gen": gen, "object": It, "nogen": NoGen}[self.own_iter]()

    # -- the endpoint
    def route(self):
        k, sim = self.kind, self.sim
        path = "/" + self.name
        err = self.err if self.fail else None
        if k in ("endpoint", "partial", "handler", "status-handler", "handler-500"):
            def ep(request, extra=None):
                self.block("endpoint", err)
                if extra is not None and extra != "extra":
                    self.bad("partial argument")
                return PlainTextResponse(self.name + ":ok")
            return Route(path, functools.partial(ep, extra="extra") if k == "partial" else ep)
        if k == "method":
            class C:
                def ep(s, request):
                    self.block("endpoint", err)
                    return PlainTextResponse(self.name + ":ok")
            return Route(path, C().ep)
        if k == "class":
            class E(HTTPEndpoint):
                def get(s, request):
                    self.block("endpoint", err)
                    return PlainTextResponse(self.name + ":ok")
            return Route(path, E)
        if k in ("background", "backgrounds"):
            async def ep(request):
                def task(a, b=None):
                    if (a, b) != (self.token, self.name):
                        self.bad("background arguments")
                    self.block("task")

                class T:
                    def __call__(s, a, b):
                        task(a, b)
                async def atask(a, b=None):
                    if (a, b) != (self.token, self.name):
                        self.bad("background arguments")
                    self.log.append("atask")
                    if sim.in_worker():
                        self.bad("async task in a thread")
                    await adelay(self.durations[0])

                class A:
                    async def __call__(s, a, b):
                        await atask(a, b)

                class M:
                    async def meth(s, a, b):
                        await atask(a, b)

                t = sim.w.pick([task, functools.partial(task), T(), A(), functools.partial(A()), functools.partial(functools.partial(A(), self.token)),
                                M().meth, functools.partial(atask)])
                if isinstance(t, functools.partial) and isinstance(t.func, A) and t.args:
                    args = ()
                else:
                    args = (self.token,)
                if k == "background":
                    bg = BackgroundTask(t, *args, b=self.name)
                else:
                    bg = BackgroundTasks([BackgroundTask(t, *args, b=self.name)])
                    bg.add_task(task, self.token, b=self.name)
                return PlainTextResponse(self.name + ":ok", background=bg)
            return Route(path, ep)
        if k == "iterator":
            async def ep(request):
                return StreamingResponse(self.iterator())
            return Route(path, ep)
        if k in ("async", "async-partial"):
            async def ep(request, x=1):
                if sim.in_worker():
                    self.bad("async endpoint in a thread")
                self.log.append("async")
                await adelay(self.durations[0])
                return PlainTextResponse(self.name + ":ok")
            return Route(path, functools.partial(ep, x=2) if k == "async-partial" else ep)
        return Route(path, self.direct)

    async def direct(self, request):
        k, sim = self.kind, self.sim
        inner_var.set("mine")
        self.want_inner = "mine"

        def fn(a, *, b, fail=None):
            if a is not self.token:
                self.bad("argument")
            self.block("call", fail)
            return b

        try:
            if k == "call":
                for v in (self.token, None, sim.w.pick([0, False, ValueError("as a value"), StopIteration(3)])):
                    if v is None:
                        sim.probe("return-none")
                    r = await run_in_threadpool(fn, self.token, b=v)
                    if r is not v:
                        self.bad(f"run_in_threadpool returned {r!r}")
                if self.fail:
                    await run_in_threadpool(fn, self.token, b=1, fail=self.err)
            elif k == "calls":
                async def one(i):
                    if await run_in_threadpool(fn, self.token, b=(i,)) != (i,):
                        self.bad("results mixed up")
                await gather(*(one(i) for i in range(3)))
                if self.fail:
                    await run_in_threadpool(fn, self.token, b=1, fail=self.err)
            else:
                got = []
                async for v in iterate_in_threadpool(self.iterator()):
                    got.append(v)
                    await adelay(self.durations[3])
                    if self.pulled is not None and len(self.pulled) != len(got):
                        self.bad("iterator advanced ahead of its consumer")
                if got != self.items or self.fail_at is not None:
                    self.bad(f"iterated {got}")
        except Exception as e:
            if not self.mine(e):
                self.bad(f"raised {e!r}")
            raise
        if var.get() != self.name or inner_var.get() != "mine":
            self.bad("a context variable changed in a thread leaked back")
        return PlainTextResponse(self.name + ":ok")

    # -- running and judging
    def setup(self, app, prefix):
        self.ex = Http(self.sim, app, self.name, path=f"{prefix}/{self.name}", slow=False, gone=self.gone, spec=self.sim.w.pick(["2.3", "2.4"]))

    async def go(self):
        await adelay(self.start_at)
        self.t0 = self.sim.now()
        await self.ex.call(cancel=self.cancel)

    def desc(self):
        return (f"{self.kind} limit={self.h.limit} err={self.err!r} fail_at={self.fail_at} items={self.items} iter={self.own_iter} "
                f"durations={self.durations} log={self.log}: {self.ex.summary()}")

    def judge(self):
        sim, ex = self.sim, self.ex
        where = self.desc()
        if self.problem:
            return sim.fail("effects", f"{self.problem}: {where}")
        check_grammar(sim, ex)
        if ex.hung:
            return sim.fail("hang", where)
        pulled = getattr(self, "pulled", None)
        if pulled is not None and pulled != list(range(len(pulled))):
            return sim.fail("iteration-order", where)
        if ex.cancelled:
            sim.probe("cancelled")
            return
        if ex.gone:
            sim.probe("client-gone")
            return
        if self.kind in ("async", "async-partial"):
            sim.probe("loop-served")
            if abs(ex.end_at - self.t0 - self.durations[0]) > 1e-6:
                return sim.fail("loop-stalled", f"took {ex.end_at - self.t0}: {where}")
        if self.kind in ("iterator", "iterate"):
            n = len(self.items) if self.fail_at is None else self.fail_at
            if pulled is not None and len(pulled) != n + 1:
                return sim.fail("iteration-count", where)
            if self.kind == "iterator":
                if ex.body != "".join(self.items[:n]).encode():
                    return sim.fail("body", where)
                if self.fail_at is not None:
                    if not self.mine(ex.exc) or ex.full:
                        return sim.fail("error", where)
                elif ex.exc is not None or not ex.full:
                    return sim.fail("error", where)
                return
        err = self.err if self.fail and not (self.kind == "iterate" and self.fail_at is None) else None
        if err is None:
            if ex.exc is not None or ex.status != 200 or ex.body.decode() != self.name + ":ok" or not ex.full:
                return sim.fail("result", where)
            n = {"background": 1, "backgrounds": 2, "call": 3, "calls": 3}.get(self.kind, 1)
            if self.kind != "iterate" and len(self.log) != n:
                return sim.fail("calls", where)
            return
        sim.probe("error")
        k = self.kind if self.kind in ("handler", "status-handler") else "handler-500"
        if ex.body.decode() != f"{self.name}:handled:{k}" or not ex.full:
            return sim.fail("handler-result", where)
        if not self.mine(ex.exc) if k == "handler-500" else ex.exc is not None:
            return sim.fail("error", where)
