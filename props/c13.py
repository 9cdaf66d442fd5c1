"""C13: background tasks run after the response, in order, exactly once."""
from __future__ import annotations

import functools
import os

from starlette.background import BackgroundTask, BackgroundTasks
from starlette.endpoints import HTTPEndpoint
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.responses import FileResponse, HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse
from starlette.routing import Mount, Route

from .apps import make_app, ERRS, draw_delay
from .common import ClientGone, Http, adelay, check_grammar, draw_gone, gather, split_chunks
from .stack import draw_stack
from starlette.requests import ClientDisconnect

RUNS = 26000
PROBES = ("single", "several", "sync", "async", "failing-task", "skipped-after-failure", "failing-stream", "failing-send",
          "shared-response", "handler-response", "partial", "object", "nested-tasks", "concurrent", "gone", "bound-method", "empty",
          "added-by-a-task", "same-list", "dispatch", "file", "file-range", "file-ranges", "range-rejected")
PAGE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "page.txt")  # 300 bytes


class Boom(Exception):
    pass


class Asked(Exception):
    pass


def value(w):
    """An argument, handed over as the very object it is."""
    return w.weighted([(w.int(0, 99), 5), (None, 1), ("", 1), (0, 1), (False, 1), ([w.int(0, 9)], 2), ({}, 1), (functools.partial(len), 1)])


def same(got, want):
    return len(got) == len(want) and all(a is b for a, b in zip(got, want))


class Task:
    """One background task: what it is called with and what it did."""

    def __init__(self, unit, i):
        w, f = unit.sim.w, unit.sim.f
        self.unit, self.i = unit, i
        self.kind = w.weighted([("async", 4), ("sync", 4), ("partial", 1), ("object", 1), ("method", 1), ("sync-partial", 1)])
        self.args = tuple(value(w) for _ in range(w.int(0, 3)))
        self.kwargs = {k: value(w) for k in w.sample(["a", "tasks", "key", "b", "is_async"], w.int(0, 2))}
        self.delay = draw_delay(unit.sim)
        self.err = f.pick(ERRS)(f"task{i}") if f.chance(0.12) else None
        if self.kind in ("partial", "object", "method"):
            unit.sim.probe({"method": "bound-method"}.get(self.kind, self.kind))

    @property
    def sync(self):
        return self.kind in ("sync", "sync-partial")

    def rec(self, what, a=None, k=None):
        u = self.unit
        seq = next(u.sim.seq)
        u.events.append((seq, what, self.i, a, k))
        u.sim.log(u.name, what, self.i)

    def func(self):
        sim = self.unit.sim

        async def af(*a, **k):
            sim.probe("async")
            self.rec("start", a, k)
            self.add_late()
            await adelay(self.delay)
            if self.err is not None:
                sim.fault("task-error")
                self.rec("fail")
                raise self.err
            self.rec("end")

        def sf(*a, **k):
            sim.probe("sync")
            self.rec("start", a, k)
            self.add_late()
            if not sim.in_worker():
                sim.fail("blocking-on-loop", f"sync background task ran on the event loop thread: {self.unit.desc()}")
            else:
                sim.tpause("task", self.delay if isinstance(self.delay, float) else None)
            if self.err is not None:
                sim.fault("task-error")
                self.rec("fail")
                raise self.err
            self.rec("end")

        class Obj:
            async def __call__(self_, *a, **k):
                await af(*a, **k)

            async def method(self_, *a, **k):
                await af(*a, **k)

        return {"async": af, "sync": sf, "partial": functools.partial(af, *self.args[:1]), "object": Obj(),
                "method": Obj().method, "sync-partial": functools.partial(sf, *self.args[:1])}[self.kind]

    def add_late(self):
        """the first task adds the last one"""
        u = self.unit
        if u.late is not None and self.i == 0:
            u.sim.probe("added-by-a-task")
            u.late()
            u.late = None

    def rest(self):
        return self.args[1:] if "partial" in self.kind else self.args


def scenario(sim):
    w = sim.w

    async def main():
        n = w.weighted([(1, 4), (2, 3), (3, 1)])
        if n > 1:
            sim.probe("concurrent")
        units = [Unit(sim, f"c{i}") for i in range(n)]
        extra = []
        if w.chance(0.2):
            sim.probe("shared-response")
            units[0].share()
            for j in range(w.int(1, 2)):
                extra.append(units[0].exchange(f"{units[0].name}.{j}"))
        calls = [u.ex for u in units] + extra
        if w.chance(0.3):
            for ex in calls:
                await ex.call()
        else:
            await gather(*(ex.call() for ex in calls))
        for u in units:
            u.judge(1 + (len(extra) if u is units[0] else 0), extra if u is units[0] else [])

    sim.run(main)


class Unit:
    def __init__(self, sim, name):
        w, f = sim.w, sim.f
        self.sim, self.name = sim, name
        self.events = []
        self.late = None
        self.foreign = False
        self.tasks = [Task(self, i) for i in range(w.weighted([(2, 3), (1, 3), (3, 2), (5, 1), (0, 1)]))]
        self.single = len(self.tasks) == 1 and w.chance(0.7)
        self.nested = False
        if self.single:
            sim.probe("single")
        elif len(self.tasks) > 1:
            sim.probe("several")
        elif not self.tasks:
            sim.probe("empty")
        self.kind = w.pick(["plain", "json", "html", "redirect", "stream", "stream-sync", "stream", "empty", "file"])
        self.chunk = w.pick([64, 100, 7, 4096])
        self.range = None
        if self.kind == "file":
            sim.probe("file")
            self.range = w.pick([None, None, b"bytes=0-99", b"bytes=-5", b"bytes=0-9, 20-29,40-139", b"bytes=900-", b"pages=1", b"bytes=", b"bytes=5-2"])
            if self.range:
                sim.probe("file-ranges" if b"," in self.range else "file-range" if self.range[-2:] in (b"99", b"-5") else "range-rejected")
        self.chunks = [w.bytes(w.pick([3, 0, 50, 700])) for _ in range(w.int(0, 4))]
        self.delays = [draw_delay(sim) for _ in self.chunks]
        self.break_at = None
        if self.kind.startswith("stream") and f.chance(0.15):
            self.break_at = f.int(0, len(self.chunks))
            sim.probe("failing-stream")
        self.boom = Boom("stream")
        self.where = w.pick(["async", "sync", "class", "handler", "500", "asgi", "dispatch"])
        self.response = None
        mws, self.names = draw_stack(sim, kinds=("gzip", "session", "cors", "host", "auth", "pure"))
        if self.where == "dispatch":
            sim.probe("dispatch")

            async def dispatch(request, call_next):
                response = await call_next(request)
                response.background = self.background()
                return response
            mws = [*mws, Middleware(BaseHTTPMiddleware, dispatch=dispatch)]
        handlers = {}
        if self.where == "handler":
            sim.probe("handler-response")

            async def h(request, exc):
                return self.make()
            handlers[Asked] = h
        elif self.where == "500":
            async def h5(request, exc):
                return self.make()
            handlers[Exception] = h5

        async def ep(request):
            if self.where in ("handler", "500"):
                raise (Asked if self.where == "handler" else ZeroDivisionError)("e")
            return self.make()

        def sep(request):
            return self.make()

        class Klass(HTTPEndpoint):
            async def get(self_, request):
                return self.make()
            post = get

        class Asgi:
            async def __call__(self_, scope, receive, send):
                await self.make()(scope, receive, send)

        endpoint = {"sync": sep, "class": Klass, "asgi": Asgi()}.get(self.where, ep)
        routes = [Route("/", endpoint, methods=None if self.where in ("class", "asgi") else ["GET", "POST"])]
        if w.chance(0.2):
            routes = [Mount("/", routes=routes)]
        self.app = make_app(sim, routes=routes, middleware=mws, exception_handlers=handlers)
        self.ex = self.exchange(name)

    def exchange(self, name):
        sim, w = self.sim, self.sim.w
        body = w.bytes(w.pick([0, 9]))
        return Http(sim, self.app, name, spec=w.pick(["2.3", "2.4"]), method=w.pick(["GET", "POST"]),
                    chunks=split_chunks(sim, body) if body else None, style=w.pick(["drop", "queue"]),
                    headers=([(b"accept-encoding", b"gzip")] if w.chance(0.3) else []) + ([(b"range", self.range)] if self.range else []),
                    gone=draw_gone(sim, 0.12, 1), slow=w.pick([True, "both", False]))

    can_add = True

    def share(self):
        """One response object answers several requests."""
        self.can_add = False
        if self.kind.startswith("stream"):
            self.kind = "plain"
            self.break_at = None
        for t in self.tasks:
            t.err = None
        if self.where != "dispatch":
            self.response = self.make()

    def background(self):
        w = self.sim.w
        if not self.tasks:
            return w.pick([None, BackgroundTasks()])
        t = self.tasks[0]
        if self.single:
            return BackgroundTask(t.func(), *t.rest(), **t.kwargs)
        how = w.int(0, 2)
        made = [BackgroundTask(t.func(), *t.rest(), **t.kwargs) for t in self.tasks]
        if how == 0:
            if w.chance(0.3):
                # the same list for another response, which gets one more task
                self.sim.probe("same-list")

                async def poison():
                    self.foreign = True
                BackgroundTasks(made).add_task(poison)
            return BackgroundTasks(made)
        if self.can_add and len(made) > 1 and w.chance(0.2):
            bg = BackgroundTasks(made[:-1])
            t = self.tasks[-1]
            self.late = functools.partial(bg.add_task, t.func(), *t.rest(), **t.kwargs)
            return bg
        bg = BackgroundTasks(made[:1] if how == 2 else None)
        for t, m in list(zip(self.tasks, made))[1 if how == 2 else 0:]:
            if w.chance(0.1):
                self.sim.probe("nested-tasks")
                bg.add_task(BackgroundTasks([m]))
            elif w.chance(0.1):
                bg.add_task(m)
            else:
                bg.add_task(t.func(), *t.rest(), **t.kwargs)
        return bg

    def make(self):
        if self.response is not None:
            return self.response
        sim = self.sim
        bg = self.background() if self.where != "dispatch" else None
        body = b"".join(self.chunks)
        k = self.kind
        if k == "plain":
            return PlainTextResponse(body, background=bg)
        if k == "html":
            return HTMLResponse(body, background=bg)
        if k == "json":
            return JSONResponse({"n": len(body)}, background=bg)
        if k == "redirect":
            return RedirectResponse("/x", background=bg)
        if k == "file":
            response = FileResponse(PAGE, background=bg)
            response.chunk_size = self.chunk
            return response
        if k == "empty":
            return Response(status_code=204, background=bg)

        async def agen():
            for i, c in enumerate(self.chunks):
                await adelay(self.delays[i])
                if self.break_at == i:
                    raise self.boom
                yield c
            if self.break_at == len(self.chunks):
                raise self.boom

        def gen():
            for i, c in enumerate(self.chunks):
                if sim.in_worker():
                    sim.tpause("gen")
                if self.break_at == i:
                    raise self.boom
                yield c
            if self.break_at == len(self.chunks):
                raise self.boom

        return StreamingResponse(agen() if k == "stream" else gen(), background=bg)

    def desc(self):
        return (f"{self.names} {self.where} {self.kind} {self.range} chunks={[len(c) for c in self.chunks]} break={self.break_at} tasks="
                f"{[(t.kind, t.args, t.kwargs, t.delay, t.err) for t in self.tasks]} events={[e[:3] for e in self.events]}: "
                f"{self.ex.summary()}")

    def judge(self, times, extra):
        sim, ex = self.sim, self.ex
        where = self.desc()
        for e in (ex, *extra):
            check_grammar(sim, e)
            if e.hung:
                return sim.fail("hang", where)
        if self.foreign:
            return sim.fail("foreign-task", where)
        ev = self.events
        starts = [e for e in ev if e[1] == "start"]
        for s in starts:
            t = self.tasks[s[2]]
            want = t.rest()
            got = s[3]
            if "partial" in t.kind and t.args:
                want = t.args
            if not same(got, want) or set(s[4]) != set(t.kwargs) or not all(s[4][k] is v for k, v in t.kwargs.items()):
                return sim.fail("arguments", f"task {s[2]} got {got} {s[4]}: {where}")
        if times > 1:
            # a shared response: every complete exchange runs every task once
            whole = [e for e in (ex, *extra) if e.full and not e.gone]
            counts = {t.i: sum(1 for s in starts if s[2] == t.i) for t in self.tasks}
            if any(not len(whole) <= c <= times for c in counts.values()):
                return sim.fail("count", f"{counts} for {times} requests: {where}")
            return
        order = [s[2] for s in starts]
        if order != list(range(len(order))):
            return sim.fail("order", where)
        if len(order) > len(self.tasks):
            return sim.fail("count", where)
        # one at a time
        expect = []
        for i in range(len(order)):
            expect += [("start", i), ("fail" if self.tasks[i].err is not None else "end", i)]
        if [(e[1], e[2]) for e in ev] != expect:
            return sim.fail("overlap", where)
        if starts:
            if ex.complete_seq is None:
                if not ex.gone:
                    return sim.fail("before-response", where)
            elif starts[0][0] < ex.complete_seq and not ex.gone_before(starts[0][0]):
                return sim.fail("before-response", where)
            if ev[-1][0] > ex.end_seq:
                return sim.fail("after-return", where)
        failing = next((t for t in self.tasks if t.err is not None), None)
        if self.break_at is not None and (not ex.gone or ex.exc is self.boom):
            if starts:
                return sim.fail("ran-after-broken-response", where)
            want = self.boom if self.where != "500" else None
            if want is not None and ex.exc is not want:
                return sim.fail("error", where)
            return
        if ex.gone:
            sim.probe("gone")
            if ex.send_fail:
                sim.probe("failing-send")
                if starts:
                    return sim.fail("ran-after-failed-send", where)
                if ex.exc is None or not isinstance(ex.exc, (ClientGone, ClientDisconnect)) and self.where != "500":
                    return sim.fail("error", where)
                return
            if not ex.full:
                return
        want = len(self.tasks) if failing is None else failing.i + 1
        if failing is not None:
            sim.probe("failing-task")
            if failing.i + 1 < len(self.tasks):
                sim.probe("skipped-after-failure")
        if len(starts) != want:
            return sim.fail("count", f"{len(starts)} tasks ran, want {want}: {where}")
        if failing is not None:
            if ex.exc is not failing.err:
                return sim.fail("task-error-lost", where)
        elif self.where == "500":
            if not isinstance(ex.exc, ZeroDivisionError):
                return sim.fail("error", where)
        elif ex.exc is not None:
            return sim.fail("error", where)
        if not ex.full:
            return sim.fail("response", where)
