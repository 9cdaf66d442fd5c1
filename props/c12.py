"""C12: exceptions reach the most specific registered handler exactly once."""
from __future__ import annotations

import functools

from starlette.applications import Starlette
from starlette.background import BackgroundTask
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.exceptions import HTTPException, WebSocketException
from starlette.middleware import Middleware
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.responses import JSONResponse, PlainTextResponse, Response, StreamingResponse
from starlette.routing import Mount, Route, Router, WebSocketRoute

from .apps import make_app, draw_delay
from .common import Http, WebSock, adelay, check_grammar, gather, split_chunks
from .stack import Pure

RUNS = 22000
PROBES = ("handled", "by-class", "by-parent", "by-status", "default-http", "started", "unhandled", "sync-handler",
          "async-handler", "not-found", "not-allowed", "nested", "streaming", "concurrent", "reads-body",
          "default-204", "late-registration", "handler-fails", "handler-raises-again", "send-fails", "websocket",
          "websocket-denied", "websocket-default", "websocket-unhandled")


class Base(Exception):
    pass


class Sub(Base):
    pass


class SubSub(Sub):
    pass


class Other(LookupError):
    pass


class Both(Sub, Other):
    pass


class Boom(Exception):
    """Of a handler; no handler is registered for it."""


class MyHTTP(HTTPException):
    pass


class MyHTTP2(MyHTTP, Base):
    pass


CLASSES = [Base, Sub, SubSub, Other, Both, ValueError, KeyError, LookupError, UnicodeError, OSError, HTTPException, MyHTTP,
           RuntimeError, WebSocketException]
RAISES = [Base, Sub, SubSub, Other, Both, ValueError, KeyError, IndexError, OSError, TimeoutError, ZeroDivisionError, RuntimeError]
STATUSES = [404, 400, 401, 405, 418, 422, 503, 304, 204, 500]


class Table:
    """The handlers registered with one application."""

    def __init__(self, sim, name, unit_of):
        w = sim.w
        self.sim, self.name = sim, name
        self.calls = []
        self.kinds = {}
        self.delays = {}
        self.map = {}
        keys = w.sample(CLASSES, w.weighted([(2, 3), (1, 2), (4, 2), (0, 1)]))
        keys += w.sample(STATUSES[:-1], w.weighted([(0, 3), (1, 3), (3, 1)]))
        for k in keys:
            self.kinds[k] = w.weighted([("async", 3), ("sync", 3), ("partial", 1), ("object", 1)])
            self.delays[k] = draw_delay(sim)
            self.map[k] = self.make(k)

    def key(self, k):
        return k if isinstance(k, int) else k.__name__

    def make(self, k):
        sim = self.sim
        kind = self.kinds[k]

        def respond(request, exc, r=None):
            u = request.scope["sim.unit"]
            self.calls.append((u.name, k, exc))
            sim.log(u.name, "handler", self.name, self.key(k))
            text = f"{self.name}/{self.key(k)}/{u.name}/{u.tag}"
            r = r or u.hresp
            if r == "again":
                sim.probe("handler-raises-again")
                raise exc
            if r == "boom":
                sim.probe("handler-fails")
                u.boom = Boom(text)
                raise u.boom
            if r in ("none", "close"):
                return None
            if r == "stream":
                sim.probe("streaming")

                async def chunks():
                    yield text[:3]
                    await sim.pause("chunks")
                    yield text[3:]
                return StreamingResponse(chunks(), status_code=u.hstatus, headers={"x-h": u.name})
            cls = {"plain": PlainTextResponse, "json": JSONResponse, "bg": PlainTextResponse}[r]
            bg = BackgroundTask(u.ran, k) if r == "bg" else None
            return cls(text, status_code=u.hstatus, headers={"x-h": u.name}, background=bg)

        async def ah(request, exc):
            u = request.scope["sim.unit"]
            sim.probe("async-handler")
            await adelay(self.delays[k])
            if u.hresp == "close":
                await request.close(4321, "handled")
                u.closed = True
                return respond(request, exc, "none")
            if u.hreads:
                sim.probe("reads-body")
                # (only a plain function endpoint shares its request, and thereby the body it read, with the handler)
                near = self.name == ("inner" if u.prefix == "/sub" else "outer")
                if u.site == "endpoint" and u.style == "async" and near or not u.read_somewhere:
                    b = await request.body()
                    if b != u.body:
                        sim.fail("handler-body", f"handler read {b!r}: {u.desc()}")
            return respond(request, exc)

        def sh(request, exc):
            sim.probe("sync-handler")
            if not sim.in_worker():
                sim.fail("blocking-on-loop", "sync exception handler ran on the event loop thread")
            else:
                d = self.delays[k]
                sim.tpause("handler", d if isinstance(d, float) else None)
            return respond(request, exc)

        class Obj:
            async def __call__(self_, request, exc):
                return await ah(request, exc)

        async def extra(t, request, exc):
            return await ah(request, exc)

        return {"async": ah, "sync": sh, "object": Obj(), "partial": functools.partial(extra, 1)}[kind]

    def find(self, exc):
        """The reference lookup."""
        if isinstance(exc, HTTPException) and exc.status_code in self.map:
            return exc.status_code
        for c in type(exc).__mro__:
            if c in self.map:
                return c
            if c in (HTTPException, WebSocketException):
                return "default"
        return None


class Guard:
    """A middleware that fails for marked requests."""

    def __init__(self, app, site, app_sim=None):
        self.app, self.site, self.app_sim = app, site, app_sim

    async def __call__(self, scope, receive, send):
        if scope["type"] != "http":
            return await self.app(scope, receive, send)
        u = scope["sim.unit"]
        if u.site == "send" and self.site == "user":
            async def fails(message):
                await send(message)
                if message["type"] == "http.response.start":
                    self.app_sim.probe("send-fails")
                    raise u.exc
            return await self.app(scope, receive, fails)
        if u.site == self.site:
            await adelay(u.delay)
            raise u.exc
        await self.app(scope, receive, send)
        if u.site == self.site + "-after":
            await adelay(u.delay)
            raise u.exc


def scenario(sim):
    w = sim.w

    async def main():
        n = w.weighted([(1, 3), (2, 3), (3, 2)])
        if n > 1:
            sim.probe("concurrent")
        outer = Table(sim, "outer", None)
        inner = Table(sim, "inner", None)
        system = System(sim, outer, inner)
        units = [WsUnit(sim, f"w{i}", system) if w.chance(0.12) else Unit(sim, f"c{i}", system) for i in range(n)]
        if w.chance(0.3):
            for u in units:
                await u.ex.call()
        else:
            await gather(*(u.ex.call() for u in units))
        for u in units:
            u.judge()

    sim.run(main)


class System:
    def __init__(self, sim, outer, inner):
        w = sim.w
        self.sim, self.outer, self.inner = sim, outer, inner

        async def ep(request):
            return await request.scope["sim.unit"].endpoint(request)

        def sep(request):
            return request.scope["sim.unit"].sync_endpoint(request)

        class Klass(HTTPEndpoint):
            async def get(self, request):
                return await request.scope["sim.unit"].endpoint(request)

        class KlassSync(HTTPEndpoint):
            def get(self, request):
                return request.scope["sim.unit"].sync_endpoint(request)

        async def ws(websocket):
            await websocket.scope["sim.unit"].session(websocket)

        class WsKlass(WebSocketEndpoint):
            async def on_connect(self, websocket):
                await websocket.scope["sim.unit"].session(websocket)

        class Raw:
            async def __call__(self, scope, receive, send):
                await scope["sim.unit"].raw(scope, receive, send)

        def routes():
            guard = [Middleware(Guard, site="route")] if w.chance(0.5) else None
            return [Route("/async", ep, middleware=guard), Route("/sync", sep), Route("/class", Klass), Route("/classsync", KlassSync),
                    Route("/raw", Raw()), WebSocketRoute("/ws", ws), WebSocketRoute("/wsclass", WsKlass)]

        self.bare = w.chance(0.12)
        mount_mw = [Middleware(Guard, site="mount")] if w.chance(0.6) else []
        sub = Starlette(debug=False, routes=routes(), exception_handlers=inner.map)
        top = [*routes(), Mount("/m", routes=routes(), middleware=mount_mw), Mount("/sub", sub)]
        mws = [Middleware(Pure, sim=sim, d=draw_delay(sim))] if w.chance(0.3) else []
        mws.append(Middleware(Guard, site="user", app_sim=sim))
        if self.bare:
            # the middleware around a bare router, without an application
            self.app = ExceptionMiddleware(Router(routes=routes() + [Mount("/m", routes=routes(), middleware=mount_mw)]),
                                           handlers=outer.map)
        elif w.chance(0.3):
            sim.probe("late-registration")
            self.app = Starlette(routes=top, middleware=mws)
            for k, h in outer.map.items():
                if w.chance(0.5):
                    self.app.add_exception_handler(k, h)
                else:
                    self.app.exception_handler(k)(h)
        else:
            self.app = make_app(sim, top, mws, outer.map)
        self.has_mount_guard = bool(mount_mw)


class Unit:
    def __init__(self, sim, name, system):
        w, f = sim.w, sim.f
        self.sim, self.name, self.system = sim, name, system
        self.prefix = w.weighted([("", 4), ("/m", 2), ("/sub", 2)])
        if system.bare and self.prefix == "/sub":
            self.prefix = ""
        self.style = w.pick(["async", "sync", "class", "classsync", "raw"])
        self.path = f"{self.prefix}/{self.style}"
        self.tag = w.int(0, 999)
        self.hresp = w.weighted([("plain", 4), ("json", 4), ("stream", 4), ("bg", 4), ("again", 1), ("boom", 1)])
        self.boom = None
        self.hstatus = w.pick([400, 500, 200, 302])
        self.hreads = w.chance(0.4)
        self.body_read = False
        self.bg_ran = []
        self.delay = draw_delay(sim)
        self.method = "GET"
        self.headers = w.weighted([(None, 4), ({"x-err": "1"}, 2), ({"www-authenticate": "Basic", "x-b": "2"}, 1)])
        k = f.weighted([("class", 5), ("http", 4), ("sub-http", 1), ("none", 2), ("missing", 1), ("method", 1)])
        self.exc = None
        self.site = None
        self.point = "before"
        if k == "missing":
            sim.probe("not-found")
            self.path = self.prefix + "/nowhere"
            self.exc = HTTPException(404)
            self.headers = None
            self.site = "router"
        elif k == "method":
            sim.probe("not-allowed")
            self.path = self.prefix + "/" + w.pick(["async", "class"])
            self.method = "DELETE"
            self.exc = HTTPException(405)
            self.headers = "allow"
            self.site = "router"
        elif k != "none":
            if k == "class":
                self.exc = f.pick(RAISES)(f"e{self.tag}")
            else:
                cls = HTTPException if k == "http" else f.pick([MyHTTP, MyHTTP2])
                self.exc = cls(f.pick(STATUSES), detail=f.pick([None, "why", "caf\xe9", ""]), headers=self.headers)
            sim.fault("app-exception")
            self.site = f.weighted([("endpoint", 6), ("route", 1), ("mount", 1), ("user", 1), ("route-after", 1),
                                    ("mount-after", 1), ("user-after", 1), ("send", 1)])
            if self.site == "endpoint":
                self.point = f.weighted([("before", 4), ("started", 1), ("chunk", 1), ("after", 1), ("bg", 1)])
        self.body = w.bytes(w.pick([0, 5, 100]))
        self.read_somewhere = False
        self.reads = w.chance(0.3)
        # which sites exist on this path
        if self.site in ("mount", "mount-after") and not (self.prefix == "/m" and system.has_mount_guard):
            self.site = "endpoint"
        if self.site in ("user", "user-after", "send") and system.bare:
            self.site = "endpoint"
        if self.site in ("route", "route-after"):
            self.site = "route-maybe" + self.site[5:]
        self.ex = Http(sim, system.app, name, path=self.path, method=self.method, spec=w.pick(["2.3", "2.4"]),
                       chunks=split_chunks(sim, self.body) if self.body else None, style=w.pick(["drop", "queue"]),
                       slow=w.pick([True, "both", False]), extra={"sim.unit": self})
        self.table = None
        if self.site and self.site.startswith("route-maybe"):
            # does the route of this path carry the guard?
            self.site = "route" + self.site[len("route-maybe"):]
            if not self.route_guarded():
                self.site = "endpoint"
        self.ep_calls = 0

    def route_guarded(self):
        if self.style != "async":
            return False
        app = self.system.app
        if self.system.bare:
            routes = app.app.routes
        else:
            routes = app.routes
        if self.prefix == "/m":
            routes = next(r for r in routes if getattr(r, "path", "") == "/m").routes
        elif self.prefix == "/sub":
            routes = next(r for r in routes if getattr(r, "path", "") == "/sub").app.routes
        r = next(r for r in routes if r.path == "/async")
        return isinstance(r.app, Guard)

    def ran(self, k):
        self.bg_ran.append(k)

    def ok(self):
        if self.point == "chunk" and self.site == "endpoint":
            async def chunks():
                yield b"part"
                await adelay(self.delay)
                raise self.exc
            return StreamingResponse(chunks())
        bg = None
        if self.point == "bg" and self.site == "endpoint":
            async def fail():
                await adelay(self.delay)
                raise self.exc
            bg = BackgroundTask(fail)
        return PlainTextResponse(f"ok {self.name}", background=bg)

    async def endpoint(self, request):
        self.ep_calls += 1
        if self.reads:
            self.read_somewhere = True
            self.body_read = True
            await request.body()
        await adelay(self.delay)
        if self.site == "endpoint" and self.point in ("before", "started", "after"):
            raise self.exc
        return self.ok()

    def sync_endpoint(self, request):
        self.ep_calls += 1
        if self.site == "endpoint" and self.point in ("before", "started", "after"):
            raise self.exc
        return self.ok()

    async def raw(self, scope, receive, send):
        self.ep_calls += 1
        await adelay(self.delay)
        mine = self.site == "endpoint"
        if mine and self.point == "before":
            raise self.exc
        await send({"type": "http.response.start", "status": 200, "headers": []})
        if mine and self.point == "started":
            raise self.exc
        await send({"type": "http.response.body", "body": b"part", "more_body": True})
        if mine and self.point in ("chunk", "bg"):
            raise self.exc
        await send({"type": "http.response.body", "body": b""})
        if mine and self.point == "after":
            raise self.exc

    def desc(self):
        t = {n: [t.key(k) for k in t.map] for n, t in (("outer", self.system.outer), ("inner", self.system.inner))}
        calls = [(n, t.key(k), repr(e)) for t in (self.system.outer, self.system.inner) for n, k, e in t.calls if n == self.name]
        return (f"{self.method} {self.path} site={self.site} point={self.point} raises {self.exc!r} handlers {t} bare={self.system.bare}"
                f" hresp={self.hresp} calls={calls}: {self.ex.summary()} headers={self.ex.rheaders}")

    def judge(self):
        sim, ex, system = self.sim, self.ex, self.system
        where = self.desc()
        check_grammar(sim, ex)
        if ex.hung:
            return sim.fail("hang", where)
        calls = [(t, k, e) for t in (system.outer, system.inner) for n, k, e in t.calls if n == self.name]
        point = self.point
        raw = self.style == "raw"
        if not raw and point in ("started", "after"):
            point = "before"
        if self.site is None or self.exc is None:
            if calls:
                return sim.fail("handler-for-nothing", where)
            if ex.exc is not None or ex.status != 200 or not ex.full:
                return sim.fail("response", where)
            return
        started = point != "before" and self.site == "endpoint" or (self.site or "").endswith("-after") or self.site == "send"
        # tables that see the exception on its way out
        if self.site in ("user", "user-after"):
            tables = []
        elif self.prefix == "/sub":
            tables = [system.inner, system.outer]
        else:
            tables = [system.outer]
        if self.site == "router" and self.prefix == "/m" and False:
            pass
        if system.bare and self.site == "router":
            # without an application, the router answers by itself
            if ex.exc is not None or calls or ex.status != self.exc.status_code:
                sim.fail("bare-router", where)
            return
        cur = self.exc
        sent500 = False
        expected = []  # the handlers that fail
        for t in tables:
            k = t.find(cur) if not isinstance(cur, str) else "started-error"
            if k is None:
                # unhandled in this application
                if t is system.inner:
                    sim.probe("nested")
                    if not started:
                        sent500 = started = True
                continue
            if cur == "late":
                continue
            if started:
                sim.probe("started")
                cur = "late"
                break
            # handled here
            sim.probe("handled")
            if k == "default":
                sim.probe("default-http")
                return self.judge_default(calls, where)
            sim.probe("by-status" if isinstance(k, int) else "by-class" if k is type(self.exc) else "by-parent")
            if self.hresp not in ("again", "boom"):
                return self.judge_handled(t, k, calls, where)
            expected.append((t, k))
            if self.hresp == "boom":
                cur = self.boom
            if t is system.inner:
                sent500 = started = True
        if expected:
            if [c[:2] for c in calls] != expected:
                return sim.fail("handler-count", f"want calls of {[(t.name, t.key(k)) for t, k in expected]} only: {where}")
        elif calls:
            return sim.fail("handler-called", f"no handler applies: {where}")
        if cur == "late":
            e, seen = ex.exc, False
            if not isinstance(e, RuntimeError) or isinstance(self.exc, RuntimeError) and e is self.exc:
                return sim.fail("late-error", f"want an error about the started response: {where}")
            if "already started" not in str(e):
                return sim.fail("late-error", f"{e}: {where}")
            while e is not None:
                e = e.__cause__
                seen = seen or e is self.exc or e is self.boom
            if not seen and self.site != "router":
                return sim.fail("late-cause", f"the original is not the cause: {where}")
        else:
            sim.probe("unhandled")
            if ex.exc is not (self.boom or self.exc) and not (self.site == "router" and type(ex.exc) is HTTPException):
                return sim.fail("not-propagated", where)
        if sent500:
            if ex.status != 500 or not ex.full:
                return sim.fail("no-500", where)
        elif started:
            if ex.status != 200:
                return sim.fail("started-response", where)
            if (point in ("started", "chunk") and self.site == "endpoint" or self.site == "send") and ex.full:
                return sim.fail("finished", where)
        elif system.bare:
            if ex.sent:
                return sim.fail("sent", where)
        elif ex.status != 500 or not ex.full:
            return sim.fail("no-500", where)

    def judge_handled(self, t, k, calls, where):
        sim, ex = self.sim, self.ex
        if len(calls) != 1:
            return sim.fail("handler-count", f"want one call of {t.name}/{t.key(k)}: {where}")
        ct, ck, ce = calls[0]
        if ct is not t or ck != k:
            return sim.fail("wrong-handler", f"want {t.name}/{t.key(k)}: {where}")
        if ce is not self.exc and not (self.site == "router" and type(ce) is HTTPException and
                                       ce.status_code == self.exc.status_code):
            return sim.fail("wrong-exception", f"handler got {ce!r}: {where}")
        if ex.exc is not None:
            return sim.fail("raised-though-handled", where)
        text = f"{t.name}/{t.key(k)}/{self.name}/{self.tag}"
        want = f'"{text}"' if self.hresp == "json" else text
        if (ex.status, ex.body, ex.full, ex.header(b"x-h")) != (self.hstatus, want.encode(), True, self.name.encode()):
            return sim.fail("handler-response", where)
        if self.hresp == "bg" and len(self.bg_ran) != 1:
            return sim.fail("handler-background", where)

    def judge_default(self, calls, where):
        sim, ex = self.sim, self.ex
        e = self.exc
        if calls:
            return sim.fail("handler-called", where)
        if ex.exc is not None:
            return sim.fail("raised-though-handled", where)
        if ex.status != e.status_code or not ex.full:
            return sim.fail("default-response", where)
        if e.status_code in (204, 304):
            sim.probe("default-204")
            want = b""
        else:
            want = e.detail.encode()
        if ex.body != want:
            return sim.fail("default-detail", f"want {want!r}: {where}")
        if self.headers == "allow":
            allow = ex.header(b"allow")
            if allow is None or b"GET" not in allow:
                return sim.fail("default-headers", where)
        elif self.headers:
            for k, v in self.headers.items():
                if ex.headers_all(k.encode()) != [v.encode()]:
                    return sim.fail("default-headers", where)


class WsUnit:
    """A websocket whose endpoint fails."""

    prefix, style, body, reads, hreads = "", "ws", b"", False, False

    def __init__(self, sim, name, system):
        w, f = sim.w, sim.f
        self.sim, self.name, self.system = sim, name, system
        self.prefix = w.weighted([("", 4), ("/m", 2), ("/sub", 2)])
        if system.bare and self.prefix == "/sub":
            self.prefix = ""
        self.klass = w.chance(0.3)
        self.tag = w.int(0, 999)
        self.accepts = w.chance(0.4)
        self.delay = draw_delay(sim)
        self.hresp = w.weighted([("close", 3), ("none", 1), ("again", 1), ("boom", 1), ("plain", 0 if self.accepts else 4), ("json", 0 if self.accepts else 2)])
        self.hstatus = w.pick([400, 403, 503])
        self.boom, self.closed, self.site = None, False, None
        self.headers = w.pick([None, {"x-err": "1"}])
        k = f.weighted([("class", 4), ("ws", 3), ("http", 0 if self.accepts else 4), ("none", 1)])
        self.exc = None
        if k == "class":
            self.exc = f.pick(RAISES)(f"e{self.tag}")
        elif k == "ws":
            self.exc = WebSocketException(f.pick([1008, 4000, 1011]), f.pick([None, "why"]))
        elif k == "http":
            self.exc = f.pick([HTTPException, MyHTTP, MyHTTP2])(f.pick([s for s in STATUSES if s not in (204, 304)]), "detail", self.headers)
        if self.exc is not None:
            sim.fault("app-exception")
        sim.probe("websocket")
        self.ex = WebSock(sim, system.app, name, path=f"{self.prefix}/ws{'class' if self.klass else ''}", slow=w.pick([True, "both", False]),
                          script=[(5.0, ("close", 1001, None))], wait_accept=False, extensions={"websocket.http.response": {}},
                          extra={"sim.unit": self})

    async def session(self, websocket):
        if self.accepts:
            await websocket.accept()
        elif self.sim.s.chance(0.5):
            await websocket.receive()
        await adelay(self.delay)
        if self.exc is not None:
            raise self.exc
        await websocket.close(3000)

    def desc(self):
        t = {n: [t.key(k) for k in t.map] for n, t in (("outer", self.system.outer), ("inner", self.system.inner))}
        calls = [(t.name, t.key(k), repr(e)) for t in (self.system.outer, self.system.inner) for n, k, e in t.calls if n == self.name]
        return (f"{self.ex.scope['path']} accepts={self.accepts} raises {self.exc!r} handlers {t} hresp={self.hresp} calls={calls}: "
                f"{self.ex.summary()}")

    def judge(self):
        sim, ex, system = self.sim, self.ex, self.system
        where = self.desc()
        check_grammar(sim, ex)
        if ex.hung:
            return sim.fail("hang", where)
        calls = [(t, k, e) for t in (system.inner, system.outer) for n, k, e in t.calls if n == self.name]
        acc = ["websocket.accept"] * self.accepts
        types = [m["type"] for m in ex.sent]
        deny = ["websocket.http.response.start", "websocket.http.response.body"]
        if self.exc is None:
            if calls:
                return sim.fail("handler-for-nothing", where)
            if not ex.gone and (ex.exc is not None and not self.klass or types != acc + ["websocket.close"]):
                sim.fail("response", where)
            return
        cur, expected, end = self.exc, [], "raise"
        for t in [system.inner, system.outer] if self.prefix == "/sub" else [system.outer]:
            k = t.find(cur)
            if k is None:
                continue
            if k == "default":
                end = "default"
                break
            expected.append((t, k))
            if self.hresp == "boom":
                cur = self.boom
            elif self.hresp != "again":
                end = "handled"
                break
        if [c[:2] for c in calls] != expected:
            return sim.fail("handler-count", f"want calls of {[(t.name, t.key(k)) for t, k in expected]}: {where}")
        if any(e is not self.exc for _, _, e in calls):
            return sim.fail("wrong-exception", where)
        if end == "raise":
            sim.probe("websocket-unhandled")
            if ex.exc is not cur:
                return sim.fail("not-propagated", where)
            if types != acc:
                sim.fail("sent", where)
            return
        if ex.exc is not None:
            return sim.fail("raised-though-handled", where)
        if end == "default":
            sim.probe("websocket-default")
            e = self.exc
            if isinstance(e, WebSocketException):
                ok = types == acc + ["websocket.close"] and (ex.sent[-1]["code"], ex.sent[-1]["reason"]) == (e.code, e.reason or "")
            else:
                ok = self.denied(types, deny, e.status_code, e.detail)
                for a, b in (self.headers or {}).items():
                    ok = ok and (a.encode(), b.encode()) in ex.sent[0]["headers"]
            if not ok:
                sim.fail("default-response", where)
            return
        if self.hresp in ("plain", "json"):
            sim.probe("websocket-denied")
            t, k = expected[-1]
            text = f"{t.name}/{t.key(k)}/{self.name}/{self.tag}"
            if not self.denied(types, deny, self.hstatus, f'"{text}"' if self.hresp == "json" else text):
                sim.fail("handler-response", where)
        elif types != acc + ["websocket.close"] * self.closed or self.closed and (ex.sent[-1]["code"], ex.sent[-1]["reason"]) != (4321, "handled"):
            sim.fail("handler-response", where)

    def denied(self, types, deny, status, text):
        ex = self.ex
        return types == deny and ex.sent[0]["status"] == status and ex.sent[1].get("body") == text.encode() and not ex.sent[1].get("more_body")
