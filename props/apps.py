"""Random applications with a known expected response: responses, endpoints, background work, raise points."""
from __future__ import annotations

import json

import anyio

from sim.server import adelay
from starlette.background import BackgroundTask, BackgroundTasks
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException
from starlette.responses import (
    HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse,
)
from starlette.routing import Route


class AppError(Exception):
    pass


class SubError(AppError):
    pass


class OtherError(LookupError):
    pass


class AppGroup(ExceptionGroup):
    """The failure of a task group of the application."""

    def __new__(cls, text):
        return super().__new__(cls, text, [ValueError(text)])


ERRS = [AppError, SubError, OtherError, ValueError, KeyError, RuntimeError, OSError, TimeoutError,
        AssertionError, AppGroup]


class Obs:
    """What the application side did, in global order."""

    def __init__(self, sim, name):
        self.sim, self.name = sim, name
        self.events = []
        self.at = {}
        self.ex = None

    def add(self, kind, *data):
        seq = next(self.sim.seq)
        self.events.append((seq, kind, *data))
        self.at[seq] = self.sim.now()
        self.sim.log(self.name + ".app", kind, *data)
        if self.ex is not None:
            self.ex.ev_app()
        return seq

    def count(self, kind):
        return sum(1 for e in self.events if e[1] == kind)

    def seqs(self, kind):
        return [e[0] for e in self.events if e[1] == kind]


class Spec:
    """One endpoint behaviour."""

    def __init__(self):
        self.kind = "plain"
        self.style = "async"
        self.status = 200
        self.headers = []  # extra response headers, lower case (str, str)
        self.chunks = [b""]
        self.delays = []
        self.err = None  # None | (point, exception object)
        self.bg = []  # (sync, delay, error or None)
        self.media = None
        self.wait0 = 0  # delay before the response is made
        self.omit = ()
        self.lazy = None
        self.gate = None
        self.content_length = False
        self.extra = {}

    @property
    def body(self):
        return b"".join(self.chunks)

    def __repr__(self):
        return (f"<{self.kind}/{self.style} {self.status} chunks={[len(c) for c in self.chunks]} delays={self.delays} "
                f"err={self.err} bg={self.bg} wait0={self.wait0} hdr={self.headers}>")


DELAYS = [(0, 5), ("yield", 3), (0.001, 2), (0.004, 1), (0.05, 1), (1.0, 1)]


def draw_delay(sim):
    return sim.s.weighted(DELAYS)


PLAIN = ["plain", "text", "html", "json", "redirect", "memoryview"]
STREAM = ["agen", "aiter", "gen", "list", "strgen", "mixed"]
RAW = ["raw"]


def draw_chunks(sim, nmax=5, big=False):
    w = sim.w
    n = w.weighted([(1, 2), (0, 1), (2, 3), (3, 3), (nmax, 1)])
    out = []
    for _ in range(n):
        size = w.weighted([(3, 4), (0, 2), (1, 1), (40, 2), (700, 1), (70_000 if big else 200, 1)])
        out.append(w.bytes(size))
    return out


HDRS = [("x-a", "1"), ("x-dup", "a"), ("x-dup", "b"), ("set-cookie", "a=1"), ("set-cookie", "b=2; Path=/"),
        ("cache-control", "no-store"), ("vary", "Accept"), ("x-empty", ""), ("x-utf", "caf\xe9"), ("etag", '"q"')]


def draw_spec(sim, kinds=PLAIN + STREAM + RAW, err_points=(), err_p=0.0, bg_p=0.0, bg_err_p=0.2, big=False,
              styles=("async", "async", "sync", "class", "classsync"), sync_delay=True):
    w, f = sim.w, sim.f
    sp = Spec()
    sp.kind = w.pick(kinds)
    sp.style = w.pick(styles)
    sp.status = w.weighted([(200, 6), (201, 1), (404, 1), (410, 1), (204, 1), (302, 1), (418, 1)])
    sp.wait0 = draw_delay(sim)
    hd = w.sample(HDRS, w.weighted([(0, 3), (1, 2), (2, 2), (4, 1)]))
    sp.headers = hd
    if sp.kind in STREAM or sp.kind in RAW:
        sp.chunks = draw_chunks(sim, big=big)
        if sp.status in (204, 302):
            sp.status = 200
        sp.delays = [draw_delay(sim) for _ in sp.chunks]
        if sp.kind == "strgen":
            sp.chunks = [w.text(min(len(c), 12)).encode() for c in sp.chunks]
        if w.chance(0.3):
            sp.content_length = True
    elif sp.kind == "redirect":
        sp.chunks = [b""]
        sp.status = w.pick([307, 302, 301, 303, 308])
    elif sp.status == 204:
        sp.kind = "plain"
        sp.chunks = [b""]
    elif sp.kind == "json":
        val = {"k": w.text(w.int(0, 10)), "n": [w.int(0, 99) for _ in range(w.int(0, 4))]}
        sp.extra["json"] = val
        sp.chunks = [json.dumps(val, ensure_ascii=False, separators=(",", ":")).encode()]
    elif sp.kind in ("text", "html"):
        sp.extra["text"] = w.text(w.int(0, 30))
        sp.chunks = [sp.extra["text"].encode()]
    else:
        sp.chunks = [w.bytes(w.weighted([(3, 4), (0, 2), (60, 2), (700, 1), (70_000 if big else 1000, 1)]))]
    if sp.kind in PLAIN and sp.kind != "redirect" and sp.status != 204 and w.chance(0.15):
        sp.content_length = True
    if sp.kind not in RAW and w.chance(0.25):
        sp.extra["caps"] = True
    if sp.kind in RAW:
        if w.chance(0.5):
            sp.omit = tuple(w.sample(["body", "more_body", "headers"], w.int(1, 3)))
        if w.chance(0.2):
            sp.lazy = w.pick(["tuple", "iter", "gen"])
        sp.style = "raw"
    if bg_p and sp.kind not in RAW and w.chance(bg_p):
        n = w.weighted([(1, 3), (2, 2), (3, 1)])
        sp.bg = [(w.chance(0.35), draw_delay(sim),
                  f.pick(ERRS)(f"bg{i}") if f.chance(bg_err_p) else None) for i in range(n)]
    if err_p and f.chance(err_p):
        pts = [p for p in err_points if p in ("before", "http") or sp.kind in STREAM + RAW]
        if pts:
            p = f.pick(pts)
            cls = f.pick(ERRS)
            if p == "chunk":
                p = ("chunk", f.int(0, len(sp.chunks)))
            if p == "http":
                st = f.pick([400, 401, 404, 409, 422, 503])
                e = HTTPException(st, detail=f.pick([None, "why", "caf\xe9"]))
            else:
                e = cls("boom")
            sp.err = (p, e)
            sim.fault("app-error")
    return sp


# ---------------------------------------------------------------------------------------------- building
def make_bg(sim, sp, obs):
    if not sp.bg:
        return None
    tasks = []
    for i, (sync, delay, err) in enumerate(sp.bg):
        if sync:
            def fn(i=i, delay=delay, err=err):
                obs.add("bg-start", i)
                if not sim.in_worker():
                    sim.fail("blocking-on-loop", f"sync background task {i} ran on the event loop thread")
                sim.tpause("bg", delay if isinstance(delay, float) and sim.in_worker() else None)
                if err is not None:
                    obs.add("bg-err", i)
                    raise err
                obs.add("bg-end", i)
        else:
            async def fn(i=i, delay=delay, err=err):
                obs.add("bg-start", i)
                await adelay(delay)
                if sp.gate is not None and "bg" in sp.gate:
                    await sp.gate["bg"](i)
                if err is not None:
                    obs.add("bg-err", i)
                    raise err
                obs.add("bg-end", i)
        tasks.append(fn)
    if len(tasks) == 1 and sp.extra.get("single", True):
        return BackgroundTask(tasks[0])
    b = BackgroundTasks()
    for t in tasks:
        b.add_task(t)
    return b


def source(sim, sp, obs):
    """The body iterator of a streaming response."""
    p = sp.err[0] if sp.err else None

    def maybe(i):
        if p == ("chunk", i):
            obs.add("raise")
            raise sp.err[1]

    if sp.kind in ("agen", "strgen", "mixed"):
        async def agen():
            try:
                for i, c in enumerate(sp.chunks):
                    obs.add("pull", i)
                    await adelay(sp.delays[i])
                    if sp.gate is not None and "chunk" in sp.gate:
                        await sp.gate["chunk"](i)
                    maybe(i)
                    obs.add("yield", i)
                    if sp.kind == "strgen":
                        yield c.decode()
                    elif sp.kind == "mixed" and i % 3:
                        yield memoryview(c)
                    else:
                        yield c
                    obs.add("after", i)
                obs.add("pull", len(sp.chunks))
                maybe(len(sp.chunks))
            finally:
                obs.add("src-end")
        return agen()
    if sp.kind == "aiter":
        class It:
            def __init__(self):
                self.i = 0

            def __aiter__(self):
                return self

            async def __anext__(self):
                i = self.i
                self.i += 1
                obs.add("pull", i)
                if i >= len(sp.chunks):
                    maybe(i)
                    raise StopAsyncIteration
                await adelay(sp.delays[i])
                if sp.gate is not None and "chunk" in sp.gate:
                    await sp.gate["chunk"](i)
                maybe(i)
                obs.add("yield", i)
                return sp.chunks[i]
        return It()
    if sp.kind == "gen":
        def gen():
            try:
                for i, c in enumerate(sp.chunks):
                    obs.add("pull", i)
                    if not sim.in_worker():
                        sim.fail("blocking-on-loop", "sync iterator advanced on the event loop thread")
                    else:
                        sim.tpause("src", sp.delays[i] if isinstance(sp.delays[i], float) else None)
                    maybe(i)
                    obs.add("yield", i)
                    yield c
                obs.add("pull", len(sp.chunks))
                maybe(len(sp.chunks))
            finally:
                obs.add("src-end")
        return gen()
    # "list"
    class L:
        def __iter__(self):
            for i, c in enumerate(sp.chunks):
                obs.add("pull", i)
                maybe(i)
                obs.add("yield", i)
                yield c
            obs.add("pull", len(sp.chunks))
            maybe(len(sp.chunks))
    return L()


class H(dict):
    """Headers for a Response: keeps duplicates."""

    def __init__(self, pairs):
        super().__init__(pairs)
        self._pairs = list(pairs)

    def items(self):
        return list(self._pairs)


def make_response(sim, sp, obs):
    bg = make_bg(sim, sp, obs)
    hd = list(sp.headers)
    if sp.content_length:
        hd.append(("content-length", str(len(sp.body))))
    if "caps" in sp.extra:
        hd = [(k.title(), v) for k, v in hd]
    h = H(hd) if hd else None
    kw = {"status_code": sp.status, "headers": h, "background": bg}
    if sp.kind == "plain":
        return Response(sp.body, media_type=sp.media, **kw)
    if sp.kind == "memoryview":
        view = memoryview(sp.body)
        if sim.w.chance(0.3) and view.nbytes % 4 == 0 and view.nbytes:
            view = view.cast("I")  # (its length is not in bytes)
        return Response(view, **kw)
    if sp.kind == "text":
        return PlainTextResponse(sp.extra["text"], **kw)
    if sp.kind == "html":
        return HTMLResponse(sp.extra["text"], **kw)
    if sp.kind == "json":
        return JSONResponse(sp.extra["json"], **kw)
    if sp.kind == "redirect":
        return RedirectResponse("/next", **kw)
    return StreamingResponse(source(sim, sp, obs), media_type=sp.media, **kw)


def expected_headers(sp):
    """The header list the application sends (order and duplicates matter)."""
    hd = [(k.encode("latin-1"), v.encode("latin-1")) for k, v in sp.headers]
    if sp.content_length:
        hd.append((b"content-length", str(len(sp.body)).encode()))
    return hd


def raw_app(sim, sp, obs):
    """A hand-written ASGI application sending the spec's chunks, with optional keys left out."""
    p = sp.err[0] if sp.err else None

    async def app(scope, receive, send):
        obs.add("enter")
        await adelay(sp.wait0)
        if p in ("before", "http"):
            obs.add("raise")
            raise sp.err[1]
        start = {"type": "http.response.start", "status": sp.status}
        hd = expected_headers(sp)
        if hd or "headers" not in sp.omit:
            start["headers"] = hd
            obs.header_list = (hd, list(hd))
            if sp.lazy == "tuple":
                start["headers"] = tuple(hd)
            elif sp.lazy:
                start["headers"] = iter(hd) if sp.lazy == "iter" else (h for h in hd)
        obs.add("start")
        if "debug" in sp.extra:
            await send({"type": "http.response.debug", "info": sp.extra["debug"]})
        await send(start)
        if p == "started":
            obs.add("raise")
            raise sp.err[1]
        n = len(sp.chunks)
        trailing = sp.extra.get("trailing", False) or n == 0
        for i, c in enumerate(sp.chunks):
            obs.add("pull", i)
            await adelay(sp.delays[i])
            if sp.gate is not None and "chunk" in sp.gate:
                await sp.gate["chunk"](i)
            if p == ("chunk", i):
                obs.add("raise")
                raise sp.err[1]
            more = i < n - 1 or trailing or p == ("chunk", n)
            m = {"type": "http.response.body", "body": c, "more_body": more}
            if not c and "body" in sp.omit:
                del m["body"]
            if not more and "more_body" in sp.omit:
                del m["more_body"]
            obs.add("yield", i)
            await send(m)
        if p == ("chunk", n):
            obs.add("raise")
            raise sp.err[1]
        if trailing:
            m = {"type": "http.response.body", "body": b"", "more_body": False}
            for k in sp.omit:
                m.pop(k, None)
            await send(m)
        obs.add("sent-all")
        if p == "after":
            obs.add("raise")
            raise sp.err[1]
        if "tail" in sp.extra:
            await sp.extra["tail"](scope, receive, send)
        obs.add("leave")

    return app


def endpoint_for(sim, sp, obs, before=None):
    """Something that can be given to Route(...) as endpoint."""
    p = sp.err[0] if sp.err else None
    if sp.kind in RAW:
        inner = raw_app(sim, sp, obs)

        class Raw:
            async def __call__(self, scope, receive, send):
                if before is not None:
                    from starlette.requests import Request
                    await before(Request(scope, receive, send))
                await inner(scope, receive, send)
        return Raw()

    async def work(request):
        obs.add("enter")
        if before is not None:
            await before(request)
        await adelay(sp.wait0)
        if p in ("before", "http"):
            obs.add("raise")
            raise sp.err[1]
        r = make_response(sim, sp, obs)
        obs.add("respond")
        return r

    def swork(request):
        obs.add("enter")
        if not sim.in_worker():
            sim.fail("blocking-on-loop", "sync endpoint ran on the event loop thread")
        else:
            sim.tpause("endpoint", sp.wait0 if isinstance(sp.wait0, float) else None)
        if p in ("before", "http"):
            obs.add("raise")
            raise sp.err[1]
        r = make_response(sim, sp, obs)
        obs.add("respond")
        return r

    if before is not None and sp.style in ("sync", "classsync"):
        sp.style = "async" if sp.style == "sync" else "class"
    if sp.style == "sync":
        def endpoint(request):
            return swork(request)
        return endpoint
    if sp.style == "async":
        async def endpoint(request):
            return await work(request)
        return endpoint
    if sp.style == "class":
        class E(HTTPEndpoint):
            async def get(self, request):
                return await work(request)
            post = put = delete = get
        return E

    class E2(HTTPEndpoint):
        def get(self, request):
            return swork(request)
        post = put = delete = get
    return E2


def route_for(sim, sp, obs, path="/", before=None):
    ep = endpoint_for(sim, sp, obs, before)
    if isinstance(ep, type) or not callable(ep) or sp.kind in RAW:
        return Route(path, ep)
    return Route(path, ep, methods=["GET", "POST"])


def make_app(sim, routes, middleware=(), exception_handlers=None, **kw):
    """An application, built in any of the ways there are: everything given at once, or added piece by piece."""
    from starlette.applications import Starlette
    from starlette.middleware.base import BaseHTTPMiddleware
    from starlette.routing import Host, Mount, WebSocketRoute

    w = sim.w
    middleware, handlers = list(middleware), dict(exception_handlers or {})
    if w.chance(0.7):
        return Starlette(routes=routes, middleware=middleware, exception_handlers=handlers, **kw)
    sim.probe("added-piecewise")
    nr, nm = w.int(0, len(routes)), w.int(0, len(middleware))
    items = list(handlers.items())
    ne = w.int(0, len(items))  # (the order is kept: of 500 and Exception, the later one counts)
    early, late = dict(items[:ne]), dict(items[ne:])
    app = Starlette(routes=routes[:nr], middleware=middleware[nm:], exception_handlers=early, **kw) if w.chance(0.5) or kw or nr else None
    if app is None:
        app, nm, late = Starlette(), len(middleware), handlers
        nr = 0
    todo = [("route", r) for r in routes[nr:]]
    extra = [("middleware", m) for m in reversed(middleware[:nm])] + [("handler", x) for x in late.items()]
    if w.chance(0.5):
        todo = extra + todo
    else:
        todo += extra
    for kind, x in todo:
        if kind == "middleware":
            if x.cls is BaseHTTPMiddleware and set(x.kwargs) == {"dispatch"} and not x.args and w.chance(0.3):
                app.middleware("http")(x.kwargs["dispatch"])
            else:
                app.add_middleware(x.cls, *x.args, **x.kwargs)
        elif kind == "handler":
            if w.chance(0.5):
                app.add_exception_handler(*x)
            else:
                app.exception_handler(x[0])(x[1])
        else:
            to = w.pick([app, app.router])
            plain = getattr(getattr(x, "app", None), "__qualname__", "") == "request_response.<locals>.app" or \
                getattr(x, "app", None) is getattr(x, "endpoint", 0)
            if type(x) is Route and plain:
                if w.chance(0.5):
                    to.add_route(x.path, x.endpoint, methods=x.methods and sorted(x.methods), name=x.name,
                                 include_in_schema=x.include_in_schema)
                else:
                    to.route(x.path, methods=x.methods and sorted(x.methods), name=x.name, include_in_schema=x.include_in_schema)(x.endpoint)
            elif type(x) is WebSocketRoute and getattr(x.app, "__qualname__", "") in ("websocket_session.<locals>.app",) :
                if w.chance(0.5):
                    to.add_websocket_route(x.path, x.endpoint, name=x.name)
                else:
                    to.websocket_route(x.path, name=x.name)(x.endpoint)
            elif type(x) is Mount and x.app is getattr(x, "_base_app", None):
                to.mount(x.path, x.app, name=x.name)
            elif type(x) is Host:
                to.host(x.host, x.app, name=x.name)
            else:
                to.routes.append(x)
    return app
