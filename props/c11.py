"""C11: unhandled errors become exactly one 500 and are re-raised."""
from __future__ import annotations

import functools

from starlette.background import BackgroundTask
from starlette.middleware import Middleware
from starlette.middleware.errors import ServerErrorMiddleware
from starlette.requests import Request
from starlette.responses import HTMLResponse, JSONResponse, PlainTextResponse, StreamingResponse
from starlette.routing import Mount, Router

from .apps import make_app, AppError, ERRS, Obs, draw_delay, draw_spec, route_for
from .common import Http, adelay, check_grammar, draw_gone, gather, split_chunks
from .stack import decode, decode_prefix, draw_stack

RUNS = 18000
PROBES = ("before", "mid", "after", "background", "middleware-before", "middleware-after", "handler-async", "handler-sync",
          "handler-object", "debug-html", "debug-text", "default", "bystander", "bare-middleware", "odd-error", "http-error",
          "gone", "streaming-handler")


class Marked(AppError):
    pass


class BadStr(Exception):
    def __str__(self):
        raise RuntimeError("no text")


def odd_error(sim):
    """Errors that are difficult to show on a page."""
    k = sim.f.pick(["surrogate", "no-str", "cycle", "notes", "group", "syntax", "long", "braces"])
    if k == "no-str":
        return BadStr("x")
    if k == "group":
        return ExceptionGroup("several\udc80", [ValueError(1), ExceptionGroup("inner", [KeyError("\udcff")])])
    if k == "syntax":
        return SyntaxError("bad", ("caf\udce9.py", 3, 2, "a b \udce9", 3, 4))
    e = AppError({"surrogate": "caf\udce9", "long": "x" * 5000, "braces": "{exc_html} {0} </pre> %s"}.get(k, "e"))
    if k == "cycle":
        e.__cause__ = ValueError("c\udce9")
        e.__cause__.__cause__ = e
    if k == "notes":
        e.add_note("n\udce9")
    return e


class Raiser:
    """A middleware of the user that fails for marked requests."""

    def __init__(self, app, sim):
        self.app, self.sim = app, sim

    async def __call__(self, scope, receive, send):
        u = scope["sim.unit"]
        if u.mw == "before":
            await adelay(u.mwdelay)
            u.obs.add("raise")
            raise u.mwerr
        if u.mw == "never":
            u.obs.add("raise")
            raise u.mwerr
        await self.app(scope, receive, send)
        if u.mw == "after":
            await adelay(u.mwdelay)
            u.obs.add("raise")
            raise u.mwerr


class App:
    """One application with its error handler, shared by all requests of the run."""

    def __init__(self, sim, n):
        w = sim.w
        self.sim = sim
        self.calls = []  # (path, exception, request)
        self.mode = w.weighted([("default", 3), ("async", 3), ("sync", 3), ("debug", 2), ("object", 1), ("partial", 1)])
        self.body = w.pick(["oops", "", "x" * 700])
        self.hresp = w.pick(["plain", "plain", "json", "stream", "html"])
        self.hdelay = draw_delay(sim)
        self.bg = []
        self.units = [Unit(sim, f"c{i}", i) for i in range(n)]
        handlers = {}
        h = self.handler()
        if h is not None:
            handlers[w.pick([500, Exception])] = h
        if w.chance(0.3):
            async def app_error(request, exc):
                return PlainTextResponse("app", status_code=291)
            handlers[KeyError] = app_error
            self.handles = (KeyError,)
        else:
            self.handles = ()
        mws, self.names = draw_stack(sim)
        mws.insert(w.int(0, len(mws)), Middleware(Raiser, sim=sim))
        routes = [route_for(sim, u.sp, u.obs, f"/{u.i}") for u in self.units]
        self.nested = False
        if w.chance(0.15):
            routes = [Mount("/m", routes=routes)]
            for u in self.units:
                u.path = "/m" + u.path
        if w.chance(0.15):
            # the middleware by itself around a bare router
            sim.probe("bare-middleware")
            app = Router(routes=routes)
            for m in reversed(mws):
                app = m.cls(app, *m.args, **m.kwargs)
            self.app = ServerErrorMiddleware(app, handler=h, debug=self.mode == "debug")
            self.handles = ()
            self.bare = True
        else:
            self.bare = False
            self.app = make_app(sim, routes, mws, handlers, debug=self.mode == "debug")

    def handler(self):
        sim = self.sim
        if self.mode in ("default", "debug"):
            return None

        def respond(request, exc):
            self.calls.append((request.url.path, exc))
            text = f"{request.url.path}:{exc}:{self.body}"
            bg = BackgroundTask(self.background, request.url.path)
            if self.hresp == "stream":
                sim.probe("streaming-handler")

                async def chunks():
                    yield text.encode()
                    await sim.pause("chunks")
                    yield b""
                return StreamingResponse(chunks(), status_code=500, background=bg)
            cls = {"plain": PlainTextResponse, "json": JSONResponse, "html": HTMLResponse}[self.hresp]
            return cls(text, status_code=500, background=bg)

        async def ah(request, exc):
            await adelay(self.hdelay)
            return respond(request, exc)

        def sh(request, exc):
            if not sim.in_worker():
                sim.fail("blocking-on-loop", "sync error handler ran on the event loop thread")
            else:
                sim.tpause("handler", self.hdelay if isinstance(self.hdelay, float) else None)
            return respond(request, exc)

        class Obj:
            async def __call__(self_, request, exc):
                return await ah(request, exc)

        async def extra(tag, request, exc):
            return await ah(request, exc)

        return {"async": ah, "sync": sh, "object": Obj(), "partial": functools.partial(extra, "t")}[self.mode]

    async def background(self, path):
        self.bg.append(path)

    def expected(self, u, exc):
        text = f"{u.path}:{exc}:{self.body}"
        if self.hresp == "json":
            import json
            return json.dumps(text, ensure_ascii=False).encode()
        return text.encode()


def scenario(sim):
    w = sim.w

    async def main():
        app = App(sim, w.weighted([(1, 4), (2, 3), (3, 2)]))
        for u in app.units:
            u.build(app)
        if w.chance(0.25):
            for u in app.units:
                await u.ex.call()
        else:
            await gather(*(u.ex.call() for u in app.units))
        for u in app.units:
            u.judge()

    sim.run(main)


class Unit:
    def __init__(self, sim, name, i):
        w = sim.w
        self.sim, self.name, self.i = sim, name, i
        self.path = f"/{i}"
        self.obs = Obs(sim, name)
        sp = self.sp = draw_spec(sim, err_points=("before", "before", "http", "started", "chunk", "chunk", "after"), err_p=0.6,
                                 bg_p=0.25, bg_err_p=0.4)
        p = sp.err[0] if sp.err else None
        if p in ("after", "started") and sp.kind != "raw":
            sp.err = ("before", sp.err[1])
        sp.extra["trailing"] = w.chance(0.4)
        sp.extra["single"] = w.chance(0.5)
        self.mw = w.weighted([(None, 6), ("before", 1), ("after", 1)]) if sp.err is None else None
        self.mwdelay = draw_delay(sim)
        self.mwerr = sim.f.pick([Marked, *ERRS])("mw")

    def build(self, app):
        sim, w = self.sim, self.sim.w
        self.app = app
        if app.mode == "debug" and sim.f.chance(0.5):
            sim.probe("odd-error")
            if self.sp.err is not None and self.sp.err[0] != "http":
                self.sp.err = (self.sp.err[0], odd_error(sim))
            self.mwerr = odd_error(sim)
        self.accept = w.pick([None, b"text/html", b"*/*"])
        headers = [(b"accept", self.accept)] if self.accept else []
        if w.chance(0.4):
            headers.append((b"accept-encoding", b"gzip"))
        body = w.bytes(w.pick([0, 5, 80]))
        gone = draw_gone(sim, 0.1, 1)
        self.ex = Http(sim, app.app, self.name, path=self.path, headers=headers, spec="2.3" if gone else w.pick(["2.3", "2.4"]),
                       gone=gone, method=w.pick(["GET", "POST"]), chunks=split_chunks(sim, body) if body else None,
                       style=w.pick(["drop", "queue"]), slow=w.pick([True, "both", False]), extra={"sim.unit": self})
        self.ex.opaque = app.mode == "debug"

    def judge(self):
        sim, ex, sp, obs, app = self.sim, self.ex, self.sp, self.obs, self.app
        where = (f"{app.mode}/{app.hresp} {app.names} mw={self.mw} bare={app.bare} handles={app.handles} over {sp!r}: "
                 f"calls={[(p, repr(e)) for p, e in app.calls]} {ex.summary()}")
        check_grammar(sim, ex)
        if ex.hung:
            return sim.fail("hang", where)
        p = sp.err[0] if sp.err else None
        calls = [e for path, e in app.calls if path == self.path]
        err = None
        raised = bool(obs.count("raise"))
        from starlette.exceptions import HTTPException
        http = p == "http" and not app.bare
        handled = err_class_handled = None
        if self.mw == "before":
            err, p = self.mwerr, "mw-before"
        elif sp.err is not None:
            err = sp.err[1]
            if http:
                sim.probe("http-error")
                err = None
        if err is None and sp.bg and not http:
            for sync, d, e in sp.bg:
                if e is not None:
                    err, p = e, "bg"
                    break
        if err is None and self.mw == "after":
            err, p = self.mwerr, "mw-after"
        elif p == "bg" and self.mw == "after" and app.handles and isinstance(err, app.handles):
            pass
        if err is not None and p not in ("mw-before", "mw-after") and app.handles and isinstance(err, app.handles):
            # a registered handler deals with it (see C12)
            handled = True
        if ex.gone:
            # the client stopped listening: only the exception that comes out is still defined
            sim.probe("gone")
            # (a stream that had not begun may leave dispatch middleware without a response)
            other = type(ex.exc).__name__ == "ClientDisconnect" or repr(ex.exc)[14:-2] == "No response returned."
            mine = [err, self.mwerr, sp.err and sp.err[1], *(e for _, _, e in sp.bg)]
            # (an error may get as far as it does although an earlier one was due: the stream of a client that is gone is
            # cancelled wherever it is, and its background tasks run; a registered handler may then come too late)
            late = app.handles and isinstance(ex.exc, RuntimeError) and any(
                ex.exc.__cause__ is m and isinstance(m, app.handles) for m in mine if m)
            ok = ex.exc is None or any(ex.exc is m for m in mine) or handled or other or late
            handled = handled or late
            if not ok:
                sim.fail("wrong-exception", where)
            if any(all(c is not m for m in mine) for c in calls) and not handled and not other:
                sim.fail("handler-arguments", where)
            return
        if handled:
            if p == "before":
                if ex.exc is not None or calls or ex.status != 291:
                    sim.fail("handled-error", where)
            elif not isinstance(ex.exc, RuntimeError) or ex.exc.__cause__ is None:
                sim.fail("handled-late-error", where)
            return
        if err is None:
            sim.probe("bystander")
            if calls:
                return sim.fail("handler-for-nothing", where)
            if ex.exc is not None:
                return sim.fail("error", where)
            if http:
                if ex.status != sp.err[1].status_code or not ex.full:
                    sim.fail("http-error", where)
                return
            if not ex.full or ex.status != sp.status or decode(ex) != sp.body:
                sim.fail("response", where)
            return
        sim.fault("escaped-error")
        if ex.exc is not err:
            return sim.fail("not-raised" if ex.exc is None else "wrong-exception", f"want {err!r}: {where}")
        held = "gzip" in app.names
        early = p in ("before", "mw-before", "http")
        # (gzip holds the head back until the first part of the body)
        first_chunk = p == "started" or isinstance(p, tuple) and not b"".join(sp.chunks[:p[1]])
        starts = [m for m in ex.sent if m["type"] == "http.response.start"]
        if early or first_chunk and held and ex.status == 500:
            sim.probe("before" if early and p != "mw-before" else "middleware-before")
            if not starts or ex.status != 500 or not ex.full:
                return sim.fail("no-500", where)
            if app.mode not in ("default", "debug"):
                sim.probe("handler-sync" if app.mode == "sync" else "handler-object" if app.mode == "object" else "handler-async")
                if len(calls) != 1 or calls[0] is not err:
                    return sim.fail("handler-calls", where)
                if ex.body != app.expected(self, err):
                    return sim.fail("handler-response", where)
                if app.bg.count(self.path) != 1:
                    return sim.fail("handler-background", where)
            elif app.mode == "default":
                sim.probe("default")
                if ex.body != b"Internal Server Error":
                    return sim.fail("default-body", where)
            else:
                html = self.accept == b"text/html"
                sim.probe("debug-html" if html else "debug-text")
                ct = ex.header(b"content-type") or b""
                if not ct.startswith(b"text/html" if html else b"text/plain") or type(err).__name__.encode() not in ex.body:
                    return sim.fail("debug-page", where)
            cl = ex.header(b"content-length")
            if cl is not None and int(cl) != len(ex.body):
                return sim.fail("content-length", where)
            return
        # the response had started
        if not starts or len(starts) != 1 or starts[0]["status"] != sp.status:
            return sim.fail("started-response", where)
        if app.mode not in ("default", "debug") and any(c is not err for c in calls):
            return sim.fail("handler-calls", where)
        if p in ("bg", "after", "mw-after"):
            sim.probe({"bg": "background", "after": "after", "mw-after": "middleware-after"}[p])
            if not ex.full or decode(ex) != sp.body:
                sim.fail("response", where)
        else:
            sim.probe("mid")
            data = decode_prefix(ex)
            if ex.full or data is None or not sp.body.startswith(data):
                sim.fail("sent-after-error", where)
