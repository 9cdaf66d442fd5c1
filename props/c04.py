"""C04: every HTTP exchange is one well-formed response."""
from __future__ import annotations

from starlette.responses import JSONResponse, PlainTextResponse, StreamingResponse
from starlette.routing import Mount, Route

from .apps import make_app, AppError, OtherError, Obs, draw_spec, route_for
from .common import ClientGone, Http, adelay, check_grammar, draw_gone, UnitRoute, draw_units, run_units, split_chunks
from .stack import decode, decode_prefix, draw_stack
from starlette.exceptions import HTTPException
from starlette.requests import ClientDisconnect

RUNS = 16000
PROBES = ("shared-app", "disconnect", "app-error", "send-oserror", "gzipped", "handled", "five-hundred", "not-found", "head", "declared-length",
          "mid-stream-error", "bg")


def scenario(sim):
    async def main():
        units = draw_units(sim, lambda name, like: Unit(sim, name, like))
        await run_units(sim, units)
        for u in units:
            u.judge()

    sim.run(main)


class Unit:
    def __init__(self, sim, name, like=None):
        w = sim.w
        self.sim, self.name = sim, name
        obs = self.obs = Obs(sim, name)
        sp = self.sp = draw_spec(sim, err_points=("before", "http", "started", "chunk", "after"), err_p=0.35, bg_p=0.3,
                                 bg_err_p=0.2, big=w.chance(0.1))
        p = sp.err[0] if sp.err else None
        if p in ("started", "after") and sp.kind != "raw" or p == "http" and sp.kind == "raw":
            sp.err = ("before", AppError("boom"))
        sp.extra["trailing"] = w.chance(0.4)
        self.own_type = w.chance(0.15)
        if self.own_type:
            sp.headers = [*sp.headers, ("content-type", "text/x-own")]
        self.route = route_for(sim, sp, obs)
        self.sub = route_for(sim, sp, obs, "/x")
        self.path = w.weighted([("/", 8), ("/nope", 1), ("/sub/x", 2), ("/sub", 1)])
        if like:
            self.names, self.handled, self.catchall, self.debug, self.app = (like.names, like.handled, like.catchall,
                                                                             like.debug, like.app)
        else:
            self.build()
        hd = []
        if w.chance(0.5):
            hd.append((b"accept-encoding", w.pick([b"gzip", b"gzip, deflate", b"br"])))
        if w.chance(0.3):
            hd.append((b"origin", b"http://a"))
        if w.chance(0.3):
            hd.append((b"accept", w.pick([b"text/html", b"text/plain"])))
        body = w.bytes(w.pick([0, 0, 4, 90]))
        chunks = split_chunks(sim, body) if body else None
        self.ex = Http(sim, self.app, name, extra={"sim.unit": self},
                       method=w.weighted([("GET", 5), ("POST", 2), ("HEAD", 1)]), path=self.path, headers=hd,
                       spec=w.pick(["2.3", "2.4"]), chunks=chunks, gone=draw_gone(sim, 0.35, len(chunks or [1]), 8),
                       style=w.pick(["drop", "queue"]), slow=w.pick([True, "both", False]))

    def build(self):
        sim, w = self.sim, self.sim.w
        mws, self.names = draw_stack(sim)
        self.handled = None
        handlers = {}
        if w.chance(0.4):
            d = w.pick([0, 0.001])
            handled = self.handled = w.pick(["json", "stream", "sync"])

            async def handler(request, exc):
                await adelay(d)
                if handled == "stream":
                    async def g():
                        yield b"han"
                        await adelay(d)
                        yield b"dled"
                    return StreamingResponse(g(), status_code=555)
                return JSONResponse("handled", status_code=555)

            def shandler(request, exc):
                return PlainTextResponse("handled", status_code=555)

            handlers[AppError] = shandler if self.handled == "sync" else handler
        self.catchall = w.chance(0.3)
        if self.catchall:
            async def err500(request, exc):
                return PlainTextResponse("sorry", status_code=500)
            handlers[500 if w.chance(0.5) else Exception] = err500
        sub = UnitRoute("sub")
        kw = {}
        if w.chance(0.15):
            kw["debug"] = True
        self.debug = bool(kw)
        if w.chance(0.3):
            sub = Mount("/sub", routes=[sub], middleware=draw_stack(sim, 1, ("dispatch", "pure"))[0])
        else:
            sub = Mount("/sub", routes=[sub])
        self.app = make_app(sim, [UnitRoute(), sub], mws, handlers, **kw)

    def judge(self):
        sim, ex, sp, obs = self.sim, self.ex, self.sp, self.obs
        where = f"{self.names} over {sp!r} handler={self.handled} path={self.path}: {ex.summary()}"
        check_grammar(sim, ex)
        if ex.hung:
            return sim.fail("hang", where)
        p = sp.err[0] if sp.err else None
        starts = [m for m in ex.sent if m["type"] == "http.response.start"]
        # lengths: whatever is finished is exactly as long as it says
        cl = ex.headers_all(b"content-length")
        if len(cl) > 1:
            return sim.fail("two-content-lengths", f"{cl} {where}")
        ct = ex.headers_all(b"content-type")
        if len(ct) > 1:
            return sim.fail("two-content-types", f"{ct} {where}")
        if ex.full and ex.method != "HEAD" and cl:
            sim.probe("declared-length")
            if int(cl[0]) != len(ex.body):
                return sim.fail("content-length", f"declares {cl[0]}, sent {len(ex.body)}: {where}")
        if ex.full and ex.method == "HEAD":
            sim.probe("head")
        if len(starts) == 1:
            if ex.headers_all(b"content-encoding") == [b"gzip"]:
                sim.probe("gzipped")
        if ex.gone:
            # no more promises than the grammar
            if ex.exc is not None and not self.expected_exc(ex.exc):
                sim.fail("error-on-disconnect", where)
            return
        if ex.exc is None and not ex.full:
            return sim.fail("incomplete", f"returned normally without finishing: {where}")
        mid = p == "started" or isinstance(p, tuple)
        bgerr = next((e for _, _, e in sp.bg if e is not None), None)
        if sp.bg and obs.count("bg-start"):
            sim.probe("bg")
        reached = self.path in ("/", "/sub/x") and obs.count("enter")
        if not reached:
            if self.path in ("/nope",):
                sim.probe("not-found")
                if ex.status != 404 or ex.exc is not None:
                    sim.fail("not-found", where)
            elif ex.exc is not None:
                sim.fail("error", where)
            return
        got = decode(ex)
        if not ex.full:
            if ex.exc is None:
                return
            pre = decode_prefix(ex)
            if mid:
                sim.probe("mid-stream-error")
                if pre is None or not sp.body.startswith(pre):
                    sim.fail("body", f"prefix {pre!r:.80}: {where}")
            else:
                sim.fail("incomplete", where)
            return
        if mid and p != "after":
            if ex.status == sp.status:
                sim.fail("truncated-finished", where)
            return
        want, status = sp.body, sp.status
        if p in ("before", "http"):
            e = sp.err[1]
            if self.handled and isinstance(e, AppError):
                sim.probe("handled")
                want, status = (b'"handled"' if self.handled == "json" else b"handled"), 555
            elif isinstance(e, HTTPException):
                want, status = e.detail.encode("utf-8"), e.status_code
                sim.probe("handled")
                if status in (204, 304):
                    want = b""
            else:
                sim.probe("five-hundred")
                status = 500
                want = None if self.debug else b"sorry" if self.catchall else b"Internal Server Error"
        if status != ex.status:
            return sim.fail("status", f"want {status}: {where}")
        if got is None or want is not None and got != want and not (ex.method == "HEAD" and got == b""):
            return sim.fail("body", f"want {want!r:.80}({len(want or b'')}) got {got!r:.80}: {where}")
        orig = ex.exc.__cause__ if isinstance(ex.exc, RuntimeError) and ex.exc.__cause__ is not None else ex.exc
        lossy = p == "after" and sp.err[1] is orig or bgerr is not None and orig is bgerr or status == 500
        if ex.exc is not None and not lossy:
            sim.fail("error", where)

    def expected_exc(self, e):
        if isinstance(e, (ClientGone, ClientDisconnect)):
            return True
        if self.sp.err and e is self.sp.err[1]:
            return True
        if isinstance(e, RuntimeError) and "response already started" in str(e):
            return True
        if any(e is b for _, _, b in self.sp.bg):
            return True
        return isinstance(e, RuntimeError) and str(e) == "No response returned."
