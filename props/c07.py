"""C07: a body read by dispatch middleware is still there for the application."""
from __future__ import annotations

import json

from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.requests import ClientDisconnect, Request
from starlette.responses import PlainTextResponse
from starlette.routing import Mount, Route

from .apps import make_app, draw_delay
from .common import ClientGone, Http, adelay, check_grammar, draw_gone, draw_size, gather, split_chunks
from .stack import Pure

RUNS = 24000
PROBES = ("read-body", "read-stream", "read-nothing", "read-json", "read-form", "body-twice", "nested", "disconnect-reader",
          "disconnect-behind", "swallowed", "echo", "raw-loop", "after", "concurrent")


def scenario(sim):
    w = sim.w

    async def main():
        units = [Unit(sim, f"c{i}") for i in range(w.weighted([(1, 5), (2, 2), (3, 1)]))]
        if len(units) > 1:
            sim.probe("concurrent")
            if w.chance(0.4):
                for u in units[1:]:
                    u.share(units[0])
        await gather(*(u.ex.call() for u in units))
        for u in units:
            u.judge()

    sim.run(main)


class Unit:
    def __init__(self, sim, name):
        w = sim.w
        self.sim, self.name = sim, name
        n = w.weighted([(1, 4), (2, 3), (3, 2), (4, 1)])
        if n > 1:
            sim.probe("nested")
        self.layers = [{"i": i, "kind": w.weighted([("body", 5), ("none", 4), ("stream", 2), ("json", 1), ("form", 1),
                                                     ("body-stream", 1), ("body-twice", 1), ("body-form", 1), ("poll-body", 1)]),
                        "delay": draw_delay(sim), "swallow": w.chance(0.3), "style": w.pick(["class", "dispatch"]),
                        "when": w.pick(["before", "before", "both"])} for i in range(n)]
        self.reader = w.pick(["body", "stream", "json", "form", "raw", "echo", "none", "body-twice", "slow"])
        self.delay = draw_delay(sim)
        mws = []
        for layer in self.layers:
            if layer["style"] == "dispatch":
                mws.append(Middleware(BaseHTTPMiddleware, dispatch=self.dispatch(layer)))
            else:
                mws.append(Middleware(self.klass(layer)))
            if w.chance(0.2):
                mws.append(Middleware(Pure, sim=sim, d=draw_delay(sim)))
        where = w.pick(["app", "app", "mount", "route"])
        if self.reader in ("raw", "echo"):
            class Raw:
                async def __call__(self_, scope, receive, send):
                    await scope["sim.unit"].raw(scope, receive, send)
            ep = Raw()
        else:
            async def ep(request):
                u = request.scope["sim.unit"]
                await u.read(request)
                return PlainTextResponse("done")
        if where == "app":
            app = make_app(sim, routes=[Route("/", ep, methods=["POST"])], middleware=mws)
        elif where == "mount":
            app = make_app(sim, routes=[Mount("/", routes=[Route("/", ep, methods=["POST"])], middleware=mws)])
        else:
            app = make_app(sim, routes=[Route("/", ep, methods=["POST"], middleware=mws)])
        self.app, self.where = app, where
        self.build()

    def build(self):
        sim, w = self.sim, self.sim.w
        self.kind = w.pick(["raw", "json", "form"])
        headers = []
        if self.kind == "json":
            self.value = [w.text(w.int(0, 20)), w.int(0, 99)]
            body = json.dumps(self.value).encode()
        elif self.kind == "form":
            pairs = [(f"k{i}", f"v{w.int(0, 99)}") for i in range(w.int(0, 4))]
            self.value = pairs
            body = "&".join(f"{k}={v}" for k, v in pairs).encode()
            headers = [(b"content-type", b"application/x-www-form-urlencoded")]
        else:
            body = w.bytes(draw_size(w))
            self.value = None
        self.body = body
        self.log = []  # (who, "data"|"disc"|"error", value)
        chunks = split_chunks(sim, body)
        self.ex = Http(sim, self.app, self.name, method="POST", headers=headers, chunks=chunks, spec=w.pick(["2.3", "2.4"]),
                       style=w.pick(["drop", "queue"]), gone=draw_gone(sim, 0.3, len(chunks)), coalesce=w.chance(0.2),
                       slow=w.pick([True, "both", False]), extra={"sim.unit": self})

    def share(self, other):
        self.app, self.layers, self.reader, self.delay, self.where = (other.app, other.layers, other.reader, other.delay,
                                                                      other.where)
        self.build()

    def klass(self, layer):
        f = self.dispatch(layer)

        class M(BaseHTTPMiddleware):
            async def dispatch(self, request, call_next):
                return await f(request, call_next)
        return M

    def dispatch(self, layer):
        async def dispatch(request, call_next):
            u = request.scope["sim.unit"]
            await adelay(layer["delay"])
            me = ("layer", layer["i"])
            try:
                await u.layer_read(me, layer, request)
            except ClientDisconnect:
                u.rec(me, "disc", None)
                if not layer["swallow"]:
                    raise
                u.sim.probe("swallowed")
            r = await call_next(request)
            if layer["when"] == "both" and layer["kind"] in ("body", "body-twice", "json"):
                u.sim.probe("after")
                try:
                    u.rec(("again", layer["i"]), "data", await request.body())
                except ClientDisconnect:
                    u.rec(("again", layer["i"]), "disc", None)
            return r

        return dispatch

    async def layer_read(self, me, layer, request):
        k = layer["kind"]
        sim = self.sim
        if k == "none":
            sim.probe("read-nothing")
            return
        if k == "poll-body":
            b = await request.body()
            if await request.is_disconnected() and not self.ex.gone:
                sim.fail("false-disconnect", f"poll says disconnected: {self.desc()}")
            self.rec(me, "data", b)
        elif k in ("body", "body-twice", "body-stream", "body-form"):
            sim.probe("read-body")
            b = await request.body()
            self.rec(me, "data", b)
            if k == "body-twice":
                sim.probe("body-twice")
                self.rec(me, "data", await request.body())
            elif k == "body-stream":
                got = b""
                async for c in request.stream():
                    got += c
                self.rec(me, "data", got)
            elif k == "body-form":
                await request.form()
        elif k == "stream":
            sim.probe("read-stream")
            got = b""
            async for c in request.stream():
                got += c
                await sim.pause("layer")
            self.rec(me, "data", got)
        elif k == "json":
            sim.probe("read-json")
            try:
                await request.json()
            except ValueError:
                pass
            self.rec(me, "data", await request.body())
        elif k == "form":
            sim.probe("read-form")
            if self.kind == "form":
                f = await request.form()
                self.rec(me, "form", list(f.multi_items()))
            else:
                got = b""
                async for c in request.stream():
                    got += c
                self.rec(me, "data", got)

    def rec(self, who, what, val):
        self.log.append((who, what, val))
        self.sim.log(self.name, "read", who, what, len(val) if isinstance(val, (bytes, list)) else 0)

    async def read(self, request):
        k = self.reader
        me = ("app", 0)
        await adelay(self.delay)
        try:
            if k == "none":
                return
            if k == "body" or k == "body-twice":
                self.rec(me, "data", await request.body())
                if k == "body-twice":
                    self.rec(me, "data", await request.body())
            elif k in ("stream", "slow"):
                got = b""
                async for c in request.stream():
                    got += c
                    if k == "slow":
                        await self.sim.pause("app")
                self.rec(me, "data", got)
            elif k == "json":
                try:
                    await request.json()
                except ValueError:
                    pass
                self.rec(me, "data", await request.body())
            elif k == "form":
                if self.kind == "form":
                    f = await request.form()
                    self.rec(me, "form", list(f.multi_items()))
                else:
                    self.rec(me, "data", await request.body())
        except ClientDisconnect:
            self.rec(me, "disc", None)
            raise

    async def raw(self, scope, receive, send):
        """A hand-written application: the message grammar of `receive` itself."""
        me = ("app", 0)
        await adelay(self.delay)
        echo = self.reader == "echo"
        self.sim.probe("echo" if echo else "raw-loop")
        got = b""
        if echo:
            await send({"type": "http.response.start", "status": 200, "headers": []})
        while True:
            m = await receive()
            if m["type"] == "http.disconnect":
                self.rec(me, "disc", None)
                if not echo:
                    raise ClientDisconnect()
                return
            if m["type"] != "http.request":
                self.sim.fail("message", f"{m}: {self.desc()}")
                return
            b = m.get("body", b"")
            got += b
            if not self.body.startswith(got):
                self.sim.fail("corrupt", f"{got[:200]!r}: {self.desc()}")
            if echo and b:
                await send({"type": "http.response.body", "body": b, "more_body": True})
            if not m.get("more_body", False):
                break
        self.rec(me, "data", got)
        if echo:
            await send({"type": "http.response.body", "body": b"", "more_body": False})
        else:
            await PlainTextResponse("done")(scope, receive, send)

    def desc(self):
        return (f"{[(x['kind'], x['swallow']) for x in self.layers]} {self.where} reader={self.reader} {self.kind} body "
                f"{self.body[:60]!r}({len(self.body)}) final_given={self.ex.final_given} log="
                f"{[(a, b, c if not isinstance(c, bytes) else (c[:30], len(c))) for a, b, c in self.log]}: {self.ex.summary()}")

    def judge(self):
        sim, ex, body = self.sim, self.ex, self.body
        check_grammar(sim, ex)
        where = self.desc()
        if ex.hung:
            return sim.fail("hang", where)
        # reading order: layers from the outside in, then the application
        cur = body
        who_reads = []
        for layer in self.layers:
            me = ("layer", layer["i"])
            k = layer["kind"]
            if k != "none":
                who_reads.append((me, cur, k))
            if k == "stream" or k == "form":
                cur = b""
        who_reads.append((("app", 0), cur, self.reader))
        final = ex.final_given
        ended = False  # nothing further in can run
        consumed = False
        for me, want, k in who_reads:
            recs = [(b, c) for a, b, c in self.log if a == me]
            for b, c in recs:
                if b == "disc":
                    sim.probe("disconnect-reader" if me[0] == "layer" else "disconnect-behind")
                    if final or consumed:
                        return sim.fail("false-disconnect", f"{me}: {where}")
                    continue
                if b == "form":
                    wf = [] if want == b"" else self.value
                    if c != wf:
                        return sim.fail("form", f"{me} got {c} want {wf}: {where}")
                elif c != want:
                    return sim.fail("lost-body", f"{me} got {c[:60]!r}({len(c)}) want {want[:60]!r}({len(want)}): {where}")
                if not final and not consumed:
                    return sim.fail("partial-as-complete", f"{me}: {where}")
            if recs and any(b != "disc" for b, _ in recs) and k in ("stream", "form") and me[0] == "layer":
                consumed = True
        for a, b, c in self.log:
            if a[0] == "again":
                layer = self.layers[a[1]]
                mine = [r for r in self.log if r[0] == ("layer", a[1]) and r[1] == "data"]
                if b == "data" and mine and c != mine[0][2]:
                    return sim.fail("changed", f"layer {a[1]} reads {c[:60]!r} afterwards: {where}")
        if not ex.gone:
            if ex.exc is not None:
                return sim.fail("error", where)
            if not any(a == ("app", 0) for a, _, _ in self.log) and self.reader != "none":
                return sim.fail("app-not-reading", where)
            want = cur if self.reader == "echo" else b"done"
            if not ex.full or ex.status != 200 or ex.body != want:
                return sim.fail("response", where)
        elif ex.exc is not None and not isinstance(ex.exc, (ClientDisconnect, ClientGone)):
            return sim.fail("error", where)
