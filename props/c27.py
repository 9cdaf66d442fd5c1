"""C27: push promises and debug information reach the server."""
from __future__ import annotations

import anyio
import anyio.from_thread

from sim.server import draw_cancel
from starlette.endpoints import HTTPEndpoint
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.requests import Request
from starlette.responses import JSONResponse, PlainTextResponse, StreamingResponse
from starlette.routing import Mount, Route

from .apps import draw_delay, make_app
from .common import Http, adelay, check_grammar, draw_gone, gather
from .stack import decode, draw_stack

RUNS = 16000
PROBES = ("pushed", "no-extension", "no-extensions", "function", "class", "sync", "raw", "streamed", "in-dispatch", "in-dispatch-after", "in-handler",
          "before-error", "mounted", "no-dispatch", "dispatch", "nested-dispatch", "gzip", "compressed", "debug", "debug-behind-dispatch",
          "debug-behind-gzip", "debug-empty", "repeated-header", "no-header", "other-header", "latin-1", "many", "gone", "cancelled", "concurrent",
          "replaced", "mid-stream", "in-nested-task", "shared-endpoint", "stalled")
COPIED = [b"accept", b"accept-encoding", b"accept-language", b"cache-control", b"user-agent"]
OTHERS = [b"cookie", b"authorization", b"accept-charset", b"x-accept", b"range", b"content-type", b"referer"]


class Boom(Exception):
    pass


def scenario(sim):
    w = sim.w

    async def main():
        n = w.weighted([(1, 5), (2, 2), (3, 1)])
        if n > 1:
            sim.probe("concurrent")
        units = []
        for i in range(n):
            units.append(Unit(sim, f"c{i}", units[0] if units and w.chance(0.5) else None))
        await gather(*(u.go() for u in units))
        for u in units:
            u.judge()

    sim.run(main)


class Push(Http):
    """A server that takes push promises."""

    def _monitor(self, m, record=True):
        if m["type"] != "http.response.push" or "http.response.push" not in self.scope.get("extensions", {}):
            return super()._monitor(m, record)
        if self.complete:
            self.grammar.append("push promise after the final body message")
        if record:
            self.sent.append(m)
            self.sent_at.append(self.sim.now())
            self.sent_seq.append(self.ev("sent", "push", m.get("path")))
        else:
            self.ev("lost", "push")


class Unit:
    def __init__(self, sim, name, like):
        w, f = sim.w, sim.f
        self.sim, self.name = sim, name
        self.made = []  # (path, seq when the call returned)
        self.marks = []  # (seq, what) of what the application sent next
        self.count = 0
        self.err = None
        self.debug = None
        if like is not None:
            sim.probe("shared-endpoint")
            self.kind, self.layers, self.app, self.path, self.site = like.kind, like.layers, like.app, like.path, like.site
        else:
            self.build()
        # what the client sends
        headers, names = [], []
        for h in COPIED:
            k = w.weighted([(1, 5), (0, 3), (2, 1)])
            if k == 0:
                sim.probe("no-header")
            if k == 2:
                sim.probe("repeated-header")
            names += [h] * k
        for _ in range(w.int(0, 3)):
            names.append(w.pick(OTHERS))
            sim.probe("other-header")
        for i in range(len(names) - 1, 0, -1):
            j = w.int(0, i)
            names[i], names[j] = names[j], names[i]
        for h in names:
            v = w.pick([b"gzip", b"br"]) if h == b"accept-encoding" else w.pick([b"a", b"b;q=1", b"", b"c, d", b"\xe9t\xe9"])
            if not v.isascii():
                sim.probe("latin-1")
            headers.append((h, v))
        self.pushes = w.weighted([(1, 4), (2, 3), (0, 1), (5, 1)])
        if self.pushes > 1:
            sim.probe("many")
        self.parts = [w.bytes(w.pick([0, 1, 9, 700])) for _ in range(w.int(0, 4))]
        self.replace = w.chance(0.15)
        self.boom = f.chance(0.15)
        self.delays = [draw_delay(sim) for _ in range(4)]
        ext = w.weighted([("push", 8), ("none", 1), ("other", 1)])
        self.supported = ext == "push"
        extensions = {"push": {"http.response.push": {}, "http.response.debug": {}}, "none": None, "other": {"http.response.debug": {}}}[ext]
        sim.probe({"push": "pushed", "none": "no-extensions", "other": "no-extension"}[ext])
        self.has_debug = ext != "none" and w.chance(0.4)
        self.cancel = draw_cancel(sim) if f.chance(0.08) else None
        if self.cancel and self.kind == "sync":
            self.cancel = ("scope", self.cancel[1])  # a natively cancelled task leaves its thread behind, which is how anyio works
        self.ex = Push(sim, self.app, name, path=self.path, headers=headers, slow=w.pick([True, True, "strict", False, "both"]), extensions=extensions,
                       spec=w.pick(["2.0", "2.3", "2.4"]), http_version=w.pick(["2", "3"]), style=w.pick(["drop", "queue"]),
                       gone=draw_gone(sim, 0.12, 1, 6), extra={"sim.unit": self})
        if f.chance(0.1):
            sim.probe("stalled")
            k, t = f.int(0, 4), f.pick([0.1, 1.0, 50.0])

            async def stall(ex, m):
                if len(ex.sent) == k:
                    sim.fault("stall")
                    await anyio.sleep(t)
            self.ex.stall = stall
        self.at = draw_delay(sim)

    def build(self):
        sim, w = self.sim, self.sim.w
        self.kind = w.pick(["function", "class", "sync", "raw", "streamed", "in-handler"])
        sim.probe(self.kind)
        layers, names = draw_stack(sim)
        self.site = w.weighted([(None, 5), ("before", 1), ("after", 1)])
        if self.site or w.chance(0.2):
            layers.insert(w.int(0, len(layers)), Middleware(BaseHTTPMiddleware, dispatch=self.dispatcher(self.site)))
            names.append("dispatch")
        self.layers = names
        nd = names.count("dispatch")
        sim.probe("no-dispatch" if not nd else "dispatch" if nd == 1 else "nested-dispatch")
        if "gzip" in names:
            sim.probe("gzip")
        handlers = {Boom: handler} if self.kind == "in-handler" else {}
        route = Route("/", self.endpoint())
        self.path = "/"
        if w.chance(0.2):
            sim.probe("mounted")
            self.path = "/m/"
            k = w.int(0, len(layers))
            self.app = make_app(sim, routes=[Mount("/m", routes=[route], middleware=layers[k:])], middleware=layers[:k], exception_handlers=handlers)
        else:
            self.app = make_app(sim, routes=[route], middleware=layers, exception_handlers=handlers)

    def dispatcher(self, site):
        async def dispatch(request, call_next):
            u = request.scope["sim.unit"]
            if site == "before":
                u.sim.probe("in-dispatch")
                await u.push(request)
            response = await call_next(request)
            if site == "after":
                u.sim.probe("in-dispatch-after")
                await u.push(request)
            if u.replace and u.kind in ("function", "class", "sync"):
                u.sim.probe("replaced")
                return PlainTextResponse("other", headers={"x-replaced": "1"})
            return response
        return dispatch

    def endpoint(self):
        if self.kind in ("function", "streamed", "in-handler"):
            async def endpoint(request):
                return await request.scope["sim.unit"].respond(request)
            return endpoint
        if self.kind == "sync":
            def sync_endpoint(request):
                u = request.scope["sim.unit"]
                for _ in range(u.pushes):
                    u.sim.tpause("endpoint")
                    anyio.from_thread.run(u.push, request)
                return u.answer()
            return sync_endpoint
        if self.kind == "class":
            class Endpoint(HTTPEndpoint):
                async def get(self, request):
                    return await request.scope["sim.unit"].respond(request)
            return Endpoint

        class Raw:
            async def __call__(self, scope, receive, send):
                u = scope["sim.unit"]
                if u.has_debug:
                    await u.send_debug(send)
                await u.raw(Request(scope, receive, send), send)
        return Raw()

    async def go(self):
        await adelay(self.at)
        await self.ex.call(cancel=self.cancel)

    # -- the application
    async def push(self, request):
        sim = self.sim
        self.count += 1
        path = f"/static/{self.name}-{self.count}.css"
        sim.log(self.name, "push", self.count)
        if sim.w.chance(0.15) and not sim.in_worker():
            sim.probe("in-nested-task")
            await gather(request.send_push_promise(path))
        else:
            await request.send_push_promise(path)
        self.made.append((path, next(sim.seq)))

    async def respond(self, request):
        for i in range(self.pushes if self.kind != "streamed" else min(1, self.pushes)):
            await adelay(self.delays[i % 4])
            await self.push(request)
        if self.kind == "in-handler" or self.boom:
            if self.kind != "in-handler":
                self.sim.probe("before-error")
                self.sim.fault("app-exception")
            self.err = Boom(self.name)
            raise self.err
        return self.answer(request)

    def answer(self, request=None):
        if self.kind == "streamed":
            return StreamingResponse(self.stream(request), media_type="text/x")
        return JSONResponse({"n": self.name, "x": "y" * (600 if self.parts else 0)})

    def whole(self):
        if self.kind in ("streamed", "raw"):
            return b"".join(self.parts)
        return bytes(self.answer().body)

    async def stream(self, request):
        for i, p in enumerate(self.parts):
            yield p
            if i and i < self.pushes:
                self.sim.probe("mid-stream")
                await self.push(request)
            await adelay(self.delays[i % 4])

    async def send_debug(self, send):
        sim = self.sim
        self.debug = sim.w.pick([{"template": "t", "context": {"a": self.name}}, {"template": self.name}, {}])
        sim.probe("debug" if self.debug else "debug-empty")
        if "dispatch" in self.layers:
            sim.probe("debug-behind-dispatch")
        if "gzip" in self.layers:
            sim.probe("debug-behind-gzip")
        await send({"type": "http.response.debug", "info": self.debug})

    async def raw(self, request, send):
        n = self.pushes
        for i in range(min(n, 2)):
            await self.push(request)
        if self.boom:
            self.sim.probe("before-error")
            self.err = Boom(self.name)
            raise self.err
        await send({"type": "http.response.start", "status": 200, "headers": [(b"content-type", b"text/x")]})
        for i, p in enumerate(self.parts):
            if 2 + i < n:
                self.sim.probe("mid-stream")
                await self.push(request)
            await send({"type": "http.response.body", "body": p, "more_body": True})
        await send({"type": "http.response.body", "body": b"", "more_body": False})

    # -- the oracle
    def judge(self):
        sim, ex = self.sim, self.ex
        where = f"{self.kind} {self.layers} site={self.site} {len(self.made)}/{self.count} pushes, {ex.scope.get('extensions')}: {ex.summary()}"

        def fail(code, text=""):
            sim.fail(code, f"{where}{text}")

        check_grammar(sim, ex)
        if ex.hung:
            return fail("hang")
        if ex.left:
            return fail("tasks-left", f": {ex.left}")
        got = [(m["path"], m["headers"], seq) for m, seq in zip(ex.sent, ex.sent_seq) if m["type"] == "http.response.push"]
        if got and not self.supported:
            return fail("unsupported", f": {got}")
        paths = [p for p, _, _ in got]
        if len(set(paths)) != len(paths):
            return fail("push-twice", f": {paths}")
        if self.supported:
            want = sorted((k, v) for k, v in ex.scope["headers"] if k in COPIED)
            for p, hs, _ in got:
                if sorted(hs) != want:
                    return fail("push-headers", f": {hs} instead of {want}")
                if not p.startswith(f"/static/{self.name}-"):
                    return fail("other-push", f": {p}")
                for h in COPIED:
                    if [v for k, v in hs if k == h] != [v for k, v in ex.scope["headers"] if k == h]:
                        return fail("push-header-order", f": {hs}")
            nums = [int(p.split("-")[-1].split(".")[0]) for p in paths]
            if nums != sorted(nums) and self.site != "after":
                return fail("push-order", f": {paths}")
        if ex.gone:
            return sim.probe("gone")
        if ex.cancelled:
            return sim.probe("cancelled")
        # Whatever was promised before the response was given up or finished has got there.
        if self.supported:
            lost = [p for p, _ in self.made if p not in paths]
            if lost:
                return fail("push-lost", f": {lost}")
            # a promise comes before what is sent after it
            if self.kind not in ("streamed", "raw") and self.site != "after":
                start = [seq for m, seq in zip(ex.sent, ex.sent_seq) if m["type"] == "http.response.start"]
                if start and any(seq > start[0] for _, _, seq in got):
                    return fail("push-late")
        if self.err is not None and self.kind != "in-handler":
            if ex.exc is not self.err:
                return fail("error")
            if ex.status not in (500, None):
                return fail("error-status")
            return
        if ex.exc is not None:
            return fail("raised")
        body = decode(ex)
        if ex.headers_all(b"content-encoding"):
            sim.probe("compressed")
        want = b"other" if ex.headers_all(b"x-replaced") else b"handled" if self.kind == "in-handler" else self.whole()
        if not ex.full or body != want or ex.status != (418 if self.kind == "in-handler" else 200):
            return fail("response", f": {body!r} instead of {want!r}")
        infos = [(m["info"], seq) for m, seq in zip(ex.sent, ex.sent_seq) if m["type"] == "http.response.debug"]
        if self.debug is not None and not ex.headers_all(b"x-replaced"):
            start = ex.sent_seq[[m["type"] for m in ex.sent].index("http.response.start")]
            if [i for i, _ in infos] != [self.debug] or infos[0][1] > start:
                return fail("debug-lost", f": {infos}")
        elif infos and self.debug is None:
            return fail("debug-from-nowhere", f": {infos}")


async def handler(request, exc):
    u = request.scope["sim.unit"]
    await u.push(request)
    return PlainTextResponse("handled", status_code=418)
