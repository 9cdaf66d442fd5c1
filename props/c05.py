"""C05: gzip compression is lossless and correctly labelled."""
from __future__ import annotations

from collections import Counter

from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.responses import Response

from .apps import make_app, Obs, draw_delay, draw_spec, raw_app, route_for
from .common import ClientGone, Http, check_grammar, draw_gone, gather
from .stack import decode, decode_prefix, passing

RUNS = 22000
PROBES = ("compressed", "compressed-stream", "identity", "small", "pre-encoded", "event-stream", "error-mid", "empty-chunk",
          "constant", "shared-response", "concurrent", "dispatch", "vary", "length-given", "gone")

ACCEPT = [b"gzip", b"gzip, deflate, br", b"br;q=1.0, gzip;q=0.8", b"deflate, gzip", None, b"identity", b"br", b""]
EXTRA = [("content-encoding", "br"), ("content-encoding", "identity"), ("content-type", "text/event-stream"),
         ("content-type", "text/event-stream; charset=utf-8"), ("vary", "Accept, X-Y"), ("vary", "Accept-Encoding"),
         ("vary", "accept-encoding, Cookie"), ("vary", "*"), ("content-type", "text/html"), ("etag", '"e"')]


class Tap:
    """Directly inside the gzip middleware: what the application really sends."""

    def __init__(self, app, sim):
        self.app, self.sim = app, sim

    async def __call__(self, scope, receive, send):
        msgs = scope["sim.tap"]

        async def send2(m):
            c = dict(m)
            if "headers" in c:
                c["headers"] = [(bytes(k), bytes(v)) for k, v in c["headers"]]
                if not isinstance(m["headers"], (list, tuple)):
                    m = {**m, "headers": iter(c["headers"])}  # read already
            if "body" in c:
                c["body"] = bytes(c["body"])
            msgs.append(c)
            await send(m)

        await self.app(scope, receive, send2)


def scenario(sim):
    w = sim.w

    async def main():
        n = w.weighted([(1, 4), (2, 3), (3, 1)])
        units = [Unit(sim, f"c{i}") for i in range(n)]
        if n > 1:
            sim.probe("concurrent")
        if w.chance(0.3):
            # the same application serves several clients, at the same time or one after the other
            for u in units[1:]:
                if units[0].shareable:
                    u.adopt(units[0])
        if w.chance(0.3):
            for u in units:
                await u.ex.call()
                u.judge()
        else:
            await gather(*(u.ex.call() for u in units))
            for u in units:
                u.judge()

    sim.run(main)


class Unit:
    def __init__(self, sim, name):
        w = sim.w
        self.sim, self.name = sim, name
        self.obs = obs = Obs(sim, name)
        sp = self.sp = draw_spec(sim, err_points=("started", "chunk", "chunk", "after"), err_p=0.25, bg_p=0.15, bg_err_p=0.0,
                                 big=w.chance(0.15), styles=("async", "sync", "class"))
        if sp.err and sp.err[0] in ("after", "started") and sp.kind != "raw":
            sp.err = None
        if w.chance(0.4):
            for h in w.sample(EXTRA, w.int(1, 2)):
                if h[0] in ("content-type", "content-encoding", "vary"):
                    sp.headers = [x for x in sp.headers if x[0] != h[0]]
                sp.headers = [*sp.headers, h]
        sp.extra["trailing"] = w.chance(0.5)
        self.min = w.weighted([(500, 3), (0, 2), (1, 1), (10, 2), (len(sp.body), 2), (len(sp.body) + 1, 1)])
        kind = w.weighted([("spec", 6), ("constant", 1), ("shared", 1)])
        if kind == "constant":
            inner = self.constant()
        elif kind == "shared":
            sim.probe("shared-response")
            sp.err = None
            inner = Response(w.bytes(w.pick([600, 3, 0, 2000, 499, 500, 501])), headers=dict(sp.headers), media_type="text/plain")
        elif sp.kind == "raw" and w.chance(0.5):
            inner = raw_app(sim, sp, obs)
        else:
            inner = None
        self.shareable = kind != "spec" and True
        self.kind = kind
        size = {} if self.min == 500 and w.chance(0.5) else {"minimum_size": self.min}
        mws = [Middleware(GZipMiddleware, **size, compresslevel=w.pick([9, 1, 6, 0])),
               Middleware(Tap, sim=sim)]
        d = draw_delay(sim)
        self.dispatch = 0
        if w.chance(0.3):
            mws.insert(w.pick([0, 2]), Middleware(BaseHTTPMiddleware, dispatch=passing(d, w.int(0, 1))))
            sim.probe("dispatch")
            self.dispatch = 1 if isinstance(mws[0].kwargs.get("dispatch"), object) else 0
        if inner is None:
            app = make_app(sim, routes=[route_for(sim, sp, obs)], middleware=mws)
        else:
            app = inner
            for m in reversed(mws):
                app = m.cls(app, *m.args, **m.kwargs)
        self.app = app
        self.accept = w.pick(ACCEPT)
        self.build()

    def build(self):
        sim, w = self.sim, self.sim.w
        self.taps = []
        headers = [(b"accept-encoding", self.accept)] if self.accept is not None else []
        self.ex = Http(sim, self.app, self.name, headers=headers, spec=w.pick(["2.3", "2.4"]), style=w.pick(["drop", "queue"]),
                       gone=draw_gone(sim, 0.1, 0), slow=w.pick([True, "both", False]), extra={"sim.tap": self.taps})

    def adopt(self, other):
        self.app, self.sp, self.min, self.kind = other.app, other.sp, other.min, other.kind
        self.build()

    def constant(self):
        """An application that sends the same message objects for every request."""
        sim, w = self.sim, self.sim.w
        sim.probe("constant")
        self.sp.err = None
        start = {"type": "http.response.start", "status": 200, "headers": [(b"content-type", b"text/plain"), (b"x-a", b"1")]}
        if w.chance(0.3):
            del start["headers"]
        ping = {"type": "http.response.body", "body": w.bytes(w.pick([5, 0, 600])), "more_body": True}
        last = {"type": "http.response.body", "body": w.bytes(w.pick([3, 0, 700]))}
        n = w.int(0, 3)
        d = draw_delay(sim)

        async def app(scope, receive, send):
            from sim.server import adelay
            await send(start)
            for _ in range(n):
                await send(ping)
                await adelay(d)
            await send(last)
        return app

    def judge(self):
        sim, ex, sp = self.sim, self.ex, self.sp
        check_grammar(sim, ex)
        tap = self.taps
        starts = [m for m in tap if m["type"] == "http.response.start"]
        bodies = [m for m in tap if m["type"] == "http.response.body"]
        where = (f"min={self.min} accept={self.accept} {self.kind} app sent {[(len(m.get('body', b'')), m.get('more_body', False)) for m in bodies]} "
                 f"{starts and starts[0].get('headers')} over {sp!r}: wire {ex.rheaders} {ex.summary()}")
        if ex.hung:
            return sim.fail("hang", where)
        if ex.gone:
            sim.probe("gone")
            if ex.status == 500 and self.obs.count("raise") and not bodies:
                return  # (the error page of an application that failed before it answered)
            own = any(bytes(k).lower() == b"content-encoding" for k, v in (starts[0].get("headers", []) if starts else []))
            data = ex.body if own else decode_prefix(ex)
            if data is None or not b"".join(m.get("body", b"") for m in bodies).startswith(data):
                sim.fail("lossy", where)
            return
        err = sp.err[1] if sp.err and self.obs.count("raise") else None
        if ex.exc is not err:
            return sim.fail("error", f"{ex.exc!r} want {err!r}: {where}")
        body = b"".join(m.get("body", b"") for m in bodies)
        done = bool(bodies) and not bodies[-1].get("more_body", False)
        if not starts or not bodies:
            if bodies or ex.full and err is not None and ex.status != 500:
                sim.fail("response", where)
            return
        if ex.status != starts[0]["status"]:
            return sim.fail("status", where)
        hd = [(bytes(k).lower(), v) for k, v in starts[0].get("headers", [])]
        enc = [v for k, v in hd if k == b"content-encoding"]
        ctype = next((v for k, v in hd if k == b"content-type"), b"")
        if not done:
            sim.probe("error-mid")
            if ex.full:
                return sim.fail("truncated-complete", where)
            data = ex.body if enc else decode_prefix(ex)
            if data is None or not body.startswith(data):
                sim.fail("lossy", where)
            return
        if any(not m.get("body", b"") for m in bodies):
            sim.probe("empty-chunk")
        if not ex.full:
            return sim.fail("not-finished", where)
        small = len(bodies) == 1 and len(body) < self.min
        skip = ("pre-encoded" if enc else "event-stream" if ctype.startswith(b"text/event-stream") else "small" if small else "")
        wb = [(m.get("body", b""), m.get("more_body", False)) for m in ex.sent if m["type"] == "http.response.body"]
        ab = [(m.get("body", b""), m.get("more_body", False)) for m in bodies]
        if skip:
            sim.probe(skip)
            whd = ex.rheaders
            if whd != hd:
                return sim.fail("not-passed-through", f"headers, {skip}: {where}")
            if b"".join(b for b, _ in wb) != body:
                return sim.fail("not-passed-through", f"body, {skip}: {where}")
            return
        accepts = self.accept is not None and b"gzip" in self.accept
        wenc = ex.headers_all(b"content-encoding")
        if wenc not in ([], [b"gzip"]) or wenc and not accepts:
            return sim.fail("label", f"content-encoding {wenc}: {where}")
        data = decode(ex)
        if data != body:
            return sim.fail("lossy", f"client gets {data if data is None else data[:100]!r}: {where}")
        cl = ex.headers_all(b"content-length")
        if cl and (len(cl) != 1 or cl != [str(len(ex.body)).encode()]) and not self.wrong_length(hd, body):
            return sim.fail("content-length", f"{cl} for {len(ex.body)} bytes: {where}")
        if cl:
            sim.probe("length-given")
        drop = (b"content-encoding", b"content-length", b"vary")
        if [h for h in ex.rheaders if h[0] not in drop] != [h for h in hd if h[0] not in drop]:
            return sim.fail("headers", where)
        tokens = lambda hs: [t.strip().lower() for k, v in hs if k == b"vary" for t in v.split(b",") if t.strip()]  # noqa: E731
        wv, av = tokens(ex.rheaders), tokens(hd)
        if any(t not in wv for t in av):
            return sim.fail("vary-lost", where)
        if av:
            sim.probe("vary")
        if wenc:
            sim.probe("compressed" if len(bodies) == 1 else "compressed-stream")
            if b"accept-encoding" not in wv and b"*" not in wv:
                return sim.fail("vary", where)
        else:
            if accepts and not (sp.kind == "memoryview" and len(sp.body) // 4 < self.min):
                return sim.fail("not-compressed", where)
            sim.probe("identity")
            if [b for b, _ in wb if b] != [b for b, _ in ab if b]:
                return sim.fail("chunks", where)

    def wrong_length(self, hd, body):
        """The application itself announced another length than it sent."""
        cl = [v for k, v in hd if k == b"content-length"]
        return bool(cl) and cl != [str(len(body)).encode()]
