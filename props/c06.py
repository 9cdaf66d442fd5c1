"""C06: dispatch-style middleware is transparent to the response."""
from __future__ import annotations

import anyio

from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.responses import PlainTextResponse, Response, StreamingResponse

from .apps import make_app, Obs, draw_delay, draw_spec, expected_headers, route_for
from .common import Http, UnitRoute, adelay, check_grammar, draw_units, run_units, split_chunks

RUNS = 16000
PROBES = ("debug-info", "shared-app", "gated", "discard", "tail-receive", "bg", "nested", "header-change", "rewrite", "early", "tail-disconnect")


def scenario(sim):
    async def main():
        units = draw_units(sim, lambda name, like: Unit(sim, name, like))
        await run_units(sim, units)
        for u in units:
            u.judge()

    sim.run(main)


def klass(i):
    class M(BaseHTTPMiddleware):
        async def dispatch(self, request, call_next):
            u = request.scope["sim.unit"]
            return await u.run_layer(u.layers[i], request, call_next)

    return M


def dispatch(i):
    async def dispatch(request, call_next):
        u = request.scope["sim.unit"]
        return await u.run_layer(u.layers[i], request, call_next)

    return dispatch


class Unit:
    def __init__(self, sim, name, like=None):
        w = sim.w
        self.sim = sim
        self.name = name
        obs = self.obs = Obs(sim, name)
        sp = self.sp = draw_spec(sim, bg_p=0.3, bg_err_p=0.0, big=w.chance(0.2))
        sp.extra["single"] = w.chance(0.5)
        self.layers = []
        self.reached = 0
        n = len(like.layers) if like else w.weighted([(1, 4), (2, 3), (3, 2)])
        if n > 1:
            sim.probe("nested")
        for i in range(n):
            kind = w.weighted([("pass", 6), ("header", 3), ("sleep", 3), ("discard", 2), ("rewrite", 2), ("status", 1),
                               ("early", 1), ("chunkmap", 1), ("touch", 2)])
            self.layers.append({"kind": kind, "i": i, "delay": draw_delay(sim), "style": w.pick(["class", "dispatch"])})
        self.discards = any(layer["kind"] in ("discard", "early", "rewrite") for layer in self.layers)
        # an application that keeps listening after it has answered
        self.tail = None
        if sp.kind == "raw" and w.chance(0.6):
            self.tail = w.pick(["receive", "receive2", "poll"])
            sp.extra["tail"] = self.tail_fn
            sp.extra["trailing"] = w.chance(0.5)
        self.debug_ext = w.chance(0.4)
        if self.debug_ext and sp.kind == "raw":
            sim.probe("debug-info")
            sp.extra["debug"] = w.pick([{"unit": name}, {"unit": name}, {}])
        # every chunk is only produced once the client has all earlier ones
        self.gated = not self.discards and sp.kind in ("agen", "aiter", "raw") and w.chance(0.4)
        gate = {}
        if self.gated:
            gate["chunk"] = self.gate_chunk
        if sp.bg and not self.discards:
            gate["bg"] = self.gate_bg
        sp.gate = gate or None
        if sp.bg:
            sim.probe("bg")
        self.route = route_for(sim, sp, obs)
        if like:
            self.app = like.app
        else:
            mws = [Middleware(BaseHTTPMiddleware, dispatch=dispatch(layer["i"])) if layer["style"] == "dispatch" else
                   Middleware(klass(layer["i"])) for layer in self.layers]
            self.app = make_app(sim, routes=[UnitRoute()], middleware=mws) if w.chance(0.8) else self.bare(mws)
        body = w.bytes(w.pick([0, 0, 5, 300]))
        self.ex = Http(sim, self.app, name, extra={"sim.unit": self},
                       extensions={"http.response.debug": {}} if self.debug_ext else None, method=w.pick(["GET", "POST"]), spec=w.pick(["2.3", "2.4"]),
                       chunks=split_chunks(sim, body) if body else None, style=w.pick(["drop", "queue", "hold"]),
                       slow=w.pick([True, "both", False]))
        self.ex.on_sent = self.on_sent
        self.arrived = anyio.Event()

    def bare(self, mws):
        from starlette.routing import Router
        app = Router(routes=[UnitRoute()])
        for m in reversed(mws):
            app = m.cls(app, *m.args, **m.kwargs)
        return app

    def on_sent(self, ex, i, m):
        ev, self.arrived = self.arrived, anyio.Event()
        ev.set()

    def got(self):
        return len(self.ex.body)

    async def gate_chunk(self, i):
        need = sum(len(c) for c in self.sp.chunks[:i])
        self.sim.probe("gated")
        while self.got() < need or (i == 0 and False):
            await self.arrived.wait()

    async def gate_bg(self, i):
        # background work starts by waiting until the client has the whole response
        while not self.ex.full:
            await self.arrived.wait()

    async def tail_fn(self, scope, receive, send):
        sim = self.sim
        sim.probe("tail-receive")
        self.obs.add("tail")
        n = {"receive": 1, "receive2": 2, "poll": 1}[self.tail]
        seen = 0
        while seen < n:
            m = await receive()
            if m["type"] == "http.disconnect":
                seen += 1
                sim.probe("tail-disconnect")
        self.obs.add("tail-end")

    async def run_layer(self, layer, request, call_next):
        sim, k = self.sim, layer["kind"]
        sim.log(self.name, "dispatch", layer["i"], k)
        if k == "early":
            sim.probe("early")
            return PlainTextResponse(f"early{layer['i']}", status_code=299)
        if k == "sleep":
            await adelay(layer["delay"])
        response = await call_next(request)
        if k == "header":
            sim.probe("header-change")
            response.headers["x-layer"] = str(layer["i"])
            response.headers.append("x-more", str(layer["i"]))
            if "x-a" in response.headers:
                del response.headers["x-a"]
        elif k == "sleep":
            await adelay(layer["delay"])
        elif k == "touch":
            layer["saw"] = (response.status_code, list(response.raw_headers))
        elif k == "status":
            response.status_code = 233
        elif k == "discard":
            sim.probe("discard")
            await adelay(layer["delay"])
            return PlainTextResponse(f"instead{layer['i']}", status_code=298)
        elif k == "rewrite":
            sim.probe("rewrite")
            data = b"".join([c async for c in response.body_iterator])
            return Response(b"<" + data + b">", status_code=response.status_code)
        elif k == "chunkmap":
            async def mapped(it):
                async for c in it:
                    await adelay(layer["delay"])
                    yield bytes(c)
            response.body_iterator = mapped(response.body_iterator)
        return response

    def model(self):
        """What the client must get: (status, headers or None, body)."""
        sp = self.sp
        status, headers, body, own = sp.status, None, sp.body, True
        entered = True
        for layer in reversed(self.layers):
            k = layer["kind"]
            if k == "touch":
                layer["want"] = status
            if k == "header":
                headers = (headers or []) + [("header", layer["i"])]
            elif k == "status":
                status = 233
            elif k in ("early", "discard"):
                status = 299 if k == "early" else 298
                body = (b"early%d" if k == "early" else b"instead%d") % layer["i"]
                headers, own = None, False
                if k == "early":
                    entered = False
            elif k == "rewrite":
                body = b"<" + body + b">"
                headers, own = None, False
        return status, headers, body, own, entered

    def judge(self):
        sim, ex, sp = self.sim, self.ex, self.sp
        where = f"{[layer['kind'] for layer in self.layers]} over {sp!r}: {ex.summary()}"
        check_grammar(sim, ex)
        status, hmods, body, own, entered = self.model()
        if ex.hung:
            return sim.fail("hang", f"request never finished: gated={self.gated} {where}")
        if ex.exc is not None:
            return sim.fail("error", where)
        if not ex.full:
            return sim.fail("incomplete", where)
        if ex.status != status:
            return sim.fail("status", f"want {status}: {where}")
        if ex.body != body:
            return sim.fail("body", f"want {body[:60]!r}({len(body)}): {where}")
        if entered != bool(self.obs.count("enter")):
            return sim.fail("entered", f"application entered: {not entered}, want {entered}: {where}")
        if self.obs.count("enter") > 1:
            return sim.fail("entered", f"application entered {self.obs.count('enter')} times: {where}")
        if ex.left:
            sim.fail("tasks-left", f"{ex.left}: {where}")
        mine = getattr(self.obs, "header_list", None)
        if mine and mine[0] != mine[1]:
            # (the application may send the same list with its next response)
            return sim.fail("application-headers", f"the application's own header list has become {mine[0]}: {where}")
        infos = [m.get("info") for m in ex.sent if m["type"] == "http.response.debug"]
        if infos != ([sp.extra["debug"]] if own and "debug" in sp.extra else []):
            return sim.fail("debug-info", f"{infos}: {where}")
        if own:
            got = list(ex.rheaders)
            want = expected_headers(sp)
            layers_touched = [i for _, i in hmods or []]
            if layers_touched:
                want = [(k, v) for k, v in want if k != b"x-a"]
                for i in layers_touched:
                    # set: replaces an existing value
                    if any(k == b"x-layer" for k, _ in want):
                        want = [(k, v) if k != b"x-layer" else (k, str(i).encode()) for k, v in want]
                    else:
                        want.append((b"x-layer", str(i).encode()))
                    want.append((b"x-more", str(i).encode()))
            auto = {b"content-length", b"content-type", b"location"}
            g = [h for h in got if h[0] not in auto]
            x = [h for h in want if h[0] not in auto]
            if g != x:
                return sim.fail("headers", f"got {g} want {x}: {where}")
            cl = [v for k, v in got if k == b"content-length"]
            if len(cl) > 1 or cl and cl[0] != str(len(body)).encode():
                return sim.fail("headers", f"content-length {cl}: {where}")
            if sp.kind in ("json", "text", "html") and not any(k == b"content-type" for k, _ in got):
                return sim.fail("headers", f"content-type lost: {where}")
            if (b"location", b"/next") not in got and sp.kind == "redirect":
                return sim.fail("headers", f"location lost: {where}")
        if sp.bg and entered:
            n = self.obs.count("bg-end")
            if own and n != len(sp.bg):
                sim.fail("background-lost", f"{n} of {len(sp.bg)} background tasks finished: {where}")
        if self.tail and entered:
            if self.obs.count("tail-end") != self.obs.count("tail"):
                sim.fail("tail", f"the application behind did not finish listening: {where}")
