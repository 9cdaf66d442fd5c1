"""C10: a cancelled request unwinds completely."""
from __future__ import annotations

import anyio

from sim.server import WebSock, draw_cancel
from starlette.endpoints import WebSocketEndpoint
from starlette.responses import PlainTextResponse
from starlette.routing import Route, WebSocketRoute
from starlette.websockets import WebSocketDisconnect

from .apps import make_app, Obs, draw_delay, draw_spec, route_for
from .common import Http, UnitRoute, adelay, check_grammar, draw_units, run_units, split_chunks
from .stack import decode, draw_stack

RUNS = 14000
PROBES = ("shared-app", "cancel-scope", "cancel-native", "cancelled-early", "cancelled-mid", "cancelled-after-response", "ws", "companion",
          "behind-dispatch", "follow-up", "reading", "met")


def scenario(sim):
    w = sim.w

    async def main():
        units = draw_units(sim, lambda name, share: Unit(sim, name, int(name[1:]), share=share), ((2, 3), (1, 3), (3, 2)))
        await run_units(sim, units, lambda u: u.ex.call(cancel=u.cancel))
        for u in units:
            u.judge()
        if w.chance(0.3):
            # the same application still works
            sim.probe("follow-up")
            again = Unit(sim, "again", None, share=units[0])
            await again.ex.call()
            again.judge()

    sim.run(main)


class Unit:
    def __init__(self, sim, name, i, share=None):
        w = sim.w
        self.sim, self.name = sim, name
        self.cancel = None
        if i == 0 or i is not None and w.chance(0.3):
            self.cancel = draw_cancel(sim, 16)
        elif i:
            sim.probe("companion")
        self.obs = Obs(sim, name)
        self.ws = share.ws if share else w.chance(0.2)
        self.sp = draw_spec(sim, bg_p=0.5, bg_err_p=0.0)
        self.reads = None
        if w.chance(0.35):
            self.reads = w.pick(["body", "stream", "form", "disc"])
        if not self.ws:
            self.sp.extra["single"] = w.chance(0.5)
            self.route = route_for(sim, self.sp, self.obs, before=self.read if self.reads else None)
        if share:
            self.names, self.app = share.names, share.app
        else:
            mws, self.names = draw_stack(sim)
            handlers = {}
            if w.chance(0.5):
                async def h(request, exc):
                    return PlainTextResponse("handler", status_code=500)
                handlers[Exception] = h
            if self.ws:
                self.app = self.ws_app(mws)
            else:
                self.app = make_app(sim, routes=[UnitRoute()], middleware=mws, exception_handlers=handlers)
        if self.ws:
            sim.probe("ws")
            script = [(draw_delay(sim), ("text", f"m{j}")) for j in range(w.int(0, 4))]
            script.append((draw_delay(sim) if self.cancel is None or w.chance(0.3) else 50.0, ("close", 1000, None)))
            self.ex = WebSock(sim, self.app, name, extra={"sim.unit": self}, script=script, slow=w.pick(["strict", "strict", True, "both", False]))
        else:
            body = w.bytes(w.pick([0, 5, 80]))
            self.body = body
            self.ex = Http(sim, self.app, name, extra={"sim.unit": self}, method=w.pick(["GET", "POST"]), spec=w.pick(["2.3", "2.4"]),
                           chunks=split_chunks(sim, body), style=w.pick(["drop", "queue"]),
                           headers=[(b"accept-encoding", b"gzip")] if w.chance(0.5) else [],
                           slow=w.pick(["strict", "strict", True, "both", False]))
        self.obs.ex = self.ex
        self.ex.name = name

    async def read(self, request):
        self.sim.probe("reading")
        if self.reads == "body":
            await request.body()
        elif self.reads == "stream":
            async for _ in request.stream():
                pass
        elif self.reads == "form":
            async with request.form():
                pass
        else:
            await request.body()
            await request.is_disconnected()

    def ws_app(self, mws):
        sim = self.sim
        style = sim.w.pick(["class", "loop", "iter"])
        d = draw_delay(sim)

        class E(WebSocketEndpoint):
            encoding = "text"

            async def on_connect(self, websocket):
                websocket.scope["sim.unit"].obs.add("enter")
                await websocket.accept()

            async def on_receive(self, websocket, data):
                await adelay(d)
                await websocket.send_text("echo " + data)

        async def loop(websocket):
            websocket.scope["sim.unit"].obs.add("enter")
            await websocket.accept()
            try:
                while True:
                    t = await websocket.receive_text()
                    await adelay(d)
                    await websocket.send_text("echo " + t)
            except WebSocketDisconnect:
                websocket.scope["sim.unit"].obs.add("ws-end")

        async def it(websocket):
            websocket.scope["sim.unit"].obs.add("enter")
            await websocket.accept()
            async for t in websocket.iter_text():
                await adelay(d)
                await websocket.send_text("echo " + t)
            websocket.scope["sim.unit"].obs.add("ws-end")

        ep = {"class": E, "loop": loop, "iter": it}[style]
        return make_app(sim, routes=[WebSocketRoute("/", ep)], middleware=mws)

    def judge(self):
        sim, ex, sp, obs = self.sim, self.ex, self.sp, self.obs
        where = f"{self.names} over {sp!r} ws={self.ws} reads={self.reads} {self.cancel and self.cancel[0]}: {ex.summary()}"
        check_grammar(sim, ex)
        if ex.hung:
            return sim.fail("hang", where)
        if ex.left:
            sim.fail("tasks-left", f"{ex.left}: {where}")
        disp = "dispatch" in self.names
        if not ex.cancelled:
            if self.ws:
                if ex.exc is not None and not (isinstance(ex.exc, OSError) or isinstance(ex.exc, WebSocketDisconnect)):
                    sim.fail("ws-error", where)
                return
            if ex.exc is not None:
                return sim.fail("error", where)
            if not ex.full or ex.status != sp.status or decode(ex) != sp.body:
                return sim.fail("response", where)
            n = sum(1 for e in obs.events if e[1] == "bg-end")
            if n != len(sp.bg):
                return sim.fail("background", f"{n}: {where}")
            return
        # cancelled
        if ex.met:
            sim.probe("met")
            return  # lost in anyio, if it is lost
        at = None
        for e in ex.events:
            if e[1] == "cancel":
                at = e[0]
        late = [i for i, s in enumerate(ex.sent_seq) if s > at]
        t_cancel = next(t for s, t in self.times() if s == at)
        if ex.end_seq is None or ex.end_seq < at:
            pass
        if len(ex.sent) and ex.full if not self.ws else False:
            sim.probe("cancelled-after-response")
        elif ex.sent:
            sim.probe("cancelled-mid")
        else:
            sim.probe("cancelled-early")
        if disp:
            sim.probe("behind-dispatch")
        threads = not self.ws and (sp.style in ("sync", "classsync") or sp.kind in ("gen", "list") or any(b[0] for b in sp.bg))
        if not ex.cancelled_out:
            if ex.exc is not None:
                if self.ws and ex.gone and isinstance(ex.exc, (OSError, WebSocketDisconnect)) and ex.end_at <= t_cancel:
                    return  # the disconnect and the cancellation came in the same instant
                return sim.fail("became-error", where)
            # it may have ended by itself in the very moment of the cancellation
            # (a worker thread cannot be interrupted: what needs no further wait after it completes)
            # (anyio delivers a scope's cancellation again and again, at the latest in the next pass of the loop, which may come
            # after one more step of a task that was due already)
            again = 0 if self.cancel[0] == "native" and sim.backend == "asyncio" else 1
            if (ex.end_at > t_cancel and not threads) or len(late) > again and ex.slow == "strict":
                return sim.fail("cancel-swallowed", f"cancelled at {t_cancel:.3f}, returned at {ex.end_at:.3f}: {where}")
        # With a server whose send always gives way first ("strict"), nothing gets through after the cancellation, except
        # what other tasks of the request do in the very same instant, before the cancellation has reached them.
        strict = ex.slow == "strict"
        tasks = disp or sp.kind in ("agen", "aiter", "gen", "list", "strgen", "mixed")
        limit = 1 if strict and not tasks else 3 + 2 * len(self.names) if strict else 10**6
        for i in late:
            if len(late) > limit or (strict or not threads) and ex.sent_at[i] > t_cancel:
                return sim.fail("sent-after-cancel", f"{[ex.sent[j]['type'] for j in late]} after the cancellation: {where}")
        # background work that had not begun does not begin (in the same instant it still may, when the request was
        # already due to continue; so may a threaded task queued then)
        first = next((e for e in obs.events if e[1] == "bg-start"), None)
        if first is not None and first[0] > at and strict and obs.at[first[0]] > t_cancel and not sp.bg[first[2]][0]:
            return sim.fail("background-after-cancel", where)

    def times(self):
        return self.ex.at
