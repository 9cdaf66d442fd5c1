"""C23: polling for a disconnect never blocks and never lies."""
from __future__ import annotations

import anyio
import anyio.from_thread

from sim.server import draw_cancel
from starlette.background import BackgroundTask
from starlette.endpoints import HTTPEndpoint
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.requests import ClientDisconnect, Request
from starlette.responses import PlainTextResponse, StreamingResponse
from starlette.routing import Mount, Route

from .apps import make_app, draw_delay
from .common import Http, adelay, check_grammar, draw_gone, gather, split_chunks
from .stack import decode, draw_stack

RUNS = 24000
PROBES = ("read-body", "read-stream", "read-form", "read-json", "read-none-empty", "polled-no", "polled-yes", "yes-again", "in-endpoint", "in-stream",
          "in-background", "in-dispatch", "in-iterator", "in-thread", "in-poller", "other-reader", "other-reader-told", "dispatch-0", "dispatch-1",
          "dispatch-2", "dispatch-3", "early-dispatch", "fresh-request", "watch-loop", "gone", "full", "cancelled", "slow-receive", "class", "mounted",
          "two-requests", "in-nested-scope", "told-once", "told-while-reading")


def scenario(sim):
    w = sim.w

    async def main():
        n = w.weighted([(1, 5), (2, 2), (3, 1)])
        if n > 1:
            sim.probe("two-requests")
        units = [Unit(sim, f"c{i}") for i in range(n)]
        await gather(*(u.go() for u in units))
        for u in units:
            u.judge()

    sim.run(main)


class Once(Http):
    """A server that reports the disconnect only once, and then has nothing more to say."""

    def _message(self):
        if self.disc_given:
            return None
        return super()._message()


class Unit:
    def __init__(self, sim, name):
        w, f = sim.w, sim.f
        self.sim, self.name = sim, name
        self.polls = []  # (who, how long, gone before and not told, gone after, response complete, answer, has to be yes)
        self.seen = {}  # request object (by label) -> answered yes
        self.read_done = False
        self.responded = False
        self.told_levels = []
        self.how = w.pick(["body", "stream", "form", "json", "empty", "two-ways"])
        self.payload = {"json": b'{"a": [1, 2, "x"]}', "form": b"a=1&b=two", "empty": b""}.get(self.how)
        if self.payload is None:
            self.payload = w.bytes(w.pick([0, 1, 5, 80, 700]))
        self.kind = w.pick(["plain", "plain", "stream", "stream", "sync", "class"])
        self.parts = [w.bytes(w.pick([0, 1, 7])) for _ in range(w.int(0, 4))] if self.kind == "stream" else [w.bytes(w.int(0, 9))]
        self.bg = w.chance(0.3)
        self.ndisp = w.weighted([(0, 3), (1, 4), (2, 2), (3, 1)])
        sim.probe(f"dispatch-{self.ndisp}")
        layers = [Middleware(BaseHTTPMiddleware, dispatch=self.dispatch(i)) for i in range(self.ndisp)]
        more, self.names = draw_stack(sim, w.weighted([(0, 3), (1, 2), (2, 1)]), kinds=("gzip", "session", "cors", "host", "auth", "pure"))
        for m in more:
            layers.insert(w.int(0, len(layers)), m)
        route = self.route()
        path = "/"
        if w.chance(0.2):
            sim.probe("mounted")
            path = "/m/"
            k = w.int(0, len(layers))
            app = make_app(sim, routes=[Mount("/m", routes=[route], middleware=layers[k:])], middleware=layers[:k])
        else:
            app = make_app(sim, routes=[route], middleware=layers)
        self.watch = w.chance(0.15)
        self.other = w.chance(0.25)
        chunks = split_chunks(sim, self.payload)
        slow = w.pick([True, True, "strict", False, "both"])
        if slow == "both":
            sim.probe("slow-receive")
        self.patient = slow != "both"
        self.cancel = draw_cancel(sim) if f.chance(0.06) else None
        if self.cancel and self.cancel[0] == "native":
            self.cancel = ("scope", self.cancel[1])
        headers = [(b"content-type", b"application/x-www-form-urlencoded")]
        if w.chance(0.4):
            headers.append((b"accept-encoding", b"gzip"))
        self.once = w.chance(0.2)
        if self.once:
            sim.probe("told-once")
        self.ex = (Once if self.once else Http)(sim, app, name, method=w.pick(["POST", "PUT"]), path=path, headers=headers, chunks=chunks, slow=slow,
                       style=w.pick(["drop", "queue"]), spec=w.pick(["2.0", "2.3", "2.3", "2.4"]), gone=draw_gone(sim, 0.55, len(chunks), 6))
        self.at = draw_delay(sim)

    async def go(self):
        await adelay(self.at)
        await self.ex.call(cancel=self.cancel)

    # -- polling
    async def poll(self, request, who, label, n=None):
        sim = self.sim
        level = int(who.split("#")[1]) if "#" in who else self.ndisp
        for _ in range(sim.w.weighted([(1, 5), (2, 2), (4, 1)]) if n is None else n):
            await adelay(draw_delay(sim))
            r = request
            if sim.w.chance(0.15) and sim.in_worker() is False:
                sim.probe("fresh-request")
                r = Request(request.scope, request.receive)
            ex = self.ex
            t0, gone0, before = sim.now(), ex.gone, self.seen.get(label, False) and r is request
            if level and any(v <= level for v in self.told_levels):
                # whoever has to ask through a dispatch middleware that knows is told by that
                before = True
            sim.log(self.name, "poll", who)
            if sim.w.chance(0.15):
                sim.probe("in-nested-scope")
                with anyio.CancelScope(shield=sim.w.chance(0.5)):
                    a = await r.is_disconnected()
            else:
                a = await r.is_disconnected()
            self.polls.append((who, sim.now() - t0, gone0 and not (self.once and ex.disc_given), ex.gone, self.responded or ex.complete, a, before))
            sim.log(self.name, "polled", who, a)
            sim.probe("polled-yes" if a else "polled-no")
            if a:
                if level or r is request:
                    self.told_levels.append(level)
                if r is request:
                    self.seen[label] = True
            sim.probe("in-" + who.split("#")[0])
        return a

    def dispatch(self, i):
        sim, w = self.sim, self.sim.w
        early = w.chance(0.25)
        after = w.chance(0.6)
        wrap = w.chance(0.4)
        d = draw_delay(sim)
        who = f"dispatch#{i}"

        async def dispatch(request, call_next):
            await adelay(d)
            if early:
                sim.probe("early-dispatch")
                try:
                    got = await request.body()
                except ClientDisconnect:
                    await self.told(request, who, who)
                    raise
                if got != self.payload:
                    sim.fail("reader-disturbed", f"{self}: layer {i} read {got[:40]!r}({len(got)})")
                await self.poll(request, who, who)
            response = await call_next(request)
            if after and (self.read_done or early):
                await self.poll(request, who, who)
            if wrap:
                inner = response.body_iterator

                async def it():
                    async for chunk in inner:
                        if self.read_done or early:
                            await self.poll(request, f"iterator#{i}", who, 1)
                        yield chunk

                response.body_iterator = it()
            return response

        return dispatch

    async def told(self, request, who, label):
        """Reading the body has raised the disconnect: polling the same request has to say so too."""
        sim = self.sim
        sim.probe("told-while-reading")
        self.seen[label] = True
        await self.poll(request, who, label)

    # -- the endpoint
    async def read(self, request):
        try:
            await self.read1(request)
        except ClientDisconnect:
            await self.told(request, "endpoint", "ep")
            raise

    async def read1(self, request):
        sim, how = self.sim, self.how
        if how == "empty":
            sim.probe("read-none-empty")
        if how == "stream":
            sim.probe("read-stream")
            got = b""
            async for c in request.stream():
                got += c
        elif how == "form":
            sim.probe("read-form")
            async with request.form() as form:
                got = self.payload if form.multi_items() == [("a", "1"), ("b", "two")] else repr(form).encode()
        elif how == "json":
            sim.probe("read-json")
            got = self.payload if await request.json() == {"a": [1, 2, "x"]} else b"?"
        else:
            sim.probe("read-body")
            got = await request.body()
            if how == "two-ways":
                got = b""
                async for c in request.stream():
                    got += c
        if got != self.payload:
            sim.fail("reader-disturbed", f"{self}: the endpoint read {got[:40]!r}({len(got)})")
        self.read_done = True

    async def work(self, request):
        sim, w = self.sim, self.sim.w
        await self.read(request)
        if self.how in ("body", "two-ways") and w.chance(0.3):
            await self.poll(request, "endpoint", "ep")
            if await request.body() != self.payload:
                sim.fail("reader-disturbed", f"{self}: body() changed after a poll")
        async with anyio.create_task_group() as tg:
            if self.other:
                sim.probe("other-reader")
                tg.start_soon(self.wait_for_disconnect, request, tg)
            if w.chance(0.3):
                for j in range(w.int(1, 3)):
                    tg.start_soon(self.poller, Request(request.scope, request.receive) if w.chance(0.3) else request, j)
            if self.watch:
                sim.probe("watch-loop")
                for _ in range(40):
                    if await self.poll(request, "endpoint", "ep", 1):
                        break
                    await anyio.sleep(0.05)
            else:
                await self.poll(request, "endpoint", "ep")
                await adelay(draw_delay(sim))
            tg.cancel_scope.cancel()

    async def poller(self, request, j):
        await self.poll(request, "poller", ("poller", j))

    async def wait_for_disconnect(self, request, tg):
        m = await request.receive()
        sim = self.sim
        if m["type"] != "http.disconnect":
            sim.fail("other-reader", f"{self}: a reader that waits for the disconnect got {m}")
        elif not self.ex.gone:
            sim.fail("other-reader", f"{self}: a waiting reader was told of a disconnect before there was one")
        else:
            sim.probe("other-reader-told")

    async def background(self, request):
        await self.poll(request, "background", "ep")

    def route(self):
        sim, u = self.sim, self
        bg = lambda request: BackgroundTask(u.background, request) if u.bg else None  # noqa: E731
        if self.kind == "sync":
            def ep(request):
                anyio.from_thread.run(u.read, request)
                sim.tpause("sync")
                sim.probe("in-thread")
                anyio.from_thread.run(u.poll, request, "endpoint", "ep")
                sim.tpause("sync2")
                u.done()
                return PlainTextResponse(u.parts[0], background=bg(request))
        elif self.kind == "class":
            sim.probe("class")

            class ep(HTTPEndpoint):
                async def post(self, request):
                    await u.work(request)
                    u.done()
                    return PlainTextResponse(u.parts[0], background=bg(request))

                put = post
        elif self.kind == "plain":
            async def ep(request):
                await u.work(request)
                u.done()
                return PlainTextResponse(u.parts[0], background=bg(request))
        else:
            async def ep(request):
                if sim.w.chance(0.5):
                    await u.work(request)
                else:
                    await u.read(request)

                async def gen():
                    for p in u.parts:
                        await u.poll(request, "stream", "ep", 1)
                        yield p
                        await adelay(draw_delay(sim))
                    u.done()

                return StreamingResponse(gen(), background=bg(request))
        return Route("/", ep, methods=["POST", "PUT"])

    def done(self):
        self.responded = True

    def __repr__(self):
        return f"<{self.name} {self.kind} reads={self.how} dispatch={self.ndisp} others={self.names} bg={self.bg} payload={len(self.payload)}>"

    # -- judging
    def judge(self):
        sim, ex = self.sim, self.ex
        for who, took, gone0, gone1, over, a, before in self.polls:
            where = f"{self}: poll in {who}: answer {a}: {ex.summary()}"
            if took:
                return sim.fail("waited", f"{where}: took {took:.6f} s")
            if not isinstance(a, bool):
                return sim.fail("not-a-bool", where)
            if a and not gone1 and not over:
                return sim.fail("yes-while-connected", where)
            if not a and (before or gone0 and self.patient):
                return sim.fail("no-after-disconnect", where)
            if a and before:
                sim.probe("yes-again")
        check_grammar(sim, ex)
        if ex.hung:
            return sim.fail("hang", f"{self}: {ex.summary()}")
        if ex.cancelled:
            return sim.probe("cancelled")
        if ex.gone and not (ex.complete and ex.complete_seq < ex.gone_seq):
            return sim.probe("gone")
        sim.probe("full")
        if ex.exc is not None:
            return sim.fail("error", f"{self}: {ex.summary()}")
        if ex.status != 200 or not ex.full or decode(ex) != b"".join(self.parts):
            return sim.fail("response-disturbed", f"{self}: expected {b''.join(self.parts)!r}: {ex.summary()}")
