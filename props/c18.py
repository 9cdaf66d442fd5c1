"""C18: lifespan start-up completes before it is announced, shutdown runs exactly once."""
from __future__ import annotations

import contextlib
import types
import warnings

import anyio

from starlette.middleware import Middleware
from starlette.requests import Request
from starlette.responses import JSONResponse
from starlette.routing import Mount, Route, Router

from sim.server import Base, ClientGone, draw_cancel

from .apps import make_app, ERRS, Obs, draw_delay
from .common import Http, adelay, gather
from .stack import draw_stack

RUNS = 26000
PROBES = ("events", "added-events", "cm", "agen", "gen", "class", "router", "state", "no-state-support", "startup-failed", "shutdown-failed",
          "cancelled-in-startup", "cancelled-while-serving", "cancelled-in-shutdown", "send-failed", "requests", "second-cycle", "middleware",
          "no-steps", "mounted", "exception-group", "state-object", "fatal")


class LifespanRun(Base):
    def __init__(self, sim, app, name, state, serve, fail=None):
        async def app2(scope, receive, send):
            try:
                await app(scope, receive, send)
            except (SystemExit, Fatal) as e:
                self.fatal = e

        self.fatal = None
        super().__init__(sim, app2, name)
        self.scope = {"type": "lifespan", "asgi": {"version": "3.0", "spec_version": "2.0"}}
        if state is not None:
            self.scope["state"] = state
        self.serve = serve
        self.fail = fail  # index of the send that fails
        self.started = anyio.Event()
        self.got = 0
        self.on_sent = None
        self.queue = []

    async def arrive(self):
        await adelay(draw_delay(self.sim))
        self.queue.append({"type": "lifespan.startup"})
        self.actor.kick()
        await self.started.wait()
        await self.serve(self)
        self.queue.append({"type": "lifespan.shutdown"})
        self.ev("shutdown-wanted")
        self.actor.kick()

    async def receive(self):
        self.nrecv += 1
        while not self.queue:
            await self.actor.wait()
        m = self.queue.pop(0)
        self.ev("recv", m["type"][9:])
        return m

    async def send(self, message):
        self.nsend += 1
        await self.sim.pause("send")
        if self.end_seq is not None:
            self.late.append(message.get("type"))
        m = dict(message)
        if self.fail is not None and self.nsend >= self.fail:
            self.sim.fault("send-oserror")
            self.ev("send-error", m["type"])
            raise ClientGone("server gone")
        self.sent.append(m)
        self.sent_seq.append(self.ev("sent", m["type"][9:]))
        if self.on_sent is not None:
            self.on_sent(m)
        if m["type"] == "lifespan.startup.complete":
            self.started.set()

    def summary(self):
        return f"lifespan sent={[m['type'][9:] for m in self.sent]} exc={self.exc!r} cancelled={self.cancelled} hung={self.hung}"


class Fatal(BaseException):
    pass


class StateMap(dict):
    pass


def scenario(sim):
    async def main():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            u = Unit(sim)
            app = u.build()
        for cycle in range(u.cycles):
            if cycle:
                sim.probe("second-cycle")
            await u.run_cycle(app, cycle)
            if sim.failures:
                return

    sim.run(main)


class Unit:
    def __init__(self, sim):
        w, f = sim.w, sim.f
        self.sim = sim
        self.style = w.pick(["cm", "events", "added-events", "agen", "gen", "class"])
        sim.probe(self.style)
        self.events = self.style in ("events", "added-events")
        self.n = (w.weighted([(2, 3), (1, 2), (3, 2), (0, 1)]), w.weighted([(2, 3), (1, 2), (3, 2), (0, 1)]))
        if self.n == (0, 0):
            sim.probe("no-steps")
        # (sync?, delay)
        self.steps = [[(self.style == "gen" or self.events and w.chance(0.4), draw_delay(sim)) for _ in range(n)] for n in self.n]
        self.cycles = w.weighted([(1, 4), (2, 1)])
        self.state = None
        if not self.events:
            self.state = w.pick([None, {}, {"db": "x", "n": 1}, {"db": ["shared"]}])
            if self.state is not None and w.chance(0.3):
                self.state = w.pick([StateMap, types.MappingProxyType])(self.state)
                sim.probe("state-object")
        self.supports = not w.chance(0.15)
        self.router = w.chance(0.2)
        self.mounted = w.chance(0.15)
        self.fail = None  # (half, step, before?)
        if f.chance(0.3):
            half = f.int(0, 1)
            if self.n[half]:
                self.fail = (half, f.int(0, self.n[half] - 1), f.chance(0.5))
                c = f.pick([*ERRS, ExceptionGroup, SystemExit, Fatal])
                if c in (SystemExit, Fatal):
                    sim.probe("fatal")
                if c is ExceptionGroup:
                    sim.probe("exception-group")
                    self.err = ExceptionGroup("group-boom", [ValueError("x")])
                else:
                    self.err = c("step-boom")
                sim.fault("step-error")
        self.cancel = draw_cancel(sim, 14) if f.chance(0.3) else None
        self.send_fail = f.int(1, 2) if f.chance(0.1) else None
        self.arg = []

    # -- the application
    def step(self, half, i):
        sync, delay = self.steps[half][i]
        sim = self.sim
        kind = ("start", "stop")[half]

        def failing(before):
            if self.fail == (half, i, before):
                raise self.err

        if sync:
            def fn():
                self.obs.add(kind, i)
                failing(True)
                failing(False)
                self.obs.add(kind + "-done", i)
        else:
            async def fn():
                self.obs.add(kind, i)
                failing(True)
                await adelay(delay)
                await sim.pause("step")
                failing(False)
                self.obs.add(kind + "-done", i)
        return fn

    def build(self):
        sim, w = self.sim, self.sim.w
        ups = [self.step(0, i) for i in range(self.n[0])]
        downs = [self.step(1, i) for i in range(self.n[1])]
        unit = self

        async def agen(app):
            unit.arg.append(app)
            for s in ups:
                await s()
            unit.entered += 1
            try:
                yield unit.state
            finally:
                unit.obs.add("half2")
                for s in downs:
                    await s()

        def gen(app):
            unit.arg.append(app)
            for s in ups:
                s()
            unit.entered += 1
            try:
                yield unit.state
            finally:
                unit.obs.add("half2")
                for s in downs:
                    s()

        class Ctx:
            def __init__(self, app):
                unit.arg.append(app)

            async def __aenter__(self):
                for s in ups:
                    await s()
                unit.entered += 1
                return unit.state

            async def __aexit__(self, *a):
                unit.obs.add("half2")
                for s in downs:
                    await s()

        async def ep(request: Request):
            return JSONResponse({"state": {k: v for k, v in request.state._state.items()}})

        routes = [Route("/", ep)]
        kw = {}
        if self.style == "events":
            kw = {"on_startup": ups, "on_shutdown": downs}
        elif self.style == "cm":
            kw = {"lifespan": contextlib.asynccontextmanager(agen)}
        elif self.style in ("agen", "gen"):
            kw = {"lifespan": agen if self.style == "agen" else gen}
        elif self.style == "class":
            kw = {"lifespan": Ctx}
        if self.mounted:
            sim.probe("mounted")
            # the lifespan of a mounted application is not run

            @contextlib.asynccontextmanager
            async def inner(app):
                sim.fail("mounted-lifespan", "the lifespan of a mounted application ran")
                yield

            routes.append(Mount("/sub", app=Router([Route("/", ep)], lifespan=inner)))
        if self.router:
            sim.probe("router")
            app = target = Router(routes, **kw)
            self.want_arg = None
        else:
            mws, names = draw_stack(sim)
            if names:
                sim.probe("middleware")
            app = make_app(sim, routes=routes, middleware=mws, debug=w.chance(0.2), **kw)
            target = app if w.chance(0.5) else app.router
            self.want_arg = app
        if self.style == "added-events":
            todo = [("startup", s) for s in ups] + [("shutdown", s) for s in downs]
            for t, s in todo:
                if w.chance(0.5):
                    target.add_event_handler(t, s)
                else:
                    target.on_event(t)(s)
        return app

    async def run_cycle(self, app, cycle):
        sim, w = self.sim, self.sim.w
        self.obs = Obs(sim, f"u{cycle}")
        self.entered = 0
        self.arg.clear()
        state = {} if self.supports else None
        if state is not None and w.chance(0.2):
            state["server"] = 1
        nreq = w.weighted([(0, 2), (1, 2), (2, 1)])
        self.snap = None
        self.reqs = []

        async def serve(ex):
            if nreq and state is not None:
                sim.probe("requests")
                self.reqs = [Http(sim, app, f"r{cycle}{i}", state=dict(state)) for i in range(nreq)]
                await gather(*(r.call() for r in self.reqs))
            await adelay(draw_delay(sim))

        ex = self.ex = LifespanRun(sim, app, f"l{cycle}", state, serve, self.send_fail)
        self.obs.ex = ex

        def on_sent(m):
            if m["type"] == "lifespan.startup.complete":
                self.snap = None if state is None else dict(state)
        ex.on_sent = on_sent
        self.pre = dict(state) if state is not None else None
        await ex.call(cancel=self.cancel)
        self.judge()

    def desc(self):
        return (f"{self.style} steps={self.steps} fail={self.fail} send_fail={self.send_fail} state={self.state} supports={self.supports} "
                f"router={self.router} obs={[e[1:] for e in self.obs.events]}: {self.ex.summary()}")

    def judge(self):
        sim, ex, obs = self.sim, self.ex, self.obs
        ex.exc = ex.exc or ex.fatal
        where = self.desc()
        fail = lambda code, msg="": sim.fail(code, f"{msg}: {where}")  # noqa: E731
        if ex.hung:
            return fail("hang")
        if ex.late:
            return fail("send-after-return")
        sent = [m["type"][9:] for m in ex.sent]
        if sum(s.startswith("startup") for s in sent) > 1 or sum(s.startswith("shutdown") for s in sent) > 1:
            return fail("announced-twice")
        if any(s.startswith("shutdown") for s in sent) and (sent[0] != "startup.complete"):
            return fail("order", "shutdown announced without startup")
        # steps once, in order, not overlapping
        for half, kind in enumerate(("start", "stop")):
            seen = [e[1:] for e in obs.events if e[1] in (kind, kind + "-done")]
            want = [x for i in range(self.n[half]) for x in ((kind, i), (kind + "-done", i))]
            if seen != want[:len(seen)]:
                return fail("steps", kind)
        done = [obs.count("start-done") == self.n[0], obs.count("stop-done") == self.n[1]]
        entered = self.entered if not self.events else int(done[0] and any(e[1:] == ("recv", "startup") for e in ex.events))
        if not self.events:
            if len(self.arg) > 1 or (self.arg and self.arg[0] is not self.want_arg):
                return fail("argument", f"lifespan called with {self.arg}")
            half2 = obs.count("half2")
            if half2 != entered:
                return fail("shutdown-half", f"entered {entered} times, left {half2} times")
        elif entered and self.n[1] and not obs.count("stop"):
            # entered, so the first shutdown step must have been called
            return fail("shutdown-half", "no shutdown step ran")
        if not entered and obs.count("stop"):
            return fail("shutdown-without-startup")
        # announcements only after everything before them
        for m, seq in zip(ex.sent, ex.sent_seq):
            if m["type"] == "lifespan.startup.complete":
                if not done[0] or any(s > seq for s in obs.seqs("start-done")):
                    return fail("early-startup")
                if any(s < seq for s in obs.seqs("stop")):
                    return fail("early-shutdown-step")
                if self.state:
                    want = {**self.pre, **self.state}
                    sim.probe("state")
                else:
                    want = self.pre
                if self.snap != want:
                    return fail("state", f"state {self.snap} at the announcement")
            if m["type"] == "lifespan.shutdown.complete":
                if not done[1] or any(s > seq for s in obs.seqs("stop-done")):
                    return fail("early-shutdown")
        if "startup.complete" in sent and not ex.cancelled:
            # no step of the shutdown before the server asked for it
            asked = [s for s, k, *_ in ex.events if k == "shutdown-wanted"]
            if any(s < asked[0] if asked else True for s in obs.seqs("stop")):
                return fail("unasked-shutdown")
        for r in self.reqs:
            if ex.cancelled:
                continue
            if r.status != 200 or r.body is None or r.exc is not None:
                return fail("request", r.summary())
            import json
            b = r.body
            if r.headers_all(b"content-encoding") == [b"gzip"]:
                import gzip
                b = gzip.decompress(b)
            if json.loads(b)["state"] != {**self.pre, **(self.state or {})}:
                return fail("request-state", r.summary())
        if ex.cancelled:
            if "startup.complete" not in sent:
                sim.probe("cancelled-in-startup")
            elif not any(k == "shutdown-wanted" for _, k, *_ in ex.events):
                sim.probe("cancelled-while-serving")
            else:
                sim.probe("cancelled-in-shutdown")
            return
        if any(e[1] == "send-error" for e in ex.events):
            sim.probe("send-failed")
            if not isinstance(ex.exc, (ClientGone, type(getattr(self, "err", None)))):
                return fail("send-error-swallowed")
            return
        # the plain case: everything is determined
        nostate = self.state is not None and not self.supports and not (self.fail and self.fail[0] == 0)
        if nostate:
            sim.probe("no-state-support")
            if sent != ["startup.failed"] or not ex.exc:
                return fail("state-unsupported")
            if not isinstance(ex.exc, RuntimeError) and ex.exc is not getattr(self, "err", None):
                return fail("state-unsupported")
            return
        if self.fail is None:
            if sent != ["startup.complete", "shutdown.complete"] or ex.exc is not None:
                return fail("plain")
            return
        want = ["startup.failed"] if self.fail[0] == 0 else ["startup.complete", "shutdown.failed"]
        if sent != want:
            return fail("failure-announcement", f"want {want}")
        sim.probe("startup-failed" if self.fail[0] == 0 else "shutdown-failed")
        text = ex.sent[-1].get("message")
        if not isinstance(text, str) or "Traceback" not in text or type(self.err).__name__ not in text or "boom" not in text:
            return fail("failure-text", repr(text))
        if ex.exc is not self.err:
            return fail("not-raised")
