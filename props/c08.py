"""C08: errors behind dispatch middleware surface exactly once, unchanged."""
from __future__ import annotations

import anyio

from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.responses import PlainTextResponse
from starlette.routing import Router

from .apps import make_app, AppError, ERRS, Obs, draw_delay, draw_spec, route_for
from .common import Http, adelay, check_grammar, UnitRoute, draw_units, run_units

RUNS = 20000
PROBES = ("shared-app", "raised-before", "raised-mid", "raised-bg", "handled", "replaced", "reraised", "nested", "raised-after", "no-response")


def scenario(sim):
    async def main():
        units = draw_units(sim, lambda name, like: Unit(sim, name, like))
        await run_units(sim, units)
        for u in units:
            u.judge()

    sim.run(main)


def dispatch(i):
    async def dispatch(request, call_next):
        u = request.scope["sim.unit"]
        return await u.pass_layer(u.layers[i], request, call_next)

    return dispatch


class Unit:
    def __init__(self, sim, name, like=None):
        w = sim.w
        self.sim, self.name = sim, name
        obs = self.obs = Obs(sim, name)
        sp = self.sp = draw_spec(sim, err_points=("before", "started", "chunk", "chunk", "after"), err_p=0.75,
                                 bg_p=0.4, bg_err_p=0.4, styles=("async", "sync", "class"))
        p = sp.err[0] if sp.err else None
        if p == "after" and sp.kind != "raw" or p == "started" and sp.kind != "raw":
            sp.err = ("before", sp.err[1])
        sp.extra["trailing"] = w.chance(0.4)
        self.noresp = sp.kind == "raw" and sp.err is None and w.chance(0.15)
        n = len(like.layers) if like else w.weighted([(1, 4), (2, 3), (3, 2)])
        if n > 1:
            sim.probe("nested")
        self.layers = [{"i": i, "kind": w.weighted([("pass", 6), ("catch", 2), ("replace", 1), ("reraise", 1),
                                                     ("cleanup", 2), ("sleep", 1), ("own", 1)]),
                        "delay": draw_delay(sim), "caught": [], "own": AppError(f"own{i}")} for i in range(n)]
        self.route = route_for(sim, sp, obs)
        self.full = like.full if like else w.chance(0.4)
        if self.full:
            self.noresp = False
        self.app = like.app if like else self.build(n)
        self.ex = Http(sim, self.app, name, extra={"sim.unit": self}, spec=w.pick(["2.3", "2.4"]), style=w.pick(["drop", "queue"]),
                       slow=w.pick([True, "both", False]))

    def build(self, n):
        mws = [Middleware(BaseHTTPMiddleware, dispatch=dispatch(i)) for i in range(n)]
        if self.full:
            return make_app(self.sim, routes=[UnitRoute()], middleware=mws)
        router = Router(routes=[UnitRoute()])

        async def inner(scope, receive, send):
            u = scope["sim.unit"]
            if not u.noresp:
                return await router(scope, receive, send)
            u.obs.add("enter")
            await adelay(u.sp.wait0)

        app = inner
        for m in reversed(mws):
            app = m.cls(app, *m.args, **m.kwargs)
        return app

    async def pass_layer(self, layer, request, call_next):
        k = layer["kind"]
        if k == "sleep":
            await adelay(layer["delay"])
        if k == "own":
            await call_next(request)
            await adelay(layer["delay"])
            raise layer["own"]
        try:
            return await call_next(request)
        except Exception as e:
            layer["caught"].append(e)
            self.sim.log(self.name, "caught", layer["i"], type(e).__name__)
            if k == "catch":
                await adelay(layer["delay"])
                self.sim.probe("handled")
                return PlainTextResponse(f"handled{layer['i']}", status_code=297)
            if k == "replace":
                self.sim.probe("replaced")
                raise layer["own"] from e
            if k == "reraise":
                self.sim.probe("reraised")
                raise e
            if k == "cleanup":
                await adelay(layer["delay"])
            raise

    def judge(self):
        sim, ex, sp, obs = self.sim, self.ex, self.sp, self.obs
        where = f"{[layer['kind'] for layer in self.layers]} over {sp!r} full={self.full}: {ex.summary()}"
        check_grammar(sim, ex)
        if ex.hung:
            return sim.fail("hang", where)
        err = sp.err[1] if sp.err else None
        raised = bool(obs.count("raise"))
        p = sp.err[0] if sp.err else None
        pre = err is not None and p == "before"
        # model: walk outwards.  state: ("exc", e) before a response, or ("resp", complete?, late exception)
        late = None
        bgerr = None
        for i, (_, _, e) in enumerate(sp.bg):
            if e is not None:
                bgerr = e
                break
        if self.noresp:
            sim.probe("no-response")
            state = ("exc", "noresp")
        elif pre:
            state = ("exc", err)
            sim.probe("raised-before")
        else:
            if err is not None:
                late = err
                sim.probe("raised-after" if p == "after" else "raised-mid")
            elif bgerr is not None:
                late = bgerr
                sim.probe("raised-bg")
            state = ("resp", "app")
        for layer in reversed(self.layers):
            k = layer["kind"]
            if state[0] == "exc":
                c = layer["caught"]
                if k == "own":
                    continue  # the exception passed through the bare await
                if len(c) != 1:
                    return sim.fail("call-next-raise", f"layer {layer['i']} saw {c}, want exactly {state[1]!r}: {where}")
                if state[1] == "noresp":
                    if not isinstance(c[0], RuntimeError):
                        return sim.fail("call-next-raise", f"layer {layer['i']} saw {c[0]!r}: {where}")
                    state = ("exc", c[0])
                elif c[0] is not state[1]:
                    return sim.fail("call-next-identity", f"layer {layer['i']} saw {c[0]!r} not {state[1]!r}: {where}")
                if k == "catch":
                    state = ("resp", layer["i"])
                elif k == "replace":
                    state = ("exc", layer["own"])
            else:
                if layer["caught"]:
                    return sim.fail("call-next-raise", f"layer {layer['i']} saw {layer['caught']} although a response "
                                    f"was started: {where}")
                if k == "own":
                    # raised after the response head arrived: cancels what is behind
                    state = ("exc", layer["own"])
                    if late is not None:
                        # two errors race: the dispatch function's own and the application's later one
                        sim.probe("two-errors")
                        return
                    late = None
        final = state[1] if state[0] == "exc" else late
        got = ex.exc
        if final == "noresp":
            if type(got) is not RuntimeError:
                return sim.fail("wrong-exception", f"want RuntimeError got {got!r}: {where}")
        elif got is not final:
            code = "not-raised" if got is None else "raised-though-handled" if final is None else "wrong-exception"
            return sim.fail(code, f"want {final!r} got {got!r}: {where}")
        # the response
        if state[0] == "exc":
            if self.full:
                if ex.status != 500 or not ex.full:
                    return sim.fail("no-500", where)
            elif ex.sent:
                return sim.fail("sent-with-error", where)
            return
        if state[1] == "app":
            mid = err is not None and p in ("started",) or isinstance(p, tuple)
            if mid:
                if ex.full:
                    return sim.fail("truncated-finished", f"the response was cut short by {err!r} but finished: {where}")
                if not sp.body.startswith(ex.body):
                    return sim.fail("body", where)
            else:
                if not ex.full or ex.body != sp.body or ex.status != sp.status:
                    return sim.fail("response", where)
        else:
            if not ex.full or ex.status != 297 or ex.body != b"handled%d" % state[1]:
                return sim.fail("handled-response", where)
