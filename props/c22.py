"""C22: protected endpoints run only for authorised callers."""
from __future__ import annotations

from urllib.parse import parse_qs, urlsplit

from starlette.authentication import (
    AuthCredentials, AuthenticationBackend, AuthenticationError, BaseUser, SimpleUser, UnauthenticatedUser, requires,
)
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.requests import Request
from starlette.responses import JSONResponse, PlainTextResponse
from starlette.routing import Mount, Route, WebSocketRoute
from starlette.websockets import WebSocket

from sim.server import draw_cancel

from .apps import make_app, draw_delay
from .common import Http, WebSock, adelay, check_grammar, draw_gone, gather
from .stack import Pure

RUNS = 16000
KINDS = ["async", "sync", "class-async", "class-sync", "ws", "ws-class", "helper", "helper-kw", "open", "sync-second", "ws-open", "ws-second", "method"]
PROBES = tuple(KINDS) + ("allowed", "denied", "redirected", "rejected", "rejected-ws", "anonymous", "custom-error", "backend-error", "several-scopes",
                         "string-scope", "no-scope", "partial-scopes", "mounted", "dispatch", "gone", "cancelled", "concurrent", "same-token",
                         "scopes-mutated", "custom-status", "denied-ws", "nested-guards", "route-middleware", "outer-auth", "list-reused")
SCOPES = ["a", "b", "c", "ab", "admin", ""]


class Rejected(AuthenticationError):
    pass


class User(BaseUser):
    def __init__(self, name):
        self.name = name

    is_authenticated = True

    @property
    def display_name(self):
        return self.name

    @property
    def identity(self):
        return "id-" + self.name


def scenario(sim):
    async def main():
        h = Harness(sim)
        await h.run()

    sim.run(main)


class Backend(AuthenticationBackend):
    def __init__(self, h):
        self.h = h

    async def authenticate(self, conn):
        h = self.h
        u = h.unit(conn)
        u.backend_calls += 1
        await adelay(draw_delay(h.sim))
        await h.sim.pause("backend")
        tok = conn.headers.get("authorization")
        if tok is None:
            return None
        kind, scopes = h.tokens[tok]
        if kind == "none":
            return None
        if kind == "reject":
            raise (Rejected if tok.endswith("1") else AuthenticationError)("rejected " + tok)
        if kind == "error":
            raise LookupError("backend " + tok)
        await adelay(draw_delay(h.sim))
        return AuthCredentials(scopes), (User if kind == "custom" else SimpleUser)(tok)


class OuterBackend(AuthenticationBackend):
    """Of another authentication middleware, around the one that counts: lets everyone in as somebody who may do everything."""

    def __init__(self, sim):
        self.sim = sim

    async def authenticate(self, conn):
        await adelay(draw_delay(self.sim))
        return AuthCredentials(SCOPES), SimpleUser("outer")


class Recorder:
    def __init__(self, app, h):
        self.app, self.h = app, h

    async def __call__(self, scope, receive, send):
        u = self.h.unit_of(scope)
        if u is not None:
            u.entered += 1
        await self.app(scope, receive, send)


class Harness:
    def __init__(self, sim):
        w = sim.w
        self.sim = sim
        self.units = {}
        self.tokens = {}
        for i in range(w.int(1, 4)):
            kind = w.weighted([("user", 6), ("custom", 1), ("none", 1), ("reject", 2), ("error", 1)])
            sc = w.sample(SCOPES, w.weighted([(1, 3), (0, 1), (2, 3), (3, 1)]))
            if w.chance(0.2):
                sc = tuple(sc)
            self.tokens[f"tok{i}"] = (kind, sc)
        self.perms = {t: list(s) for t, (k, s) in self.tokens.items()}
        n = w.weighted([(2, 3), (1, 2), (3, 3), (5, 1), (8, 1)])
        if n > 1:
            sim.probe("concurrent")
        for i in range(n):
            u = Unit(self, f"u{i}")
            self.units[u.name] = u
        toks = [u.tok for u in self.units.values() if u.tok]
        if len(set(toks)) < len(toks):
            sim.probe("same-token")

    def unit_of(self, scope):
        for k, v in scope.get("headers", ()):
            if k == b"x-unit":
                return self.units[v.decode()]
        return None

    def unit(self, conn):
        return self.unit_of(conn.scope)

    async def run(self):
        sim, w = self.sim, self.sim.w
        self.custom = w.chance(0.3)

        def on_error(conn, exc):
            u = self.unit(conn)
            if not isinstance(exc, AuthenticationError) or str(exc) != "rejected " + str(u.tok):
                sim.fail("on-error", f"on_error got {exc!r} for {u}")
            return JSONResponse({"error": str(exc)}, status_code=401, headers={"www-authenticate": "x"})

        auth = Middleware(AuthenticationMiddleware, backend=Backend(self), **({"on_error": on_error} if self.custom else {}))
        mws = [auth, Middleware(Recorder, h=self)]
        if w.chance(0.3):
            sim.probe("dispatch")
            mws.insert(w.pick([0, 1, 2]), Middleware(BaseHTTPMiddleware, dispatch=self.dispatch))
        if w.chance(0.2):
            mws.insert(w.pick([0, 1]), Middleware(Pure, sim=sim, d=0))
        if w.chance(0.1):
            mws.insert(0, Middleware(GZipMiddleware, minimum_size=100000))
        outer = []
        if w.chance(0.15):
            sim.probe("outer-auth")
            outer = [Middleware(AuthenticationMiddleware, backend=OuterBackend(sim))]
        routes = [u.route() for u in self.units.values()]
        routes.append(Route("/login", self.login, name="login"))
        self.prefix = ""
        where = w.weighted([("app", 4), ("mount", 1), ("mount-mw", 1)])
        if where == "app":
            app = make_app(sim, routes=routes, middleware=outer + mws)
        elif where == "mount":
            sim.probe("mounted")
            self.prefix = "/m"
            app = make_app(sim, routes=[Mount("/m", routes=routes), Route("/login", self.login, name="login")], middleware=outer + mws)
        else:
            sim.probe("route-middleware")
            self.prefix = "/m"
            app = make_app(sim, routes=[Mount("/m", routes=routes, middleware=mws), Route("/login", self.login, name="login")], middleware=outer)
        for u in self.units.values():
            u.setup(app)
        await gather(*(u.go() for u in self.units.values()))
        for u in self.units.values():
            u.judge()
        for t, (k, s) in self.tokens.items():
            if list(s) != self.perms[t]:
                sim.fail("permissions-changed", f"the backend's own list for {t} became {s}")

    async def dispatch(self, request, call_next):
        await adelay(draw_delay(self.sim))
        return await call_next(request)

    async def login(self, request):
        return PlainTextResponse("login")


class Unit:
    def __init__(self, h, name):
        sim = h.sim
        w, f = sim.w, sim.f
        self.h, self.sim, self.name = h, sim, name
        self.kind = w.pick(KINDS)
        sim.probe(self.kind)
        self.ws = self.kind.startswith("ws")
        self.tok = w.pick([*h.tokens, None])
        self.scopes = w.sample(SCOPES, w.weighted([(1, 4), (2, 3), (0, 1), (3, 1)]))
        if "open" in self.kind:
            self.scopes = []
        self.need = self.scopes
        if len(self.scopes) == 1 and w.chance(0.5):
            sim.probe("string-scope")
            self.need = self.scopes[0]
        elif len(self.scopes) > 1:
            sim.probe("several-scopes")
        elif not self.scopes:
            sim.probe("no-scope")
        self.status = w.pick([403, 403, 401, 404])
        if self.status != 403:
            sim.probe("custom-status")
        self.redirect = "login" if w.chance(0.3) and not self.ws else None
        self.second = w.pick(SCOPES) if w.chance(0.15) and self.kind in ("async", "sync") else None
        self.mutate = w.chance(0.15)
        self.ran = []
        self.entered = self.backend_calls = 0
        self.at = draw_delay(sim)
        self.cancel = draw_cancel(sim) if f.chance(0.06) else None
        self.gone = draw_gone(sim, 0.1)

    def __repr__(self):
        return (f"<{self.name} {self.kind} token={self.tok}:{self.h.tokens.get(self.tok)} needs {self.need} status={self.status} redirect={self.redirect} "
                f"second={self.second} ran={self.ran} entered={self.entered} backend={self.backend_calls}>")

    # -- the guarded code
    def see(self, conn):
        u = conn.user
        me = self.h.unit(conn)
        if me is not self:
            self.sim.fail("wrong-request", f"{self} runs with the request of {me}")
        self.ran.append((type(u).__name__, u.display_name, u.is_authenticated, tuple(conn.auth.scopes)))
        if self.mutate:
            self.sim.probe("scopes-mutated")
            conn.auth.scopes.append("admin")
            conn.auth.scopes.append("a")
            self.mutated = True

    mutated = False

    async def body(self, conn):
        self.see(conn)
        if not self.mutated:
            await adelay(draw_delay(self.sim))
            self.see(type(conn)(conn.scope, conn.receive, conn._send) if isinstance(conn, WebSocket) else Request(conn.scope))

    def sbody(self, request):
        self.see(request)
        if not self.mutated:
            self.sim.tpause("guarded", None)
            self.see(request)

    def route(self):
        unit, k = self, self.kind
        kw = {"status_code": self.status}
        if self.redirect:
            kw["redirect"] = self.redirect
        need = self.need
        if not isinstance(need, str) and self.sim.w.chance(0.3):
            # what was required when the guard was made counts
            self.sim.probe("list-reused")
            need = list(need)
        guard = requires(need, **kw)
        if need is not self.need:
            need[:] = self.sim.w.pick([[], ["nobody"]])
        path = "/" + self.name
        ok = "ok " + self.name
        if k == "async":
            @guard
            async def ep(request):
                await unit.body(request)
                return PlainTextResponse(ok)
        elif k == "sync":
            @guard
            def ep(request):
                unit.sbody(request)
                return PlainTextResponse(ok)
        elif k == "class-async":
            class ep(HTTPEndpoint):
                @guard
                async def get(self, request):
                    await unit.body(request)
                    return PlainTextResponse(ok)
        elif k == "class-sync":
            class ep(HTTPEndpoint):
                @guard
                def get(self, request):
                    unit.sbody(request)
                    return PlainTextResponse(ok)
        elif k == "method":
            class C:
                @guard
                async def get(self, request):
                    await unit.body(request)
                    return PlainTextResponse(ok)
            ep = C().get
        elif k in ("helper", "helper-kw"):
            @guard
            async def helper(x, y, request, z=3):
                if (x, y, z) != (1, 2, 4):
                    unit.sim.fail("arguments", f"{unit}: {x, y, z}")
                await unit.body(request)
                return PlainTextResponse(ok)

            async def ep(request):
                if k == "helper":
                    return await helper(1, 2, request, 4)
                return await helper(1, z=4, request=request, y=2)
        elif k == "sync-second":
            @guard
            def helper(x, request):
                unit.sbody(request)
                return PlainTextResponse(ok)

            def ep(request):
                return helper(1, request)
        elif k == "open":
            async def ep(request):
                await unit.body(request)
                return PlainTextResponse(ok)
        elif k == "ws-open":
            async def ep(websocket):
                await websocket.accept()
                await unit.body(websocket)
                await websocket.close(3000)
        elif k == "ws":
            @guard
            async def ep(websocket):
                await websocket.accept()
                await unit.body(websocket)
                await websocket.close(3000)
        elif k == "ws-second":
            @guard
            async def helper(x, websocket):
                await websocket.accept()
                await unit.body(websocket)
                await websocket.close(3000)

            async def ep(ws):
                await helper(1, ws)
        else:
            class ep(WebSocketEndpoint):
                @guard
                async def on_connect(self, websocket):
                    await websocket.accept()
                    await unit.body(websocket)
                    await websocket.close(3000)
        if self.second is not None:
            self.sim.probe("nested-guards")
            ep = requires(self.second, **kw)(ep)
        return WebSocketRoute(path, ep) if self.ws else Route(path, ep)

    # -- running and judging
    def setup(self, app):
        h, w = self.h, self.sim.w
        headers = [(b"x-unit", self.name.encode())]
        if self.tok:
            headers.append((b"authorization", self.tok.encode()))
        path = f"{h.prefix}/{self.name}"
        if self.ws:
            self.ex = WebSock(self.sim, app, self.name, path=path, headers=headers, script=[(0.5, ("close", 1001, None))], wait_accept=False)
        else:
            self.query = w.pick([b"", b"a=1&b=%20x"])
            self.ex = Http(self.sim, app, self.name, path=path, headers=headers, query=self.query, gone=self.gone, spec=w.pick(["2.3", "2.4"]))

    async def go(self):
        await adelay(self.at)
        await self.ex.call(cancel=self.cancel)

    def judge(self):
        sim, ex, h = self.sim, self.ex, self.h
        where = f"{self}: {ex.summary()}"
        fail = lambda code: sim.fail(code, where)  # noqa: E731
        check_grammar(sim, ex)
        if ex.hung:
            return fail("hang")
        kind, held = h.tokens[self.tok] if self.tok else ("none", ())
        held = list(held) if kind in ("user", "custom") else []
        need = self.scopes + ([self.second] if self.second is not None else [])
        allowed = all(s in held for s in need)
        rejected = kind in ("reject", "error")
        if kind == "none":
            sim.probe("anonymous")
        who = {"user": ("SimpleUser", self.tok, True), "custom": ("User", self.tok, True)}.get(kind, ("UnauthenticatedUser", "", False))
        for r in self.ran:
            if rejected or not allowed:
                return fail("ran-without-permission")
            if r != (*who, tuple(held)):
                return fail("wrong-identity")
        if rejected and self.entered:
            return fail("invoked-although-rejected")
        if self.backend_calls > 1:
            return fail("authenticated-twice")
        if ex.cancelled:
            return sim.probe("cancelled")
        if ex.gone and not (self.ws and ex.sent):
            return sim.probe("gone")
        if self.backend_calls != 1:
            return fail("not-authenticated")
        if kind == "error":
            sim.probe("backend-error")
            if not isinstance(ex.exc, LookupError) or str(ex.exc.args[0]) != "backend " + self.tok:
                return fail("backend-error")
            return
        if ex.exc is not None:
            if self.ws and ex.gone:
                return
            return fail("error")
        types = [m["type"] for m in ex.sent]
        if kind == "reject":
            if self.ws:
                sim.probe("rejected-ws")
                if types != ["websocket.close"]:
                    return fail("not-rejected")
                return
            sim.probe("rejected")
            if h.custom:
                sim.probe("custom-error")
                ok = ex.status == 401 and ex.body == b'{"error":"rejected %s"}' % self.tok.encode() and ex.header(b"www-authenticate") == b"x"
            else:
                ok = ex.status == 400 and ex.body == b"rejected " + self.tok.encode()
            if not ok or not ex.full:
                return fail("not-rejected")
            return
        if self.entered != 1:
            return fail("entered")
        if allowed:
            sim.probe("allowed")
            if len(self.ran) != (1 if self.mutate else 2):
                return fail("did-not-run")
            if self.ws:
                if not ex.gone and (types != ["websocket.accept", "websocket.close"] or ex.sent[1]["code"] != 3000):
                    return fail("websocket")
                return
            if ex.status != 200 or ex.body != b"ok " + self.name.encode() or not ex.full:
                return fail("response")
            return
        sim.probe("denied")
        if any(s in held for s in need):
            sim.probe("partial-scopes")
        if self.ws:
            sim.probe("denied-ws")
            if types != ["websocket.close"]:
                return fail("not-denied")
            return
        if self.redirect:
            sim.probe("redirected")
            loc = urlsplit((ex.header(b"location") or b"").decode())
            url = f"http://testserver{h.prefix}/{self.name}" + ("?" + self.query.decode() if self.query else "")
            if ex.status != 303 or loc.path not in ("/login", h.prefix + "/login") or loc.netloc != "testserver" or parse_qs(loc.query).get("next") != [url]:
                return fail("redirect")
        elif ex.status != self.status or not ex.full:
            return fail("not-denied")
