"""C21: concurrent requests do not affect one another (differential: the same requests alone and together)."""
from __future__ import annotations

import base64
import contextvars
import functools
import json
import re
import warnings
import zlib

import itsdangerous
import jinja2

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, AuthenticationError, SimpleUser, requires
from starlette.background import BackgroundTask
from starlette.datastructures import URL
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.requests import Request
from starlette.responses import JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse
from starlette.routing import Host, Mount, Route, WebSocketRoute
from starlette.templating import Jinja2Templates
from starlette.websockets import WebSocket

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from starlette.middleware.wsgi import WSGIMiddleware

from sim.server import draw_cancel

from .apps import make_app, draw_delay
from .common import Http, WebSock, adelay, check_grammar, gather, split_chunks

RUNS = 7000
KINDS = ["echo", "sync", "class", "stream", "gen", "form", "json", "template", "shared", "raw-shared", "wsgi", "error", "handled", "http-error", "redirect",
         "not-found", "bad-method", "slash", "host", "guarded", "ws", "ws-class", "bg", "preflight", "head", "bad-host", "shared-redirect",
         "no-match-convertor"]
MWS = ["dispatch", "dispatch", "gzip", "session", "cors", "auth", "pure", "trusted"]
PROBES = tuple(KINDS) + tuple(set(MWS)) + ("noise-gone", "noise-cancelled", "compared", "no-middleware", "many", "same-path", "auth-error", "same-session", "writes", "common-context")

var = contextvars.ContextVar("var", default=None)


class AppErr(Exception):
    pass


class Handled(Exception):
    pass


def scenario(sim):
    async def main():
        h = Harness(sim)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            await h.run()

    sim.run(main)


class Pure:
    """A plain ASGI middleware that puts the request's token in the state and delays messages."""

    def __init__(self, app, sim):
        self.app, self.sim = app, sim

    async def __call__(self, scope, receive, send):
        if scope["type"] == "lifespan":
            return await self.app(scope, receive, send)
        scope.setdefault("state", {})["pure"] = token(scope)

        async def send2(m):
            await self.sim.pause("pure")
            if m["type"] == "http.response.start":
                m = {**m, "headers": [*m.get("headers", []), (b"x-pure", token(scope).encode())]}
            await send(m)

        async def receive2():
            m = await receive()
            await self.sim.pause("pure-recv")
            return m

        await self.app(scope, receive2, send2)


def token(scope):
    for k, v in scope["headers"]:
        if k == b"x-tok":
            return v.decode()
    return "?"


class Backend(AuthenticationBackend):
    def __init__(self, sim):
        self.sim = sim

    async def authenticate(self, conn):
        a = conn.headers.get("authorization")
        await adelay(draw_delay(self.sim))
        if a is None:
            return None
        if a == "bad":
            raise AuthenticationError(f"bad {token(conn.scope)}")
        return AuthCredentials(["scope-" + token(conn.scope), "any"]), SimpleUser(a)


class Harness:
    def __init__(self, sim):
        w = sim.w
        self.sim = sim
        self.mws = [w.pick(MWS) for _ in range(w.weighted([(2, 3), (0, 1), (1, 2), (3, 2), (5, 1)]))]
        for k in ("gzip", "session", "auth", "cors"):
            while self.mws.count(k) > 1:
                self.mws.remove(k)
        for k in self.mws:
            sim.probe(k)
        if not self.mws:
            sim.probe("no-middleware")
        self.dis_at = [w.int(0, 2) for _ in self.mws]
        n = w.weighted([(3, 3), (2, 2), (5, 2), (8, 1)])
        if n > 5:
            sim.probe("many")
        self.specs = []
        self.cookies = []
        if "session" in self.mws:
            for i in range(w.weighted([(1, 2), (0, 1), (2, 1)])):
                data = {"n": i, "list": [1], "deep": {"a": {}}}
                self.cookies.append(itsdangerous.TimestampSigner("k").sign(base64.b64encode(json.dumps(data).encode())))
        pool = w.sample(KINDS, w.weighted([(3, 3), (1, 1), (2, 2), (6, 1)]))
        if len(pool) == 1:
            sim.probe("same-path")
        for i in range(n):
            self.specs.append(Spec(self, f"t{i}", w.pick(pool)))
        self.prefix = w.pick(["", "", "/mnt"])
        self.writes = w.chance(0.4)
        if self.writes:
            sim.probe("writes")
        self.debug = False
        self.seen = {}
        self.bg = {}

    async def run(self):
        sim, w = self.sim, self.sim.w
        # each request alone, on an application of its own
        self.build_seed = w.int(0, 3)
        ref = {}
        for sp in self.specs:
            app = self.build()
            ref[sp.tok] = await self.one(app, sp, False)
            if sim.failures:
                return
        # all of them together, with others that fail
        app = self.build()
        got = {}

        async def go(sp):
            await adelay(sp.at)
            got[sp.tok] = await self.one(app, sp, True)

        await gather(*(go(sp) for sp in self.specs))
        for sp in self.specs:
            r, g = ref[sp.tok], got[sp.tok]
            if sp.noise:
                # what an aborted request saw must still be its own
                for a, b in zip(r["seen"], g["seen"]):
                    if a != b:
                        return sim.fail("foreign-data", f"{sp}: alone {a}, together {b}")
                continue
            sim.probe("compared")
            for k in r:
                if r[k] != g[k]:
                    return sim.fail("differs", f"{sp} mws={self.mws} {k}: alone {r[k]!r}, together {g[k]!r}")

    async def one(self, app, sp, together):
        sim = self.sim
        self.seen[sp.tok] = []
        self.bg[sp.tok] = []
        noisy = together and sp.noise
        if sp.ws:
            ex = WebSock(sim, app, sp.tok, path=self.prefix + sp.path, query=sp.query, headers=sp.headers, script=sp.script, subprotocols=[sp.tok],
                         state={"server": sp.tok} if sp.state else None)
        else:
            ex = Http(sim, app, sp.tok, method=sp.method, path=self.prefix + sp.path, query=sp.query, headers=sp.headers, chunks=sp.chunks,
                      spec=sp.spec, gone=sp.gone if noisy else None, host=sp.host, client=("1.2.3.4", sp.port), state={"server": sp.tok} if sp.state else None)
        await ex.call(cancel=sp.cancel if noisy else None)
        if noisy:
            sim.probe("noise-cancelled" if ex.cancelled else "noise-gone")
        if not sp.ws:
            check_grammar(sim, ex)
        if ex.hung:
            sim.fail("hang", f"{sp}: {ex.summary()}")
        out = {"seen": self.seen[sp.tok], "exc": repr(ex.exc), "bg": self.bg[sp.tok]}
        if sp.ws:
            out["messages"] = ex.sent
            out["given"] = ex.given
        else:
            out["status"] = ex.status
            out["headers"] = [(k, norm(k, v)) for k, v in ex.rheaders]
            b = ex.body
            if (b"content-encoding", b"gzip") in ex.rheaders and b:
                try:
                    b = zlib.decompress(b, 31)
                except zlib.error:
                    b = b"broken"
                out["headers"] = [(k, v) for k, v in out["headers"] if k != b"content-length"]
            out["body"] = b
            out["full"] = ex.full
        return out

    # -- the application
    def observe(self, conn, body=None, again=True):
        """Everything a handler can see of its request."""
        s = conn.scope
        d = {
            "path": s["path"], "root": s.get("root_path"), "params": {k: repr(v) for k, v in conn.path_params.items()},
            "query": conn.query_params.multi_items(), "headers": [(k.decode(), v.decode("latin-1")) for k, v in conn.headers.raw],
            "cookies": dict(conn.cookies), "url": str(conn.url), "base": str(conn.base_url), "client": list(conn.client),
            "state": {k: v for k, v in conn.state._state.items()}, "var": var.get(),
            "user": s["user"].display_name if "user" in s else None, "scopes": s["auth"].scopes if "auth" in s else None,
            "session": dict(s["session"]) if "session" in s else None,
            "for": str(conn.url_for("echo", n=7, p="x/y")) if "router" in s else None,
        }
        if s["type"] == "http":
            d["method"] = conn.method
        if body is not None:
            d["body"] = body
        d = json.loads(json.dumps(d))
        self.seen.setdefault(token(s), []).append(d)
        return d

    async def work(self, request, read="body"):
        sim = self.sim
        tok = token(request.scope)
        self.observe(request)
        request.state.mine = tok
        if self.writes:
            # what it was given is its own to change
            request.cookies["mine"] = tok
            request.path_params["mine"] = tok
            if "auth" in request.scope:
                request.auth.scopes.append(tok)
            if "state" in request.scope:
                request.state.list = getattr(request.state, "list", None) or []
                request.state.list.append(tok)
        if "session" in request.scope:
            request.session["who"] = tok
            if "list" in request.session:
                request.session["list"].append(tok)
                request.session["deep"]["a"][tok] = 1
        body = None
        if read == "body":
            body = (await request.body()).decode("latin-1")
        elif read == "json":
            body = await request.json()
            if self.writes and isinstance(body, dict):
                body["mine"] = tok
        elif read == "form":
            form = await request.form()
            body = [(k, v if isinstance(v, str) else [v.filename, (await v.read()).decode("latin-1")]) for k, v in form.multi_items()]
            await form.close()
        await adelay(draw_delay(sim))
        await sim.pause("work")
        return self.observe(Request(request.scope), body)

    def build(self):
        sim = self.sim
        env = jinja2.Environment(loader=jinja2.DictLoader({"t.html": "{{ request.url }} {{ tok }} {{ request.state.mine }} {{ extra }}"}))
        templates = Jinja2Templates(env=env, context_processors=[lambda request: {"extra": token(request.scope)}])

        async def echo(request):
            return JSONResponse(await self.work(request), headers={"x-own": token(request.scope)})

        def sync(request):
            sim.tpause("sync", None)
            d = self.observe(request)
            sim.tpause("sync", 0.002)
            d = self.observe(Request(request.scope))
            r = JSONResponse(d)
            r.set_cookie("own", token(request.scope))
            return r

        class Cls(HTTPEndpoint):
            async def get(s, request):
                s.tok = token(request.scope)
                d = await self.work(request)
                await adelay(draw_delay(sim))
                return JSONResponse([d, s.tok, token(s.scope)])
            post = get

        async def stream(request):
            await self.work(request)
            tok = token(request.scope)

            async def it():
                for i in range(4):
                    await adelay(draw_delay(sim))
                    yield f"{tok}.{i}.{var.get()};" * 9
            return StreamingResponse(it(), headers={"x-own": tok})

        async def gen(request):
            d = await self.work(request)
            tok = token(request.scope)

            def it():
                for i in range(3):
                    sim.tpause("gen", None)
                    yield f"{tok}.{i}.{var.get()};"
                yield json.dumps(d)
            return StreamingResponse(it())

        async def form(request):
            return JSONResponse(await self.work(request, "form"))

        async def jsn(request):
            return JSONResponse(await self.work(request, "json"))

        common = {"tok": "common"}  # one object for many requests

        async def template(request):
            await self.work(request)
            if sum(map(ord, token(request.scope))) % 3 == 0:
                sim.probe("common-context")
                return templates.TemplateResponse(request, "t.html", common)
            return templates.TemplateResponse(request, "t.html", {"tok": token(request.scope)}, headers={"x-own": token(request.scope)})

        shared_r = PlainTextResponse("shared", headers={"x-shared": "1"})

        async def shared(request):
            await self.work(request)
            return shared_r

        shared_redirect_r = RedirectResponse("/there")

        start = {"type": "http.response.start", "status": 200, "headers": [(b"x-c", b"1"), (b"content-type", b"text/plain")]}
        bodym = {"type": "http.response.body", "body": b"raw" * 300}

        class Raw:
            async def __call__(s, scope, receive, send):
                await self.work(Request(scope, receive))
                await send(start)
                await sim.pause("raw")
                await send(bodym)

        def wsgi(environ, start_response):
            sim.tpause("wsgi", 0.001)
            keep = {k: v for k, v in environ.items() if isinstance(v, (str, int))}
            b = environ["wsgi.input"].read().decode("latin-1")
            start_response("200 OK", [("x-own", environ.get("HTTP_X_TOK", "?"))])
            sim.tpause("wsgi", None)
            return [json.dumps(keep).encode(), b.encode(), str(var.get()).encode()]

        async def error(request):
            await self.work(request)
            raise AppErr(token(request.scope))

        async def handled(request):
            await self.work(request)
            raise Handled(token(request.scope))

        async def on_handled(request, exc):
            await adelay(draw_delay(sim))
            return JSONResponse([str(exc), self.observe(Request(request.scope))], status_code=460)

        def on_404(request, exc):
            sim.tpause("404", 0.001)
            return JSONResponse([str(exc), self.observe(request)], status_code=404)

        async def http_error(request):
            await self.work(request)
            raise HTTPException(409, token(request.scope), headers={"x-own": token(request.scope)})

        async def redirect(request):
            await self.work(request)
            return RedirectResponse(request.url_for("echo", n=1, p=token(request.scope)))

        async def on_500(request, exc):
            await adelay(draw_delay(sim))
            return PlainTextResponse(f"500 {exc} {token(request.scope)} {var.get()}", status_code=500)

        @requires("any", status_code=401)
        async def guarded(request):
            return JSONResponse(await self.work(request))

        async def bg(request):
            d = await self.work(request)
            tok = token(request.scope)

            async def task(t):
                await adelay(draw_delay(sim))
                self.bg[tok].append([t, var.get(), self.observe(Request(request.scope))])
            return JSONResponse(d, background=BackgroundTask(task, tok))

        async def ws(ws: WebSocket):
            tok = token(ws.scope)
            self.observe(ws)
            await ws.accept(subprotocol=ws.scope["subprotocols"][0], headers=[(b"x-own", tok.encode())])
            ws.state.mine = tok
            n = 0
            async for t in ws.iter_text():
                await adelay(draw_delay(sim))
                n += 1
                await ws.send_json([t, n, self.observe(ws)])
                if n == 2:
                    break
            await ws.close(3000, tok)

        class Ws(WebSocketEndpoint):
            encoding = "text"

            async def on_connect(s, ws):
                s.n = 0
                s.tok = token(ws.scope)
                await ws.accept()

            async def on_receive(s, ws, data):
                s.n += 1
                await adelay(draw_delay(sim))
                await ws.send_json([s.tok, data, s.n, self.observe(ws)])
                if s.n == 2:
                    await ws.close(3001, s.tok)

            async def on_disconnect(s, ws, code):
                self.seen[token(ws.scope)].append([s.tok, s.n, code])

        routes = [
            Route("/echo/{n:int}/{p:path}", echo, name="echo", methods=["GET", "POST"]), Route("/sync/{n:float}", sync), Route("/class/{x}", Cls),
            Route("/stream/{x}", stream), Route("/gen/{x}", gen), Route("/form/{x}", form, methods=["POST"]), Route("/json", jsn, methods=["POST"]),
            Route("/template/{x}", template), Route("/shared", shared), Route("/raw-shared", Raw()), Route("/error/{x}", error),
            Mount("/wsgi", app=WSGIMiddleware(wsgi)), Route("/shared-redirect", shared_redirect_r),
            Route("/handled/{x}", handled), Route("/http-error/{x}", http_error), Route("/redirect/{x}", redirect), Route("/slash/{x}/", echo),
            Route("/guarded/{x}", guarded if "auth" in self.mws else echo), Route("/bg/{x}", bg), WebSocketRoute("/ws/{x}", ws), WebSocketRoute("/ws-class/{x}", Ws),
            Host("{sub}.example.org", app=Starlette(routes=[Route("/host/{x}", echo), Route("/echo/{n:int}/{p:path}", echo, name="echo")]), name="sub"),
        ]
        if self.prefix:
            routes = [Mount("/mnt", routes=routes), Route("/echo/{n:int}/{p:path}", echo, name="echo")]
        mws = []
        for k, at in zip(self.mws, self.dis_at):
            mws.append({
                "dispatch": lambda: Middleware(BaseHTTPMiddleware, dispatch=self.dispatch(at)),
                "gzip": lambda: Middleware(GZipMiddleware, minimum_size=at * 20),
                "session": lambda: Middleware(SessionMiddleware, secret_key="k"),
                "cors": lambda: Middleware(CORSMiddleware, allow_origins=[["*"], ["http://t0", "http://t1"], ["*"]][at], allow_credentials=at > 0, allow_headers=["*"] if at == 2 else ["x-a"],
                                           allow_origin_regex="http://t[2-4]" if at == 1 else None),
                "auth": lambda: Middleware(AuthenticationMiddleware, backend=Backend(sim)),
                "pure": lambda: Middleware(Pure, sim=sim),
                "trusted": lambda: Middleware(TrustedHostMiddleware, allowed_hosts=["testserver", "*.example.org", "good.org"]),
            }[k]())
        app = make_app(sim, routes=routes, middleware=mws, exception_handlers={Handled: on_handled, 404: on_404, 500: on_500})

        async def outer(scope, receive, send):
            var.set(token(scope))
            await app(scope, receive, send)
        return outer

    def dispatch(self, at):
        sim = self.sim

        async def dispatch(request, call_next):
            tok = token(request.scope)
            if at == 0:
                await adelay(draw_delay(sim))
            request.state.dispatch = tok
            resp = await call_next(request)
            if at == 1:
                await adelay(draw_delay(sim))
            resp.headers["x-dispatch"] = tok
            if at == 2 and resp.status_code == 409:
                return PlainTextResponse("replaced " + tok)
            return resp
        return dispatch


class Spec:
    def __init__(self, h, tok, kind):
        sim = h.sim
        w, f, s = sim.w, sim.f, sim.s
        self.tok, self.kind = tok, kind
        sim.probe(kind)
        self.ws = kind.startswith("ws") and kind != "wsgi"
        self.at = s.weighted([(0, 4), (0.001, 2), (0.004, 1), (0.05, 1)])
        x = tok + w.pick(["", "é", "%41", " "])
        n = w.int(0, 999)
        self.method = "POST" if kind in ("form", "json") or kind in ("echo", "class", "wsgi") and w.chance(0.5) else "GET"
        self.path = {"echo": f"/echo/{n}/{x}/q", "sync": f"/sync/{n}.5", "json": "/json", "shared": "/shared", "raw-shared": "/raw-shared", "wsgi": f"/wsgi/{x}",
                     "not-found": f"/nowhere/{x}", "bad-method": f"/echo/{n}/{x}", "slash": f"/slash/{x}", "preflight": f"/echo/{n}/{x}",
                     "head": f"/echo/{n}/{x}", "bad-host": f"/echo/{n}/{x}", "shared-redirect": "/shared-redirect",
                     "no-match-convertor": f"/echo/{x}/q"}.get(kind, f"/{kind}/{x}")
        if kind == "bad-method":
            self.method = "DELETE"
        if kind == "preflight":
            self.method = "OPTIONS"
        if kind == "head":
            self.method = "HEAD"
        self.query = f"tok={tok}&a=%20{n}&a=2".encode() if w.chance(0.7) else b""
        self.host = b"testserver" if kind not in ("host", "bad-host") else b"sub-%s.example.org" % tok.encode() if kind == "host" else \
            w.pick([b"evil.org", b"good.org", b"good.org:81"])
        self.port = 1000 + n
        self.state = w.chance(0.5)
        self.headers = [(b"host", self.host), (b"x-tok", tok.encode())]
        if w.chance(0.5):
            self.headers.append((b"authorization", w.pick([b"user-" + tok.encode(), b"user-" + tok.encode(), b"bad"])))
            if self.headers[-1][1] == b"bad" and "auth" in h.mws:
                sim.probe("auth-error")
        if w.chance(0.4):
            self.headers.append((b"accept-encoding", b"gzip"))
        if w.chance(0.5) or kind == "preflight":
            self.headers.append((b"origin", b"http://" + tok.encode()))
            if kind == "preflight":
                self.headers.append((b"access-control-request-method", b"GET"))
                if w.chance(0.5):
                    self.headers.append((b"access-control-request-headers", w.pick([b"x-a", b"x-b", tok.encode()])))
        cookie = [b"mine=" + tok.encode() + w.pick([b"", b"; other=1"])] if w.chance(0.4) else []
        if h.cookies and w.chance(0.6):
            # several requests of the same session
            sim.probe("same-session")
            cookie.append(b"session=" + w.pick(h.cookies))
        if cookie:
            self.headers.append((b"cookie", b"; ".join(cookie)))
        body = b""
        if self.method == "POST":
            body = (tok * w.int(1, 9)).encode()
            if kind == "json":
                body = json.dumps({"tok": tok, "n": n}).encode()
            if kind == "form":
                if w.chance(0.5):
                    self.headers.append((b"content-type", b"application/x-www-form-urlencoded"))
                    body = f"a={tok}&b={n}&a=x".encode()
                else:
                    self.headers.append((b"content-type", b"multipart/form-data; boundary=" + tok.encode()))
                    body = (f"--{tok}\r\ncontent-disposition: form-data; name=\"a\"\r\n\r\n{tok}\r\n--{tok}\r\ncontent-disposition: form-data; "
                            f"name=\"f\"; filename=\"{tok}.txt\"\r\n\r\n{tok * 9}\r\n--{tok}--\r\n").encode()
        self.chunks = split_chunks(sim, body)
        self.spec = w.pick(["2.0", "2.3", "2.4"])
        self.script = [(draw_delay(sim), ("text", f"{tok}-{i}")) for i in range(2)]
        self.noise = not self.ws and f.chance(0.25)
        self.gone = self.cancel = None
        if self.noise:
            if f.chance(0.4):
                self.cancel = draw_cancel(sim)
            else:
                self.gone = f.pick([("time", 0.0), ("time", 0.001), ("time", 0.003), ("sends", 0), ("sends", 1), ("sends", 2), ("chunk", 1)])

    def __repr__(self):
        return f"<{self.tok} {self.kind} {self.method} {self.path} {self.headers[2:]} noise={self.noise}>"


def norm(k, v):
    """Sessions carry the time at which they were signed; the allowed methods are a set."""
    if k == b"allow":
        return b", ".join(sorted(v.split(b", ")))
    return re.sub(rb"^session=([^.;]*)\.[^;]*", rb"session=\1", v)
