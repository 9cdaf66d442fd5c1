"""C20: sessions survive round trips, expire on time and cannot be forged."""
from __future__ import annotations

import base64
import copy
import json

import itsdangerous

from starlette.datastructures import Secret
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.requests import Request
from starlette.responses import PlainTextResponse, Response, StreamingResponse
from starlette.routing import Mount, Route, WebSocketRoute
from starlette.websockets import WebSocket

from sim.server import draw_cancel

from .apps import make_app, draw_delay
from .common import Http, WebSock, adelay, check_grammar, draw_gone, gather

RUNS = 12000
PROBES = ("set", "change", "clear", "pop", "nested", "read", "expired", "at-max-age", "future", "no-max-age", "altered", "foreign-key", "swapped",
          "garbage", "null-cookie", "deleted-at-client", "reissued", "no-cookie", "several-clients", "same-client-concurrent", "old-cookie",
          "clock-forward", "clock-back", "handled-error", "unhandled-error", "streaming", "shared-response", "raw-shared", "websocket",
          "dispatch", "mounted", "gone", "cancelled", "https-only", "domain", "other-cookies", "untouched", "cookie-name", "signature-encoding", "status")


def scenario(sim):
    async def main():
        h = Harness(sim)
        await h.run()

    sim.run(main)


class Outer:
    """Notes the instant at which the session middleware reads the cookie."""

    def __init__(self, app, h):
        self.app, self.h = app, h

    async def __call__(self, scope, receive, send):
        r = self.h.req(scope)
        if r is not None:
            r.read_at = self.h.sim.wall()
            r.expected = self.h.expected(r)
        await self.app(scope, receive, send)


class Inner:
    """Notes the session at the instant at which the session middleware sees the start of the response."""

    def __init__(self, app, h):
        self.app, self.h = app, h

    async def __call__(self, scope, receive, send):
        r = self.h.req(scope)

        async def send2(m):
            if m["type"] == "http.response.start":
                r.final = copy.deepcopy(scope["session"])
                r.signed_at = int(self.h.sim.wall())
            await send(m)

        if r is not None:
            r.entered = True
            r.check_initial(scope["session"])
        await self.app(scope, receive, send2 if scope["type"] == "http" else send)


class Harness:
    def __init__(self, sim):
        w = sim.w
        self.sim = sim
        self.cookie = w.weighted([("session", 3), ("sid", 1), ("a.b", 1)])
        if self.cookie != "session":
            sim.probe("cookie-name")
        self.key = "k" + w.token()
        self.max_age = w.weighted([(14 * 24 * 3600, 2), (1, 1), (10, 3), (60, 2), (None, 1), (0, 1)])
        if self.max_age is None:
            sim.probe("no-max-age")
        self.cfg = {}
        if w.chance(0.3):
            self.cfg["path"] = w.pick(["/", "/sub", "/sub/x"])
        if w.chance(0.2):
            self.cfg["domain"] = ".testserver"
            sim.probe("domain")
        if w.chance(0.2):
            self.cfg["https_only"] = True
            sim.probe("https-only")
        if w.chance(0.3):
            self.cfg["same_site"] = w.pick(["strict", "none"])
        self.issued = {}  # cookie value -> (data, whole second of signing)
        self.reqs = {}
        self.uniq = 0
        n = w.weighted([(1, 2), (2, 3), (3, 2), (4, 1)])
        if n > 1:
            sim.probe("several-clients")
        self.clients = [Client(self, i) for i in range(n)]
        self.shared = PlainTextResponse("shared")
        self.start = {"type": "http.response.start", "status": 200, "headers": [(b"x-const", b"1")]}
        self.bodym = {"type": "http.response.body", "body": b"raw"}

    def req(self, scope):
        for k, v in scope.get("headers", ()):
            if k == b"x-req":
                return self.reqs[v.decode()]
        return None

    def expected(self, r):
        """The sessions that a request with this cookie may see at its start."""
        if r.cookie_state == "none":
            return [{}]
        e = self.issued.get(r.value)
        if e is None and r.alter == "signature":
            # a signature can be written in several ways (unused bits of base64); it is still the same signature
            e = self.issued.get(r.base)
            if e is None:
                return [{}]
            self.sim.probe("signature-encoding")
            return [{}, e[0]] if self.fresh(e[1]) else [{}]
        if e is None:
            return [{}]
        if not self.fresh(e[1]):
            return [{}]
        return [e[0]]

    def fresh(self, ts):
        age = int(self.sim.wall()) - ts
        if self.max_age is None:
            return True
        if age > self.max_age:
            self.sim.probe("expired")
            return False
        if age == self.max_age:
            self.sim.probe("at-max-age")
        if age < 0:
            self.sim.probe("future")
            return False
        return True

    async def run(self):
        sim, w = self.sim, self.sim.w
        key = Secret(self.key) if w.chance(0.3) else self.key
        mws = [Middleware(Outer, h=self), Middleware(SessionMiddleware, secret_key=key, session_cookie=self.cookie, max_age=self.max_age, **self.cfg),
               Middleware(Inner, h=self)]
        if w.chance(0.3):
            mws.append(Middleware(BaseHTTPMiddleware, dispatch=self.dispatch))
            self.has_dispatch = True
        if w.chance(0.2):
            mws.insert(0, Middleware(GZipMiddleware, minimum_size=0))
        if w.chance(0.2):
            async def plain(request, call_next):
                return await call_next(request)
            mws.insert(w.int(0, 1), Middleware(BaseHTTPMiddleware, dispatch=plain))

        class Raw:
            async def __call__(s, scope, receive, send):
                await self.raw(Request(scope, receive), send)

        routes = [Route("/e", self.endpoint), Route("/raw", Raw()), WebSocketRoute("/ws", self.ws)]
        self.prefix = ""
        if w.chance(0.3) or self.cfg.get("path", "/") != "/":
            sim.probe("mounted")
            self.prefix = "/sub/x"
            routes = [Mount("/sub/x", routes=routes)]
        app = self.app = make_app(sim, routes=routes, middleware=mws)
        self.apps = [app]
        if w.chance(0.2):
            # a second process with the same configuration
            self.apps.append(make_app(sim, routes=routes, middleware=mws))
        await gather(*(c.run() for c in self.clients), self.clock())

    has_dispatch = False

    async def clock(self):
        sim, f = self.sim, self.sim.f
        for _ in range(f.weighted([(0, 2), (1, 2), (3, 2), (6, 1)])):
            await adelay(f.pick([0.001, 0.01, 0.1, 0.6]))
            ma = self.max_age or 10
            d = f.pick([1, 1, ma - 1, ma, ma + 1, -1, -5, ma / 2, 0.5, 100 * ma])
            sim.skew += d
            sim.fault("clock-jump")
            sim.probe("clock-forward" if d > 0 else "clock-back")
            sim.log("clock", "jump", d)

    # -- the application
    async def dispatch(self, request, call_next):
        r = self.req(request.scope)
        if "dispatch-before" in r.plan:
            await self.change(request.session, r)
        resp = await call_next(request)
        if "dispatch-after" in r.plan:
            self.sim.probe("dispatch")
            await self.sim.pause("dispatch")
            await self.change(request.session, r)
        return resp

    async def change(self, session, r):
        w, sim = self.sim.w, self.sim
        self.uniq += 1
        v = f"{r.client.name}.{self.uniq}"
        k = w.weighted([("set", 5), ("change", 2), ("clear", 1), ("pop", 1), ("nested", 2), ("read", 1), ("setdefault", 1)])
        sim.probe(k if k != "setdefault" else "set")
        if k == "set":
            session["k%d" % w.int(0, 4)] = w.pick([v, [v, 1, None], {"v": v, "f": 1.5, "b": True}, v + w.text(4), v * 50])
        elif k == "change":
            for x in list(session):
                session[x] = v
        elif k == "clear":
            session.clear()
        elif k == "pop" and session:
            session.pop(next(iter(session)))
        elif k == "nested":
            session.setdefault("n", {}) if not isinstance(session.get("n"), dict) else None
            if isinstance(session.get("n"), dict):
                session["n"][v] = v
        elif k == "setdefault":
            session.setdefault("c", []) if not isinstance(session.get("c"), list) else session["c"].append(v)
        await sim.pause("change")

    async def endpoint(self, request):
        r = self.req(request.scope)
        r.check_initial(request.session, loose="dispatch-before" in r.plan)
        await adelay(draw_delay(self.sim))
        for _ in range(r.changes):
            await self.change(request.session, r)
        if not r.changes:
            self.sim.probe("untouched")
        kind = r.kind
        if kind == "plain":
            return PlainTextResponse("ok", status_code=r.status)
        if kind == "shared":
            self.sim.probe("shared-response")
            return self.shared
        if kind == "http-error":
            self.sim.probe("handled-error")
            raise HTTPException(r.status)
        if kind == "error":
            self.sim.probe("unhandled-error")
            raise LookupError("boom")
        if kind == "set-cookie":
            resp = Response("x", status_code=r.status)
            resp.set_cookie("other", "1")
            return resp
        self.sim.probe("streaming")

        async def body():
            yield b"a"
            await adelay(draw_delay(self.sim))
            yield b"b"
        return StreamingResponse(body(), status_code=r.status)

    async def raw(self, request, send):
        r = self.req(request.scope)
        self.sim.probe("raw-shared")
        for _ in range(r.changes):
            await self.change(request.session, r)
        await send(self.start)
        await send(self.bodym)

    async def ws(self, ws: WebSocket):
        r = self.req(ws.scope)
        self.sim.probe("websocket")
        r.check_initial(ws.session)
        await ws.accept()
        await ws.close()


class Client:
    def __init__(self, h, i):
        self.h, self.sim, self.name = h, h.sim, f"c{i}"
        self.jar = {}
        self.n = 0
        self.rounds = self.sim.w.weighted([(3, 3), (1, 1), (2, 2), (5, 2), (8, 1)])
        self.old = []

    async def run(self):
        w, sim = self.sim.w, self.sim
        for _ in range(self.rounds):
            await adelay(sim.s.weighted([(0, 3), (0.001, 2), (0.3, 1), (1.0, 2), (self.h.max_age if (self.h.max_age or 99) < 99 else 2.0, 1)]))
            k = w.weighted([(1, 6), (2, 1)])
            if k > 1:
                sim.probe("same-client-concurrent")
            await gather(*(Req(self).run() for _ in range(k)))
            if sim.failures:
                return


class Req:
    def __init__(self, client):
        h, sim = client.h, client.sim
        w, f = sim.w, sim.f
        self.client, self.h, self.sim = client, h, sim
        client.n += 1
        self.id = f"{client.name}-{client.n}"
        h.reqs[self.id] = self
        self.kind = w.weighted([("plain", 5), ("stream", 1), ("shared", 1), ("http-error", 1), ("error", 1), ("set-cookie", 1), ("raw", 1), ("ws", 1)])
        self.changes = w.weighted([(1, 3), (0, 2), (2, 2), (3, 1)])
        self.plan = []
        # whatever the status of the answer, the session goes with it
        self.status = w.pick([403, 400, 500, 503, 504]) if self.kind == "http-error" else (
            200 if self.kind in ("shared", "raw", "error") else w.weighted([(200, 6), (500, 1), (503, 1), (201, 1), (204, 1), (303, 1), (404, 1), (418, 1)]))
        if self.status > 200:
            sim.probe("status")
        if h.has_dispatch and self.kind != "ws":
            if w.chance(0.3):
                self.plan.append("dispatch-before")
            if w.chance(0.5):
                self.plan.append("dispatch-after")
        self.final = self.signed_at = None
        self.entered = False
        self.initial = None
        self.alter = None
        self.base = None

    def choose_cookie(self):
        """What the client sends: its own cookie, or whatever an attacker may try."""
        sim, f, h = self.sim, self.sim.f, self.h
        own = self.client.jar.get(h.cookie)
        self.value = own
        self.cookie_state = "own" if own is not None else "none"
        known = list(h.issued)
        if f.chance(0.25):
            k = f.pick(["old", "payload", "timestamp", "signature", "foreign", "swap", "garbage", "null", "cut", "forge", "append", "nosig"])
            sim.fault("cookie-" + k)
            if k in ("garbage", "null", "foreign", "forge", "nosig"):
                data = base64.b64encode(json.dumps({"admin": True, "who": self.id}).encode()).decode()
                if k == "garbage":
                    sim.probe("garbage")
                    v = f.pick(["", ".", "..", "...", "a.b.c", "x" * 300, "\xff\xfe.\xe9.\xe8", "%00", "e30=", "e30=.AAAAAA.AAAA", "{}", "!", "=.=.=",
                                "bnVsbA==", ".e30=", "e30=." + "A" * 40 + ".x"])
                elif k == "null":
                    sim.probe("null-cookie")
                    v = "null"
                elif k == "nosig":
                    v = data
                elif k == "foreign":
                    sim.probe("foreign-key")
                    v = itsdangerous.TimestampSigner(f.pick(["", "k", h.key + "x", h.key[:-1], "secret"])).sign(data).decode()
                else:
                    v = itsdangerous.Signer(h.key + "?").sign(data).decode()
                self.value, self.cookie_state = v, "attack"
                return
            if not known:
                return
            base = f.pick(known)
            self.base = base
            p, t, s = base.rsplit(".", 2)
            if k == "old":
                sim.probe("old-cookie")
                v = base
            elif k == "swap":
                o = f.pick(known).rsplit(".", 2)
                sim.probe("swapped")
                v = f.pick([f"{o[0]}.{t}.{s}", f"{p}.{o[1]}.{s}", f"{p}.{o[1]}.{o[2]}"])
            elif k == "cut":
                v = base[:f.int(0, len(base) - 1)]
                if v.startswith(f"{p}.{t}."):
                    self.alter = "signature"
            elif k == "append":
                v = f.pick([base + "x", "x" + base, base + ".", base + "." + s, p + "." + base])
                if v.startswith(f"{p}.{t}.") and v != base:
                    self.alter = "signature"
            else:
                part = {"payload": p, "timestamp": t, "signature": s}[k]
                if k == "signature":
                    self.alter = "signature"
                i = f.int(0, len(part) - 1)
                c = f.pick("ABCxyz019-_=+/!")
                part2 = part[:i] + c + part[i + 1:]
                v = ".".join([part2 if k == "payload" else p, part2 if k == "timestamp" else t, part2 if k == "signature" else s])
                sim.probe("altered")
            self.value, self.cookie_state = v, "attack"

    def check_initial(self, session, loose=False):
        if loose:
            return
        sim = self.sim
        if not any(same(session, e) for e in self.expected):
            sim.fail("session", f"{self.id} ({self.cookie_state} {self.value!r}, issued {self.h.issued.get(self.value)}, now {self.sim.wall()}, "
                     f"max age {self.h.max_age}) sees {session}, want one of {self.expected}")
        self.initial = copy.deepcopy(session)

    async def run(self):
        h, sim, w, f = self.h, self.sim, self.sim.w, self.sim.f
        self.choose_cookie()
        headers = [(b"x-req", self.id.encode())]
        if self.cookie_state != "none":
            parts = [f"{h.cookie}={self.value}"]
            if w.chance(0.4):
                sim.probe("other-cookies")
                parts.insert(w.int(0, 1), w.pick(["a=1", "session2=x", "xsession=y", "flag", 'q="1 2"', "Session=zz"]))
            headers.append((b"cookie", w.pick(["; ", ";"]).join(parts).encode("latin-1")))
        app = w.pick(h.apps)
        scheme = "https" if h.cfg.get("https_only") else "http"
        if self.kind == "ws":
            ex = self.ex = WebSock(sim, app, self.id, path=h.prefix + "/ws", headers=headers)
            await ex.call()
            if ex.exc is not None or not self.entered:
                sim.fail("websocket", ex.summary())
            return
        # deliveries of one client are not reordered against its later requests: the jar is updated at the response start
        ex = self.ex = Http(sim, app, self.id, path=h.prefix + ("/raw" if self.kind == "raw" else "/e"), headers=headers, scheme=scheme,
                            gone=draw_gone(sim, 0.1), spec=w.pick(["2.3", "2.4"]))
        ex.on_sent = self.on_sent
        await ex.call(cancel=draw_cancel(sim) if f.chance(0.06) else None)
        self.judge()

    def on_sent(self, ex, i, m):
        if m["type"] != "http.response.start":
            return
        h, sim = self.h, self.sim
        got = [v.decode("latin-1") for k, v in m["headers"] if k == b"set-cookie"]
        mine = [c for c in got if c.split("=", 1)[0] == h.cookie]
        where = f"{self.id} {self.kind} initial={self.initial} final={self.final} set-cookie={got}"
        if len(got) - len(mine) != (1 if self.kind == "set-cookie" and self.final is not None else 0):
            sim.fail("other-cookie", where)
        if self.final is None:
            # answered outside of the session middleware
            if mine or self.kind != "error":
                sim.fail("cookie-without-session", where)
            return
        if not self.final:
            if not self.initial:
                sim.probe("no-cookie")
                if mine:
                    sim.fail("unneeded-cookie", where)
                return
            sim.probe("deleted-at-client")
            if len(mine) != 1:
                return sim.fail("not-deleted", where)
            v, attrs = parse(mine[0])
            if "1970" not in attrs.get("expires", "") and attrs.get("max-age") != "0":
                return sim.fail("not-deleted", where)
            if self.scope_of(attrs) != self.want_scope():
                return sim.fail("deleted-elsewhere", where)
            self.client.jar.pop(h.cookie, None)
            return
        sim.probe("reissued")
        if len(mine) != 1:
            return sim.fail("not-reissued", where)
        v, attrs = parse(mine[0])
        if self.scope_of(attrs) != self.want_scope():
            return sim.fail("attributes", where)
        if attrs.get("max-age") != (str(h.max_age) if h.max_age else None) or "expires" in attrs:
            return sim.fail("attributes", where)
        if v in h.issued and not same(h.issued[v][0], self.final):
            return sim.fail("ambiguous-cookie", where)
        h.issued[v] = (self.final, self.signed_at)
        self.client.jar[h.cookie] = v

    def scope_of(self, attrs):
        return (attrs.get("path"), attrs.get("domain"), "httponly" in attrs, "secure" in attrs, attrs.get("samesite"))

    def want_scope(self):
        c = self.h.cfg
        return (c.get("path", "/"), c.get("domain"), True, bool(c.get("https_only")), c.get("same_site", "lax"))

    def judge(self):
        sim, ex = self.sim, self.ex
        check_grammar(sim, ex)
        if ex.hung:
            return sim.fail("hang", ex.summary())
        if ex.cancelled:
            return sim.probe("cancelled")
        if ex.gone:
            return sim.probe("gone")
        want = 500 if self.kind == "error" else self.status
        if ex.status != want or (ex.exc is not None) != (self.kind == "error") or not self.entered:
            sim.fail("response", f"{self.cookie_state} {self.value!r}: {ex.summary()}")


def parse(c):
    parts = c.split(";")
    attrs = {}
    for p in parts[1:]:
        k, _, v = p.strip().partition("=")
        attrs[k.lower()] = v
    return parts[0].split("=", 1)[1], attrs


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)
