"""C25: the test client reports what the application did."""
from __future__ import annotations

import contextlib
import json

import anyio
import anyio.to_thread

from sim import portal
from sim.kernel import SimThreadKill, owner_var
from starlette.requests import Request
from starlette.routing import Mount
from starlette.testclient import TestClient, WebSocketDenialResponse
from starlette.websockets import WebSocket, WebSocketDisconnect

from .apps import make_app, ERRS, draw_delay
from .common import adelay, gather

portal.install()
RUNS = 9000
PROBES = ("repeated-header", "http", "websocket", "context-manager", "no-context-manager", "raise", "no-raise", "error-before-start", "error-mid-body", "error-after-response",
          "no-response", "http-head", "request-body", "request-stream", "latin-1-header", "streamed", "waits-for-disconnect", "children", "sync-work",
          "state", "startup-error", "shutdown-error", "test-error", "reused", "two-threads", "shared-client", "app-close", "test-close", "leave-early",
          "app-error", "reject", "deny", "error-before-accept", "return", "linger", "shielded-cleanup", "json", "json-binary", "interleaved",
          "leave-unordered", "bare-app", "asgi2", "subprotocol", "offered-in-header", "app-flood", "empty-messages", "app-gone-first", "cancelled-app", "base-url", "root-path", "client-address", "default-headers", "cookie-sent", "cookie-kept",
          "redirected", "redirect-seen", "percent-path", "shared-headers")


class TestError(Exception):
    pass


def scenario(sim):
    async def main():
        sim.portals = []
        h = Harness(sim)
        await h.run()

    sim.run(main)


class Harness:
    def __init__(self, sim):
        self.sim = sim
        self.ops = {}
        self.lifespans = []  # events of the lifespan function, in order

    async def run(self):
        sim, w = self.sim, self.sim.w
        self.kind = w.pick(["starlette", "starlette", "bare"])
        self.use_with = w.chance(0.6) and self.kind != "bare"
        self.raising = w.chance(0.7)
        self.life_err = None
        if self.use_with and w.chance(0.15):
            self.life_err = (w.pick(["startup", "shutdown"]), w.pick(ERRS)("lifespan"))
        self.base, self.scheme, self.host, self.port = w.pick([
            ("http://testserver", "http", "testserver", 80), ("http://testserver", "http", "testserver", 80), ("https://example.org", "https", "example.org", 443),
            ("http://testserver:8000", "http", "testserver", 8000), ("https://h:80/", "https", "h", 80), ("http://1.2.3.4:443", "http", "1.2.3.4", 443),
            ("http://[::1]:8000", "http", "::1", 8000), ("https://[2001:db8::1]", "https", "2001:db8::1", 443)])
        self.root = w.pick(["", "", "/api", "/r\u00e9"]) if self.kind != "starlette" else ""
        self.peer = w.pick([None, None, ("10.0.0.1", 1)])
        self.given = w.pick([None, None, {"x-given": "1"}, {"User-Agent": "me", "x-given": "2"}])
        self.cookies = w.pick([None, None, {"first": "1"}])
        for probe, x in (("base-url", self.base != "http://testserver"), ("root-path", self.root), ("client-address", self.peer), ("default-headers", self.given)):
            if x:
                sim.probe(probe)
        self.jars = {}  # of each client: the cookies it holds
        self.ws_headers = {}  # one dictionary used for several sessions
        self.state = {"key": object(), "n": 5} if w.chance(0.7) else None
        self.nth = w.weighted([(1, 4), (2, 1)])
        self.share = self.nth == 2 and self.use_with and w.chance(0.5)
        if self.nth == 2:
            sim.probe("two-threads")
        if self.share:
            sim.probe("shared-client")
        app = self.asgi
        if self.kind == "starlette":
            app = make_app(sim, routes=[Mount("/", app=self.asgi)], lifespan=self.lifespan)
        elif w.chance(0.3):
            sim.probe("asgi2")
            self.kind = "asgi2"
            app = lambda scope: lambda receive, send: self.asgi(scope, receive, send)  # noqa: E731
        else:
            sim.probe("bare-app")
        self.app = app
        self.client = None
        self.ready, self.other_done = anyio.Event(), anyio.Event()
        self.programs = [[self.draw_op(f"t{t}o{i}") for i in range(w.int(1, 4))] for t in range(self.nth)]
        async with anyio.create_task_group() as tg:
            sim.portal_group = tg
            await gather(*(self.thread(t) for t in range(self.nth)))
            for t in range(self.nth):
                if left := sim.owned_tasks(f"t{t}"):
                    sim.fail("tasks-left", f"{self} thread {t}: {left}")
            tg.cancel_scope.cancel()
        for op in self.ops.values():
            op.judge_end()
        self.judge_lifespans()

    def __repr__(self):
        return f"<{self.kind} with={self.use_with} raise={self.raising} life={self.life_err} state={self.state is not None}>"

    def draw_op(self, name):
        op = (WsOp if self.sim.w.chance(0.5) else HttpOp)(self, name)
        self.ops[name] = op
        return op

    # -- the application
    @contextlib.asynccontextmanager
    async def lifespan(self, app):
        sim = self.sim
        await adelay(draw_delay(sim))
        self.lifespans.append("starting")
        if self.life_err and self.life_err[0] == "startup":
            sim.probe("startup-error")
            sim.fault("startup-error")
            raise self.life_err[1]
        await adelay(draw_delay(sim))
        self.lifespans.append("started")
        try:
            yield self.state
        finally:
            self.lifespans.append("stopping")
        await adelay(draw_delay(sim))
        self.lifespans.append("stopped")
        if self.life_err and self.life_err[0] == "shutdown":
            sim.probe("shutdown-error")
            sim.fault("shutdown-error")
            raise self.life_err[1]

    async def asgi(self, scope, receive, send):
        name = next(v for k, v in scope["headers"] if k == b"x-op").decode()
        op = self.ops[name]
        op.entered += 1
        op.judge_scope(scope)
        self.sim.log(name + ".app", "enter")
        send = self.logged(name, send)
        op.at_entry = list(self.lifespans)
        op.seen_state = dict(scope["state"])
        if await op.redirected(send):
            op.ended += 1
            return
        scope["state"]["scribble"] = name
        try:
            if op.children:
                self.sim.probe("children")
                async with anyio.create_task_group() as tg:
                    for _ in range(op.children):
                        tg.start_soon(op.child)
                    try:
                        await op.serve(scope, receive, send)
                    except Exception as e:
                        op.app_exc = e
                    tg.cancel_scope.cancel()
                if op.app_exc is not None:
                    raise op.app_exc
            else:
                await op.serve(scope, receive, send)
        except Exception as e:
            op.app_exc = e
            self.sim.fault("application-error")
            raise
        except BaseException:
            op.cancelled = True
            self.sim.fault("application-cancelled")
            self.sim.probe("cancelled-app")
            raise
        finally:
            op.ended += 1
            self.sim.log(name + ".app", "ended")

    def logged(self, name, send):
        async def send2(m):
            self.sim.log(name + ".app", "send", m["type"])
            await send(m)

        return send2

    # -- the test program
    async def thread(self, t):
        if t and self.share:
            await self.ready.wait()
        owner_var.set(f"t{t}")
        try:
            await anyio.to_thread.run_sync(self.test, t)
        finally:
            (self.ready if t == 0 else self.other_done).set()

    def test(self, t):
        try:
            self.test2(t)
        except (SimThreadKill, GeneratorExit):
            raise
        except BaseException as e:
            import traceback

            self.sim.fail("unexpected-error", f"{self} thread {t}: {e!r} {traceback.format_exc()[-1500:]}")

    def test2(self, t):
        sim, w = self.sim, self.sim.w
        if t and self.share:
            if self.client is not None:
                self.program(self.client, t)
            return
        kw = {} if self.peer is None else {"client": self.peer}
        client = TestClient(self.app, base_url=self.base, raise_server_exceptions=self.raising, root_path=self.root, backend=sim.backend,
                            headers=self.given and dict(self.given), cookies=self.cookies and dict(self.cookies), **kw)
        self.jars[id(client)] = dict(self.cookies or {})
        sim.probe("raise" if self.raising else "no-raise")
        if not self.use_with:
            sim.probe("no-context-manager")
            self.program(client, t)
            return
        sim.probe("context-manager")
        for rnd in range(2 if self.nth == 1 and w.chance(0.2) else 1):
            if rnd:
                sim.probe("reused")
                self.programs[t] = [self.draw_op(f"t{t}r{rnd}o{i}") for i in range(w.int(0, 2))]
            self.session(client, t)

    def session(self, client, t):
        sim, w = self.sim, self.sim.w
        mark = len(self.lifespans)
        boom = TestError("test") if w.chance(0.1) else None
        expect = boom
        if self.life_err and (self.nth == 1 or self.share):
            expect = self.life_err[1]
        elif self.life_err:
            expect = self.life_err[1]
        got = None
        entered = False
        try:
            with client as c:
                entered = True
                if c is not client:
                    sim.fail("enter", f"{self}: __enter__ returned {c!r}")
                if self.nth == 1 and self.lifespans[mark:] != ["starting", "started"]:
                    sim.fail("startup", f"{self}: entered after {self.lifespans[mark:]}")
                sim.tpause("with")
                if self.share:
                    self.client = client
                    self.loop_call(self.ready)
                self.program(client, t)
                if self.share:
                    self.wait_for(self.other_done)
                if boom is not None:
                    sim.probe("test-error")
                    sim.fault("test-error")
                    raise boom
        except Exception as e:
            got = e
        if got is not expect:
            raise AssertionError(f"leaving the client: got {got!r}, expected {expect!r}") from got
        if entered and self.life_err and self.life_err[0] == "startup":
            sim.fail("startup", f"{self}: entered although the startup failed")
        if self.nth == 1:
            want = ["starting", "started", "stopping", "stopped"]
            if self.life_err and self.life_err[0] == "startup":
                want = ["starting"]
            if self.lifespans[mark:] != want:
                sim.fail("lifespan", f"{self}: {self.lifespans[mark:]} when the client was left")
        if client.portal is not None:
            sim.fail("portal-left", f"{self}")

    def judge_lifespans(self):
        want = {"starting": 0, "started": 0, "stopping": 0, "stopped": 0}
        got = {k: self.lifespans.count(k) for k in want}
        if not self.use_with:
            if self.lifespans:
                self.sim.fail("lifespan", f"{self}: {self.lifespans} without a context manager")
        elif self.life_err and self.life_err[0] == "startup":
            if got["started"]:
                self.sim.fail("lifespan", f"{self}: {self.lifespans}")
        elif len(set(got.values())) != 1 or not got["started"]:
            self.sim.fail("lifespan", f"{self}: {self.lifespans}")

    @staticmethod
    def loop_call(ev):
        from sim.kernel import _from_thread

        async def set_():
            ev.set()

        _from_thread("async", set_, ())

    @staticmethod
    def wait_for(ev):
        from sim.kernel import _from_thread

        _from_thread("async", ev.wait, ())

    def program(self, client, t):
        """Run the operations; websocket sessions may stay open while others run."""
        sim, w = self.sim, self.sim.w
        open_ = []
        for op in self.programs[t]:
            sim.tpause("test")
            if isinstance(op, HttpOp):
                op.run(client)
                if open_:
                    sim.probe("interleaved")
                continue
            if op.connect(client):
                open_.append(op)
            while open_ and w.chance(0.6):
                o = w.pick(open_)
                if not o.step():
                    open_.remove(o)
        while open_:
            o = w.pick(open_)
            if len(open_) > 1:
                sim.probe("leave-unordered")
            if not o.step():
                open_.remove(o)

    def expected_state(self, rounds=None):
        return dict(self.state or {}) if self.use_with else {}


class Op:
    def __init__(self, h, name):
        self.h, self.sim, self.name = h, h.sim, name
        w = h.sim.w
        self.entered = self.ended = self.child_in = self.child_out = 0
        self.app_exc = None
        self.cancelled = False
        self.children = w.weighted([(0, 5), (1, 1), (2, 1)])
        self.started = False
        self.expect_run = False
        self.hops = 0  # redirects before the operation proper
        self.raw, self.path = self.draw_path(w)

    def draw_path(self, w):
        raw, path = w.pick([("", ""), ("", ""), ("%2541", "%41"), ("/%252F", "/%2F"), ("%25", "%"), ("/a%3Fb", "/a?b"), ("%E2%82%AC", "\u20ac"), ("%2B+", "++")])
        if "%25" in raw:
            self.sim.probe("percent-path")
        return raw, path

    async def redirected(self, send):
        return False

    def judge_scope(self, scope):
        """What the application is told about the connection."""
        import sniffio

        h = self.h
        ws = scope["type"] == "websocket"
        scheme, host, port = ("ws", "testserver", 80) if ws else (h.scheme, h.host, h.port)
        default = {"http": 80, "ws": 80, "https": 443}[scheme]
        netloc = f"[{host}]" if ":" in host else host
        headers = dict(scope["headers"])
        ua = (h.given or {}).get("User-Agent", "testclient")
        want = {"scheme": scheme, "server": [host, port], "client": list(h.peer or ("testclient", 50000)), "root_path": h.root,
                "host": netloc if port == default else f"{netloc}:{port}", "user-agent": ua, "x-given": (h.given or {}).get("x-given"), "backend": self.sim.backend}
        got = {"scheme": scope["scheme"], "server": list(scope["server"]), "client": list(scope["client"]), "root_path": scope["root_path"],
               "host": headers[b"host"].decode(), "user-agent": headers[b"user-agent"].decode(),
               "x-given": headers[b"x-given"].decode() if b"x-given" in headers else None, "backend": sniffio.current_async_library()}
        if got != want:
            self.sim.fail("scope", f"{self}: the application is told {got}, not {want}")
        if len([k for k, _ in scope["headers"] if k == b"host"]) != 1 or any(k != k.lower() for k, _ in scope["headers"]):
            self.sim.fail("scope", f"{self}: {scope['headers']}")
        jar = self.jar
        if ws and jar is not None and h.host != "testserver":
            jar = {k: v for k, v in jar.items() if k == "first"}  # (a session is always with testserver)
        sent = dict(c.split("=", 1) for c in headers[b"cookie"].decode().split("; ")) if b"cookie" in headers else {}
        if jar is not None and sent != jar:
            self.sim.fail("cookies", f"{self}: the application is given the cookies {sent}, not {jar}")
        if sent:
            self.sim.probe("cookie-sent")

    jar = None

    def take_jar(self, client):
        # (several threads that share a client share its cookies as well: not judged)
        if not self.h.share:
            self.jar = self.h.jars[id(client)]

    async def child(self):
        self.child_in += 1
        try:
            await anyio.sleep_forever()
        finally:
            self.child_out += 1

    def over(self, what):
        """The call or the session has returned: nothing of it may still be there."""
        if self.entered != self.ended or self.child_in != self.child_out:
            self.sim.fail("still-running", f"{self}: after {what}: {self.entered} started, {self.ended} ended, "
                                           f"children {self.child_in} {self.child_out}")

    def judge_end(self):
        if not self.started:
            return
        self.over("the end")
        if self.entered != 1 + self.hops:
            self.sim.fail("runs", f"{self}: the application ran {self.entered} times")
            return
        if self.h.use_with and "started" not in self.at_entry:
            self.sim.fail("before-startup", f"{self}: {self.at_entry}")
        want = self.h.expected_state()
        if want:
            self.sim.probe("state")
        if self.seen_state.keys() != want.keys() or any(self.seen_state[k] is not want[k] for k in want):
            self.sim.fail("state", f"{self}: {sorted(self.seen_state)} instead of {sorted(want)}")

    def header(self):
        return {"x-op": self.name}


class HttpOp(Op):
    def __init__(self, h, name):
        super().__init__(h, name)
        sim, w = h.sim, h.sim.w
        self.method = w.pick(["GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS"])
        self.status = w.pick([200, 201, 204, 404, 500, 299])
        self.headers = [(b"x-a", b"1"), (b"content-type", b"text/x")] + [(b"x-b", b"%d" % i) for i in range(w.int(0, 2))]
        if w.chance(0.2):
            sim.probe("latin-1-header")
            self.headers.append((b"x-latin", b"caf\xe9"))
        self.chunks = [w.bytes(w.pick([0, 3, 500])) for _ in range(w.int(0, 4))]
        self.omit = w.chance(0.3)
        self.rheaders = []
        if w.chance(0.4):
            for i in range(w.int(1, 4)):
                self.rheaders.append((w.pick(["x-r", "X-R", "x-s", "accept-language"]), w.pick(["1", "2", "a, b", "", "v=%41", "caf\xe9"])))
            if len({k.lower() for k, _ in self.rheaders}) < len(self.rheaders):
                sim.probe("repeated-header")
        self.body = w.bytes(w.pick([0, 0, 5, 3000]))
        self.gen = w.chance(0.3)
        self.err = None
        if w.chance(0.35):
            self.err = (w.int(-1, len(self.chunks) + 2), w.pick(ERRS)(name))
        self.silent = w.chance(0.05) and self.err is None
        self.waiter = w.chance(0.2)
        self.sync = w.chance(0.2)
        self.delay = [draw_delay(sim) for _ in range(3)]
        self.redirect = w.pick([None, None, None, None, 307, 308])
        self.follow = w.pick([None, None, True, False]) if self.redirect else None
        self.cookie = (w.pick(["second", "third"]), w.pick(["1", "2", "abc"])) if w.chance(0.25) else None
        if self.cookie:
            self.headers.append((b"set-cookie", f"{self.cookie[0]}={self.cookie[1]}; path=/".encode()))
        self.passed = []  # what the application handed over: (kind, data)

    def __repr__(self):
        return f"<{self.name} {self.method} {self.status} chunks={[len(c) for c in self.chunks]} err={self.err} {self.h}>"

    async def redirected(self, send):
        if self.redirect is None or self.hops:
            return False
        self.hops = 1
        if self.follow is not False:
            self.sim.probe("redirected")
        await send({"type": "http.response.start", "status": self.redirect, "headers": [(b"location", f"/{self.name}/%C3%A9%20x{self.raw}?q=1%202".encode())]})
        await send({"type": "http.response.body", "body": b"elsewhere"})
        return True

    def trouble(self, place):
        if self.err and self.err[0] == place:
            raise self.err[1]

    async def serve(self, scope, receive, send):
        sim = self.sim
        request = Request(scope, receive)
        await adelay(self.delay[0])
        got = await request.body()
        if got != self.body or request.method != self.method or scope["path"] != f"/{self.name}/\u00e9 x{self.path}" or request.query_params["q"] != "1 2":
            sim.fail("request-changed", f"{self}: the application saw {request.method} {request.url} with {len(got)} of {len(self.body)} bytes")
        want = [(k.lower().encode(), v.encode("latin-1")) for k, v in [*self.header().items(), *self.rheaders]]
        mine = [(k, v) for k, v in scope["headers"] if k in (b"x-op", b"x-r", b"x-s", b"accept-language")]
        if mine != want or scope["query_string"] != b"q=1%202":
            sim.fail("request-changed", f"{self}: the application saw {mine} {scope['query_string']}, not {want}")
        if scope["raw_path"] != f"/{self.name}/%C3%A9%20x{self.raw}".encode():
            sim.fail("request-changed", f"{self}: the application saw the raw path {scope['raw_path']}")
        if got:
            sim.probe("request-stream" if self.gen else "request-body")
        self.trouble(-1)
        if self.sync:
            sim.probe("sync-work")
            await anyio.to_thread.run_sync(lambda: sim.tpause("app"))
        if self.silent:
            sim.probe("no-response")
            return
        if self.waiter:
            async with anyio.create_task_group() as tg:
                tg.start_soon(self.wait_gone, receive)
                try:
                    await self.respond(send)
                except Exception as e:
                    self.app_exc = e
                    tg.cancel_scope.cancel()
            if self.app_exc is not None:
                raise self.app_exc
        else:
            await self.respond(send)
        await adelay(self.delay[2])
        self.trouble(len(self.chunks) + 2)

    async def wait_gone(self, receive):
        m = await receive()
        if m != {"type": "http.disconnect"} or not self.done:
            self.sim.fail("receive", f"{self}: {m} while the response is complete={self.done}")
        else:
            self.sim.probe("waits-for-disconnect")

    done = False

    async def respond(self, send):
        self.trouble(0)
        self.start = True
        m = {"type": "http.response.start", "status": self.status, "headers": self.headers}
        self.passed.append(("start", None))
        await send(m)
        for i, c in enumerate(self.chunks):
            await adelay(self.delay[1])
            self.trouble(i + 1)
            self.passed.append(("body", c))
            m = {"type": "http.response.body", "body": c, "more_body": True}
            if self.omit and not c:
                del m["body"]
            await send(m)
        self.trouble(len(self.chunks) + 1)
        self.passed.append(("end", b""))
        self.done = True
        await send({"type": "http.response.body"} if self.omit else {"type": "http.response.body", "body": b"", "more_body": False})

    def run(self, client):
        sim, h = self.sim, self.h
        sim.probe("http")
        self.started = True
        exc = resp = None
        content = self.body
        if self.gen and self.body and self.redirect is None:
            content = iter([self.body[:3], b"", self.body[3:]])
        self.take_jar(client)
        kw = {} if self.follow is None else {"follow_redirects": self.follow}
        try:
            resp = client.request(self.method, f"/{self.name}/\u00e9 x{self.raw}?q=1%202", **kw, headers=[*self.header().items(), *((k.encode(), v.encode("latin-1")) for k, v in self.rheaders)], content=content)
        except Exception as e:
            exc = e
        self.over("the request")
        sim.log(self.name, "http", resp.status_code if resp is not None else type(exc).__name__)
        fail = lambda code, more="": sim.fail(code, f"{self}: {resp!r} {exc!r} {self.passed and [k for k, _ in self.passed]} {more}")  # noqa: E731
        if self.follow is False:
            sim.probe("redirect-seen")
            self.hops = 0
            if exc is not None or resp.status_code != self.redirect or resp.content != (b"" if self.method == "HEAD" else b"elsewhere"):
                fail("redirect")
            return
        if resp is not None and len(resp.history) != self.hops:
            fail("redirect")
        err = self.err[1] if self.err else None
        started = any(k == "start" for k, _ in self.passed)
        if err is not None:
            sim.probe("error-after-response" if self.done else "error-mid-body" if started else "error-before-start")
        if h.raising:
            if err is not None:
                if exc is not err:
                    fail("exception-lost")
                return
            if self.silent:
                if not isinstance(exc, AssertionError):
                    fail("no-response")
                return
        if exc is not None:
            return fail("exception")
        body = b"".join(d for k, d in self.passed if k == "body")
        status, headers = self.status, self.headers
        if not started:
            status, headers = 500, None
            body = b"Internal Server Error" if h.kind == "starlette" and err is not None else b""
        elif body:
            sim.probe("streamed")
        if self.method == "HEAD":
            sim.probe("http-head")
            body = b""
        if resp.status_code != status:
            return fail("status")
        if started and self.cookie and self.jar is not None:
            sim.probe("cookie-kept")
            self.jar[self.cookie[0]] = self.cookie[1]
        if headers is not None and resp.headers.raw != headers:
            return fail("headers", f"{resp.headers.raw} instead of {headers}")
        if resp.content != body:
            return fail("body", f"{len(resp.content)} bytes instead of {len(body)}: {resp.content[:40]!r}")


ENDS = ["app-close", "app-close", "test-close", "leave-early", "leave-early", "app-error", "reject", "deny", "error-before-accept", "return", "linger", "test-error"]


class WsOp(Op):
    def __init__(self, h, name):
        super().__init__(h, name)
        sim, w = h.sim, h.sim.w
        self.script = []
        for _ in range(w.int(0, 6)):
            if w.chance(0.15):
                sim.probe("app-flood")
                self.script += [("a2c", *self.draw_msg()) for _ in range(3)]
            else:
                self.script.append((w.pick(["c2a", "a2c"]), *self.draw_msg()))
        self.end = w.pick(ENDS)
        sim.probe(self.end)
        self.stop = w.int(0, len(self.script))  # where an early end happens
        self.code, self.reason = w.pick([(1000, ""), (1001, "bye"), (4000, "\u00e9"), (3000, "x")])
        self.err = w.pick(ERRS)(name)
        self.accept_headers = [(b"x-h", b"1")] if w.chance(0.3) else []
        self.offered = ["a", "b", "c"] if w.chance(0.3) else None
        self.chosen = w.pick(["a", "b", "c"]) if self.offered and w.chance(0.7) else None
        self.cleanup = w.pick([None, None, 0.01, 1.0])
        self.slow = [draw_delay(sim) for _ in range(3)]
        self.deny_body = [w.bytes(w.int(0, 9)) for _ in range(w.int(1, 3))]
        self.deny_omit = w.chance(0.3)
        self.pos = 0
        self.got = []
        self.disc = None
        self.saw_end = False
        self.app_pos = 0
        self.accepted = False

    def __repr__(self):
        return f"<{self.name} ws end={self.end} stop={self.stop} script={[(d, k) for d, k, _ in self.script]} pos={self.pos} app_exc={self.app_exc!r} {self.h}>"

    def draw_msg(self):
        w = self.sim.w
        k = w.pick(["text", "bytes", "json", "jsonb"])
        if k == "text":
            v = w.pick(["", "hello", "\u00e9\u20ac", "x" * 3000]) + w.pick(["", "1"])
        elif k == "bytes":
            v = w.bytes(w.pick([0, 4, 3000]))
        else:
            self.sim.probe("json" if k == "json" else "json-binary")
            v = w.pick([{"a": [1, None]}, [], "s\u00e9", 0, 1.5, {"k": "\u20ac"}])
        if v in ("", b""):
            self.sim.probe("empty-messages")
        return k, v

    # -- the application's side
    async def serve(self, scope, receive, send):
        sim = self.sim
        try:
            await self.talk(scope, receive, send)
        finally:
            if self.cleanup is not None:
                sim.probe("shielded-cleanup")
                with anyio.CancelScope(shield=True):
                    await anyio.sleep(self.cleanup)

    async def talk(self, scope, receive, send):
        sim = self.sim
        ws = WebSocket(scope, receive, send)
        if list(scope["subprotocols"]) != (self.offered or []) or scope["path"] != f"/{self.name}{self.path}" or \
                scope["raw_path"] != f"/{self.name}{self.raw}".encode() or scope["query_string"] != b"q=%20":
            sim.fail("request-changed", f"{self}: {ws.url} {scope['subprotocols']}")
        await adelay(self.slow[0])
        if self.end == "error-before-accept":
            raise self.err
        m = await receive()
        if m != {"type": "websocket.connect"}:
            sim.fail("connect", f"{self}: {m}")
        ws = WebSocket(scope, receive, send)
        if self.end == "reject":
            return await send({"type": "websocket.close", "code": self.code, "reason": self.reason})
        if self.end == "deny":
            start = {"type": "websocket.http.response.start", "status": 418, "headers": [(b"x-d", b"1"), (b"x-d", b"2")]}
            if self.deny_omit:
                del start["headers"]
            await send(start)
            for i, b in enumerate(self.deny_body):
                await adelay(self.slow[1])
                m = {"type": "websocket.http.response.body", "body": b, "more_body": i < len(self.deny_body) - 1}
                if self.deny_omit and not b:
                    del m["body"]
                await send(m)
            return
        await send({"type": "websocket.accept", "subprotocol": self.chosen, "headers": self.accept_headers})
        for i, (d, k, v) in enumerate(self.script):
            self.app_pos = i
            if self.end == "app-error" and i == self.stop:
                raise self.err
            await adelay(self.slow[1])
            if d == "a2c":
                if k == "text":
                    await send({"type": "websocket.send", "text": v})
                elif k == "bytes":
                    await send({"type": "websocket.send", "bytes": v})
                else:
                    t = json.dumps(v)
                    await send({"type": "websocket.send", "text": t} if k == "json" else {"type": "websocket.send", "bytes": t.encode()})
                continue
            m = await receive()
            sim.log(self.name + ".app", "recv", m["type"])
            if m["type"] == "websocket.disconnect":
                self.disc = m
                return
            if m["type"] != "websocket.receive":
                sim.fail("message", f"{self}: {m}")
            if k == "text":
                ok = m.get("text") == v and m.get("bytes") is None
            elif k == "bytes":
                ok = m.get("bytes") == v and m.get("text") is None
            elif k == "json":
                ok = isinstance(m.get("text"), str) and json.loads(m["text"]) == v
            else:
                ok = isinstance(m.get("bytes"), bytes) and json.loads(m["bytes"]) == v
            if not ok:
                sim.fail("message", f"{self}: the application received {m} instead of {k} {v!r}")
        self.app_pos = len(self.script)
        if self.end == "app-error":
            raise self.err
        if self.end == "app-close":
            await send({"type": "websocket.close", "code": self.code, "reason": self.reason})
        elif self.end == "linger":
            await anyio.sleep_forever()
        elif self.end in ("test-close", "leave-early", "test-error"):
            m = await receive()
            if m["type"] != "websocket.disconnect":
                sim.fail("message", f"{self}: {m} after the last message")
            self.disc = m

    # -- the test program's side
    def connect(self, client):
        sim = self.sim
        sim.probe("websocket")
        self.started = True
        exc = None
        self.take_jar(client)
        headers = self.header()
        if self.sim.w.chance(0.4) and not self.h.share:
            # the test keeps its headers in one dictionary
            sim.probe("shared-headers")
            self.h.ws_headers.update(headers)
            headers = self.h.ws_headers
        offered = {"subprotocols": self.offered, "headers": headers}
        if self.offered and sim.w.chance(0.2):
            sim.probe("offered-in-header")
            offered = {"headers": {**headers, "sec-websocket-protocol": sim.w.pick([",", ", ", " , "]).join(self.offered)}}
        self.session = client.websocket_connect(f"/{self.name}{self.raw}?q=%20", **offered)
        try:
            ws = self.session.__enter__()
            if ws is not self.session:
                sim.fail("enter", f"{self}: {ws!r}")
        except (Exception, WebSocketDisconnect) as e:
            exc = e
        sim.log(self.name, "connected", type(exc).__name__)
        fail = lambda code, more="": sim.fail(code, f"{self}: connecting: {exc!r} {more}")  # noqa: E731
        if self.end == "reject":
            if not isinstance(exc, WebSocketDisconnect) or (exc.code, exc.reason) != (self.code, self.reason):
                fail("reject")
        elif self.end == "deny":
            if not isinstance(exc, WebSocketDenialResponse):
                fail("deny")
            elif exc.status_code != 418 or exc.content != b"".join(self.deny_body) or ([x for x in exc.headers.raw if x[0].lower() != b"content-length"] != ([] if self.deny_omit else [(b"x-d", b"1"), (b"x-d", b"2")])):
                fail("deny", f"{exc.status_code} {exc.headers.raw} {exc.content!r}")
        elif self.end == "error-before-accept":
            if exc is not self.err:
                fail("exception-lost")
        elif exc is not None:
            if self.end == "app-error" and exc is self.err:
                sim.probe("app-gone-first")  # the application failed before the session could look at its answer
                if self.stop > 0 and any(d == "c2a" for d, _, _ in self.script[:self.stop]):
                    fail("exception")
            else:
                fail("exception")
        else:
            if self.chosen is not None and ws.accepted_subprotocol != self.chosen:
                fail("subprotocol", f"{ws.accepted_subprotocol}")
            if self.chosen:
                sim.probe("subprotocol")
            if [*(ws.extra_headers or [])] != self.accept_headers:
                fail("headers", f"{ws.extra_headers}")
            return True
        self.over("connecting")
        return False

    def step(self):
        """One step of the conversation; False when the session is over."""
        sim, ws = self.sim, self.session
        sim.tpause("step")
        early = self.end in ("leave-early", "test-error")
        if early and self.pos == self.stop:
            return self.leave(TestError(self.name) if self.end == "test-error" else None)
        if self.pos == len(self.script):
            if self.end == "app-close":
                try:
                    m = sim.w.pick([ws.receive_text, ws.receive_bytes, ws.receive_json])()
                    sim.fail("close", f"{self}: received {m!r} instead of the close")
                except WebSocketDisconnect as e:
                    if (e.code, e.reason) != (self.code, self.reason):
                        sim.fail("close", f"{self}: {e!r}")
                    if sim.w.chance(0.5):
                        return self.leave(e)
            elif self.end == "test-close":
                if (self.code, self.reason) == (1000, "") and sim.w.chance(0.5):
                    self.reason = None
                    ws.close()
                else:
                    ws.close(self.code, self.reason)
                sim.tpause("closed", sim.w.pick([None, 1.0]))
            elif self.end == "app-error":
                try:
                    m = ws.receive()
                    sim.fail("message", f"{self}: received {m!r} from an application that failed")
                except (anyio.EndOfStream, anyio.ClosedResourceError) as e:
                    self.saw_end = True
                    return self.leave(e)
            return self.leave(None)
        d, k, v = self.script[self.pos]
        sim.log(self.name, "step", d)
        try:
            if d == "c2a":
                if k == "text":
                    ws.send_text(v)
                elif k == "bytes":
                    ws.send_bytes(v)
                elif k == "json":
                    ws.send_json(v)
                else:
                    ws.send_json(v, mode="binary")
            else:
                if k == "text":
                    got = ws.receive_text()
                elif k == "bytes":
                    got = ws.receive_bytes()
                elif k == "json":
                    got = ws.receive_json()
                else:
                    got = ws.receive_json(mode="binary")
                if got != v or type(got) is not type(v):
                    sim.fail("message", f"{self}: the test received {got!r} instead of {k} {v!r}")
        except (anyio.EndOfStream, anyio.ClosedResourceError, anyio.BrokenResourceError) as e:
            if self.end != "app-error":
                sim.fail("message", f"{self}: {e!r}")
            elif d == "a2c" and self.pos < self.stop and not isinstance(e, anyio.ClosedResourceError):
                sim.fail("message-lost", f"{self}: {e!r}")
            self.saw_end = True
            return self.leave(e)
        self.pos += 1
        return True

    def leave(self, exc):
        """Leave the session, with an exception of the test or without."""
        sim, got = self.sim, None
        sim.tpause("leave")
        try:
            if exc is None:
                self.session.__exit__(None, None, None)
                out = None
            else:
                try:
                    raise exc
                except Exception as e:
                    out = None if self.session.__exit__(type(e), e, e.__traceback__) else e
        except Exception as e:
            got = e
        else:
            got = out
        sim.log(self.name, "left", type(got).__name__)
        self.over("leaving the session")
        if self.app_exc is not None:
            if self.end != "app-error":
                sim.fail("app-error", f"{self}")
            if got is not self.err:
                sim.fail("exception-lost", f"{self}: leaving raised {got!r}")
        elif got is not exc:
            sim.fail("leave", f"{self}: leaving raised {got!r} instead of {exc!r}")
        if self.saw_end and self.app_exc is None:
            sim.fail("ended", f"{self}: the session ended although the application did not fail")
        if self.disc is not None:
            want = (self.code, self.reason) if self.end == "test-close" else (1000, None)
            if (self.disc.get("code"), self.disc.get("reason")) != want:
                sim.fail("disconnect", f"{self}: {self.disc}")
        return False
