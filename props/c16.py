"""C16: websocket sessions follow the protocol and lose nothing."""
from __future__ import annotations

import json

import anyio

from starlette.endpoints import WebSocketEndpoint
from starlette.exceptions import WebSocketException
from starlette.responses import PlainTextResponse, Response
from starlette.routing import Mount, Route, WebSocketRoute
from starlette.websockets import WebSocket, WebSocketClose, WebSocketDisconnect

from .apps import make_app, draw_delay
from .common import WebSock, adelay, check_grammar, gather

RUNS = 26000
PROBES = ("accept", "refuse", "deny", "deny-stream", "deny-unsupported", "illegal-send", "illegal-receive", "second-accept", "second-close",
          "send-after-close", "receive-after-disconnect", "receive-after-close", "disconnect-reported", "iterated", "timeout-receive",
          "send-failed", "failed-accept", "several-tasks", "ws-exception", "not-found", "raw-receive", "json", "binary-json", "early-disconnect",
          "concurrent", "headers", "close-app", "both-keys", "class",
          "late-connect", "accept-timeout", "malformed", "iterate-again")
BAD = "<malformed>"


def scenario(sim):
    async def main():
        n = sim.w.weighted([(1, 3), (2, 2)])
        if n > 1:
            sim.probe("concurrent")
        units = [Unit(sim, f"w{i}") for i in range(n)]
        await gather(*(u.ex.call() for u in units))
        for u in units:
            u.judge()

    sim.run(main)


class Unit:
    def __init__(self, sim, name):
        w, f = sim.w, sim.f
        self.sim, self.name = sim, name
        self.problem = None
        self.expect = []  # messages that legal calls must pass to the server, in order
        self.got = []  # payloads the application received
        self.n = 0
        self.connected = False
        self.disc_seen = False  # the application was told of the disconnect
        self.receiving = 0
        self.log = []
        self.kind = w.pick(["text", "bytes", "json", "bjson", "raw"])
        self.cls = w.chance(0.15)
        self.mode = w.weighted([("session", 12), ("not-found", 1), ("close-app", 1)])
        n = w.weighted([(3, 3), (0, 1), (1, 2), (6, 2)])
        self.payloads = []
        script = []
        for i in range(n):
            p, e = self.message(i)
            self.payloads.append(p)
            script.append((draw_delay(sim), e))
        self.early = w.chance(0.08)
        if self.early:
            script, self.payloads = [], []
            sim.probe("early-disconnect")
        self.client_close = None
        if w.chance(0.8) or self.early:
            self.client_close = (w.pick([1000, 1001, 1005, 1006, 3000, 4999]), w.pick([None, "", "bye", "é漢"]))
            script.append((draw_delay(sim), ("close", *self.client_close)))
        ext = {"websocket.http.response": {}} if w.chance(0.5) else w.pick([{}, None])
        self.ext = bool(ext)
        fail = f.int(1, 9) if f.chance(0.2) else None
        self.mounted = w.chance(0.2)
        if self.mode == "close-app":
            sim.probe("close-app")
            self.code = w.pick([1000, 4000])
            app = WebSocketClose(self.code, "no")
        else:
            r = [WebSocketRoute("/ws", self.endpoint if not self.cls else self.make_class()), Route("/x", self.endpoint)]
            app = make_app(sim, routes=[Mount("/m", routes=r)] if self.mounted else r)
        path = ("/m" if self.mounted else "") + ("/ws" if self.mode != "not-found" else self.sim.w.pick(["/nope", "/x", "/ws/"]))
        self.late = w.weighted([(0, 8), (0.001, 1), (0.05, 1)])
        self.ex = WebSock(sim, app, name, path=path, script=script, slow=w.pick(["after", "after", False]), extensions=ext,
                          wait_accept=not self.early, send_error=w.chance(0.7), fail_send=fail,
                          connect_delay=self.late, subprotocols=["a", "b"], spec=w.pick(["2.3", "2.4"]))

    def message(self, i):
        w, k = self.sim.w, self.kind
        if k == "raw":
            k = w.pick(["text", "bytes"])
            raw = True
        else:
            raw = False
        if k == "text":
            t = f"m{i}" + w.text(w.int(0, 4))
            p, key, val = t, "text", t
        elif k == "bytes":
            p = b"b%d" % i + w.bytes(w.int(0, 5))
            key, val = "bytes", p
        else:
            self.sim.probe("json" if k == "json" else "binary-json")
            p = w.pick([{"i": i, "t": w.text(2)}, [i, None], f"é{i}", i, None, True])
            t = json.dumps(p, ensure_ascii=w.chance(0.5))
            key, val = ("text", t) if k == "json" else ("bytes", t.encode())
            if w.chance(0.06):
                # the receive that takes this one fails, the next one goes on after it
                self.sim.probe("malformed")
                p, val = BAD, w.pick(["{", "", '"\ud800'] if k == "json" else [b'"\xff"', b"\xc3", b"[1", b'{"a": "\xed\xa0\x80"}'])
        m = {"type": "websocket.receive", key: val}
        if w.chance(0.2):
            m["bytes" if key == "text" else "text"] = None
            self.sim.probe("both-keys")
        if raw:
            p = (key, val)
        return p, ("raw", m)

    def bad(self, what):
        if self.problem is None:
            self.problem = what

    def make_class(self):
        unit = self
        self.sim.probe("class")

        class Endpoint(WebSocketEndpoint):
            async def dispatch(self):
                await unit.endpoint(WebSocket(self.scope, receive=self.receive, send=self.send))

        return Endpoint

    async def endpoint(self, ws: WebSocket):
        w, sim, ex = self.sim.w, self.sim, self.ex
        self.ws = ws
        for _ in range(w.int(0, 2)):
            await self.op(ws, w.pick(["send", "recv", "pause", "iter"]))
        if w.chance(0.25):
            m = await ws.receive()
            if m["type"] != "websocket.connect":
                self.bad(f"first message is {m}")
            self.connected = True
            sim.probe("raw-receive")
            if w.chance(0.3) and self.early:
                m = await ws.receive()
                if m["type"] == "websocket.disconnect":
                    self.disc_seen = True
        first = w.weighted([("accept", 12), ("close", 1), ("deny", 2), ("raise", 1), ("return", 1)])
        self.log.append(first)
        if first == "return":
            return
        if first == "raise":
            sim.probe("ws-exception")
            self.expect.append(("websocket.close", 1008, "why"))
            raise WebSocketException(1008, "why")
        if first == "deny":
            return await self.deny(ws)
        if first == "close":
            sim.probe("refuse")
            await self.op(ws, "close")
        else:
            kw = {}
            if w.chance(0.3):
                kw["subprotocol"] = w.pick(["a", "b"])
            if w.chance(0.3):
                kw["headers"] = [(b"x-a", b"1"), (b"x-a", b"2")]
                sim.probe("headers")
            try:
                if self.late:
                    sim.probe("late-connect")
                    with anyio.move_on_after(w.pick([0, 0.001, 0.01])) as scope:
                        await ws.accept(**kw)
                    if scope.cancelled_caught and ex.st == "connecting":
                        # the client is not there yet: the next attempt waits for it again
                        sim.probe("accept-timeout")
                        await ws.accept(**kw)
                else:
                    await ws.accept(**kw)
            except OSError:
                sim.probe("failed-accept")
                if not isinstance(kw, dict) or not ex.send_errors:
                    self.bad("accept failed by itself")
                return
            sim.probe("accept")
            m = [m for m in ex.passed if m["type"] == "websocket.accept"]
            if len(m) != 1 or m[0].get("subprotocol") != kw.get("subprotocol") or list(m[0].get("headers", [])) != kw.get("headers", []):
                self.bad(f"accept passed {m} for {kw}")
        ntasks = w.weighted([(1, 3), (2, 3), (3, 1)])
        if ntasks > 1:
            sim.probe("several-tasks")
        with anyio.move_on_after(20):
            async with anyio.create_task_group() as tg:
                for t in range(ntasks):
                    tg.start_soon(self.program, ws, t)
        if w.chance(0.1):
            sim.probe("ws-exception")
            if ex.st == "open" and not self.dead:
                self.expect.append(("websocket.close", 4001, ""))
            raise WebSocketException(4001)

    async def program(self, ws, t):
        w = self.sim.w
        for _ in range(w.int(1, 7)):
            if t == 0:
                k = w.weighted([("recv", 8), ("send", 3), ("pause", 1), ("recv-timeout", 2), ("iter", 1), ("close", 1), ("accept", 1)])
            else:
                k = w.weighted([("send", 6), ("pause", 4), ("close", 1), ("accept", 1), ("deny-open", 1)])
            await self.op(ws, k)

    async def deny(self, ws):
        sim, w, ex = self.sim, self.sim.w, self.ex
        if not self.ext:
            sim.probe("deny-unsupported")
            n = len(ex.passed)
            try:
                await ws.send_denial_response(Response(status_code=403))
            except RuntimeError:
                if len(ex.passed) != n:
                    self.bad("unsupported denial passed messages")
                return
            return self.bad("denial without the extension")
        sim.probe("deny")
        stream = w.chance(0.5)
        body = b"abcdef" * w.int(0, 3)
        try:
            if stream:
                sim.probe("deny-stream")
                await ws.send({"type": "websocket.http.response.start", "status": 418, "headers": [(b"x-d", b"1")]})
                for i in range(0, len(body), 5):
                    await sim.pause("chunk")
                    await ws.send({"type": "websocket.http.response.body", "body": body[i:i + 5], "more_body": True})
                    if w.chance(0.1):
                        await self.op(ws, w.pick(["send", "accept", "close"]))
                await ws.send({"type": "websocket.http.response.body"} if w.chance(0.5) else
                              {"type": "websocket.http.response.body", "body": b"", "more_body": False})
            else:
                await ws.send_denial_response(PlainTextResponse(body, status_code=418, headers={"x-d": "1"}))
        except OSError:
            if not ex.send_errors:
                self.bad("denial failed by itself")
            return
        ms = [m for m in ex.passed if m["type"].startswith("websocket.http")]
        if not ms or ms[0].get("status") != 418 or (b"x-d", b"1") not in ms[0]["headers"] or ex.st != "denied" or b"".join(
                m.get("body", b"") for m in ms[1:]) != body:
            self.bad(f"denial passed {ms}")
        if w.chance(0.5):
            try:
                await ws.send({"type": "websocket.http.response.body", "body": b"more"})
            except (RuntimeError, OSError):
                pass
        await self.op(ws, w.pick(["send", "close", "recv"]))

    async def op(self, ws, k):
        sim, w, ex = self.sim, self.sim.w, self.ex
        self.log.append(k)
        if k == "pause":
            return await adelay(draw_delay(sim))
        if k == "send":
            return await self.send(ws)
        if k == "close":
            code, reason = w.pick([1000, 3001, 1011]), w.pick([None, "r", "é"])
            legal = ex.st in ("connecting", "open") and not self.dead  # (not during a denial response)
            if legal:
                self.expect.append(("websocket.close", code, reason or ""))
            elif ex.st != "connecting":
                sim.probe("second-close")
            kw = {}
            if code != 1000 or w.chance(0.5):
                kw["code"] = code
            return await self.attempt(ws.close(**kw, **({} if reason is None else {"reason": reason})), legal, "close")
        if k == "accept":
            if self.receiving:  # (it may receive the connect message itself)
                return
            legal = ex.st == "connecting"
            sim.probe("second-accept")
            self.receiving += 1
            try:
                return await self.attempt(ws.accept(), legal, "accept")
            finally:
                self.receiving -= 1
        if k == "deny-open":
            n = len(ex.passed)
            try:
                await ws.send_denial_response(PlainTextResponse("x"))
            except RuntimeError:
                return
            return self.bad(f"denial response while {ex.st}")
        if k in ("recv", "recv-timeout"):
            return await self.recv(ws, k == "recv-timeout")
        if k == "iter":
            return await self.iterate(ws)

    @property
    def dead(self):
        """A send on the accepted session failed: it is closed for sending."""
        return self.ex.open_errors > 0

    async def attempt(self, coro, legal, what):
        ex = self.ex
        was_open = ex.st == "open"
        try:
            await coro
        except RuntimeError as e:
            if legal:
                self.bad(f"legal {what} raised {e!r}")
            return False
        except WebSocketDisconnect as e:
            self.sim.probe("send-failed")
            if not legal or not ex.send_errors or not was_open:
                self.bad(f"{what} raised {e!r}")
            elif e.code != 1006:
                self.bad(f"failed {what} reported as {e.code}")
            return False
        except OSError as e:
            if was_open or not ex.send_errors:
                self.bad(f"{what} raised {e!r}")
            return False
        if not legal:
            self.bad(f"illegal {what} while {ex.st} did not raise")
        return True

    async def send(self, ws):
        sim, w, ex = self.sim, self.sim.w, self.ex
        legal = ex.st == "open" and not self.dead
        if not legal:
            sim.probe("send-after-close" if ex.st in ("closed", "denied") else "illegal-send")
        self.n += 1
        k = w.pick(["text", "bytes", "json", "bjson", "raw"])
        if k in ("text", "raw"):
            v = f"s{self.n}" + w.text(w.int(0, 3))
            e = ("text", v)
            c = ws.send_text(v) if k == "text" else ws.send({"type": "websocket.send", "text": v})
        elif k == "bytes":
            v = b"s%d" % self.n + w.bytes(w.int(0, 3))
            e = ("bytes", v)
            c = ws.send_bytes(v)
        else:
            v = {"n": self.n, "t": w.text(w.int(0, 2))}
            e = (k, v)
            c = ws.send_json(v) if k == "json" else ws.send_json(v, mode="binary")
        if legal:
            self.expect.append(e)
        await self.attempt(c, legal, f"send {e}")

    def receiver(self, ws):
        return {"text": ws.receive_text, "bytes": ws.receive_bytes, "json": ws.receive_json, "raw": ws.receive,
                "bjson": lambda: ws.receive_json(mode="binary")}[self.kind]

    async def recv(self, ws, timeout):
        sim, ex = self.sim, self.ex
        if self.receiving:
            return
        legal = not self.disc_seen and (self.kind == "raw" and ex.st != "connecting" or ex.st == "open" and not self.dead)
        if self.kind == "raw" and ex.st in ("connecting",):
            return
        given = len(ex.given)
        self.receiving += 1
        try:
            with anyio.move_on_after(sim.w.pick([0.001, 0.004, 1.0]) if timeout else 60) as scope:
                try:
                    v = await self.receiver(ws)()
                except ValueError:
                    if not legal:
                        self.bad("illegal receive took a message")
                    self.got.append(BAD)
                    return
                except WebSocketDisconnect as e:
                    return self.disconnected(e, legal)
                except RuntimeError as e:
                    if legal:
                        self.bad(f"legal receive raised {e!r}")
                    if len(ex.given) != given:
                        self.bad("a refused receive took a message")
                    sim.probe("receive-after-disconnect" if self.disc_seen else "receive-after-close" if ex.st != "connecting"
                              else "illegal-receive")
                    return
                if not legal:
                    return self.bad(f"illegal receive returned {v!r}")
                if self.kind == "raw":
                    if v["type"] == "websocket.disconnect":
                        self.disc_seen = True
                        sim.probe("disconnect-reported")
                        if self.ex.gone and self.client_close and ex.st not in ("closed", "denied") and (
                                v.get("code") != self.client_close[0] or v.get("reason") != self.client_close[1]):
                            self.bad(f"disconnect delivered as {v}")
                        return
                    if v["type"] == "websocket.connect":
                        if self.connected:
                            self.bad("second connect message")
                        self.connected = True
                        return
                    v = ("text", v["text"]) if v.get("text") is not None else ("bytes", v["bytes"])
                self.got.append(v)
            if scope.cancelled_caught:
                sim.probe("timeout-receive")
        finally:
            self.receiving -= 1

    def disconnected(self, e, legal):
        ex, sim = self.ex, self.sim
        self.disc_seen = True
        sim.probe("disconnect-reported")
        if not legal:
            return self.bad(f"illegal receive raised {e!r}")
        d = [m for m in ex.given if m["type"] == "websocket.disconnect"]
        if d and d[0].get("code") is not None and ex.close_info is not None and d[0] == ex.close_info:
            if e.code != d[0]["code"] or e.reason != (d[0].get("reason") or ""):
                self.bad(f"disconnect {d[0]} reported as {e.code} {e.reason!r}")
        elif not d and not ex.disc_given:
            self.bad("disconnect reported out of nothing")

    async def iterate(self, ws):
        sim, ex = self.sim, self.ex
        if self.receiving or self.kind in ("raw", "bjson"):
            return
        if self.disc_seen or ex.st != "open" or self.dead:
            sim.probe("iterate-again")
            given = len(ex.given)
            try:
                async for v in {"text": ws.iter_text, "bytes": ws.iter_bytes, "json": ws.iter_json}[self.kind]():
                    return self.bad(f"iteration of a session that is over or not accepted returned {v!r}")
                self.bad("iteration of a session that is over or not accepted just ended")
            except RuntimeError:
                if len(ex.given) != given:
                    self.bad("a refused iteration took a message")
            except WebSocketDisconnect as e:
                self.bad(f"iteration raised {e!r}")
            return
        sim.probe("iterated")
        it = {"text": ws.iter_text, "bytes": ws.iter_bytes, "json": ws.iter_json}[self.kind]()
        self.receiving += 1
        try:
            with anyio.move_on_after(5) as scope:
                try:
                    async for v in it:
                        self.got.append(v)
                        if sim.w.chance(0.3):
                            await self.send(ws)
                        if ex.st != "open" or self.dead:
                            return
                    if not ex.disc_given:
                        self.bad("iteration ended before a disconnect")
                    self.disc_seen = True
                except ValueError:
                    self.got.append(BAD)
                except RuntimeError as e:
                    if ex.st == "open" and not self.dead:
                        self.bad(f"iteration raised {e!r}")
                except WebSocketDisconnect as e:
                    self.bad(f"iteration raised {e!r}")
            if scope.cancelled_caught:
                return
        finally:
            self.receiving -= 1

    def desc(self):
        return (f"{self.mode} kind={self.kind} ops={self.log} payloads={self.payloads} close={self.client_close} ext={self.ext} "
                f"fail={self.ex.fail_send} passed={[self.norm(m) for m in self.ex.passed]} got={self.got}: {self.ex.summary()}")

    def norm(self, m):
        if m["type"] == "websocket.close":
            return ("websocket.close", m.get("code"), m.get("reason") or "")
        if m["type"] == "websocket.send":
            return ("text", m["text"]) if m.get("text") is not None else ("bytes", m["bytes"])
        return m["type"]

    def judge(self):
        sim, ex = self.sim, self.ex
        where = self.desc()
        check_grammar(sim, ex)
        if ex.hung:
            return sim.fail("hang", where)
        if self.mode in ("not-found", "close-app"):
            sim.probe("not-found")
            want = ("websocket.close", self.code, "no") if self.mode == "close-app" else ("websocket.close", 1000, "")
            if [self.norm(m) for m in ex.passed] != [want]:
                # a path that differs by its trailing slash is redirected, for websockets it is just refused
                return sim.fail("not-refused", where)
            return
        if self.problem:
            return sim.fail("session", f"{self.problem}: {where}")
        if ex.exc is not None and not isinstance(ex.exc, OSError):
            # (a WebSocketException can only be turned into a close while the session is open)
            if not (isinstance(ex.exc, (RuntimeError, WebSocketDisconnect)) and self.log and (
                    ex.send_errors or ex.st in ("closed", "denied"))):
                return sim.fail("error", where)
        if isinstance(ex.exc, OSError) and not ex.send_errors:
            return sim.fail("error", where)
        passed = [self.norm(m) for m in ex.passed]
        passed = [p for p in passed if not isinstance(p, str)]
        want = []
        for e in self.expect:
            want.append(e)
        if len(passed) != len(want):
            return sim.fail("messages", f"passed {passed}, want {want}: {where}")
        for p, e in zip(passed, want):
            if e[0] in ("json", "bjson"):
                ok = p[0] == ("text" if e[0] == "json" else "bytes") and json.loads(p[1]) == e[1]
            else:
                ok = p == e
            if not ok:
                return sim.fail("messages", f"passed {p}, want {e}: {where}")
        if self.got != self.payloads[:len(self.got)]:
            return sim.fail("received", where)
        given = [m for m in ex.given if m["type"] == "websocket.receive"]
        if len(given) != len(self.got):
            return sim.fail("lost", f"{len(given)} messages were taken from the server, {len(self.got)} returned: {where}")
