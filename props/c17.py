"""C17: class-based websocket endpoints call their callbacks in the promised order."""
from __future__ import annotations

import json

import anyio

from starlette.endpoints import WebSocketEndpoint
from starlette.exceptions import WebSocketException
from starlette.middleware import Middleware
from starlette.routing import Mount, WebSocketRoute
from starlette.websockets import WebSocketDisconnect

from sim.server import draw_cancel

from .apps import make_app, ERRS, draw_delay
from .common import WebSock, adelay, gather
from .stack import Pure

RUNS = 26000
PROBES = ("text", "bytes", "json", "none", "wrong-kind", "malformed", "not-utf8", "empty-text", "connect-failed", "receive-failed",
          "disconnect-failed", "closed-by-endpoint", "refused", "ws-exception", "cancelled", "cancelled-in-callback", "client-code",
          "no-code", "code-1011", "send-failed", "concurrent", "handshake-receive", "all-received", "never-accepted", "closed-1003",
          "shared-class")

GOOD_JSON = ['{"a": 1}', "[1, null]", '"x\\u00e9"', '"é漢"', "null", "true", "0", "-1.5e3", " 7 ", '""', "[]", "{}"]
BAD_JSON = ["", "{", "nope", "'a'", "[1,]", '"\\x"', "\ufeff1", "1 2"]


class Err(Exception):
    pass


def scenario(sim):
    async def main():
        w = sim.w
        n = w.weighted([(1, 4), (2, 2), (3, 1)])
        if n > 1:
            sim.probe("concurrent")
        units = {}
        shared = n > 1 and w.chance(0.5)
        enc = w.pick(["text", "bytes", "json", None])
        for i in range(n):
            units[f"w{i}"] = Unit(sim, f"w{i}", enc if shared else w.pick(["text", "bytes", "json", None]))
        classes = {}
        routes = []
        for u in units.values():
            key = "shared" if shared else u.name
            if key not in classes:
                classes[key] = make(sim, u.enc, units)
            else:
                sim.probe("shared-class")
            routes.append(WebSocketRoute("/" + u.name, classes[key]))
        if w.chance(0.3):
            routes = [Mount("/m", routes=routes)]
        mws = [Middleware(Pure, sim=sim, d=0)] if w.chance(0.2) else []
        app = make_app(sim, routes=routes, middleware=mws)
        for u in units.values():
            u.setup(app, "/m" if isinstance(routes[0], Mount) else "")
        await gather(*(u.ex.call(cancel=u.cancel) for u in units.values()))
        for u in units.values():
            u.judge()

    sim.run(main)


def make(sim, enc, units):
    class Endpoint(WebSocketEndpoint):
        async def on_connect(self, ws):
            u = self.u = units[ws.scope["path"][-2:]]
            await u.callback("connect", self, ws, None)

        async def on_receive(self, ws, data):
            await units[ws.scope["path"][-2:]].callback("receive", self, ws, data)

        async def on_disconnect(self, ws, close_code):
            await units[ws.scope["path"][-2:]].callback("disconnect", self, ws, close_code)

    Endpoint.encoding = enc
    return Endpoint


class Unit:
    def __init__(self, sim, name, enc):
        self.sim, self.name, self.enc = sim, name, enc
        w, f = sim.w, sim.f
        self.calls = []  # [callback, data, outcome]
        self.active = 0
        self.problem = None
        self.obj = None
        self.sim.probe(str(enc or "none").lower())
        self.connect = w.weighted([("accept", 8), ("accept-send", 2), ("refuse", 1), ("handshake", 2), ("nothing", 1)])
        self.raise_in = self.raise_at = None
        if f.chance(0.35):
            self.raise_in = f.pick(["connect-before", "connect-after", "receive", "receive", "disconnect"])
            self.raise_at = f.int(0, 3)
            self.err = f.pick([WebSocketException(4005, "because"), *[c("boom") for c in ERRS]])
            sim.fault("callback-error")
        self.close_in = w.weighted([(None, 5), (0, 1), (1, 1), (2, 1)])
        self.send_in_disconnect = w.chance(0.1)
        self.script, self.payloads = [], []
        n = w.weighted([(3, 3), (0, 1), (1, 2), (6, 2), (10, 1)])
        bad = w.int(0, 7) if w.chance(0.35) else None
        for i in range(n):
            m, e = self.message(i, i == bad)
            self.script.append((draw_delay(sim), ("raw", m)))
            self.payloads.append(e)
        self.client_close = None
        if w.chance(0.75):
            self.client_close = (w.pick([1000, 1001, 1005, 1006, 3000, 4999, None]), w.pick([None, "", "bye"]))
            self.script.append((draw_delay(sim), ("close", *self.client_close, w.chance(0.5))))
        self.cancel = draw_cancel(sim, 20) if f.chance(0.2) else None
        if self.client_close is None and self.cancel is None or self.connect == "nothing":
            if self.connect == "nothing":
                self.script, self.payloads = [], []
            self.client_close = (1001, None)
            self.script.append((draw_delay(sim), ("close", *self.client_close)))
        self.fail = f.int(1, 8) if f.chance(0.15) else None

    def setup(self, app, prefix):
        w = self.sim.w
        self.ex = WebSock(self.sim, app, self.name, path=f"{prefix}/{self.name}", script=self.script, wait_accept=self.connect != "nothing",
                          slow=w.pick([True, "both", False]),
                          send_error=w.chance(0.7), fail_send=self.fail, spec=w.pick(["2.3", "2.4"]))

    def message(self, i, bad):
        """(message, expected) where expected is ("ok", payload) or ("bad", kind)"""
        w, enc = self.sim.w, self.enc
        key = enc if enc in ("text", "bytes") else w.pick(["text", "bytes"])
        e = None
        if bad and enc in ("text", "bytes"):
            key = "bytes" if enc == "text" else "text"
            e = ("bad", "wrong-kind")
        if enc == "json":
            t = w.pick(BAD_JSON if bad else GOOD_JSON)
            if bad and key == "bytes" and w.chance(0.5):
                v = w.pick([b"\xff", b'"\xe9"', b"\xc3"])
                e = ("bad", "not-utf8")
            else:
                v = t if key == "text" else t.encode()
                e = ("bad", "malformed") if bad else ("ok", json.loads(t))
            if bad and v == b"\xef\xbb\xbf1":
                v = b"{"
        else:
            empty = w.chance(0.15)
            if key == "text":
                v = "" if empty else f"{self.name}.{i}" + w.text(w.int(0, 3))
            else:
                v = b"" if empty else b"%d" % i + w.bytes(w.int(0, 3))
            if empty and key == "text":
                self.sim.probe("empty-text")
            e = e or ("ok", v)
        m = {"type": "websocket.receive", key: v}
        if w.chance(0.25):
            m["bytes" if key == "text" else "text"] = None
        return m, e

    def bad(self, what):
        if self.problem is None:
            self.problem = what

    async def callback(self, kind, obj, ws, data):
        sim, ex = self.sim, self.ex
        rec = [kind, data, "entered"]
        self.calls.append(rec)
        sim.log(self.name + ".app", "on_" + kind)
        ex.ev_app()
        if self.active:
            self.bad(f"on_{kind} called while another callback is running")
        if kind == "connect":
            self.obj = obj
        elif self.obj is not obj:
            self.bad("callbacks on different endpoint objects")
        self.active += 1
        try:
            await self.body(kind, ws, data)
            rec[2] = "returned"
        except Exception as e:
            rec[2] = e
            raise
        except BaseException:
            rec[2] = "cancelled"
            raise
        finally:
            self.active -= 1

    async def body(self, kind, ws, data):
        sim, w = self.sim, self.sim.w
        if kind == "connect":
            if self.raise_in == "connect-before":
                raise self.err
            await adelay(draw_delay(sim))
            if self.connect == "nothing":
                return
            if self.connect == "refuse":
                await ws.close(4400)
                return
            await ws.accept()
            if self.connect == "accept-send":
                await ws.send_text("hello")
            elif self.connect == "handshake":
                m = await ws.receive()
                if m["type"] == "websocket.receive":
                    self.payloads_taken = 1
                    sim.probe("handshake-receive")
                else:
                    self.disc_taken = True
            await adelay(draw_delay(sim))
            if self.raise_in == "connect-after":
                raise self.err
        elif kind == "receive":
            i = sum(1 for c in self.calls if c[0] == "receive") - 1
            await adelay(draw_delay(sim))
            if self.raise_in == "receive" and i == self.raise_at:
                raise self.err
            if self.close_in == i:
                await ws.close(4321)
                sim.probe("closed-by-endpoint")
            elif w.chance(0.5):
                await ws.send_text(f"re {i}")
            await sim.pause("receive")
        else:
            await adelay(draw_delay(sim))
            if self.raise_in == "disconnect":
                raise self.err

    payloads_taken = 0
    disc_taken = False

    def desc(self):
        return (f"encoding={self.enc} connect={self.connect} raise={self.raise_in, self.raise_at} close_in={self.close_in} payloads={self.payloads} "
                f"client_close={self.client_close} fail_send={self.fail} cancelled={self.ex.cancelled} calls={self.calls} "
                f"passed={[(m['type'], m.get('code')) for m in self.ex.passed]}: {self.ex.summary()}")

    def judge(self):
        sim, ex = self.sim, self.ex
        where = self.desc()
        if ex.late:
            sim.fail("send-after-return", where)
        if self.problem:
            return sim.fail("callbacks", f"{self.problem}: {where}")
        names = [c[0] for c in self.calls]
        if ex.cancelled:
            sim.probe("cancelled")
        if not names:
            if not (ex.cancelled or ex.hung):
                sim.fail("no-connect", where)
            return
        if names[0] != "connect" or names.count("connect") != 1:
            return sim.fail("connect", where)
        con = self.calls[0][2]
        if con != "returned":
            if len(names) != 1:
                return sim.fail("after-failed-connect", where)
            sim.probe("connect-failed")
            return self.raised(con, where)
        if self.connect == "nothing":
            sim.probe("never-accepted")
        if self.connect == "refuse":
            sim.probe("refused")
        # messages in the order in which the server gave them to the endpoint
        given = [m for m in ex.given if m["type"] == "websocket.receive"]
        exp = self.payloads[self.payloads_taken:len(given)]
        recs = [c for c in self.calls if c[0] == "receive"]
        failed_decode = len(exp) > 0 and exp[-1][0] == "bad"
        if any(e[0] == "bad" for e in exp[:-1]):
            return sim.fail("after-bad-message", where)
        want = [e[1] for e in exp if e[0] == "ok"]
        got = [c[1] for c in recs]
        if got != want or any(type(a) is not type(b) for a, b in zip(got, want)):
            # (a message handed out at the moment of the cancellation is lost with the session)
            if not (ex.cancelled and got == want[:-1]):
                return sim.fail("received", f"on_receive got {got}, want {want}: {where}")
        if ex.hung:
            # (a cancellation triggered by an event that never comes leaves the session open)
            if ex.gone and not self.disc_taken:
                return sim.fail("hang", where)
        if names.count("disconnect") != 1 or names[-1] != "disconnect":
            return sim.fail("disconnect-once", where)
        code, dis = self.calls[-1][1], self.calls[-1][2]
        if ex.cancelled_out or ex.hung or ex.cancelled:
            sim.probe("cancelled-in-callback")
            if any(c[2] == "cancelled" for c in recs) or dis == "cancelled":
                return
            if ex.cancelled_out or ex.hung or not ex.disc_given:
                return
        fail = next((c[2] for c in recs if isinstance(c[2], Exception)), None)
        if fail is not None:
            sim.probe("receive-failed")
            sim.probe("code-1011")
            if code != 1011:
                return sim.fail("code", f"on_disconnect got {code} after a failed callback: {where}")
        elif failed_decode:
            sim.probe(exp[-1][1])
            if code != 1011:
                return sim.fail("code", f"on_disconnect got {code} after a bad message: {where}")
            closes = [m for m in ex.passed if m["type"] == "websocket.close"]
            if not any(c[0] == "receive" and c[2] == "returned" and i == self.close_in for i, c in enumerate(recs)) and (
                    self.connect not in ("nothing", "refuse")) and not ex.open_errors:
                if not closes or closes[0]["code"] != 1003:
                    return sim.fail("not-1003", where)
                sim.probe("closed-1003")
        elif self.disc_taken:
            # on_connect took the disconnect itself; receiving again is an error of the application
            return
        else:
            d = [m for m in ex.given if m["type"] == "websocket.disconnect"]
            if d:
                c = d[0].get("code")
                sim.probe("client-code" if c else "no-code")
                if code != (c or 1000):
                    return sim.fail("code", f"on_disconnect got {code}, client said {c}: {where}")
            elif not ex.disc_given and ex.end_at >= 4000:
                return  # the simulated server gave up on a session that nobody ended
            elif not ex.disc_given:
                return sim.fail("disconnect-from-nothing", where)
            elif code != 1006:
                return sim.fail("code", f"on_disconnect got {code}, server said 1006: {where}")
            if len(exp) == len(self.payloads) - self.payloads_taken:
                sim.probe("all-received")
        if isinstance(dis, Exception):
            sim.probe("disconnect-failed")
            return self.raised(dis, where)
        if fail is not None:
            return self.raised(fail, where)
        if failed_decode:
            if not isinstance(ex.exc, (RuntimeError, WebSocketDisconnect)):
                return sim.fail("not-raised", where)
            if isinstance(ex.exc, WebSocketDisconnect) and not ex.open_errors:
                return sim.fail("not-raised", where)
            return
        if ex.exc is not None:
            sim.fail("raised", where)

    def raised(self, e, where):
        sim, ex = self.sim, self.ex
        if isinstance(e, WebSocketException):
            sim.probe("ws-exception")
            closes = [m for m in ex.passed if m["type"] == "websocket.close"]
            if ex.cancelled:
                return
            if ex.exc is None:
                if not closes or closes[-1]["code"] != 4005 or closes[-1].get("reason") != "because":
                    sim.fail("ws-exception", where)
            elif not (len(closes) and closes[0]["code"] in (4321, 1003, 4400) or ex.send_errors or ex.open_errors):
                sim.fail("ws-exception", where)
            return
        if not isinstance(e, Exception):
            return
        if isinstance(e, WebSocketDisconnect):
            sim.probe("send-failed")
        if ex.exc is not e:
            sim.fail("not-raised", f"{e!r} not raised: {where}")
