"""The simulated ASGI server and its clients: HTTP exchanges and websocket sessions.

`receive` and `send` are the network seam.  Client messages arrive through an actor task at drawn instants, a
`receive` that has something available returns at once (as real servers do, which is what makes polling work), sends
meet backpressure at drawn points, and disconnects and cancellations happen at drawn instants.
"""
from __future__ import annotations

import asyncio
import contextvars
import itertools
import math

import anyio
import anyio.lowlevel

from .kernel import Sim, owner_var

INF = math.inf


class ClientGone(OSError):
    """What a spec >= 2.4 server raises from send() after the client went away."""


async def adelay(d):
    if d == "yield":
        await anyio.lowlevel.checkpoint()
    elif d:
        await anyio.sleep(d)


class Actor:
    """Wakes up when something happens on the connection."""

    def __init__(self):
        self.ev = anyio.Event()

    def kick(self):
        self.ev.set()
        self.ev = anyio.Event()

    async def wait(self):
        await self.ev.wait()


class Base:
    def __init__(self, sim: Sim, app, name):
        self.sim, self.app, self.name = sim, app, name
        self.sent = []  # messages the server took, in order (copies)
        self.sent_at = []  # virtual instant of each
        self.sent_seq = []  # global sequence number of each
        self.events = []  # (seq, kind, ...)
        self.nrecv = self.nsend = 0  # calls made so far
        self.exc = None
        self.returned = False
        self.hung = False
        self.gone = False  # the client is gone (server knows)
        self.gone_at = None
        self.gone_seq = None
        self.cancelled = False  # and (met) while one of anyio's own cancellations was on its way
        self.met = False
        self.cancel_seq = None
        self.cancelled_out = False
        self.left = []
        self.actor = Actor()
        self.in_send = 0
        self.in_recv = 0
        self.end_seq = None
        self.end_at = None
        self.grammar = []
        self.late = []
        self.backpressure = None  # None, or a list of send indexes that stall until released / disconnected
        self.context = None
        self.watch = None
        self.at = []
        self.opaque = False  # do not record the size of the response (debug pages show memory addresses)

    def ev(self, kind, *data):
        seq = next(self.sim.seq)
        self.events.append((seq, kind, *data))
        self.at.append((seq, self.sim.now()))
        self.sim.log(self.name, kind, *data)
        if self.watch is not None and len(self.events) >= self.watch[0]:
            self.watch[1].set()
        return seq

    def ev_app(self):
        """An event of the application, counted for triggers."""
        self.events.append((0, "app"))
        if self.watch is not None and not self.sim.in_worker() and len(self.events) >= self.watch[0]:
            self.watch[1].set()

    # -- running the application
    async def call(self, limit=4000.0, cancel=None):
        """Run the application for this exchange.  cancel: None or ("scope"|"native", trigger) where trigger is an
        async function that returns when the server decides to cancel."""
        sim = self.sim
        mode = cancel[0] if cancel else None
        if mode == "native" and sim.backend != "asyncio":
            mode = "scope"
        async with anyio.create_task_group() as tg:
            scope = anyio.CancelScope()
            done = anyio.Event()
            target = {}

            async def run_app():
                owner_var.set(self.name)
                try:
                    await self.app(self.scope, self.receive, self.send)
                    self.returned = True
                finally:
                    self.left = self.tasks_left()
                    self.end_seq = self.ev("end")
                    self.end_at = sim.now()

            async def guarded():
                try:
                    with scope:
                        with anyio.move_on_after(limit) as lim:
                            try:
                                if mode == "native":
                                    t = asyncio.get_running_loop().create_task(run_app())
                                    target["task"] = t
                                    try:
                                        await t
                                    except asyncio.CancelledError:
                                        if not t.done():
                                            t.cancel()
                                            raise
                                        if self.cancelled:
                                            self.cancelled_out = True
                                        else:
                                            raise
                                else:
                                    await run_app()
                            except Exception as e:
                                self.exc = e
                            except BaseExceptionGroup as e:
                                if not self.cancelled:
                                    raise
                                self.exc = e
                    if scope.cancelled_caught:
                        self.cancelled_out = True
                    elif lim.cancelled_caught:
                        self.hung = True
                        self.ev("hung")
                finally:
                    done.set()

            async def canceller():
                async with anyio.create_task_group() as g2:
                    async def watch():
                        await done.wait()
                        g2.cancel_scope.cancel()
                    g2.start_soon(watch)
                    await cancel[1](self)
                    if not done.is_set():
                        self.cancelled = True
                        self.cancel_seq = self.ev("cancel")
                        sim.fault("cancel-" + mode)
                        if mode == "native":
                            # anyio takes a native cancellation that meets one of its own, not yet delivered, for its own
                            self.met = target["task"].cancelling() > 0
                            target["task"].cancel()
                        else:
                            scope.cancel()
                    g2.cancel_scope.cancel()

            async def arrivals():
                async with anyio.create_task_group() as g2:
                    async def watch():
                        await done.wait()
                        g2.cancel_scope.cancel()
                    g2.start_soon(watch)
                    await self.arrive()
                    g2.cancel_scope.cancel()

            tg.start_soon(arrivals)
            if cancel:
                tg.start_soon(canceller)
            await guarded()
        if self.exc is not None:
            self.ev("raised", type(self.exc).__name__, _text(self.exc))
        return self

    def tasks_left(self):
        # the task running the application itself is spawned before owner_var is set, so it is never counted
        return self.sim.owned_tasks(self.name)

    def go(self):
        """The client goes away now."""
        if not self.gone:
            self.gone = True
            self.gone_at = self.sim.now()
            self.gone_seq = self.ev("gone")
            self.sim.fault("disconnect")
            self.actor.kick()


def _text(exc):
    try:
        return str(exc)[:80]
    except Exception:
        return "?"


def draw_cancel(sim, maxev=14):
    """Draw how and when the server cancels: a mode and a trigger."""
    f = sim.f
    mode = f.pick(["scope", "native"])
    kind = f.pick(["time", "event", "event-late"])
    if kind == "time":
        t = f.pick([0.0, 0.001, 0.002, 0.003, 0.004, 0.005, 0.009, 0.02, 0.051, 0.1, 0.5, 1.0, 1.001, 1.005, 2.0, 3.0])

        async def trigger(ex):
            await anyio.sleep(t)
    else:
        k = f.int(0, maxev)
        extra = f.int(1, 6) if kind == "event-late" else 0

        async def trigger(ex):
            if k and len(ex.events) < k:
                ex.watch = (k, anyio.Event())
                await ex.watch[1].wait()
            for _ in range(extra):
                await anyio.lowlevel.checkpoint()
    return (mode, trigger)


class Http(Base):
    """One HTTP request.

    chunks: list of (delay, bytes, more, omit) -- the body messages; `omit` drops optional keys.
    gone: None | ("time", t) | ("sends", k) | ("recvs", k) | ("chunk", k) -- when the client goes away.
    style: "drop" (a disconnect discards the unread body, as uvicorn does), "queue" (messages stay in order) or "hold"
    (like "queue", but the server does not itself report a disconnect after the complete response).
    """

    def __init__(self, sim, app, name="c0", *, method="GET", path="/", query=b"", headers=(), chunks=None, body=b"",
                 spec="2.3", style="drop", gone=None, slow=True, http_version="1.1", root_path="", extensions=None,
                 state=None, client=("1.2.3.4", 5), host=b"testserver", debug_ext=False, scheme="http", extra=None,
                 coalesce=False):
        super().__init__(sim, app, name)
        hdrs = list(headers)
        if host is not None and not any(k == b"host" for k, _ in hdrs):
            hdrs.insert(0, (b"host", host))
        self.method = method
        self.scope = {
            "type": "http", "asgi": {"version": "3.0", "spec_version": spec}, "http_version": http_version,
            "method": method, "scheme": scheme, "path": path, "raw_path": path.encode("utf-8"), "query_string": query,
            "root_path": root_path, "headers": hdrs, "client": client, "server": ("testserver", 80),
        }
        if extensions is not None:
            self.scope["extensions"] = extensions
        if state is not None:
            self.scope["state"] = state
        if extra:
            self.scope.update(extra)
        self.spec = tuple(map(int, spec.split(".")))
        self.chunks = [(0.0, body, False, ())] if chunks is None else chunks
        self.style = style
        self.gone_plan = gone
        self.slow = slow
        self.coalesce = coalesce
        self.buf = []
        self.body_given = b""
        self.final_given = False
        self.disc_given = 0
        self.disc_seq = None
        self.complete = False  # response complete
        self.started = False
        self.complete_seq = None
        self.send_fail = 0
        self.stall = None  # optional hook: async fn(self, message) awaited inside send before it takes the message
        self.on_sent = None  # optional hook: fn(self, index, message) called when the server takes a message

    # -- client side
    async def arrive(self):
        plan = self.gone_plan
        t0 = self.sim.now()
        for i, (delay, data, more, omit) in enumerate(self.chunks):
            if plan and plan[0] == "chunk" and plan[1] == i:
                await adelay(delay)
                self.go()
                return
            await adelay(delay)
            if plan and plan[0] == "time" and self.sim.now() - t0 >= plan[1]:
                self.go()
                return
            if self.gone:
                return
            self.buf.append((data, more, omit))
            self.actor.kick()
        if plan and plan[0] == "chunk":
            self.go()
        elif plan and plan[0] == "time":
            await anyio.sleep(max(0.0, plan[1] - (self.sim.now() - t0)))
            self.go()

    def _message(self):
        """The next message, if one is available at once."""
        if self.gone and self.style == "drop" or self.complete and self.style != "hold":
            if self.gone or self.style == "drop" or not self.buf:
                return {"type": "http.disconnect"}
        if self.buf:
            data, more, omit = self.buf.pop(0)
            if self.coalesce:
                while self.buf and more and "more_body" not in omit:
                    d2, more, omit = self.buf.pop(0)
                    data += d2
                omit = ()
            self.body_given += data
            self.final_given = not more
            m = {"type": "http.request", "body": data, "more_body": more}
            if "body" in omit and not data:
                del m["body"]
            if "more_body" in omit and not more:
                del m["more_body"]
            return m
        if self.gone:
            return {"type": "http.disconnect"}
        return None

    async def receive(self):
        self.nrecv += 1
        if self.gone_plan and self.gone_plan[0] == "recvs" and self.nrecv > self.gone_plan[1]:
            self.go()
        self.in_recv += 1
        try:
            if self.slow == "both":
                await self.sim.pause("recv")
            while True:
                m = self._message()
                if m is not None:
                    break
                await self.actor.wait()
        finally:
            self.in_recv -= 1
        if m["type"] == "http.disconnect":
            self.disc_given += 1
            seq = self.ev("recv", "disconnect")
            if self.disc_seq is None:
                self.disc_seq = seq
        else:
            self.ev("recv", len(m.get("body", b"")), m.get("more_body", False))
        return m

    async def send(self, message):
        sim = self.sim
        self.nsend += 1
        idx = self.nsend
        if self.end_seq is not None:
            self.late.append(message.get("type"))
        if self.gone_plan and self.gone_plan[0] == "sends" and idx > self.gone_plan[1]:
            self.go()
        m = self._copy(message)
        self.in_send += 1
        try:
            if self.in_send > 1:
                self.grammar.append("concurrent sends")
            if self.gone:
                return self._discard(m)
            if self.slow == "strict":
                await anyio.lowlevel.checkpoint()
            if self.slow:
                await sim.pause("send")
            if self.stall is not None:
                await self.stall(self, m)
            if self.gone:
                return self._discard(m)
            self._monitor(m)
            if self.on_sent is not None:
                self.on_sent(self, len(self.sent) - 1, m)
            if self.slow:
                await sim.pause("sent")
        finally:
            self.in_send -= 1

    def _discard(self, m):
        self.ev("discard", m["type"])
        self._monitor(m, record=False)
        if self.spec >= (2, 4):
            self.send_fail += 1
            self.sim.fault("send-oserror")
            raise ClientGone("client gone")

    def _copy(self, message):
        m = dict(message)
        if "headers" in m:
            m["headers"] = [(bytes(k), bytes(v)) for k, v in m["headers"]]
        if "body" in m:
            if not isinstance(m["body"], (bytes, bytearray, memoryview)):
                self.grammar.append(f"body is {type(m['body']).__name__}")
            else:
                m["body"] = bytes(m["body"])
        return m

    def _monitor(self, m, record=True):
        t = m["type"]
        if t == "http.response.start":
            if self.started:
                self.grammar.append("second response start")
            if self.complete:
                self.grammar.append("response start after the final body message")
            self.started = True
            if not isinstance(m.get("status"), int):
                self.grammar.append("status is not an int")
            for k, v in m.get("headers", []):
                if k != k.lower():
                    self.grammar.append(f"header name {k!r} not lower case")
        elif t == "http.response.body":
            if not self.started:
                self.grammar.append("body before start")
            if self.complete:
                self.grammar.append("body after the final body message")
            if not m.get("more_body", False):
                self.complete = True
        elif t == "http.response.debug" and "http.response.debug" in (self.scope.get("extensions") or {}):
            pass
        elif t == "http.response.trailers" or t == "http.response.pathsend":
            pass
        else:
            self.grammar.append(f"unexpected message {t}")
        if record:
            self.sent.append(m)
            self.sent_at.append(self.sim.now())
            self.sent_seq.append(self.ev("sent", t[5:], m.get("status", 0 if self.opaque else len(m.get("body", b""))),
                                         m.get("more_body", False)))
        else:
            self.ev("lost", t)
        if self.complete and self.complete_seq is None:
            self.complete_seq = next(self.sim.seq)
            self.actor.kick()

    def gone_before(self, seq):
        return self.gone_seq is not None and self.gone_seq < seq

    # -- what the client got
    @property
    def status(self):
        for m in self.sent:
            if m["type"] == "http.response.start":
                return m["status"]
        return None

    @property
    def rheaders(self):
        for m in self.sent:
            if m["type"] == "http.response.start":
                return m.get("headers", [])
        return []

    def header(self, name: bytes):
        v = [v for k, v in self.rheaders if k == name]
        return v[0] if v else None

    def headers_all(self, name: bytes):
        return [v for k, v in self.rheaders if k == name]

    @property
    def body(self):
        return b"".join(m.get("body", b"") for m in self.sent if m["type"] == "http.response.body")

    @property
    def full(self):
        """The client holds a response that was finished with a final body message."""
        return any(m["type"] == "http.response.body" and not m.get("more_body", False) for m in self.sent)

    @property
    def chunks_sent(self):
        return [m.get("body", b"") for m in self.sent if m["type"] == "http.response.body"]

    def summary(self):
        return (f"{self.method} {self.scope['path']} -> status={self.status} full={self.full} body={self.body[:60]!r}"
                f"({len(self.body)}) exc={self.exc!r} hung={self.hung} gone={self.gone}")


def check_grammar(sim, ex, prefix="grammar"):
    """The part of the wire grammar that must hold at every moment of every exchange."""
    for g in ex.grammar:
        sim.fail(f"{prefix}/{g.split(' b')[0].replace(' ', '-')}", f"{ex.name}: {g}: {ex.summary()}")
    if ex.late:
        sim.fail(f"{prefix}/send-after-return", f"{ex.name}: messages {ex.late} sent after the application returned")


class WebSock(Base):
    """One websocket session.  script: list of (delay, event); event is ("text", s) | ("bytes", b) |
    ("raw", message dict) | ("close", code, reason)."""

    def __init__(self, sim, app, name="w0", *, path="/", query=b"", headers=(), script=(), spec="2.3", slow=True,
                 subprotocols=(), extensions=None, wait_accept=True, root_path="", state=None, extra=None,
                 send_error=True, fail_send=None, connect_delay=0):
        super().__init__(sim, app, name)
        hdrs = list(headers)
        if not any(k == b"host" for k, _ in hdrs):
            hdrs.insert(0, (b"host", b"testserver"))
        self.scope = {
            "type": "websocket", "asgi": {"version": "3.0", "spec_version": spec}, "http_version": "1.1",
            "scheme": "ws", "path": path, "raw_path": path.encode(), "query_string": query, "root_path": root_path,
            "headers": hdrs, "client": ("1.2.3.4", 5), "server": ("testserver", 80), "subprotocols": list(subprotocols),
        }
        if extensions is not None:
            self.scope["extensions"] = extensions
        if state is not None:
            self.scope["state"] = state
        if extra:
            self.scope.update(extra)
        self.script = list(script)
        self.spec = tuple(map(int, spec.split(".")))
        self.slow = slow
        self.wait_accept = wait_accept
        self.send_error = send_error
        self.fail_send = fail_send  # index (1-based) of the data send that fails with OSError
        self.connect_delay = connect_delay
        self.queue = [] if connect_delay else [{"type": "websocket.connect"}]
        self.st = "connecting"
        self.accepted = anyio.Event()
        self.close_info = None  # what the client reported
        self.given = []
        self.send_errors = 0
        self.open_errors = 0  # failed sends on the accepted session
        self.disc_given = 0
        self.on_sent = None
        self.passed = []  # everything the application passed to send, in the order of the calls

    def closed_by_app(self):
        return self.st in ("closed", "denied")

    async def arrive(self):
        if self.connect_delay:
            await adelay(self.connect_delay)
            self.queue.append({"type": "websocket.connect"})
            self.connect_delay = 0
            self.actor.kick()
        if self.wait_accept:
            await self.accepted.wait()
        for delay, e in self.script:
            await adelay(delay)
            if self.gone:
                return
            if self.st in ("closed", "denied"):
                return
            if e[0] == "text":
                self.queue.append({"type": "websocket.receive", "text": e[1]})
            elif e[0] == "bytes":
                self.queue.append({"type": "websocket.receive", "bytes": e[1]})
            elif e[0] == "raw":
                self.queue.append(dict(e[1]))
            elif e[0] == "close":
                m = {"type": "websocket.disconnect"}
                if e[1] is not None:
                    m["code"] = e[1]
                elif len(e) > 3 and e[3]:
                    m["code"] = None
                if e[2] is not None:
                    m["reason"] = e[2]
                self.disconnect(m)
                return
            self.actor.kick()

    def disconnect(self, m):
        if self.gone:
            return
        self.close_info = m
        self.queue.append(m)
        self.gone = True
        self.gone_at = self.sim.now()
        self.gone_seq = self.ev("gone", m.get("code"))
        self.sim.fault("ws-disconnect")
        self.actor.kick()

    async def receive(self):
        self.nrecv += 1
        if self.slow == "both":
            await self.sim.pause("recv")
        while not self.queue:
            if self.st in ("closed", "denied") and not self.connect_delay:
                # the application closed: the server reports the end of the connection
                m = {"type": "websocket.disconnect", "code": 1006}
                self.disc_given += 1
                self.ev("recv", "disconnect-after-close")
                return m
            await self.actor.wait()
        m = self.queue.pop(0)
        if m["type"] == "websocket.disconnect":
            self.disc_given += 1
        self.given.append(m)
        self.ev("recv", m["type"][10:])
        return dict(m)

    async def send(self, message):
        sim = self.sim
        self.nsend += 1
        if self.end_seq is not None:
            self.late.append(message.get("type"))
        m = dict(message)
        if "headers" in m:
            m["headers"] = [(bytes(k), bytes(v)) for k, v in m["headers"]]
        if self.slow == "strict":
            await anyio.lowlevel.checkpoint()
        self.passed.append(m)
        if self.slow and self.slow != "after":
            await sim.pause("send")
        t = m["type"]
        was_open = self.st == "open"
        kind = None
        if self.fail_send is not None and self.nsend >= self.fail_send and t in ("websocket.send", "websocket.close",
                                                                                 "websocket.accept"):
            kind = "broken pipe"
        elif self.gone:
            kind = "client gone" if self.send_error and t in ("websocket.send", "websocket.close") else "lost"
        self._monitor(m, record=kind is None)
        if kind == "lost":
            self.ev("lost", t)
            return
        if kind is not None:
            if self.slow == "after":
                await sim.pause("send")
            sim.fault("send-oserror")
            self.send_errors += 1
            self.open_errors += was_open
            self.ev("send-error", t)
            raise ClientGone(kind)
        if self.on_sent is not None:
            self.on_sent(self, len(self.sent) - 1, m)
        if self.slow:
            await sim.pause("sent")

    def _monitor(self, m, record=True):
        t, st = m["type"], self.st
        bad = None
        if st == "connecting":
            if t == "websocket.accept":
                self.st = "open"
            elif t == "websocket.close":
                self.st = "closed"
            elif t == "websocket.http.response.start":
                if "websocket.http.response" not in (self.scope.get("extensions") or {}):
                    bad = "denial response without the extension"
                self.st = "denying"
            else:
                bad = f"{t} while connecting"
        elif st == "denying":
            if t == "websocket.http.response.body":
                if not m.get("more_body", False):
                    self.st = "denied"
            else:
                bad = f"{t} during denial response"
        elif st == "open":
            if t == "websocket.send":
                txt, byt = m.get("text"), m.get("bytes")
                if (txt is None) == (byt is None):
                    bad = "send needs exactly one of text, bytes"
                elif txt is not None and not isinstance(txt, str):
                    bad = "text payload is not a str"
                elif byt is not None and not isinstance(byt, (bytes, bytearray, memoryview)):
                    bad = "bytes payload is not bytes"
            elif t == "websocket.close":
                self.st = "closed"
            else:
                bad = f"{t} while open"
        else:
            bad = f"{t} after {st}"
        if bad:
            self.grammar.append(bad)
        if record:
            self.sent.append(m)
            self.sent_at.append(self.sim.now())
            self.sent_seq.append(self.ev("sent", t[10:], str(m.get("code", m.get("text", "")))[:40]))
        if self.st == "open":
            self.accepted.set()
        if self.st in ("closed", "denied"):
            self.accepted.set()
            self.actor.kick()

    def summary(self):
        return (f"WS {self.scope['path']} st={self.st} sent={[(m['type'][10:], m.get('code')) for m in self.sent][:8]}"
                f" exc={self.exc!r} hung={self.hung} gone={self.gone}")


def split_chunks(sim, body: bytes, *, max_parts=7, delays=True):
    """Draw how a client's body arrives: list of (delay, bytes, more, omit)."""
    w, s = sim.w, sim.s
    parts = w.split(body, max_parts)
    # padding: empty messages anywhere, a trailing empty final message
    pad = w.weighted([(0, 5), (1, 2), (2, 1), (3, 1)])
    for _ in range(pad):
        parts.insert(w.int(0, len(parts)), b"")
    out = []
    quick = w.chance(0.3)
    for i, p in enumerate(parts):
        more = i < len(parts) - 1
        omit = []
        if not p and w.chance(0.5):
            omit.append("body")
        if not more and w.chance(0.4):
            omit.append("more_body")
        d = 0
        if delays and not quick:
            d = s.weighted([(0, 4), ("yield", 3), (0.001, 2), (0.004, 1), (0.05, 1), (1.0, 1)])
        out.append((d, p, more, tuple(omit)))
    return out


def draw_gone(sim, p=0.4, nchunks=0, maxsends=6):
    """Draw when the client goes away (None = never)."""
    f = sim.f
    if not f.chance(p):
        return None
    k = f.pick(["chunk", "time", "sends", "recvs"])
    if k == "chunk":
        return ("chunk", f.int(0, nchunks))
    if k == "time":
        return ("time", f.pick([0.0, 0.001, 0.002, 0.003, 0.004, 0.005, 0.008, 0.01, 0.02, 0.05, 0.1, 0.5, 1.0, 2.0]))
    if k == "sends":
        return ("sends", f.int(0, maxsends))
    return ("recvs", f.int(0, nchunks + 2))
