"""C24: the WSGI bridge is ordered and complete, and errors surface."""
from __future__ import annotations

import sys
import threading
import warnings

from starlette.requests import ClientDisconnect
from starlette.routing import Mount

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from starlette.middleware.wsgi import WSGIMiddleware

from .apps import make_app, AppGroup, draw_delay, ERRS as ALL_ERRS
from .common import ClientGone, Http, adelay, check_grammar, draw_gone, draw_size, gather, split_chunks
from sim.server import draw_cancel
from .stack import decode, decode_prefix, draw_stack

# a task group may hand on an application's group inside its own, or divided
ERRS = [e for e in ALL_ERRS if e is not AppGroup]

RUNS = 16000
PROBES = ("list", "generator", "iterator", "late-start", "thrown-early", "thrown-mid", "thrown-late", "exc-info", "exc-info-late", "started-twice",
          "streamed", "client-slow", "gone", "gone-in-body", "complete", "big-body", "empty-body", "read-lines", "read-parts", "mounted", "nested",
          "server-root-path", "latin-1", "duplicate-headers", "no-client", "concurrent", "same-app", "behind-dispatch", "thread-wait", "empty-chunk",
          "closed", "closed-after-error", "closed-early", "cancelled")


def scenario(sim):
    w = sim.w

    async def main():
        n = w.weighted([(1, 4), (2, 3), (3, 1), (6, 1)])
        if n > 1:
            sim.probe("concurrent")
        h = Harness(sim, n)
        await gather(*(u.go() for u in h.units))
        for u in h.units:
            u.judge()

    sim.run(main)


class Harness:
    """Several requests to WSGI applications; some share one bridge object."""

    def __init__(self, sim, n):
        w = sim.w
        self.units = [Unit(sim, f"c{i}") for i in range(n)]
        by_name = {u.name: u for u in self.units}

        def wsgi(environ, start_response):
            u = by_name.get(environ.get("HTTP_X_UNIT"))
            if u is None:
                sim.fail("environ", f"the request's x-unit header is missing: {environ!r}")
                start_response("500 no", [])
                return []
            return u.wsgi(environ, start_response)

        self.mws, self.names = [], []
        if w.chance(0.35):
            self.mws, self.names = draw_stack(sim, w.int(1, 2))
        if "dispatch" in self.names:
            sim.probe("behind-dispatch")
        shared = WSGIMiddleware(wsgi) if n > 1 and w.chance(0.7) else None
        if shared is not None:
            sim.probe("same-app")
        where = w.pick(["bare", "mount", "mount", "nested"])
        for u in self.units:
            app = shared or WSGIMiddleware(wsgi)
            u.setup(app, where, self.mws, self.names)


class Unit:
    def __init__(self, sim, name):
        w = sim.w
        self.sim, self.name = sim, name
        self.err = None
        self.iterable = None
        self.entered = 0
        self.end_seq = None
        self.made = []  # (seq, time, what, data) of what the application produced
        self.threads = set()
        self.style = w.pick(["list", "generator", "generator", "iterator"])
        sim.probe(self.style)
        self.status = w.pick(["200 OK", "201 Created", "404 Not Found", "299 strange words here", "500 Internal Server Error"])
        self.headers = [("Content-Type", "text/plain"), ("X-One", " padded ")] + [(f"X-{i}", f"v{i}") for i in range(w.int(0, 2))]
        if w.chance(0.2):
            self.headers += [("Set-Cookie", "a=1"), ("Set-Cookie", "b=2")]
        if w.chance(0.2):
            sim.probe("latin-1")
            self.headers.append(("X-Latin", "caf\xe9"))
        self.chunks = [w.bytes(w.weighted([(0, 1), (3, 4), (50, 2), (2000, 1)])) for _ in range(w.int(0, 5))]
        if b"" in self.chunks:
            sim.probe("empty-chunk")
        self.waits = [w.pick([0, 0, None, 0.002, 0.05, 1.0]) for _ in range(len(self.chunks) + 3)]
        self.late = w.chance(0.3) and self.style != "list"
        self.reading = w.pick(["all", "parts", "lines", "none"])
        self.fault = None  # (place, kind): place = number of chunks produced before
        if w.chance(0.4):
            self.fault = (w.int(-1, len(self.chunks)), w.pick(["throw", "throw", "exc-info", "again"]))

    def setup(self, bridge, where, mws, names):
        sim, w = self.sim, self.sim.w
        self.names = names
        size = draw_size(w)
        self.payload = w.bytes(size) if w.chance(0.7) else b"\n".join(w.bytes(5) for _ in range(size // 6))
        if len(self.payload) > 20000:
            sim.probe("big-body")
        if not self.payload:
            sim.probe("empty-body")
        chunks = split_chunks(sim, self.payload)
        self.method = w.pick(["POST", "PUT", "GET", "PATCH"])
        inner = w.pick(["/", "/a", "/a/b c", "/\u00e9/\u20ac", "/m/x"])
        self.script = ""
        app = bridge
        if where != "bare":
            sim.probe("mounted")
            self.script = "/m"
            app = Mount("/m", app=app)
            if where == "nested":
                sim.probe("nested")
                self.script = "/\u00fcber/m"
                app = Mount("/\u00fcber", routes=[app])
            app = make_app(sim, routes=[app], middleware=mws)
        else:
            for m in reversed(mws):
                app = m.cls(app, *m.args, **m.kwargs)
        root = ""
        if w.chance(0.15):
            sim.probe("server-root-path")
            root = "/proxy"
            self.script = root + self.script
        self.info = inner
        headers = [(b"x-unit", self.name.encode()), (b"x-long-name", b"v w")]
        self.extra = {"HTTP_X_UNIT": self.name, "HTTP_X_LONG_NAME": "v w", "HTTP_HOST": "testserver"}
        if w.chance(0.3):
            sim.probe("duplicate-headers")
            headers += [(b"x-dup", b"1"), (b"x-other", b"o"), (b"x-dup", b"2")]
            self.extra |= {"HTTP_X_DUP": "1,2", "HTTP_X_OTHER": "o"}
        if w.chance(0.5):
            headers += [(b"content-type", b"a/b; c=d"), (b"content-length", b"%d" % len(self.payload))]
            self.extra |= {"CONTENT_TYPE": "a/b; c=d", "CONTENT_LENGTH": str(len(self.payload))}
        if w.chance(0.2):
            headers.append((b"x-lat", b"\xe9"))
            self.extra["HTTP_X_LAT"] = "\xe9"
        if w.chance(0.2):
            headers.append((b"accept-encoding", b"gzip"))
            self.extra["HTTP_ACCEPT_ENCODING"] = "gzip"
        client = ("1.2.3.4", 5)
        if w.chance(0.2):
            sim.probe("no-client")
            client = None
        self.client = client
        self.query = w.pick([b"", b"a=b&c=%20"])
        self.http = w.pick(["1.1", "1.0", "2"])
        self.scheme = w.pick(["http", "https"])
        slow = w.pick([True, False, False, "strict"])
        if slow is not False:
            sim.probe("client-slow")
        self.instant = slow is False
        self.ex = Http(sim, app, self.name, method=self.method, path=self.script + inner, root_path=root, headers=headers, chunks=chunks,
                       query=self.query, client=client, http_version=self.http, scheme=self.scheme, slow=slow,
                       spec=w.pick(["2.0", "2.3", "2.4"]), style=w.pick(["drop", "queue"]), gone=draw_gone(sim, 0.2, len(chunks), 5))
        self.at = draw_delay(sim)
        # (a natively cancelled task leaves its thread behind, which is how anyio works)
        self.cancel = ("scope", draw_cancel(sim, 20)[1]) if sim.f.chance(0.1) else None

    async def go(self):
        await adelay(self.at)
        await self.ex.call(cancel=self.cancel)

    # -- the WSGI application (worker thread)
    def make(self, what, data=None):
        sim = self.sim
        if not sim.in_worker():
            sim.fail("not-in-a-thread", f"{self}: {what} on the event loop thread")
        self.threads.add(threading.get_ident())
        seq = next(sim.seq)
        self.made.append((seq, sim.now(), what, data))
        sim.log(self.name + ".wsgi", what, len(data) if isinstance(data, bytes) else "")

    def wsgi(self, environ, start_response):
        self.entered += 1
        self.make("enter")
        self.look(environ)
        if self.style == "list":
            list(self.steps(start_response, gather_only=True))
            self.finish()
            return list(self.chunks)
        if not self.late:
            self.start(start_response)
        else:
            self.sim.probe("late-start")
        if self.style == "generator":
            self.iterable = Closing(self, self.steps(start_response))
            return self.iterable
        return Iter(self.steps(start_response))

    def finish(self):
        self.make("end")

    def wait(self, i):
        if self.waits[i] != 0:
            self.sim.probe("thread-wait")
            self.sim.tpause("wsgi", self.waits[i])

    def trouble(self, place, start_response):
        if self.fault is None or self.fault[0] != place:
            return
        kind = self.fault[1]
        if kind == "again":
            self.sim.probe("started-twice")
            start_response("418 again", [("X-Again", "1")])
            return
        self.err = self.sim.w.pick(ERRS)(f"{self.name}-err")
        if kind == "throw":
            self.sim.probe("thrown-early" if place < 0 else "thrown-late" if place == len(self.chunks) else "thrown-mid")
            self.make("throw")
            raise self.err
        self.sim.probe("exc-info-late" if place > 0 else "exc-info")
        try:
            raise self.err
        except Exception:
            self.make("exc-info")
            if place < 0:
                self.make("start", (500, [("x-err", "1")]))
            start_response("500 err", [("X-Err", "1")], sys.exc_info())

    def start(self, start_response):
        if self.fault and self.fault[0] < 0:
            if self.fault[1] == "again":
                self.fault = (0, "again")
            else:
                self.trouble(-1, start_response)
                return
        self.make("start", (int(self.status[:3]), [(k.lower(), v.strip()) for k, v in self.headers]))
        start_response(self.status, list(self.headers))

    def steps(self, start_response, gather_only=False):
        if gather_only or self.late:
            self.start(start_response)
        for i, c in enumerate(self.chunks):
            self.wait(i)
            self.trouble(i, start_response)
            self.make("chunk", c)
            yield c
        self.wait(len(self.chunks))
        self.trouble(len(self.chunks), start_response)
        if not gather_only:
            self.finish()

    def look(self, environ):
        """The environment the request stands for, by PEP 3333."""
        sim = self.sim
        want = {
            "REQUEST_METHOD": self.method, "SCRIPT_NAME": self.script.encode().decode("latin-1"), "PATH_INFO": self.info.encode().decode("latin-1"),
            "QUERY_STRING": self.query.decode(), "SERVER_PROTOCOL": "HTTP/" + self.http, "wsgi.version": (1, 0), "wsgi.url_scheme": self.scheme,
            "wsgi.multithread": True, "wsgi.run_once": False, "SERVER_NAME": "testserver", "SERVER_PORT": 80, **self.extra,
        }
        if self.client:
            want["REMOTE_ADDR"] = "1.2.3.4"
        got = {k: v for k, v in environ.items() if k not in ("wsgi.input", "wsgi.errors", "wsgi.multiprocess")}
        if str(got.get("SERVER_PORT")) == "80":
            got["SERVER_PORT"] = 80
        if got != want:
            diff = {k: (got.get(k), want.get(k)) for k in {*got, *want} if got.get(k) != want.get(k)}
            sim.fail("environ", f"{self}: (got, wanted): {sorted(diff.items())}")
        inp = environ["wsgi.input"]
        if self.reading == "parts":
            sim.probe("read-parts")
            body = b""
            while c := inp.read(sim.w.int(1, 5000)):
                body += c
                sim.tpause("read")
        elif self.reading == "lines":
            sim.probe("read-lines")
            body = b"".join(inp)
        else:
            body = inp.read()
        if body != self.payload:
            sim.fail("request-body", f"{self}: the application received {body[:40]!r}({len(body)}), the client sent {len(self.payload)} bytes")

    def __repr__(self):
        return (f"<{self.name} {self.style} {self.status!r} chunks={[len(c) for c in self.chunks]} late={self.late} fault={self.fault} "
                f"payload={len(self.payload)} stack={self.names}>")

    # -- judging
    def judge(self):
        sim, ex = self.sim, self.ex
        where = f"{self}: {ex.summary()}"
        fail = lambda code, more="": sim.fail(code, where + more)  # noqa: E731
        check_grammar(sim, ex)
        if ex.hung:
            return fail("hang")
        if self.entered > 1:
            return fail("run-twice")
        if len(self.threads) > 1:
            return fail("several-threads")
        if ex.left:
            return fail("tasks-left", f": {ex.left}")
        if sum(m["type"] == "http.response.start" for m in ex.sent) > 1:
            return fail("start-twice")
        if self.made and self.made[-1][0] > ex.end_seq:
            return fail("thread-left", ": the WSGI application still ran when the request had ended")
        if self.iterable is not None:
            n = len(self.iterable.closed)
            if n != 1:
                return fail("not-closed", f": close() of the iterable was called {n} times")
            if any(k in ("chunk", "end", "throw") and seq > self.iterable.closed[0] for seq, _, k, _ in self.made):
                return fail("closed-early")
            sim.probe("closed-after-error" if self.err else "closed-early" if ex.gone or ex.cancelled else "closed")
        if ex.cancelled:
            return sim.probe("cancelled")
        starts = [d for _, _, k, d in self.made if k == "start"]
        chunks = [d for _, _, k, d in self.made if k == "chunk"] if self.style != "list" or self.err else self.chunks
        ended = any(k == "end" for _, _, k, _ in self.made)
        thrown = any(k == "throw" for _, _, k, _ in self.made)
        # what the client has is a prefix of what was produced, in order
        page = b"Internal Server Error"
        err500 = ex.status == 500 and (ex.body == page or ex.gone and page.startswith(ex.body)) and self.err is not None
        got = decode_prefix(ex)
        if ex.status is not None and not err500:
            if not starts:
                if not (ex.gone or self.err is not None):
                    return fail("head")
            else:
                status, headers = starts[0]
                have = [(k.decode("latin-1"), v.decode("latin-1")) for k, v in ex.rheaders]
                it = iter(have)
                if ex.status != status or not all(x in it for x in headers):
                    return fail("head", f": wanted {starts[0]}, got {have}")
            if not self.names and not b"".join(chunks).startswith(got):
                return fail("order")
            if not self.names:
                self.progress(fail)
        if not self.entered:
            if not ex.gone:
                return fail("not-run")
            sim.probe("gone-in-body")
            if not isinstance(ex.exc, (ClientDisconnect, ClientGone, type(None), RuntimeError)):
                return fail("error")
            return
        if ex.gone and not (ex.complete_seq and ex.complete_seq < ex.gone_seq):
            return sim.probe("gone")
        if self.err is not None:
            if root(ex.exc) is not self.err:
                return fail("error-lost", f": {self.err!r}")
            if thrown:
                return
            if not err500 and starts and decode(ex) != b"".join(chunks):
                return fail("body", f": wanted {len(b''.join(chunks))} bytes")
            return
        if ex.exc is not None:
            return fail("error")
        if not ended:
            return fail("not-run-to-the-end")
        if not ex.full or decode(ex) != b"".join(self.chunks):
            return fail("body", f": wanted {[len(c) for c in self.chunks]}")
        sim.probe("complete")

    def progress(self, fail):
        """Chunks do not wait for the application to finish (a client that takes everything at once)."""
        ex, sim = self.ex, self.sim
        if self.style == "list" or not self.instant:
            return
        sent = [(m, t) for m, t in zip(ex.sent, ex.sent_at) if m.get("body") != b""]
        made = [(k, t) for _, t, k, d in self.made if k in ("start", "chunk") and d != b""]
        if len(made) > 1 and made[-1][1] > made[0][1]:
            sim.probe("streamed")
        for (k, t), (m, ts) in zip(made, sent):
            if ts != t:
                return fail("delayed", f": {k} made at {t - 100:.6f} was sent at {ts - 100:.6f}")
        last = [t for _, t, k, _ in self.made if k != "close"][-1]
        early = [k for k, t in made if t < last]
        if len(sent) < len(early) and not ex.gone:
            return fail("delayed", f": {len(early)} messages were made before the end, {len(sent)} sent")


class Closing:
    """An iterable with a close method, which PEP 3333 has called however the request ends."""

    def __init__(self, unit, it):
        self.unit, self.it, self.closed = unit, it, []

    def __iter__(self):
        return self.it

    def close(self):
        self.unit.make("close")
        self.closed.append(self.unit.made[-1][0])
        self.it.close()


class Iter:
    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


def root(e):
    while isinstance(e, BaseExceptionGroup) and len(e.exceptions) == 1:
        e = e.exceptions[0]
    return e
