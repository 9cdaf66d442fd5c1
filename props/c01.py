"""C01: the request body reaches the application intact."""
from __future__ import annotations

import json

import anyio

from starlette.endpoints import HTTPEndpoint
from starlette.requests import ClientDisconnect, Request
from starlette.responses import PlainTextResponse
from starlette.routing import Mount, Route

from .apps import make_app
from .common import ClientGone, Http, check_grammar, draw_gone, draw_size, gather, quote_plus, split_chunks

RUNS = 30000
PROBES = ("disconnect", "reread", "consumed-error", "disconnect-error", "partial-stream", "form", "json", "json-encoding", "empty-msgs")


def gen_form(w):
    pairs = []
    for _ in range(w.int(0, 6)):
        name = w.text(w.int(1, 6))
        val = w.text(w.pick([0, 1, 3, 12, 60]))
        pairs.append((name, val))
    body = b""
    for i, (n, v) in enumerate(pairs):
        if i:
            body += b"&"
        body += quote_plus(w, n)
        if v or not w.chance(0.2):
            body += b"=" + quote_plus(w, v)
    return pairs, body


def gen_json(w, depth=0):
    k = w.int(0, 6 if depth < 3 else 4)
    if k == 0:
        return w.int(0, 10**6)
    if k == 1:
        return w.text(w.int(0, 8))
    if k == 2:
        return None
    if k == 3:
        return w.chance(0.5)
    if k == 4:
        return w.int(0, 1000) / 8
    if k == 5:
        return [gen_json(w, depth + 1) for _ in range(w.int(0, 4))]
    return {w.text(3) + str(i): gen_json(w, depth + 1) for i in range(w.int(0, 4))}


class Reader:
    """Runs an accessor program against one request and compares it with the reference reader."""

    def __init__(self, sim, ex, body, kind, pairs, value, program):
        self.sim, self.ex, self.body, self.kind = sim, ex, body, kind
        self.pairs, self.value, self.program = pairs, value, program
        self.ran = False

    def fail(self, code, msg):
        self.sim.fail(code, f"{self.ex.name}: program {self.program} body {self.body[:80]!r}({len(self.body)}): {msg}")

    async def run(self, request: Request):
        self.ran = True
        sim, ex, body = self.sim, self.ex, self.body
        cached = False  # whole body cached
        consumed = False  # stream used up
        form_cached = False
        got = b""  # read so far through partial streaming
        dead = False  # the disconnect was reported
        for op in self.program:
            if op[0] == "sleep":
                await anyio.sleep(op[1])
                continue
            res = err = None
            seen = b""
            ended = False
            try:
                if op[0] == "stream":
                    k = op[1]
                    n = 0
                    it = request.stream()
                    async for chunk in it:
                        if not isinstance(chunk, (bytes, memoryview)):
                            self.fail("stream-type", f"chunk {chunk!r}")
                        seen += chunk
                        n += 1
                        if op[2]:
                            await sim.pause("reader")
                        if k is not None and n >= k:
                            break
                    else:
                        ended = True
                    if not ended:
                        await it.aclose()
                elif op[0] == "body":
                    res = await request.body()
                elif op[0] == "json":
                    res = await request.json()
                elif op[0] == "form":
                    form = await request.form()
                    res = list(form.multi_items())
            except ClientDisconnect as e:
                err = e
            except RuntimeError as e:
                err = e
            except Exception as e:
                err = e
            sim.log("app", op[0], type(err).__name__ if err else "ok")
            if isinstance(err, ClientDisconnect):
                sim.probe("disconnect-error")
                if not ex.disc_given or ex.final_given or cached or consumed:
                    return self.fail("false-disconnect", f"{op}: ClientDisconnect although the body was "
                                     f"complete={ex.final_given} disconnect delivered={ex.disc_given}")
                if not body.startswith(got + seen):
                    return self.fail("stream-corrupt", f"{op}: prefix read {got + seen!r:.80}")
                got += seen
                dead = True
                continue
            if dead and err is None:
                return self.fail("partial-as-complete", f"{op}: succeeded after the disconnect with {res!r:.100} {seen!r:.80}")
            # -- expected outcome
            if op[0] == "form" and form_cached:
                self.expect(op, err, res, self.pairs, "form-changed")
                sim.probe("reread")
                continue
            if op[0] in ("body", "json") and cached or op[0] in ("stream", "form") and cached:
                sim.probe("reread")
            elif consumed:
                sim.probe("consumed-error")
                if not isinstance(err, RuntimeError):
                    return self.fail("consumed-stream-reread", f"{op}: stream was consumed before, got err={err!r} "
                                     f"res={res!r:.80} data={seen!r:.80}")
                continue
            if op[0] == "stream":
                if isinstance(err, RuntimeError) and got == body and ex.final_given:
                    consumed = True  # the last chunk was already taken by an abandoned stream
                    continue
                if err is not None:
                    return self.fail("read-error", f"{op}: {err!r}")
                if cached:
                    want = body if ended else None
                    if ended and seen != body or not body.startswith(seen):
                        return self.fail("stream-corrupt", f"{op}: cached body streamed as {seen!r:.100}")
                    continue
                got += seen
                if not body.startswith(got):
                    return self.fail("stream-corrupt", f"{op}: read {got!r:.120}")
                if ended:
                    consumed = True
                    if got != body:
                        return self.fail("partial-as-complete", f"{op}: stream ended after {len(got)} bytes: {got!r:.100}")
                else:
                    sim.probe("partial-stream")
                continue
            if op[0] == "body":
                self.expect(op, err, res, body, "body-corrupt")
                cached = True
            elif op[0] == "json":
                if self.kind == "json":
                    sim.probe("json")
                    self.expect(op, err, res, self.value, "json-corrupt")
                elif err is None:
                    try:
                        want = json.loads(body)
                        self.expect(op, err, res, want, "json-corrupt")
                    except ValueError:
                        self.fail("json-accepted", f"invalid JSON returned {res!r:.80}")
                elif not isinstance(err, ValueError):
                    self.fail("read-error", f"{op}: {err!r}")
                cached = True
            elif op[0] == "form":
                if self.kind == "form":
                    sim.probe("form")
                    self.expect(op, err, res, self.pairs, "form-corrupt")
                    if not cached:
                        consumed = True
                    form_cached = True

    def expect(self, op, err, res, want, code):
        if err is not None:
            self.fail("read-error", f"{op}: {err!r}")
        elif res != want or type(res) is not type(want):
            self.fail(code, f"{op}: got {res!r:.160} want {want!r:.160}")


def scenario(sim):
    w = sim.w

    async def main():
        exs = []
        for i in range(w.weighted([(1, 4), (2, 2), (3, 1)])):
            exs.append(one(sim, f"c{i}"))
        await gather(*(ex.call() for ex, _ in exs))
        for ex, rd in exs:
            check_grammar(sim, ex)
            if ex.hung:
                sim.fail("hang", f"{ex.name}: reading never finished: program {rd.program} "
                                 f"body {len(rd.body)} final_given={ex.final_given} {ex.summary()}")
            elif ex.exc is not None and not isinstance(ex.exc, ClientGone):
                sim.fail("app-error", f"{ex.name}: {ex.exc!r}")
            elif not rd.ran:
                sim.fail("not-run", ex.summary())

    sim.run(main)


def one(sim, name):
    w = sim.w
    kind = w.pick(["raw", "form", "json"])
    pairs = value = None
    headers = []
    if kind == "form":
        pairs, body = gen_form(w)
        headers.append((b"content-type", w.pick([b"application/x-www-form-urlencoded",
                                                 b"application/x-www-form-urlencoded; charset=utf-8",
                                                 b"application/X-WWW-form-urlencoded"][:2])))
    elif kind == "json":
        value = gen_json(w)
        codec = w.weighted([("utf-8", 12), ("utf-8-sig", 1), ("utf-16", 1), ("utf-16-le", 1), ("utf-32-be", 1)])
        if codec != "utf-8":
            sim.probe("json-encoding")
        body = json.dumps(value, ensure_ascii=w.chance(0.5)).encode(codec)
        headers.append((b"content-type", b"application/json"))
    else:
        body = w.bytes(draw_size(w))
    if w.chance(0.3):
        headers.append((b"content-length", str(len(body)).encode()))
    chunks = split_chunks(sim, body)
    if any(not c[1] for c in chunks[:-1]):
        sim.probe("empty-msgs")
    # accessor program
    program = []
    partial = False
    n = w.int(1, 4)
    for _ in range(n):
        if w.chance(0.2):
            program.append(("sleep", w.pick([0, 0.001, 0.01, 1.0])))
        ops = ["body", "stream", "json"] if kind != "form" else ["form", "body", "stream", "json"]
        op = w.pick(ops)
        if op == "stream":
            k = w.int(1, 5) if w.chance(0.35) else None
            program.append(("stream", k, w.chance(0.5)))
            if k is not None:
                partial = True
        elif partial:
            program.append(("stream", None, False))
        else:
            program.append((op,))
    if kind == "json" and not partial:
        pass
    elif kind == "raw":
        program = [p if p[0] != "json" or w.chance(0.2) else ("body",) for p in program]
    holder = {}

    async def endpoint(request):
        await holder["rd"].run(request)
        return PlainTextResponse("ok")

    class Endpoint(HTTPEndpoint):
        async def post(self, request):
            await holder["rd"].run(request)
            return PlainTextResponse("ok")

    async def raw(scope, receive, send):
        request = Request(scope, receive)
        await holder["rd"].run(request)
        await PlainTextResponse("ok")(scope, receive, send)

    how = w.pick(["raw", "route", "class", "mount", "sendarg"])
    if how == "raw":
        app = raw
    elif how == "sendarg":
        async def app(scope, receive, send):
            request = Request(scope, receive=receive, send=send)
            await holder["rd"].run(request)
            await PlainTextResponse("ok")(scope, receive, send)
    elif how == "route":
        app = make_app(sim, routes=[Route("/", endpoint, methods=["POST"])])
    elif how == "class":
        app = make_app(sim, routes=[Route("/", Endpoint)])
    else:
        app = make_app(sim, routes=[Mount("/", routes=[Route("/", endpoint, methods=["POST"])])])
    ex = Http(sim, app, name, method="POST", headers=headers, chunks=chunks, spec=w.pick(["2.3", "2.4"]),
              style=w.pick(["drop", "queue"]), gone=draw_gone(sim, 0.35, len(chunks)), coalesce=w.chance(0.2),
              slow=w.pick([True, "both", False]))
    rd = holder["rd"] = Reader(sim, ex, body, kind, pairs, value, program)
    return ex, rd
