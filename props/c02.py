"""C02: multipart forms parse the same however the body arrives."""
from __future__ import annotations

import math

from starlette.datastructures import Headers, UploadFile
from starlette.exceptions import HTTPException
from starlette.formparsers import MultiPartException, MultiPartParser
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.requests import ClientDisconnect, Request
from starlette.responses import PlainTextResponse
from starlette.routing import Route

from sim.disk import Disk

from .apps import make_app
from .common import ClientGone, Http, check_grammar, draw_gone, gather, split_chunks

RUNS = 22000
PROBES = ("default-limits", "file", "spilled", "limit-files", "limit-fields", "limit-size", "at-limit", "disconnect", "boundary-like",
          "charset", "behind-dispatch", "body-first", "in-parser")
PART_HEADERS = [(b"X-Part", b"1"), (b"x-other", b"some value; a=b"), (b"Content-ID", b"<7>"), (b"x-part", b"2"),
                (b"X-UTF", "caf\xe9".encode())]


def quoted(raw: bytes) -> bytes:
    return b'"' + raw.replace(b'"', b'\\"') + b'"'


class Form:
    def __init__(self, sim, nmax=5, files=None, big=True):
        w = sim.w
        self.sim = sim
        alphabet = "abcdefXYZ0123456789'()+_,-./:=?"
        n = w.pick([4, 8, 1, 30, 60])
        self.boundary = "".join(w.pick(alphabet) for _ in range(n)).encode()
        self.charset = w.weighted([(None, 12), ("utf-8", 4), ("latin-1", 2), ("no-such-charset", 2), ("cp1251", 2),
                                   ("shift_jis", 1)])
        if self.charset not in (None, "utf-8"):
            sim.probe("charset")
        delim = b"\r\n--" + self.boundary
        self.items = []  # (name, value str) or (name, dict of a file)
        body = bytearray()
        for i in range(w.weighted([(2, 3), (1, 2), (3, 2), (0, 1), (nmax, 1)])):
            is_file = w.chance(0.5) if files is None else files
            name = self.name()
            raw_name = self.encode(name)
            content = self.content(delim, big and is_file)
            disp = [b"form-data", b"name=" + (quoted(raw_name) if not w.chance(0.2) or not raw_name.isalnum() else raw_name)]
            filename = None
            if is_file:
                filename = w.pick(["a.txt", self.name(), "", "x y.bin", "d/e.txt"])
                fn = b"filename=" + quoted(self.encode(filename))
                disp.insert(w.pick([2, 1]), fn)
                if w.chance(0.15):
                    disp.append(b"filename*=UTF-8''other.txt")
            sep = w.pick([b"; ", b";", b" ; "])
            headers = [(w.pick([b"Content-Disposition", b"content-disposition", b"CONTENT-DISPOSITION"]), sep.join(disp))]
            ctype = None
            if w.chance(0.7 if is_file else 0.2):
                ctype = w.pick(["text/plain", "application/octet-stream", "text/plain; charset=utf-8"])
                headers.insert(w.int(0, 1), (w.pick([b"Content-Type", b"content-type"]), ctype.encode()))
            for h in w.sample(PART_HEADERS, w.weighted([(0, 5), (1, 2), (3, 1)])):
                headers.insert(w.int(0, len(headers)), h)
            body += b"--" + self.boundary + b"\r\n"
            for k, v in headers:
                body += k + b": " + v + b"\r\n"
            body += b"\r\n" + content + b"\r\n"
            if is_file:
                sim.probe("file")
                self.items.append((name, {"filename": filename, "content": content, "ctype": ctype,
                                          "headers": [(k.lower(), v) for k, v in headers]}))
            else:
                self.items.append((name, self.decode(content), len(content)))
        if w.chance(0.006):
            # around the default limits
            k, over = w.pick(["files", "fields", "size"]), w.int(0, 1)
            sim.probe("default-limits")
            if k == "size":
                content = b"s" * ((1 << 20) + over)
                body += b"--" + self.boundary + b"\r\ncontent-disposition: form-data; name=z\r\n\r\n" + content + b"\r\n"
                self.items.append(("z", content.decode(), len(content)))
            else:
                n = 1000 + over - sum(1 for i in self.items if isinstance(i[1], dict) == (k == "files"))
                for _ in range(n):
                    body += b"--" + self.boundary + b"\r\ncontent-disposition: form-data; name=z"
                    if k == "files":
                        body += b"; filename=y"
                    body += b"\r\n\r\nv\r\n"
                    self.items.append(("z", {"filename": "y", "content": b"v", "ctype": None, "headers": [
                        (b"content-disposition", b"form-data; name=z; filename=y")]} if k == "files" else "v", *([] if k == "files" else [1])))
        body += b"--" + self.boundary + b"--"
        body += w.pick([b"\r\n", b""])
        self.body = bytes(body)
        v = b"multipart/form-data; boundary=" + (b'"' + self.boundary + b'"' if w.chance(0.6) or set(self.boundary) & set(
            b"'()+_,./:=?") else self.boundary)
        if self.charset:
            v += b"; charset=" + self.charset.encode()
        self.ctype = v
        self.nfiles = sum(1 for i in self.items if isinstance(i[1], dict))
        self.nfields = len(self.items) - self.nfiles
        self.biggest = max([i[2] for i in self.items if not isinstance(i[1], dict)], default=0)

    def name(self):
        w = self.sim.w
        n = w.weighted([(3, 4), (1, 2), (8, 2), (20, 1)])
        pool = "abcXYZ09 _-.~;=&%+<>/,'\"" + {None: "éüλ漢😀", "utf-8": "éüλ漢😀", "cp1251": "Жщя", "shift_jis": "あ漢"}.get(
            self.charset, "éü")
        return "".join(w.pick(pool) for _ in range(n)).strip() or "n"

    def encode(self, s):
        return s.encode({None: "utf-8", "no-such-charset": "latin-1"}.get(self.charset, self.charset))

    def decode(self, b):
        try:
            return b.decode(self.charset or "utf-8")
        except (UnicodeDecodeError, LookupError):
            return b.decode("latin-1")

    def content(self, delim, big):
        w = self.sim.w
        k = w.weighted([("text", 4), ("bytes", 3), ("empty", 1), ("delim", 4), ("big", 1 if big else 0)])
        if k == "empty":
            return b""
        if k == "text":
            return w.text(w.int(1, 30)).encode()
        if k == "bytes":
            return w.bytes(w.pick([1, 20, 100, 300, 1000]))
        if k == "big":
            return w.bytes(w.pick([4000, 8192, 70_000, 66_000]))
        self.sim.probe("boundary-like")
        out = b""
        for _ in range(w.int(1, 8)):
            p = w.pick([b"\r\n", b"\r", b"\n", b"-", b"--", b"x", delim, b"--" + self.boundary])
            if len(p) > 2:
                p = p[:w.int(1, len(p) - 1)]
            out += p
        while delim in b"\r\n" + out:
            out = out.replace(self.boundary, b"")
        return out


def scenario(sim):
    w = sim.w

    async def main():
        disk = Disk(sim)
        disk.slow = w.chance(0.5)
        old = MultiPartParser.spool_max_size
        MultiPartParser.spool_max_size = w.pick([old, 50, 5, 300, 1])
        sim.cleanups.append(lambda: setattr(MultiPartParser, "spool_max_size", old))
        units = [Unit(sim, f"c{i}") for i in range(w.weighted([(1, 5), (2, 2), (3, 1)]))]
        await gather(*(u.ex.call() for u in units))
        for u in units:
            u.judge()
        if disk.files:
            sim.probe("spilled")

    sim.run(main)


class Unit:
    def __init__(self, sim, name):
        w = sim.w
        self.sim, self.name = sim, name
        form = self.form = Form(sim)
        self.limits = {}
        for key, have in (("max_files", form.nfiles), ("max_fields", form.nfields), ("max_part_size", form.biggest)):
            c = w.weighted([("default", 6), ("exact", 2), ("less", 2), ("more", 1), ("zero", 1), ("inf", 1)])
            if c == "default":
                continue
            v = {"exact": have, "less": have - 1, "more": have + 1, "zero": 0, "inf": math.inf}[c]
            if v < 0:
                continue
            if c == "inf" and key == "max_part_size":
                continue
            self.limits[key] = v
            if v == have and have:
                sim.probe("at-limit")
        self.excess = {k for k, have in (("max_files", form.nfiles), ("max_fields", form.nfields),
                                         ("max_part_size", form.biggest))
                       if have > self.limits.get(k, {"max_part_size": 1 << 20}.get(k, 1000))}
        for k in self.excess:
            sim.probe("limit-" + {"max_files": "files", "max_fields": "fields", "max_part_size": "size"}[k])
        self.how = w.pick(["app", "app", "bare", "parser"])
        self.body_first = w.chance(0.15)
        self.outcome = None
        self.read = w.pick(["all", "step", "seek"])
        chunks = split_chunks(sim, form.body, max_parts=w.pick([7, 7, 20]))
        headers = [(b"content-type", form.ctype)]
        if self.how == "app":
            async def ep(request):
                await self.work(request)
                return PlainTextResponse("ok")
            mws = []
            if w.chance(0.3):
                sim.probe("behind-dispatch")
                reads = w.chance(0.5)

                async def dispatch(request, call_next):
                    if reads:
                        await request.body()
                    return await call_next(request)
                mws.append(Middleware(BaseHTTPMiddleware, dispatch=dispatch))
            self.dispatch = bool(mws)
            app = make_app(sim, routes=[Route("/", ep, methods=["POST"])], middleware=mws)
        else:
            self.dispatch = False

            async def app(scope, receive, send):
                await self.work(Request(scope, receive))
                await PlainTextResponse("ok")(scope, receive, send)
        self.ex = Http(sim, app, name, method="POST", headers=headers, chunks=chunks, spec=w.pick(["2.3", "2.4"]),
                       style=w.pick(["drop", "queue"]), gone=draw_gone(sim, 0.3, len(chunks)), coalesce=w.chance(0.2),
                       slow=w.pick([True, "both", False]))

    async def work(self, request):
        sim = self.sim
        self.outcome = ("running", None)
        if self.body_first and self.how != "parser":
            sim.probe("body-first")
            await request.body()
        try:
            if self.how == "parser":
                sim.probe("in-parser")

                async def chunks():
                    async for c in request.stream():
                        await sim.pause("chunks")
                        yield c

                form = await MultiPartParser(Headers(raw=[(b"content-type", self.form.ctype)]), chunks(),
                                             **self.limits).parse()
            else:
                form = await request.form(**self.limits)
        except BaseException as e:
            self.outcome = ("error", e)
            raise
        self.outcome = ("form", form)
        await self.compare(form)
        if self.how != "parser" and (await request.form()) is not form:
            sim.fail("form-changed", f"{self.name}: second form() is another object")
        await form.close()

    async def compare(self, form):
        sim, want = self.sim, self.form.items
        got = form.multi_items()
        where = f"{self.name}: {self.form.ctype!r} {self.form.body[:300]!r}"
        if [k for k, _ in got] != [i[0] for i in want]:
            return sim.fail("names", f"got {[k for k, _ in got]} want {[i[0] for i in want]}: {where}")
        for (k, v), i in zip(got, want):
            x = i[1]
            if isinstance(x, dict) != isinstance(v, UploadFile):
                return sim.fail("kind", f"{k}: {v!r}: {where}")
            if not isinstance(x, dict):
                if v != x:
                    return sim.fail("value", f"{k}: got {v!r:.120} want {x!r:.120}: {where}")
                continue
            if v.filename != x["filename"] or v.content_type != x["ctype"] or v.headers.raw != x["headers"]:
                return sim.fail("file-meta", f"{k}: {v!r} want {x!r:.300}: {where}")
            if v.size != len(x["content"]):
                return sim.fail("file-size", f"{k}: size {v.size} want {len(x['content'])}: {where}")
            if self.read == "all":
                data = await v.read()
            elif self.read == "step":
                data = b""
                while True:
                    c = await v.read(sim.w.pick([7, 1000, 100_000]))
                    if not c:
                        break
                    data += c
            else:
                data = await v.read(3)
                await v.seek(0)
                if await v.read(3) != data:
                    sim.fail("file-seek", where)
                data += await v.read()
            if data != x["content"]:
                return sim.fail("file-content", f"{k}: got {data!r:.200}({len(data)}) want {x['content']!r:.200}"
                                                f"({len(x['content'])}): {where}")

    def judge(self):
        sim, ex = self.sim, self.ex
        check_grammar(sim, ex)
        where = f"{self.how} limits={self.limits} {self.form.ctype!r} {self.form.body[:200]!r}: {ex.summary()}"
        if ex.hung:
            return sim.fail("hang", where)
        if self.outcome is None:
            if ex.disc_given and not ex.final_given and (self.dispatch or self.body_first):
                return
            return sim.fail("not-run", where)
        kind, val = self.outcome
        complete = ex.final_given
        if kind == "running":  # body() or the dispatcher's body() raised
            if complete or not isinstance(ex.exc, (ClientDisconnect, ClientGone)):
                return sim.fail("read-error", where)
            return
        if kind == "form":
            if self.excess:
                return sim.fail("limit-ignored", f"{self.excess}: {where}")
            if not complete:
                return sim.fail("partial-form", where)
            if ex.exc is not None and not isinstance(ex.exc, ClientGone):
                return sim.fail("error", where)
            if ex.exc is None and not ex.gone and (ex.status, ex.body) != (200, b"ok"):
                return sim.fail("response", where)
            return
        e = val
        if isinstance(e, ClientDisconnect):
            if complete:
                return sim.fail("false-disconnect", where)
            return sim.probe("disconnect")
        rejected = isinstance(e, MultiPartException) or isinstance(e, HTTPException) and e.status_code == 400
        if not rejected:
            return sim.fail("error", f"{e!r}: {where}")
        if not self.excess:
            return sim.fail("rejected", f"{e!r}: {where}")
        if (self.how == "app") != isinstance(e, HTTPException):
            return sim.fail("wrong-rejection", f"{e!r}: {where}")
        if self.how == "app" and not ex.gone and (ex.status != 400 or not ex.full):
            return sim.fail("not-400", where)
