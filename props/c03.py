"""C03: uploaded files are stored faithfully, off the event loop, and released."""
from __future__ import annotations

import io
import tempfile

import anyio

from starlette.datastructures import UploadFile
from starlette.formparsers import MultiPartParser
from starlette.requests import ClientDisconnect, Request
from starlette.responses import PlainTextResponse
from starlette.routing import Route

from sim.disk import Disk, draw_faults
from sim.server import draw_cancel

from .apps import make_app, AppError
from .c02 import Form
from .common import Http, check_grammar, draw_gone, gather, split_chunks

RUNS = 22000
PROBES = ("ops", "rolled", "rolled-by-user", "form", "parse-failed", "limit", "malformed", "disconnect", "disk-error", "cancel",
          "body-error", "close-ctx", "close-form", "close-request", "full-disk")


def scenario(sim):
    w = sim.w

    async def main():
        disk = Disk(sim)
        disk.slow = w.chance(0.6)
        disk.short = w.pick([None, None, None, 64, 1000])
        if draw_faults(sim, disk, ["write", "open", "seek", "read", "any"], p=0.35):
            pass
        elif sim.f.chance(0.15):
            disk.capacity = sim.f.pick([0, 10, 60, 200, 9000, 8192, 70_000])
            sim.probe("full-disk")
        old = MultiPartParser.spool_max_size
        MultiPartParser.spool_max_size = w.pick([5, 50, 1, 300, old])
        sim.cleanups.append(lambda: setattr(MultiPartParser, "spool_max_size", old))
        disk.solo = w.weighted([(1, 5), (2, 2)]) == 1
        units = []
        for i in range(1 if disk.solo else 2):
            units.append(Ops(sim, disk, f"u{i}") if w.chance(0.4) else Upload(sim, disk, f"c{i}"))
        if any(u.native for u in units):
            disk.slow = False  # an abandoned thread would hold the buffer's lock in the middle of an operation
        await gather(*(u.run() for u in units))
        while sim.orphans:
            await anyio.sleep(1)
        for u in units:
            u.judge()
        left = disk.open_files()
        spools = [s for s in disk.spools if not s.closed]
        if any(u.native and u.ex.cancelled and not u.parse_failed for u in units):
            left = spools = ()  # a task cancelled natively in the middle of closing cannot finish that
        if left or spools:
            sim.fail("files-left-open", f"{left} and {len(spools)} of {len(disk.spools)} spooled files left open: "
                                        f"{[u.story() for u in units]}")
        # closing in the middle of an error cannot wait for a thread (and a spooled file whose rollover failed half-way
        # still calls itself in memory)
        failing = any(u.parse_failed for u in units) or bool(disk.raised)
        io_ops = [o for o in disk.loop_io if not (failing and (o[0] == "close" or o[0] in ("write", "seek") and
                                                               u_closing(disk, o)))]
        if io_ops:
            sim.fail("io-on-loop", f"{io_ops[:6]} on the event-loop thread: {[u.story() for u in units]}")
        if disk.files:
            sim.probe("rolled")

    sim.run(main)


def u_closing(disk, o):
    """The final flush of a file that is closed because its form could not be parsed."""
    return ("close", o[1]) in disk.loop_io


OPS = ["write", "write", "read", "seek", "seek0", "readn", "reopen"]


class Ops:
    """A program of reads, writes and seeks against one upload file, compared with a BytesIO."""

    native = parse_failed = False

    def __init__(self, sim, disk, name):
        w = sim.w
        self.sim, self.disk, self.name = sim, disk, name
        sim.probe("ops")
        self.max = w.pick([10, 1, 0, 100, 1000, 9000])
        self.kind = w.weighted([("spooled", 5), ("temp", 1)])
        self.prog = []
        for _ in range(w.int(1, 12)):
            op = w.pick(["write", "write", "read", "seek", "readn"])
            if op == "write":
                self.prog.append((op, w.bytes(w.pick([1, 5, 10, 11, 0, 40, 200, 9000, 20_000]))))
            elif op == "seek":
                self.prog.append((op, w.pick([0, 1, 5, 9, 10, 11, 50, 500])))
            elif op == "readn":
                self.prog.append((op, w.pick([1, 3, 0, 10, 500, 10_000])))
            else:
                self.prog.append((op,))
        self.failed = None
        self.nraised = 0

    def story(self):
        return f"{self.name}: {self.kind} max={self.max} {[(o[0], *(len(x) if isinstance(x, bytes) else x for x in o[1:])) for o in self.prog]}"

    async def run(self):
        sim, disk = self.sim, self.disk
        if self.kind == "spooled":
            f = tempfile.SpooledTemporaryFile(max_size=self.max)
        else:
            with disk.harness():
                f = tempfile.TemporaryFile()
        up = UploadFile(f, filename="x")
        ref = io.BytesIO()
        was = 0
        try:
            for op in [*self.prog, ("seek", 0), ("read",)]:
                await sim.pause("ops")
                before = len(disk.raised)
                want = getattr(ref, {"readn": "read"}.get(op[0], op[0]))(*op[1:])
                got = await getattr(up, {"readn": "read"}.get(op[0], op[0]))(*op[1:])
                if op[0] in ("read", "readn") and got != want:
                    sim.fail("wrong-data", f"{op}: got {got!r:.100}({len(got)}) want {want!r:.100}({len(want)}): {self.story()}")
                if len(disk.raised) > before and disk.solo:
                    sim.fail("error-swallowed", f"{op[0]}: {disk.raised[-1]}: {self.story()}")
                if not was and getattr(f, "_rolled", False):
                    was = 1
                    sim.probe("rolled-by-user")
        except OSError as e:
            self.failed = e
            if not any(e is r[1] for r in disk.raised):
                sim.fail("error", f"{e!r}: {self.story()}")
            else:
                sim.probe("disk-error")
        except Exception as e:
            sim.fail("error", f"{e!r}: {self.story()}")
        try:
            await up.close()
        except OSError:
            pass  # the final flush of a file that had failed before
        if not f.closed and not self.failed:
            sim.fail("not-closed", self.story())

    def judge(self):
        pass


class Upload:
    """A form that is parsed, used, and closed one way or another."""

    def __init__(self, sim, disk, name):
        w = sim.w
        self.sim, self.disk, self.name = sim, disk, name
        sim.probe("form")
        self.form = Form(sim, nmax=6, files=True if w.chance(0.5) else None)
        self.limits = {}
        self.bad = None
        body = self.form.body
        if w.chance(0.25):
            self.bad = w.pick(["limit", "limit-size", "no-name", "garbage", "cut"])
            if self.bad == "limit":
                self.limits = {w.pick(["max_files", "max_fields"]): w.int(0, 3)}
                sim.probe("limit")
            elif self.bad == "limit-size":
                self.limits = {"max_part_size": w.int(0, 3)}
            elif self.bad == "no-name":
                body = self.tail(b'Content-Disposition: form-data; x="y"\r\n\r\nv')
            elif self.bad == "garbage":
                sim.probe("malformed")
                body = self.tail(w.pick([b"Bad Header: x\r\n\r\nv", b"\xff\xfe: 1\r\n\r\n", b"X:\r\rv"]))
            else:
                body = body[:w.int(0, len(body))]
        self.how = w.pick(["ctx", "ctx-raise", "form.close", "request.close", "ctx-request"])
        self.cancel = draw_cancel(sim, 20) if sim.f.chance(0.15) else None
        self.native = bool(self.cancel and self.cancel[0] == "native")
        self.parse_failed = False
        self.outcome = None
        self.use = w.pick(["read", "none", "write", "readwrite"])

        async def ep(request):
            await self.work(request)
            return PlainTextResponse("ok")

        if w.chance(0.6):
            app = make_app(sim, routes=[Route("/", ep, methods=["POST"])])
        else:
            async def app(scope, receive, send):
                await (await ep(Request(scope, receive)))(scope, receive, send)
        chunks = split_chunks(sim, body)
        gone = None if self.cancel else draw_gone(sim, 0.2, len(chunks))
        self.ex = Http(sim, app, name, method="POST", headers=[(b"content-type", self.form.ctype)], chunks=chunks,
                       style=w.pick(["drop", "queue"]), gone=gone, slow=w.pick([True, "both", False]))

    def tail(self, part):
        b = b"--" + self.form.boundary
        body = self.form.body
        end = body.rindex(b + b"--")
        return body[:end] + b + b"\r\n" + part + b"\r\n" + b + b"--\r\n"

    def story(self):
        return f"{self.name}: {self.how} use={self.use} bad={self.bad} {self.outcome} cancel={self.cancel and self.cancel[0]} " \
               f"files={[len(i[1]['content']) for i in self.form.items if isinstance(i[1], dict)]} " \
               f"spool={MultiPartParser.spool_max_size} faults={self.disk.faults} cap={self.disk.capacity} {self.ex.summary()}"

    async def run(self):
        await self.ex.call(cancel=self.cancel)

    async def work(self, request):
        sim, disk = self.sim, self.disk
        self.outcome = "parsing"
        before = len(disk.raised)
        form = None
        try:
            if self.how == "ctx" or self.how == "ctx-raise":
                async with request.form(**self.limits) as form:
                    self.parsed(before)
                    await self.used(form)
                    if self.how == "ctx-raise":
                        sim.probe("body-error")
                        raise AppError("in the body")
                sim.probe("close-ctx")
            elif self.how == "ctx-request":
                try:
                    form = await request.form(**self.limits)
                    self.parsed(before)
                    await self.used(form)
                finally:
                    with anyio.CancelScope(shield=True):
                        await request.close()
            else:
                form = await request.form(**self.limits)
                self.parsed(before)
                try:
                    await self.used(form)
                finally:
                    with anyio.CancelScope(shield=True):
                        if self.how == "form.close":
                            sim.probe("close-form")
                            await form.close()
                        else:
                            sim.probe("close-request")
                            await request.close()
            self.outcome = "done"
        except AppError:
            self.outcome = "app-error"
        except BaseException as e:
            if form is None:
                self.parse_failed = True
                sim.probe("parse-failed")
                if isinstance(e, ClientDisconnect):
                    sim.probe("disconnect")
                elif isinstance(e, OSError):
                    sim.probe("disk-error")
                elif not isinstance(e, Exception):
                    sim.probe("cancel")
            self.outcome = repr(e)[:60]
            if isinstance(e, OSError) and not any(e is r[1] for r in disk.raised):
                sim.fail("error", f"{e!r}: {self.story()}")
            raise

    def parsed(self, before):
        self.outcome = "parsed"
        if len(self.disk.raised) > before and self.disk.solo:
            self.sim.fail("error-swallowed", f"{self.disk.raised[before:]}: {self.story()}")

    async def used(self, form):
        sim = self.sim
        if self.use == "none":
            return
        want = [i[1]["content"] for i in self.form.items if isinstance(i[1], dict)]
        got = [v for _, v in form.multi_items() if isinstance(v, UploadFile)]
        for data, v in zip(want, got):
            if self.use != "write":
                r = await v.read()
                if r != data if self.bad is None else not data.startswith(r):
                    sim.fail("wrong-data", f"read {r!r:.80}({len(r)}) want {data!r:.80}({len(data)}): {self.story()}")
            if "write" in self.use:
                extra = sim.w.bytes(sim.w.pick([3, 60, 400]))
                r = await v.read()
                await v.write(extra)
                await v.seek(0)
                if not (await v.read()).endswith(extra):
                    sim.fail("wrong-data", f"written data is not there: {self.story()}")

    def judge(self):
        sim, ex = self.sim, self.ex
        check_grammar(sim, ex)
        if ex.hung:
            sim.fail("hang", self.story())
