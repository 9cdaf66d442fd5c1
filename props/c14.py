"""C14: file responses send exactly the requested bytes of the file."""
from __future__ import annotations

import errno
import gc
import os
import re
from email.utils import formatdate
from urllib.parse import unquote

import anyio

from sim.disk import Disk, clean, draw_faults, scratch
from sim.kernel import owner_var
from sim.server import draw_cancel
from starlette.background import BackgroundTask
from starlette.responses import FileResponse
from starlette.routing import Mount, Route

from .apps import make_app, draw_delay
from .common import Http, adelay, check_grammar, draw_gone, gather
from .stack import draw_stack

RUNS = 32000
PROBES = ("full", "single-range", "multi-range", "merged", "unsatisfiable", "malformed", "head", "if-range-match", "if-range-miss", "if-range-mangled",
          "missing", "directory", "truncated", "removed", "truncated-visible", "removed-visible", "disk-fault-visible", "cancelled",
          "gone", "concurrent", "stat-given", "dispatch", "empty-file", "exact-multiple", "short-read", "default-chunk", "huge-number",
          "head-equals-get", "shared-response")
REAL = ("real files in a scratch directory behind intercepted open, stat, read, seek and close",)


class File:
    def __init__(self, sim, root, i):
        w = sim.w
        self.sim = sim
        self.path = os.path.join(root, f"f{i}" + w.pick([".txt", ".bin", "", ".html", ".tar.gz", ".json"]))
        self.chunk = w.weighted([(7, 4), (1, 1), (2, 1), (16, 2), (100, 1), (65536, 2)])
        base = self.chunk * w.int(0, 4) if self.chunk < 65536 else w.pick([0, 65536, 131072, 1000])
        size = max(0, base + w.pick([0, 1, -1, 3]))
        if size == 0:
            sim.probe("empty-file")
        elif size % self.chunk == 0:
            sim.probe("exact-multiple")
        if self.chunk == 65536:
            sim.probe("default-chunk")
        self.content = w.bytes(size, w.pick([3, 0, 1, 5, 2]))
        self.size = size
        self.mtime = 1_600_000_000 + w.pick([0, 1000, 0.5]) + i
        self.kind = "file"
        if w.chance(0.06):
            self.kind = w.pick(["missing", "dir"])
            self.size = None
            sim.probe({"missing": "missing", "dir": "directory"}[self.kind])
        if self.kind == "file":
            with open(self.path, "wb") as fp:
                fp.write(self.content)
            os.utime(self.path, (self.mtime, self.mtime))
        elif self.kind == "dir":
            os.mkdir(self.path)
        self.changes = []  # (seq, what)

    def truncate(self, k):
        if self.size is not None and k < self.size:
            os.truncate(self.path, k)
            os.utime(self.path, (self.mtime, self.mtime))
            self.size = k
            self.note("truncated")

    def remove(self):
        if self.size is not None:
            os.unlink(self.path)
            self.size = None
            self.note("removed")

    def note(self, what):
        self.changes.append((next(self.sim.seq), what))
        self.sim.fault("file-" + what)
        self.sim.probe(what)
        self.sim.log("disk", what, os.path.basename(self.path))


def scenario(sim):
    w, f = sim.w, sim.f

    async def main():
        root = os.path.join(scratch(), "c14")
        clean(root)
        disk = Disk(sim, root)
        disk.slow = w.chance(0.8)
        with disk.harness():
            files = [File(sim, root, i) for i in range(w.weighted([(1, 4), (2, 1)]))]
        if w.chance(0.2):
            disk.short = w.int(1, 9) * (1 if all(x.chunk < 65536 for x in files) else 5000)
            sim.probe("short-read")
        plans = []
        if f.chance(0.35):
            fl = f.pick(files)
            what = f.pick(["truncate", "remove"])
            size = fl.size or 0
            k = f.int(0, size) if f.chance(0.7) else max(0, size // fl.chunk - f.int(0, 2)) * fl.chunk
            plans.append([fl, what, k, f.pick(["read", "open", "seek", "stat", "close"]), f.int(0, 6)])
        etags = {}
        n = w.weighted([(1, 3), (2, 3), (3, 2)])
        if n > 1:
            sim.probe("concurrent")
        # one response object for all requests for a file, made when the application was
        sim.c14_disk = disk
        sim.c14_keep = {} if w.chance(0.15) else None
        with disk.harness():
            units = [Unit(sim, f"c{i}", w.pick(files), root) for i in range(n)]
        if sim.backend == "asyncio" and any(u.cancel and u.cancel[0] == "native" for u in units):
            disk.slow = False  # a read abandoned in its thread holds the lock of the buffer that close wants
        byname = {u.name: u for u in units}

        def on_op(kind, label):
            for p in plans:
                if p[3] == kind and label == "~" + p[0].path[len(root):]:
                    if p[4] == 0:
                        with disk.harness():
                            p[0].truncate(p[2]) if p[1] == "truncate" else p[0].remove()
                    p[4] -= 1
            u = byname.get(owner_var.get())
            if u is not None and kind == "stat" and u.snap is None:
                u.snapshot()

        disk.on_op = on_op
        draw_faults(sim, disk, ["read", "open", "stat", "seek", "close"], 0.2, 6,
                    errs=f.pick([[errno.EIO], [errno.EACCES], [errno.EMFILE], [errno.ESTALE]]))
        if w.chance(0.25):
            for u in units:
                await u.ex.call(cancel=u.cancel)
        else:
            await gather(*(u.ex.call(cancel=u.cancel) for u in units))
        for u in units:
            u.judge(etags)
        # an exchange in a cancelled scope cannot wait for the close: its file goes with the garbage, which is in time
        late = any(u.ex.gone and "dispatch" in u.names for u in units)
        messy = late or any(u.ex.cancelled and not u.native() for u in units)
        if any(u.ex.cancelled for u in units):
            await anyio.sleep(20)  # a thread that a native cancellation has left behind may still be opening its file
        left = disk.open_files()
        if left and (late or any(u.ex.cancelled for u in units)):
            for u in units:
                u.ex.exc = None
            for _, e in disk.raised:
                e.__traceback__ = None
            gc.collect()
            left = disk.open_files()
        text = "; ".join(u.desc() for u in units)
        if left:
            sim.fail("left-open", f"{left}: {text}")
        # (nor can a close that has begun when the cancellation comes: `to_thread.run_sync` gives way first)
        native = {u.name: u for u in units if u.ex.cancelled}
        excused = {n for n, u in native.items() if u.ex.complete or u.file.changes or disk.raised}
        dropped = [x for x in disk.finalised if x[1] not in native or x[2] and x[1] not in excused]
        if dropped and not messy:
            sim.fail("not-closed", f"{dropped} were only closed by the garbage collector: {text}")
        if disk.loop_io:
            sim.fail("io-on-loop", f"{disk.loop_io[:4]}: {text}")
        # twins: the HEAD and the GET of the same thing
        heads = [u for u in units if u.twin is not None]
        for u in heads:
            a, b = u.ex, u.twin.ex
            if all(x.exc is None and not x.gone and not x.cancelled for x in (a, b)) and not u.file.changes and not disk.raised:
                sim.probe("head-equals-get")
                ha = re.sub(rb"boundary=\w+", b"boundary=", b"\n".join(k + b":" + v for k, v in a.rheaders))
                hb = re.sub(rb"boundary=\w+", b"boundary=", b"\n".join(k + b":" + v for k, v in b.rheaders))
                if a.status in (200, 206) and (a.status != b.status or ha != hb):
                    sim.fail("head-differs", f"{a.status} {ha!r} against {b.status} {hb!r}: {text}")

    sim.run(main)


class Unit:
    last = None

    def __init__(self, sim, name, file, root):
        w, f = sim.w, sim.f
        self.sim, self.name, self.file = sim, name, file
        self.snap = None
        self.snap_seq = None
        self.twin = None
        self.disk = sim.c14_disk
        self.ran = []
        prev = getattr(sim, "c14_last", None)
        self.head = w.chance(0.25)
        if prev is not None and w.chance(0.3):
            # the same request with the other method
            self.twin = prev
            self.file = file = prev.file
            self.range, self.ref, self.ifr, self.ifr_kind = prev.range, prev.ref, prev.ifr, prev.ifr_kind
            self.head = not prev.head
            self.opts = prev.opts
        else:
            self.opts = {}
            if w.chance(0.3):
                self.opts["filename"] = w.pick(["a.txt", "a b.txt", 'q"q.bin', "é漢.pdf", "x;y", "..", "a.html"])
                if w.chance(0.3):
                    self.opts["content_disposition_type"] = "inline"
            if w.chance(0.2):
                self.opts["headers"] = {"x-a": "1", "cache-control": "no-store"}
            if w.chance(0.2):
                self.opts["media_type"] = w.pick(["application/x-thing", "text/markdown", "a/b; c=d"])
            if w.chance(0.15):
                self.opts["status_code"] = w.pick([201, 404, 200])
            self.draw_range()
            self.ifr_kind = None
            self.ifr = None
            if self.range is not None and w.chance(0.25):
                self.ifr_kind = w.pick(["etag", "date", "other-etag", "other-date", "weak", "garbage", "mangled"])
        self.stat_given = w.chance(0.3) and file.kind == "file" if self.twin is None else prev.stat_given
        sim.c14_last = self
        self.keep = getattr(sim, "c14_keep", None)
        if self.keep is not None and self.file.path in self.keep:
            sim.probe("shared-response")
            self.opts, self.stat_given = self.keep[self.file.path][:2]
        self.bg = w.chance(0.3) and self.keep is None
        self.style = w.pick(["endpoint", "sync", "asgi", "mount"])
        self.wait = draw_delay(sim)
        self.names = []
        mws = []
        if w.chance(0.4):
            mws, self.names = draw_stack(sim, kinds=("dispatch", "pure", "session", "cors"))
            if "dispatch" in self.names:
                sim.probe("dispatch")
        headers = []
        if self.range is not None:
            headers.append((b"range", self.range.encode()))
        if self.ifr_kind:
            self.ifr = self.validator()
            headers.append((b"if-range", self.ifr.encode()))
        if self.head:
            sim.probe("head")
        self.cancel = draw_cancel(sim, 18) if f.chance(0.12) else None
        self.app = self.build(mws)
        gone = None if self.cancel else draw_gone(sim, 0.12, 0, 6)
        self.ex = Http(sim, self.app, name, method="HEAD" if self.head else "GET", spec=w.pick(["2.3", "2.4"]), headers=headers,
                       gone=gone, slow=w.pick([True, "both", False]))

    def native(self):
        """Cancelled by its task alone, and nothing in the stack turns that into a cancelled scope."""
        return self.cancel[0] == "native" and self.sim.backend == "asyncio" and "dispatch" not in self.names

    def validator(self):
        fl, k = self.file, self.ifr_kind
        date = formatdate(fl.mtime, usegmt=True)
        if k == "date":
            return date
        if k == "etag" and fl.kind == "file":
            return FileResponse(fl.path, stat_result=os.stat(fl.path)).headers["etag"]
        if k == "mangled":
            self.sim.probe("if-range-mangled")
            tag = FileResponse(fl.path, stat_result=os.stat(fl.path)).headers["etag"] if fl.kind == "file" else '"1"'
            return self.sim.w.pick([date[:-4], date[:3], date + ";", tag[:-1], "W/" + tag, tag.strip('"'), tag[:2], tag + ", " + tag])
        return {"other-etag": '"0123456789abcdef"', "other-date": formatdate(fl.mtime - 5000, usegmt=True),
                "weak": 'W/"1"'}.get(k, "garbage")

    def draw_range(self):
        """Draw a Range header.  self.ref: function size -> ("ok", [(start, end)]) | ("416",) | ("400",) | ("any",)."""
        w = self.sim.w
        self.range = self.ref = None
        if w.chance(0.3):
            return
        size = len(self.file.content)
        edge = [0, 1, size - 1, size, size + 1, size // 2, self.file.chunk, self.file.chunk - 1, self.file.chunk + 1, size * 3 + 7]
        edge = [e for e in edge if e >= 0]

        def num():
            return w.pick(edge) if w.chance(0.6) else w.int(0, max(0, min(size - 1, 300)))

        if w.chance(0.15):
            self.range = w.pick(["bytes", "bytes=", "items=0-3", "bytes=abc", "bytes=-", "bytes=,", "0-3", "=0-3", "bytes=x-y,z",
                                 "bytes=" + "9" * 5000 + "-", "bytes=0-" + "8" * 4999])
            if "99" in self.range or "88" in self.range:
                self.sim.probe("huge-number")
                # a number too long to handle may be called malformed or taken at its value
                big = "99" in self.range
                self.ref = lambda size: ("400", "416") if big or not size else ("400", "ok", [(0, size)])
            else:
                self.ref = lambda size: ("400",)
            return
        specs = []
        n = w.weighted([(1, 5), (2, 3), (3, 2), (5, 1)])
        for _ in range(n):
            k = w.weighted([("ab", 6), ("a", 2), ("suffix", 2)])
            if k == "ab":
                a = num()
                b = a + num() if w.chance(0.85) else max(0, a - w.int(1, 3))
                specs.append((a, b))
            elif k == "a":
                specs.append((num(), None))
            else:
                specs.append((None, num()))
        text = []
        for a, b in specs:
            text.append(f"{'' if a is None else a}-{'' if b is None else b}")
        sep = w.pick([",", ", ", " , "])
        self.range = w.pick(["bytes=", "bytes=", "Bytes=", "bytes ="]) + sep.join(text)

        def ref(size):
            ok, un, bad = [], False, False
            for a, b in specs:
                if a is None:
                    if b > size:
                        un = "long"  # longer than the file: refused by this implementation (the RFC would send all)
                    elif b == 0:
                        un = True
                    else:
                        ok.append((size - b, size))
                    continue
                if b is not None and b < a:
                    if a >= size:
                        un = un or True
                    bad = True
                    continue
                if a >= size:
                    un = un or True
                    continue
                ok.append((a, size if b is None else min(b + 1, size)))
            if un and bad:
                return ("400", "416")
            if bad:
                return ("400",)
            if un:
                return ("416",)
            return ("ok", ok)

        self.ref = ref

    def build(self, mws):
        sim, fl = self.sim, self.file

        class Sized(FileResponse):
            chunk_size = fl.chunk

        def make():
            kw = dict(self.opts)
            if self.stat_given:
                sim.probe("stat-given")
                with self.disk.harness():
                    try:
                        kw["stat_result"] = os.stat(fl.path)
                    except OSError:
                        pass
                self.snapshot()
            if self.bg:
                async def task():
                    self.ran.append(next(sim.seq))
                kw["background"] = BackgroundTask(task)
            return Sized(fl.path, **kw)

        if self.keep is not None:
            if fl.path not in self.keep:
                self.keep[fl.path] = (self.opts, self.stat_given, make())
            elif self.stat_given:
                self.snapshot()
            one = self.keep[fl.path][2]
            make = lambda: one  # noqa: E731

        async def ep(request):
            await adelay(self.wait)
            return make()

        def sep(request):
            return make()

        class Asgi:
            async def __call__(self_, scope, receive, send):
                await make()(scope, receive, send)

        if self.style == "asgi":
            app = Asgi()
            for m in reversed(mws):
                app = m.cls(app, *m.args, **m.kwargs)
            return app
        r = Route("/", sep if self.style == "sync" else ep)
        return make_app(sim, routes=[Mount("/", routes=[r])] if self.style == "mount" else [r], middleware=mws)

    def snapshot(self):
        self.snap_seq = next(self.sim.seq)
        self.snap = ("file", self.file.size) if self.file.size is not None else (
            ("dir", None) if self.file.kind == "dir" else ("missing", None))

    def desc(self):
        fl = self.file
        return (f"{self.name} {self.names} {self.style} {'HEAD' if self.head else 'GET'} {os.path.basename(fl.path)} ({fl.kind} "
                f"{len(fl.content)} now {fl.size}) chunk={fl.chunk} range={self.range and self.range[:60]!r} if-range={self.ifr} {self.opts} "
                f"stat={self.stat_given} snap={self.snap} changes={fl.changes} {self.disk.faults}: {self.ex.summary()}")

    # -- the reference
    def parts(self, body, size):
        """Parse a multipart/byteranges body by its own headers; None if it is not well formed."""
        h = self.ex.header(b"content-range") or b""
        m = re.search(rb"boundary=(\w+)", h) or re.search(rb"boundary=(\w+)", self.ex.header(b"content-type") or b"")
        if not m:
            return None
        b = m[1]
        pos, out = 0, []
        while True:
            m = re.compile(rb"(?:\r?\n)?--" + b + rb"(--)?\r?\n").match(body, pos)
            if not m:
                return None
            pos = m.end()
            if m[1]:
                return out if pos == len(body) and out else None
            m = re.compile(rb"((?:[^\r\n]+\r?\n)+)\r?\n").match(body, pos)
            if not m:
                return None
            pos = m.end()
            heads = dict((k.strip().lower(), v.strip()) for k, _, v in (ln.partition(b":") for ln in m[1].split(b"\n") if ln.strip()))
            m = re.fullmatch(rb"bytes (\d+)-(\d+)/(\d+)", heads.get(b"content-range", b""))
            if not m or int(m[3]) != size:
                return None
            if heads.get(b"content-type") != self.ctype():
                return None
            a, z = int(m[1]), int(m[2]) + 1
            out.append((a, z, body[pos:pos + z - a]))
            pos += z - a
            if body[pos:pos + 1] == b"\r":
                pos += 1
            if body[pos:pos + 1] != b"\n":
                return None
            if not body.startswith(b"--", pos + 1):
                pos += 1

    def ctype(self):
        return self.ex.header(b"content-type")

    def judge(self, etags):
        sim, ex, fl = self.sim, self.ex, self.file
        check_grammar(sim, ex)
        where = self.desc()
        if ex.hung:
            return sim.fail("hang", where)
        mine = [(k, e) for k, e in self.disk.raised if getattr(e, "sim_owner", None) == self.name]
        snap = self.snap
        changed = [c for s, c in fl.changes if snap is not None and self.snap_seq < s < (ex.end_seq or 1 << 60)]
        if ex.cancelled:
            sim.probe("cancelled")
        if ex.gone:
            sim.probe("gone")
        cut = ex.gone or ex.cancelled
        whole = not cut and ex.full
        if snap is None:
            if not (cut or mine):
                sim.fail("not-served", where)
            return
        # -- what a client makes of what it got
        kind, size = snap
        st = ex.status
        if not cut and not mine and kind != "file":
            if ex.exc is None:
                return sim.fail("missing-served", where)
            if st not in (None, 500):
                return sim.fail("missing-served", where)
            return
        if mine and not cut:
            sim.probe("disk-fault-visible")
            if ex.exc is None:
                return sim.fail("error-swallowed", f"{mine}: {where}")
            if self.ran and mine[0][0] != "close":
                return sim.fail("background-after-error", where)
        if kind != "file":
            return
        if self.ran and (len(self.ran) > 1 or (not cut and "dispatch" not in self.names and (ex.complete_seq is None or self.ran[0] < ex.complete_seq))):
            return sim.fail("background", where)
        if "missing" not in (kind,) and ex.exc is not None and not mine and not cut:
            if not changed:
                return sim.fail("error", where)
            # the file was changed under it
            if st is not None and st not in (200, 206, 500, self.opts.get("status_code")):
                return sim.fail("error", where)
        if st is None:
            return
        want = self.expected(size)
        etag = ex.header(b"etag")
        if st == 500 and (ex.exc is not None and (mine or changed) or cut):
            return
        codes = want[0]
        if str(st) not in codes:
            return sim.fail("status", f"want {codes}: {where}")
        if st in (400, 416):
            sim.probe({400: "malformed", 416: "unsatisfiable"}[st])
            cr = ex.header(b"content-range")
            if st == 416 and not (cr or b"").endswith(b"*/%d" % size):
                return sim.fail("416-size", f"{cr!r}: {where}")
            return
        ranges = want[1]
        # -- headers
        if ex.header(b"accept-ranges") != b"bytes":
            return sim.fail("headers", f"accept-ranges: {where}")
        if ex.header(b"last-modified") != formatdate(fl.mtime, usegmt=True).encode():
            return sim.fail("headers", f"last-modified {ex.header(b'last-modified')}: {where}")
        known = etags.setdefault((fl.path, fl.mtime, size), etag)
        if etag is None or known != etag or any(v == etag for k, v in etags.items() if k[1:] != (fl.mtime, size)):
            return sim.fail("etag", f"{etag}: {etags}: {where}")
        for k, v in self.opts.get("headers", {}).items():
            if ex.headers_all(k.encode()) != [v.encode()]:
                return sim.fail("headers", f"{k}: {where}")
        if "media_type" in self.opts and not ex.header(b"content-type").startswith(self.opts["media_type"].encode()):
            return sim.fail("headers", f"content-type: {where}")
        if "filename" in self.opts:
            cd = ex.header(b"content-disposition").decode()
            m = re.fullmatch(r"([\w-]+); filename(?:\*=utf-8''([^\"; ]*)|=\"([^\"]*)\")", cd)
            if not m or (unquote(m[2]) if m[2] is not None else m[3]) != self.opts["filename"] or m[1] != self.opts.get(
                    "content_disposition_type", "attachment"):
                return sim.fail("headers", f"content-disposition {cd!r}: {where}")
        elif ex.header(b"content-disposition") is not None:
            return sim.fail("headers", f"content-disposition: {where}")
        cl = ex.headers_all(b"content-length")
        if len(cl) != 1 or not cl[0].isdigit():
            return sim.fail("content-length", f"{cl}: {where}")
        cl = int(cl[0])
        body = ex.body
        multi = b"boundary=" in (ex.header(b"content-range") or b"") + (ex.header(b"content-type") or b"")
        if multi and len(body) == cl + 1 and self.parts(body, size) is not None:
            sim.fail("multipart-length-one-short", f"{len(body)} bytes for a Content-Length of {cl}: {where}")
            cl += 1
        if len(body) > cl:
            return sim.fail("too-long", f"{len(body)} bytes for a Content-Length of {cl}: {where}")
        content = fl.content[:size]
        if self.head:
            if body:
                return sim.fail("head-body", where)
            if whole and ranges is None and cl != size:
                return sim.fail("content-length", where)
            return
        if whole and ex.exc is None and len(body) == cl or not changed and not mine and not cut:
            # a complete response, or one that nothing kept from being complete
            if len(body) != cl or not ex.full:
                return sim.fail("incomplete", where)
        # -- the bytes
        if ranges is None:
            sim.probe("full")
            if cl != size or st != self.opts.get("status_code", 200):
                return sim.fail("content-length", where)
            if not content.startswith(body):
                return sim.fail("wrong-bytes", where)
        elif not multi:
            m = re.fullmatch(rb"bytes (\d+)-(\d+)/(\d+)", ex.header(b"content-range") or b"")
            if not m or int(m[3]) != size:
                return sim.fail("content-range", f"{ex.header(b'content-range')}: {where}")
            a, z = int(m[1]), int(m[2]) + 1
            sim.probe("single-range")
            if len(ranges) > 1:
                sim.probe("merged")
            if union([(a, z)]) != union(ranges) or cl != z - a:
                return sim.fail("content-range", f"{(a, z)} for {ranges}: {where}")
            if not content[a:z].startswith(body):
                return sim.fail("wrong-bytes", where)
        else:
            sim.probe("multi-range")
            if len(body) == cl:
                ps = self.parts(body, size)
                if ps is None:
                    return sim.fail("multipart", f"{body[:300]!r}: {where}")
                if union([(a, z) for a, z, _ in ps]) != union(ranges):
                    return sim.fail("content-range", f"{[p[:2] for p in ps]} for {ranges}: {where}")
                if any(content[a:z] != d for a, z, d in ps):
                    return sim.fail("wrong-bytes", where)
            else:
                # cut short: the parts that are there, and the beginning of the last
                full = self.reference_multipart(body, ranges, content)
                if not full:
                    return sim.fail("wrong-bytes", f"{body[:300]!r}: {where}")
        if changed:
            sim.probe(changed[0] + "-visible")
        if whole and self.bg and ex.exc is None and len(self.ran) != 1:
            return sim.fail("background", where)

    def expected(self, size):
        if self.range is not None and self.opts.get("status_code", 200) != 200:
            self.sim.probe("range-of-other-status")
            return ((str(self.opts["status_code"]),), None)
        if self.range is None or self.ifr_kind in ("other-etag", "other-date", "weak", "garbage", "mangled"):
            if self.ifr_kind:
                self.sim.probe("if-range-miss")
            return ((str(self.opts.get("status_code", 200)),), None)
        if self.ifr_kind == "etag" and size != len(self.file.content):
            # the tag of the file before it was cut
            return ((str(self.opts.get("status_code", 200)),), None)
        if self.ifr_kind:
            self.sim.probe("if-range-match")
        r = self.ref(size)
        codes = tuple("206" if c == "ok" else c for c in r if isinstance(c, str))
        return (codes, r[-1] if isinstance(r[-1], list) else None)

    def reference_multipart(self, body, ranges, content):
        """Whether a cut-short multipart body consists of whole right parts and one right prefix."""
        m = re.match(rb"--(\w+)\n", body)
        pos = 0
        while m:
            h = re.compile(rb"\n?--" + m[1] + rb"\r?\n(?:[^\r\n]+\r?\n)*?content-range: bytes (\d+)-(\d+)/\d+\r?\n(?:[^\r\n]+\r?\n)*?\r?\n",
                           re.I).match(body, pos)
            if not h:
                rest = body[pos:]
                return rest in (b"", b"\n") or rest.startswith(b"\n--") or rest.startswith(b"--")
            a, z = int(h[1]), int(h[2]) + 1
            got = body[h.end():h.end() + z - a]
            if not content[a:z].startswith(got):
                return False
            if len(got) < z - a:
                return True
            pos = h.end() + z - a
        return body == b""


def union(ranges):
    out = []
    for a, z in sorted(ranges):
        if out and a <= out[-1][1]:
            out[-1] = (out[-1][0], max(z, out[-1][1]))
        elif a < z:
            out.append((a, z))
    return out
