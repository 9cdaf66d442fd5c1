"""C15: static files -- right file, inside the root, never a stale 304."""
from __future__ import annotations

import errno
import importlib
import os
import sys
from email.utils import formatdate, parsedate_to_datetime

from sim.disk import Disk, Fault, clean, scratch
from sim.kernel import owner_var
from starlette.exceptions import HTTPException
from starlette.routing import Mount
from starlette.staticfiles import StaticFiles

from .common import Http, adelay, check_grammar, gather
from .apps import make_app, draw_delay
from .stack import draw_stack

RUNS = 14000
PROBES = ("served", "not-found", "index", "redirect", "404page", "traversal", "symlink-inside", "symlink-outside", "sibling-prefix",
          "second-dir", "package", "304-tag", "304-date", "200-despite-tag", "both-validators", "rollback", "replaced", "removed",
          "touched", "during-request", "concurrent", "denied", "io-error", "head", "not-allowed", "null", "long-name", "file-as-dir",
          "follow", "in-place", "same-size", "link-retargeted",
          "released", "released-during-request", "range", "part", "part-if-current", "range-unsatisfiable", "if-range-mangled")
REAL = ("real files and symbolic links in a scratch directory behind intercepted open, stat, lstat, read and close",)
NAMES = ["a.txt", "b.html", "c.css", "index.html", "404.html", "d", "e", "sub"]


def scenario(sim):
    w = sim.w

    async def main():
        s = System(sim)
        await s.play()

    sim.run(main)


class System:
    def __init__(self, sim):
        w = sim.w
        self.sim = sim
        self.root = os.path.join(scratch(), "c15")
        clean(self.root)
        self.disk = disk = Disk(sim, self.root)
        disk.slow = w.chance(0.8)
        self.n = 0
        self.clock = 1_600_000_000
        self.versions = {}  # content -> label
        self.secrets = set()
        self.active = []
        self.tags = {}  # tag -> set of (size, mtime) it was issued for
        self.cached = {}  # url path -> list of (tag, last-modified)
        self.html = w.chance(0.5)
        self.follow = w.chance(0.2)
        self.link = None  # the symbolic link that is served, if it is one; it is re-pointed to release another directory
        self.releases = []
        with disk.harness():
            self.static = os.path.join(self.root, "static")
            os.mkdir(self.static)
            self.dirs = [self.static]
            for d in ("static2", "other"):
                os.mkdir(os.path.join(self.root, d))
            for p in ("secret.txt", "static2/a.txt", "static2/secret.txt", "other/a.txt", "other/index.html"):
                self.write(os.path.join(self.root, p), secret=True)
            kw = {}
            if w.chance(0.25):
                name = f"simpkg{w.int(0, 3)}"
                d = os.path.join(self.root, name)
                os.makedirs(os.path.join(d, "assets"))
                REAL = os.path.join(d, "__init__.py")
                with open(REAL, "w"):
                    pass
                sys.path.insert(0, self.root)
                importlib.invalidate_caches()
                kw["packages"] = [(name, "assets")]
                self.dirs.append(os.path.join(d, "assets"))
                sim.probe("package")
            try:
                for _ in range(w.int(2, 7)):
                    self.deploy()
                form = w.pick(["plain", "slash", "path", "link"])
                arg = self.static
                if form == "slash":
                    arg += "/"
                elif form == "link":
                    arg = os.path.join(self.root, "link-to-static")
                    os.symlink(self.static, arg)
                    self.link = self.dirs[0] = arg
                elif form == "path":
                    import pathlib
                    arg = pathlib.Path(arg)
                self.sf = StaticFiles(directory=arg, html=self.html, follow_symlink=self.follow,
                                      check_dir=w.chance(0.7), **kw)
            finally:
                if kw:
                    sys.path.remove(self.root)
                    sys.path_importer_cache.pop(self.root, None)
        if self.follow:
            sim.probe("follow")
        self.prefix = w.pick(["", "/static", "/x/y"])
        mws, self.names = [], []
        if self.prefix or w.chance(0.3):
            if w.chance(0.3):
                mws, self.names = draw_stack(sim, kinds=("dispatch", "pure", "session", "cors"))
            self.app = make_app(sim, routes=[Mount(self.prefix or "/", app=self.sf)], middleware=mws)
            self.bare = False
        else:
            self.app = self.sf
            self.bare = True

    # -- deployments
    def paths(self):
        """All paths in use (relative to a served directory)."""
        out = []
        for d in self.dirs:
            for base, ds, fs in os.walk(d):
                rel = os.path.relpath(base, d)
                out += [os.path.normpath(os.path.join(rel, x)) for x in ds + fs]
        return sorted(out)

    def draw_rel(self):
        w = self.sim.w
        n = w.weighted([(1, 5), (2, 4), (3, 1)])
        return "/".join(w.pick(NAMES if i == n - 1 else ["d", "sub", "e"]) for i in range(n))

    def write(self, path, secret=False, size=None, mtime=None):
        sim, w = self.sim, self.sim.w
        self.n += 1
        size = w.pick([12, 40, 12, 130]) if size is None else size
        data = (f"{'SECRET' if secret else 'v'}{self.n}:" + "abcdefghij" * 20)[:max(size, 12)].encode()
        if mtime is None:
            self.clock += w.pick([1, 100, 0.25, 3600, 0.0003])
            mtime = self.clock
        tmp = os.path.join(self.root, "tmp")
        with open(tmp, "wb") as fp:
            fp.write(data)
        os.utime(tmp, (mtime, mtime))
        os.replace(tmp, path)
        self.versions[data] = path
        if secret:
            self.secrets.add(data)

    def deploy(self, running=False):
        """One deployment step; returns what it was."""
        sim, w, f = self.sim, self.sim.w, self.sim.f
        src = f if running else w
        top = src.pick(self.dirs)
        known = [p for p in self.paths()]
        what = src.weighted([("new", 6), ("replace", 5), ("remove", 2), ("touch", 2), ("link", 3), ("in-place", 1), ("retarget", 1),
                             ("release", 4 if self.link else 0)])
        if not known and what != "release":
            what = "new"
        if what == "release":
            return self.release(src)
        rel = self.draw_rel() if what in ("new", "link") else src.pick(known)
        path = os.path.join(top, rel)
        try:
            if what in ("new", "replace") and not os.path.isdir(path):
                os.makedirs(os.path.dirname(path), exist_ok=True)
                old = os.stat(path) if os.path.lexists(path) and os.path.isfile(path) else None
                size = mtime = None
                if old is not None:
                    sim.probe("replaced")
                    k = src.pick(["new", "rollback", "same-size", "same-mtime"])
                    if k == "rollback":
                        mtime = old.st_mtime - src.pick([1, 0.25, 5000, 0.0004, 0.000005])
                        sim.probe("rollback")
                    elif k == "same-size":
                        size = old.st_size
                        sim.probe("same-size")
                    elif k == "same-mtime":
                        mtime = old.st_mtime
                        size = old.st_size + 17
                if os.path.islink(path):
                    os.unlink(path)
                self.write(path, size=size, mtime=mtime)
            elif what == "remove" and os.path.lexists(path):
                if os.path.isdir(path) and not os.path.islink(path):
                    try:
                        os.rmdir(path)
                    except OSError:
                        return None
                else:
                    os.unlink(path)
                sim.probe("removed")
            elif what == "touch" and os.path.isfile(path):
                st = os.stat(path)
                m = st.st_mtime + src.pick([1, 0.25, 1000, -1, 0.0004, 0.000005])
                if any(os.path.realpath(path).startswith(d + "/") for d in [self.static, *self.releases]):
                    os.utime(path, (m, m))
                    sim.probe("touched")
            elif what == "in-place" and os.path.isfile(path) and not os.path.islink(path) and not running:
                self.n += 1
                self.clock += 10
                data = (f"v{self.n}:" + "ABCDEFGHIJ" * 9)[:w.pick([12, 90])].encode()
                with open(path, "wb") as fp:
                    fp.write(data)
                os.utime(path, (self.clock, self.clock))
                self.versions[data] = path
                sim.probe("in-place")
            elif what in ("link", "retarget"):
                if what == "link":
                    if os.path.lexists(path):
                        return None
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                else:
                    links = [p for p in known if os.path.islink(os.path.join(top, p))]
                    # (while requests run, links are only pointed elsewhere inside: a race with an attacker who can write
                    # into the served tree is not claimed)
                    if not links or running:
                        return None
                    path = os.path.join(top, src.pick(links))
                    os.unlink(path)
                    sim.probe("link-retargeted")
                inside = src.chance(0.5) or running
                if inside:
                    real = os.path.realpath(top)
                    target = os.path.join(real, src.pick(known)) if known else os.path.join(real, "a.txt")
                    sim.probe("symlink-inside")
                else:
                    target = os.path.join(self.root, src.pick(["secret.txt", "other", "static2", "static2/secret.txt", "other/a.txt"]))
                    sim.probe("symlink-outside")
                if src.chance(0.4):
                    target = os.path.relpath(target, os.path.realpath(os.path.dirname(path)))
                os.symlink(target, path)
            else:
                return None
        except (FileExistsError, NotADirectoryError, FileNotFoundError, IsADirectoryError):
            return None
        except OSError as e:
            if e.errno == errno.ELOOP:
                return None
            raise
        sim.log("deploy", what, os.path.relpath(path, self.root))
        return what

    def release(self, src):
        """Another directory takes the place of the served one: prepared beside it, then the link is re-pointed in one step."""
        sim = self.sim
        old = os.path.realpath(self.link)
        if len(self.releases) > 1 and src.chance(0.4):
            new = src.pick([self.static, *self.releases])  # (back to an earlier one)
        else:
            new = os.path.join(self.root, f"release{len(self.releases) + 1}")
            os.mkdir(new)
            self.releases.append(new)
            names = [p for p in self.paths() if os.path.isfile(os.path.join(old, p)) and not os.path.islink(os.path.join(old, p))]
            for p in names + [self.draw_rel()]:
                if src.chance(0.75):
                    path = os.path.join(new, p)
                    try:
                        os.makedirs(os.path.dirname(path), exist_ok=True)
                        if os.path.isdir(path):
                            continue
                        st = os.stat(os.path.join(old, p)) if os.path.isfile(os.path.join(old, p)) else None
                        same = st is not None and src.chance(0.2)
                        self.write(path, mtime=st.st_mtime if same else None, size=st.st_size + 17 if same else None)
                    except (FileExistsError, NotADirectoryError):
                        continue
        tmp = os.path.join(self.root, "tmp-link")
        os.symlink(new, tmp)
        os.replace(tmp, self.link)
        sim.probe("released")
        sim.log("release", os.path.relpath(new, self.root))
        return "release"

    # -- the reference: what may be answered right now
    def resolve(self, rel):
        """The file (or directory) that the served tree has at this path: (real path, stat) or None."""
        for i, d in enumerate(self.dirs):
            p = os.path.join(d, rel)
            rp = os.path.realpath(p)
            rd = os.path.realpath(d)
            if not self.follow and not (rp == rd or rp.startswith(rd + "/")):
                continue
            if self.follow and not (os.path.normpath(p) == d or os.path.normpath(p).startswith(d + "/")):
                continue
            try:
                st = os.stat(p)
            except (FileNotFoundError, NotADirectoryError):
                continue
            except OSError:
                return "error"
            if i:
                self.sim.probe("second-dir")
            return rp, st
        return None

    def acceptable(self, url):
        """The answers the current state allows for the URL path below the mount."""
        if "\0" in url:
            return [("404",)]
        rel = os.path.normpath("/".join(p for p in url.split("/") if p) or ".")
        r = self.resolve(rel)
        if r == "error":
            return [("error",), ("404",)]
        if r is not None:
            rp, st = r
            if os.path.isfile(rp):
                return [self.answer("file", rp)]
            if os.path.isdir(rp) and self.html:
                i = self.resolve(os.path.join(rel, "index.html"))
                if i == "error":
                    return [("error",)]
                if i is not None and os.path.isfile(i[0]):
                    if not url.endswith("/") and not (url == "" and not self.prefix):
                        return [("redirect",)]
                    self.sim.probe("index")
                    return [self.answer("file", i[0])]
        return self.missing()

    def missing(self):
        if self.html:
            r = self.resolve("404.html")
            if r == "error":
                return [("error",)]
            if r is not None and os.path.isfile(r[0]):
                return [self.answer("404page", r[0])]
        return [("404",)]

    def answer(self, kind, rp):
        st = os.stat(rp)
        with open(rp, "rb") as fp:
            data = fp.read()
        return (kind, data, st.st_size, st.st_mtime)

    # -- one history
    async def play(self):
        sim, w, f = self.sim, self.sim.w, self.sim.f
        disk = self.disk
        steps = w.int(2, 7)
        for i in range(steps):
            k = w.weighted([("one", 5), ("deploy", 4), ("many", 2), ("busy", 2)])
            if k == "deploy":
                with disk.harness():
                    self.deploy()
                continue
            n = 1 if k == "one" else w.int(2, 3)
            if n > 1:
                sim.probe("concurrent")
            reqs = [Req(self, f"r{i}.{j}") for j in range(n)]
            plan = []
            if k == "busy" or w.chance(0.15):
                plan = sorted(disk.ops + f.int(1, 12) for _ in range(f.int(1, 3)))

            def on_op(kind, label):
                r = byname.get(owner_var.get())
                if r is not None:
                    r.ops.append(kind)
                while plan and disk.ops >= plan[0]:
                    plan.pop(0)
                    with disk.harness():
                        what = self.deploy(running=True)
                        if what:
                            sim.fault("deployed-during-request")
                            if what == "release":
                                sim.probe("released-during-request")
                            for r in self.active:
                                r.also(what)

            byname = {r.name: r for r in reqs}
            disk.on_op = on_op
            disk.faults.clear()
            if f.chance(0.15):
                disk.faults.append(Fault(f.pick(["stat", "open", "read", "stat"]), f.int(0, 4),
                                         f.pick([errno.EACCES, errno.EIO, errno.EMFILE, errno.ESTALE, errno.ENAMETOOLONG, errno.EPERM]),
                                         f.chance(0.3)))
            if f.chance(0.06):
                disk.faults.append(Fault("lstat", f.int(0, 6), f.pick([errno.EIO, errno.ESTALE, errno.ENOMEM]), f.chance(0.3)))
            disk.raised.clear()
            await gather(*(r.go() for r in reqs))
            disk.faults.clear()
            with disk.harness():
                for r in reqs:
                    if r.judge():
                        return
            if disk.loop_io:
                sim.fail("io-on-loop", f"{disk.loop_io[:3]}: {reqs[0].desc()}")
                return


class Req:
    def __init__(self, system, name):
        self.sys, self.name = system, name
        sim = self.sim = system.sim
        w = sim.w
        self.states = []
        self.reached = set()
        self.ops = []
        self.changed = 0
        with system.disk.harness():
            known = system.paths()
        url = self.draw_url(known)
        self.url = url
        self.head = w.chance(0.15)
        self.method = "HEAD" if self.head else "GET"
        if self.head:
            sim.probe("head")
        if w.chance(0.03):
            self.method = w.pick(["POST", "PUT", "DELETE"])
        self.headers = []
        self.inm = self.ims = None
        cached = system.cached.get(url) or [c for v in system.cached.values() for c in v]
        if cached and w.chance(0.7):
            tag, lm = cached[-1 - w.small(min(3, len(cached) - 1))]
            k = w.pick(["tag", "both", "date", "tags", "tag-other-date", "date-off"])
            if k in ("tag", "both", "tags", "tag-other-date"):
                self.inm = [tag]
                if k == "tags":
                    self.inm = [t for t, _ in w.sample(cached, 2)] + [w.pick(['"zzz"', '"aaa"'])]
                v = w.pick([", ", ","]).join(("W/" if w.chance(0.3) else "") + t for t in self.inm)
                self.headers.append((b"if-none-match", v.encode()))
            if k in ("both", "date", "tag-other-date", "date-off"):
                t = parsedate_to_datetime(lm).timestamp()
                if k in ("date-off", "tag-other-date"):
                    t += w.pick([-1, 1, -86400, 86400 * 300, -3600])
                self.ims = int(t)
                self.headers.append((b"if-modified-since", formatdate(t, usegmt=True).encode()))
            if self.inm and self.ims is not None:
                sim.probe("both-validators")
        self.range = self.if_range = None
        if w.chance(0.25):
            sim.probe("range")
            a = w.pick([0, 0, 1, 3, 5, 10, 40])
            self.range = w.pick([(a, a + w.pick([0, 1, 4, 30])), (a, None), (None, a + 1)])
            self.headers.append((b"range", ("bytes=" + "-".join("" if x is None else str(x) for x in self.range)).encode()))
            if cached and w.chance(0.5):
                tag, lm = w.pick(cached)
                k = w.weighted([("tag", 5), ("date", 4), ("mangled", 2)])
                if k == "mangled":
                    sim.probe("if-range-mangled")
                    tag = w.pick([tag[:-1], "W/" + tag, tag.strip('"'), lm[:-4], lm[:5], lm + ";", tag + ", " + tag, tag.upper() + "x"])
                if k != "date":
                    self.if_range = ("tag", tag)
                    self.headers.append((b"if-range", tag.encode()))
                else:
                    self.if_range = ("date", lm)
                    self.headers.append((b"if-range", lm.encode()))
        self.wait = draw_delay(sim)
        self.ex = Http(sim, system.app, name, path=system.prefix + url or "/", method=self.method, headers=self.headers,
                       spec=w.pick(["2.3", "2.4"]), slow=w.pick([True, False]))

    def draw_url(self, known):
        w, sim = self.sim.w, self.sim
        k = w.weighted([("known", 10), ("random", 3), ("traversal", 4), ("slash", 2), ("odd", 2)])
        if k in ("known", "slash") and known:
            u = "/" + w.pick(known)
            if k == "slash" or w.chance(0.15):
                u += "/"
            return u
        if k == "traversal":
            sim.probe("traversal")
            base = [w.pick(["d", "sub", "e", "."]) for _ in range(w.int(0, 2))]
            ups = w.int(1, 4)
            tail = w.pick(["secret.txt", "static2/secret.txt", "static2/a.txt", "other/a.txt", "static/a.txt", "etc/passwd", "", "a.txt"])
            if tail.startswith("static2"):
                sim.probe("sibling-prefix")
            u = "/" + "/".join(base + [".."] * ups + [tail])
            if w.chance(0.2):
                u = "/" + u
            if w.chance(0.2):
                u = "/" + os.path.join(self.sys.root, tail)
            return u
        if k == "odd":
            c = w.pick(["null", "long", "verylong", "empty", "backslash", "file-as-dir", "percent", "dots"])
            if c == "null":
                sim.probe("null")
                return "/" + w.pick(["a.txt\0", "\0", "d/\0/a.txt", "a.txt\0.html"])
            if c in ("long", "verylong"):
                sim.probe("long-name")
                return "/" + ("x" * 300 if c == "long" else "/".join(["y" * 200] * 25))
            if c == "empty":
                return w.pick(["/", "//"])
            if c == "backslash":
                return "/..\\..\\secret.txt"
            if c == "file-as-dir" and known:
                sim.probe("file-as-dir")
                return "/" + w.pick(known) + "/" + w.pick(["a.txt", "x", "..", "."])
            if c == "percent":
                return "/%2e%2e/secret.txt"
            return w.pick(["/.../a.txt", "/..a/a.txt", "/~/a.txt", "/./a.txt"])
        return "/" + self.sys.draw_rel()

    async def go(self):
        await adelay(self.wait)
        with self.sys.disk.harness():
            self.states = list(self.sys.acceptable(self.url))
            self.look()
        self.sys.active.append(self)
        await self.ex.call()
        self.sys.active.remove(self)

    def look(self):
        """Notes the real path the URL leads to now."""
        if "\0" in self.url:
            return
        rel = os.path.normpath("/".join(p for p in self.url.split("/") if p) or ".")
        for p in [rel, os.path.join(rel, "index.html")] if self.sys.html else [rel]:
            r = self.sys.resolve(p)
            if r not in (None, "error"):
                self.reached.add(r[0])

    def also(self, what):
        self.changed += 1
        self.sim.probe("during-request")
        self.look()
        for rp in self.reached:
            # (a link that was followed before it was removed still leads to its target, whatever that holds by now)
            for a in [self.sys.answer("file", rp)] if os.path.isfile(rp) else []:
                if a not in self.states:
                    self.states.append(a)
        dirs = self.sys.dirs
        for i in range(len(dirs)):
            # (several directories are not looked into at one moment: what a later one has counts as well)
            self.sys.dirs = dirs[i:]
            for a in self.sys.acceptable(self.url):
                if a not in self.states and (i == 0 or a[0] != "404"):
                    self.states.append(a)
        self.sys.dirs = dirs
        # (an answer that there is no such file may come from in between the steps of a change, or from a page looked up
        # after it; a release is one step, so without such a page the file is there at every moment if it is before and after)
        for a in self.sys.missing() if what != "release" or self.sys.html else []:
            if a not in self.states:
                self.states.append(a)

    def desc(self):
        s = self.sys
        return (f"{self.method} {s.prefix}|{self.url!r} html={s.html} follow={s.follow} {s.names} tags={self.inm} since={self.ims} "
                f"allowed={[(a[0], a[1][:12], *a[2:]) if len(a) > 1 else a for a in self.states]} changed={self.changed} "
                f"raised={[(k, e.errno) for k, e in s.disk.raised]}: {self.ex.summary()}")

    def judge(self):
        """True if a violation was found."""
        sim, ex, s = self.sim, self.ex, self.sys
        n0 = len(sim.failures)
        check_grammar(sim, ex)
        self.decide()
        return len(sim.failures) > n0

    def decide(self):
        sim, ex, s = self.sim, self.ex, self.sys
        where = self.desc()
        if ex.hung:
            return sim.fail("hang", where)
        mine = [(k, e.errno) for k, e in s.disk.raised if getattr(e, "sim_owner", None) == self.name]
        body = ex.body
        # -- never anything from outside, whatever else happened
        if not s.follow and any(x.startswith(body) and len(body) > 6 for x in s.secrets):
            if any(k == "lstat" for k, _ in mine):
                return sim.fail("outside-after-lstat-error", where)
            return sim.fail("outside", where)
        exc, st = ex.exc, ex.status
        if isinstance(exc, HTTPException) and s.bare:
            st, exc = exc.status_code, None
            if ex.sent:
                return sim.fail("error-after-start", where)
            body = b""
        if self.method not in ("GET", "HEAD"):
            sim.probe("not-allowed")
            if st != 405 and not (mine and exc is not None):
                return sim.fail("method", where)
            return
        real = [a for a in self.states if a[0] in ("file", "404page")]
        if any(k == "lstat" for k, _ in mine):
            return  # (which file a link leads to cannot be told then: only "outside" is judged)
        errs = [e for k, e in mine if k != "close"]
        if errs:
            sim.probe("io-error")
            if st == 401:
                sim.probe("denied")
                if not any(e in (errno.EACCES, errno.EPERM) for e in errs):
                    return sim.fail("status", where)
                return
            if st == 404 and exc is None and (errno.ENAMETOOLONG in errs or ("404",) in self.states):
                return
            if exc is None:
                if errno.ENAMETOOLONG in errs and st == 404:
                    return
                return sim.fail("error-swallowed", where)
            if st not in (None, 500) and not any(a[1].startswith(body) for a in real):
                return sim.fail("other-content", where)
            return
        if exc is not None:
            if self.changed and (st in (None, 500) or any(a[1].startswith(body) for a in real)):
                return
            if ("error",) in self.states and st in (None, 500):
                return
            return sim.fail("error", where)
        if st == 404 and (ex.header(b"etag") is None or not any(a[0] == "404page" for a in self.states)):
            sim.probe("not-found")
            if ("404",) not in self.states:
                return sim.fail("wrong-404", where)
            return
        if st in (301, 302, 307, 308):
            sim.probe("redirect")
            loc = ex.header(b"location") or b""
            if ("redirect",) not in self.states or not loc.endswith((s.prefix + self.url + "/").encode()) and not self.exotic():
                return sim.fail("redirect", f"{loc}: {where}")
            return
        if st == 304:
            if body:
                return sim.fail("304-body", where)
            files = [a for a in self.states if a[0] == "file"]
            if self.inm is not None:
                issued = set()
                for t in self.inm:
                    issued |= s.tags.get(t, set())
                if not any((a[2], a[3]) in issued for a in files):
                    return sim.fail("stale-304", f"tags issued for {issued}: {where}")
                sim.probe("304-tag")
            elif self.ims is not None:
                if not any(int(a[3]) <= self.ims for a in files):
                    return sim.fail("stale-304", where)
                sim.probe("304-date")
            else:
                return sim.fail("304-without-validator", where)
            return
        if self.range is not None and st in (206, 416):
            return self.part()
        kind = {200: "file", 404: "404page"}.get(st)
        if kind is None:
            return sim.fail("status", where)
        cand = [a for a in self.states if a[0] == kind]
        if not ex.full or not cand:
            return sim.fail("wrong-answer", where)
        if kind == "404page":
            sim.probe("404page")
        else:
            sim.probe("served")
            if self.range is not None and not any(self.whole(a) for a in cand):
                return sim.fail("range-ignored", where)
        if self.head:
            if body:
                return sim.fail("head-body", where)
            hit = cand
        else:
            hit = [a for a in cand if a[1] == body]
            if not hit:
                if any(len(a[1]) != len(body) and self.changed and a[1].startswith(body) for a in cand):
                    return
                return sim.fail("other-content", where)
        tag, lm, cl = ex.header(b"etag"), ex.header(b"last-modified"), ex.header(b"content-length")
        if not self.changed:
            a = hit[0]
            if cl != b"%d" % a[2]:
                return sim.fail("content-length", where)
            if lm != formatdate(a[3], usegmt=True).encode():
                return sim.fail("last-modified", f"{lm}: {where}")
            if tag is None:
                return sim.fail("no-etag", where)
            tag = tag.decode()
            s.tags.setdefault(tag, set()).add((a[2], a[3]))
            if len(s.tags[tag]) > 1:
                return sim.fail("etag-not-distinct", f"{tag} {s.tags[tag]}: {where}")
            if kind == "file":
                s.cached.setdefault(self.url, []).append((tag, lm.decode()))
            if self.inm:
                sim.probe("200-despite-tag")

    def cut(self, size):
        """The part of a file of this size that is asked for, None if there is none."""
        a, z = self.range
        if a is None:
            a, z = size - z, size
        else:
            z = size if z is None else min(z + 1, size)
        return (a, z) if 0 <= a < size else None

    def current(self, a):
        """Whether the version's validator is the one the range is asked for under (a tag, or a date of the same second)."""
        if self.if_range is None:
            return True
        k, v = self.if_range
        return (a[2], a[3]) in self.sys.tags.get(v, ()) if k == "tag" else formatdate(a[3], usegmt=True) == v

    def whole(self, a):
        """Whether a file may be sent whole all the same."""
        return not self.current(a)

    def part(self):
        sim, ex = self.sim, self.ex
        where = self.desc() + f" range={self.range} if={self.if_range}"
        files = [a for a in self.states if a[0] == "file" and self.current(a)]
        if ex.status == 416:
            sim.probe("range-unsatisfiable")
            if not any(self.cut(a[2]) is None for a in files):
                return sim.fail("416", where)
            return
        for a in files:
            c = self.cut(a[2])
            if c and ex.header(b"content-range") == b"bytes %d-%d/%d" % (c[0], c[1] - 1, a[2]):
                want = b"" if self.head else a[1][c[0]:c[1]]
                if ex.body == want or self.changed and want.startswith(ex.body):
                    sim.probe("part" if self.if_range is None else "part-if-current")
                    return
        if self.changed and any(a[1][z:].startswith(ex.body) for a in files for z in range(a[2])):
            return
        sim.fail("part", f"{ex.header(b'content-range')}: {where}")

    def exotic(self):
        return "//" in self.url or ".." in self.url or "\\" in self.url
