"""C09: streaming stops when the client goes away, and every request ends."""
from __future__ import annotations

import hashlib

import anyio

from starlette.requests import ClientDisconnect
from starlette.responses import StreamingResponse
from starlette.routing import Route

from .apps import make_app, AppError, ERRS, Obs, draw_delay
from .common import ClientGone, Http, adelay, check_grammar, draw_gone, UnitRoute, draw_units, run_units, split_chunks
from .stack import decode, decode_prefix, draw_stack

RUNS = 16000
PROBES = ("shared-app", "disconnect", "send-oserror", "waiting-source", "endless-source", "source-error", "gone-with-dispatch", "complete",
          "stopped-midway", "sync-source")


def scenario(sim):
    async def main():
        units = draw_units(sim, lambda name, like: Unit(sim, name, like))
        await run_units(sim, units)
        for u in units:
            u.judge()

    sim.run(main)


class Unit:
    def __init__(self, sim, name, like=None):
        w, f = sim.w, sim.f
        self.sim, self.name = sim, name
        self.obs = Obs(sim, name)
        self.kind = w.pick(["agen", "aiter", "gen", "iter", "strgen"])
        self.spec = w.pick(["2.3", "2.4", "2.0", "2.1"])
        mws, self.names = (None, like.names) if like else draw_stack(sim, None, ("dispatch", "dispatch", "gzip", "pure", "session", "cors"))
        self.n = w.weighted([(3, 4), (0, 1), (1, 2), (8, 2), (20, 1)])
        self.chunks = [w.pick([b"x%d;", b"chunk-number-%d;", b"%d" + b"=" * 200]) % i for i in range(self.n)]
        for i in range(self.n):
            if w.chance(0.12):
                self.chunks[i] = b""
        self.delays = [draw_delay(sim) for _ in self.chunks]
        body = w.bytes(w.pick([0, 0, 5, 60]))
        chunks = split_chunks(sim, body) if body else None
        gone = draw_gone(sim, 0.7, len(chunks or [1]), 10)
        self.behav = "finite"
        if gone is not None:
            sync = self.kind in ("gen", "iter")
            opts = ["finite", "endless"] + (["wait"] if not sync and self.spec != "2.4" else [])
            self.behav = w.pick(opts)
        self.err = None
        if f.chance(0.25):
            self.err = (f.int(0, self.n), f.pick(ERRS)("source"))
            if self.behav != "finite" and f.chance(0.5):
                self.err = None
            elif self.behav == "endless":
                self.behav = "finite"
        self.bg = w.chance(0.3)
        bare = w.chance(0.2)
        style = w.pick(["async", "sync"])
        if gone is not None and gone[0] in ("sends", "recvs") and self.behav != "finite":
            # "after k sends/receives" may never come about if the source waits: use a time instead
            gone = ("time", f.pick([0.0, 0.001, 0.003, 0.01, 0.1, 1.0]))
        self.app = like.app if like else self.build_app(mws, bare, style)
        self.ex = Http(sim, self.app, name, extra={"sim.unit": self}, method=w.pick(["GET", "POST"]), chunks=chunks, spec=self.spec, gone=gone,
                       style=w.pick(["drop", "queue"]), slow=w.pick([True, "both", False]),
                       headers=[(b"accept-encoding", b"gzip")])

    def build_app(self, mws, bare, style):
        if bare:
            async def app(scope, receive, send):
                await scope["sim.unit"].respond()(scope, receive, send)
            for m in reversed(mws):
                app = m.cls(app, *m.args, **m.kwargs)
            return app
        if style == "async":
            async def endpoint(request):
                return request.scope["sim.unit"].respond()
        else:
            def endpoint(request):
                return request.scope["sim.unit"].respond()
        return make_app(self.sim, routes=[Route("/", endpoint, methods=["GET", "POST"])], middleware=mws)

    def respond(self):
        from starlette.background import BackgroundTask

        async def bg():
            self.obs.add("bg")

        return StreamingResponse(self.source(), background=BackgroundTask(bg) if self.bg else None)

    def item(self, i):
        """(chunk, delay) of position i, or None at the end."""
        if self.err and i == self.err[0]:
            return "err", 0
        if i < self.n:
            return self.chunks[i], self.delays[i]
        if self.behav == "finite":
            return None
        if self.behav == "wait":
            return "wait", 0
        # hard to compress, so that the gzip middleware passes something on after a bounded number of chunks
        return hashlib.shake_128(b"%d" % i).hexdigest(2048).encode(), 0.01 if i % 2 else "yield"

    def text(self, c):
        return c.decode() if self.kind == "strgen" else c

    def source(self):
        obs, sim = self.obs, self.sim
        if self.kind in ("gen", "iter"):
            sim.probe("sync-source")

            def pull(i):
                obs.add("pull", i)
                it = self.item(i)
                if it is None:
                    return None
                c, d = it
                if not sim.in_worker():
                    sim.fail("blocking-on-loop", "sync iterator advanced on the event loop thread")
                else:
                    sim.tpause("src", d if isinstance(d, float) else None)
                if c == "err":
                    obs.add("raise")
                    raise self.err[1]
                obs.add("yield", i)
                return c
            if self.kind == "gen":
                def gen():
                    i = 0
                    while (c := pull(i)) is not None:
                        yield c
                        i += 1
                return gen()

            class It:
                i = -1

                def __iter__(self):
                    return self

                def __next__(self):
                    self.i += 1
                    c = pull(self.i)
                    if c is None:
                        raise StopIteration
                    return c
            return It()

        async def apull(i):
            obs.add("pull", i)
            it = self.item(i)
            if it is None:
                return None
            c, d = it
            if c == "wait":
                sim.probe("waiting-source")
                await anyio.sleep_forever()
            await adelay(d)
            if c == "err":
                obs.add("raise")
                raise self.err[1]
            obs.add("yield", i)
            return self.text(c)

        if self.kind == "aiter":
            class AIt:
                i = -1

                def __aiter__(self):
                    return self

                async def __anext__(self):
                    self.i += 1
                    c = await apull(self.i)
                    if c is None:
                        raise StopAsyncIteration
                    return c
            return AIt()

        async def agen():
            i = 0
            try:
                while (c := await apull(i)) is not None:
                    yield c
                    i += 1
            finally:
                obs.add("src-end")
        return agen()

    def judge(self):
        sim, ex, obs = self.sim, self.ex, self.obs
        where = (f"{self.names} {self.kind}/{self.behav} n={self.n} err={self.err} spec={self.spec} gone={ex.gone_plan} "
                 f"pulls={obs.count('pull')}: {ex.summary()}")
        check_grammar(sim, ex)
        if ex.hung:
            return sim.fail("hang", where)
        if ex.left:
            sim.fail("tasks-left", f"{ex.left}: {where}")
        disp = "dispatch" in self.names
        raised = bool(obs.count("raise"))
        good = b"".join(self.chunks[:self.err[0]] if self.err else self.chunks)
        pre = decode_prefix(ex)
        got_ok = pre is not None and (good.startswith(pre) if self.behav != "endless" else
                                      pre.startswith(good) or good.startswith(pre))
        if not got_ok and ex.status != 500:
            return sim.fail("body", f"client got {pre!r:.100}: {where}")
        if ex.gone and obs.count("enter") == 0 and not obs.count("pull"):
            pass
        if self.behav == "endless":
            sim.probe("endless-source")
        if ex.gone:
            if disp:
                sim.probe("gone-with-dispatch")
            # counted from the moment the server reported the disconnect (or, failing that, from the disconnect itself)
            told = ex.disc_seq if ex.disc_seq is not None else ex.gone_seq
            after = sum(1 for s in obs.seqs("yield") if s > told)
            bound = 40 + 40 * len(self.names) if ex.disc_seq is not None or ex.send_fail else 3000
            if after > bound and self.behav == "endless":
                return sim.fail("keeps-drawing", f"{after} chunks drawn after the client was gone: {where}")
            if ex.end_at - ex.gone_at > 120:
                return sim.fail("late-end", f"ended {ex.end_at - ex.gone_at:.1f} s after the disconnect: {where}")
            if ex.end_seq > ex.gone_seq and not ex.full:
                sim.probe("stopped-midway")
            if ex.send_fail > 1:
                return sim.fail("sends-after-failure", f"{ex.send_fail} sends failed: {where}")
            e = ex.exc
            if e is not None:
                ok = (isinstance(e, (ClientGone, ClientDisconnect)) or raised and e is self.err[1]
                      or disp and isinstance(e, RuntimeError) and str(e) == "No response returned.")
                if not ok:
                    return sim.fail("wrong-exception", where)
                if isinstance(e, ClientGone) and not disp and obs.count("pull") and not raised:
                    return sim.fail("raw-oserror", f"the failing send surfaced as {e!r}: {where}")
            elif ex.send_fail:
                return sim.fail("disconnect-swallowed", where)
            if raised and e is None and not ex.gone_before(obs.seqs("raise")[0]):
                return sim.fail("error-lost", where)
            return
        # the client stayed
        if self.err is not None:
            sim.probe("source-error")
            if not raised:
                return sim.fail("not-drawn", where)
            if ex.exc is not self.err[1]:
                return sim.fail("wrong-exception", f"want {self.err[1]!r}: {where}")
            if ex.full and ex.status == 200:
                return sim.fail("truncated-finished", where)
            if ex.status == 200 and pre != good and "gzip" not in self.names:
                return sim.fail("chunks-lost", f"client got {pre!r:.80} before the error: {where}")
            return
        if ex.exc is not None:
            return sim.fail("error", where)
        sim.probe("complete")
        if not ex.full or decode(ex) != good:
            return sim.fail("incomplete", where)
        if not disp and "gzip" not in self.names:
            # chunk i has been handed over before chunk i + 1 is drawn
            pulls = {e[2]: e[0] for e in obs.events if e[1] == "pull"}
            sent = [s for s, m in zip(ex.sent_seq, ex.sent) if m["type"] == "http.response.body"]
            if len(sent) != self.n + 1:
                return sim.fail("chunking", f"{len(sent)} body messages for {self.n} chunks: {where}")
            for i in range(self.n):
                if pulls.get(i + 1, 10**9) < sent[i]:
                    return sim.fail("drawn-ahead", f"chunk {i + 1} was drawn before chunk {i} was sent: {where}")
        if self.bg and obs.count("bg") != 1:
            sim.fail("background", where)
