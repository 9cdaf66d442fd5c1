"""Shared pieces of the scenarios."""
from __future__ import annotations

import anyio

from starlette.routing import BaseRoute, NoMatchFound

from sim.kernel import Sim
from sim.server import adelay, ClientGone, Http, WebSock, check_grammar, draw_gone, split_chunks  # noqa: F401

SPECS = ["2.0", "2.1", "2.3", "2.4", "2.5"]


def draw_size(w, big=0.1):
    """Body sizes: mostly small, sometimes around buffer limits."""
    k = w.weighted([("small", 6), ("zero", 1), ("mid", 3), ("edge", 1)])
    if k == "zero":
        return 0
    if k == "small":
        return w.int(1, 24)
    if k == "mid":
        return w.int(25, 700)
    if big and w.chance(big * 5):
        return w.pick([65536, 65535, 65537, 131072, 100_000, 4096, 8192, 1024])
    return w.pick([4096, 1024, 8192, 255, 256])


async def gather(*coros):
    async with anyio.create_task_group() as tg:
        for c in coros:
            tg.start_soon(_run, c)


async def _run(c):
    await c


class UnitRoute(BaseRoute):
    """A route of an application that several units of a scenario share: what it serves belongs to the unit whose request
    it is (`scope["sim.unit"]`), so that the routing and all middleware instances are the same objects for everyone."""

    def __init__(self, attr="route"):
        self.attr = attr

    def matches(self, scope):
        return getattr(scope["sim.unit"], self.attr).matches(scope)

    def url_path_for(self, name, /, **path_params):
        raise NoMatchFound(name, path_params)

    async def handle(self, scope, receive, send):
        await getattr(scope["sim.unit"], self.attr).handle(scope, receive, send)


def draw_units(sim, make, counts=((1, 5), (2, 3), (3, 1)), share=0.6):
    """make(name, like): the units of a run; later ones may use the application of the first."""
    w = sim.w
    units = []
    for i in range(w.weighted(list(counts))):
        like = units[0] if units and w.chance(share) else None
        u = make(f"c{i}", like)
        u.shares = like
        u.delay = w.pick([0, 0, "yield", 0.001, 0.003, "after"]) if i else 0
        units.append(u)
        if like is not None:
            sim.probe("shared-app")
    return units


async def run_units(sim, units, call=None):
    """Concurrently, or one after the other."""
    first = anyio.Event()

    async def one(i, u):
        if u.delay == "after":
            await first.wait()
        else:
            await adelay(u.delay)
        try:
            await (call(u) if call else u.ex.call())
        finally:
            if i == 0:
                first.set()

    await gather(*(one(i, u) for i, u in enumerate(units)))


def quote_plus(w, s: str) -> bytes:
    """Percent-encode, with randomly unneeded escapes."""
    out = bytearray()
    for b in s.encode("utf-8"):
        c = bytes([b])
        if c == b" " and w.chance(0.5):
            out += b"+"
        elif c.isalnum() and not w.chance(0.1):
            out += c
        else:
            out += (b"%%%02X" if w.chance(0.5) else b"%%%02x") % b
    return bytes(out)


def norm_exc(e):
    return f"{type(e).__name__}({e})"
