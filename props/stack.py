"""Random middleware stacks that leave the response of the application as it is (apart from known headers)."""
from __future__ import annotations

import zlib

from starlette.authentication import AuthCredentials, AuthenticationBackend, SimpleUser
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware

from sim.server import adelay

from .apps import draw_delay


class Pure:
    """A plain ASGI middleware that delays messages."""

    def __init__(self, app, sim, d):
        self.app, self.sim, self.d = app, sim, d

    async def __call__(self, scope, receive, send):
        if scope["type"] == "lifespan":
            return await self.app(scope, receive, send)

        async def send2(m):
            await self.sim.pause("pure")
            await send(m)
            await self.sim.pause("pure2")

        await adelay(self.d)
        await self.app(scope, receive, send2)


class Backend(AuthenticationBackend):
    def __init__(self, delay):
        self.delay = delay

    async def authenticate(self, conn):
        await adelay(self.delay)
        if "authorization" not in conn.headers:
            return None
        return AuthCredentials(["a"]), SimpleUser("u")


def passing(delay, where):
    async def dispatch(request, call_next):
        if where == 0:
            await adelay(delay)
        r = await call_next(request)
        if where == 1:
            await adelay(delay)
        return r

    return dispatch


def draw_stack(sim, n=None, kinds=("dispatch", "dispatch", "gzip", "session", "cors", "host", "auth", "pure")):
    w = sim.w
    n = w.weighted([(0, 2), (1, 4), (2, 3), (3, 2), (4, 1)]) if n is None else n
    mws, names = [], []
    for _ in range(n):
        k = w.pick(kinds)
        names.append(k)
        d = draw_delay(sim)
        if k == "dispatch":
            mws.append(Middleware(BaseHTTPMiddleware, dispatch=passing(d, w.int(0, 1))))
        elif k == "gzip":
            if "gzip" in names[:-1]:
                names.pop()
                continue
            mws.append(Middleware(GZipMiddleware, minimum_size=w.pick([500, 0, 1, 10]), compresslevel=w.pick([9, 1, 5])))
        elif k == "session":
            mws.append(Middleware(SessionMiddleware, secret_key="s"))
        elif k == "cors":
            mws.append(Middleware(CORSMiddleware, allow_origins=w.pick([["*"], ["http://a"]])))
        elif k == "host":
            mws.append(Middleware(TrustedHostMiddleware, allowed_hosts=["testserver"]))
        elif k == "auth":
            mws.append(Middleware(AuthenticationMiddleware, backend=Backend(d)))
        else:
            mws.append(Middleware(Pure, sim=sim, d=d))
    return mws, names


def decode(ex):
    """The body as the client decodes it; None if the encoding is broken or cut short."""
    enc = ex.headers_all(b"content-encoding")
    body = ex.body
    if enc == [b"gzip"]:
        d = zlib.decompressobj(16 + zlib.MAX_WBITS)
        try:
            out = d.decompress(body) + d.flush()
        except zlib.error:
            return None
        if not d.eof or d.unused_data:
            return None
        return out
    return body


def decode_prefix(ex):
    """What a client can decode from a possibly cut-short body."""
    if ex.headers_all(b"content-encoding") == [b"gzip"]:
        d = zlib.decompressobj(16 + zlib.MAX_WBITS)
        try:
            return d.decompress(ex.body)
        except zlib.error:
            return None
    return ex.body
