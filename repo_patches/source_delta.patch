From 97276eea22945159558dcff3e242ca2d48ac96ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 01/49] fix: do not raise an application error again after
 dispatch handled it

---
 starlette/middleware/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 2a59337..0c88e7d 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -104,8 +104,11 @@ class BaseHTTPMiddleware:
         wrapped_receive = request.wrapped_receive
         response_sent = anyio.Event()
         app_exc: Exception | None = None
+        exception_already_raised = False
 
         async def call_next(request: Request) -> Response:
+            nonlocal exception_already_raised
+
             async def receive_or_disconnect() -> Message:
                 if response_sent.is_set():
                     return {"type": "http.disconnect"}
@@ -150,6 +153,7 @@ class BaseHTTPMiddleware:
                     message = await recv_stream.receive()
             except anyio.EndOfStream:
                 if app_exc is not None:
+                    exception_already_raised = True
                     raise app_exc
                 raise RuntimeError("No response returned.")
 
@@ -177,7 +181,7 @@ class BaseHTTPMiddleware:
                 response_sent.set()
                 recv_stream.close()
 
-        if app_exc is not None:
+        if app_exc is not None and not exception_already_raised:
             raise app_exc
 
     async def dispatch(self, request: Request, call_next: RequestResponseEndpoint) -> Response:
-- 
2.43.0


From 501910db86066f2486d0417a2be58f57b05b4878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 02/49] fix: do not finish a response whose application failed
 in mid-stream

---
 starlette/middleware/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 0c88e7d..b848c4c 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -167,6 +167,10 @@ class BaseHTTPMiddleware:
                         yield body
                     if not message.get("more_body", False):
                         break
+                else:
+                    # The application ended without finishing its response.
+                    if app_exc is not None:
+                        raise app_exc
 
             response = _StreamingResponse(status_code=message["status"], content=body_stream(), info=info)
             response.raw_headers = message["headers"]
-- 
2.43.0


From f9dc2ee67ce754c47b0673cdeeb66963efb4d1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 03/49] fix: report an OSError of a streamed content iterator
 as itself, not as a client disconnect

---
 starlette/responses.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 81e89fa..713e88e 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -23,7 +23,7 @@ from starlette.background import BackgroundTask
 from starlette.concurrency import iterate_in_threadpool
 from starlette.datastructures import URL, Headers, MutableHeaders
 from starlette.requests import ClientDisconnect
-from starlette.types import Receive, Scope, Send
+from starlette.types import Message, Receive, Scope, Send
 
 
 class Response:
@@ -254,10 +254,15 @@ class StreamingResponse(Response):
         spec_version = tuple(map(int, scope.get("asgi", {}).get("spec_version", "2.0").split(".")))
 
         if spec_version >= (2, 4):
-            try:
-                await self.stream_response(send)
-            except OSError:
-                raise ClientDisconnect()
+
+            async def send_or_disconnect(message: Message) -> None:
+                # Only a failing send means that the client is gone, not an `OSError` of the content iterator.
+                try:
+                    await send(message)
+                except OSError:
+                    raise ClientDisconnect()
+
+            await self.stream_response(send_or_disconnect)
         else:
             with collapse_excgroups():
                 async with anyio.create_task_group() as task_group:
-- 
2.43.0


From c2145fbe607273c80357034d3c43fc9a977b1750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:47 +0000
Subject: [PATCH 04/49] fix: gzip middleware accepts response body messages
 without a body

---
 starlette/middleware/gzip.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index c7fd5b7..d9c11ea 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -69,27 +69,27 @@ class IdentityResponder:
                 await self.send(message)
             elif not more_body:
                 # Standard response.
-                body = self.apply_compression(body, more_body=False)
+                compressed_body = self.apply_compression(body, more_body=False)
 
                 headers = MutableHeaders(raw=self.initial_message["headers"])
                 headers.add_vary_header("Accept-Encoding")
-                if body != message["body"]:
+                if compressed_body != body:
                     headers["Content-Encoding"] = self.content_encoding
-                    headers["Content-Length"] = str(len(body))
-                    message["body"] = body
+                    headers["Content-Length"] = str(len(compressed_body))
+                    message["body"] = compressed_body
 
                 await self.send(self.initial_message)
                 await self.send(message)
             else:
                 # Initial body in streaming response.
-                body = self.apply_compression(body, more_body=True)
+                compressed_body = self.apply_compression(body, more_body=True)
 
                 headers = MutableHeaders(raw=self.initial_message["headers"])
                 headers.add_vary_header("Accept-Encoding")
-                if body != message["body"]:
+                if compressed_body != body:
                     headers["Content-Encoding"] = self.content_encoding
                     del headers["Content-Length"]
-                    message["body"] = body
+                    message["body"] = compressed_body
 
                 await self.send(self.initial_message)
                 await self.send(message)
-- 
2.43.0


From d78ff50b7639963fb77f20c477b3e006036b7ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 05/49] fix: gzip middleware does not change the header list of
 a shared response object

---
 starlette/middleware/gzip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index d9c11ea..a5f7703 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -71,7 +71,7 @@ class IdentityResponder:
                 # Standard response.
                 compressed_body = self.apply_compression(body, more_body=False)
 
-                headers = MutableHeaders(raw=self.initial_message["headers"])
+                headers = MutableHeaders(scope=self.initial_message)
                 headers.add_vary_header("Accept-Encoding")
                 if compressed_body != body:
                     headers["Content-Encoding"] = self.content_encoding
@@ -84,7 +84,7 @@ class IdentityResponder:
                 # Initial body in streaming response.
                 compressed_body = self.apply_compression(body, more_body=True)
 
-                headers = MutableHeaders(raw=self.initial_message["headers"])
+                headers = MutableHeaders(scope=self.initial_message)
                 headers.add_vary_header("Accept-Encoding")
                 if compressed_body != body:
                     headers["Content-Encoding"] = self.content_encoding
-- 
2.43.0


From 9e2301d19535e7ad99bbfb433e7ac954e0d36f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 06/49] fix: middleware accepts response start messages without
 headers and copies their header list

---
 starlette/middleware/base.py     | 2 +-
 starlette/middleware/gzip.py     | 1 +
 starlette/middleware/sessions.py | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index b848c4c..3b7f773 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -173,7 +173,7 @@ class BaseHTTPMiddleware:
                         raise app_exc
 
             response = _StreamingResponse(status_code=message["status"], content=body_stream(), info=info)
-            response.raw_headers = message["headers"]
+            response.raw_headers = list(message.get("headers", []))
             return response
 
         streams: anyio.create_memory_object_stream[Message] = anyio.create_memory_object_stream()
diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index a5f7703..7be9b03 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -50,6 +50,7 @@ class IdentityResponder:
         if message_type == "http.response.start":
             # Don't send the initial message until we've determined how to
             # modify the outgoing headers correctly.
+            message.setdefault("headers", [])
             self.initial_message = message
             headers = Headers(raw=self.initial_message["headers"])
             self.content_encoding_set = "content-encoding" in headers
diff --git a/starlette/middleware/sessions.py b/starlette/middleware/sessions.py
index 5f9fcd8..11f9ffe 100644
--- a/starlette/middleware/sessions.py
+++ b/starlette/middleware/sessions.py
@@ -56,6 +56,7 @@ class SessionMiddleware:
 
         async def send_wrapper(message: Message) -> None:
             if message["type"] == "http.response.start":
+                message.setdefault("headers", [])
                 if scope["session"]:
                     # We have session data to persist.
                     data = b64encode(json.dumps(scope["session"]).encode("utf-8"))
-- 
2.43.0


From 09748f72126743b19d19f94bada2bef13b1e4960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:52 +0000
Subject: [PATCH 07/49] fix: close the files of a form whenever its parsing
 fails

---
 starlette/formparsers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/starlette/formparsers.py b/starlette/formparsers.py
index 4551d68..6bad942 100644
--- a/starlette/formparsers.py
+++ b/starlette/formparsers.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import typing
+from contextlib import suppress
 from dataclasses import dataclass, field
 from enum import Enum
 from tempfile import SpooledTemporaryFile
@@ -265,11 +266,13 @@ class MultiPartParser:
                     await part.file.seek(0)
                 self._file_parts_to_write.clear()
                 self._file_parts_to_finish.clear()
-        except MultiPartException as exc:
-            # Close all the files if there was an error.
+        except BaseException:
+            # Close all the files if there was an error, whichever it was: a form that is malformed
+            # or exceeds a limit, a client that disconnected, a disk error or a cancellation.
             for file in self._files_to_close_on_error:
-                file.close()
-            raise exc
+                with suppress(OSError):  # a disk that is full fails the final flush too
+                    file.close()
+            raise
 
         parser.finalize()
         return FormData(self.items)
-- 
2.43.0


From f1fa8abb0f292bf42c607cae19fe5fc4852f3981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 08/49] fix: roll an uploaded file over to disk in a worker
 thread, not on the event loop

---
 starlette/datastructures.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index f5d74d2..b2e194d 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -434,11 +434,16 @@ class UploadFile:
         rolled_to_disk = getattr(self.file, "_rolled", True)
         return not rolled_to_disk
 
+    def _will_roll(self, size_to_add: int) -> bool:
+        # check for SpooledTemporaryFile._max_size, where 0 means that it never rolls over to disk
+        max_size: int = getattr(self.file, "_max_size", 0)
+        return bool(max_size) and self.file.tell() + size_to_add > max_size
+
     async def write(self, data: bytes) -> None:
         if self.size is not None:
             self.size += len(data)
 
-        if self._in_memory:
+        if self._in_memory and not self._will_roll(len(data)):
             self.file.write(data)
         else:
             await run_in_threadpool(self.file.write, data)
-- 
2.43.0


From e83ccd9571507630546ee3b93e996ff81addebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 09/49] fix: close the file of a part that the end of the form
 cut off

---
 starlette/formparsers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starlette/formparsers.py b/starlette/formparsers.py
index 6bad942..e1e1ac5 100644
--- a/starlette/formparsers.py
+++ b/starlette/formparsers.py
@@ -266,6 +266,10 @@ class MultiPartParser:
                     await part.file.seek(0)
                 self._file_parts_to_write.clear()
                 self._file_parts_to_finish.clear()
+            unfinished = self._current_part.file
+            if unfinished is not None and not any(value is unfinished for _, value in self.items):
+                # The body ended in the middle of this file: it is not an item of the form, which could close it.
+                await unfinished.close()
         except BaseException:
             # Close all the files if there was an error, whichever it was: a form that is malformed
             # or exceeds a limit, a client that disconnected, a disk error or a cancellation.
-- 
2.43.0


From 5d287d36c37c3452103719d6e54c11286dece961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:09 +0000
Subject: [PATCH 10/49] fix: close uploaded files on disk when the request is
 being cancelled

---
 starlette/datastructures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index b2e194d..24a4c48 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -4,6 +4,8 @@ import typing
 from shlex import shlex
 from urllib.parse import SplitResult, parse_qsl, urlencode, urlsplit
 
+import anyio
+
 from starlette.concurrency import run_in_threadpool
 from starlette.types import Scope
 
@@ -463,7 +465,9 @@ class UploadFile:
         if self._in_memory:
             self.file.close()
         else:
-            await run_in_threadpool(self.file.close)
+            # a cancelled request has to release its files, too
+            with anyio.CancelScope(shield=True):
+                await run_in_threadpool(self.file.close)
 
     def __repr__(self) -> str:
         return f"{self.__class__.__name__}(filename={self.filename!r}, size={self.size!r}, headers={self.headers!r})"
-- 
2.43.0


From 08984ac044e6a152800324dbf1b2e9801bdbf7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:58 +0000
Subject: [PATCH 11/49] fix: close every file of a form even if closing one of
 them fails

---
 starlette/datastructures.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 24a4c48..24fe22d 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import typing
+from contextlib import AsyncExitStack
 from shlex import shlex
 from urllib.parse import SplitResult, parse_qsl, urlencode, urlsplit
 
@@ -486,9 +487,11 @@ class FormData(ImmutableMultiDict[str, typing.Union[UploadFile, str]]):
         super().__init__(*args, **kwargs)
 
     async def close(self) -> None:
-        for key, value in self.multi_items():
-            if isinstance(value, UploadFile):
-                await value.close()
+        # every file is closed, even if closing one of them fails
+        async with AsyncExitStack() as stack:
+            for key, value in reversed(self.multi_items()):
+                if isinstance(value, UploadFile):
+                    stack.push_async_callback(value.close)
 
 
 class Headers(typing.Mapping[str, str]):
-- 
2.43.0


From 2bdb90c6dc46262362e7127df6a2ae833c833136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 12/49] fix: middleware does not change the message objects
 that the application sends

---
 starlette/middleware/cors.py     | 2 +-
 starlette/middleware/gzip.py     | 1 +
 starlette/middleware/sessions.py | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/starlette/middleware/cors.py b/starlette/middleware/cors.py
index 6150269..5e1790b 100644
--- a/starlette/middleware/cors.py
+++ b/starlette/middleware/cors.py
@@ -148,7 +148,7 @@ class CORSMiddleware:
             await send(message)
             return
 
-        message.setdefault("headers", [])
+        message = {"headers": [], **message}
         headers = MutableHeaders(scope=message)
         headers.update(self.simple_headers)
         origin = request_headers["Origin"]
diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index 7be9b03..3ae1d37 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -46,6 +46,7 @@ class IdentityResponder:
         await self.app(scope, receive, self.send_with_compression)
 
     async def send_with_compression(self, message: Message) -> None:
+        message = {**message}  # the application may use its own object again
         message_type = message["type"]
         if message_type == "http.response.start":
             # Don't send the initial message until we've determined how to
diff --git a/starlette/middleware/sessions.py b/starlette/middleware/sessions.py
index 11f9ffe..9273798 100644
--- a/starlette/middleware/sessions.py
+++ b/starlette/middleware/sessions.py
@@ -56,7 +56,7 @@ class SessionMiddleware:
 
         async def send_wrapper(message: Message) -> None:
             if message["type"] == "http.response.start":
-                message.setdefault("headers", [])
+                message = {"headers": [], **message}
                 if scope["session"]:
                     # We have session data to persist.
                     data = b64encode(json.dumps(scope["session"]).encode("utf-8"))
-- 
2.43.0


From e862cda200139d64605748b603cbbba29e173812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 13/49] fix: polling for a disconnect behind dispatch
 middleware sees the disconnect

---
 starlette/middleware/base.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 3b7f773..f217a76 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -11,7 +11,6 @@ from starlette.types import ASGIApp, Message, Receive, Scope, Send
 
 RequestResponseEndpoint = typing.Callable[[Request], typing.Awaitable[Response]]
 DispatchFunction = typing.Callable[[Request, RequestResponseEndpoint], typing.Awaitable[Response]]
-T = typing.TypeVar("T")
 
 
 class _CachedRequest(Request):
@@ -103,6 +102,7 @@ class BaseHTTPMiddleware:
         request = _CachedRequest(scope, receive)
         wrapped_receive = request.wrapped_receive
         response_sent = anyio.Event()
+        receive_scopes: set[anyio.CancelScope] = set()
         app_exc: Exception | None = None
         exception_already_raised = False
 
@@ -113,15 +113,15 @@ class BaseHTTPMiddleware:
                 if response_sent.is_set():
                     return {"type": "http.disconnect"}
 
-                async with anyio.create_task_group() as task_group:
-
-                    async def wrap(func: typing.Callable[[], typing.Awaitable[T]]) -> T:
-                        result = await func()
-                        task_group.cancel_scope.cancel()
-                        return result
-
-                    task_group.start_soon(wrap, response_sent.wait)
-                    message = await wrap(wrapped_receive)
+                # No task is started here: a message that is available at once has to get through even if the
+                # caller's scope is cancelled already, which is how `Request.is_disconnected()` polls.
+                message: Message = {"type": "http.disconnect"}
+                with anyio.CancelScope() as receive_scope:
+                    receive_scopes.add(receive_scope)
+                    try:
+                        message = await wrapped_receive()
+                    finally:
+                        receive_scopes.discard(receive_scope)
 
                 if response_sent.is_set():
                     return {"type": "http.disconnect"}
@@ -183,6 +183,8 @@ class BaseHTTPMiddleware:
                 response = await self.dispatch_func(request, call_next)
                 await response(scope, wrapped_receive, send)
                 response_sent.set()
+                for receive_scope in receive_scopes:
+                    receive_scope.cancel()
                 recv_stream.close()
 
         if app_exc is not None and not exception_already_raised:
-- 
2.43.0


From ff4548fcafb8fb1cd8fdb9affd5ce5e5e77db670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:26 +0000
Subject: [PATCH 14/49] fix: a multipart range response ends when its file was
 truncated

---
 starlette/responses.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/responses.py b/starlette/responses.py
index 713e88e..4cffc1f 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -434,6 +434,8 @@ class FileResponse(Response):
                     await file.seek(start)
                     while start < end:
                         chunk = await file.read(min(self.chunk_size, end - start))
+                        if not chunk:
+                            raise RuntimeError(f"File at path {self.path} became shorter while it was being sent.")
                         start += len(chunk)
                         await send({"type": "http.response.body", "body": chunk, "more_body": True})
                     await send({"type": "http.response.body", "body": b"\n", "more_body": True})
-- 
2.43.0


From c18316b41d81bd8ce2bcd5da226b133d714fba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:26 +0000
Subject: [PATCH 15/49] fix: reject a range whose end is just before its start

---
 starlette/responses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 4cffc1f..3f50741 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -478,7 +478,7 @@ class FileResponse(Response):
         if any(not (0 <= start < file_size) for start, _ in ranges):
             raise RangeNotSatisfiable(file_size)
 
-        if any(start > end for start, end in ranges):
+        if any(start >= end for start, end in ranges):
             raise MalformedRangeHeader("Range header: start must be less than end")
 
         if len(ranges) == 1:
-- 
2.43.0


From 0531f30ceb1f0c13fa72999efa7c21e236e73983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:26 +0000
Subject: [PATCH 16/49] fix: a range with an overlong number is malformed, not
 a server error

---
 starlette/responses.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 3f50741..9dff28b 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -463,14 +463,17 @@ class FileResponse(Response):
         if units != "bytes":
             raise MalformedRangeHeader("Only support bytes range")
 
-        ranges = [
-            (
-                int(_[0]) if _[0] else file_size - int(_[1]),
-                int(_[1]) + 1 if _[0] and _[1] and int(_[1]) < file_size else file_size,
-            )
-            for _ in _RANGE_PATTERN.findall(range_)
-            if _ != ("", "")
-        ]
+        try:
+            ranges = [
+                (
+                    int(_[0]) if _[0] else file_size - int(_[1]),
+                    int(_[1]) + 1 if _[0] and _[1] and int(_[1]) < file_size else file_size,
+                )
+                for _ in _RANGE_PATTERN.findall(range_)
+                if _ != ("", "")
+            ]
+        except ValueError:  # More digits than Python is willing to convert.
+            raise MalformedRangeHeader()
 
         if len(ranges) == 0:
             raise MalformedRangeHeader("Range header: range must be requested")
-- 
2.43.0


From 84a777219542be2e78e06a38a1de5e269d5d37cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:40 +0000
Subject: [PATCH 17/49] fix: an entity tag that does not match is not overruled
 by If-Modified-Since

---
 starlette/staticfiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index 637da64..5d2a096 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -204,8 +204,8 @@ class StaticFiles:
         try:
             if_none_match = request_headers["if-none-match"]
             etag = response_headers["etag"]
-            if etag in [tag.strip(" W/") for tag in if_none_match.split(",")]:
-                return True
+            # The entity tag is decisive: "If-Modified-Since" is ignored if there is one.
+            return etag in [tag.strip(" W/") for tag in if_none_match.split(",")]
         except KeyError:
             pass
 
-- 
2.43.0


From 2d70a68d4762571fab2c885bf034b40921df2d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:40 +0000
Subject: [PATCH 18/49] fix: a null character in the path of a static file is
 not found instead of a server error

---
 starlette/staticfiles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index 5d2a096..4ce652e 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -123,6 +123,9 @@ class StaticFiles:
                 raise HTTPException(status_code=404)
 
             raise exc
+        except ValueError:
+            # There is a null character in the path, so it can't be a valid static file.
+            raise HTTPException(status_code=404)
 
         if stat_result and stat.S_ISREG(stat_result.st_mode):
             # We have a static file to serve.
-- 
2.43.0


From 717959c5e5a9113e4899bbace44d9b83656b0d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:16 +0000
Subject: [PATCH 19/49] fix: an empty text message reaches on_receive of a
 websocket endpoint without an encoding

---
 starlette/endpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index 1076902..ff130b5 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -109,7 +109,7 @@ class WebSocketEndpoint:
                 raise RuntimeError("Malformed JSON data received.")
 
         assert self.encoding is None, f"Unsupported 'encoding' attribute {self.encoding}"
-        return message["text"] if message.get("text") else message["bytes"]
+        return message["text"] if message.get("text") is not None else message["bytes"]
 
     async def on_connect(self, websocket: WebSocket) -> None:
         """Override to handle an incoming websocket connection"""
-- 
2.43.0


From 17308e18a0fef0562a95dd77c09ec91cc1e6d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:16 +0000
Subject: [PATCH 20/49] fix: a websocket message of the wrong kind is
 recognised when the other key is present but None

---
 starlette/endpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index ff130b5..43aca27 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -85,13 +85,13 @@ class WebSocketEndpoint:
 
     async def decode(self, websocket: WebSocket, message: Message) -> typing.Any:
         if self.encoding == "text":
-            if "text" not in message:
+            if message.get("text") is None:
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Expected text websocket messages, but got bytes")
             return message["text"]
 
         elif self.encoding == "bytes":
-            if "bytes" not in message:
+            if message.get("bytes") is None:
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Expected bytes websocket messages, but got text")
             return message["bytes"]
-- 
2.43.0


From 13a156d3c5d4dc55d083bd3b595d3345b6aa5ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:16 +0000
Subject: [PATCH 21/49] fix: bytes that are no UTF-8 are malformed JSON for a
 websocket endpoint

---
 starlette/endpoints.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index 43aca27..dcaad3e 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -97,14 +97,14 @@ class WebSocketEndpoint:
             return message["bytes"]
 
         elif self.encoding == "json":
-            if message.get("text") is not None:
-                text = message["text"]
-            else:
-                text = message["bytes"].decode("utf-8")
-
             try:
+                if message.get("text") is not None:
+                    text = message["text"]
+                else:
+                    text = message["bytes"].decode("utf-8")
+
                 return json.loads(text)
-            except json.decoder.JSONDecodeError:
+            except (json.decoder.JSONDecodeError, UnicodeDecodeError):
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Malformed JSON data received.")
 
-- 
2.43.0


From 5240c4936670df5f05d29a02366c5a477fbe25f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 22/49] fix: do not run a WSGI application with the part of a
 body that came before a disconnect

---
 starlette/middleware/wsgi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index 6e0a3fa..a15fc56 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -9,6 +9,7 @@ import warnings
 import anyio
 from anyio.abc import ObjectReceiveStream, ObjectSendStream
 
+from starlette.requests import ClientDisconnect
 from starlette.types import Receive, Scope, Send
 
 warnings.warn(
@@ -98,6 +99,8 @@ class WSGIResponder:
         more_body = True
         while more_body:
             message = await receive()
+            if message["type"] == "http.disconnect":
+                raise ClientDisconnect()
             body += message.get("body", b"")
             more_body = message.get("more_body", False)
         environ = build_environ(self.scope, body)
-- 
2.43.0


From 4a8359eb1624467f1a4b56c8dd9ad9ed71e9e189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 23/49] fix: WSGI response headers are latin-1, not ASCII

---
 starlette/middleware/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index a15fc56..46e2b22 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -129,7 +129,7 @@ class WSGIResponder:
             status_code_string, _ = status.split(" ", 1)
             status_code = int(status_code_string)
             headers = [
-                (name.strip().encode("ascii").lower(), value.strip().encode("ascii"))
+                (name.strip().encode("latin-1").lower(), value.strip().encode("latin-1"))
                 for name, value in response_headers
             ]
             anyio.from_thread.run(
-- 
2.43.0


From 7aefb418e59f98e261ce7a8a214077c9b1d6283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 24/49] fix: test client accepts response headers that are not
 UTF-8

---
 starlette/testclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index d54025e..0970767 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -315,7 +315,7 @@ class _TestClientTransport(httpx.BaseTransport):
             if message["type"] == "http.response.start":
                 assert not response_started, 'Received multiple "http.response.start" messages.'
                 raw_kwargs["status_code"] = message["status"]
-                raw_kwargs["headers"] = [(key.decode(), value.decode()) for key, value in message.get("headers", [])]
+                raw_kwargs["headers"] = [(bytes(key), bytes(value)) for key, value in message.get("headers", [])]
                 response_started = True
             elif message["type"] == "http.response.body":
                 assert response_started, 'Received "http.response.body" without "http.response.start".'
-- 
2.43.0


From 5c6a9d6bbf56f2f95a986ae85e4aaf5ae9b0cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 25/49] fix: test client returns the part of the body sent
 before the application failed

---
 starlette/testclient.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 0970767..e93a65e 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -325,7 +325,6 @@ class _TestClientTransport(httpx.BaseTransport):
                 if request.method != "HEAD":
                     raw_kwargs["stream"].write(body)
                 if not more_body:
-                    raw_kwargs["stream"].seek(0)
                     response_complete.set()
             elif message["type"] == "http.response.debug":
                 template = message["info"]["template"]
@@ -348,7 +347,7 @@ class _TestClientTransport(httpx.BaseTransport):
                 "stream": io.BytesIO(),
             }
 
-        raw_kwargs["stream"] = httpx.ByteStream(raw_kwargs["stream"].read())
+        raw_kwargs["stream"] = httpx.ByteStream(raw_kwargs["stream"].getvalue())
 
         response = httpx.Response(**raw_kwargs, request=request)
         if template is not None:
-- 
2.43.0


From dff665c0e3e92b19b06f41ce6cbf3906c6ecb108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 26/49] fix: test client accepts denial responses without
 headers or body

---
 starlette/testclient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index e93a65e..0a288d0 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -136,12 +136,12 @@ class WebSocketTestSession:
             raise WebSocketDisconnect(code=message.get("code", 1000), reason=message.get("reason", ""))
         elif message["type"] == "websocket.http.response.start":
             status_code: int = message["status"]
-            headers: list[tuple[bytes, bytes]] = message["headers"]
+            headers: list[tuple[bytes, bytes]] = list(message.get("headers", []))
             body: list[bytes] = []
             while True:
                 message = self.receive()
                 assert message["type"] == "websocket.http.response.body"
-                body.append(message["body"])
+                body.append(message.get("body", b""))
                 if not message.get("more_body", False):
                     break
             raise WebSocketDenialResponse(status_code=status_code, headers=headers, content=b"".join(body))
-- 
2.43.0


From 99559bcf1102e2f75348adceede3653897fd4c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 27/49] fix: StaticFiles resolves a served symbolic link once
 per lookup

The path of a file and the directory were resolved one after the other, so that a
link re-pointed to a new release in between made an existing file a 404.
---
 starlette/staticfiles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index 4ce652e..085ac03 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -153,13 +153,13 @@ class StaticFiles:
 
     def lookup_path(self, path: str) -> tuple[str, os.stat_result | None]:
         for directory in self.all_directories:
-            joined_path = os.path.join(directory, path)
             if self.follow_symlink:
-                full_path = os.path.abspath(joined_path)
+                full_path = os.path.abspath(os.path.join(directory, path))
                 directory = os.path.abspath(directory)
             else:
-                full_path = os.path.realpath(joined_path)
+                # The directory may be a symbolic link that is pointed elsewhere meanwhile, so it is resolved only once.
                 directory = os.path.realpath(directory)
+                full_path = os.path.realpath(os.path.join(directory, path))
             if os.path.commonpath([full_path, directory]) != str(directory):
                 # Don't allow misbehaving clients to break out of the static files directory.
                 continue
-- 
2.43.0


From 1443c9773e7ebbe92892976d6fad9a7027225ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 28/49] fix: the test client does not decode the path of a
 request twice

httpx.URL.path is decoded already, so that "/%2541" reached the application as
the path "/A" instead of "/%41".
---
 starlette/testclient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 0a288d0..5543502 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -10,7 +10,7 @@ import typing
 import warnings
 from concurrent.futures import Future
 from types import GeneratorType
-from urllib.parse import unquote, urljoin
+from urllib.parse import urljoin
 
 import anyio
 import anyio.abc
@@ -243,7 +243,7 @@ class _TestClientTransport(httpx.BaseTransport):
                 subprotocols = [value.strip() for value in subprotocol.split(",")]
             scope = {
                 "type": "websocket",
-                "path": unquote(path),
+                "path": path,
                 "raw_path": raw_path.split(b"?", 1)[0],
                 "root_path": self.root_path,
                 "scheme": scheme,
@@ -262,7 +262,7 @@ class _TestClientTransport(httpx.BaseTransport):
             "type": "http",
             "http_version": "1.1",
             "method": request.method,
-            "path": unquote(path),
+            "path": path,
             "raw_path": raw_path.split(b"?", 1)[0],
             "root_path": self.root_path,
             "scheme": scheme,
-- 
2.43.0


From 93b0eeb05259b9d7a82f80549f9be57b040b891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 29/49] fix: websocket_connect of the test client does not
 change the headers it is given

The headers of the handshake were added to the dictionary of the caller, so that
a later request with the same dictionary carried them, and a later session the
subprotocols of the first.
---
 starlette/testclient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 5543502..dec3d89 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -641,7 +641,8 @@ class TestClient(httpx.Client):
         **kwargs: typing.Any,
     ) -> WebSocketTestSession:
         url = urljoin("ws://testserver", url)
-        headers = kwargs.get("headers", {})
+        # A copy: the headers of the caller may be used for other requests as well.
+        headers = httpx.Headers(kwargs.get("headers"))
         headers.setdefault("connection", "upgrade")
         headers.setdefault("sec-websocket-key", "testserver==")
         headers.setdefault("sec-websocket-version", "13")
-- 
2.43.0


From 268022c31c3f85187e009c8cc25ae08cd066f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 30/49] fix: the test client keeps a user agent given in
 another case

The default was added beside "User-Agent" and took its place; the dictionary of
the caller was changed.
---
 starlette/testclient.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index dec3d89..1ed3f6d 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -390,12 +390,11 @@ class TestClient(httpx.Client):
             app_state=self.app_state,
             client=client,
         )
-        if headers is None:
-            headers = {}
-        headers.setdefault("user-agent", "testclient")
+        client_headers = httpx.Headers(headers)
+        client_headers.setdefault("user-agent", "testclient")
         super().__init__(
             base_url=base_url,
-            headers=headers,
+            headers=client_headers,
             transport=transport,
             follow_redirects=follow_redirects,
             cookies=cookies,
-- 
2.43.0


From 391f520268ea4eef1fc41209e8944d3ab1d39122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 31/49] fix: a Range header turned a missing static file's
 error page into a 206

---
 starlette/responses.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 9dff28b..1d2e553 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -360,7 +360,11 @@ class FileResponse(Response):
         http_range = headers.get("range")
         http_if_range = headers.get("if-range")
 
-        if http_range is None or (http_if_range is not None and not self._should_use_range(http_if_range)):
+        if (
+            http_range is None
+            or self.status_code != 200  # Only what would be a plain success is cut, not an error page.
+            or (http_if_range is not None and not self._should_use_range(http_if_range))
+        ):
             await self._handle_simple(send, send_header_only)
         else:
             try:
-- 
2.43.0


From 3cff044651d258e4706012436543044f76d267d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 32/49] fix: a file response used again kept the range and the
 length of an earlier request

---
 starlette/responses.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/starlette/responses.py b/starlette/responses.py
index 1d2e553..9fe1ccf 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import hashlib
 import http.cookies
 import json
@@ -342,6 +343,13 @@ class FileResponse(Response):
         self.headers.setdefault("etag", etag)
 
     async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:
+        # The headers depend on the request and on the file as it is now: the next request does not get to see them.
+        response = copy.copy(self)
+        response._headers = MutableHeaders(raw=list(self.raw_headers))
+        response.raw_headers = response._headers.raw
+        await response._respond(scope, receive, send)
+
+    async def _respond(self, scope: Scope, receive: Receive, send: Send) -> None:
         send_header_only: bool = scope["method"].upper() == "HEAD"
         if self.stat_result is None:
             try:
-- 
2.43.0


From ba9a5585724dd91276f8259a8c8f280408fd0060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 33/49] fix: an exception raised again by its handler was
 handed to the handler twice

---
 starlette/_exception_handler.py    | 17 +++++++++++++----
 starlette/middleware/exceptions.py |  1 +
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/starlette/_exception_handler.py b/starlette/_exception_handler.py
index 72bc89d..73b25ae 100644
--- a/starlette/_exception_handler.py
+++ b/starlette/_exception_handler.py
@@ -27,6 +27,7 @@ def wrap_app_handling_exceptions(app: ASGIApp, conn: Request | WebSocket) -> ASG
         exception_handlers, status_handlers = conn.scope["starlette.exception_handlers"]
     except KeyError:
         exception_handlers, status_handlers = {}, {}
+    raised_again: list[Exception] = conn.scope.get("starlette.exceptions_raised_again", [])
 
     async def wrapped_app(scope: Scope, receive: Receive, send: Send) -> None:
         response_started = False
@@ -41,6 +42,9 @@ def wrap_app_handling_exceptions(app: ASGIApp, conn: Request | WebSocket) -> ASG
         try:
             await app(scope, receive, sender)
         except Exception as exc:
+            if any(exc is other for other in raised_again):
+                raise exc  # Its handler has been called already.
+
             handler = None
 
             if isinstance(exc, HTTPException):
@@ -55,10 +59,15 @@ def wrap_app_handling_exceptions(app: ASGIApp, conn: Request | WebSocket) -> ASG
             if response_started:
                 raise RuntimeError("Caught handled exception, but response already started.") from exc
 
-            if is_async_callable(handler):
-                response = await handler(conn, exc)
-            else:
-                response = await run_in_threadpool(handler, conn, exc)  # type: ignore
+            try:
+                if is_async_callable(handler):
+                    response = await handler(conn, exc)
+                else:
+                    response = await run_in_threadpool(handler, conn, exc)  # type: ignore
+            except Exception as raised:
+                if raised is exc:
+                    raised_again.append(exc)
+                raise
             if response is not None:
                 await response(scope, receive, sender)
 
diff --git a/starlette/middleware/exceptions.py b/starlette/middleware/exceptions.py
index 981d2fc..99c1db6 100644
--- a/starlette/middleware/exceptions.py
+++ b/starlette/middleware/exceptions.py
@@ -52,6 +52,7 @@ class ExceptionMiddleware:
             self._exception_handlers,
             self._status_handlers,
         )
+        scope["starlette.exceptions_raised_again"] = []
 
         conn: Request | WebSocket
         if scope["type"] == "http":
-- 
2.43.0


From a77d5ca827581c62987290d1899201ea0329d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:56 +0000
Subject: [PATCH 34/49] fix: close the iterable of a WSGI application

---
 starlette/middleware/wsgi.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index 46e2b22..54fed51 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -146,10 +146,16 @@ class WSGIResponder:
         environ: dict[str, typing.Any],
         start_response: typing.Callable[..., typing.Any],
     ) -> None:
-        for chunk in self.app(environ, start_response):
-            anyio.from_thread.run(
-                self.stream_send.send,
-                {"type": "http.response.body", "body": chunk, "more_body": True},
-            )
-
-        anyio.from_thread.run(self.stream_send.send, {"type": "http.response.body", "body": b""})
+        iterable = self.app(environ, start_response)
+        try:
+            for chunk in iterable:
+                anyio.from_thread.run(
+                    self.stream_send.send,
+                    {"type": "http.response.body", "body": chunk, "more_body": True},
+                )
+
+            anyio.from_thread.run(self.stream_send.send, {"type": "http.response.body", "body": b""})
+        finally:
+            # Required by PEP 3333, whether or not the request was completed.
+            if hasattr(iterable, "close"):
+                iterable.close()
-- 
2.43.0


From e85f912125e79d9e1835997daf35c780aaa3884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:21 +0000
Subject: [PATCH 35/49] fix: push promises and debug information get through
 the gzip middleware

---
 starlette/middleware/gzip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index 3ae1d37..bd38f32 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -103,6 +103,9 @@ class IdentityResponder:
             message["body"] = self.apply_compression(body, more_body=more_body)
 
             await self.send(message)
+        else:
+            # A push promise, or debug information of the test client.
+            await self.send(message)
 
     def apply_compression(self, body: bytes, *, more_body: bool) -> bytes:
         """Apply compression on the response body.
-- 
2.43.0


From e93205cde12371bdc6a4ad20a58abb70cd3e94b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:22 +0000
Subject: [PATCH 36/49] fix: push promises get through dispatch middleware

---
 starlette/middleware/base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index f217a76..ccc5e45 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -148,8 +148,12 @@ class BaseHTTPMiddleware:
 
             try:
                 message = await recv_stream.receive()
-                info = message.get("info", None)
-                if message["type"] == "http.response.debug" and info is not None:
+                info = None
+                while message["type"] in ("http.response.debug", "http.response.push"):
+                    if message["type"] == "http.response.debug":
+                        info = message["info"]
+                    else:
+                        await send(message)
                     message = await recv_stream.receive()
             except anyio.EndOfStream:
                 if app_exc is not None:
@@ -161,6 +165,9 @@ class BaseHTTPMiddleware:
 
             async def body_stream() -> typing.AsyncGenerator[bytes, None]:
                 async for message in recv_stream:
+                    if message["type"] == "http.response.push":
+                        await send(message)
+                        continue
                     assert message["type"] == "http.response.body"
                     body = message.get("body", b"")
                     if body:
-- 
2.43.0


From 1198ef4f4c249b208017ea8e97366b79611b253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:22 +0000
Subject: [PATCH 37/49] fix: class-based endpoints and dispatch functions can
 make push promises

---
 starlette/endpoints.py       | 2 +-
 starlette/middleware/base.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index dcaad3e..0cb1302 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -29,7 +29,7 @@ class HTTPEndpoint:
         return self.dispatch().__await__()
 
     async def dispatch(self) -> None:
-        request = Request(self.scope, receive=self.receive)
+        request = Request(self.scope, receive=self.receive, send=self.send)
         handler_name = "get" if request.method == "HEAD" and not hasattr(self, "head") else request.method.lower()
 
         handler: typing.Callable[[Request], typing.Any] = getattr(self, handler_name, self.method_not_allowed)
diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index ccc5e45..b2f65c8 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -5,7 +5,7 @@ import typing
 import anyio
 
 from starlette._utils import collapse_excgroups
-from starlette.requests import ClientDisconnect, Request
+from starlette.requests import ClientDisconnect, Request, empty_send
 from starlette.responses import AsyncContentStream, Response
 from starlette.types import ASGIApp, Message, Receive, Scope, Send
 
@@ -21,8 +21,8 @@ class _CachedRequest(Request):
     empty body so that downstream things don't hang forever.
     """
 
-    def __init__(self, scope: Scope, receive: Receive):
-        super().__init__(scope, receive)
+    def __init__(self, scope: Scope, receive: Receive, send: Send = empty_send):
+        super().__init__(scope, receive, send)
         self._wrapped_rcv_disconnected = False
         self._wrapped_rcv_consumed = False
         self._wrapped_rc_stream = self.stream()
@@ -99,7 +99,7 @@ class BaseHTTPMiddleware:
             await self.app(scope, receive, send)
             return
 
-        request = _CachedRequest(scope, receive)
+        request = _CachedRequest(scope, receive, send)
         wrapped_receive = request.wrapped_receive
         response_sent = anyio.Event()
         receive_scopes: set[anyio.CancelScope] = set()
-- 
2.43.0


From 6a397c9d08db170f2b5fcd0eb1861f3f15311c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:43 +0000
Subject: [PATCH 38/49] fix: the debug page shows errors whose text cannot be
 encoded

---
 starlette/middleware/errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/middleware/errors.py b/starlette/middleware/errors.py
index 76ad776..9e8efd6 100644
--- a/starlette/middleware/errors.py
+++ b/starlette/middleware/errors.py
@@ -252,9 +252,9 @@ class ServerErrorMiddleware:
 
         if "text/html" in accept:
             content = self.generate_html(exc)
-            return HTMLResponse(content, status_code=500)
+            return HTMLResponse(content.encode("utf-8", "backslashreplace"), status_code=500)
         content = self.generate_plain_text(exc)
-        return PlainTextResponse(content, status_code=500)
+        return PlainTextResponse(content.encode("utf-8", "backslashreplace"), status_code=500)
 
     def error_response(self, request: Request, exc: Exception) -> Response:
         return PlainTextResponse("Internal Server Error", status_code=500)
-- 
2.43.0


From a7d2f332984e25db141c3bf9063db918c087a045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:43 +0000
Subject: [PATCH 39/49] fix: the content length of a memoryview is in bytes

---
 starlette/responses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 9fe1ccf..d18cf92 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -70,7 +70,7 @@ class Response:
             and populate_content_length
             and not (self.status_code < 200 or self.status_code in (204, 304))
         ):
-            content_length = str(len(body))
+            content_length = str(body.nbytes if isinstance(body, memoryview) else len(body))
             raw_headers.append((b"content-length", content_length.encode("latin-1")))
 
         content_type = self.media_type
-- 
2.43.0


From 6d787c58d23931fa737a973d6c28966dda0a028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 40/49] fix: the test client takes an IPv6 address

---
 starlette/testclient.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 1ed3f6d..113c22d 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -215,20 +215,14 @@ class _TestClientTransport(httpx.BaseTransport):
 
         default_port = {"http": 80, "ws": 80, "https": 443, "wss": 443}[scheme]
 
-        if ":" in netloc:
-            host, port_string = netloc.split(":", 1)
-            port = int(port_string)
-        else:
-            host = netloc
-            port = default_port
+        host = request.url.raw_host.decode(encoding="ascii")
+        port = request.url.port or default_port
 
         # Include the 'host' header.
         if "host" in request.headers:
             headers: list[tuple[bytes, bytes]] = []
-        elif port == default_port:  # pragma: no cover
-            headers = [(b"host", host.encode())]
         else:  # pragma: no cover
-            headers = [(b"host", (f"{host}:{port}").encode())]
+            headers = [(b"host", netloc.encode())]
 
         # Include other request headers.
         headers += [(key.lower().encode(), value.encode()) for key, value in request.headers.multi_items()]
-- 
2.43.0


From 38898d81efb164745a4847221711e60483198686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 41/49] fix: the test client passes on the bytes of a request
 header

---
 starlette/testclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 113c22d..d0f36c5 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -225,7 +225,7 @@ class _TestClientTransport(httpx.BaseTransport):
             headers = [(b"host", netloc.encode())]
 
         # Include other request headers.
-        headers += [(key.lower().encode(), value.encode()) for key, value in request.headers.multi_items()]
+        headers += [(key.lower(), value) for key, value in request.headers.raw]
 
         scope: dict[str, typing.Any]
 
-- 
2.43.0


From 77e0888f8d181b46127e63122e75fc65c0976249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 42/49] fix: an exception handler does not break the protocol
 of a websocket session

---
 starlette/_exception_handler.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/starlette/_exception_handler.py b/starlette/_exception_handler.py
index 73b25ae..e5c3821 100644
--- a/starlette/_exception_handler.py
+++ b/starlette/_exception_handler.py
@@ -7,11 +7,17 @@ from starlette.concurrency import run_in_threadpool
 from starlette.exceptions import HTTPException
 from starlette.requests import Request
 from starlette.types import ASGIApp, ExceptionHandler, Message, Receive, Scope, Send
-from starlette.websockets import WebSocket
+from starlette.websockets import WebSocket, WebSocketState
 
 ExceptionHandlers = dict[typing.Any, ExceptionHandler]
 StatusHandlers = dict[int, ExceptionHandler]
 
+_WEBSOCKET_STATES = {
+    "websocket.accept": WebSocketState.CONNECTED,
+    "websocket.close": WebSocketState.DISCONNECTED,
+    "websocket.http.response.start": WebSocketState.RESPONSE,
+}
+
 
 def _lookup_exception_handler(exc_handlers: ExceptionHandlers, exc: Exception) -> ExceptionHandler | None:
     for cls in type(exc).__mro__:
@@ -37,6 +43,9 @@ def wrap_app_handling_exceptions(app: ASGIApp, conn: Request | WebSocket) -> ASG
 
             if message["type"] == "http.response.start":
                 response_started = True
+            elif isinstance(conn, WebSocket):
+                # `conn` need not be the object that the application uses.
+                conn.application_state = _WEBSOCKET_STATES.get(message["type"], conn.application_state)
             await send(message)
 
         try:
@@ -69,6 +78,6 @@ def wrap_app_handling_exceptions(app: ASGIApp, conn: Request | WebSocket) -> ASG
                     raised_again.append(exc)
                 raise
             if response is not None:
-                await response(scope, receive, sender)
+                await response(scope, receive, conn.send if isinstance(conn, WebSocket) else sender)
 
     return wrapped_app
-- 
2.43.0


From 79dc8ecd4a9cbe6590eb7ec9e890c8e4cf1431cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 43/49] fix: an application that sends from a thread or a
 shielded scope ends with its dispatch middleware

---
 starlette/middleware/base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index b2f65c8..1420c02 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -185,14 +185,15 @@ class BaseHTTPMiddleware:
 
         streams: anyio.create_memory_object_stream[Message] = anyio.create_memory_object_stream()
         send_stream, recv_stream = streams
-        with recv_stream, send_stream, collapse_excgroups():
+        with send_stream, collapse_excgroups():
             async with anyio.create_task_group() as task_group:
-                response = await self.dispatch_func(request, call_next)
-                await response(scope, wrapped_receive, send)
-                response_sent.set()
-                for receive_scope in receive_scopes:
-                    receive_scope.cancel()
-                recv_stream.close()
+                # Closed before tasks are awaited: the application may be sending from a thread or a shielded scope.
+                with recv_stream:
+                    response = await self.dispatch_func(request, call_next)
+                    await response(scope, wrapped_receive, send)
+                    response_sent.set()
+                    for receive_scope in receive_scopes:
+                        receive_scope.cancel()
 
         if app_exc is not None and not exception_already_raised:
             raise app_exc
-- 
2.43.0


From c0a1e2417dfd1c9a8bfd8df3b753f436727bc5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:37 +0000
Subject: [PATCH 44/49] fix: dispatch middleware raises an exception group of
 the application as it is

---
 starlette/middleware/base.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 1420c02..9c18396 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -104,6 +104,7 @@ class BaseHTTPMiddleware:
         response_sent = anyio.Event()
         receive_scopes: set[anyio.CancelScope] = set()
         app_exc: Exception | None = None
+        dispatch_exc: Exception | None = None
         exception_already_raised = False
 
         async def call_next(request: Request) -> Response:
@@ -189,11 +190,19 @@ class BaseHTTPMiddleware:
             async with anyio.create_task_group() as task_group:
                 # Closed before tasks are awaited: the application may be sending from a thread or a shielded scope.
                 with recv_stream:
-                    response = await self.dispatch_func(request, call_next)
-                    await response(scope, wrapped_receive, send)
-                    response_sent.set()
-                    for receive_scope in receive_scopes:
-                        receive_scope.cancel()
+                    try:
+                        response = await self.dispatch_func(request, call_next)
+                        await response(scope, wrapped_receive, send)
+                        response_sent.set()
+                        for receive_scope in receive_scopes:
+                            receive_scope.cancel()
+                    except Exception as exc:
+                        # Not to be wrapped in a group, nor to be taken for one if it is one itself.
+                        dispatch_exc = exc
+                        task_group.cancel_scope.cancel()
+
+        if dispatch_exc is not None:
+            raise dispatch_exc
 
         if app_exc is not None and not exception_already_raised:
             raise app_exc
-- 
2.43.0


From 0bd28ba62cc0db1b6ee5382778f9a876d93a8a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:45 +0000
Subject: [PATCH 45/49] fix: a streaming response raises an exception group of
 its content as it is

---
 starlette/responses.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index d18cf92..2f28e99 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -265,15 +265,23 @@ class StreamingResponse(Response):
 
             await self.stream_response(send_or_disconnect)
         else:
+            error: Exception | None = None
             with collapse_excgroups():
                 async with anyio.create_task_group() as task_group:
 
                     async def wrap(func: typing.Callable[[], typing.Awaitable[None]]) -> None:
-                        await func()
+                        nonlocal error
+                        try:
+                            await func()
+                        except Exception as exc:
+                            # Not to be wrapped in a group, nor to be taken for one if it is one itself.
+                            error = error or exc
                         task_group.cancel_scope.cancel()
 
                     task_group.start_soon(wrap, partial(self.stream_response, send))
                     await wrap(partial(self.listen_for_disconnect, receive))
+            if error is not None:
+                raise error
 
         if self.background is not None:
             await self.background()
-- 
2.43.0


From 404ba4bd380cb457250d43985c0aa6b3d96260f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:46 +0000
Subject: [PATCH 46/49] fix: an exception handler does not close a websocket
 session that has failed

---
 starlette/_exception_handler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/starlette/_exception_handler.py b/starlette/_exception_handler.py
index e5c3821..c43c2e3 100644
--- a/starlette/_exception_handler.py
+++ b/starlette/_exception_handler.py
@@ -46,7 +46,12 @@ def wrap_app_handling_exceptions(app: ASGIApp, conn: Request | WebSocket) -> ASG
             elif isinstance(conn, WebSocket):
                 # `conn` need not be the object that the application uses.
                 conn.application_state = _WEBSOCKET_STATES.get(message["type"], conn.application_state)
-            await send(message)
+            try:
+                await send(message)
+            except OSError:
+                if isinstance(conn, WebSocket) and message["type"] == "websocket.send":
+                    conn.application_state = WebSocketState.DISCONNECTED
+                raise
 
         try:
             await app(scope, receive, sender)
-- 
2.43.0


From 9d3d28d3e1d6ce743cd356494db5282751172df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 47/49] fix: the background tasks of a file response run when
 its range is rejected

---
 starlette/responses.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 2f28e99..72f0fb9 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -386,9 +386,13 @@ class FileResponse(Response):
             try:
                 ranges = self._parse_range_header(http_range, stat_result.st_size)
             except MalformedRangeHeader as exc:
-                return await PlainTextResponse(exc.content, status_code=400)(scope, receive, send)
+                return await PlainTextResponse(exc.content, status_code=400, background=self.background)(
+                    scope, receive, send
+                )
             except RangeNotSatisfiable as exc:
-                response = PlainTextResponse(status_code=416, headers={"Content-Range": f"*/{exc.max_size}"})
+                response = PlainTextResponse(
+                    status_code=416, headers={"Content-Range": f"*/{exc.max_size}"}, background=self.background
+                )
                 return await response(scope, receive, send)
 
             if len(ranges) == 1:
-- 
2.43.0


From 4f2c4974a7c017f9c963ea9cec8fc89a5ba0ba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 48/49] fix: a template response does not change the context of
 the application

---
 starlette/templating.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starlette/templating.py b/starlette/templating.py
index f764858..d4b460d 100644
--- a/starlette/templating.py
+++ b/starlette/templating.py
@@ -201,6 +201,7 @@ class Jinja2Templates:
             media_type = kwargs.get("media_type")
             background = kwargs.get("background")
 
+        context = {**context}  # the application may use its own object for other requests
         context.setdefault("request", request)
         for context_processor in self.context_processors:
             context.update(context_processor(request))
-- 
2.43.0


From 52cf362468c8c001a04eadacd45a7a4b98f0d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:22 +0000
Subject: [PATCH 49/49] fix: gzip middleware accepts any iterable of response
 headers

---
 starlette/middleware/gzip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index bd38f32..17780b3 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -51,7 +51,7 @@ class IdentityResponder:
         if message_type == "http.response.start":
             # Don't send the initial message until we've determined how to
             # modify the outgoing headers correctly.
-            message.setdefault("headers", [])
+            message["headers"] = list(message.get("headers", []))  # any iterable will do
             self.initial_message = message
             headers = Headers(raw=self.initial_message["headers"])
             self.content_encoding_set = "content-encoding" in headers
-- 
2.43.0

