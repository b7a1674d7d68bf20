From 98d80050640eb3da8e62b3d89faf377c48943d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 01/60] fix: report streams that end mid-envelope or without an
 end message

A request or response stream cut inside an envelope, and a Connect response
stream without its end message, were treated as having ended cleanly, so
truncated data was taken for complete data. Anything following the end
message was also delivered when it arrived in a later chunk.
---
 src/connectrpc/_envelope.py         | 14 +++++++++++++-
 src/connectrpc/_protocol_connect.py | 13 +++++++++++++
 src/connectrpc/_protocol_grpc.py    |  3 +++
 src/connectrpc/_server_async.py     |  1 +
 src/connectrpc/_server_sync.py      |  1 +
 5 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index 5ee8a35..34ea99a 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -38,9 +38,12 @@ class EnvelopeReader(Generic[_RES]):
         self._read_max_bytes = read_max_bytes
 
         self._next_message_length = None
+        self._end_received = False
 
     def feed(self, data: bytes | memoryview | bytearray) -> Iterator[_RES]:
-        self._buffer.extend(data)
+        # Nothing can follow the end message of a stream.
+        if not self._end_received:
+            self._buffer.extend(data)
         return self._read_messages()
 
     def _read_messages(self) -> Iterator[_RES]:
@@ -73,6 +76,8 @@ class EnvelopeReader(Generic[_RES]):
                     )
 
                 if self.handle_end_message(prefix_byte, message_data):
+                    self._end_received = True
+                    self._buffer.clear()
                     return
 
                 res = self._codec.decode(message_data, self._message_class)
@@ -83,6 +88,13 @@ class EnvelopeReader(Generic[_RES]):
 
             self._next_message_length = int.from_bytes(self._buffer[1:5], "big")
 
+    def check_complete(self, code: Code) -> None:
+        """Raises an error with the given code if the stream ended in the middle of an envelope."""
+        if self._buffer:
+            raise ConnectError(
+                code, "protocol error: incomplete envelope: unexpected end of stream"
+            )
+
     def handle_end_message(
         self, prefix_byte: int, message_data: bytes | bytearray
     ) -> bool:
diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 4997daf..fdfee5a 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -330,3 +330,16 @@ class ConnectEnvelopeReader(EnvelopeReader[RES]):
             # and streaming.
             raise ConnectWireError.from_dict(error, 500, Code.UNKNOWN).to_exception()
         return True
+
+    def handle_response_complete(
+        self,
+        response: pyqwest.Response | pyqwest.SyncResponse,
+        e: ConnectError | None = None,
+    ) -> None:
+        if e:
+            return
+        self.check_complete(Code.INTERNAL)
+        if not self._end_received:
+            raise ConnectError(
+                Code.INTERNAL, "protocol error: missing end of stream message"
+            )
diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index a781f17..7267ea3 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -369,6 +369,9 @@ class GRPCEnvelopeReader(EnvelopeReader[RES]):
             )
             raise ConnectError(connect_code, urllib.parse.unquote(message))
 
+        if not e:
+            self.check_complete(Code.INTERNAL)
+
 
 class GRPCWebEnvelopeReader(GRPCEnvelopeReader):
     def __init__(
diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index c7ed9e4..7cd162b 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -575,6 +575,7 @@ async def _request_stream(
                 await sleep(0)
     except CancelledError as e:
         raise ConnectError(Code.CANCELED, "Request was cancelled") from e
+    reader.check_complete(Code.INVALID_ARGUMENT)
 
 
 async def _read_body(receive: ASGIReceiveCallable) -> AsyncIterator[bytes]:
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 4a19b83..e5980d9 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -575,6 +575,7 @@ def _request_stream(
     reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
     for chunk in _read_body(environ):
         yield from reader.feed(chunk)
+    reader.check_complete(Code.INVALID_ARGUMENT)
 
 
 def _response_stream(
-- 
2.43.0


From f7028192705e9be669ad7824fde1f9e147ae3933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 02/60] fix: keep repeated values when copying Headers

---
 src/connectrpc/_headers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/connectrpc/_headers.py b/src/connectrpc/_headers.py
index 092d8d7..26d4fbf 100644
--- a/src/connectrpc/_headers.py
+++ b/src/connectrpc/_headers.py
@@ -28,6 +28,9 @@ class Headers(MutableMapping[str, str]):
         self, items: Mapping[str, str] | Sequence[tuple[str, str]] = ()
     ) -> None:
         self._extra = None
+        if isinstance(items, Headers):
+            # A Mapping view of headers only has the first value for a key.
+            items = tuple(items.allitems())
         if isinstance(items, Mapping):
             # ty does not preserve type parameters when narrowing a union via
             # `isinstance(x, Mapping)`, so we re-assert `Mapping[str, str]`.
-- 
2.43.0


From e65cbfeb9081df2cfb411e40f0ab1f8ef6b6cebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 03/60] fix: refuse malformed timeout headers with
 invalid_argument

---
 src/connectrpc/_protocol_connect.py |  8 ++++----
 src/connectrpc/_protocol_grpc.py    | 16 ++++++++++------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index fdfee5a..f83c3b1 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -106,12 +106,12 @@ class ConnectServerProtocol:
                     Code.INVALID_ARGUMENT,
                     f"Invalid timeout header: '{timeout_header} has >10 digits",
                 )
-            try:
-                timeout_ms = int(timeout_header)
-            except ValueError as e:
+            # int() accepts more than digits, for example signs, blanks and underscores.
+            if not (timeout_header.isascii() and timeout_header.isdigit()):
                 raise ConnectError(
                     Code.INVALID_ARGUMENT, f"Invalid timeout header: '{timeout_header}'"
-                ) from e
+                )
+            timeout_ms = int(timeout_header)
         else:
             timeout_ms = None
 
diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index 7267ea3..d2f3423 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -61,7 +61,10 @@ class GRPCServerProtocol:
             raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
 
         timeout_header = headers.get(GRPC_HEADER_TIMEOUT)
-        timeout_ms = _parse_timeout(timeout_header) if timeout_header else None
+        try:
+            timeout_ms = _parse_timeout(timeout_header) if timeout_header else None
+        except ValueError as e:
+            raise ConnectError(Code.INVALID_ARGUMENT, str(e)) from e
 
         server_address = host_to_server_address(headers.get("host"), http_scheme)
 
@@ -124,14 +127,15 @@ class GRPCWebServerProtocol(GRPCServerProtocol):
 def _parse_timeout(timeout: str) -> int:
     # We normalize to int milliseconds matching connect's timeout header.
     value_to_ms = _lookup_timeout_unit(timeout[-1])
-    try:
-        value = int(timeout[:-1])
-    except ValueError as e:
+    digits = timeout[:-1]
+    # int() accepts more than digits, for example signs, blanks and underscores.
+    if not (digits.isascii() and digits.isdigit()):
         msg = f"protocol error: invalid timeout '{timeout}'"
-        raise ValueError(msg) from e
+        raise ValueError(msg)
+    value = int(digits)
 
     # timeout must be ASCII string of at most 8 digits
-    if value > 99999999:
+    if len(digits) > 8:
         msg = f"protocol error: timeout '{timeout}' is too long"
         raise ValueError(msg)
 
-- 
2.43.0


From 956c2aec78f63a305e21a985f342c8a009983437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 04/60] fix: do not ignore an explicit zero timeout

---
 src/connectrpc/_client_async.py | 8 ++++----
 src/connectrpc/_client_sync.py  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 9de08d9..99027f6 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -204,7 +204,7 @@ class ConnectClient:
             url=self._address,
             http_method="GET" if use_get else "POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=timeout_ms if timeout_ms is not None else self._timeout_ms,
             codec=self._codec,
             stream=False,
             accept_compression=self._accept_compression_header,
@@ -225,7 +225,7 @@ class ConnectClient:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=timeout_ms if timeout_ms is not None else self._timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
@@ -246,7 +246,7 @@ class ConnectClient:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=timeout_ms if timeout_ms is not None else self._timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
@@ -267,7 +267,7 @@ class ConnectClient:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=timeout_ms if timeout_ms is not None else self._timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index abdfe88..971f754 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -203,7 +203,7 @@ class ConnectClientSync:
             url=self._address,
             http_method="GET" if use_get else "POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=timeout_ms if timeout_ms is not None else self._timeout_ms,
             codec=self._codec,
             stream=False,
             accept_compression=self._accept_compression_header,
@@ -224,7 +224,7 @@ class ConnectClientSync:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=timeout_ms if timeout_ms is not None else self._timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
@@ -245,7 +245,7 @@ class ConnectClientSync:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=timeout_ms if timeout_ms is not None else self._timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
@@ -266,7 +266,7 @@ class ConnectClientSync:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=timeout_ms if timeout_ms is not None else self._timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
-- 
2.43.0


From 02f2974932c2a82169826d74630441b1ab26faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 05/60] fix: keep timeout headers within the range their
 protocol allows

---
 src/connectrpc/_protocol_connect.py | 7 ++++++-
 src/connectrpc/_protocol_grpc.py    | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index f83c3b1..df27f05 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -71,6 +71,11 @@ def codec_name_from_content_type(content_type: str, *, stream: bool) -> str:
     return content_type
 
 
+def _serialize_timeout(timeout_ms: int) -> str:
+    # The Connect protocol limits timeouts to a non-negative number of 10 digits.
+    return str(min(max(timeout_ms, 0), 9_999_999_999))
+
+
 class ConnectServerProtocol:
     def create_request_context(
         self,
@@ -223,7 +228,7 @@ class ConnectClientProtocol:
             f"{CONNECT_STREAMING_CONTENT_TYPE_PREFIX if stream else CONNECT_UNARY_CONTENT_TYPE_PREFIX}{codec.name()}"
         )
         if timeout_ms is not None:
-            headers["connect-timeout-ms"] = str(timeout_ms)
+            headers["connect-timeout-ms"] = _serialize_timeout(timeout_ms)
 
         server_address = url_to_server_address(url)
 
diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index d2f3423..af81efb 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -425,7 +425,7 @@ def _serialize_timeout(timeout_ms: int) -> str:
     else:
         size, unit = 60 * 60 * 1000, "H"
 
-    return f"{timeout_ms // size}{unit}"
+    return f"{min(timeout_ms // size, 99_999_999)}{unit}"
 
 
 _connect_status_to_grpc = {
-- 
2.43.0


From aa4b3c88f39ba4cf2972c70ca8d8f593f55b1d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 06/60] fix: report an already expired deadline as
 deadline_exceeded in the sync client

---
 src/connectrpc/_client_sync.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 971f754..f49c1d2 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -288,6 +288,10 @@ class ConnectClientSync:
             timeout_s = None
 
         try:
+            # The HTTP client does not accept negative timeouts.
+            if timeout_s is not None and timeout_s <= 0:
+                raise TimeoutError
+
             request_data = self._codec.encode(request)
             if self._send_compression:
                 request_data = self._send_compression.compress(request_data)
@@ -363,6 +367,10 @@ class ConnectClientSync:
         reader: EnvelopeReader | None = None
         resp: SyncResponse | None = None
         try:
+            # The HTTP client does not accept negative timeouts.
+            if timeout_s is not None and timeout_s <= 0:
+                raise TimeoutError
+
             request_data = _streaming_request_content(
                 request, self._codec, self._send_compression
             )
-- 
2.43.0


From 25f7bfe5b26788b5ea153a4a334261290e694d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 07/60] fix: do not let a call's deadline cancel the consumer
 of its response stream

---
 src/connectrpc/_client_async.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 99027f6..567cda3 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -374,7 +374,7 @@ class ConnectClient:
             )
 
             async with (
-                asyncio_timeout(timeout_s),
+                asyncio_timeout(timeout_s) as timeout,
                 self._http_client.stream(
                     "POST", url, headers=request_headers, content=request_data
                 ) as resp,
@@ -393,9 +393,14 @@ class ConnectClient:
                         compression,
                         self._read_max_bytes,
                     )
+                    deadline = timeout.when()
                     async for chunk in resp.content:
                         for message in reader.feed(bytes(chunk)):
+                            # The deadline must not cancel the caller's own code, which
+                            # runs in the same task while we are suspended.
+                            timeout.reschedule(None)
                             yield message
+                            timeout.reschedule(deadline)
                             # Check for cancellation each message. While this seems heavyweight,
                             # conformance tests require it.
                             await sleep(0)
-- 
2.43.0


From 36c61e59e31702d0be61783bc5087b7385e55a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 08/60] fix: do not end a cancelled stream with success

---
 src/connectrpc/_server_async.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 7cd162b..8fb7cad 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -455,7 +455,8 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 if aclose is not None:
                     await aclose()
         except CancelledError as e:
-            raise ConnectError(Code.CANCELED, "Request was cancelled") from e
+            error = ConnectError(Code.CANCELED, "Request was cancelled")
+            raise error from e
         except Exception as e:
             error = e
         finally:
-- 
2.43.0


From 38b03912877e2724dafc38db1513294427b1f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 09/60] fix: send lower-case header names to the ASGI server

---
 src/connectrpc/_server_async.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 8fb7cad..2a6e9eb 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -502,7 +502,9 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         status: int
         if isinstance(exc, HTTPException):
             status = exc.status.value
-            headers = [(k.encode("utf-8"), v.encode("utf-8")) for k, v in exc.headers]
+            headers = [
+                (k.lower().encode("utf-8"), v.encode("utf-8")) for k, v in exc.headers
+            ]
             body = b""
         else:
             wire_error = ConnectWireError.from_exception(exc)
-- 
2.43.0


From 16f6089556e9d2012e9a66f0fd34a81b9221b77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 10/60] fix: do not start an ASGI response twice when cancelled
 while sending headers

---
 src/connectrpc/_server_async.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 2a6e9eb..9a6bf87 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -382,6 +382,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         writer = protocol.create_envelope_writer(codec, resp_compression)
 
         error: Exception | None = None
+        sending_headers = False
         sent_headers = False
         try:
             if not req_compression:
@@ -433,6 +434,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                     # Don't send headers until the first message to allow logic a chance to add
                     # response headers.
                     if not sent_headers:
+                        sending_headers = True
                         await _send_stream_response_headers(
                             send, protocol, codec, resp_compression.name(), ctx
                         )
@@ -460,6 +462,10 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         except Exception as e:
             error = e
         finally:
+            if sending_headers and not sent_headers:
+                # Interrupted while sending headers. They may or may not have been sent so
+                # there is nothing that could be sent next.
+                raise error or ConnectError(Code.UNKNOWN, "Request was interrupted")
             end_message = writer.end(
                 ctx.response_trailers,
                 ConnectWireError.from_exception(error) if error else None,
-- 
2.43.0


From 6cd35307311dc71a3111b648b4e1b0bc1f0e4b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 11/60] fix: close the inner response stream before ending a
 metadata interceptor

---
 src/connectrpc/_interceptor_async.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_interceptor_async.py b/src/connectrpc/_interceptor_async.py
index 34c8f61..fa4b743 100644
--- a/src/connectrpc/_interceptor_async.py
+++ b/src/connectrpc/_interceptor_async.py
@@ -200,8 +200,16 @@ class MetadataInterceptorInvoker(Generic[T]):
         token = await self._delegate.on_start(ctx)
         error: Exception | None = None
         try:
-            async for response in call_next(request, ctx):
-                yield response
+            responses = call_next(request, ctx)
+            try:
+                async for response in responses:
+                    yield response
+            finally:
+                # Python defers cleanup of an abandoned async generator, so close it
+                # explicitly for it to end before we do.
+                aclose = getattr(responses, "aclose", None)
+                if aclose is not None:
+                    await aclose()
         except Exception as e:
             error = e
             raise
@@ -217,8 +225,16 @@ class MetadataInterceptorInvoker(Generic[T]):
         token = await self._delegate.on_start(ctx)
         error: Exception | None = None
         try:
-            async for response in call_next(request, ctx):
-                yield response
+            responses = call_next(request, ctx)
+            try:
+                async for response in responses:
+                    yield response
+            finally:
+                # Python defers cleanup of an abandoned async generator, so close it
+                # explicitly for it to end before we do.
+                aclose = getattr(responses, "aclose", None)
+                if aclose is not None:
+                    await aclose()
         except Exception as e:
             error = e
             raise
-- 
2.43.0


From 6e923bbed6d5496d1fe116a8ccb8a4d7256619fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 12/60] fix: do not crash a WSGI response when its request body
 cannot be drained

---
 src/connectrpc/_server_sync.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index e5980d9..6602d4f 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import base64
+import contextlib
 import functools
 import traceback
 from abc import ABC, abstractmethod
@@ -658,8 +659,10 @@ def _drain_request_body(environ: WSGIEnvironment) -> None:
         # In HTTP/1, the request body should be drained before returning. Generally it's
         # best for the application server to handle this, but gunicorn is a famous
         # server that doesn't do so, so we go ahead and do it ourselves.
-        for _ in _read_body(environ):
-            pass
+        # The connection may be broken already, which must not replace our response.
+        with contextlib.suppress(Exception):
+            for _ in _read_body(environ):
+                pass
 
 
 def _maybe_log_exception(environ: WSGIEnvironment, exc: Exception) -> None:
-- 
2.43.0


From 0b0e6fef08fa30639ef18d0f290c94b4356ca8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 13/60] fix: log unexpected exceptions raised after the first
 response message in WSGI

---
 src/connectrpc/_server_sync.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 6602d4f..73c6f9e 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -597,6 +597,7 @@ def _response_stream(
     except Exception as e:
         error = e
         _drain_request_body(environ)
+        _maybe_log_exception(environ, e)
 
     yield _end_response(
         writer.end(
-- 
2.43.0


From b5396c873c28a7c1f4d2a9304ca1bdde091b9c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 14/60] fix: clean up a WSGI handler whose response cannot be
 encoded

---
 src/connectrpc/_server_sync.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 73c6f9e..3c12229 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -596,6 +596,12 @@ def _response_stream(
             yield body
     except Exception as e:
         error = e
+        # Run the handler's cleanup now if it was us that failed. The exception refers to
+        # this frame so it would be left to the garbage collector otherwise.
+        close = getattr(response_stream, "close", None)
+        if close is not None:
+            with contextlib.suppress(Exception):
+                close()
         _drain_request_body(environ)
         _maybe_log_exception(environ, e)
 
-- 
2.43.0


From e5561c7b9c09d452c2fcd7cf2c6ec671f00ccb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 15/60] fix: do not decompress empty requests in WSGI

---
 src/connectrpc/_server_sync.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 3c12229..1e99380 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -320,7 +320,8 @@ class ConnectWSGIApplication(ABC):
                         f"unknown compression: '{compression_name}': supported encodings are {', '.join(self._compressions.keys())}",
                     )
                 try:
-                    req_body = compression.decompress(req_body)
+                    if req_body:  # Don't decompress empty body
+                        req_body = compression.decompress(req_body)
                 except Exception as e:
                     raise ConnectError(
                         Code.INVALID_ARGUMENT,
@@ -386,7 +387,8 @@ class ConnectWSGIApplication(ABC):
                         Code.UNIMPLEMENTED,
                         f"unknown compression: '{compression_name}': supported encodings are {', '.join(self._compressions.keys())}",
                     )
-                message = compression.decompress(message)
+                if message:  # Don't decompress empty messages
+                    message = compression.decompress(message)
 
             codec_name = params.get("encoding", ("",))[0]
             codec = self._codecs.get(codec_name)
-- 
2.43.0


From 7d9262c5f39cee2bc30e0da8ad0f9a4b975da0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 16/60] fix: apply read_max_bytes to GET requests

---
 src/connectrpc/_server_async.py | 6 ++++++
 src/connectrpc/_server_sync.py  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 9a6bf87..05db332 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -329,6 +329,12 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         if message:  # Don't decompress empty messages
             message = compression.decompress(message)
 
+        if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
+            raise ConnectError(
+                Code.RESOURCE_EXHAUSTED,
+                f"message is larger than configured max {self._read_max_bytes}",
+            )
+
         # Get the appropriate decoder for the endpoint
         return codec.decode(message, endpoint.method.input)
 
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 1e99380..ee82343 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -396,6 +396,12 @@ class ConnectWSGIApplication(ABC):
                 raise ConnectError(
                     Code.UNIMPLEMENTED, f"invalid message encoding: '{codec_name}'"
                 )
+            if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
+                raise ConnectError(
+                    Code.RESOURCE_EXHAUSTED,
+                    f"message is larger than configured max {self._read_max_bytes}",
+                )
+
             # Handle GET request with proto decoder
             try:
                 # TODO - Use content type from queryparam
-- 
2.43.0


From 958df377fdd8b94034f199684579eb0e60165977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 17/60] fix: accept any percent-encoded bytes as the message of
 a GET request

---
 src/connectrpc/_server_async.py | 7 +++++--
 src/connectrpc/_server_sync.py  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 05db332..c05af77 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -206,7 +206,10 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
 
             if http_method == "GET":
                 query_string = scope.get("query_string", b"").decode("utf-8")
-                query_params = parse_qs(query_string, keep_blank_values=True)
+                # The message may be any bytes, so keep those that are not UTF-8.
+                query_params = parse_qs(
+                    query_string, keep_blank_values=True, errors="surrogateescape"
+                )
                 codec_name = query_params.get("encoding", ("",))[0]
             else:
                 query_params = _UNSET_QUERY_PARAMS
@@ -314,7 +317,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                     Code.INVALID_ARGUMENT, "Invalid base64 encoding"
                 ) from e
         else:
-            message = message.encode("utf-8")
+            message = message.encode("utf-8", "surrogateescape")
 
         # Handle compression
         compression_name = params.get("compression", ["identity"])[0]
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index ee82343..6f5889a 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -358,7 +358,10 @@ class ConnectWSGIApplication(ABC):
         """Handle GET request with query parameters."""
         try:
             query_string = environ.get("QUERY_STRING", "")
-            params = parse_qs(query_string, keep_blank_values=True)
+            # The message may be any bytes, so keep those that are not UTF-8.
+            params = parse_qs(
+                query_string, keep_blank_values=True, errors="surrogateescape"
+            )
 
             if "message" not in params:
                 raise ConnectError(
@@ -376,7 +379,7 @@ class ConnectWSGIApplication(ABC):
                         Code.INVALID_ARGUMENT, f"Invalid base64 encoding: {e!s}"
                     ) from e
             else:
-                message = message.encode("utf-8")
+                message = message.encode("utf-8", "surrogateescape")
 
             # Handle compression if specified
             if "compression" in params:
-- 
2.43.0


From 5e15bd80ba03e5818f2a567e7a3d17578e160e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 18/60] fix: release a single-message response that carries
 more messages

---
 src/connectrpc/_client_async.py | 21 ++++++++++++---------
 src/connectrpc/_client_sync.py  | 21 ++++++++++++---------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 567cda3..2f8228f 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -4,6 +4,7 @@ import asyncio
 import functools
 import sys
 from asyncio import CancelledError, sleep, wait_for
+from contextlib import aclosing
 from typing import TYPE_CHECKING, Any, Protocol, TypeVar
 from urllib.parse import urlencode
 
@@ -36,7 +37,7 @@ else:
     from ._asyncio_timeout import timeout as asyncio_timeout
 
 if TYPE_CHECKING:
-    from collections.abc import AsyncIterator, Iterable, Mapping
+    from collections.abc import AsyncGenerator, AsyncIterator, Iterable, Mapping
     from types import TracebackType
 
     from ._envelope import EnvelopeReader
@@ -358,7 +359,7 @@ class ConnectClient:
 
     async def _send_request_bidi_stream(
         self, request: AsyncIterator[REQ], ctx: RequestContext[REQ, RES]
-    ) -> AsyncIterator[RES]:
+    ) -> AsyncGenerator[RES, None]:
         request_headers = HTTPHeaders(ctx.request_headers.allitems())
         url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
         if (timeout_ms := ctx.timeout_ms) is not None:
@@ -444,14 +445,16 @@ async def _yield_single_message(message: REQ) -> AsyncIterator[REQ]:
     yield message
 
 
-async def _consume_single_response(stream: AsyncIterator[RES]) -> RES:
+async def _consume_single_response(stream: AsyncGenerator[RES, None]) -> RES:
     res = None
-    async for message in stream:
-        if res is not None:
-            raise ConnectError(
-                Code.UNIMPLEMENTED, "unary response has multiple messages"
-            )
-        res = message
+    # Close the stream even if not fully consumed to release the response.
+    async with aclosing(stream):
+        async for message in stream:
+            if res is not None:
+                raise ConnectError(
+                    Code.UNIMPLEMENTED, "unary response has multiple messages"
+                )
+            res = message
     if res is None:
         raise ConnectError(Code.UNIMPLEMENTED, "unary response has zero messages")
     return res
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index f49c1d2..5a33049 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import functools
+from contextlib import closing
 from typing import TYPE_CHECKING, Any, Protocol, TypeVar
 from urllib.parse import urlencode
 
@@ -29,7 +30,7 @@ from .protocol import ProtocolType
 
 if TYPE_CHECKING:
     import sys
-    from collections.abc import Iterable, Iterator, Mapping
+    from collections.abc import Generator, Iterable, Iterator, Mapping
     from types import TracebackType
 
     from ._envelope import EnvelopeReader
@@ -355,7 +356,7 @@ class ConnectClientSync:
 
     def _send_request_bidi_stream(
         self, request: Iterator[REQ], ctx: RequestContext[REQ, RES]
-    ) -> Iterator[RES]:
+    ) -> Generator[RES, None, None]:
         request_headers = HTTPHeaders(ctx.request_headers.allitems())
         url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
         if (timeout_ms := ctx.timeout_ms) is not None:
@@ -452,14 +453,16 @@ def _streaming_request_content(
         yield writer.write(msg)
 
 
-def _consume_single_response(stream: Iterator[RES]) -> RES:
+def _consume_single_response(stream: Generator[RES, None, None]) -> RES:
     res = None
-    for message in stream:
-        if res is not None:
-            raise ConnectError(
-                Code.UNIMPLEMENTED, "unary response has multiple messages"
-            )
-        res = message
+    # Close the stream even if not fully consumed to release the response.
+    with closing(stream):
+        for message in stream:
+            if res is not None:
+                raise ConnectError(
+                    Code.UNIMPLEMENTED, "unary response has multiple messages"
+                )
+            res = message
     if res is None:
         raise ConnectError(Code.UNIMPLEMENTED, "unary response has zero messages")
     return res
-- 
2.43.0


From cc85c54432544d14522e7b1b848c0645946ffbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 19/60] fix: do not require optional path variables of ASGI and
 WSGI

---
 src/connectrpc/_server_async.py | 5 +++--
 src/connectrpc/_server_sync.py  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index c05af77..b695c1e 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -178,9 +178,10 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         try:
             path = scope["path"]
             endpoint = endpoints.get(path)
-            if not endpoint and scope["root_path"]:
+            root_path = scope.get("root_path", "")
+            if not endpoint and root_path:
                 # The application was mounted at some root so try stripping the prefix.
-                path = path.removeprefix(scope["root_path"])
+                path = path.removeprefix(root_path)
                 endpoint = endpoints.get(path)
             if not endpoint:
                 raise HTTPException(HTTPStatus.NOT_FOUND, [])
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 6f5889a..5e593e7 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -195,11 +195,12 @@ class ConnectWSGIApplication(ABC):
     ) -> Iterable[bytes]:
         ctx: RequestContext | None = None
         try:
-            path = environ["PATH_INFO"]
+            # Both variables may be absent when they are empty.
+            path = environ.get("PATH_INFO", "")
             if not path:
                 path = "/"
             endpoint = self._endpoints.get(path)
-            if not endpoint and environ["SCRIPT_NAME"] == self.path:
+            if not endpoint and environ.get("SCRIPT_NAME", "") == self.path:
                 # The application was mounted at the service's path so we reconstruct
                 # the full URL.
                 endpoint = self._endpoints.get(self.path + path)
-- 
2.43.0


From 23ab8f33b86b468399a142fee51ed6f365fc94da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 20/60] fix: refuse GET requests for streaming methods

---
 src/connectrpc/_server_async.py | 4 ++++
 src/connectrpc/_server_sync.py  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index b695c1e..65291a1 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -205,6 +205,10 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
 
             is_unary = isinstance(endpoint, EndpointUnary)
 
+            if http_method == "GET" and not is_unary:
+                # Only unary methods can be called with GET.
+                raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
+
             if http_method == "GET":
                 query_string = scope.get("query_string", b"").decode("utf-8")
                 # The message may be any bytes, so keep those that are not UTF-8.
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 5e593e7..3645c86 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -236,6 +236,9 @@ class ConnectWSGIApplication(ABC):
                 return self._handle_unary(
                     environ, start_response, http_method, endpoint, ctx, headers
                 )
+            if http_method == "GET":
+                # Only unary methods can be called with GET.
+                raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
             return self._handle_stream(
                 environ, start_response, send_trailers, protocol, headers, endpoint, ctx
             )
-- 
2.43.0


From 17f3d1a3b9566e3cb34b73cd64562745f8c46f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 21/60] fix: apply interceptors given as an iterator to every
 ASGI endpoint

---
 src/connectrpc/_server_async.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 65291a1..5f1b5f4 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -110,7 +110,8 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         super().__init__()
         self._service = service
         self._endpoints = endpoints
-        self._interceptors = interceptors
+        # There is one chain of interceptors per endpoint, an iterator would only last for one.
+        self._interceptors = tuple(interceptors)
         self._resolved_endpoints = None
         self._read_max_bytes = read_max_bytes
         self._compressions = resolve_compressions(compressions)
-- 
2.43.0


From 8159e0c028584ccfe50733a52bd14b4c8ad49af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 22/60] fix: refuse GET messages with invalid base64

---
 src/connectrpc/_server_async.py | 6 +++++-
 src/connectrpc/_server_sync.py  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 5f1b5f4..d4ac59f 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -317,7 +317,11 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
 
         if is_base64:
             try:
-                message = base64.urlsafe_b64decode(message + "===")
+                # Without validation, invalid characters would silently be dropped.
+                message = message.rstrip("=")
+                message = base64.b64decode(
+                    message + "=" * (-len(message) % 4), altchars=b"-_", validate=True
+                )
             except Exception as e:
                 raise ConnectError(
                     Code.INVALID_ARGUMENT, "Invalid base64 encoding"
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 3645c86..030daed 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -377,7 +377,11 @@ class ConnectWSGIApplication(ABC):
 
             if "base64" in params and params["base64"][0] == "1":
                 try:
-                    message = base64.urlsafe_b64decode(message + "===")
+                    # Without validation, invalid characters would silently be dropped.
+                    message = message.rstrip("=")
+                    message = base64.b64decode(
+                        message + "=" * (-len(message) % 4), altchars=b"-_", validate=True
+                    )
                 except Exception as e:
                     raise ConnectError(
                         Code.INVALID_ARGUMENT, f"Invalid base64 encoding: {e!s}"
-- 
2.43.0


From a9e1b357876bf579a73e33104205c7607b8db8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 23/60] fix: keep the response metadata of different calls
 apart

---
 src/connectrpc/_envelope.py          |  2 ++
 src/connectrpc/_protocol_connect.py  |  2 +-
 src/connectrpc/_protocol_grpc.py     |  2 +-
 src/connectrpc/_response_metadata.py | 24 +++++++++++++++---------
 4 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index 34ea99a..f6db70e 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -5,6 +5,7 @@ from abc import ABC, abstractmethod
 from typing import TYPE_CHECKING, Any, Generic, TypeVar
 
 from ._compression import Compression, IdentityCompression
+from ._response_metadata import current_response_trailers
 from .code import Code
 from .errors import ConnectError
 
@@ -39,6 +40,7 @@ class EnvelopeReader(Generic[_RES]):
 
         self._next_message_length = None
         self._end_received = False
+        self._response_trailers = current_response_trailers()
 
     def feed(self, data: bytes | memoryview | bytearray) -> Iterator[_RES]:
         # Nothing can follow the end message of a stream.
diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index df27f05..d785ab2 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -328,7 +328,7 @@ class ConnectEnvelopeReader(EnvelopeReader[RES]):
         end_stream_message: dict = json.loads(message_data)
         metadata = end_stream_message.get("metadata")
         if metadata:
-            handle_response_trailers(metadata)
+            handle_response_trailers(metadata, self._response_trailers)
         error = end_stream_message.get("error")
         if error:
             # Most likely a bug in the protocol, handling of unknown code is different for unary
diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index af81efb..8a01f8c 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -351,7 +351,7 @@ class GRPCEnvelopeReader(EnvelopeReader[RES]):
                 raise e or ConnectError(Code.INTERNAL, "missing grpc-status trailer")
             trailers = response.headers
 
-        handle_response_trailers(trailers)
+        handle_response_trailers(trailers, self._response_trailers)
 
         grpc_status = trailers.get("grpc-status")
         if grpc_status is None:
diff --git a/src/connectrpc/_response_metadata.py b/src/connectrpc/_response_metadata.py
index 56fc099..60b6e29 100644
--- a/src/connectrpc/_response_metadata.py
+++ b/src/connectrpc/_response_metadata.py
@@ -31,27 +31,33 @@ def handle_response_headers(headers: HTTPHeaders) -> None:
             normalized_key = key
             obj = response_headers
         obj.add(normalized_key, value)
-    if response_headers:
-        response._headers = response_headers  # noqa: SLF001
-    if response_trailers:
-        response._trailers = response_trailers  # noqa: SLF001
+    # Nothing of a previous response may remain, even if this one has no trailers.
+    response._headers = response_headers  # noqa: SLF001
+    response._trailers = response_trailers  # noqa: SLF001
+
+
+def current_response_trailers() -> Headers | None:
+    """Returns where the trailers of the response whose headers were just handled go.
+
+    A stream can be continued in another scope than it was started in or after another
+    call was made in its scope, so this must be called when handling its headers.
+    """
+    response = _current_response.get(None)
+    return response._trailers if response else None  # noqa: SLF001
 
 
 def handle_response_trailers(
     trailers: HTTPHeaders | Mapping[str, Sequence[str]],
+    response_trailers: Headers | None,
 ) -> None:
-    response = _current_response.get(None)
-    if not response:
+    if response_trailers is None:
         return
-    response_trailers = response.trailers
     for key, value in trailers.items():
         if isinstance(value, str):
             response_trailers.add(key, value)
         else:
             for v in value:
                 response_trailers.add(key, v)
-    if response_trailers:
-        response._trailers = response_trailers  # noqa: SLF001
 
 
 class ResponseMetadata:
-- 
2.43.0


From 04580a63cab6a3988459fd7cd92700cb9caa7f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 24/60] fix: answer requests of a service without methods after
 startup

---
 src/connectrpc/_server_async.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index d4ac59f..b30950a 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -165,7 +165,8 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                         await send({"type": "lifespan.shutdown.complete"})
                         return None
 
-        if not self._resolved_endpoints:
+        # There may be no endpoints in a service.
+        if self._resolved_endpoints is None:
             if inspect.isasyncgen(self._service):
                 msg = "ASGI server does not support lifespan but async generator passed for service. Enable lifespan support."
                 raise RuntimeError(msg)
-- 
2.43.0


From e09396c6821c37adc3347c3a807f71dffaad8a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 25/60] fix: report endpoints that cannot be created as failed
 ASGI startup

---
 src/connectrpc/_server_async.py | 34 ++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index b30950a..05e594f 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -131,24 +131,24 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 msg = await receive()
                 match msg["type"]:
                     case "lifespan.startup":
-                        # Need to cast since type checking doesn't seem to narrow well with isasyncgen
-                        if inspect.isasyncgen(self._service):
-                            service_iter = cast(
-                                "AsyncGenerator[_SVC, None]", self._service
-                            )
-                            try:
-                                service = await anext(service_iter)
-                            except Exception as e:
-                                await send(
-                                    {
-                                        "type": "lifespan.startup.failed",
-                                        "message": str(e),
-                                    }
+                        try:
+                            # Need to cast since type checking doesn't seem to narrow well with isasyncgen
+                            if inspect.isasyncgen(self._service):
+                                service_iter = cast(
+                                    "AsyncGenerator[_SVC, None]", self._service
                                 )
-                                return None
-                        else:
-                            service = cast("_SVC", self._service)
-                        self._resolved_endpoints = self._resolve_endpoints(service)
+                                service = await anext(service_iter)
+                            else:
+                                service = cast("_SVC", self._service)
+                            self._resolved_endpoints = self._resolve_endpoints(service)
+                        except Exception as e:
+                            if service_iter is not None:
+                                with contextlib.suppress(Exception):
+                                    await service_iter.aclose()
+                            await send(
+                                {"type": "lifespan.startup.failed", "message": str(e)}
+                            )
+                            return None
                         await send({"type": "lifespan.startup.complete"})
                     case "lifespan.shutdown":
                         if service_iter is not None:
-- 
2.43.0


From 5f9352633d14da509c8793f0055905ab2454c129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 26/60] fix: report a stream reset with malformed error details
 as an RPC error

---
 src/connectrpc/_protocol_grpc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index 8a01f8c..988a53f 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -363,7 +363,13 @@ class GRPCEnvelopeReader(EnvelopeReader[RES]):
         if grpc_status != "0":
             message = trailers.get("grpc-message", "")
             if grpc_status_details := trailers.get("grpc-status-details-bin"):
-                status = Status.from_binary(b64decode(grpc_status_details + "==="))
+                try:
+                    status = Status.from_binary(b64decode(grpc_status_details + "==="))
+                except Exception as ex:
+                    raise e or ConnectError(
+                        Code.INTERNAL,
+                        f"protocol error: invalid grpc-status-details-bin: {ex}",
+                    ) from ex
                 connect_code = code or _grpc_status_to_connect.get(
                     str(status.code), Code.UNKNOWN
                 )
-- 
2.43.0


From 17de9915ec7ba47512986ee644694319bcfc7e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 27/60] fix: never use a message that is not a string for an
 error

---
 src/connectrpc/_protocol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol.py b/src/connectrpc/_protocol.py
index f261c4f..c186c35 100644
--- a/src/connectrpc/_protocol.py
+++ b/src/connectrpc/_protocol.py
@@ -120,7 +120,10 @@ class ConnectWireError:
                 code = unexpected_code
         else:
             code = _http_status_code_to_error.get(http_status, Code.UNKNOWN)
-        message = data.get("message", "")
+        message = data.get("message")
+        if not isinstance(message, str):
+            # Missing or malformed
+            message = ""
         details: Sequence[ErrorDetail] = ()
         details_json = cast("list[dict[str, str]] | None", data.get("details"))
         if details_json:
-- 
2.43.0


From 68ca6950d2fba874d04930c4cbc0f5ece6e88492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 28/60] fix: treat an empty error in an end-of-stream message
 as an error

---
 src/connectrpc/_protocol_connect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index d785ab2..04d95bf 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -330,7 +330,7 @@ class ConnectEnvelopeReader(EnvelopeReader[RES]):
         if metadata:
             handle_response_trailers(metadata, self._response_trailers)
         error = end_stream_message.get("error")
-        if error:
+        if error is not None:
             # Most likely a bug in the protocol, handling of unknown code is different for unary
             # and streaming.
             raise ConnectWireError.from_dict(error, 500, Code.UNKNOWN).to_exception()
-- 
2.43.0


From 02e048651b91f3642248367d995c1506c150107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 29/60] fix: map stream resets of Connect unary calls to their
 codes

---
 src/connectrpc/_client_async.py | 2 ++
 src/connectrpc/_client_sync.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 2f8228f..022844c 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -343,6 +343,8 @@ class ConnectClient:
         except CancelledError as e:
             raise ConnectError(Code.CANCELED, "Request was cancelled") from e
         except Exception as e:
+            if rst_err := _client_shared.maybe_map_stream_reset(e, ctx):
+                raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
     async def _send_request_client_stream(
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 5a33049..55d4155 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -342,6 +342,8 @@ class ConnectClientSync:
         except ConnectError:
             raise
         except Exception as e:
+            if rst_err := _client_shared.maybe_map_stream_reset(e, ctx):
+                raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
     def _send_request_client_stream(
-- 
2.43.0


From d96553f035f3cd8bf96523ca15a87bbbed5324ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 30/60] fix: import google.protobuf messages of files in
 subdirectories from the right module

---
 protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index 5b76df1..f78c81c 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -505,7 +505,8 @@ def _message_ident(method: DescMethod, message: DescMessage, options: Options) -
     if message.file != method.parent.file:
         mod = Module(_module_name(message.file.name))
     else:
-        mod = Module(f".{_module_name(message.file.name.split('/')[-1])}")
+        # Relative to the root of generation, not to the file.
+        mod = Module(f".{_module_name(message.file.name)}")
     return mod.ident(name)
 
 
-- 
2.43.0


From 6f54b205b43076820306b8ecd9c88328d148c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 31/60] fix: generate valid code for services without methods

---
 protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index f78c81c..20a272e 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -143,6 +143,8 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
                     ".UNIMPLEMENTED, 'Not implemented')",
                 )
                 f.print()
+        if not service.methods:
+            f.print("pass")
     f.print()
     with f.scope(
         "class ",
@@ -231,6 +233,8 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
     with f.scope("class ", service_name, "Client(", _CONNECT_CLIENT, "):"):
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR, _PYQWEST_CLIENT)
+        elif not service.methods:
+            f.print("pass")
 
         for method in service.methods:
             def_prefix, request_type, response_type = _async_signature(method, options)
@@ -322,6 +326,8 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
                     ".UNIMPLEMENTED, 'Not implemented')",
                 )
                 f.print()
+        if not service.methods:
+            f.print("pass")
     f.print()
     with f.scope(
         "class ",
@@ -394,6 +400,8 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
     with f.scope("class ", service_name, "ClientSync(", _CONNECT_CLIENT_SYNC, "):"):
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR_SYNC, _PYQWEST_SYNC_CLIENT)
+        elif not service.methods:
+            f.print("pass")
 
         for method in service.methods:
             request_type, response_type = _sync_signature(method, options)
-- 
2.43.0


From f17bf4142420a777dfa3f8f1864c317cc82e75c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 32/60] fix: generate a method of its own for every RPC of a
 service

---
 .../protoc_gen_connectrpc/__init__.py         | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index 20a272e..28c56f6 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -556,6 +556,17 @@ def _endpoint_type(method: DescMethod) -> str:
             return "bidi_stream"
 
 
+# The methods generated clients call, which they must not override.
+_CLIENT_EXECUTE_METHODS = frozenset(
+    {
+        "execute_unary",
+        "execute_client_stream",
+        "execute_server_stream",
+        "execute_bidi_stream",
+    }
+)
+
+
 def _client_execute_method(method: DescMethod) -> str:
     match method.method_kind:
         case "unary":
@@ -569,7 +580,17 @@ def _client_execute_method(method: DescMethod) -> str:
 
 
 def _method_local_name(method: DescMethod) -> str:
-    return escape_identifier(_pascal_to_snake_case(method.name))
+    # Different RPC names can have the same form in snake case.
+    taken: set[str] = set()
+    for m in method.parent.methods:
+        name = escape_identifier(_pascal_to_snake_case(m.name))
+        while name in taken or name in _CLIENT_EXECUTE_METHODS:
+            name += "_"
+        if m.name == method.name:
+            return name
+        taken.add(name)
+    msg = f"Method {method.name} not found in its service"
+    raise ValueError(msg)
 
 
 def _method_url(desc: DescMethod) -> str:
-- 
2.43.0


From 5f4b427630efbc6a7c94befb797c837253572296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:16 +0000
Subject: [PATCH 33/60] fix: keep service names apart from the names generated
 code imports

---
 .../protoc_gen_connectrpc/__init__.py         | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index 28c56f6..bd6fabb 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -116,7 +116,7 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
     default_server_codecs = (
         "_DEFAULT_CODECS" if options.protobuf == _ProtobufOption.GOOGLE else "None"
     )
-    with f.scope("class ", service_name, "(", _PROTOCOL, "):"):
+    with f.scope("class ", f.ident(service_name), "(", _PROTOCOL, "):"):
         for method in service.methods:
             def_prefix, request_type, response_type = _async_signature(method, options)
             with f.scope(
@@ -148,8 +148,8 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
     f.print()
     with f.scope(
         "class ",
-        escape_identifier(service.name),
-        "ASGIApplication(",
+        f.ident(f"{service_name}ASGIApplication"),
+        "(",
         _CONNECT_ASGI_APPLICATION,
         "[",
         service_name,
@@ -230,7 +230,9 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
             f.print(f'return "/{service.type_name}"')
     f.print()
     f.print()
-    with f.scope("class ", service_name, "Client(", _CONNECT_CLIENT, "):"):
+    with f.scope(
+        "class ", f.ident(f"{service_name}Client"), "(", _CONNECT_CLIENT, "):"
+    ):
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR, _PYQWEST_CLIENT)
         elif not service.methods:
@@ -300,7 +302,7 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
     default_codecs = (
         "_DEFAULT_CODECS" if options.protobuf == _ProtobufOption.GOOGLE else "None"
     )
-    with f.scope("class ", service_name, "Sync(", _PROTOCOL, "):"):
+    with f.scope("class ", f.ident(f"{service_name}Sync"), "(", _PROTOCOL, "):"):
         for method in service.methods:
             request_type, response_type = _sync_signature(method, options)
             with f.scope(
@@ -331,8 +333,8 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
     f.print()
     with f.scope(
         "class ",
-        escape_identifier(service.name),
-        "WSGIApplication(",
+        f.ident(f"{service_name}WSGIApplication"),
+        "(",
         _CONNECT_WSGI_APPLICATION,
         "):",
     ):
@@ -397,7 +399,9 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
             f.print(f'return "/{service.type_name}"')
     f.print()
     f.print()
-    with f.scope("class ", service_name, "ClientSync(", _CONNECT_CLIENT_SYNC, "):"):
+    with f.scope(
+        "class ", f.ident(f"{service_name}ClientSync"), "(", _CONNECT_CLIENT_SYNC, "):"
+    ):
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR_SYNC, _PYQWEST_SYNC_CLIENT)
         elif not service.methods:
-- 
2.43.0


From 5f4b74b92b318141b6630ff8e3206a8481d8f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:31 +0000
Subject: [PATCH 34/60] fix: release a client that has an RPC named Close when
 its context ends

---
 src/connectrpc/_client_async.py | 3 ++-
 src/connectrpc/_client_sync.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 022844c..1df6869 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -189,7 +189,8 @@ class ConnectClient:
         _exc_value: BaseException | None,
         _traceback: TracebackType | None,
     ) -> None:
-        await self.close()
+        # Not self.close(), a generated client may have an RPC named Close.
+        await ConnectClient.close(self)
 
     async def execute_unary(
         self,
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 55d4155..f9cdc70 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -188,7 +188,8 @@ class ConnectClientSync:
         _exc_value: BaseException | None,
         _traceback: TracebackType | None,
     ) -> None:
-        self.close()
+        # Not self.close(), a generated client may have an RPC named Close.
+        ConnectClientSync.close(self)
 
     def execute_unary(
         self,
-- 
2.43.0


From 780085a1c2125749748c2114f9cc86dabb6e6702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 35/60] fix: report the address of servers with IPv6 hosts,
 paths or credentials in their URL

---
 src/connectrpc/_protocol.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/connectrpc/_protocol.py b/src/connectrpc/_protocol.py
index c186c35..593f738 100644
--- a/src/connectrpc/_protocol.py
+++ b/src/connectrpc/_protocol.py
@@ -287,7 +287,8 @@ class HTTPException(Exception):
 def host_to_server_address(host: str | None, http_scheme: str) -> str | None:
     if host is None:
         return None
-    if ":" not in host:
+    # Colons within the brackets of an IPv6 address do not separate a port.
+    if ":" not in host.rpartition("]")[2]:
         match http_scheme:
             case "https":
                 host += ":443"
@@ -297,11 +298,11 @@ def host_to_server_address(host: str | None, http_scheme: str) -> str | None:
 
 
 def url_to_server_address(address: str) -> str | None:
-    if address.startswith("https://"):
-        scheme = "https"
-        address = address[len("https://") :]
-    else:
-        scheme = "http"
-        address = address[len("http://") :]
-
-    return host_to_server_address(address, scheme)
+    scheme, separator, host = address.partition("://")
+    if not separator:
+        return None
+    # Only the host and port, not the path or credentials.
+    for delimiter in "/?#":
+        host = host.partition(delimiter)[0]
+    host = host.rpartition("@")[2]
+    return host_to_server_address(host, scheme.lower())
-- 
2.43.0


From b50570eb54918e2b1b3c23a986b99a6f4fab863b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 36/60] fix: propagate the client span instead of its parent to
 the server

---
 connectrpc-otel/connectrpc_otel/_interceptor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_interceptor.py b/connectrpc-otel/connectrpc_otel/_interceptor.py
index d4908f4..dfa3ebc 100644
--- a/connectrpc-otel/connectrpc_otel/_interceptor.py
+++ b/connectrpc-otel/connectrpc_otel/_interceptor.py
@@ -150,8 +150,6 @@ class OpenTelemetryInterceptor:
         parent_otel_ctx = None
         if self._client:
             span_kind = SpanKind.CLIENT
-            carrier = ctx.request_headers
-            self._propagator.inject(carrier, setter=_DEFAULT_TEXTMAP_SETTER)
         else:
             span_kind = SpanKind.SERVER
             parent_span = get_current_span()
@@ -169,6 +167,10 @@ class OpenTelemetryInterceptor:
         with self._tracer.start_as_current_span(
             span_name, kind=span_kind, attributes=attrs, context=parent_otel_ctx
         ) as span:
+            if self._client:
+                # Needs the client span to be current for it to be the server's parent.
+                carrier = ctx.request_headers
+                self._propagator.inject(carrier, setter=_DEFAULT_TEXTMAP_SETTER)
             yield span
 
     def _get_error_attributes(
-- 
2.43.0


From eac6c80d1b7765c03c43cd44d8d80f6d66c9d70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 37/60] fix: do not fail an RPC whose telemetry has an unusual
 address

---
 .../connectrpc_otel/_interceptor.py            | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_interceptor.py b/connectrpc-otel/connectrpc_otel/_interceptor.py
index dfa3ebc..9fc0617 100644
--- a/connectrpc-otel/connectrpc_otel/_interceptor.py
+++ b/connectrpc-otel/connectrpc_otel/_interceptor.py
@@ -46,6 +46,14 @@ Token: TypeAlias = tuple[AbstractContextManager, Span, float, dict[str, Attribut
 _DEFAULT_TEXTMAP_SETTER = cast("Setter[MutableMapping[str, str]]", default_setter)
 
 
+def _split_address(address: str) -> tuple[str, int | None]:
+    # The address of a server comes from the request, so it is not always valid.
+    addr, _, port = address.rpartition(":")
+    if port.isascii() and port.isdecimal() and len(port) <= 5:
+        return addr, int(port)
+    return address, None
+
+
 class OpenTelemetryInterceptor:
     """Interceptor to generate telemetry for RPC server and client requests."""
 
@@ -109,9 +117,10 @@ class OpenTelemetryInterceptor:
         }
 
         if sa := ctx.server_address:
-            addr, port = sa.rsplit(":", 1)
+            addr, port = _split_address(sa)
             shared_attrs[SERVER_ADDRESS] = addr
-            shared_attrs[SERVER_PORT] = int(port)
+            if port is not None:
+                shared_attrs[SERVER_PORT] = port
 
         cm = self._start_span(ctx, rpc_method, shared_attrs)
         span = cm.__enter__()
@@ -160,9 +169,10 @@ class OpenTelemetryInterceptor:
         attrs: dict[str, AttributeValue] = shared_attrs.copy()
 
         if ca := ctx.client_address:
-            addr, port = ca.rsplit(":", 1)
+            addr, port = _split_address(ca)
             attrs[CLIENT_ADDRESS] = addr
-            attrs[CLIENT_PORT] = int(port)
+            if port is not None:
+                attrs[CLIENT_PORT] = port
 
         with self._tracer.start_as_current_span(
             span_name, kind=span_kind, attributes=attrs, context=parent_otel_ctx
-- 
2.43.0


From 2fe0826e83d9d99dab49a0d12a950cf4ba08d630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 38/60] fix: record errors that are falsy as errors of their
 call

---
 connectrpc-otel/connectrpc_otel/_interceptor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_interceptor.py b/connectrpc-otel/connectrpc_otel/_interceptor.py
index 9fc0617..d769f7a 100644
--- a/connectrpc-otel/connectrpc_otel/_interceptor.py
+++ b/connectrpc-otel/connectrpc_otel/_interceptor.py
@@ -144,7 +144,7 @@ class OpenTelemetryInterceptor:
         if error_attrs:
             metric_attrs.update(error_attrs)
         self._call_duration.record(end_time - start_time, metric_attrs)
-        if error:
+        if error is not None:
             cm.__exit__(type(error), error, error.__traceback__)
         else:
             cm.__exit__(None, None, None)
@@ -186,7 +186,7 @@ class OpenTelemetryInterceptor:
     def _get_error_attributes(
         self, error: Exception | None
     ) -> dict[str, AttributeValue] | None:
-        if not error:
+        if error is None:
             return None
 
         return {
-- 
2.43.0


From c540d4817c5a4247f5aa54522171df47d159a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 39/60] fix: leave modules imported after uninstrumenting alone

---
 .../connectrpc_otel/_instrumentor.py          | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_instrumentor.py b/connectrpc-otel/connectrpc_otel/_instrumentor.py
index 7aa7a75..56ba4aa 100644
--- a/connectrpc-otel/connectrpc_otel/_instrumentor.py
+++ b/connectrpc-otel/connectrpc_otel/_instrumentor.py
@@ -23,6 +23,8 @@ R = TypeVar("R")
 
 
 class ConnectInstrumentor(BaseInstrumentor):
+    _active: object | None = None
+
     def instrumentation_dependencies(self) -> Collection[str]:
         return _instruments
 
@@ -34,10 +36,18 @@ class ConnectInstrumentor(BaseInstrumentor):
             "TracerProvider | None", kwargs.get("tracer_provider")
         )
 
-        register_post_import_hook(self._patch_client, "connectrpc.client")
-        register_post_import_hook(self._patch_server, "connectrpc.server")
+        # Import hooks can't be removed, so hooks left behind by an instrumentation that
+        # ended before the import need to know that they are not active anymore.
+        self._active = active = object()
+        register_post_import_hook(
+            partial(self._patch_client, active), "connectrpc.client"
+        )
+        register_post_import_hook(
+            partial(self._patch_server, active), "connectrpc.server"
+        )
 
     def _uninstrument(self, **kwargs: object) -> None:
+        self._active = None
         # TODO: Remove sys.modules check after
         # https://github.com/open-telemetry/opentelemetry-python-contrib/pull/4321
         if "connectrpc.client" in sys.modules:
@@ -47,7 +57,9 @@ class ConnectInstrumentor(BaseInstrumentor):
             unwrap("connectrpc.server.ConnectASGIApplication", "__init__")
             unwrap("connectrpc.server.ConnectWSGIApplication", "__init__")
 
-    def _patch_client(self, module: ModuleType) -> None:
+    def _patch_client(self, active: object, module: ModuleType) -> None:
+        if active is not self._active:
+            return
         wrap_function_wrapper(
             module, "ConnectClient.__init__", partial(self._init_wrapper, client=True)
         )
@@ -57,7 +69,9 @@ class ConnectInstrumentor(BaseInstrumentor):
             partial(self._init_wrapper, client=True),
         )
 
-    def _patch_server(self, module: ModuleType) -> None:
+    def _patch_server(self, active: object, module: ModuleType) -> None:
+        if active is not self._active:
+            return
         wrap_function_wrapper(
             module,
             "ConnectASGIApplication.__init__",
-- 
2.43.0


From 1eecb0e3be50fb8ec855d984d16eff8046ac5499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 40/60] fix: keep interceptors given as an iterator when
 instrumented

---
 connectrpc-otel/connectrpc_otel/_instrumentor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connectrpc-otel/connectrpc_otel/_instrumentor.py b/connectrpc-otel/connectrpc_otel/_instrumentor.py
index 56ba4aa..edbbf4c 100644
--- a/connectrpc-otel/connectrpc_otel/_instrumentor.py
+++ b/connectrpc-otel/connectrpc_otel/_instrumentor.py
@@ -99,10 +99,10 @@ class ConnectInstrumentor(BaseInstrumentor):
             "interceptors"
         )
         interceptors = [] if interceptors is None else [*interceptors]
+        kwargs["interceptors"] = interceptors
         if any(isinstance(i, OpenTelemetryInterceptor) for i in interceptors):
             return wrapped(*args, **kwargs)
 
-        kwargs["interceptors"] = interceptors
         # OpenTelemetry interceptor should be first so i.e. logging interceptors
         # have trace IDs.
         interceptors.insert(
-- 
2.43.0


From 82287f6377ff86c81ec3e987659e4478a6f9f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 41/60] fix: end the body of WSGI requests at their content
 length

---
 src/connectrpc/_server_sync.py | 37 +++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 030daed..db7d114 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -110,7 +110,7 @@ def prepare_response_headers(
 def _read_body_with_content_length(
     environ: WSGIEnvironment, content_length: int
 ) -> bytes:
-    input_stream: BytesIO = environ["wsgi.input"]
+    input_stream: _RequestInput = environ["wsgi.input"]
 
     # Many app servers buffer the entire request before executing the app
     # so do an optimistic read before looping.
@@ -135,13 +135,43 @@ def _read_body_with_content_length(
     return b"".join(chunks)
 
 
+class _RequestInput:
+    """The input stream of a request, which ends at the content length if there is one.
+
+    WSGI does not require servers to simulate the end of the stream, reading past it
+    may block until the client closes the connection.
+    """
+
+    def __init__(self, environ: WSGIEnvironment) -> None:
+        self._stream: BytesIO = environ["wsgi.input"]
+        self.remaining: int | None = None
+        content_length = environ.get("CONTENT_LENGTH") or ""
+        if content_length.isdecimal():
+            self.remaining = int(content_length)
+
+    def read(self, size: int) -> bytes:
+        if self.remaining is None:
+            return self._stream.read(size)
+        size = min(size, self.remaining)
+        if size == 0:
+            return b""
+        chunk = self._stream.read(size)
+        self.remaining -= len(chunk)
+        return chunk
+
+
 def _read_body(environ: WSGIEnvironment) -> Iterator[bytes]:
-    input_stream: BytesIO = environ["wsgi.input"]
+    input_stream: _RequestInput = environ["wsgi.input"]
     while True:
         chunk = input_stream.read(_BODY_CHUNK_SIZE)
         if not chunk:
-            return
+            break
         yield chunk
+    if input_stream.remaining:
+        raise ConnectError(
+            Code.INVALID_ARGUMENT,
+            f"request truncated, {input_stream.remaining} bytes are missing",
+        )
 
 
 class ConnectWSGIApplication(ABC):
@@ -193,6 +223,7 @@ class ConnectWSGIApplication(ABC):
     def __call__(
         self, environ: WSGIEnvironment, start_response: StartResponse
     ) -> Iterable[bytes]:
+        environ = {**environ, "wsgi.input": _RequestInput(environ)}
         ctx: RequestContext | None = None
         try:
             # Both variables may be absent when they are empty.
-- 
2.43.0


From 7408aafd466c870eff8bf65740443818e4962ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:01 +0000
Subject: [PATCH 42/60] fix: close the service's stream when a WSGI server
 abandons the response

Closing the response generator does nothing to the service's stream when the
generator was not started yet, or when the service's stream is an iterator of
its own or is referred to elsewhere. Its cleanup, and that of the interceptors
around it, was then left to the garbage collector.
---
 src/connectrpc/_server_sync.py | 41 ++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index db7d114..514db7b 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -42,7 +42,14 @@ from .request import Headers, RequestContext
 
 if TYPE_CHECKING:
     import sys
-    from collections.abc import Callable, Iterable, Iterator, Mapping, Sequence
+    from collections.abc import (
+        Callable,
+        Generator,
+        Iterable,
+        Iterator,
+        Mapping,
+        Sequence,
+    )
     from io import BytesIO
 
     if sys.version_info >= (3, 11):
@@ -535,8 +542,11 @@ class ConnectWSGIApplication(ABC):
             # run at all until the iterator is consumed, meaning start_response wouldn't have
             # been called in time. So we return the response stream as a separate generator
             # function. This means some duplication of error handling.
-            return _response_stream(
-                first_response, environ, response_stream, writer, send_trailers, ctx
+            return _ResponseBody(
+                _response_stream(
+                    first_response, environ, response_stream, writer, send_trailers, ctx
+                ),
+                response_stream,
             )
         except Exception as e:
             # Exception before any response message was returned. An error after the first
@@ -629,6 +639,29 @@ def _request_stream(
     reader.check_complete(Code.INVALID_ARGUMENT)
 
 
+class _ResponseBody:
+    """Closes the service's stream too when the server abandons the response.
+
+    Closing the generator does not when it was not started or when the service's stream
+    is referred to elsewhere.
+    """
+
+    def __init__(
+        self, body: Generator[bytes, None, None], response_stream: Iterator
+    ) -> None:
+        self._body = body
+        self._response_stream = response_stream
+
+    def __iter__(self) -> Iterator[bytes]:
+        return self._body
+
+    def close(self) -> None:
+        self._body.close()
+        close = getattr(self._response_stream, "close", None)
+        if close is not None:
+            close()
+
+
 def _response_stream(
     first_response: _RES,
     environ: WSGIEnvironment,
@@ -636,7 +669,7 @@ def _response_stream(
     writer: EnvelopeWriter,
     send_trailers: Callable[[list[tuple[str, str]]], None] | None,
     ctx: RequestContext,
-) -> Iterable[bytes]:
+) -> Generator[bytes, None, None]:
     error: Exception | None = None
     try:
         body = writer.write(first_response)
-- 
2.43.0


From d41bd1cd62bc3ff1cfed918f1d5904159089ea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 43/60] fix: an incomplete zstd frame was taken for a complete
 message

The stream reader returns what it could decompress, possibly nothing, when the
frame stops early. The handler was then run with a truncated or empty message.
---
 src/connectrpc/compression/zstd.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/connectrpc/compression/zstd.py b/src/connectrpc/compression/zstd.py
index 3923ebb..2ec8f73 100644
--- a/src/connectrpc/compression/zstd.py
+++ b/src/connectrpc/compression/zstd.py
@@ -26,6 +26,13 @@ class ZstdCompression(Compression):
 
     def decompress(self, data: bytes | bytearray | memoryview) -> bytes:
         # Support clients sending frames without length by using
-        # stream API.
-        with zstandard.ZstdDecompressor().stream_reader(data) as reader:
-            return reader.read()
+        # stream API. It does not fail by itself if a frame is incomplete.
+        decompressed = bytearray()
+        while data:
+            frame = zstandard.ZstdDecompressor().decompressobj()
+            decompressed += frame.decompress(data)
+            if not frame.eof:
+                msg = "zstd decompress error: incomplete frame"
+                raise zstandard.ZstdError(msg)
+            data = frame.unused_data
+        return bytes(decompressed)
-- 
2.43.0


From 53e66631e3eaaf9db4e6fcf7d27ba1c76e864dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 44/60] fix: the type name of a detail whose type URL has
 another prefix

It was the whole URL, which is not the fully-qualified name and which no
registry knows.
---
 src/connectrpc/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connectrpc/errors.py b/src/connectrpc/errors.py
index 1407d4d..79cc9f5 100644
--- a/src/connectrpc/errors.py
+++ b/src/connectrpc/errors.py
@@ -38,7 +38,7 @@ class ErrorDetail:
     @property
     def type_name(self) -> str:
         """The fully-qualified name of the details Protobuf message (for example, acme.foo.v1.FooDetail)."""
-        return self._any.type_url.removeprefix("type.googleapis.com/")
+        return self._any.type_url.rpartition("/")[2]
 
     @property
     def message_bytes(self) -> bytes:
-- 
2.43.0


From 0f089ef3bb49ed1b2bfd77c442e1be580f229c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 45/60] fix: the value of a malformed error detail is None, as
 documented

---
 src/connectrpc/errors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/errors.py b/src/connectrpc/errors.py
index 79cc9f5..823b36e 100644
--- a/src/connectrpc/errors.py
+++ b/src/connectrpc/errors.py
@@ -71,7 +71,11 @@ class ErrorDetail:
                 return None
         else:
             desc = desc_or_registry
-        return self._any.unpack(desc)
+        try:
+            return self._any.unpack(desc)
+        except Exception:
+            # Malformed
+            return None
 
 
 class ConnectError(Exception):
-- 
2.43.0


From d8b56e0244d698498193110d80dec868d0b5362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 46/60] fix: a malformed request message is the client's error,
 on every protocol and both servers

---
 src/connectrpc/_envelope.py     | 11 +++++++++++
 src/connectrpc/_server_async.py | 32 +++++++++++++++++++++++++++-----
 src/connectrpc/_server_sync.py  | 10 ++++++++--
 3 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index f6db70e..b68bcf4 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -90,6 +90,17 @@ class EnvelopeReader(Generic[_RES]):
 
             self._next_message_length = int.from_bytes(self._buffer[1:5], "big")
 
+    def feed_request(self, data: bytes | memoryview | bytearray) -> Iterator[_RES]:
+        """Feeds data of a request, for which a malformed message is the client's error."""
+        try:
+            yield from self.feed(data)
+        except ConnectError:
+            raise
+        except Exception as e:
+            raise ConnectError(
+                Code.INVALID_ARGUMENT, f"Failed to decode request message: {e!s}"
+            ) from e
+
     def check_complete(self, code: Code) -> None:
         """Raises an error with the given code if the stream ended in the middle of an envelope."""
         if self._buffer:
diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 05e594f..d4cc5e8 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -341,7 +341,13 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
 
         # Decompress and decode message
         if message:  # Don't decompress empty messages
-            message = compression.decompress(message)
+            try:
+                message = compression.decompress(message)
+            except Exception as e:
+                raise ConnectError(
+                    Code.INVALID_ARGUMENT,
+                    f"Failed to decompress request message: {e!s}",
+                ) from e
 
         if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
             raise ConnectError(
@@ -350,7 +356,12 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             )
 
         # Get the appropriate decoder for the endpoint
-        return codec.decode(message, endpoint.method.input)
+        try:
+            return codec.decode(message, endpoint.method.input)
+        except Exception as e:
+            raise ConnectError(
+                Code.INVALID_ARGUMENT, f"Failed to decode message: {e!s}"
+            ) from e
 
     async def _read_post_request(
         self,
@@ -375,7 +386,13 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             )
 
         if req_body:  # Don't decompress empty body
-            req_body = compression.decompress(req_body)
+            try:
+                req_body = compression.decompress(req_body)
+            except Exception as e:
+                raise ConnectError(
+                    Code.INVALID_ARGUMENT,
+                    f"Failed to decompress request body: {e!s}",
+                ) from e
 
         if self._read_max_bytes is not None and len(req_body) > self._read_max_bytes:
             raise ConnectError(
@@ -383,7 +400,12 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 f"message is larger than configured max {self._read_max_bytes}",
             )
 
-        return codec.decode(req_body, endpoint.method.input)
+        try:
+            return codec.decode(req_body, endpoint.method.input)
+        except Exception as e:
+            raise ConnectError(
+                Code.INVALID_ARGUMENT, f"Failed to decode request body: {e!s}"
+            ) from e
 
     async def _handle_stream(
         self,
@@ -597,7 +619,7 @@ async def _request_stream(
     reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
     try:
         async for chunk in _read_body(receive):
-            for message in reader.feed(chunk):
+            for message in reader.feed_request(chunk):
                 yield message
                 # Check for cancellation each message. While this seems heavyweight,
                 # conformance tests require it.
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 514db7b..2105b2a 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -437,7 +437,13 @@ class ConnectWSGIApplication(ABC):
                         f"unknown compression: '{compression_name}': supported encodings are {', '.join(self._compressions.keys())}",
                     )
                 if message:  # Don't decompress empty messages
-                    message = compression.decompress(message)
+                    try:
+                        message = compression.decompress(message)
+                    except Exception as e:
+                        raise ConnectError(
+                            Code.INVALID_ARGUMENT,
+                            f"Failed to decompress request message: {e!s}",
+                        ) from e
 
             codec_name = params.get("encoding", ("",))[0]
             codec = self._codecs.get(codec_name)
@@ -635,7 +641,7 @@ def _request_stream(
 ) -> Iterator[_REQ]:
     reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
     for chunk in _read_body(environ):
-        yield from reader.feed(chunk)
+        yield from reader.feed_request(chunk)
     reader.check_complete(Code.INVALID_ARGUMENT)
 
 
-- 
2.43.0


From a46103e500eceed58d252efd287dd6dad3ce93f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:52 +0000
Subject: [PATCH 47/60] fix: headers of streaming and gRPC responses named
 trailer-* are not trailers

---
 src/connectrpc/_client_async.py      | 4 ++--
 src/connectrpc/_client_sync.py       | 4 ++--
 src/connectrpc/_response_metadata.py | 5 +++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 1df6869..cfc146d 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -323,7 +323,7 @@ class ConnectClient:
             self._protocol.handle_response_compression(
                 resp.headers, self._response_compressions, stream=False
             )
-            handle_response_headers(resp.headers)
+            handle_response_headers(resp.headers, trailer_prefix=True)
 
             if resp.status == 200:
                 if (
@@ -383,7 +383,7 @@ class ConnectClient:
                     "POST", url, headers=request_headers, content=request_data
                 ) as resp,
             ):
-                handle_response_headers(resp.headers)
+                handle_response_headers(resp.headers, trailer_prefix=False)
                 if resp.status == 200:
                     self._protocol.validate_stream_response(
                         self._codec.name(), resp.headers.get("content-type", "")
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index f9cdc70..616d343 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -324,7 +324,7 @@ class ConnectClientSync:
             self._protocol.handle_response_compression(
                 resp.headers, self._response_compressions, stream=False
             )
-            handle_response_headers(resp.headers)
+            handle_response_headers(resp.headers, trailer_prefix=True)
 
             if resp.status == 200:
                 if (
@@ -386,7 +386,7 @@ class ConnectClientSync:
                 content=request_data,
                 timeout=timeout_s,
             ) as resp:
-                handle_response_headers(resp.headers)
+                handle_response_headers(resp.headers, trailer_prefix=False)
 
                 if resp.status == 200:
                     self._protocol.validate_stream_response(
diff --git a/src/connectrpc/_response_metadata.py b/src/connectrpc/_response_metadata.py
index 60b6e29..e11da2c 100644
--- a/src/connectrpc/_response_metadata.py
+++ b/src/connectrpc/_response_metadata.py
@@ -16,7 +16,7 @@ if TYPE_CHECKING:
 _current_response = ContextVar["ResponseMetadata"]("connectrpc_current_response")
 
 
-def handle_response_headers(headers: HTTPHeaders) -> None:
+def handle_response_headers(headers: HTTPHeaders, *, trailer_prefix: bool) -> None:
     response = _current_response.get(None)
     if not response:
         return
@@ -24,7 +24,8 @@ def handle_response_headers(headers: HTTPHeaders) -> None:
     response_headers: Headers = Headers()
     response_trailers: Headers = Headers()
     for key, value in headers.items():
-        if key.startswith("trailer-"):
+        # Only unary Connect responses have their trailers among the headers.
+        if trailer_prefix and key.startswith("trailer-"):
             normalized_key = key[len("trailer-") :]
             obj = response_trailers
         else:
-- 
2.43.0


From f8fafb8c4adb6aee26a531c44cdaab3eff337cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 48/60] fix: the default JSON registry contains
 google.protobuf.Any itself

---
 src/connectrpc/_codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connectrpc/_codec.py b/src/connectrpc/_codec.py
index 9556643..9502fe5 100644
--- a/src/connectrpc/_codec.py
+++ b/src/connectrpc/_codec.py
@@ -4,6 +4,7 @@ from typing import Protocol, TypeVar
 
 from protobuf import Message, Registry
 from protobuf.wkt import (
+    any_pb,
     api_pb,
     cpp_features_pb,
     descriptor_pb,
@@ -24,6 +25,7 @@ CODEC_NAME_JSON = "json"
 
 
 DEFAULT_REGISTRY = Registry(
+    any_pb.desc(),
     api_pb.desc(),
     cpp_features_pb.desc(),
     descriptor_pb.desc(),
-- 
2.43.0


From 4e5797abb5c5328db6b972eaeca05472a1778d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 49/60] fix: membership and comparison of all header items, and
 views kept while headers change

---
 src/connectrpc/_headers.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/connectrpc/_headers.py b/src/connectrpc/_headers.py
index 26d4fbf..544fcea 100644
--- a/src/connectrpc/_headers.py
+++ b/src/connectrpc/_headers.py
@@ -99,9 +99,7 @@ class Headers(MutableMapping[str, str]):
 
     def allitems(self) -> ItemsView[str, str]:
         """Return an iterable view of all header items, including duplicates."""
-        if self._extra is None:
-            return self._store.items()
-        return _AllItemsView(self._store, self._extra)
+        return _AllItemsView(self)
 
     # Commonly used functions that delegate to _store for performance vs the base class
     # implementations that rely on dunder methods.
@@ -128,24 +126,24 @@ class Headers(MutableMapping[str, str]):
 class _AllItemsView(ItemsView[str, str]):
     """An iterable view of all header items, including duplicates."""
 
-    _store: dict[str, str]
-    _extra: dict[str, list[str]] | None
+    def __init__(self, headers: Headers) -> None:
+        super().__init__(headers)
+        self._headers = headers
 
-    def __init__(
-        self, store: dict[str, str], extra: dict[str, list[str]] | None
-    ) -> None:
-        self._store = store
-        self._extra = extra
+    def __contains__(self, item: object) -> bool:
+        # The base class only looks at the first value for a key.
+        return any(i == item for i in self)
 
     def __iter__(self) -> Iterator[tuple[str, str]]:
-        for key, v in self._store.items():
+        extra = self._headers._extra  # noqa: SLF001
+        for key, v in self._headers._store.items():  # noqa: SLF001
             yield (key, v)
-            if self._extra:
-                for vv in self._extra.get(key, ()):
+            if extra:
+                for vv in extra.get(key, ()):
                     yield (key, vv)
 
     def __len__(self) -> int:
-        size = len(self._store)
-        if self._extra:
-            size += sum(len(v) for v in self._extra.values())
+        size = len(self._headers)
+        if extra := self._headers._extra:  # noqa: SLF001
+            size += sum(len(v) for v in extra.values())
         return size
-- 
2.43.0


From 45c406d12e70dcb0094fca9be9465ce3e705c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 50/60] fix: report errors whose text is not valid Unicode
 instead of breaking the response

---
 src/connectrpc/_protocol.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_protocol.py b/src/connectrpc/_protocol.py
index 593f738..1cbe485 100644
--- a/src/connectrpc/_protocol.py
+++ b/src/connectrpc/_protocol.py
@@ -86,6 +86,11 @@ _http_status_code_to_error = {
 }
 
 
+def _wire_text(text: str) -> str:
+    # Text from the operating system can have lone surrogates, which can't be encoded.
+    return text.encode("utf-8", errors="replace").decode("utf-8")
+
+
 @dataclass(frozen=True)
 class ConnectWireError:
     code: Code
@@ -95,8 +100,8 @@ class ConnectWireError:
     @staticmethod
     def from_exception(exc: Exception) -> ConnectWireError:
         if isinstance(exc, ConnectError):
-            return ConnectWireError(exc.code, exc.message, exc.details)
-        return ConnectWireError(Code.UNKNOWN, str(exc), details=())
+            return ConnectWireError(exc.code, _wire_text(exc.message), exc.details)
+        return ConnectWireError(Code.UNKNOWN, _wire_text(str(exc)), details=())
 
     @staticmethod
     def from_response(response: FullResponse) -> ConnectWireError:
-- 
2.43.0


From f53592323a5e05aa9f34d4c04ee977128ddcf20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 51/60] fix: accept ASGI requests with headers that are not
 UTF-8

---
 src/connectrpc/_server_async.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index d4cc5e8..f23fac2 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -667,10 +667,18 @@ async def _yield_single_response(response: _RES) -> AsyncIterator[_RES]:
 def _process_headers(iterable: Iterable[tuple[bytes, bytes]]) -> Headers:
     result = Headers()
     for key, value in iterable:
-        result.add(key.decode(), value.decode())
+        result.add(_decode_header(key), _decode_header(value))
     return result
 
 
+def _decode_header(data: bytes) -> str:
+    try:
+        return data.decode()
+    except UnicodeDecodeError:
+        # HTTP allows bytes that are not UTF-8 in values, which like in WSGI are Latin-1.
+        return data.decode("latin-1")
+
+
 def _add_context_headers(
     headers: list[tuple[bytes, bytes]], ctx: RequestContext
 ) -> None:
-- 
2.43.0


From d636cc433dbea65809f706685b2a9d534575725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 52/60] fix: accept ASGI requests with queries that are not
 UTF-8

---
 src/connectrpc/_server_async.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index f23fac2..ed6227c 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -212,8 +212,10 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
 
             if http_method == "GET":
-                query_string = scope.get("query_string", b"").decode("utf-8")
                 # The message may be any bytes, so keep those that are not UTF-8.
+                query_string = scope.get("query_string", b"").decode(
+                    "utf-8", "surrogateescape"
+                )
                 query_params = parse_qs(
                     query_string, keep_blank_values=True, errors="surrogateescape"
                 )
-- 
2.43.0


From 42565d6a0572edcc555aadf17d8094ef0c83ac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:19 +0000
Subject: [PATCH 53/60] fix: compare all the values of headers

---
 src/connectrpc/_headers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/connectrpc/_headers.py b/src/connectrpc/_headers.py
index 544fcea..26f7335 100644
--- a/src/connectrpc/_headers.py
+++ b/src/connectrpc/_headers.py
@@ -66,6 +66,13 @@ class Headers(MutableMapping[str, str]):
     def __len__(self) -> int:
         return len(self._store)
 
+    def __eq__(self, other: object) -> bool:
+        if isinstance(other, Headers):
+            # The base class only looks at the first value for a key.
+            store, extra = other._store, other._extra  # noqa: SLF001
+            return self._store == store and (self._extra or {}) == (extra or {})
+        return super().__eq__(other)
+
     def __repr__(self) -> str:
         return repr(list(self.allitems()))
 
-- 
2.43.0


From ac0178e448a657b685701513379cbfe201197ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:19 +0000
Subject: [PATCH 54/60] fix: do not report success for a stream whose handler
 leaves with a BaseException

---
 src/connectrpc/_server_async.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index ed6227c..daa78d2 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -505,6 +505,10 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             raise error from e
         except Exception as e:
             error = e
+        except BaseException as e:
+            # Not for us to handle, but it must not look like success to the client.
+            error = ConnectError(Code.UNKNOWN, str(e))
+            raise
         finally:
             if sending_headers and not sent_headers:
                 # Interrupted while sending headers. They may or may not have been sent so
-- 
2.43.0


From d96d56c71f7d62bfc5eba412ecfd152b1a5509d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:19 +0000
Subject: [PATCH 55/60] fix: report the metadata of a unary response that is
 refused

---
 src/connectrpc/_client_async.py | 3 ++-
 src/connectrpc/_client_sync.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index cfc146d..e40c06b 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -315,6 +315,8 @@ class ConnectClient:
                     timeout_s,
                 )
 
+            # Also those of a response that is then refused.
+            handle_response_headers(resp.headers, trailer_prefix=True)
             self._protocol.validate_response(
                 self._codec.name(), resp.status, resp.headers.get("content-type", "")
             )
@@ -323,7 +325,6 @@ class ConnectClient:
             self._protocol.handle_response_compression(
                 resp.headers, self._response_compressions, stream=False
             )
-            handle_response_headers(resp.headers, trailer_prefix=True)
 
             if resp.status == 200:
                 if (
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 616d343..e6d4291 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -316,6 +316,8 @@ class ConnectClientSync:
                     timeout=timeout_s,
                 )
 
+            # Also those of a response that is then refused.
+            handle_response_headers(resp.headers, trailer_prefix=True)
             self._protocol.validate_response(
                 self._codec.name(), resp.status, resp.headers.get("content-type", "")
             )
@@ -324,7 +326,6 @@ class ConnectClientSync:
             self._protocol.handle_response_compression(
                 resp.headers, self._response_compressions, stream=False
             )
-            handle_response_headers(resp.headers, trailer_prefix=True)
 
             if resp.status == 200:
                 if (
-- 
2.43.0


From fbae9467e8a5dd827c521f0dea961295d64fc41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:19 +0000
Subject: [PATCH 56/60] fix: decompress unary responses compressed with a
 custom algorithm

---
 src/connectrpc/_client_async.py  | 11 +++++++----
 src/connectrpc/_client_shared.py | 15 +++++++++++++++
 src/connectrpc/_client_sync.py   | 11 +++++++----
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index e40c06b..df3d48e 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -320,23 +320,26 @@ class ConnectClient:
             self._protocol.validate_response(
                 self._codec.name(), resp.status, resp.headers.get("content-type", "")
             )
-            # Decompression itself is handled by pyqwest, but we validate it
+            # Decompression is mostly handled by pyqwest, but we validate it
             # by resolving it.
-            self._protocol.handle_response_compression(
+            compression = self._protocol.handle_response_compression(
                 resp.headers, self._response_compressions, stream=False
             )
 
             if resp.status == 200:
+                content = _client_shared.decompress_unary_response(
+                    resp.content, compression
+                )
                 if (
                     self._read_max_bytes is not None
-                    and len(resp.content) > self._read_max_bytes
+                    and len(content) > self._read_max_bytes
                 ):
                     raise ConnectError(
                         Code.RESOURCE_EXHAUSTED,
                         f"message is larger than configured max {self._read_max_bytes}",
                     )
 
-                return self._codec.decode(resp.content, ctx.method.output)
+                return self._codec.decode(content, ctx.method.output)
             raise ConnectWireError.from_response(resp).to_exception()
         except (TimeoutError, asyncio.TimeoutError) as e:
             raise ConnectError(Code.DEADLINE_EXCEEDED, "Request timed out") from e
diff --git a/src/connectrpc/_client_shared.py b/src/connectrpc/_client_shared.py
index 4ff0778..8ebfa92 100644
--- a/src/connectrpc/_client_shared.py
+++ b/src/connectrpc/_client_shared.py
@@ -6,6 +6,7 @@ from typing import TYPE_CHECKING, TypeVar
 from pyqwest import Headers as HTTPHeaders
 from pyqwest import StreamError, StreamErrorCode
 
+from ._compression import Compression, IdentityCompression
 from ._protocol_connect import CONNECT_PROTOCOL_VERSION
 from .code import Code
 from .errors import ConnectError
@@ -19,6 +20,20 @@ REQ = TypeVar("REQ")
 RES = TypeVar("RES")
 
 
+# The HTTP client itself decompresses responses compressed with these.
+_HTTP_CLIENT_COMPRESSIONS = ("br", "gzip", "zstd")
+
+
+def decompress_unary_response(content: bytes, compression: Compression) -> bytes:
+    if (
+        isinstance(compression, IdentityCompression)
+        or compression.name() in _HTTP_CLIENT_COMPRESSIONS
+        or not content
+    ):
+        return content
+    return compression.decompress(content)
+
+
 def prepare_get_params(
     codec: Codec, request_data: bytes, headers: HTTPHeaders
 ) -> dict[str, str]:
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index e6d4291..e0af4c6 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -321,23 +321,26 @@ class ConnectClientSync:
             self._protocol.validate_response(
                 self._codec.name(), resp.status, resp.headers.get("content-type", "")
             )
-            # Decompression itself is handled by pyqwest, but we validate it
+            # Decompression is mostly handled by pyqwest, but we validate it
             # by resolving it.
-            self._protocol.handle_response_compression(
+            compression = self._protocol.handle_response_compression(
                 resp.headers, self._response_compressions, stream=False
             )
 
             if resp.status == 200:
+                content = _client_shared.decompress_unary_response(
+                    resp.content, compression
+                )
                 if (
                     self._read_max_bytes is not None
-                    and len(resp.content) > self._read_max_bytes
+                    and len(content) > self._read_max_bytes
                 ):
                     raise ConnectError(
                         Code.RESOURCE_EXHAUSTED,
                         f"message is larger than configured max {self._read_max_bytes}",
                     )
 
-                return self._codec.decode(resp.content, ctx.method.output)
+                return self._codec.decode(content, ctx.method.output)
             raise ConnectWireError.from_response(resp).to_exception()
         except TimeoutError as e:
             raise ConnectError(Code.DEADLINE_EXCEEDED, "Request timed out") from e
-- 
2.43.0


From 11725dfba008cc0a4e97e9d7cb277716a05de921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:31 +0000
Subject: [PATCH 57/60] fix: do not take a sync handler's None for the end of
 its responses

---
 src/connectrpc/_server_sync.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 2105b2a..1c28ad6 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -7,7 +7,7 @@ import traceback
 from abc import ABC, abstractmethod
 from dataclasses import replace
 from http import HTTPStatus
-from typing import TYPE_CHECKING, TypeVar
+from typing import TYPE_CHECKING, Any, TypeVar
 from urllib.parse import parse_qs
 
 from . import _server_shared
@@ -67,6 +67,7 @@ _REQ = TypeVar("_REQ")
 _RES = TypeVar("_RES")
 
 _BODY_CHUNK_SIZE = 4096
+_NO_RESPONSE: Any = object()
 
 # While _server_shared.EndpointSync is a closed type, we can't indicate that to Python so define
 # a more precise type here.
@@ -528,13 +529,13 @@ class ConnectWSGIApplication(ABC):
                     response_stream = endpoint.function(request_stream, ctx)
 
             # Trigger service logic by consuming the first (possibly only) response message.
-            first_response = next(response_stream, None)
+            first_response = next(response_stream, _NO_RESPONSE)
             # Response headers set before the first message should be set to the context and
             # we can send them.
             _send_stream_response_headers(
                 start_response, protocol, codec, resp_compression.name(), ctx
             )
-            if first_response is None:
+            if first_response is _NO_RESPONSE:
                 # It's valid for a service method to return no messages, finish the response
                 # without error.
                 return [
-- 
2.43.0


From 6151a3c1f541c942e75882558f0713b4d4902b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:02 +0000
Subject: [PATCH 58/60] fix: stop a server stream whose connection fails while
 it is watched

---
 src/connectrpc/_server_async.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index daa78d2..26437f4 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -461,11 +461,13 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                     disconnect_detected = Event()
 
                     async def _watch_for_disconnect() -> None:
-                        while True:
-                            msg = await receive()
-                            if msg["type"] == "http.disconnect":
-                                disconnect_detected.set()
-                                return
+                        # A connection that fails is one that is gone, too.
+                        with contextlib.suppress(Exception):
+                            while True:
+                                msg = await receive()
+                                if msg["type"] == "http.disconnect":
+                                    break
+                        disconnect_detected.set()
 
                     monitor_task = create_task(_watch_for_disconnect())
                 case EndpointBidiStream():
-- 
2.43.0


From e60679662f84c1426a110dbdd8627133ef6ef1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:21 +0000
Subject: [PATCH 59/60] fix: keep the error of an async call whose response
 fails to be released

---
 src/connectrpc/_client_async.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index df3d48e..579d0dd 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -374,6 +374,7 @@ class ConnectClient:
         else:
             timeout_s = None
 
+        stream_error: ConnectError | None = None
         reader: EnvelopeReader | None = None
         resp: Response | None = None
         try:
@@ -402,17 +403,21 @@ class ConnectClient:
                         self._read_max_bytes,
                     )
                     deadline = timeout.when()
-                    async for chunk in resp.content:
-                        for message in reader.feed(bytes(chunk)):
-                            # The deadline must not cancel the caller's own code, which
-                            # runs in the same task while we are suspended.
-                            timeout.reschedule(None)
-                            yield message
-                            timeout.reschedule(deadline)
-                            # Check for cancellation each message. While this seems heavyweight,
-                            # conformance tests require it.
-                            await sleep(0)
-                    reader.handle_response_complete(resp)
+                    try:
+                        async for chunk in resp.content:
+                            for message in reader.feed(bytes(chunk)):
+                                # The deadline must not cancel the caller's own code, which
+                                # runs in the same task while we are suspended.
+                                timeout.reschedule(None)
+                                yield message
+                                timeout.reschedule(deadline)
+                                # Check for cancellation each message. While this seems heavyweight,
+                                # conformance tests require it.
+                                await sleep(0)
+                        reader.handle_response_complete(resp)
+                    except ConnectError as e:
+                        stream_error = e
+                        raise
                 else:
                     content = bytearray()
                     async for chunk in resp.content:
@@ -431,6 +436,12 @@ class ConnectClient:
         except CancelledError as e:
             raise ConnectError(Code.CANCELED, "Request was cancelled") from e
         except Exception as e:
+            # If a context manager's exit raises an exception, it overwrites any raised
+            # by our own stream handling. It should always be fine to prioritize the
+            # stream error here.
+            if stream_error is not None:
+                raise stream_error from None
+
             if rst_err := _client_shared.maybe_map_stream_reset(e, ctx):
                 # It is possible for a reset to come with trailers which should
                 # be used.
-- 
2.43.0


From fa699c9d341e677ee1e7e47d1a25dee524f19a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:41 +0000
Subject: [PATCH 60/60] fix: count messages that a custom codec decodes as None

---
 src/connectrpc/_client_async.py |  9 ++++++---
 src/connectrpc/_client_sync.py  |  9 ++++++---
 src/connectrpc/_server_async.py | 10 ++++++----
 src/connectrpc/_server_sync.py  |  8 +++++---
 4 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 579d0dd..c34aa2a 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -56,6 +56,9 @@ else:
 REQ = TypeVar("REQ")
 RES = TypeVar("RES")
 
+# A message can be None with a custom codec.
+_NO_MESSAGE: Any = object()
+
 
 class _ExecuteUnary(Protocol[REQ, RES]):
     async def __call__(self, request: REQ, ctx: RequestContext[REQ, RES]) -> RES: ...
@@ -464,15 +467,15 @@ async def _yield_single_message(message: REQ) -> AsyncIterator[REQ]:
 
 
 async def _consume_single_response(stream: AsyncGenerator[RES, None]) -> RES:
-    res = None
+    res: Any = _NO_MESSAGE
     # Close the stream even if not fully consumed to release the response.
     async with aclosing(stream):
         async for message in stream:
-            if res is not None:
+            if res is not _NO_MESSAGE:
                 raise ConnectError(
                     Code.UNIMPLEMENTED, "unary response has multiple messages"
                 )
             res = message
-    if res is None:
+    if res is _NO_MESSAGE:
         raise ConnectError(Code.UNIMPLEMENTED, "unary response has zero messages")
     return res
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index e0af4c6..50b21ac 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -49,6 +49,9 @@ else:
 REQ = TypeVar("REQ")
 RES = TypeVar("RES")
 
+# A message can be None with a custom codec.
+_NO_MESSAGE: Any = object()
+
 
 class _ExecuteUnary(Protocol[REQ, RES]):
     def __call__(self, request: REQ, ctx: RequestContext[REQ, RES]) -> RES: ...
@@ -461,15 +464,15 @@ def _streaming_request_content(
 
 
 def _consume_single_response(stream: Generator[RES, None, None]) -> RES:
-    res = None
+    res: Any = _NO_MESSAGE
     # Close the stream even if not fully consumed to release the response.
     with closing(stream):
         for message in stream:
-            if res is not None:
+            if res is not _NO_MESSAGE:
                 raise ConnectError(
                     Code.UNIMPLEMENTED, "unary response has multiple messages"
                 )
             res = message
-    if res is None:
+    if res is _NO_MESSAGE:
         raise ConnectError(Code.UNIMPLEMENTED, "unary response has zero messages")
     return res
diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 26437f4..8f90d92 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -8,7 +8,7 @@ from abc import ABC, abstractmethod
 from asyncio import CancelledError, Event, create_task, sleep
 from dataclasses import replace
 from http import HTTPStatus
-from typing import TYPE_CHECKING, Generic, TypeVar, cast
+from typing import TYPE_CHECKING, Any, Generic, TypeVar, cast
 from urllib.parse import parse_qs
 
 from ._codec import Codec, get_default_codecs
@@ -63,6 +63,8 @@ _RES = TypeVar("_RES")
 
 # We don't mutate query params so use a singleton for when they're not set.
 _UNSET_QUERY_PARAMS: dict[str, list[str]] = {}
+# A message can be None with a custom codec.
+_NO_MESSAGE: Any = object()
 
 # While _server_shared.Endpoint is a closed type, we can't indicate that to Python so define
 # a more precise type here.
@@ -656,14 +658,14 @@ async def _read_body(receive: ASGIReceiveCallable) -> AsyncIterator[bytes]:
 
 
 async def _consume_single_request(stream: AsyncIterator[_REQ]) -> _REQ:
-    req = None
+    req: Any = _NO_MESSAGE
     async for message in stream:
-        if req is not None:
+        if req is not _NO_MESSAGE:
             raise ConnectError(
                 Code.UNIMPLEMENTED, "unary request has multiple messages"
             )
         req = message
-    if req is None:
+    if req is _NO_MESSAGE:
         raise ConnectError(Code.UNIMPLEMENTED, "unary request has zero messages")
     return req
 
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 1c28ad6..1c03a32 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -68,6 +68,8 @@ _RES = TypeVar("_RES")
 
 _BODY_CHUNK_SIZE = 4096
 _NO_RESPONSE: Any = object()
+# A message can be None with a custom codec.
+_NO_MESSAGE: Any = object()
 
 # While _server_shared.EndpointSync is a closed type, we can't indicate that to Python so define
 # a more precise type here.
@@ -705,14 +707,14 @@ def _response_stream(
 
 
 def _consume_single_request(stream: Iterator[_REQ]) -> _REQ:
-    req = None
+    req: Any = _NO_MESSAGE
     for message in stream:
-        if req is not None:
+        if req is not _NO_MESSAGE:
             raise ConnectError(
                 Code.UNIMPLEMENTED, "unary request has multiple messages"
             )
         req = message
-    if req is None:
+    if req is _NO_MESSAGE:
         raise ConnectError(Code.UNIMPLEMENTED, "unary request has zero messages")
     return req
 
-- 
2.43.0

