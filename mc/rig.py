"""Deterministic drivers for the real code: ASGI / WSGI servers, async / sync clients."""
from __future__ import annotations

from . import vtime  # noqa: F401  (must precede connectrpc)

import asyncio
import io
from dataclasses import dataclass, field
from urllib.parse import unquote, urlsplit

from connectrpc.client import ConnectClient, ConnectClientSync, ResponseMetadata
from connectrpc.code import Code
from connectrpc.compat import (
    google_protobuf_binary_codec,
    google_protobuf_codecs,
    google_protobuf_json_codec,
)
from connectrpc.compression.brotli import BrotliCompression
from connectrpc.compression.gzip import GzipCompression
from connectrpc.compression.zstd import ZstdCompression
from connectrpc.codec import proto_binary_codec, proto_json_codec
from connectrpc.errors import ConnectError, ErrorDetail
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.protocol import ProtocolType
from connectrpc.request import Headers, RequestContext
from connectrpc.server import (
    ConnectASGIApplication,
    ConnectWSGIApplication,
    Endpoint,
    EndpointSync,
)
from google.protobuf.wrappers_pb2 import StringValue as GStringValue
from protobuf.wkt import StringValue
from pyqwest import Client as HTTPClient
from pyqwest import Headers as HTTPHeaders
from pyqwest import Response, SyncClient, SyncResponse

from . import wire
from .core import HarnessError, Prune, Violation
from .vloop import Env, run
from .wire import Err, Req, Resp

SERVICE = "verif.v1.Svc"
KINDS = wire.KINDS
PROTOS = wire.PROTOS
PROTO_TYPE = {
    "connect": ProtocolType.CONNECT,
    "grpc": ProtocolType.GRPC,
    "grpcweb": ProtocolType.GRPC_WEB,
}
METHOD_NAME = {
    "unary": "Unary", "client_stream": "ClientStream",
    "server_stream": "ServerStream", "bidi": "Bidi",
}


class RotCompression:
    """An algorithm of the application."""

    def name(self):
        return "x-rot"

    def compress(self, data):
        return wire.compress("x-rot", bytes(data))

    def decompress(self, data):
        return wire.decompress("x-rot", bytes(data))


def compression(name: str):
    return {
        "gzip": GzipCompression, "br": BrotliCompression, "zstd": ZstdCompression, "x-rot": RotCompression,
    }[name]()


class TextCodec:
    """A codec of the application."""

    def name(self):
        return "text"

    def encode(self, message):
        return wire.enc_msg("text", message.value)

    def decode(self, data, message_class):
        return message_class(value=wire.dec_msg("text", bytes(data)))


def msgcls(lib: str):
    return GStringValue if lib == "google" else StringValue


def codec(name: str, lib: str = "py"):
    if name == "text":
        return TextCodec()
    if lib == "google":
        return google_protobuf_binary_codec() if name == "proto" else google_protobuf_json_codec()
    return proto_binary_codec() if name == "proto" else proto_json_codec()


def codecs(lib: str = "py", name: str = "proto"):
    if name == "text":
        return [TextCodec(), proto_binary_codec()]
    return google_protobuf_codecs() if lib == "google" else None


def M(s: str, lib: str = "py"):
    return msgcls(lib)(value=s)


def minfo(kind: str, name: str | None = None, idem=IdempotencyLevel.UNKNOWN, lib="py",
          service=SERVICE):
    return MethodInfo(
        name=name or METHOD_NAME[kind], service_name=service,
        input=msgcls(lib), output=msgcls(lib), idempotency_level=idem,
    )


def mpath(kind: str, name: str | None = None, service=SERVICE) -> str:
    return f"/{service}/{name or METHOD_NAME[kind]}"


class _App(ConnectASGIApplication):
    @property
    def path(self) -> str:
        return f"/{SERVICE}"


class _WApp(ConnectWSGIApplication):
    @property
    def path(self) -> str:
        return f"/{SERVICE}"


def _factory(sync: bool, kind: str):
    cls = EndpointSync if sync else Endpoint
    return {
        "unary": cls.unary, "client_stream": cls.client_stream,
        "server_stream": cls.server_stream, "bidi": cls.bidi_stream,
    }[kind]


def endpoints(handlers, sync: bool):
    """handlers: list of (MethodInfo, kind, fn)."""
    return {
        f"/{mi.service_name}/{mi.name}": _factory(sync, kind)(method=mi, function=fn)
        for mi, kind, fn in handlers
    }


def asgi_app(handlers, **kw):
    return _App(service=object(), endpoints=lambda _svc: endpoints(handlers, False), **kw)


def wsgi_app(handlers, **kw):
    return _WApp(endpoints=endpoints(handlers, True), **kw)


# ---------------------------------------------------------------------------
# ASGI

HTTP_TRAILERS_EXT = {"http.response.trailers": {}}


def asgi_scope(req: Req, *, root_path="", http_version="2", scheme="http",
               client=("127.0.0.1", 5), extensions=HTTP_TRAILERS_EXT):
    return {
        "type": "http", "asgi": {"version": "3.0", "spec_version": "2.5"},
        "http_version": http_version, "method": req.method, "scheme": scheme,
        "path": req.path, "raw_path": req.path.encode(),
        "query_string": req.query.encode(),
        "headers": [(k.lower().encode(), v.encode()) for k, v in req.headers],
        "server": ("example.test", 80), "client": client,
        "extensions": extensions, "state": {}, "root_path": root_path,
    }


class ASGIMonitor:
    """Online automaton for the ASGI HTTP response protocol."""

    def __init__(self, ch=None) -> None:
        self.ch = ch
        self.state = "init"
        self.status = None
        self.headers: list[tuple[str, str]] = []
        self.chunks: list[bytes] = []
        self.trailers: list[tuple[str, str]] | None = None
        self.want_trailers = False
        self.problems: list[str] = []

    def bad(self, msg: str) -> None:
        self.problems.append(msg)

    def _hdrs(self, hs):
        out = []
        for k, v in hs:
            if not isinstance(k, bytes) or not isinstance(v, bytes):
                self.bad(f"header not bytes: {k!r}: {v!r}")
                continue
            if k != k.lower():
                self.bad(f"header name not lower case: {k!r}")
            out.append((k.decode(), v.decode()))
        return out

    def on_send(self, m) -> None:
        t = m["type"]
        if self.ch is not None:
            self.ch.ev("send", t, m.get("status", ""), m.get("more_body", ""),
                       (m.get("body") or b"").hex()[:64])
        if t == "http.response.start":
            if self.state != "init":
                self.bad(f"response.start in state {self.state}")
            self.state = "started"
            self.status = m["status"]
            if not isinstance(m["status"], int):
                self.bad("status not int")
            self.headers = self._hdrs(m.get("headers", ()))
            self.want_trailers = bool(m.get("trailers", False))
        elif t == "http.response.body":
            if self.state != "started":
                self.bad(f"response.body in state {self.state}")
            b = m.get("body", b"")
            if not isinstance(b, bytes):
                self.bad(f"body is {type(b).__name__}")
            self.chunks.append(bytes(b))
            if not m.get("more_body", False):
                self.state = "body_done" if self.want_trailers else "done"
        elif t == "http.response.trailers":
            if self.state != "body_done":
                self.bad(f"response.trailers in state {self.state}")
            self.trailers = (self.trailers or []) + self._hdrs(m.get("headers", ()))
            if not m.get("more_trailers", False):
                self.state = "done"
        else:
            self.bad(f"unknown message {t}")

    @property
    def complete(self) -> bool:
        return self.state == "done"

    def resp(self) -> Resp:
        return Resp(self.status or 0, self.headers, list(self.chunks), self.trailers)


@dataclass
class AppRun:
    mon: ASGIMonitor
    exc: BaseException | None = None
    reads: int = 0
    leftover: list = field(default_factory=list)

    @property
    def resp(self) -> Resp:
        return self.mon.resp()


async def asgi_plain(app, req: Req, ch=None, *, disconnect_after=None, **scope_kw) -> AppRun:
    """Drive one request with an always-ready network (no choices)."""
    mon = ASGIMonitor(ch)
    out = AppRun(mon)
    chunks = list(req.chunks)
    n = 0

    async def receive():
        nonlocal n
        out.reads += 1
        if disconnect_after is not None and n >= disconnect_after:
            n += 1
            return {"type": "http.disconnect"}
        if n >= max(1, len(chunks)):
            # request is over: wait for a disconnect that never comes
            await asyncio.get_running_loop().create_future()
        i = n
        n += 1
        if i >= len(chunks):
            return {"type": "http.request", "body": b"", "more_body": False}
        return {"type": "http.request", "body": chunks[i], "more_body": i + 1 < len(chunks)}

    async def send(m):
        mon.on_send(m)

    try:
        await app(asgi_scope(req, **scope_kw), receive, send)
    except asyncio.CancelledError:
        raise
    except Exception as e:
        out.exc = e
    return out


def asgi_sync(app, req: Req, ch=None, **kw) -> AppRun:
    async def main(_env):
        r = await asgi_plain(app, req, ch, **kw)
        for _ in range(10):  # let the finalizers of dropped generators run
            await asyncio.sleep(0)
        return r

    res, info = run(None, main)
    res.leftover = info["leftover_tasks"]
    return res


# ---------------------------------------------------------------------------
# WSGI


class Input:
    """wsgi.input serving the given chunks: read(n) returns at most one chunk."""

    def __init__(self, chunks, eof_error: Exception | None = None):
        self.chunks = [bytes(c) for c in chunks if c]
        self.eof_error = eof_error
        self.reads = 0
        self.consumed = 0

    def read(self, n=-1):
        self.reads += 1
        if n == 0:
            return b""
        if not self.chunks:
            if self.eof_error is not None:
                raise self.eof_error
            return b""
        if n is None or n < 0:
            out = b"".join(self.chunks)
            self.chunks = []
        else:
            c = self.chunks[0]
            out, rest = c[:n], c[n:]
            if rest:
                self.chunks[0] = rest
            else:
                self.chunks.pop(0)
        self.consumed += len(out)
        return out


def wsgi_environ(req: Req, inp, *, send_trailers=None, script_name="", path=None,
                 server_protocol="HTTP/2", scheme="http", content_length="auto", client_env=None):
    e = {
        "REQUEST_METHOD": req.method, "SCRIPT_NAME": script_name,
        "PATH_INFO": req.path if path is None else path, "QUERY_STRING": req.query,
        "SERVER_NAME": "example.test", "SERVER_PORT": "80",
        "SERVER_PROTOCOL": server_protocol, "wsgi.url_scheme": scheme,
        "wsgi.version": (1, 0), "wsgi.multithread": True, "wsgi.multiprocess": False,
        "wsgi.run_once": False, "wsgi.input": inp, "wsgi.errors": io.StringIO(),
    }
    e.update({"REMOTE_ADDR": "127.0.0.1", "REMOTE_PORT": "5"} if client_env is None else client_env)
    if send_trailers is not None:
        e["wsgi.ext.http.send_trailers"] = send_trailers
    for k, v in req.headers:
        k = k.lower()
        if k == "content-type":
            e["CONTENT_TYPE"] = v
        elif k == "content-length":
            e["CONTENT_LENGTH"] = v
        else:
            n = "HTTP_" + k.upper().replace("-", "_")
            e[n] = f"{e[n]},{v}" if n in e else v
    return e


class WSGIMonitor:
    def __init__(self, ch=None):
        self.ch = ch
        self.status = None
        self.status_line = None
        self.headers: list[tuple[str, str]] = []
        self.chunks: list[bytes] = []
        self.trailers: list[tuple[str, str]] | None = None
        self.starts = 0
        self.trailer_calls = 0
        self.body_started = False
        self.finished = False
        self.problems: list[str] = []

    def bad(self, m):
        self.problems.append(m)

    def start_response(self, status, headers, exc_info=None):
        self.starts += 1
        if self.starts > 1 and exc_info is None:
            self.bad("start_response called twice")
        if not isinstance(status, str) or not status[:3].isdigit() or (
            len(status) < 4 or status[3] != " "
        ):
            self.bad(f"status line {status!r}")
        self.status_line = status
        self.status = int(status[:3])
        self.headers = []
        for k, v in headers:
            if not isinstance(k, str) or not isinstance(v, str):
                self.bad(f"header types {k!r} {v!r}")
            self.headers.append((k.lower(), v))
        if self.ch is not None:
            self.ch.ev("start", status)
        return lambda b: self.bad("write() used")

    def send_trailers(self, tr):
        self.trailer_calls += 1
        if self.trailer_calls > 1:
            self.bad("trailers sent twice")
        if self.starts == 0:
            self.bad("trailers before start_response")
        if self.finished:
            self.bad("trailers after the body ended")
        self.trailers = [(k.lower(), v) for k, v in tr]
        if self.ch is not None:
            self.ch.ev("trailers", self.trailers)

    def on_chunk(self, b):
        if self.starts == 0:
            self.bad("body before start_response")
        if not isinstance(b, bytes):
            self.bad(f"body chunk is {type(b).__name__}")
        if self.trailer_calls and b:
            self.bad("body after trailers")
        self.chunks.append(bytes(b))
        if self.ch is not None:
            self.ch.ev("chunk", bytes(b).hex()[:64])

    def resp(self) -> Resp:
        return Resp(self.status or 0, self.headers, list(self.chunks), self.trailers)


@dataclass
class WRun:
    mon: WSGIMonitor
    exc: BaseException | None = None
    inp: object = None
    errors: str = ""

    @property
    def resp(self) -> Resp:
        return self.mon.resp()


def wsgi_plain(app, req: Req, ch=None, *, inp=None, chunk_limit=None, trailers_ext=True,
               catch=Exception, **kw) -> WRun:
    mon = WSGIMonitor(ch)
    if inp is None:
        inp = Input(req.chunks)
    env = wsgi_environ(
        req, inp, send_trailers=mon.send_trailers if trailers_ext else None, **kw
    )
    out = WRun(mon, inp=inp)
    it = None
    try:
        it = app(env, mon.start_response)
        n = 0
        for b in it:
            mon.on_chunk(b)
            n += 1
            if chunk_limit is not None and n >= chunk_limit:
                break
    except catch as e:
        out.exc = e
    finally:
        close = getattr(it, "close", None)
        if close is not None:
            try:
                close()
            except catch as e:
                out.exc = out.exc or e
    mon.finished = True
    out.errors = env["wsgi.errors"].getvalue()
    return out


# ---------------------------------------------------------------------------
# Clients


def req_from_http(request, chunks) -> Req:
    u = urlsplit(request.url)
    headers = [(k, v) for k, v in request.headers.items()]
    if not any(k == "host" for k, _ in headers):
        headers.append(("host", u.netloc))
    return Req(request.method, unquote(u.path) or "/", u.query, headers, chunks)


def rechunked(chunks, how):
    """The same bytes: None as sent, 'one' chunk, single 'bytes', or 'shift'ed by two bytes."""
    if how is None:
        return chunks
    data = b"".join(chunks)
    if how == "one":
        return [data] if data else []
    if how == "bytes":
        return [data[i:i + 1] for i in range(len(data))]
    cuts, n = [], 0
    for c in chunks:
        n += len(c)
        cuts.append(max(n - 2, 0))
    cuts = [0, *cuts, len(data)]
    return [data[a:b] for a, b in zip(cuts, cuts[1:]) if b > a]


def _client_view(resp: Resp, te: bool) -> tuple[HTTPHeaders, list[bytes], list]:
    """What an HTTP client library hands over: unary bodies are decompressed."""
    enc = resp.get("content-encoding", "identity")
    chunks = list(resp.chunks)
    if enc in ("br", "gzip", "zstd"):
        try:
            chunks = [wire.decompress(enc, b"".join(chunks))]
        except wire.WireError:
            pass
    return HTTPHeaders([(k, v) for k, v in resp.headers]), chunks, resp.trailers or []


class AsyncLink:
    """Transport: gathers the request, asks `serve(req)` (may be a coroutine function),
    replays the response chunk by chunk."""

    def __init__(self, serve, rechunk=None):
        self.serve = serve
        self.rechunk = rechunk
        self.requests: list[Req] = []

    async def execute(self, request):
        if isinstance(request.content, bytes):
            chunks = [request.content]
        else:
            chunks = []
            async for c in request.content:
                chunks.append(bytes(c))
        req = req_from_http(request, chunks)
        self.requests.append(req)
        resp = self.serve(req)
        if asyncio.iscoroutine(resp):
            resp = await resp
        te = any(k == "te" for k, _ in req.headers)
        headers, chunks, trailers = _client_view(resp, te)
        chunks = rechunked(chunks, self.rechunk)
        tr = HTTPHeaders()

        async def content():
            for c in chunks:
                yield c
            for k, v in trailers:
                tr.add(k, v)

        return Response(status=resp.status, headers=headers, content=content(), trailers=tr)


class SyncLink:
    def __init__(self, serve, rechunk=None):
        self.serve = serve
        self.rechunk = rechunk
        self.requests: list[Req] = []

    def execute_sync(self, request):
        if isinstance(request.content, bytes):
            chunks = [request.content]
        else:
            chunks = [bytes(c) for c in request.content]
        req = req_from_http(request, chunks)
        self.requests.append(req)
        resp = self.serve(req)
        headers, chunks, trailers = _client_view(resp, True)
        chunks = rechunked(chunks, self.rechunk)
        tr = HTTPHeaders()

        def content():
            for c in chunks:
                yield c
            for k, v in trailers:
                tr.add(k, v)

        return SyncResponse(status=resp.status, headers=headers, content=content(), trailers=tr)


def serve_asgi_async(app, runs=None, **kw):
    async def serve(req):
        r = await asgi_plain(app, req, **kw)
        if runs is not None:
            runs.append(r)
        return _usable(r)

    return serve


def serve_asgi_sync(app, runs=None, **kw):
    def serve(req):
        r = asgi_sync(app, req, **kw)
        if runs is not None:
            runs.append(r)
        return _usable(r)

    return serve


def serve_wsgi(app, runs=None, **kw):
    def serve(req):
        r = wsgi_plain(app, req, **kw)
        if runs is not None:
            runs.append(r)
        return _usable(r)

    return serve


def _usable(r) -> Resp:
    """A server that got nothing from the app answers 500."""
    if r.resp.status == 0:
        return Resp(500, [("content-type", "text/plain")], [b"boom"], None)
    return r.resp


def make_client(sync: bool, transport, proto="connect", codec_name="proto", lib="py",
                address="http://example.test", **kw):
    kw.setdefault("codec", codec(codec_name, lib))
    if sync:
        return ConnectClientSync(
            address, protocol=PROTO_TYPE[proto],
            http_client=SyncClient(transport=transport), **kw)
    return ConnectClient(
        address, protocol=PROTO_TYPE[proto],
        http_client=HTTPClient(transport=transport), **kw)


@dataclass
class Outcome:
    msgs: list[str] = field(default_factory=list)
    error: Err | None = None
    raised: BaseException | None = None
    headers: list[tuple[str, str]] = field(default_factory=list)
    trailers: list[tuple[str, str]] = field(default_factory=list)

    def short(self) -> str:
        e = self.error.code if self.error else (
            type(self.raised).__name__ if self.raised else "ok")
        return f"{len(self.msgs)} msgs, {e}"


def err_of(e: ConnectError) -> Err:
    return Err(e.code.value, e.message, [(d.type_name, bytes(d.message_bytes)) for d in e.details])


async def acall(client, kind, msgs, *, mi=None, headers=None, timeout_ms=None, use_get=False,
                lib="py", req_iter=None, on_msg=None) -> Outcome:
    out = Outcome()
    mi = mi or minfo(kind, lib=lib)

    async def it():
        for m in msgs:
            yield M(m, lib)

    with ResponseMetadata() as md:
        try:
            if kind == "unary":
                r = await client.execute_unary(
                    request=M(msgs[0], lib), method=mi, headers=headers,
                    timeout_ms=timeout_ms, use_get=use_get)
                out.msgs.append(r.value)
            elif kind == "client_stream":
                r = await client.execute_client_stream(
                    request=req_iter or it(), method=mi, headers=headers, timeout_ms=timeout_ms)
                out.msgs.append(r.value)
            elif kind == "server_stream":
                async for r in client.execute_server_stream(
                    request=M(msgs[0], lib), method=mi, headers=headers, timeout_ms=timeout_ms):
                    out.msgs.append(r.value)
                    if on_msg:
                        on_msg(r.value)
            else:
                async for r in client.execute_bidi_stream(
                    request=req_iter or it(), method=mi, headers=headers, timeout_ms=timeout_ms):
                    out.msgs.append(r.value)
                    if on_msg:
                        on_msg(r.value)
        except ConnectError as e:
            out.error = err_of(e)
            out.raised = e
        except asyncio.CancelledError as e:
            out.raised = e
            raise
        except Exception as e:
            out.raised = e
        out.headers = list(md.headers.allitems())
        out.trailers = list(md.trailers.allitems())
    return out


def scall(client, kind, msgs, *, mi=None, headers=None, timeout_ms=None, use_get=False,
          lib="py", req_iter=None, on_msg=None) -> Outcome:
    out = Outcome()
    mi = mi or minfo(kind, lib=lib)
    it = req_iter if req_iter is not None else iter([M(m, lib) for m in msgs])
    with ResponseMetadata() as md:
        try:
            if kind == "unary":
                r = client.execute_unary(
                    request=M(msgs[0], lib), method=mi, headers=headers,
                    timeout_ms=timeout_ms, use_get=use_get)
                out.msgs.append(r.value)
            elif kind == "client_stream":
                r = client.execute_client_stream(
                    request=it, method=mi, headers=headers, timeout_ms=timeout_ms)
                out.msgs.append(r.value)
            elif kind == "server_stream":
                for r in client.execute_server_stream(
                    request=M(msgs[0], lib), method=mi, headers=headers, timeout_ms=timeout_ms):
                    out.msgs.append(r.value)
                    if on_msg:
                        on_msg(r.value)
            else:
                for r in client.execute_bidi_stream(
                    request=it, method=mi, headers=headers, timeout_ms=timeout_ms):
                    out.msgs.append(r.value)
                    if on_msg:
                        on_msg(r.value)
        except ConnectError as e:
            out.error = err_of(e)
            out.raised = e
        except Exception as e:
            out.raised = e
        out.headers = list(md.headers.allitems())
        out.trailers = list(md.trailers.allitems())
    return out


def call_with(client_io: str, serve, kind, msgs, *, proto="connect", codec_name="proto",
              lib="py", client_kw=None, runs=None, rechunk=None, **call_kw):
    """One RPC by an async or sync client over a buffered link to `serve`.

    serve: ('asgi', app) | ('wsgi', app) | ('peer', fn(req)->Resp)
    Returns (Outcome, transport, app runs)."""
    stype, target = serve
    runs = runs if runs is not None else []
    if client_io == "async":
        if stype == "asgi":
            fn = serve_asgi_async(target, runs)
        elif stype == "wsgi":
            fn = serve_wsgi(target, runs)
        else:
            fn = target
        tr = AsyncLink(fn, rechunk)
        client = make_client(False, tr, proto, codec_name, lib, **(client_kw or {}))

        async def main(_env):
            return await acall(client, kind, msgs, lib=lib, **call_kw)

        out, info = run(None, main)
        return out, tr, runs
    if stype == "asgi":
        fn = serve_asgi_sync(target, runs)
    elif stype == "wsgi":
        fn = serve_wsgi(target, runs)
    else:
        fn = target
    tr = SyncLink(fn, rechunk)
    client = make_client(True, tr, proto, codec_name, lib, **(client_kw or {}))
    out = scall(client, kind, msgs, lib=lib, **call_kw)
    return out, tr, runs


def expect(cond, key: str, msg) -> None:
    if not cond:
        raise Violation(key, str(msg() if callable(msg) else msg))


# ---------------------------------------------------------------------------
# Gated drivers: chunk k+1 is only released once the program is quiescent


class GatedServer:
    """ASGI peer whose inputs are environment actions. With a Chooser-less Env the
    actions happen in order at quiescence; with a Chooser their timing is explored."""

    def __init__(self, env: Env, req: Req, ch=None, *, disconnect=False, gate_send=False,
                 send_after_disconnect="ignore", on_release=None, tail_empty=False,
                 disconnect_after_complete=False):
        self.env = env
        self.ch = ch
        self.mon = ASGIMonitor(ch)
        self.req = req
        self.chunks = list(req.chunks) or [b""]
        self.tail_empty = tail_empty
        self.next = 0  # next chunk index to release
        self.queue: list[dict] = []
        self.waiter: asyncio.Future | None = None
        self.disconnected = False
        self.sends_after_disconnect = 0
        self.body_after_disconnect = 0
        self.gate_send = gate_send
        self.mode = send_after_disconnect
        self.on_release = on_release
        self.nsend = 0
        self.disc_after_complete = disconnect_after_complete
        self._offer()
        if disconnect:
            env.offer("disconnect", self._disc)

    def _offer(self):
        total = len(self.chunks) + (1 if self.tail_empty else 0)
        if self.next < total:
            self.env.offer(f"chunk{self.next}", self._release)

    def _release(self):
        if self.on_release is not None:
            self.on_release(self.next)
        i = self.next
        self.next += 1
        total = len(self.chunks) + (1 if self.tail_empty else 0)
        body = self.chunks[i] if i < len(self.chunks) else b""
        self.queue.append({"type": "http.request", "body": body, "more_body": i + 1 < total})
        self._wake()
        self._offer()

    def _disc(self):
        self.disconnected = True
        self.env.withdraw(f"chunk{self.next}")
        self._wake()

    def _wake(self):
        if self.waiter is not None and not self.waiter.done():
            self.waiter.set_result(None)

    async def receive(self):
        while True:
            if self.queue and not self.disconnected:
                m = self.queue.pop(0)
                if self.ch is not None:
                    self.ch.ev("recv", len(m["body"]), m["more_body"])
                return m
            if self.disconnected or (self.disc_after_complete and self.mon.complete):
                if self.ch is not None:
                    self.ch.ev("recv disconnect")
                return {"type": "http.disconnect"}
            if self.waiter is None or self.waiter.done():
                self.waiter = asyncio.get_running_loop().create_future()
            # several readers may wait; each gets its own view of the wakeup
            await asyncio.shield(self.waiter)

    async def send(self, m):
        if self.disconnected:
            self.sends_after_disconnect += 1
            if m["type"] == "http.response.body" and m.get("more_body"):
                self.body_after_disconnect += 1
            if self.mode == "raise":
                raise OSError("client disconnected")
        self.mon.on_send(m)
        if self.gate_send and not self.disconnected:
            f = asyncio.get_running_loop().create_future()
            name = f"drain{self.nsend}"
            self.nsend += 1
            self.env.offer(name, lambda: f.done() or f.set_result(None))
            try:
                await f
            finally:
                self.env.withdraw(name)


class GatedContent:
    """Async response content whose chunks are environment actions."""

    def __init__(self, env: Env, chunks, ch=None, *, on_release=None, error=None,
                 trailers=None, fill=(), stall=False):
        self.env = env
        self.chunks = list(chunks)
        self.next = 0
        self.ready: list[bytes] = []
        self.waiter = None
        self.on_release = on_release
        self.error = error  # raised after the last chunk instead of EOF
        self.trailers = trailers
        self.fill = list(fill)
        self.done = False
        self.stall = stall  # never ends
        self.closed = False
        self.ch = ch
        self._offer()

    def _offer(self):
        if self.next < len(self.chunks):
            self.env.offer(f"rchunk{self.next}", self._release)
        elif not self.done and not self.stall:
            self.env.offer("rend", self._end)

    def _release(self):
        if self.on_release is not None:
            self.on_release(self.next)
        self.ready.append(self.chunks[self.next])
        self.next += 1
        self._wake()
        self._offer()

    def _end(self):
        if self.on_release is not None:
            self.on_release(self.next)
        self.done = True
        self._wake()

    def _wake(self):
        if self.waiter is not None and not self.waiter.done():
            self.waiter.set_result(None)

    def __aiter__(self):
        return self

    async def __anext__(self):
        while True:
            if self.ready:
                return self.ready.pop(0)
            if self.done:
                if self.trailers is not None:
                    for k, v in self.fill:
                        self.trailers.add(k, v)
                    self.fill = []
                if self.error is not None:
                    raise self.error
                raise StopAsyncIteration
            self.waiter = asyncio.get_running_loop().create_future()
            await self.waiter

    async def aclose(self):
        self.closed = True
        if self.ch is not None:
            self.ch.ev("content closed")
        for n in (f"rchunk{self.next}", "rend"):
            self.env.withdraw(n)
