"""Small in-process peers for the demonstrations: no network, no files."""
from __future__ import annotations

import asyncio
import io
import struct
import sys
from urllib.parse import unquote, urlsplit

from connectrpc.client import ConnectClient, ConnectClientSync, ResponseMetadata
from connectrpc.code import Code
from connectrpc.codec import proto_binary_codec, proto_json_codec
from connectrpc.compression.gzip import GzipCompression
from connectrpc.errors import ConnectError, ErrorDetail
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.protocol import ProtocolType
from connectrpc.request import Headers, RequestContext
from connectrpc.server import (
    ConnectASGIApplication,
    ConnectWSGIApplication,
    Endpoint,
    EndpointSync,
)
from protobuf.wkt import StringValue
from pyqwest import Client as HTTPClient
from pyqwest import Headers as HTTPHeaders
from pyqwest import Response, SyncClient, SyncResponse

SVC = "demo.v1.Svc"
KINDS = ("unary", "client_stream", "server_stream", "bidi_stream")


def S(v=""):
    return StringValue(value=v)


def method(name="M", idem=IdempotencyLevel.UNKNOWN):
    return MethodInfo(name=name, service_name=SVC, input=StringValue, output=StringValue,
                      idempotency_level=idem)


class _A(ConnectASGIApplication):
    path = f"/{SVC}"


class _W(ConnectWSGIApplication):
    path = f"/{SVC}"


def asgi(fn, kind="unary", *, idem=IdempotencyLevel.UNKNOWN, **kw):
    return _A(service=object(), endpoints=lambda _s: {
        f"/{SVC}/M": getattr(Endpoint, kind)(method=method(idem=idem), function=fn)}, **kw)


def wsgi(fn, kind="unary", *, idem=IdempotencyLevel.UNKNOWN, **kw):
    return _W(endpoints={
        f"/{SVC}/M": getattr(EndpointSync, kind)(method=method(idem=idem), function=fn)}, **kw)


def env(data, flags=0):
    return struct.pack(">BI", flags, len(data)) + data


def envelopes(body):
    out = []
    while body:
        flags, n = struct.unpack(">BI", body[:5])
        assert len(body) >= 5 + n, "truncated envelope"
        out.append((flags, body[5:5 + n]))
        body = body[5 + n:]
    return out


def scope(path=f"/{SVC}/M", headers=(), http_method="POST", query=b"", **kw):
    s = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "2", "method": http_method,
         "scheme": "http", "path": path, "raw_path": path.encode(), "query_string": query,
         "root_path": "", "headers": [(k.encode(), v.encode()) for k, v in headers],
         "client": ("127.0.0.1", 9), "server": ("127.0.0.1", 80),
         "extensions": {"http.response.trailers": {}}}
    s.update(kw)
    return s


async def run_asgi(app, sc, chunks=(b"",), *, then=None, timeout=20):
    """The events the application sent. `then`: events received after the body."""
    chunks = list(chunks)
    events = [{"type": "http.request", "body": c, "more_body": i + 1 < len(chunks)}
              for i, c in enumerate(chunks)]
    if then is not None:
        if events:
            events[-1]["more_body"] = True
        events += then
    sent = []

    async def receive():
        if events:
            return events.pop(0)
        await asyncio.Event().wait()

    async def send(m):
        sent.append(m)

    try:
        await asyncio.wait_for(app(sc, receive, send), timeout)
    except Exception as e:
        if isinstance(e, (TimeoutError, asyncio.TimeoutError)):
            raise
        sent.append({"type": "raised", "error": e})
    return sent


class R:
    def __init__(self, status, headers, chunks, trailers=None, log=""):
        self.status, self.headers, self.chunks = status, headers, chunks
        self.trailers, self.log = trailers, log

    @property
    def body(self):
        return b"".join(self.chunks)

    def get(self, name):
        return dict(self.headers).get(name)


def asgi_result(sent):
    status, headers, chunks, trailers = 0, [], [], None
    for m in sent:
        if m["type"] == "http.response.start":
            assert not status, "started twice"
            status = m["status"]
            headers = [(k.decode(), v.decode()) for k, v in m["headers"]]
        elif m["type"] == "http.response.body":
            chunks.append(m.get("body", b""))
        elif m["type"] == "http.response.trailers":
            trailers = [(k.decode(), v.decode()) for k, v in m["headers"]]
    return R(status, headers, chunks, trailers)


def environ(path=f"/{SVC}/M", headers=(), http_method="POST", query="", body=b"", inp=None,
            length=True, **kw):
    e = {"REQUEST_METHOD": http_method, "PATH_INFO": path, "SCRIPT_NAME": "",
         "QUERY_STRING": query, "SERVER_PROTOCOL": "HTTP/2", "wsgi.url_scheme": "http",
         "wsgi.input": inp or io.BytesIO(body), "wsgi.errors": io.StringIO()}
    for k, v in headers:
        if k in ("content-type", "content-length"):
            e[k.upper().replace("-", "_")] = v
        else:
            e["HTTP_" + k.upper().replace("-", "_")] = v
    if length and http_method == "POST":
        e.setdefault("CONTENT_LENGTH", str(len(body)))
    e.update(kw)
    return e


def run_wsgi(app, e):
    starts, trailers = [], []

    def start_response(status, headers, exc_info=None):
        starts.append((int(status.split()[0]), [(k.lower(), v) for k, v in headers]))

    e["wsgi.ext.http.send_trailers"] = trailers.append
    chunks = []
    out = app(e, start_response)
    try:
        chunks.extend(out)
    finally:
        if hasattr(out, "close"):
            out.close()
    assert len(starts) == 1, f"start_response called {len(starts)} times"
    assert len(trailers) <= 1, "trailers sent twice"
    return R(*starts[0], chunks, trailers[0] if trailers else None, e["wsgi.errors"].getvalue())


def _parts(request, chunks):
    u = urlsplit(request.url)
    headers = [(k, v) for k, v in request.headers.items()]
    headers.append(("host", u.netloc))
    return unquote(u.path), headers, u.query, b"".join(chunks)


def _decoded(r):
    import gzip
    enc = r.get("content-encoding")
    return [gzip.decompress(r.body)] if enc == "gzip" and r.body else list(r.chunks)


class AsyncTransport:
    """Hands requests to serve(request, body) -> R; replays the response."""

    def __init__(self, serve):
        self.serve, self.requests = serve, []

    async def execute(self, request):
        self.requests.append(request)
        if isinstance(request.content, bytes):
            body = [request.content]
        else:
            body = [bytes(c) async for c in request.content]
        r = self.serve(request, body)
        if asyncio.iscoroutine(r):
            r = await r
        tr = HTTPHeaders()

        async def content():
            for c in _decoded(r):
                if isinstance(c, Exception):
                    raise c
                yield c
            for k, v in r.trailers or ():
                tr.add(k, v)

        return Response(status=r.status, headers=HTTPHeaders(r.headers), content=content(),
                        trailers=tr)


class SyncTransport:
    def __init__(self, serve):
        self.serve, self.requests = serve, []

    def execute_sync(self, request):
        self.requests.append(request)
        if isinstance(request.content, bytes):
            body = [request.content]
        else:
            body = [bytes(c) for c in request.content]
        r = self.serve(request, body)
        tr = HTTPHeaders()

        def content():
            for c in _decoded(r):
                if isinstance(c, Exception):
                    raise c
                yield c
            for k, v in r.trailers or ():
                tr.add(k, v)

        return SyncResponse(status=r.status, headers=HTTPHeaders(r.headers), content=content(),
                            trailers=tr)


def to_asgi(app):
    async def serve(request, body):
        path, headers, query, data = _parts(request, body)
        return asgi_result(await run_asgi(app, scope(path, headers, request.method,
                                                     query.encode()), [data]))
    return serve


def to_wsgi(app):
    def serve(request, body):
        path, headers, query, data = _parts(request, body)
        return run_wsgi(app, environ(path, headers, request.method, query, data))
    return serve


def aclient(serve, proto=ProtocolType.CONNECT, **kw):
    return ConnectClient("http://demo.test", protocol=proto,
                         http_client=HTTPClient(AsyncTransport(serve)), **kw)


def sclient(serve, proto=ProtocolType.CONNECT, **kw):
    return ConnectClientSync("http://demo.test", protocol=proto,
                             http_client=SyncClient(SyncTransport(serve)), **kw)


def generate(fdp, param=""):
    """The modules (messages, services) generated for a file, imported from memory."""
    import protoc_gen_connectrpc
    import protoc_gen_py
    import types
    from google.protobuf.compiler import plugin_pb2 as P

    class Std:
        def __init__(self, b):
            self.buffer = b

        def write(self, *_):
            pass

    root = types.ModuleType("demoroot")
    root.__path__ = []
    sys.modules["demoroot"] = root
    mods = []
    for plugin, par in ((protoc_gen_py.main, ""), (protoc_gen_connectrpc.main, param)):
        req = P.CodeGeneratorRequest(parameter=par, file_to_generate=[fdp.name], proto_file=[fdp])
        out = io.BytesIO()
        saved = sys.stdin, sys.stdout, sys.argv
        sys.stdin, sys.stdout, sys.argv = Std(io.BytesIO(req.SerializeToString())), Std(out), ["p"]
        try:
            plugin()
        finally:
            sys.stdin, sys.stdout, sys.argv = saved
        r = P.CodeGeneratorResponse.FromString(out.getvalue())
        assert not r.error, r.error
        for f in r.file:
            if f.name.endswith("__init__.py"):
                continue
            name = "demoroot." + f.name.removesuffix(".py").replace("/", ".")
            m = types.ModuleType(name)
            m.__package__ = "demoroot"
            sys.modules[name] = m
            exec(compile(f.content, f.name, "exec"), m.__dict__)
            mods.append(m)
    return mods


def main(fn):
    """Runs fn (maybe a coroutine function); exit 1 with the reason if it fails."""
    try:
        r = fn()
        if asyncio.iscoroutine(r):
            asyncio.run(r)
    except BaseException as e:
        import traceback
        traceback.print_exc()
        print("BROKEN:", type(e).__name__, e)
        sys.exit(1)
    print("ok")
