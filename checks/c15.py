"""C15: sync and async, protocols, codecs, message libraries and independent peers agree."""
import math

from google.protobuf import any_pb2, api_pb2, descriptor_pb2, duration_pb2, empty_pb2, field_mask_pb2, source_context_pb2, struct_pb2, timestamp_pb2, type_pb2, wrappers_pb2
import protobuf.wkt as pywkt

from protobuf import Registry

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire
from mc.vloop import run

ATOMS = ["", "a", "é€𝄞\u0000\n\"\\", "x" * 300]
STREAMS = [[], ["a"], ["", "b"], ["x" * 300, "a", ""], ["", "", ""]]
EDGE = [("x-ascii", "v 1"), ("x-ascii", "v2"), ("x-b-bin", "AAEC")]


class Plain:
    """An iterator which is no generator: it has nothing but what the protocol requires."""

    def __init__(self, it):
        self._it = it

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)


class APlain:
    def __init__(self, it):
        self._it = it

    def __aiter__(self):
        return self

    async def __anext__(self):
        return await anext(self._it)


class Prog:
    """What one call does: request messages, number of response messages, outcome."""

    def __init__(self, reqs, nres, outcome, style):
        self.reqs, self.nres, self.outcome, self.style = reqs, nres, outcome, style

    def expect(self, kind):
        if kind in ("unary", "client_stream"):
            n = 1
        else:
            n = self.nres
        res = [reply(i, self.reqs) for i in range(n)]
        if self.style == "echo":
            res = [f"<{r}>" for r in self.reqs]
        if self.outcome == "error":
            if kind in ("unary", "client_stream"):
                res = []
            return res, Err("data_loss", "boom é%\n", [])
        return res, None

    def __repr__(self):
        return f"reqs={[r[:8] for r in self.reqs]} nres={self.nres} {self.outcome} {self.style}"


def reply(i, reqs):
    return f"{i}:{len(reqs)}:" + "|".join(reqs)


def choose_prog(ch, kind, first):
    if not first:
        reqs = ["second"] if kind in ("unary", "server_stream") else [["second"], []][ch.choose(2, "second requests")]
        return Prog(reqs, 1, ["ok", "error"][ch.choose(2, "second outcome")], "all")
    if kind in ("unary", "server_stream"):
        reqs = [ATOMS[ch.choose(len(ATOMS), "request")]]
    else:
        reqs = STREAMS[ch.choose(len(STREAMS), "requests")]
    style = "all"
    nres = 1
    if kind == "bidi":
        style = ["all", "echo"][ch.choose(2, "style")]
    if kind in ("server_stream", "bidi") and style == "all":
        nres = ch.choose(4, "responses")
    return Prog(reqs, nres, ["ok", "error"][ch.choose(2, "outcome")], style)


def make_handler(w, kind, sync, lib):
    def seen(prog, got, ctx):
        w.append((got, [(k, v) for k, v in ((k, x) for k, v in ctx.request_headers.allitems() for x in v.split(", " if 0 else ",")) if k.startswith("x-")]))
        ctx.response_headers.add("x-res", "1")
        ctx.response_headers.add("x-res", "2")
        ctx.response_trailers.add("x-trail", "t 1")

    def boom():
        return ConnectError(Code.DATA_LOSS, "boom é%\n")

    if sync:
        def single(r, ctx):
            p = w.prog
            got = [x.value for x in r] if kind == "client_stream" else [r.value]
            seen(p, got, ctx)
            if p.outcome == "error":
                raise boom()
            return M(reply(0, got), lib)

        def many(r, ctx):
            p = w.prog
            got = []
            if p.style == "echo":
                seen(p, got, ctx)
                for x in r:
                    got.append(x.value)
                    yield M(f"<{x.value}>", lib)
            else:
                got += [x.value for x in r] if kind == "bidi" else [r.value]
                seen(p, got, ctx)
                for i in range(p.nres):
                    yield M(reply(i, got), lib)
            if p.outcome == "error":
                raise boom()
    else:
        async def single(r, ctx):
            p = w.prog
            got = [x.value async for x in r] if kind == "client_stream" else [r.value]
            seen(p, got, ctx)
            if p.outcome == "error":
                raise boom()
            return M(reply(0, got), lib)

        async def many(r, ctx):
            p = w.prog
            got = []
            if p.style == "echo":
                seen(p, got, ctx)
                async for x in r:
                    got.append(x.value)
                    yield M(f"<{x.value}>", lib)
            else:
                got += [x.value async for x in r] if kind == "bidi" else [r.value]
                seen(p, got, ctx)
                for i in range(p.nres):
                    yield M(reply(i, got), lib)
            if p.outcome == "error":
                raise boom()
    return single if kind in ("unary", "client_stream") else many


class Seen(list):
    prog = None


def user(items):
    """Sorted (name, value) pairs of the metadata this check sets; servers may join values with a comma"""
    return sorted((k.lower(), x.strip()) for k, v in items for x in v.split(",") if k.lower().startswith("x-"))


def peer_server(w, proto, kind, codec_name):
    def serve(req):
        p = w.prog
        msgs, hd, comp = wire.parse_request(proto, kind, codec_name, req)
        expect(req.path == mpath(kind), "path", lambda: req.path)
        w.append((msgs, [(k, v) for k, v in req.headers if k.startswith("x-")]))
        res, err = p.expect(kind)
        acc = wire.accept_header(proto, kind)
        accepted = [x.strip() for x in hd.get(acc, ["identity"])[0].split(",")]
        c = p.comp if p.comp in accepted else "identity"
        r = wire.build_response(proto, kind, codec_name, res, error=err, comp=c, headers=[("x-res", "1"), ("x-res", "2")], trailers=[("x-trail", "t 1")])
        if p.bare:
            r.headers = bare_type(r.headers)
        return r
    return serve


def bare_type(headers):
    """application/grpc means application/grpc+proto"""
    return [(k, v.removesuffix("+proto") if k == "content-type" else v) for k, v in headers]


# messages whose encoded size lies on either side of what buffers usually hold
SIZES = [b + d for b in (4096, 8192, 16384, 65536, 1 << 17) for d in range(-13, 3)] + [200_000, 1_000_000]


def size_body(ch, p):
    _, cio, sio, proto, kind = p
    n = ch.pick(SIZES, "size")
    comp = ch.pick(["identity", "gzip"], "compression")
    v = "".join(f"{i:07d}" for i in range(n // 7 + 1))[:n]  # (every part is different)
    many_req, many_res = kind in ("client_stream", "bidi"), kind in ("server_stream", "bidi")
    reqs = [v, "s", v] if many_req else [v]
    want = [v, "t", v] if many_res else [v]
    seen = []

    def answers():
        return [M(x) for x in want]

    if sio == "wsgi":
        def h(r, ctx):
            seen.extend(m.value for m in (r if many_req else [r]))
            return iter(answers()) if many_res else answers()[0]
        app = wsgi_app([(minfo(kind), kind, h)], compressions=[compression("gzip")])
    else:
        async def take(r):
            seen.extend([m.value async for m in r] if many_req else [r.value])

        async def one(r, ctx):
            await take(r)
            return answers()[0]

        async def many(r, ctx):
            await take(r)
            for m in answers():
                yield m
        app = asgi_app([(minfo(kind), kind, many if many_res else one)], compressions=[compression("gzip")])
    if cio == "peer":
        req = wire.build_request(proto, kind, "proto", reqs, path=mpath(kind), comp=comp, accept=comp if comp != "identity" else None)
        if sio == "wsgi":  # a server that gives what was asked for, and the length
            req.headers.append(("content-length", str(len(req.body))))
        r = (wsgi_plain if sio == "wsgi" else asgi_sync)(app, req)
        g = wire.parse_response(proto, kind, "proto", r.resp)
        msgs, err = g.msgs, g.error
    else:
        out, _, _ = call_with(cio, (sio, app), kind, reqs, proto=proto, client_kw={
            "send_compression": None if comp == "identity" else compression("gzip"), "accept_compression": [compression("gzip")] if comp != "identity" else []})
        msgs, err = out.msgs, out.raised
    ch.ev(n, comp, len(seen), len(msgs))
    desc = lambda: f"{p} size={n} {comp}: requests {[len(x) for x in seen]} responses {[len(x) for x in msgs]} {err!r}"
    expect(err is None, "outcome", desc)
    expect(seen == reqs, "requests", desc)
    expect(msgs == want, "responses", desc)
    return "size"


def body(ch, p):
    if p[0] == "size":
        return size_body(ch, p)
    if p[0] == "types":
        return types_body(ch, p)
    if p[0] == "registry":
        return registry_body(ch, p)
    _, cio, sio, proto, codec_name, clib, slib, kind = p
    progs = [choose_prog(ch, kind, True)]
    if ch.choose(2, "second call", [0, 1]):
        progs.append(choose_prog(ch, kind, False))
    comp = ["identity", "gzip", "br"][ch.choose(3, "compression", [0, 1, 1])]
    # a peer that speaks gRPC with protobuf need not name the codec
    bare = "peer" in (cio, sio) and proto != "connect" and codec_name == "proto" and bool(ch.choose(2, "bare content type", [0, 1]))
    # iterators of the application are not always generators
    plain = kind != "unary" and bool(ch.choose(2, "plain iterators", [0, 1]))
    w = Seen()
    res = []
    hdrs = None
    kw = {}
    if sio != "peer":
        h = make_handler(w, kind, sio == "wsgi", slib)
        if plain and kind in ("server_stream", "bidi"):
            def h(r, ctx, h=h):
                return (Plain if sio == "wsgi" else APlain)(h(r, ctx))
        kw["codecs"] = codecs(slib, codec_name)
        app = (wsgi_app if sio == "wsgi" else asgi_app)([(minfo(kind, lib=slib), kind, h)], compressions=[compression("gzip"), compression("br")], **kw)
    if cio == "peer":
        for pr in progs:
            w.prog = pr
            req = wire.build_request(proto, kind, codec_name, pr.reqs, path=mpath(kind), comp=comp, accept=comp if comp != "identity" else None, headers=EDGE)
            if bare:
                req.headers = bare_type(req.headers)
            r = (wsgi_plain if sio == "wsgi" else asgi_sync)(app, req)
            expect(not r.mon.problems, "malformed-response", lambda: str(r.mon.problems))
            resp = r.resp
            if bare:
                ok = ("application/grpc-web" if proto == "grpcweb" else "application/grpc",)
                ct = resp.get("content-type", "")
                expect(ct.removesuffix("+proto") in ok, "content-type", lambda: f"{p} {ct}")
                resp.headers = [(k, ct.removesuffix("+proto") + "+proto" if k == "content-type" else v) for k, v in resp.headers]
            g = wire.parse_response(proto, kind, codec_name, resp)
            res.append((g.msgs, g.error, g.headers, g.trailers))
            expect(g.comp == comp or g.error is not None, "compression", lambda: f"{p} {progs} {comp} {g.comp}")
    else:
        from connectrpc.request import Headers
        hdrs = Headers()
        for k, v in EDGE:
            hdrs.add(k, v)
        ckw = {"send_compression": None if comp == "identity" else compression(comp)}
        if comp != "identity":
            ckw["accept_compression"] = [compression(comp)]
        fn = {"asgi": serve_asgi_async if cio == "async" else serve_asgi_sync, "wsgi": serve_wsgi}[sio](app, []) if sio != "peer" else peer_server(w, proto, kind, codec_name)
        link = (AsyncLink if cio == "async" else SyncLink)(fn)
        client = make_client(cio == "sync", link, proto, codec_name, clib, **ckw)
        outs = []
        if cio == "async":
            async def main(_env):
                for pr in progs:
                    pr.comp, pr.bare = comp, bare
                    w.prog = pr
                    async def gen():
                        for m in pr.reqs:
                            yield M(m, clib)
                    outs.append(await acall(client, kind, pr.reqs, lib=clib, headers=hdrs, req_iter=APlain(gen()) if plain else None))
            run(None, main)
        else:
            for pr in progs:
                pr.comp, pr.bare = comp, bare
                w.prog = pr
                outs.append(scall(client, kind, pr.reqs, lib=clib, headers=hdrs, req_iter=Plain(iter([M(m, clib) for m in pr.reqs])) if plain else None))
        for o in outs:
            expect(o.raised is None or isinstance(o.raised, ConnectError), "raw-exception", lambda: f"{p} {progs} {o}")
            res.append((o.msgs, o.error, o.headers, o.trailers))
    desc = lambda: f"{p} {progs} comp={comp} got={res} handler={list(w)}"
    expect(len(w) == len(progs), "handler-runs", desc)
    for pr, (msgs, err, hs, ts), (seen, shs) in zip(progs, res, w):
        wm, we = pr.expect(kind)
        ch.ev(len(seen), len(msgs), err.code if err else "ok")
        expect(seen == pr.reqs, "requests", desc)
        expect(msgs == wm, "responses", desc)
        expect(err == we, "outcome", desc)
        expect(user(shs) == sorted(EDGE), "request-headers", desc)
        expect(user(hs) == [("x-res", "1"), ("x-res", "2")], "response-headers", desc)
        expect(user(ts) == [("x-trail", "t 1")], "response-trailers", desc)
    return f"{len(progs)} {progs[0].outcome}"


# --------------------------------------------------------------------------
# every kind of field, between the two message libraries


def typed():
    s = struct_pb2.Struct()
    s.update({"a": 1.5, "b": [None, True, "x", {"c": -0.0}], "": {}, "é": "\u0000"})
    fd = descriptor_pb2.FileDescriptorProto()
    duration_pb2.DESCRIPTOR.CopyToProto(fd)
    fd2 = descriptor_pb2.DescriptorProto()
    struct_pb2.Struct.DESCRIPTOR.CopyToProto(fd2)
    W = wrappers_pb2
    out = [timestamp_pb2.Timestamp(seconds=s_, nanos=n) for s_, n in ((0, 0), (253402300799, 999999999), (-62135596800, 0), (1, 1), (-1, 500000000))]
    out += [duration_pb2.Duration(seconds=s_, nanos=n) for s_, n in ((0, 0), (-1, -5), (315576000000, 999999999), (0, 1000))]
    out += [field_mask_pb2.FieldMask(paths=x) for x in ([], ["a"], ["a_b.c_d", "e"])]
    out += [s, struct_pb2.Struct(), struct_pb2.Value(null_value=0), struct_pb2.Value(number_value=1e300), struct_pb2.ListValue(), empty_pb2.Empty(), fd, fd2]
    out += [W.BytesValue(value=x) for x in (b"", b"\x00\xff\xfe", bytes(range(256)))]
    out += [W.Int64Value(value=x) for x in (0, 2**63 - 1, -2**63, 2**53 + 1)] + [W.UInt64Value(value=2**64 - 1), W.Int32Value(value=-2**31), W.UInt32Value(value=2**32 - 1)]
    out += [W.DoubleValue(value=x) for x in (0.0, -0.0, math.inf, -math.inf, math.nan, 5e-324, 1.7976931348623157e308, 0.1)] + [W.FloatValue(value=x) for x in (1.5, math.inf, 0.1)]
    out += [W.BoolValue(value=True), W.BoolValue(), W.StringValue(value="\U0010ffff\u2028\ufeff")]
    inner = [timestamp_pb2.Timestamp(seconds=5, nanos=1000), duration_pb2.Duration(seconds=-1, nanos=-5000), field_mask_pb2.FieldMask(paths=["a_b", "c"]), struct_pb2.Struct(),
             struct_pb2.Value(string_value="v"), struct_pb2.ListValue(values=[struct_pb2.Value(bool_value=True)]), empty_pb2.Empty(), fd, W.BytesValue(value=b"\x00\xff"),
             W.Int64Value(value=2**60), W.UInt64Value(value=1), W.Int32Value(value=-1), W.UInt32Value(value=1), W.DoubleValue(value=0.1), W.FloatValue(value=1.5), W.BoolValue(value=True),
             W.StringValue(value="é"), type_pb2.Type(name="T", fields=[type_pb2.Field(name="f", number=1)]), type_pb2.Enum(name="E"), api_pb2.Api(name="A", version="1"),
             source_context_pb2.SourceContext(file_name="f")]
    for x in inner:
        a = any_pb2.Any()
        a.Pack(x, deterministic=True)
        out.append(a)
    for _ in range(2):
        nested = any_pb2.Any()
        nested.Pack(a, deterministic=True)
        out.append(nested)
        a = nested
    out.append(any_pb2.Any())
    return out


TYPED = typed()
OWN = pywkt.CodeGeneratorRequest(parameter="é", compiler_version=pywkt.Version(major=3))  # in no default registry


def registry_body(ch, p):
    """A JSON codec of the application's own registry carries the messages of it."""
    _, cio, sio, proto, kind = p
    own = Registry(pywkt.plugin_pb.desc()) if ch.flag("only its own") else Registry(pywkt.plugin_pb.desc(), pywkt.wrappers_pb.desc())
    msg = pywkt.Any.pack(OWN)
    from connectrpc.method import MethodInfo as MI
    mi = MI(name=METHOD_NAME[kind], service_name=SERVICE, input=pywkt.Any, output=pywkt.Any, idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS)
    seen, got, err = [], [], []
    if sio == "wsgi":
        def single(r, ctx):
            seen.append(r)
            return msg

        def many(r, ctx):
            for x in r:
                seen.append(x)
                yield msg
    else:
        async def single(r, ctx):
            seen.append(r)
            return msg

        async def many(r, ctx):
            async for x in r:
                seen.append(x)
                yield msg
    app = (wsgi_app if sio == "wsgi" else asgi_app)([(mi, kind, many if kind == "bidi" else single)], codecs=[proto_json_codec(registry=own)])
    kw = {"use_get": True} if kind == "unary" and proto == "connect" and ch.flag("GET") else {}
    n = 1 if kind == "unary" else 2
    codec = proto_json_codec(own)
    address = "http://example.test"
    if cio == "async":
        async def main(_env):
            link = AsyncLink(serve_asgi_async(app, []) if sio == "asgi" else serve_wsgi(app, []))
            client = ConnectClient(address, protocol=PROTO_TYPE[proto], codec=codec, http_client=HTTPClient(transport=link))
            try:
                if kind == "unary":
                    got.append(await client.execute_unary(request=msg, method=mi, **kw))
                else:
                    async def it():
                        for _ in range(n):
                            yield msg
                    async for m in client.execute_bidi_stream(request=it(), method=mi):
                        got.append(m)
            except Exception as e:
                err.append(e)
        run(None, main)
    else:
        link = SyncLink(serve_asgi_sync(app, []) if sio == "asgi" else serve_wsgi(app, []))
        client = ConnectClientSync(address, protocol=PROTO_TYPE[proto], codec=codec, http_client=SyncClient(transport=link))
        try:
            if kind == "unary":
                got.append(client.execute_unary(request=msg, method=mi, **kw))
            else:
                for m in client.execute_bidi_stream(request=iter([msg] * n), method=mi):
                    got.append(m)
        except Exception as e:
            err.append(e)
    desc = lambda: f"{p} {kw} handler={seen} got={got} err={err}"
    ch.ev(len(got), bool(err))
    expect(not err, "failed", desc)
    expect(seen == [msg] * n, "requests", desc)
    expect(got == [msg] * n, "responses", desc)
    return "registry"


def types_body(ch, p):
    _, cio, sio, proto, codec_name, clib, slib, kind = p
    g = TYPED[ch.choose(len(TYPED), "message")]
    name = type(g).__name__
    data = g.SerializeToString(deterministic=True)
    pycls = getattr(pywkt, name)

    def cls(lib):
        return type(g) if lib == "google" else pycls

    def to_bytes(m):
        if hasattr(m, "SerializeToString"):
            return m.SerializeToString(deterministic=True)
        return type(g).FromString(m.to_binary()).SerializeToString(deterministic=True)

    def from_bytes(lib):
        return type(g).FromString(data) if lib == "google" else pycls.from_binary(data)

    seen = []

    def mi(lib):
        from connectrpc.method import MethodInfo as MI
        return MI(name=METHOD_NAME[kind], service_name=SERVICE, input=cls(lib), output=cls(lib), idempotency_level=IdempotencyLevel.UNKNOWN)

    if sio == "wsgi":
        def single(r, ctx):
            seen.append(to_bytes(r))
            return from_bytes(slib)

        def many(r, ctx):
            for x in r:
                seen.append(to_bytes(x))
                yield from_bytes(slib)
    else:
        async def single(r, ctx):
            seen.append(to_bytes(r))
            return from_bytes(slib)

        async def many(r, ctx):
            async for x in r:
                seen.append(to_bytes(x))
                yield from_bytes(slib)
    app = (wsgi_app if sio == "wsgi" else asgi_app)([(mi(slib), kind, many if kind == "bidi" else single)], codecs=codecs(slib))
    got = []
    err = []
    if cio == "async":
        async def main(_env):
            client = make_client(False, AsyncLink(serve_asgi_async(app, []) if sio == "asgi" else serve_wsgi(app, [])), proto, codec_name, clib)
            try:
                if kind == "unary":
                    got.append(to_bytes(await client.execute_unary(request=from_bytes(clib), method=mi(clib))))
                else:
                    async def it():
                        yield from_bytes(clib)
                        yield from_bytes(clib)
                    async for m in client.execute_bidi_stream(request=it(), method=mi(clib)):
                        got.append(to_bytes(m))
            except Exception as e:
                err.append(e)
        run(None, main)
    else:
        client = make_client(True, SyncLink(serve_asgi_sync(app, []) if sio == "asgi" else serve_wsgi(app, [])), proto, codec_name, clib)
        try:
            if kind == "unary":
                got.append(to_bytes(client.execute_unary(request=from_bytes(clib), method=mi(clib))))
            else:
                for m in client.execute_bidi_stream(request=iter([from_bytes(clib), from_bytes(clib)]), method=mi(clib)):
                    got.append(to_bytes(m))
        except Exception as e:
            err.append(e)
    n = 1 if kind == "unary" else 2
    ch.ev(name, len(got), bool(err))
    desc = lambda: f"{p} {name} {data[:80]!r} handler={[s[:80] for s in seen]} got={[x[:80] for x in got]} err={err}"
    expect(not err, "failed", desc)
    expect(seen == [data] * n, "requests", desc)
    expect(got == [data] * n, "responses", desc)
    return "ok"


def scenarios(tier):
    out = []
    libs = ("py", "google")
    for proto in PROTOS:
        for codec_name in ("proto", "json", "text"):
            for kind in KINDS:
                for cio in ("async", "sync", "peer"):
                    for sio in ("asgi", "wsgi", "peer"):
                        if cio == sio == "peer":
                            continue
                        for clib in libs if cio != "peer" else ("-",):
                            for slib in libs if sio != "peer" else ("-",):
                                if codec_name == "text" and "google" in (clib, slib):
                                    continue
                                out.append(("rpc", cio, sio, proto, codec_name, clib, slib, kind))
            for kind in KINDS if codec_name == "proto" else ():
                for cio in ("async", "sync", "peer"):
                    for sio in ("asgi", "wsgi"):
                        out.append(("size", cio, sio, proto, kind))
            for kind in ("unary", "bidi") if codec_name != "text" else ():
                for cio, sio in (("async", "asgi"), ("sync", "wsgi")):
                    for clib in libs:
                        for slib in libs:
                            out.append(("types", cio, sio, proto, codec_name, clib, slib, kind))
                    if codec_name == "json":
                        out.append(("registry", cio, sio, proto, kind))
    return out


CHECK = Check(
    id="C15", body=body, scenarios=scenarios, bound=lambda tier, p: 1 if tier == "quick" and p[0] != "size" else None,
    rule="the product client x server x protocol x codec x message library on each side x RPC kind (with an independent peer in either role) x "
         "request list x response count x outcome, one or two calls on one client, streams given as generators or as plain iterators, and every well-known message type between the libraries; messages of every size around the usual buffer sizes up to 1 MB",
    assumptions=("the well-known types stand for all message types",),
)
