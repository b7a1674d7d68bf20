"""C20: generated code matches its service definition."""
import asyncio
import inspect
import io as _io
import json
import re
import sys
import types

from google.protobuf import descriptor_pb2 as D
from google.protobuf import descriptor_pool, message_factory
from google.protobuf.compiler import plugin_pb2 as P

import protoc_gen_connectrpc
import protoc_gen_py

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire

IDEM = ["UNKNOWN", "NO_SIDE_EFFECTS", "IDEMPOTENT"]
LEVEL = {"UNKNOWN": IdempotencyLevel.UNKNOWN, "NO_SIDE_EFFECTS": IdempotencyLevel.NO_SIDE_EFFECTS,
         "IDEMPOTENT": IdempotencyLevel.IDEMPOTENT}
OPTS = ["", "io=async", "io=sync", "protobuf=google", "protobuf=google,io=async", "protobuf=google,io=sync", "protobuf=py"]


# -- definitions ------------------------------------------------------------
class Def:
    """A set of .proto files; every message is {string s = 1;}"""

    def __init__(self):
        self.files = {}

    def file(self, name, package):
        if name not in self.files:
            self.files[name] = D.FileDescriptorProto(name=name, package=package, syntax="proto3")
        return self.files[name]

    def message(self, fname, package, path):
        """path: 'Req' or 'Outer.Inner'; returns the full name"""
        f = self.file(fname, package)
        cont = f.message_type
        for part in path.split("."):
            m = next((x for x in cont if x.name == part), None)
            if m is None:
                m = cont.add(name=part)
                m.field.add(name="s", number=1, type=9, label=1, json_name="s")
            cont = m.nested_type
        return f".{package}.{path}" if package else f".{path}"

    def service(self, fname, name, methods):
        """methods: (name, kind, idem, input, output)"""
        f = self.files[fname]
        s = f.service.add(name=name)
        for n, kind, idem, i, o in methods:
            m = s.method.add(name=n, input_type=i, output_type=o,
                             client_streaming=kind in ("client_stream", "bidi"),
                             server_streaming=kind in ("server_stream", "bidi"))
            if idem != "UNKNOWN":
                m.options.idempotency_level = getattr(D.MethodOptions, idem)
            # what protoc does for imported types
            for t in (i, o):
                for other in list(self.files.values()):
                    pre = f".{other.package}." if other.package else "."
                    if other.name != fname and other.name not in f.dependency and t.startswith(pre) and any(
                        t[len(pre):].split(".")[0] == x.name for x in other.message_type
                    ):
                        f.dependency.append(other.name)
                if t.startswith(".google.protobuf.") and "google/protobuf/wrappers.proto" not in f.dependency:
                    f.dependency.append("google/protobuf/wrappers.proto")
        return s

    def ordered(self):
        out = []
        seen = set()

        def visit(n):
            if n in seen or n not in self.files:
                return
            seen.add(n)
            for d in self.files[n].dependency:
                visit(d)
            out.append(self.files[n])
        for n in self.files:
            visit(n)
        return out


def wkt_file():
    from google.protobuf import wrappers_pb2
    f = D.FileDescriptorProto()
    wrappers_pb2.DESCRIPTOR.CopyToProto(f)
    return f


class _Std:
    def __init__(self, b):
        self.buffer = b

    def write(self, *_):
        pass


def plugin(main, d, param):
    files = d.ordered()
    pre = [wkt_file()] if any("google/protobuf/wrappers.proto" in f.dependency for f in files) else []
    req = P.CodeGeneratorRequest(parameter=param, file_to_generate=[f.name for f in files], proto_file=pre + files)
    out = _io.BytesIO()
    saved = sys.stdin, sys.stdout, sys.argv
    sys.stdin, sys.stdout, sys.argv = _Std(_io.BytesIO(req.SerializeToString())), _Std(out), ["plugin"]
    try:
        main()
    finally:
        sys.stdin, sys.stdout, sys.argv = saved
    return P.CodeGeneratorResponse.FromString(out.getvalue())


class World:
    """The generated modules, importable by their names while the object is in use."""

    def __init__(self, d, param):
        self.d, self.param = d, param
        self.google = "protobuf=google" in param
        self.added = []

    def __enter__(self):
        try:
            self._load()
        except BaseException:
            self.__exit__()
            raise
        return self

    def _pkg(self, name):
        parts = name.split(".")
        for i in range(1, len(parts)):
            p = ".".join(parts[:i])
            if p not in sys.modules:
                m = types.ModuleType(p)
                m.__path__ = []
                self._add(p, m)

    def _add(self, name, m):
        sys.modules[name] = m
        self.added.append(name)

    def _exec(self, path, src):
        name = "vproot." + path.removesuffix(".py").replace("/", ".")
        self._pkg(name)
        m = types.ModuleType(name)
        m.__package__ = name.rpartition(".")[0]
        m.__file__ = path
        self._add(name, m)
        exec(compile(src, path, "exec"), m.__dict__)
        return m

    def _load(self):
        r = plugin(protoc_gen_connectrpc.main, self.d, self.param)
        expect(not r.error, "generator-failed", lambda: r.error[-1500:])
        self.generated = {f.name: f.content for f in r.file}
        self._add("vproot", types.ModuleType("vproot"))
        sys.modules["vproot"].__path__ = []
        with_services = [f for f in self.d.ordered() if f.service]
        expect(len(r.file) == len(with_services), "wrong-files", lambda: f"{list(self.generated)} for {[f.name for f in with_services]}")
        if self.google:
            pool = descriptor_pool.DescriptorPool()
            pool.Add(wkt_file())
            self.classes = {}
            for f in self.d.ordered():
                pool.Add(f)
            for f in self.d.ordered():
                # protoc's Python modules: dashes become underscores
                name = re.sub(r"\.proto$", "", f.name).replace("-", "_").replace("/", ".") + "_pb2"
                self._pkg(name)
                m = types.ModuleType(name)
                fd = pool.FindFileByName(f.name)
                for md in fd.message_types_by_name.values():
                    cls = message_factory.GetMessageClass(md)
                    setattr(m, md.name, cls)
                    self._collect(md, cls, f.package)
                # both importable by absolute name and from the package it was generated to
                self._add(name, m)
                self._pkg("vproot." + name)
                self._add("vproot." + name, m)
        else:
            pr = plugin(protoc_gen_py.main, self.d, "")
            assert not pr.error, pr.error
            for f in pr.file:
                if not f.name.endswith("__init__.py"):
                    self._exec(f.name, f.content)
            self.classes = None
        self.modules = {n: None for n in self.generated}
        for n, src in self.generated.items():
            try:
                self.modules[n] = self._exec(n, src)
            except (SyntaxError, ImportError, NameError, AttributeError, TypeError) as e:
                raise Violation("not-importable", f"{self.param!r} {n}: {e!r}\n{src[:1500]}") from None

    def _collect(self, md, cls, package):
        self.classes[md.full_name] = cls
        for n in md.nested_types:
            self._collect(n, getattr(cls, n.name), package)

    def __exit__(self, *a):
        for n in self.added:
            sys.modules.pop(n, None)

    def module_of(self, fname):
        for n, m in self.modules.items():
            if f"# Generated from {fname}." in self.generated[n]:
                return m
        raise Violation("wrong-files", f"no module for {fname}: {list(self.modules)}")


def type_name_of(msg):
    if hasattr(msg, "DESCRIPTOR"):
        return msg.DESCRIPTOR.full_name
    d = type(msg).desc
    return (d() if callable(d) else d).type_name


def simple_snake(name):
    """the name of simple PascalCase RPCs (SayHello, Say)"""
    if re.fullmatch(r"([A-Z][a-z]+)+", name):
        return re.sub(r"(?<!^)([A-Z])", r"_\1", name).lower()
    return None


# -- the oracle -------------------------------------------------------------
def drive(ch, p, d, param, fname, package, sname, methods):
    """Generate, import and exercise every RPC of one service on every generated side."""
    with World(d, param) as w:
        mod = w.module_of(fname)
        full = f"{package}.{sname}" if package else sname
        g = w.google
        for is_async in (True, False):
            want = "io=" not in param or ("io=async" in param) == is_async
            names = ([sname, f"{sname}ASGIApplication", f"{sname}Client"] if is_async
                     else [f"{sname}Sync", f"{sname}WSGIApplication", f"{sname}ClientSync"])
            found = [find_class(mod, n) for n in names]
            if not want:
                wanted = class_names([x.name for x in d.files[fname].service], param)
                expect(all(f is None or not is_local(f, mod) or n in wanted for n, f in zip(names, found)), "unwanted-class",
                       lambda: f"{p} {names}")
                continue
            for n, f in zip(names, found):
                expect(f is not None and is_local(f, mod), "missing-class", lambda: f"{p} {n} in {sorted(vars(mod))}")
            svc, app, client = found
            exercise(ch, p, w, is_async, svc, app, client, full, methods, g)
    return "ok"


def class_names(services, param):
    out = []
    for s in services:
        if "io=sync" not in param:
            out += [s, s + "ASGIApplication", s + "Client"]
        if "io=async" not in param:
            out += [s + "Sync", s + "WSGIApplication", s + "ClientSync"]
    return out


def find_class(mod, name):
    for n in (name, name + "_"):
        if isinstance(getattr(mod, n, None), type):
            return getattr(mod, n)
    # keywords are escaped inside of longer names too
    for n in ("ASGIApplication", "WSGIApplication", "ClientSync", "Client", "Sync"):
        if name.endswith(n):
            x = getattr(mod, name.removesuffix(n) + "_" + n, None)
            if isinstance(x, type):
                return x
    return None


def is_local(cls, mod):
    return cls.__module__ == mod.__name__


def exercise(ch, p, w, is_async, svc, app_cls, client_cls, full, methods, google):
    own = [n for n, v in vars(svc).items() if inspect.isfunction(v) and not n.startswith(("__", "_abc", "_no_init"))]
    what = lambda: f"{p} {'async' if is_async else 'sync'} {full}"
    expect(len(own) == len(methods), "rpc-names-collide", lambda: f"{what()} rpcs={[m[0] for m in methods]} methods={own}")
    seen = []

    def impl(name):
        fn = vars(svc)[name]

        def finish(r, ctx, n):
            vals = [x.s if hasattr(x, "s") else x.value for x in (r if isinstance(r, list) else [r])]
            types_ = {type_name_of(x) for x in (r if isinstance(r, list) else [r])}
            seen.append((n, vals, types_, ctx.method))
            return make_out(ctx, f"from {n}")
        is_coro = inspect.iscoroutinefunction(fn)
        if is_async:
            if is_coro:
                async def f(self, request, ctx):
                    if hasattr(request, "__aiter__"):
                        request = [x async for x in request]
                    return finish(request, ctx, name)
            else:
                async def f(self, request, ctx):
                    if hasattr(request, "__aiter__"):
                        request = [x async for x in request]
                    yield finish(request, ctx, name)
        else:
            k = KINDS_BY_SIG[name]
            if k:
                def f(self, request, ctx):
                    if hasattr(request, "__next__"):
                        request = list(request)
                    yield finish(request, ctx, name)
            else:
                def f(self, request, ctx):
                    if hasattr(request, "__next__"):
                        request = list(request)
                    return finish(request, ctx, name)
        return f

    # whether a sync method streams its response is only visible in its annotation
    KINDS_BY_SIG = {n: str(vars(svc)[n].__annotations__.get("return", "")).endswith("]") for n in own}
    impl_cls = type("Impl", (svc,), {n: impl(n) for n in own})
    bare_cls = type("Bare", (svc,), {})
    app = app_cls(impl_cls())
    bare = app_cls(bare_cls())
    expect(app.path == "/" + full, "wrong-path", lambda: f"{what()} {app.path}")
    run_app = (lambda a, r: asgi_sync(a, r)) if is_async else (lambda a, r: wsgi_plain(a, r))
    local = {}
    for mname, kind, idem, i, o in methods:
        path = f"/{full}/{mname}"
        for proto in PROTOS if len(methods) == 1 else PROTOS[:2]:
            seen.clear()
            sent = ["a", "b"] if kind in ("client_stream", "bidi") else ["a"]
            r = run_app(app, wire.build_request(proto, kind, "proto", sent, path=path))
            desc = lambda: f"{what()} {mname} {kind} {proto} -> {r.resp.status} {r.resp.body[:200]} {r.resp.trailers} {r.exc!r} {seen}"
            try:
                got = wire.parse_response(proto, kind, "proto", r.resp)
            except wire.WireError as e:
                raise Violation("rpc-failed", f"{e} {desc()}") from None
            expect(got.error is None and len(seen) == 1, "rpc-failed", desc)
            n, vals, tys, mi = seen[0]
            expect(vals == sent and tys == {i[1:]}, "wrong-request", desc)
            expect(got.msgs == [f"from {n}"], "wrong-response", desc)
            expect((mi.name, mi.service_name, mi.idempotency_level) == (mname, full, LEVEL[idem]), "wrong-method-info",
                   lambda: f"{mi} {desc()}")
            local[mname] = n
            b = run_app(bare, wire.build_request(proto, kind, "proto", sent, path=path))
            try:
                bgot = wire.parse_response(proto, kind, "proto", b.resp)
            except wire.WireError as e:
                raise Violation("unimplemented", f"{e} {b.resp} {desc()}") from None
            expect(bgot.error is not None and bgot.error.code == "unimplemented", "unimplemented", lambda: f"{b.resp} {desc()}")
        if kind == "unary":
            seen.clear()
            r = run_app(app, Req("GET", path, "connect=v1&encoding=proto&message=%0A%01a", [("host", "example.test")], []))
            expect((r.resp.status == 200) == (idem == "NO_SIDE_EFFECTS"), "wrong-idempotency", lambda: f"{what()} {mname} GET {r.resp}")
            expect((len(seen) == 1) == (idem == "NO_SIDE_EFFECTS"), "wrong-idempotency", lambda: f"{what()} {mname} GET ran")
        s = simple_snake(mname)
        if s is not None and s not in RESERVED and [simple_snake(m[0]) for m in methods].count(s) == 1 and all(
            x[0] == mname or x[0].lower().replace("_", "") != mname.lower() for x in methods
        ):
            expect(local[mname] == (s if s not in KW else s + "_"), "wrong-method-name", lambda: f"{what()} {mname} -> {local[mname]}")
    expect(len(set(local.values())) == len(methods), "rpc-names-collide", lambda: f"{what()} {local}")
    if len(methods) == 1 and p[0] in ("kinds", "settings"):
        server_settings(ch, w, is_async, app_cls, impl_cls(), full, methods[0], run_app, what)
        client_settings(w, client_cls, is_async, local, methods[0], full, what)
    # unknown method
    r = run_app(app, wire.build_request("connect", "unary", "proto", ["a"], path=f"/{full}/NoSuch"))
    expect(r.resp.status == 404, "unknown-rpc", lambda: f"{what()} {r.resp}")
    # clients
    for mname, kind, idem, i, o in methods:
        for proto in PROTOS if len(methods) == 1 else ("connect",):
            peer = lambda req: wire.build_response(proto, kind, "proto", ["x", "y"] if kind in ("server_stream", "bidi") else ["x"])
            link = AsyncLink(peer) if is_async else SyncLink(peer)
            gets = [False, True] if kind == "unary" and idem == "NO_SIDE_EFFECTS" and proto == "connect" else [False]
            for get in gets:
                out = call_client(w, client_cls, link, is_async, proto, local, mname, kind, i, o, get, what)
                expect(out == ["x", "y"][: len(out)] and len(out) == (2 if kind in ("server_stream", "bidi") else 1),
                       "client-response", lambda: f"{what()} {mname} {out}")
                req = link.requests[-1]
                expect(req.path == f"/{full}/{mname}" and req.method == ("GET" if get else "POST"), "client-calls-wrong-rpc",
                       lambda: f"{what()} {mname} -> {req.method} {req.path}")
                if not get:
                    msgs, hd, _ = wire.parse_request(proto, kind, "proto", req)
                    expect(msgs == (["a", "b"] if kind in ("client_stream", "bidi") else ["a"]), "client-request", lambda: f"{msgs}")
                    expect(hd.get("x-h") == ["v"], "client-headers", lambda: f"{what()} {hd}")
                    th = hd.get("connect-timeout-ms") or hd.get("grpc-timeout")
                    expect(th in (["5000"], ["5000m"], ["5S"]), "client-timeout", lambda: f"{what()} {hd}")


class AltCodec:
    """The binary format under another name, for both message libraries."""

    def name(self):
        return "alt"

    def encode(self, m):
        return m.SerializeToString() if hasattr(m, "SerializeToString") else m.to_binary()

    def decode(self, data, cls):
        return cls.FromString(bytes(data)) if hasattr(cls, "FromString") else cls.from_binary(bytes(data))


def server_settings(ch, w, is_async, app_cls, service, full, method, run_app, what):
    """what a generated application is given takes effect"""
    mname, kind, idem, i, o = method
    path = f"/{full}/{mname}"
    spied = []

    class Spy:
        async def on_start(self, ctx):
            spied.append(ctx.method.name)

        async def on_end(self, token, ctx, error):
            pass

        def on_start_sync(self, ctx):
            spied.append(ctx.method.name)

        def on_end_sync(self, token, ctx, error):
            pass
    sent = ["a" * 30]
    streams = kind != "unary"

    def go(app, proto="connect", codec="proto", **kw):
        r = run_app(app, wire.build_request(proto, kind, codec, sent, path=path, **kw))
        try:
            got = wire.parse_response(proto, kind, codec, r.resp)
        except wire.WireError:
            got = None
        return r, got
    desc = lambda: f"{what()} {mname} {kind}: {r.resp} {r.exc!r} {spied}"
    r, got = go(app_cls(service, interceptors=iter([Spy(), Spy()])))
    expect(got is not None and got.error is None and spied == [mname] * 2, "interceptors-ignored", desc)
    r, got = go(app_cls(service, read_max_bytes=20))
    expect(got is not None and got.error is not None and got.error.code == "resource_exhausted", "read-limit-ignored", desc)
    r, got = go(app_cls(service, read_max_bytes=40))
    expect(got is not None and got.error is None, "read-limit-changed", desc)
    for comps, comp, ok in (((), "gzip", False), (("br",), "gzip", False), (("br",), "br", True), (None, "gzip", True)):
        app = app_cls(service, compressions=comps and iter([compression(c) for c in comps]) if comps else comps)
        r, got = go(app, comp=comp, accept="br")
        expect(got is not None and (got.error is None) == ok, "compressions-ignored", lambda: f"{comps} {comp} {desc()}")
        if ok:
            enc = r.resp.get(wire.enc_header("connect", kind))
            expect(enc == "br" if comps else enc in (None, "identity"), "compressions-ignored", lambda: f"{comps} {comp} {desc()}")
    app = app_cls(service, codecs=iter([AltCodec()]))
    r, got = go(app)
    expect(got is None or got.error is not None, "codecs-ignored", desc)
    req = wire.build_request("connect", kind, "proto", sent, path=path)
    req.headers = [(k, v.replace("proto", "alt") if k == "content-type" else v) for k, v in req.headers]
    r = run_app(app, req)
    expect(r.resp.status == 200 and r.resp.get("content-type") == f"application/{'connect+' if streams else ''}alt", "codecs-ignored", desc)
    if not is_async:
        return

    async def provider():
        yield service

    async def main(_env):
        app = app_cls(provider())
        todo = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]
        told, out = [], []

        async def receive():
            if len(told) == 1 and not out:
                out.append(await asgi_plain(app, wire.build_request("connect", kind, "proto", sent, path=path)))
            return todo.pop(0)

        async def send(m):
            told.append(m["type"])
        await app({"type": "lifespan", "asgi": {"version": "3.0"}}, receive, send)
        return out[0], told
    (r, told), _ = run(None, main)
    expect(told == ["lifespan.startup.complete", "lifespan.shutdown.complete"] and r.resp.status == 200, "provider-ignored",
           lambda: f"{told} {desc()}")


def client_settings(w, client_cls, is_async, local, method, full, what):
    """what a generated client is given takes effect"""
    mname, kind, idem, i, o = method
    many = kind in ("client_stream", "bidi")
    spied = []

    class Spy:
        async def on_start(self, ctx):
            spied.append(ctx.method.name)

        async def on_end(self, token, ctx, error):
            pass

        def on_start_sync(self, ctx):
            spied.append(ctx.method.name)

        def on_end_sync(self, token, ctx, error):
            pass

    def go(peer, opts={}, **kw):
        link = AsyncLink(peer) if is_async else SyncLink(peer)
        hc = HTTPClient(transport=link) if is_async else SyncClient(transport=link)
        c = client_cls("http://example.test", http_client=hc, **kw)
        msg = make_msg(w, i, "a")
        val = lambda m: m.value if o.startswith(".google.protobuf.") else m.s
        m = getattr(c, local[mname])
        if is_async:
            async def main(_env):
                async def it():
                    yield msg
                try:
                    if kind in ("unary", "client_stream"):
                        return [val(await m(it() if many else msg, **opts))], None
                    return [val(x) async for x in m(it() if many else msg, **opts)], None
                except ConnectError as e:
                    return [], e
            out = run(None, main)[0]
        else:
            try:
                if kind in ("unary", "client_stream"):
                    out = [val(m(iter([msg]) if many else msg, **opts))], None
                else:
                    out = [val(x) for x in m(iter([msg]) if many else msg, **opts)], None
            except ConnectError as e:
                out = [], e
        if not link.requests:
            return *out, {}, None
        return *out, dict(link.requests[0].headers), link.requests[0]
    answer = lambda proto="connect", **kw: (lambda req: wire.build_response(proto, kind, "proto", ["x" * 30], **kw))
    enc, acc = wire.enc_header("connect", kind), wire.accept_header("connect", kind)
    desc = lambda: f"{what()} {mname} {kind}: {out} {err!r} {h} {spied}"
    out, err, h, req = go(answer(), interceptors=iter([Spy()]), timeout_ms=4321, send_compression=compression("br"),
                          accept_compression=iter([compression("br")]))
    expect(out == ["x" * 30] and spied == [mname], "client-interceptors-ignored", desc)
    expect(h.get("connect-timeout-ms") == "4321", "client-timeout-ignored", desc)
    expect(h.get(enc) == "br" and wire.parse_request("connect", kind, "proto", req)[0] == ["a"], "client-compression-ignored", desc)
    expect({x.strip() for x in h.get(acc, "").split(",")} - {"identity"} == {"br"}, "client-accept-ignored", desc)
    out, err, h, req = go(answer(), read_max_bytes=20)
    expect(err is not None and err.code == Code.RESOURCE_EXHAUSTED, "client-limit-ignored", desc)
    out, err, h, req = go(answer("grpc"), protocol=PROTO_TYPE["grpc"], accept_compression=())
    expect(out == ["x" * 30] and h.get("content-type", "").startswith("application/grpc") and "gzip" not in h.get("grpc-accept-encoding", ""),
           "client-protocol-ignored", desc)

    def alt(req):
        r = answer()(req)
        r.headers = [(k, v.replace("proto", "alt") if k == "content-type" else v) for k, v in r.headers]
        return r
    out, err, h, req = go(alt, codec=AltCodec())
    expect(out == ["x" * 30] and h.get("content-type", "").endswith("alt"), "client-codec-ignored", desc)
    # the options of a call, which go before those of the client
    for opts, want in (({}, "5000"), ({"timeout_ms": None}, "5000"), ({"timeout_ms": 7000}, "7000"), ({"timeout_ms": 0}, None)):
        out, err, h, req = go(answer(), opts, timeout_ms=5000)
        expect((err is not None and err.code == Code.DEADLINE_EXCEEDED) if want is None else (out == ["x" * 30]), "call-timeout-ignored",
               lambda: f"{opts} {desc()}")
        expect(req is None or h.get("connect-timeout-ms") == (want or "0"), "call-timeout-ignored", lambda: f"{opts} {desc()}")
    for hs, want in ((None, []), ({}, []), ({"x-h": ""}, [""]), (Headers([("x-h", "1"), ("X-H", "2")]), ["1", "2"])):
        out, err, h, req = go(answer(), {"headers": hs})
        expect(out == ["x" * 30] and [v for k, v in req.headers if k == "x-h"] == want, "call-headers-ignored", lambda: f"{hs} {req.headers} {desc()}")
    if kind == "unary" and idem == "NO_SIDE_EFFECTS":
        out, err, h, req = go(answer(), {"use_get": True, "timeout_ms": 7000, "headers": {"x-h": "v"}})
        expect(out == ["x" * 30] and req.method == "GET" and h.get("x-h") == "v" and h.get("connect-timeout-ms") == "7000",
               "call-options-ignored", desc)


def make_msg(w, tname, value):
    cls = class_for(w, tname)
    return cls(value=value) if tname.startswith(".google.protobuf.") else cls(s=value)


def class_for(w, tname):
    if tname == ".google.protobuf.StringValue":
        return GStringValue if w.google else StringValue
    if w.google:
        return w.classes[tname[1:]]
    for n in list(w.added):
        m = sys.modules.get(n)
        if n.endswith("_pb") and m is not None:
            for cls in vars(m).values():
                found = nested_class(cls, tname[1:])
                if found is not None:
                    return found
    raise HarnessError(f"no class for {tname}")


def nested_class(cls, tname):
    if not (isinstance(cls, type) and hasattr(cls, "desc") and hasattr(cls, "to_binary")):
        return None
    try:
        dd = cls.desc() if callable(cls.desc) else cls.desc
        if dd.type_name == tname:
            return cls
    except Exception:
        return None
    for x in vars(cls).values():
        f = nested_class(x, tname) if isinstance(x, type) else None
        if f is not None:
            return f
    return None


def make_out(ctx, value):
    cls = ctx.method.output
    return cls(value=value) if "StringValue" in cls.__name__ else cls(s=value)


def call_client(w, client_cls, link, is_async, proto, local, mname, kind, i, o, get, what):
    kw = {"headers": {"x-h": "v"}, "timeout_ms": 5000}
    if get:
        kw = {"use_get": True}
    hc = HTTPClient(transport=link) if is_async else SyncClient(transport=link)
    val = lambda m: m.value if o.startswith(".google.protobuf.") else m.s
    msgs = [make_msg(w, i, x) for x in (["a", "b"] if kind in ("client_stream", "bidi") else ["a"])]

    def check(m):
        expect(type_name_of(m) == o[1:], "client-response-type", lambda: f"{what()} {type_name_of(m)}")
        return val(m)
    if is_async:
        async def main(_env):
            out = []
            async with client_cls("http://example.test", protocol=PROTO_TYPE[proto], http_client=hc, send_compression=None) as c:
                m = getattr(c, local[mname])

                async def it():
                    for x in msgs:
                        yield x
                arg = it() if kind in ("client_stream", "bidi") else msgs[0]
                if kind in ("unary", "client_stream"):
                    out.append(check(await m(arg, **kw)))
                else:
                    async for x in m(arg, **kw):
                        out.append(check(x))
            return out
        return run(None, main)[0]
    out = []
    with client_cls("http://example.test", protocol=PROTO_TYPE[proto], http_client=hc, send_compression=None) as c:
        m = getattr(c, local[mname])
        arg = iter(msgs) if kind in ("client_stream", "bidi") else msgs[0]
        if kind in ("unary", "client_stream"):
            out.append(check(m(arg, **kw)))
        else:
            out.extend(check(x) for x in m(arg, **kw))
    return out


# -- definitions explored ---------------------------------------------------
KW = {"import", "class", "async", "await", "return", "lambda", "yield", "from", "pass", "global", "none", "true", "false", "is", "del"} - {"none", "true", "false"}
RESERVED = {"close", "execute_unary", "execute_client_stream", "execute_server_stream", "execute_bidi_stream"}
RPC_NAMES = [
    "Say", "SayHello", "sayHello", "say_hello", "Say_Hello", "SAY", "SAYHello", "GetURL", "GetUrl", "GetHTTPUrl", "V1", "Get2FA",
    "A", "AB", "ABC", "aB", "Import", "Class", "class_", "Async", "Await", "None", "True", "Lambda", "Yield", "From", "Is",
    "Close", "ExecuteUnary", "ExecuteClientStream", "ExecuteServerStream", "ExecuteBidiStream", "Path", "Request", "Headers",
    "TimeoutMs", "UseGet", "Self", "Ctx", "Super", "Print", "Property", "Str", "Int", "Code", "Endpoint", "MethodInfo", "Protocol",
    "Interceptors", "Service", "Codec", "Address", "HttpClient", "Init", "Call",
]
SERVICES = [
    "Svc", "svc", "SvcV2", "S", "URLService", "Foo_Bar", "Class", "class", "None", "True", "lambda", "Code", "Endpoint", "EndpointSync",
    "MethodInfo", "IdempotencyLevel", "ConnectError", "Protocol", "ConnectClient", "ConnectClientSync", "ConnectASGIApplication",
    "ConnectWSGIApplication", "RequestContext", "Headers", "Codec", "Compression", "Iterator", "AsyncIterator", "Mapping", "Iterable",
    "Interceptor", "TYPE_CHECKING", "ProtocolType", "GzipCompression", "Client", "SyncClient", "AsyncGenerator", "annotations",
    "google_protobuf_codecs", "google_protobuf_binary_codec", "int", "str", "self", "Sync", "ASGIApplication",
]
FILES = [("vpa/b/svc.proto", "vpa.b"), ("vpsvc.proto", ""), ("vp-a/my-svc.proto", "vp.a"), ("vpa/svc_pb.proto", "vpa"), ("vpx/v1beta1/my_svc.proto", "x.y.z"),
         ("vpa/2fa.proto", "vpa"), ("vpa/s.v.proto", "vpa"), ("vpa/Svc.proto", "vpa.Pkg")]
MSGS = ["same", "same nested", "same deeply nested", "other file same package", "other package", "other package same name",
        "parent package", "dashed file", "wkt", "named Code", "named Endpoint", "named Protocol", "named Headers", "named MethodInfo",
        "named Iterator", "named like the service elsewhere", "nested Code elsewhere", "named int_"]


def make_types(d, fname, package, sname, how):
    if how == "same":
        return d.message(fname, package, "Req")
    if how == "same nested":
        return d.message(fname, package, "Outer.Inner")
    if how == "same deeply nested":
        return d.message(fname, package, "Outer.Mid.Inner")
    if how == "other file same package":
        return d.message("vpa/b/types.proto", package, "OReq")
    if how == "other package":
        return d.message("vpo/c/types.proto", "vpo.c", "PReq")
    if how == "other package same name":
        d.message(fname, package, "Req")
        return d.message("vpo/c/types.proto", "vpo.c", "Req")
    if how == "parent package":
        return d.message("vpa/parent.proto", "vpa", "Parent")
    if how == "dashed file":
        return d.message("vpo/my-types.v1.proto" if False else "vpo/my-types.proto", "vpo", "Dashed")
    if how == "wkt":
        return ".google.protobuf.StringValue"
    if how == "named like the service elsewhere":
        return d.message("vpo/c/types.proto", "vpo.c", sname)
    if how == "nested Code elsewhere":
        return d.message("vpo/c/types.proto", "vpo.c", "Code.Endpoint")
    return d.message(fname, package, how.removeprefix("named "))


def kinds_body(ch, p):
    _, param, k1, i1 = p
    d = Def()
    fname, package = FILES[0]
    t = d.message(fname, package, "Req")
    u = d.message(fname, package, "Res")
    ms = [("SayHello", k1, i1, t, u)]
    if ch.flag("second rpc"):
        ms.append(("Other", ch.pick(KINDS, "kind"), ch.pick(IDEM, "idempotency"), u, t))
    d.service(fname, "Svc", ms)
    ch.ev(ms, param)
    return drive(ch, p, d, param, fname, package, "Svc", ms)


def names_body(ch, p):
    _, param, a = p
    d = Def()
    fname, package = FILES[0]
    t = d.message(fname, package, "Req")
    rest = [n for n in RPC_NAMES if n != a]
    b = ch.pick([None] + rest, "second name")
    kinds = ["unary", "server_stream"] if ch.flag("kinds swapped") else ["bidi", "unary"]
    ms = [(a, kinds[0], "UNKNOWN", t, t)] + ([(b, kinds[1], "NO_SIDE_EFFECTS", t, t)] if b else [])
    d.service(fname, "Svc", ms)
    ch.ev([m[0] for m in ms])
    return drive(ch, (p, b), d, param, fname, package, "Svc", ms)


def service_body(ch, p):
    _, param, sname = p
    d = Def()
    fname, package = ch.pick(FILES, "file")
    if "google" in param and "2fa" in fname:
        raise Prune  # protoc itself has no importable module for it
    n = ch.choose(3, "methods")
    t = d.message(fname, package, "Req")
    ms = [("Say", "unary", "NO_SIDE_EFFECTS", t, t), ("Talk", "bidi", "UNKNOWN", t, t)][:n]
    d.service(fname, sname, ms)
    ch.ev(sname, fname, n)
    return drive(ch, (p, fname, n), d, param, fname, package, sname, ms)


def messages_body(ch, p):
    _, param, how_in = p
    how_out = ch.pick(MSGS, "output")
    fname, package = ch.pick(FILES[:2] + FILES[2:3], "file")
    d = Def()
    d.file(fname, package)
    kind = ch.pick(["unary", "bidi"], "kind")
    i = make_types(d, fname, package, "Svc", how_in)
    o = make_types(d, fname, package, "Svc", how_out)
    ms = [("Say", kind, "NO_SIDE_EFFECTS", i, o)]
    d.service(fname, "Svc", ms)
    ch.ev(how_in, how_out, fname)
    return drive(ch, (p, how_out, fname), d, param, fname, package, "Svc", ms)


def multi_body(ch, p):
    """several services per file and several files per run"""
    _, param = p
    d = Def()
    f1, p1 = FILES[0]
    f2, p2 = ch.pick([("vpo/c/two.proto", "vpo.c"), ("vpa/b/two.proto", "vpa.b"), ("vpa/two.proto", "vpa")], "second file")
    t = d.message(f1, p1, "Req")
    u = d.message(f2, p2, "Req2")
    d.message("vpo/noservice.proto", "vpo", "Unused")
    s2 = ch.pick(["Other", "SvcClient", "SvcSync", "SvcClientSync", "SvcASGIApplication", "Svc2"], "second service")
    where = ch.pick(["same file", "second file"], "where")
    ms1 = [("Say", ch.pick(KINDS, "kind"), "UNKNOWN", t, u)]
    ms2 = [("Say", "unary", "NO_SIDE_EFFECTS", u, u), ("Talk", "client_stream", "UNKNOWN", u, t)]
    if where == "second file":
        ms2 = [(a, b, c, u, u) for a, b, c, _, _ in ms2]  # no import cycle
    d.service(f1, "Svc", ms1)
    d.service(f1 if where == "same file" else f2, s2, ms2)
    ch.ev(s2, where, f2)
    who = (p, s2, where)
    names = class_names(["Svc"] + ([s2] if where == "same file" else []), param)
    try:
        drive(ch, who, d, param, f1, p1, "Svc", ms1)
        return drive(ch, who, d, param, *((f1, p1) if where == "same file" else (f2, p2)), s2, ms2)
    except Exception as e:
        if len(set(names)) < len(names):
            raise Violation("service-names-collide", f"{names}: {e!r}"[:1000]) from None
        raise


def options_body(ch, p):
    """unknown options are refused, never ignored"""
    param = p[1]
    d = Def()
    t = d.message("vpa/x.proto", "vpa", "Req")
    d.service("vpa/x.proto", "Svc", [("Say", "unary", "UNKNOWN", t, t)])
    r = plugin(protoc_gen_connectrpc.main, d, param)
    ch.ev(param, bool(r.error))
    expect(bool(r.error) and not r.file, "bad-option-accepted", lambda: f"{param} {r.error[-200:]}")
    return "refused"


BODIES = {"kinds": kinds_body, "names": names_body, "service": service_body, "messages": messages_body, "multi": multi_body,
          "options": options_body}


def body(ch, p):
    return BODIES[p[0]](ch, p)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for param in OPTS:
        for k in KINDS:
            for i in IDEM:
                out.append(("kinds", param, k, i))
    for param in OPTS if big else ("", "protobuf=google"):
        for a in RPC_NAMES:
            out.append(("names", param, a))
        for s in SERVICES:
            out.append(("service", param, s))
        for m in MSGS:
            out.append(("messages", param, m))
    for param in OPTS:
        out.append(("multi", param))
    for param in ("io=both", "protobuf=bogus", "bogus=1", "io="):
        out.append(("options", param))
    return out


CHECK = Check(
    id="C20", body=body, scenarios=scenarios,
    rule="service definitions: kinds x idempotency (one and two RPCs), all ordered pairs of RPC names over an alphabet of 55 (case styles, acronyms, "
         "keywords, names of client methods), service names (also of everything the module imports) x file names x 0..2 methods, request and "
         "response types by where they are declared, several services and files; every generator option. Every generated module is executed "
         "and every RPC is called on both generated servers and both generated clients against an independent peer",
    assumptions=("RPC names that start with an underscore, services named super or property, and google.protobuf messages or directories named by Python keywords, are not explored",),
)
