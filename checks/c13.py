"""C13: requests reach exactly the handler registered for them."""
import base64
from urllib.parse import urlencode

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire
import mc.rig as rig

OTHER = "verif.v1.Svc2"
NAMES = [  # (service, name): similar on purpose
    (SERVICE, "A"), (SERVICE, "a"), (SERVICE, "AA"), (SERVICE, "A2"), (OTHER, "A"), ("verif.v1", "Svc"), (SERVICE, "verif.v1.Svc"),
]
METHODS = ["POST", "GET", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "post", "get", "CONNECT", "X", ""]
CTS = [None, "", "application/proto", "application/json", "application/connect+proto", "application/connect+json",
       "application/grpc", "application/grpc+proto", "application/grpc+json", "application/grpc-web", "application/grpc-web+proto",
       "application/grpc-web+json", "application/nope", "application/connect+nope", "application/grpc+nope", "application/grpc-web+nope",
       "text/plain", "application/", "application/connect+", "application/grpc+", "application/grpcproto", "application/grpc-webproto",
       "application/x-protobuf", "application/octet-stream", "multipart/form-data", "application/protojson",
       "application/grpc-web-text", "application/grpc-web-text+proto",
       "application/json; charset=utf-8", "application/proto;x=y", "Application/JSON", "application/json ;charset=UTF-8", "application/proto;",
       "application/connect+json; charset=utf-8", "Application/Connect+Proto ; a=b", "application/nope; charset=utf-8", "application/grpc; charset=utf-8",
       "application/jsonx; charset=utf-8", ";application/json", "text/plain; application/json", "application/json, application/proto"]


def classify(ct, unary):
    """(protocol, codec) a request of this content type belongs to, or None"""
    if not ct:
        return None
    for pr, pre in (("grpcweb", "application/grpc-web"), ("grpc", "application/grpc")):
        if ct == pre:
            return pr, "proto"
        if ct.startswith(pre + "+"):
            c = ct[len(pre) + 1:]
            return (pr, c) if c in ("proto", "json") else None
    pre = "application/" if unary else "application/connect+"
    ct = ct.partition(";")[0].strip().lower()  # Connect ignores the parameters
    if ct.startswith(pre) and ct[len(pre):] in ("proto", "json"):
        return "connect", ct[len(pre):]
    return None


def is_grpc(ct):
    return any((ct or "") == pre or (ct or "").startswith(pre + "+") for pre in ("application/grpc", "application/grpc-web"))


def make(io, kinds_idem, runs):
    hs = []
    for (svc, name), (kind, idem) in zip(NAMES, kinds_idem):
        tag = f"{svc}/{name}"

        def mk(tag=tag, kind=kind):
            if io == "wsgi":
                def single(r, ctx):
                    runs.append((tag, [x.value for x in (r if kind == "client_stream" else [r])]))
                    return M(tag)

                def many(r, ctx):
                    runs.append((tag, [x.value for x in (r if kind == "bidi" else [r])]))
                    yield M(tag)
            else:
                async def single(r, ctx):
                    runs.append((tag, [x.value async for x in r] if kind == "client_stream" else [r.value]))
                    return M(tag)

                async def many(r, ctx):
                    runs.append((tag, [x.value async for x in r] if kind == "bidi" else [r.value]))
                    yield M(tag)
            return many if kind in ("server_stream", "bidi") else single
        mi = minfo(kind, name, idem=idem, service=svc)
        hs.append((mi, kind, mk()))
    return (wsgi_app if io == "wsgi" else asgi_app)(hs)


def mounts(io):
    """name -> function(path) -> (driver keyword args, path seen by the app) or None if it is not under the mount"""
    if io == "asgi":
        return {
            "none": lambda p: ({}, p),
            "full path": lambda p: ({"root_path": "/api"}, "/api" + p),
            "deep": lambda p: ({"root_path": "/api/v1"}, "/api/v1" + p),
            "service": lambda p: ({"root_path": f"/{SERVICE}"}, p),  # Starlette Mount(app.path, app)
            "relative": lambda p: ({"root_path": "/api"}, p),
            "missing": lambda p: ({"root_path": None}, p),
        }
    return {
        "none": lambda p: ({}, p),
        "prefix": lambda p: ({"script_name": "/api"}, p),
        "service": lambda p: ({"script_name": f"/{SERVICE}"}, p[len(SERVICE) + 1:]) if p.startswith(f"/{SERVICE}/") else None,
        "missing": lambda p: ({"script_name": None}, p),
    }


PATHS = [f"/{s}/{n}" for s, n in NAMES] + [
    "/", "", "//", f"/{SERVICE}", f"/{SERVICE}/", f"/{SERVICE}/A/", f"/{SERVICE}//A", f"//{SERVICE}/A", f"/{SERVICE}/B", f"/{SERVICE}/A%41",
    f"{SERVICE}/A", f"/{SERVICE.upper()}/A", f"/{SERVICE}.A", "/A", f"/api/{SERVICE}/A", f"/x/{SERVICE}/A", f"/{SERVICE}/A/A", f"/{SERVICE}/../{SERVICE}/A",
    f"/{SERVICE}/A\u00e9", f"/{SERVICE}/A?", f"/{SERVICE}/A;x", f"/{OTHER}/AA", f"/api{SERVICE}/A",
    f"/xyz/{SERVICE}/A", f"/API/{SERVICE}/A", f"/ap/{SERVICE}/A", f"/apis/{SERVICE}/A", f"/x{SERVICE[1:]}/{SERVICE}/A",
    f"/{SERVICE}/{SERVICE}/A", f"/api/api/{SERVICE}/A", f"/{SERVICE}/api/A", f"/{SERVICE}/A/api",
]


def run_one(io, app, req, drv):
    drv = dict(drv)
    if io == "wsgi":
        miss = drv.get("script_name", "") is None
        if miss:
            drv["script_name"] = ""
            inner = app

            def app(environ, sr):
                environ = dict(environ)
                for k in ("SCRIPT_NAME", "PATH_INFO", "QUERY_STRING"):
                    if environ.get(k) == "":
                        del environ[k]
                return inner(environ, sr)
        return wsgi_plain(app, req, **drv)
    if drv.get("root_path", "") is None:
        inner = app
        drv.pop("root_path")

        async def app(scope, receive, send):
            scope = dict(scope)
            scope.pop("root_path")
            if not scope["query_string"]:
                scope.pop("query_string")
            await inner(scope, receive, send)
    return asgi_sync(app, req, **drv)


def judge(r, runs, want, proto, kind, codec_name, desc, io):
    """want: None or (tag); the request carries the single message 'q'"""
    mon = r.mon
    expect(not mon.problems, "malformed-response", lambda: f"{mon.problems} {desc()}")
    if isinstance(want, tuple):
        expect(len(runs) == 1 and runs[0][0] == want[0], "wrong-handler", desc)
        expect(runs[0][1] == ["q"], "wrong-request", desc)
        got = wire.parse_response(proto, kind, codec_name, r.resp)
        expect(got.error is None and got.msgs == [want[0]], "wrong-response", desc)
        return "ran"
    expect(not runs, "unexpected-handler", desc)
    expect(mon.status == want, "wrong-status", desc)
    expect(r.exc is None, "app-crashed", desc)
    return str(want)


def reference(tag, kind, idem, method, ct):
    """('tag',) if the handler must run, else the HTTP status"""
    if tag is None:
        return 404
    if method == "GET" and idem == IdempotencyLevel.NO_SIDE_EFFECTS and kind == "unary" and not is_grpc(ct):
        return (tag,)
    if method != "POST":
        return 405
    if classify(ct, kind == "unary") is None:
        return 415
    return (tag,)


MALFORMED = {"proto": [b"\x0a\x05z", b"\xff", b"\x0a", b"\x0a\x01\xff"], "json": [b"{", b"[]", b"\xff", b"1", b'"q', b"nope", b'"q" "r"']}


def malformed_body(ch, p):
    """A request whose bytes are not a message."""
    _, io, kind, proto = p
    runs = []
    app = make(io, [(kind, IdempotencyLevel.NO_SIDE_EFFECTS)], runs)
    codec_name = ch.pick(("proto", "json"), "codec")
    data = ch.pick(MALFORMED[codec_name], "bytes")
    comp = ch.pick(("identity", "gzip", "not gzip"), "compression")
    unframed = proto == "connect" and kind == "unary"
    get = unframed and ch.flag("GET")
    before = ch.choose(2, "messages before") if kind in ("client_stream", "bidi") else 0
    req = wire.build_request(proto, kind, codec_name, ["q"] * before, path=mpath(kind, "A"), comp="identity" if comp == "identity" else "gzip")
    if comp == "gzip":
        data = wire.compress("gzip", data)
    if get:
        q = {"connect": "v1", "encoding": codec_name, "base64": "1", "message": base64.urlsafe_b64encode(data).decode()}
        if comp != "identity":
            q["compression"] = "gzip"
        req = Req("GET", mpath(kind, "A"), urlencode(q), [("host", "example.test")], [b""])
    elif unframed:
        req.chunks = [data]
    else:
        req.chunks = [req.body + wire.env(0 if comp == "identity" else 1, data)]
    r = run_one(io, app, req, {})
    desc = lambda: f"{p} {codec_name} {data!r} {comp} {'GET' if get else ''} -> {r.resp} runs={runs} exc={r.exc!r}"
    expect(not r.mon.problems, "malformed-response", lambda: f"{r.mon.problems} {desc()}")
    expect(not runs, "unexpected-handler", desc)
    expect(r.exc is None, "app-crashed", desc)
    expect(io == "asgi" or not r.errors, "app-crashed", lambda: f"{r.errors} {desc()}")
    got = wire.parse_response(proto, kind, codec_name, r.resp)
    expect(got.error is not None and got.error.code == "invalid_argument", "wrong-status", desc)
    return f"{got.error.code}"


ASGI_OPTIONAL = ("scheme", "root_path", "client", "server", "extensions", "state", "raw_path", "body", "more_body")
WSGI_OPTIONAL = ("SCRIPT_NAME", "QUERY_STRING", "CONTENT_LENGTH", "REMOTE_ADDR", "REMOTE_PORT", "SERVER_PROTOCOL", "wsgi.url_scheme")


def environment_body(ch, p):
    """Servers may leave out of a request what the interface makes optional."""
    _, io, kind, proto = p
    runs = []
    app = make(io, [(kind, IdempotencyLevel.NO_SIDE_EFFECTS)], runs)
    get = proto == "connect" and kind == "unary" and ch.flag("GET")
    if get:
        req = Req("GET", mpath(kind, "A"), urlencode({"connect": "v1", "encoding": "json", "message": '"q"'}), [("host", "example.test")], [b""])
    else:
        req = wire.build_request(proto, kind, "json", ["q"], path=mpath(kind, "A"))
    want = (f"{NAMES[0][0]}/{NAMES[0][1]}",)
    # an unmounted application, and for the GET also one without a query
    if get and ch.flag("no query"):
        req.query, want = "", None
    missing = []
    for k in ASGI_OPTIONAL if io == "asgi" else WSGI_OPTIONAL:
        if k == "QUERY_STRING" and req.query or k == "extensions" and proto == "grpc":
            continue
        if ch.flag(k):
            missing.append(k)
    null = io == "asgi" and "client" not in missing and ch.flag("unknown client")
    # neither headers nor queries need be UTF-8
    raw = ch.flag("raw bytes")
    inner = app
    if io == "asgi":
        async def app(scope, receive, send):
            scope = {k: v for k, v in scope.items() if k not in missing}
            if null:
                scope["client"] = None
            if raw:
                scope["headers"] = [*scope["headers"], (b"x-raw", b"caf\xe9 \xff")]
                if req.query:
                    scope["query_string"] += b"&x=\xff"

            async def rec():
                ev = await receive()
                return {k: v for k, v in ev.items() if not (k in missing and not v)}
            await inner(scope, rec, send)
    else:
        def app(environ, sr):
            environ = {k: v for k, v in environ.items() if k not in missing}
            if raw:
                environ["HTTP_X_RAW"] = "caf\xe9 \xff"
                if req.query:
                    environ["QUERY_STRING"] += "&x=\xff"
            return inner(environ, sr)
    r = (asgi_sync if io == "asgi" else wsgi_plain)(app, req)
    desc = lambda: f"{p} {'GET' if get else ''} without {missing} {null} {raw} want={want} -> {r.resp} runs={runs} exc={r.exc!r}"
    ch.ev(get, tuple(missing), r.resp.status)
    if want is None:
        # the encoding is missing: the servers report it differently
        expect(not r.mon.problems, "malformed-response", lambda: f"{r.mon.problems} {desc()}")
        expect(not runs, "unexpected-handler", desc)
        expect(r.exc is None and r.resp.status in (400, 404, 415, 501), "app-crashed", desc)
        return "refused"
    return judge(r, runs, want, proto, kind, "json", desc, io)


def body(ch, p):
    if p[0] == "malformed":
        return malformed_body(ch, p)
    if p[0] == "environment":
        return environment_body(ch, p)
    mode, io, kind, idem = p[:4]
    idem = IdempotencyLevel[idem]
    runs = []
    others = [("unary", IdempotencyLevel.NO_SIDE_EFFECTS), ("bidi", IdempotencyLevel.UNKNOWN), ("server_stream", IdempotencyLevel.IDEMPOTENT),
              ("client_stream", IdempotencyLevel.UNKNOWN), ("unary", IdempotencyLevel.UNKNOWN), ("unary", IdempotencyLevel.UNKNOWN)]
    if mode == "path":
        ki = [(kind, idem)] * len(NAMES)
    else:
        ki = [(kind, idem)] + others
    app = make(io, ki, runs)
    if mode == "path":
        mname = p[4]
        path = PATHS[ch.choose(len(PATHS), "path")]
        m = mounts(io)[mname](path)
        if m is None:
            raise Prune
        drv, seen_path = m
        tags = {f"/{s}/{n}": f"{s}/{n}" for s, n in NAMES}
        tag = tags.get(path)
        if mname == "relative" and path.startswith("/api/"):
            tag = tag or tags.get(path[4:])
        if mname == "none" and path == "" and io == "wsgi":
            tag = tags.get("/")
        if mname in ("full path", "deep"):
            tag = tags.get(path)
        if io == "asgi" and mname == "service" and tag is None and path.startswith(f"/{SERVICE}/"):
            tag = tags.get(path[len(SERVICE) + 1:])
        if io == "wsgi" and mname == "service":
            tag = tag or tags.get(seen_path)  # mounted at a path that happens to be the service's
        proto = ch.pick(PROTOS, "protocol")
        req = wire.build_request(proto, kind, "proto", ["q"], path=seen_path)
        want = reference(tag, kind, idem, "POST", dict(req.headers)["content-type"])
        r = run_one(io, app, req, drv)
        desc = lambda: f"{p} {proto} {path!r} as {seen_path!r} {drv} want={want} -> {r.resp} runs={runs} exc={r.exc!r}"
        ch.ev(mname, path, want, r.resp.status)
        return judge(r, runs, want, proto, kind, "proto", desc, io)
    # method x content type
    tag = f"{NAMES[0][0]}/{NAMES[0][1]}"
    method = METHODS[ch.choose(len(METHODS), "method")]
    ct = CTS[ch.choose(len(CTS), "content type")]
    cl = classify(ct, kind == "unary") or ("connect", "proto")
    proto, codec_name = cl
    req = wire.build_request(proto, kind, codec_name, ["q"], path=mpath(kind, "A"))
    req.headers = [(k, v) for k, v in req.headers if k != "content-type"] + ([("content-type", ct)] if ct is not None else [])
    req.method = method
    if method == "GET":
        q = {"connect": "v1", "encoding": "json", "message": '"q"'}
        req.query = urlencode(q)
        if ch.flag("no body"):
            req.chunks = []
        proto, codec_name = "connect", "json"
    want = reference(tag, kind, idem, method, ct)
    r = run_one(io, app, req, {})
    desc = lambda: f"{p} {method} {ct!r} want={want} -> {r.resp} runs={runs} exc={r.exc!r}"
    ch.ev(method, ct, want, r.resp.status)
    if isinstance(want, tuple) and proto in ("grpc", "grpcweb") and "+" not in ct:
        # the content type of the response names the codec
        r.resp  # noqa: B018
        r.mon.headers = [(k, ct + "+proto" if k == "content-type" and v == ct else v) for k, v in r.mon.headers]
    res = judge(r, runs, want, proto, kind, codec_name, desc, io)
    if want == 405:
        allow = {x.strip() for v in r.resp.getall("allow") for x in v.split(",")}
        expect("POST" in allow, "allow-header", desc)
    return res


def scenarios(tier):
    out = []
    for io in ("asgi", "wsgi"):
        for kind in KINDS:
            for idem in ("UNKNOWN", "NO_SIDE_EFFECTS", "IDEMPOTENT"):
                for m in mounts(io):
                    out.append(("path", io, kind, idem, m))
                out.append(("method", io, kind, idem))
            for proto in PROTOS:
                out.append(("malformed", io, kind, proto))
                out.append(("environment", io, kind, proto))
    return out


CHECK = Check(
    id="C13", body=body, scenarios=scenarios,
    rule="every request without any subset of the optional environment and with raw bytes in headers and query, malformed messages, every combination of path (registered, similar, malformed) x mount convention x protocol x kind, and of HTTP method x content "
         "type x kind x idempotency, on both servers, against a reference router",
    assumptions=("ASGI mounts pass the full path with root_path, or the path below it; WSGI mounts split SCRIPT_NAME and PATH_INFO",),
)
