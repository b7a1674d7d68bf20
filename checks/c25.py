"""C25: the addresses a call reports."""
import asyncio

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire

HOSTS = ["localhost", "example.test", "Example.TEST", "a-b.c.example", "xn--nxasmq6b.test", "x_y", "10.0.0.7", "[::1]", "[2001:db8::7]",
         "[fe80::1%25eth0]", "localhost.", "h", "80", "443.test"]
PORTS = [None, 80, 443, 8080, 1, 65535]
SCHEMES = ["http", "https"]
SUFFIXES = ["", "/api", "/api/v1", "/a:1", "/a@b:2", "/a%3A1", "/[x]:3", "/http://o.test:9"]
USERS = ["", "u@", "u:p@", "u:8081@"]
DEFAULT = {"http": 80, "https": 443}


class Probe:
    """metadata interceptor"""

    def __init__(self):
        self.seen = []

    async def on_start(self, ctx):
        self.seen.append((ctx.server_address, ctx.client_address))

    async def on_end(self, token, ctx, error):
        self.seen.append((ctx.server_address, ctx.client_address))


class SProbe:
    def __init__(self):
        self.seen = []

    def on_start_sync(self, ctx):
        self.seen.append((ctx.server_address, ctx.client_address))

    def on_end_sync(self, token, ctx, error):
        self.seen.append((ctx.server_address, ctx.client_address))


def oracle(host, port, scheme):
    return f"{host}:{DEFAULT[scheme] if port is None else port}"


def client_body(ch, p):
    _, io, proto, kind, host = p
    scheme = ch.pick(SCHEMES, "scheme")
    port = ch.pick(PORTS, "port")
    suffix = ch.pick(SUFFIXES, "suffix")
    user = ch.pick(USERS, "user")
    shout = ch.flag("upper-case scheme")
    get = kind == "unary" and proto == "connect" and ch.flag("GET")
    address = f"{scheme.upper() if shout else scheme}://{user}{host}{'' if port is None else f':{port}'}{suffix}"
    probe = Probe() if io == "async" else SProbe()
    calls = ["a", "b"]
    peer = lambda req: wire.build_response(proto, kind, "proto", ["x"])
    kw = {"mi": minfo(kind, idem=IdempotencyLevel.NO_SIDE_EFFECTS), "use_get": True} if get else {}
    for _ in calls:
        out, tr, _ = call_with(io, ("peer", peer), kind, ["q"], proto=proto, client_kw={"address": address, "interceptors": [probe]}, **kw)
        expect(out.error is None and out.raised is None, "call-failed", lambda: f"{address} {out}")
        req = tr.requests[-1]
        expect(req.path.endswith(mpath(kind)), "call-failed", lambda: f"{address} {req}")
    ch.ev(address, probe.seen)
    expect(len(probe.seen) == 4, "probe", probe.seen)
    want = oracle(host, port, scheme)
    for s, c in probe.seen:
        expect(s is not None and s.lower() == want.lower(), "wrong-server-address", lambda: f"{p} {address}: {s!r}, not {want!r}")
        expect(c is None, "client-address-on-client", lambda: f"{p} {address}: {c!r}")
    return "client"


ASGI_CLIENTS = [("no", None), ("1.2.3.4", 143), ["1.2.3.4", 143], ("::1", 5), ("2001:db8::1", 65535), ("localhost", 1), None]
WSGI_CLIENTS = [("no", None), ("1.2.3.4", "143"), ("1.2.3.4", 143), ("::1", "5"), ("2001:db8::1", "65535"), ("1.2.3.4", None), ("", None), ("", "5"), (None, "5")]


def server_body(ch, p):
    _, io, proto, kind, host = p
    scheme = ch.pick(SCHEMES, "scheme")
    port = ch.pick(PORTS, "port")
    peer = ch.pick(ASGI_CLIENTS if io == "async" else WSGI_CLIENTS, "client")
    get = kind == "unary" and proto == "connect" and ch.flag("GET")
    claims = ch.flag("claims")
    probe = Probe() if io == "async" else SProbe()
    handler_saw = []

    if io == "async":
        async def one(r, ctx):
            handler_saw.append((ctx.server_address, ctx.client_address))
            return M("r")

        async def many(r, ctx):
            handler_saw.append((ctx.server_address, ctx.client_address))
            yield M("r")
        app = asgi_app([(minfo(kind, idem=IdempotencyLevel.NO_SIDE_EFFECTS), kind, one if kind in ("unary", "client_stream") else many)],
                       interceptors=[probe])
    else:
        def one(r, ctx):
            handler_saw.append((ctx.server_address, ctx.client_address))
            return M("r")

        def many(r, ctx):
            handler_saw.append((ctx.server_address, ctx.client_address))
            yield M("r")
        app = wsgi_app([(minfo(kind, idem=IdempotencyLevel.NO_SIDE_EFFECTS), kind, one if kind in ("unary", "client_stream") else many)],
                       interceptors=[probe])
    req = wire.build_request(proto, kind, "proto", ["q"], path=mpath(kind))
    if get:
        req = Req("GET", mpath(kind), "connect=v1&encoding=proto&message=%0A%01q", [], [])
    req.headers = [(k, v) for k, v in req.headers if k.lower() != "host"]
    if host is not None:
        req.headers.append(("host", f"{host}{'' if port is None else f':{port}'}"))
    elif port is not None:
        raise Prune
    if claims:
        req.headers += CLAIMS
    if io == "async":
        scope = asgi_scope(req, scheme=scheme)
        want_c = None
        if peer == ("no", None):
            del scope["client"]
        else:
            scope["client"] = peer
            want_c = peer
        mon = ASGIMonitor(ch)
        chunks = list(req.chunks) or [b""]

        async def main(_env):
            left = [{"type": "http.request", "body": c, "more_body": i + 1 < len(chunks)} for i, c in enumerate(chunks)]

            async def receive():
                if left:
                    return left.pop(0)
                await asyncio.get_running_loop().create_future()

            async def send(m):
                mon.on_send(m)
            await app(scope, receive, send)
        run(None, main)
        resp = mon.resp()
    else:
        env = {}
        want_c = None
        if peer != ("no", None):
            a, prt = peer
            if a is not None:
                env["REMOTE_ADDR"] = a
            if prt is not None:
                env["REMOTE_PORT"] = prt
            if a:
                want_c = peer
        r = wsgi_plain(app, req, ch, scheme=scheme, client_env=env)
        resp = r.resp
    got = wire.parse_response(proto, kind, "proto", resp)
    ch.ev(host, port, scheme, handler_saw)
    expect(got.error is None and got.msgs == ["r"] and len(handler_saw) == 1 and len(probe.seen) == 2, "call-failed",
           lambda: f"{p} {resp} {handler_saw} {probe.seen}")
    want = None if host is None else oracle(host, port, scheme)
    for s, c in handler_saw + probe.seen:
        expect((s is None) == (want is None) and (s is None or s.lower() == want.lower()), "wrong-server-address",
               lambda: f"{p} host={host!r}:{port} {scheme}: {s!r}, not {want!r}")
        if want_c is None:
            expect(c is None, "wrong-client-address", lambda: f"{p} {peer}: {c!r}")
        elif want_c[1] is None:
            # no port known
            expect(c is not None and c.startswith(want_c[0]), "wrong-client-address", lambda: f"{p} {peer}: {c!r}")
        else:
            expect(c in (f"{want_c[0]}:{want_c[1]}", f"[{want_c[0]}]:{want_c[1]}"), "wrong-client-address", lambda: f"{p} {peer}: {c!r}")
    return "server"


# what a request says of its way here is for the application to believe or not
CLAIMS = [("x-forwarded-for", "6.6.6.6, 7.7.7.7"), ("x-forwarded-host", "evil.test:666"), ("x-forwarded-proto", "ftp"), ("x-forwarded-port", "666"),
          ("x-real-ip", "6.6.6.6"), ("forwarded", "for=6.6.6.6;host=evil.test;proto=ftp"), ("x-client-ip", "6.6.6.6"), ("remote-addr", "6.6.6.6"),
          ("remote-port", "666"), ("origin", "http://evil.test"), ("via", "1.1 evil.test"), ("x-host", "evil.test")]

ODD = ["", ":", ":80", "example.test:", "example.test:x", "a:b:c", "::1", "[::1", "::1]", "[::1]:", "[::1]x", "[]", "a b", "%00", "example.test:99999999999",
       "example.test:-1", "é", "a@b", "a/b:1", "@", "[", "]:1"]


def odd_body(ch, p):
    """whatever a request says, it is answered by its handler"""
    _, io, proto, kind = p
    host = ch.pick(ODD, "host")
    scheme = ch.pick(SCHEMES + ["ws", ""], "scheme")
    saw = []
    if io == "async":
        async def one(r, ctx):
            saw.append(ctx.server_address)
            return M("r")

        async def many(r, ctx):
            saw.append(ctx.server_address)
            yield M("r")
    else:
        def one(r, ctx):
            saw.append(ctx.server_address)
            return M("r")

        def many(r, ctx):
            saw.append(ctx.server_address)
            yield M("r")
    h = one if kind in ("unary", "client_stream") else many
    req = wire.build_request(proto, kind, "proto", ["q"], path=mpath(kind))
    req.headers = [(k, v) for k, v in req.headers if k.lower() != "host"] + [("host", host)]
    if io == "async":
        r = asgi_sync(asgi_app([(minfo(kind), kind, h)]), req, scheme=scheme)
    else:
        r = wsgi_plain(wsgi_app([(minfo(kind), kind, h)]), req, scheme=scheme)
    ch.ev(host, scheme, r.resp.status, saw)
    try:
        got = wire.parse_response(proto, kind, "proto", r.resp)
    except wire.WireError as e:
        raise Violation("odd-host-fails", f"{p} {host!r} {e} {r.resp}") from None
    expect(got.error is None and len(saw) == 1, "odd-host-fails", lambda: f"{p} {host!r} {r.resp} {saw}")
    expect(saw[0] is None or isinstance(saw[0], str), "odd-host-fails", lambda: f"{saw}")
    return "odd"


BODIES = {"client": client_body, "server": server_body, "odd": odd_body}


def body(ch, p):
    return BODIES[p[0]](ch, p)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for io in ("async", "sync"):
        for proto in PROTOS:
            for kind in KINDS if big else ("unary", "bidi"):
                for host in [h for h in HOSTS if "%" not in h]:  # the HTTP client knows no zones
                    out.append(("client", io, proto, kind, host))
                for host in HOSTS + [None]:
                    out.append(("server", io, proto, kind, host))
                out.append(("odd", io, proto, kind))
    return out


CHECK = Check(
    id="C25", body=body, scenarios=scenarios,
    rule="client side: hosts (names, IPv4, IPv6) x ports x schemes (both cases) x path suffixes x credentials in the URL; server side: Host headers x "
         "ports x schemes x forms of the connection's peer; each on both implementations and every protocol; unusual Host values",
    assumptions=("IPv6 hosts are reported in brackets; the case of a host name is not part of the property",),
)
