"""C27: where a direction carries exactly one message, none or several are refused."""
import asyncio

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire
from mc.vloop import Deadlock

MSG = ["", "a", "b"]


def split_at(ch, body, cuts):
    pts = sorted({ch.choose(len(body) + 1, "cut") for _ in range(cuts)})
    out, prev = [], 0
    for x in pts:
        out.append(body[prev:x])
        prev = x
    return out + [body[prev:]]


def server_body(ch, p):
    _, io, proto, kind, n, comp, cuts = p
    ran = []
    if io == "wsgi":
        def single(r, ctx):
            ran.append(r.value)
            return M("ok")

        def many(r, ctx):
            ran.append(r.value)
            yield M("ok")
    else:
        async def single(r, ctx):
            ran.append(r.value)
            return M("ok")

        async def many(r, ctx):
            ran.append(r.value)
            yield M("ok")
    fn = many if kind == "server_stream" else single
    app = (wsgi_app if io == "wsgi" else asgi_app)([(minfo(kind), kind, fn)])
    sent = [ch.pick(MSG, f"m{i}") for i in range(n)]
    req = wire.build_request(proto, kind, "proto", sent, path=mpath(kind), comp=comp)
    req.chunks = split_at(ch, req.body, cuts)
    r = wsgi_plain(app, req) if io == "wsgi" else asgi_sync(app, req)
    got = wire.parse_response(proto, kind, "proto", r.resp)
    desc = lambda: f"{p} sent={sent} chunks={req.chunks} -> {got} ran={ran} exc={r.exc!r}"
    ch.ev(sent, got.error and got.error.code, ran)
    if n == 1:
        expect(got.error is None and ran == sent and got.msgs == ["ok"], "single-refused", desc)
        return "one"
    expect(not ran, "handler-ran", desc)
    expect(got.error is not None and not got.msgs, "cardinality-accepted", desc)
    return f"{n} {got.error.code}"


def response(proto, kind, sent, err, comp, cut_end=False):
    return wire.build_response(proto, kind, "proto", sent, error=err, comp=comp)


def client_body(ch, p):
    _, io, proto, kind, n, comp, err, cuts = p
    sent = [ch.pick(MSG, f"m{i}") for i in range(n)]
    e = Err("aborted", "no") if err else None

    def peer(req):
        # (a unary Connect response is one message by construction)
        r = wire.build_response(proto, "client_stream" if kind == "client_stream" else kind, "proto", sent, error=e, comp=comp)
        r.chunks = split_at(ch, r.body, cuts)
        return r

    out, _, _ = call_with(io, ("peer", peer), kind, ["q"], proto=proto)
    desc = lambda: f"{p} sent={sent} -> {out}"
    ch.ev(sent, out.short())
    expect(out.raised is None or out.error is not None, "non-rpc-error", desc)
    if n == 1 and not err:
        expect(out.raised is None and out.msgs == sent, "single-refused", desc)
        return "one"
    expect(out.error is not None and not out.msgs, "cardinality-accepted", desc)
    if err and n <= 1:
        expect(out.error.key() == e.key(), "error-changed", desc)
    return f"{n} {out.error.code}"


def release_body(ch, p):
    """a refused response is let go of while the server goes on sending"""
    _, proto, kind, timeout, icpt = p
    base = wire.build_response(proto, kind, "proto", ["r0", "r1", "r2"])
    log = {}

    async def main(env):
        class T:
            async def execute(self, request):
                if not isinstance(request.content, bytes):
                    async for _ in request.content:
                        pass
                c = GatedContent(env, base.chunks[:3], stall=True)
                log["content"] = c
                return Response(status=200, headers=HTTPHeaders(base.headers), content=c, trailers=HTTPHeaders())

        client = make_client(False, T(), proto, "proto", **({"timeout_ms": 10_000} if timeout else {}))
        out = await acall(client, kind, ["q"])
        log["closed"] = log["content"].closed
        for _ in range(10):
            await asyncio.sleep(0)
        log["closed_soon"] = log["content"].closed
        for nm in env.names():
            env.withdraw(nm)
        await asyncio.sleep(20)
        return out

    try:
        out, info = run(ch, main, time_race=False)
    except Deadlock as e:
        raise Violation("call-hangs", f"{p} {e}") from e
    desc = lambda: f"{p} {out} {log}"
    expect(out.error is not None and not out.msgs, "cardinality-accepted", desc)
    expect(log["closed"], "exchange-not-released", desc)
    expect(not info["leftover_tasks"] and not info["errors"], "leaked-task", lambda: str(info))
    return "released"


def release_sync_body(ch, p):
    _, proto, kind = p
    base = wire.build_response(proto, kind, "proto", ["r0", "r1", "r2"])
    log = {"closed": 0}

    class T:
        def execute_sync(self, request):
            if not isinstance(request.content, bytes):
                for _ in request.content:
                    pass

            def content():
                try:
                    yield from base.chunks[:3]
                    raise Violation("reads-on", "the refused response was read on")
                finally:
                    log["closed"] += 1
            return SyncResponse(status=200, headers=HTTPHeaders(base.headers), content=content(), trailers=HTTPHeaders())

    client = make_client(True, T(), proto, "proto")
    out = scall(client, kind, ["q"])
    desc = lambda: f"{p} {out} {log}"
    expect(out.error is not None and not out.msgs, "cardinality-accepted", desc)
    expect(log["closed"] == 1, "exchange-not-released", desc)
    return "released"


class Same:
    """A message equal to any other, and false."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = None


# What an application's codec may make of the messages on the wire.
VALUES = {"": None, "a": Same(), "b": 0, "c": []}


class ValueCodec:
    def name(self):
        return "proto"

    def encode(self, m):
        for k, v in VALUES.items():
            if type(m) is type(v):
                return wire.enc_msg("proto", k)
        return wire.enc_msg("proto", m)

    def decode(self, data, _cls):
        text = wire.dec_msg("proto", data)
        return VALUES.get(text, text)


def values_body(ch, p):
    """messages of an application's codec that are None, false, or equal to anything"""
    _, side, io, proto, kind, n = p
    sent = [ch.pick(list(VALUES), f"m{i}") for i in range(n)]
    is_sync = io in ("wsgi", "sync")
    seen = []
    err = None

    def known(v):
        seen.append(wire.dec_msg("proto", ValueCodec().encode(v)))

    if side == "server":
        if is_sync:
            def single(r, ctx):
                known(r)
                return "ok"

            def many(r, ctx):
                known(r)
                yield "ok"
        else:
            async def single(r, ctx):
                known(r)
                return "ok"

            async def many(r, ctx):
                known(r)
                yield "ok"
        app = (wsgi_app if is_sync else asgi_app)([(minfo(kind), kind, many if kind == "server_stream" else single)], codecs=[ValueCodec()])
        req = wire.build_request(proto, kind, "proto", sent, path=mpath(kind))
        r = wsgi_plain(app, req) if is_sync else asgi_sync(app, req)
        got = wire.parse_response(proto, kind, "proto", r.resp)
        err = got.error
        desc = lambda: f"{p} sent={sent} -> {got} handler got {seen} exc={r.exc!r}"
        expect(n != 1 or got.msgs == ["ok"], "single-refused", desc)
    else:
        reqs = []

        def peer(req):
            reqs.append(req)
            return wire.build_response(proto, kind, "proto", sent)

        kw = {"codec": ValueCodec(), "send_compression": None}
        try:
            if is_sync:
                c = make_client(True, SyncLink(peer), proto, **kw)
                known(c.execute_unary(request=None, method=minfo(kind)) if kind == "unary"
                      else c.execute_client_stream(request=iter([None, 0]), method=minfo(kind)))
            else:
                c = make_client(False, AsyncLink(peer), proto, **kw)

                async def it():
                    yield None
                    yield 0

                async def main(_env):
                    known(await (c.execute_unary(request=None, method=minfo(kind)) if kind == "unary"
                                 else c.execute_client_stream(request=it(), method=minfo(kind))))

                run(None, main)
        except ConnectError as e:
            err = e
        desc = lambda: f"{p} answered {sent} -> {seen} {err!r}"
        (q,) = reqs
        want = wire.build_request(proto, kind, "proto", [""] if kind == "unary" else ["", "b"], path=mpath(kind))
        expect(q.body == want.body, "request-changed", lambda: f"{p} {q.body} != {want.body}")
    ch.ev(sent, seen)
    if n == 1:
        expect(err is None and seen == sent, "single-refused", desc)
        return "one"
    expect(not seen and err is not None, "cardinality-accepted", desc)
    return f"{n} {err.code}"


def body(ch, p):
    return {"values": values_body, "release_sync": release_sync_body, "server": server_body, "client": client_body, "release": release_body}[p[0]](ch, p)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for proto in PROTOS:
        for kind in ("unary", "client_stream", "server_stream"):
            for n in (0, 1, 2, 3):
                if not (proto == "connect" and kind == "unary") or n == 1:
                    if kind in ("unary", "client_stream"):
                        out += [("values", "client", io, proto, kind, n) for io in ("async", "sync")]
                    if kind != "client_stream":
                        out += [("values", "server", io, proto, kind, n) for io in ("asgi", "wsgi")]
                for comp in ("identity", "gzip"):
                    for cuts in ((0, 1, 2) if big and n < 3 else (0, 1)):
                        if comp == "gzip" and cuts == 2:
                            continue
                        if kind in ("unary", "server_stream") and not (proto == "connect" and kind == "unary"):
                            for io in ("asgi", "wsgi"):
                                out.append(("server", io, proto, kind, n, comp, cuts))
                        if kind in ("unary", "client_stream") and not (proto == "connect" and kind == "unary"):
                            for io in ("async", "sync"):
                                for err in (False, True):
                                    out.append(("client", io, proto, kind, n, comp, err, cuts))
            if kind == "client_stream" or kind == "unary" and proto != "connect":
                out.append(("release_sync", proto, kind))
                for timeout in (False, True):
                    out.append(("release", proto, kind, timeout, 0))
    return out


CHECK = Check(
    id="C27", body=body, scenarios=scenarios,
    rule="0..3 messages (empty and not) in every direction that carries one, x protocol x kind x compression x every placement of "
         "up to 1 (thorough 2) cuts, both servers and both clients; every such sequence of messages that are None, false or equal to "
         "anything (a codec of the application), both servers and both clients; release of a refused response that never ends",
    assumptions=("a unary Connect body is one message by construction",),
)
