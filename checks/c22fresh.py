"""Histories of calls in a process that has made none before (part of C22)."""
from mc.rig import *  # noqa: F403
from mc import wire
from mc.vloop import run

VARIANTS = ("plain", "meta", "error", "gzip", "refused")


def handlers(is_sync, log):
    def before(r, ctx):
        v = ctx.request_headers.get("x-variant", "plain")
        log.append([ctx.method.name, sorted(kv for kv in ctx.request_headers.allitems() if kv[0] != "host"), ctx.timeout_ms is not None])
        if v == "meta":
            ctx.response_headers.add("x-h", "1")
            ctx.response_headers.add("x-h", "2")
            ctx.response_trailers.add("x-t", "1")
            ctx.response_trailers.add("x-t", "2")
        if v == "error":
            ctx.response_trailers.add("x-e", "1")
            raise ConnectError(Code.ABORTED, "no", details=[M("detail")])
        return v

    if is_sync:
        def single(r, ctx):
            before(r, ctx)
            got = [m.value for m in r] if not hasattr(r, "value") else [r.value]
            log.append(got)
            return M("".join(got))

        def many(r, ctx):
            before(r, ctx)
            for m in ([r] if hasattr(r, "value") else r):
                log.append(m.value)
                yield M(m.value * 2)
            yield M("last")
    else:
        async def single(r, ctx):
            before(r, ctx)
            got = [r.value] if hasattr(r, "value") else [m.value async for m in r]
            log.append(got)
            return M("".join(got))

        async def many(r, ctx):
            before(r, ctx)
            if hasattr(r, "value"):
                log.append(r.value)
                yield M(r.value * 2)
            else:
                async for m in r:
                    log.append(m.value)
                    yield M(m.value * 2)
            yield M("last")
    return [(minfo(k), k, many if k in ("server_stream", "bidi") else single) for k in KINDS]


def fresh(history):
    """What each call of the history is like: [requests, what the handler saw, outcome]."""
    is_sync, shared, steps = history
    log: list = []
    app = (wsgi_app if is_sync else asgi_app)(handlers(is_sync, log))
    clients: dict = {}
    out = []
    for proto, kind, variant in steps:
        log.clear()
        link = (SyncLink(serve_wsgi(app)) if is_sync else AsyncLink(serve_asgi_async(app)))
        if variant == "refused":
            link.serve = lambda req: Resp(503, [("content-type", "application/json")], [b'{"code": "aborted", "message": "x"}'])
        key = proto
        if shared and key in clients:
            c, link2 = clients[key]
            link2.serve, link2.requests = link.serve, []
            link = link2
        else:
            c = make_client(is_sync, link, proto, send_compression=None)
            clients[key] = (c, link)
        headers = Headers([("x-variant", variant)])
        if variant == "gzip":
            headers.add("x-mark", "1")
            headers.add("x-mark", "2")
        msgs = ["a", "bb"] if kind in ("client_stream", "bidi") else ["a" * 40]
        kw = {"headers": headers, "timeout_ms": 70_000 if variant == "gzip" else None}
        if is_sync:
            o = scall(c, kind, msgs, **kw)
        else:
            async def main(_env, c=c):
                return await acall(c, kind, msgs, **kw)
            o, _ = run(None, main)
        drop = ("connect-timeout-ms", "grpc-timeout", "user-agent", "host")
        reqs = [[r.method, r.path, r.query, sorted([k, v] for k, v in r.headers if k not in drop), r.body.hex()] for r in link.requests]
        seen = [[e[0], [list(kv) for kv in e[1] if kv[0] not in drop], e[2]] if isinstance(e, list) and len(e) == 3 else e for e in log]
        out.append([reqs, seen, o.msgs, repr(o.error and o.error.key()), type(o.raised).__name__,
                    sorted(map(list, o.headers)), sorted(map(list, o.trailers))])
    return out


def warm():
    """What pyqwest, the event loop and the codec of the checks import when first used."""
    HTTPClient(transport=AsyncLink(None))
    SyncClient(transport=SyncLink(None))

    async def nothing(_env):
        pass

    run(None, nothing)
