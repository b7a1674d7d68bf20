"""C08: messages over the read limit are refused, all others accepted."""
import base64
import hashlib
from urllib.parse import urlencode

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire

LIMITS = [64, 1000, 0, 1]
COMPS = ["identity", "gzip", "br", "zstd"]


def text(n, kind):
    """n ASCII characters: well or badly compressible"""
    if kind == "zip":
        return "a" * n
    out = ""
    i = 0
    while len(out) < n:
        out += base64.b85encode(hashlib.sha256(str(i).encode()).digest()).decode().replace("\\", "_").replace('"', "_")
        i += 1
    return "".join(c for c in out if c.isalnum())[:n].ljust(n, "z")


def of_size(codec_name, size, kind):
    """a message whose encoding has exactly `size` bytes (or None)"""
    for n in range(size, -1, -1):
        m = text(n, kind)
        if len(wire.enc_msg(codec_name, m)) == size:
            return m
        if len(wire.enc_msg(codec_name, m)) < size:
            return None
    return None


def sizes(limit):
    return sorted({0, 1, max(limit - 1, 0), limit, limit + 1, limit * 3, limit * 40, 10})


def within(codec_name, limit):
    return of_size(codec_name, limit, "rand") or of_size(codec_name, max(limit - 1, 0), "rand")


def neighbours(ch, codec_name, limit, multi):
    """messages within the limit before and after the one under test"""
    small = within(codec_name, limit)
    if small is None and len(wire.enc_msg(codec_name, "")) <= limit:
        small = ""
    if not multi or small is None:
        return [], []
    return [small] * ch.choose(3, "messages before"), [small] * ch.choose(2, "one after")


def pick_msg(ch, codec_name, limit):
    s = ch.pick(sizes(limit), "size")
    k = ch.pick(["zip", "rand"], "content")
    m = of_size(codec_name, s, k)
    if m is None:
        raise Prune
    return m, s


def server_body(ch, p):
    _, io, proto, kind, codec_name, comp, limit, method = p
    seen = []
    multi = kind in ("client_stream", "bidi")
    before, after = neighbours(ch, codec_name, limit, multi)
    n = len(before)
    m, s = pick_msg(ch, codec_name, limit)
    sent = before + [m] + after
    if io == "wsgi":
        def single(r, ctx):
            for x in (r if kind == "client_stream" else [r]):
                seen.append(x.value)
            return M("ok")

        def many(r, ctx):
            for x in (r if kind == "bidi" else [r]):
                seen.append(x.value)
            yield M("ok")
    else:
        async def single(r, ctx):
            if kind == "client_stream":
                async for x in r:
                    seen.append(x.value)
            else:
                seen.append(r.value)
            return M("ok")

        async def many(r, ctx):
            if kind == "bidi":
                async for x in r:
                    seen.append(x.value)
            else:
                seen.append(r.value)
            yield M("ok")
    fn = many if kind in ("server_stream", "bidi") else single
    mk = wsgi_app if io == "wsgi" else asgi_app
    mi = minfo(kind, idem=IdempotencyLevel.NO_SIDE_EFFECTS if method == "GET" else IdempotencyLevel.UNKNOWN)
    app = mk([(mi, kind, fn)], read_max_bytes=limit, compressions=[compression(c) for c in COMPS[1:]])
    if method == "GET":
        data = wire.compress(comp, wire.enc_msg(codec_name, m))
        q = {"connect": "v1", "encoding": codec_name}
        if comp != "identity":
            q["compression"] = comp
        if comp != "identity" or ch.flag("base64"):
            q["base64"] = "1"
            q["message"] = base64.urlsafe_b64encode(data).decode().rstrip("=")
        else:
            q["message"] = data
        req = Req("GET", mpath(kind), urlencode(q), [("host", "example.test")], [])
    else:
        req = wire.build_request(proto, kind, codec_name, sent, path=mpath(kind), comp=comp)
        if ch.flag("content-length"):
            req.headers.append(("content-length", str(len(req.body))))
        if ch.flag("split"):
            b = req.body
            req.chunks = [b[:7], b[7:]]
    r = wsgi_plain(app, req) if io == "wsgi" else asgi_sync(app, req)
    desc = lambda: f"{p} size={s} n={n} -> {r.resp.status} {r.resp.body[:200]} {r.resp.trailers} seen={[len(x) for x in seen]}"
    got = wire.parse_response(proto, kind, codec_name, r.resp)
    ch.ev(io, s, n, got.error and got.error.code, len(seen))
    if s > limit:
        expect(got.error is not None and got.error.code == "resource_exhausted", "oversize-accepted", desc)
        expect(seen == sent[:n], "oversize-delivered", desc)
        return "refused"
    expect(got.error is None and seen == sent, "within-limit-refused", desc)
    return "ok"


def client_body(ch, p):
    _, io, proto, kind, codec_name, comp, limit, method = p
    multi = kind in ("server_stream", "bidi")
    before, after = neighbours(ch, codec_name, limit, multi)
    n = len(before)
    m, s = pick_msg(ch, codec_name, limit)
    sent = before + [m] + after
    split = ch.flag("split")
    length = ch.flag("content-length")

    def peer(req):
        r = wire.build_response(proto, kind, codec_name, sent, comp=comp)
        if length:
            r.headers.append(("content-length", str(len(r.body))))
        if split:
            b = r.body
            r.chunks = [b[:7], b[7:]]
        return r

    kw = {"read_max_bytes": limit, "accept_compression": [compression(c) for c in COMPS[1:]]}
    call = {"use_get": True} if method == "GET" else {}
    if method == "GET":
        call["mi"] = minfo(kind, idem=IdempotencyLevel.NO_SIDE_EFFECTS)
    out, _, _ = call_with(io, ("peer", peer), kind, ["q"], proto=proto, codec_name=codec_name, client_kw=kw, **call)
    desc = lambda: f"{p} size={s} n={n} -> {out.raised!r} {[len(x) for x in out.msgs]}"
    ch.ev(io, s, n, out.short())
    if s > limit:
        expect(out.error is not None and out.error.code == "resource_exhausted", "oversize-accepted", desc)
        expect(out.msgs == sent[:n], "oversize-delivered", desc)
        return "refused"
    expect(out.raised is None and out.msgs == sent, "within-limit-refused", desc)
    return "ok"


def total_body(ch, p):
    """many small messages, and no limit at all"""
    _, io, proto, kind, limit = p
    total = 400
    small = of_size("proto", limit, "rand")
    huge = "x" * 200_000
    mode = ch.pick(["many small", "no limit"], "mode")
    msgs = [small] * total if mode == "many small" else [huge, huge]
    kw = {"read_max_bytes": limit} if mode == "many small" else {}
    if kind in ("unary",):
        msgs = msgs[-1:]
    seen = []
    if io in ("asgi", "wsgi"):
        if io == "wsgi":
            def fn(it, ctx):
                for x in (it if kind != "unary" else [it]):
                    seen.append(x.value)
                return M("ok")
        else:
            async def fn(it, ctx):
                if kind == "unary":
                    seen.append(it.value)
                else:
                    async for x in it:
                        seen.append(x.value)
                return M("ok")
        app = (wsgi_app if io == "wsgi" else asgi_app)([(minfo(kind), kind, fn)], **kw)
        req = wire.build_request(proto, kind, "proto", msgs, path=mpath(kind))
        r = wsgi_plain(app, req) if io == "wsgi" else asgi_sync(app, req)
        got = wire.parse_response(proto, kind, "proto", r.resp)
        expect(got.error is None and seen == msgs, "within-limit-refused", lambda: f"{p} {mode} {got} {len(seen)}")
    else:
        k2 = "unary" if kind == "unary" else "server_stream"
        peer = lambda req: wire.build_response(proto, k2, "proto", msgs)
        out, _, _ = call_with(io, ("peer", peer), k2, ["q"], proto=proto, client_kw=kw)
        expect(out.raised is None and out.msgs == msgs, "within-limit-refused", lambda: f"{p} {mode} {out.raised!r} {len(out.msgs)}")
    return mode


def end_body(ch, p):
    """The end-of-stream message of a response counts as a message."""
    _, io, proto, kind, comp, limit = p
    s = ch.pick([limit - 1, limit, limit + 1, limit * 3], "size")
    err = ch.pick([None, Err("not_found", "no", [])], "outcome")
    msgs = ["a", "b"] if kind in ("server_stream", "bidi") else ["a"]
    if err is not None:
        msgs = msgs[1:]
    fill = ch.pick(["message", "trailer"] if err else ["trailer"], "what is long")
    for n in range(4 * limit):
        e, tr = err, ()
        if fill == "message":
            e = Err("not_found", "m" * n, [])
        else:
            tr = (("x-t", "v" * n),)
        r = wire.build_response(proto, kind, "proto", msgs, error=e, trailers=tr)
        if len(wire.split_envs(r.chunks[-1])[0][0][1]) == s:
            break
    else:
        raise HarnessError(f"no end message of {s} bytes")
    split = ch.flag("split")

    def peer(req):
        r = wire.build_response(proto, kind, "proto", msgs, error=e, trailers=tr, comp=comp)
        if split:
            b = r.body
            r.chunks = [b[:7], b[7:-3], b[-3:]]
        return r
    out, _, _ = call_with(io, ("peer", peer), kind, ["q"], proto=proto, client_kw={"read_max_bytes": limit, "accept_compression": [compression(c) for c in COMPS[1:]]})
    desc = lambda: f"{p} size={s} {fill} -> {out.raised!r} {out.msgs} {out.trailers}"
    ch.ev(s, err and err.code, out.short())
    if kind in ("server_stream", "bidi"):
        expect(out.msgs == msgs, "messages", desc)
    if s > limit:
        expect(out.error is not None and out.error.code == "resource_exhausted", "oversize-accepted", desc)
        return "refused"
    if err is None:
        expect(out.raised is None and out.msgs == msgs, "within-limit-refused", desc)
    else:
        expect(out.error is not None and out.error.code == "not_found" and out.error.message == e.message, "within-limit-refused", desc)
    expect([(k, v) for k, v in out.trailers if k == "x-t"] == list(tr), "within-limit-refused", desc)
    return "ok"


def body(ch, p):
    return {"end": end_body, "server": server_body, "client": client_body, "total": total_body}[p[0]](ch, p)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for proto in PROTOS:
        for kind in KINDS:
            for codec_name in ("proto", "json"):
                for comp in COMPS:
                    for limit in LIMITS if big or comp in ("identity", "gzip") else LIMITS[:1]:
                        if limit < 64 and comp not in ("identity", "gzip"):
                            continue
                        for method in ("POST",) + (("GET",) if proto == "connect" and kind == "unary" else ()):
                            for side, ios in (("server", ("asgi", "wsgi")), ("client", ("async", "sync"))):
                                for io in ios:
                                    if side == "client" and limit < 64 and not (proto == "grpc" or proto == "connect" and kind == "unary"):
                                        continue  # the end-of-stream message is larger
                                    out.append((side, io, proto, kind, codec_name, comp, limit, method))
            if proto == "grpcweb" or proto == "connect" and kind != "unary":
                for io in ("async", "sync"):
                    for comp in COMPS:
                        for limit in (100, 1000) if big else (100,):
                            out.append(("end", io, proto, kind, comp, limit))
            if kind in ("unary", "client_stream"):
                for io in ("asgi", "wsgi", "async", "sync"):
                    out.append(("total", io, proto, kind, 64))
    return out


CHECK = Check(
    id="C08", body=body, scenarios=scenarios,
    rule="both servers and both clients x protocol x kind x codec x compression x GET/POST; encoded sizes {0, 1, N-1, N, N+1, 3N, 40N}, "
         "compressible and not, at every position of a stream, end-of-stream messages of {N-1, N, N+1, 3N}; streams far beyond N in total",
    assumptions=("end-of-stream messages count against the client's limit",),
)
