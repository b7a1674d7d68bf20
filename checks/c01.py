"""C01: any chunking of a stream yields the same messages, in order, promptly."""
from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire


def cut_body(ch, body: bytes, cuts: int):
    """All ways to place `cuts` ordered cut points (equal points give empty chunks)."""
    pts = []
    lo = 0
    for i in range(cuts):
        lo += ch.choose(len(body) - lo + 1, f"cut{i}")
        pts.append(lo)
    out, prev = [], 0
    for p in pts:
        out.append(body[prev:p])
        prev = p
    out.append(body[prev:])
    return out


def fixed_chunks(body: bytes, size: int):
    return [body[i : i + size] for i in range(0, len(body), size)] or [b""]


def mixed_env(i, comp, data):
    if comp == "mixed":
        return env(1, wire.compress("gzip", data)) if i % 2 == 0 else env(0, data)
    return env(0 if comp == "identity" else 1, wire.compress(comp, data))


env = wire.env


def build(p):
    side, proto, kind, codec_name, comp, msgs, style = p
    cname = "gzip" if comp == "mixed" else comp
    mb = [mixed_env(i, comp, wire.enc_msg(codec_name, m)) for i, m in enumerate(msgs)]
    return cname, mb


def ends(mb):
    out, n = [], 0
    for b in mb:
        n += len(b)
        out.append(n)
    return out


def server_body(ch, p):
    side, proto, kind, codec_name, comp, msgs, style = p
    cname, mb = build(p)
    body = b"".join(mb)
    chunks = fixed_chunks(body, style[1]) if style[0] == "fixed" else cut_body(ch, body, style[1])
    req = wire.build_request(proto, kind, codec_name, [], path=mpath(kind), comp=cname)
    req.chunks = chunks
    got = []
    calls = []
    ended = []
    complete_at = ends(mb)

    def delivered(n_bytes):
        return sum(1 for e in complete_at if e <= n_bytes)

    if side == "asgi":
        async def unary(r, ctx):
            calls.append(1)
            got.append(r.value)
            return M("done")

        async def cstream(it, ctx):
            calls.append(1)
            async for m in it:
                got.append(m.value)
            ended.append(1)
            return M("done")

        async def sstream(r, ctx):
            calls.append(1)
            got.append(r.value)
            yield M("done")

        async def bidi(it, ctx):
            calls.append(1)
            async for m in it:
                got.append(m.value)
                yield M("r:" + m.value)
            ended.append(1)

        fn = {"unary": unary, "client_stream": cstream, "server_stream": sstream, "bidi": bidi}[kind]
        app = asgi_app([(minfo(kind), kind, fn)])
        tail = style[0] == "cuts" and ch.flag("tail-empty")
        late = []

        async def main(ev):
            def on_release(k):
                if kind in ("client_stream", "bidi") and k > 0:
                    n = sum(len(c) for c in chunks[:k])
                    if len(got) != delivered(n):
                        late.append((k, n, len(got), delivered(n)))
            srv = GatedServer(ev, req, None, on_release=on_release, tail_empty=tail)
            await app(asgi_scope(req), srv.receive, srv.send)
            return srv

        srv, info = run(None, main)
        expect(not late, "late-delivery", lambda: f"(chunk, bytes, delivered, complete) {late[:3]} chunks={[c[:80] for c in chunks[:20]]}")
        resp = srv.mon.resp()
    else:
        def unary(r, ctx):
            calls.append(1)
            got.append(r.value)
            return M("done")

        def cstream(it, ctx):
            calls.append(1)
            for m in it:
                got.append(m.value)
            ended.append(1)
            return M("done")

        def sstream(r, ctx):
            calls.append(1)
            got.append(r.value)
            yield M("done")

        def bidi(it, ctx):
            calls.append(1)
            for m in it:
                got.append(m.value)
                yield M("r:" + m.value)
            ended.append(1)

        fn = {"unary": unary, "client_stream": cstream, "server_stream": sstream, "bidi": bidi}[kind]
        app = wsgi_app([(minfo(kind), kind, fn)])
        late = []

        class Inp(Input):
            def read(self, n=-1):
                if kind in ("client_stream", "bidi") and len(got) != delivered(self.consumed):
                    late.append((self.consumed, len(got), delivered(self.consumed)))
                return super().read(n)

        r = wsgi_plain(app, req, None, inp=Inp(chunks))
        expect(r.exc is None, "app-raised", lambda: repr(r.exc))
        expect(not late, "late-delivery", lambda: f"(bytes, delivered, complete) {late[:3]} chunks={[c[:80] for c in chunks[:20]]}")
        resp = r.resp
    ch.ev("got", got)
    expect(calls == [1], "handler-calls", lambda: f"{calls} chunks={[c[:80].hex() for c in chunks[:20]]}")
    expect(got == list(msgs), "messages", lambda: f"got {str(got)[:300]} want {str(msgs)[:300]} chunks={[c[:80].hex() for c in chunks[:20]]}")
    if kind in ("client_stream", "bidi"):
        expect(ended == [1], "no-clean-end", lambda: f"{ended}")
    pr = wire.parse_response(proto, kind, codec_name, resp)
    expect(pr.error is None, "error", lambda: f"{pr.error}")
    want = ["r:" + m for m in msgs] if kind == "bidi" else ["done"]
    expect(pr.msgs == want, "response-messages", lambda: f"{str(pr.msgs)[:300]}")
    return f"{side} {kind} {len(msgs)}"


def client_body(ch, p):
    side, proto, kind, codec_name, comp, msgs, style = p
    cname, mb = build(p)
    base = wire.build_response(proto, kind, codec_name, [], comp=cname, trailers=[("x-t", "1")])
    endchunks = base.chunks
    body = b"".join(mb) + b"".join(endchunks)
    chunks = fixed_chunks(body, style[1]) if style[0] == "fixed" else cut_body(ch, body, style[1])
    complete_at = ends(mb)
    got = []
    late = []
    kw = {"accept_compression": [compression("gzip"), compression("br"), compression("zstd")]}

    def delivered(n_bytes):
        return sum(1 for e in complete_at if e <= n_bytes)

    streaming = kind in ("server_stream", "bidi")
    if side == "aclient":
        async def main(ev):
            def on_release(k):
                n = sum(len(c) for c in chunks[:k])
                if streaming and len(got) != delivered(n):
                    late.append((k, n, len(got), delivered(n)))

            class T:
                async def execute(self, request):
                    async for _ in request.content:
                        pass
                    tr = HTTPHeaders()
                    return Response(
                        status=base.status, headers=HTTPHeaders(base.headers),
                        content=GatedContent(ev, chunks, on_release=on_release, trailers=tr,
                                             fill=base.trailers or []),
                        trailers=tr)

            c = make_client(False, T(), proto, codec_name, **kw)
            return await acall(c, kind, ["q"], on_msg=got.append)

        out, _ = run(None, main)
    else:
        class T:
            def execute_sync(self, request):
                for _ in request.content:
                    pass
                tr = HTTPHeaders()

                def content():
                    n = 0
                    for i, c in enumerate(chunks):
                        if streaming and len(got) != delivered(n):
                            late.append((i, n, len(got), delivered(n)))
                        n += len(c)
                        yield c
                    for k, v in base.trailers or []:
                        tr.add(k, v)

                return SyncResponse(status=base.status, headers=HTTPHeaders(base.headers),
                                    content=content(), trailers=tr)

        c = make_client(True, T(), proto, codec_name, **kw)
        out = scall(c, kind, ["q"], on_msg=got.append)
    ch.ev("out", out.short(), got)
    expect(out.raised is None, "client-error", lambda: f"{out.raised!r} chunks={[c[:80].hex() for c in chunks[:20]]}")
    expect(out.msgs == list(msgs), "messages", lambda: f"got {str(out.msgs)[:300]} want {str(msgs)[:300]} chunks={[c[:80].hex() for c in chunks[:20]]}")
    expect(not late, "late-delivery", lambda: f"{late[:3]} chunks={[c[:80].hex() for c in chunks[:20]]}")
    expect(("x-t", "1") in out.trailers, "trailers", lambda: f"{out.trailers}")
    return f"{side} {kind} {len(msgs)}"


def body(ch, p):
    if p[6][0] == "huge":
        # (sizes instead of texts in the description)
        p = (*p[:5], tuple("x" * n for n in p[5]), ("fixed", p[6][1]))
    return server_body(ch, p) if p[0] in ("asgi", "wsgi") else client_body(ch, p)


SMALL = [(), ("",), ("a",), ("", "\u00e9"), ("ab", "", "c")]
SIZES = [0, 1, 4, 5, 120, 125, 126, 250, 251, 4085, 4089, 4090, 4091, 4096, 8192, 16384, 65530, 65536, 70000]


def scenarios(tier):
    out = []
    big = tier == "thorough"
    for side in ("asgi", "wsgi", "aclient", "sclient"):
        for proto in PROTOS:
            for comp in ("identity", "gzip", "mixed") + (("br", "zstd") if big else ()):
                if side in ("asgi", "wsgi") and comp in ("br", "zstd"):
                    continue
                for cn in ("proto", "json"):
                    for msgs in SMALL:
                        if cn == "json" and not big and msgs != ("ab", "", "c"):
                            continue
                        for kind in KINDS:
                            if proto == "connect" and kind == "unary":
                                continue
                            one = kind in (("unary", "server_stream") if side in ("asgi", "wsgi") else ("unary", "client_stream"))
                            if one and len(msgs) != 1:
                                continue
                            cuts = 2
                            if not big and (cn == "json" or (comp != "identity" and kind != "bidi")
                                            or (comp == "gzip" and len(msgs) > 2)):
                                cuts = 1
                            out.append((side, proto, kind, cn, comp, msgs, ("cuts", cuts)))
                            if big and comp == "identity" and len(msgs) <= 2:
                                out.append((side, proto, kind, cn, comp, msgs, ("cuts", 3)))
                            out.append((side, proto, kind, cn, comp, msgs, ("fixed", 1)))
            for size in SIZES + ([1 << 20, (1 << 20) + 3] if big else [300000]):
                for cs in (7, 1000, 4095, 4096, 4097, 65536, 1 << 22):
                    if cs == 7 and size > 9000:
                        continue
                    if cs < 4096 and size > 20000 and not big:
                        continue
                    for comp in ("identity", "gzip"):
                        out.append((side, proto, "bidi", "proto", comp, ("x" * size, "tail", "y" * (size // 2)), ("fixed", cs)))
            for size in ((1 << 24) - 6, 1 << 24) + (((1 << 24) - 5, (1 << 24) - 4, (1 << 25) + 1) if big else ()):
                for cs in (1 << 20, 1 << 25):
                    out.append((side, proto, "bidi", "proto", "identity", (size, 4, 0), ("huge", cs)))
    return out


CHECK = Check(
    id="C01", body=body, scenarios=scenarios,
    rule="every placement of <=2 (thorough: 3) chunk boundaries, one byte per chunk, and fixed-size "
         "chunkings around 4096, for every side x protocol x RPC kind x compression pattern x "
         "message list (messages of 0 bytes to 16 MiB and more); chunk k+1 is only released when the program is quiescent",
    assumptions=("message sizes and lists are the enumerated ones",
                 "zlib/brotli/zstandard decode what they encoded"),
)
