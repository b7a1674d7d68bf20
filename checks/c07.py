"""C07: compression negotiation and application."""
import itertools

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire

MSG = ["", "m" * 200, "\u00e9" * 40]
CONFIGS = {
    "default": (None, {"gzip"}),
    "none": ((), set()),
    "br": (("br",), {"br"}),
    "gz+br": (("gzip", "br"), {"gzip", "br"}),
    "zstd+gz": (("zstd", "gzip"), {"gzip", "zstd"}),
    "all": (("gzip", "br", "zstd"), {"gzip", "br", "zstd"}),
    "own": (("x-rot",), {"x-rot"}),
    "gz+own": (("gzip", "x-rot"), {"gzip", "x-rot"}),
}
ACCEPTS = [None, "", "identity", "gzip", "br", "zstd", "gzip,br", "br, gzip", "zstd , br", "nope", "nope,gzip", "nope, br ,zstd",
           "identity,gzip", "gzip,identity", "*", "gzip;q=0", "gzip;q=0, br", "gzip;q=1.0, br;q=0.5", "GZIP", ",gzip,", "gzipx", "deflate,gzip", "x-rot", "br, x-rot,gzip"]
LABELS = [None, "identity", "gzip", "br", "zstd", "x-rot", "nope"]
KNOWN = ("gzip", "br", "zstd", "x-rot")


def comps(cfg):
    c = CONFIGS[cfg][0]
    return None if c is None else [compression(n) for n in c]


def offered(accept):
    """names the caller accepts (q=0 means it does not)"""
    out = set()
    for part in (accept or "").split(","):
        name, _, par = part.strip().partition(";")
        q = 1.0
        if par.strip().startswith("q="):
            q = float(par.strip()[2:])
        if q > 0 and name.strip():
            out.add(name.strip().lower())
    return out


def handlers(sync, kind, seen, reply):
    def note(r):
        seen.append(r.value)

    if sync:
        def single(r, ctx):
            for m in (r if kind == "client_stream" else [r]):
                note(m)
            return M(reply[0])

        def many(r, ctx):
            for m in (r if kind == "bidi" else [r]):
                note(m)
            for x in reply:
                yield M(x)
    else:
        async def single(r, ctx):
            if kind == "client_stream":
                async for m in r:
                    note(m)
            else:
                note(r)
            return M(reply[0])

        async def many(r, ctx):
            if kind == "bidi":
                async for m in r:
                    note(m)
            else:
                note(r)
            for x in reply:
                yield M(x)
    return many if kind in ("server_stream", "bidi") else single


def server_body(ch, p):
    _, io, proto, kind, cfg, codec_name = p
    unary = proto == "connect" and kind == "unary"
    multi_req = kind in ("client_stream", "bidi")
    names, supported = CONFIGS[cfg]
    seen, reply = [], (["r" * 99] if kind in ("unary", "client_stream") else ["", "r" * 99])
    fn = handlers(io == "wsgi", kind, seen, reply)
    mk = wsgi_app if io == "wsgi" else asgi_app
    app = mk([(minfo(kind), kind, fn)], compressions=comps(cfg))
    part = ch.pick(["request", "response"], "part")
    accept = None
    comp = "identity"
    flags = [0]
    label = None
    sent = ["m" * 200]
    if part == "request":
        label = ch.pick(LABELS, "request encoding")
        comp = label if label in KNOWN else "identity"
        idx = [ch.choose(3, "message")] + ([ch.choose(3, "message")] if multi_req else [])
        sent = [MSG[i] for i in idx]
        flags = [ch.choose(2, "flag") if not unary and label not in (None, "identity") else (0 if comp == "identity" else 1)
                 for _ in sent]
        if not unary and label in (None, "identity"):
            flags = [ch.choose(2, "false flag") if not multi_req or i == 0 else 0 for i in range(len(sent))]
    else:
        accept = ch.pick(ACCEPTS, "accept")
    req = wire.build_request(proto, kind, codec_name, [], path=mpath(kind), accept=accept)
    if label is not None:
        req.headers.append((wire.enc_header(proto, kind), label))
    enc = [wire.enc_msg(codec_name, m) for m in sent]
    if unary:
        empty = part == "request" and enc[0] == b"" and ch.flag("body left empty")
        req.chunks = [enc[0] if empty else wire.compress(comp, enc[0])]
    else:
        req.chunks = [b"".join(wire.env(f, wire.compress(comp, e) if f else e) for f, e in zip(flags, enc))]
    r = wsgi_plain(app, req) if io == "wsgi" else asgi_sync(app, req)
    resp = r.mon.resp()
    desc = lambda: f"{p} label={label} flags={flags} sent={sent} accept={accept!r} -> {resp} seen={seen} exc={r.exc!r}"
    try:
        got = wire.parse_response(proto, kind, codec_name, resp)
    except wire.WireError as e:
        raise Violation("untruthful-response", f"{e} {desc()}") from e
    ch.ev(io, proto, kind, cfg, label, flags, accept, got.comp, got.error and got.error.code)
    # the response
    enc_names = resp.getall(wire.enc_header(proto, kind))
    expect(len(enc_names) <= 1, "repeated-encoding", desc)
    ok_names = offered(accept) & supported
    expect(got.comp == "identity" or got.comp in ok_names, "compression-not-offered", desc)
    # the request
    flagged = any(flags) if not unary else label not in (None, "identity")
    if label not in (None, "identity") and label not in supported:
        if proto == "connect" and not unary and not flagged:
            expect(got.error is not None or seen == sent, "message-changed", desc)
        else:
            expect(got.error is not None, "unsupported-accepted", desc)
            # the uncompressed messages before a flagged one may be seen
            expect(seen == sent[: len(seen)] and len(seen) < len(sent), "unsupported-accepted", desc)
            if proto != "connect" or unary:
                expect(got.error.code == "unimplemented" and not seen, "unsupported-code", desc)
        return "refused"
    if not unary and flagged and label in (None, "identity"):
        expect(got.error is not None, "unsupported-accepted", desc)
        return "flag without encoding"
    expect(got.error is None, "supported-refused", desc)
    expect(seen == sent, "message-changed", desc)
    expect(got.msgs == reply, "message-changed", desc)
    # (parameters may express that the caller prefers no compression)
    if accept and ";" not in accept and ok_names & {a.strip() for a in accept.split(",")} and "identity" not in accept:
        expect(got.comp != "identity", "not-compressed", desc)
    return f"{label} {got.comp}"


def client_body(ch, p):
    _, io, proto, kind, acc, send, codec_name = p
    unary = proto == "connect" and kind == "unary"
    names, offered_set = CONFIGS[acc]
    kw = {}
    if acc != "default":
        kw["accept_compression"] = comps(acc)
    if send != "default":
        kw["send_compression"] = compression(send) if send else None
    want_req = {"default": "gzip", None: "identity"}.get(send, send)
    multi_req = kind in ("client_stream", "bidi")
    multi_res = kind in ("server_stream", "bidi")
    i = ch.choose(3, "message")
    sent = [MSG[i], MSG[(i + 1) % 3]] if multi_req else [MSG[i]]
    label = ch.pick(LABELS, "response encoding")
    comp = label if label in KNOWN else "identity"
    replies = ["", "r" * 150] if multi_res else ["r" * 150]
    flags = [1 if comp != "identity" else 0] * len(replies)
    if not unary:
        flags = [ch.choose(2, "flag") for _ in replies]
    reqs = []

    def peer(req):
        reqs.append(req)
        base = wire.build_response(proto, kind, codec_name, replies if unary else [])
        h = list(base.headers)
        if label is not None:
            h.append((wire.enc_header(proto, kind), label))
        if unary:
            return Resp(200, h, [wire.compress(comp, b"".join(base.chunks))])
        chunks = []
        for f, m in zip(flags, replies):
            e = wire.enc_msg(codec_name, m)
            chunks.append(wire.env(f, wire.compress(comp, e) if f else e))
        return Resp(200, h, chunks + base.chunks, base.trailers)

    out, _, _ = call_with(io, ("peer", peer), kind, sent, proto=proto, codec_name=codec_name, client_kw=kw)
    desc = lambda: f"{p} sent={sent} label={label} flags={flags} -> {out} {reqs and reqs[0].headers}"
    expect(len(reqs) == 1, "requests", desc)
    try:
        msgs, hd, rcomp = wire.parse_request(proto, kind, codec_name, reqs[0])
    except wire.WireError as e:
        raise Violation("untruthful-request", f"{e} {desc()}") from e
    ch.ev(io, proto, kind, acc, send, label, flags, rcomp, out.short())
    expect(msgs == sent, "message-changed", desc)
    expect(rcomp == want_req, "request-compression", desc)
    acc_sent = offered(",".join(hd.get(wire.accept_header(proto, kind), [])))
    expect(acc_sent - {"identity"} == offered_set, "accept-header", desc)
    flagged = any(flags)
    if label not in (None, "identity") and label not in offered_set:
        expect(out.error is not None and not out.msgs, "unoffered-accepted", desc)
        return "refused"
    if not unary and flagged and label in (None, "identity"):
        expect(out.error is not None and len(out.msgs) < len(replies), "unoffered-accepted", desc)
        return "flag without encoding"
    expect(out.raised is None and out.msgs == replies, "message-changed", desc)
    return f"{label} {rcomp}"


def both_body(ch, p):
    _, cio, sio, proto, kind, codec_name = p
    scfg = ch.pick(list(CONFIGS), "server")
    acc = ch.pick(list(CONFIGS), "accept")
    send = ch.pick(["default", None, "gzip", "br", "zstd", "x-rot"], "send")
    kw = {}
    if acc != "default":
        kw["accept_compression"] = comps(acc)
    if send != "default":
        kw["send_compression"] = compression(send) if send else None
    seen = []
    sent = MSG if kind in ("client_stream", "bidi") else [MSG[1]]
    reply = MSG if kind in ("server_stream", "bidi") else [MSG[2]]
    fn = handlers(sio == "wsgi", kind, seen, reply)
    mk = wsgi_app if sio == "wsgi" else asgi_app
    app = mk([(minfo(kind), kind, fn)], compressions=comps(scfg))
    out, tr, runs = call_with(cio, (sio, app), kind, sent, proto=proto, codec_name=codec_name, client_kw=kw)
    name = {"default": "gzip", None: "identity"}.get(send, send)
    desc = lambda: f"{p} server={scfg} accept={acc} send={send} -> {out} seen={seen} {runs and runs[0].resp}"
    ch.ev("both", scfg, acc, send, out.short())
    if name != "identity" and name not in CONFIGS[scfg][1]:
        expect(out.error is not None and not seen, "unsupported-accepted", desc)
        return "refused"
    expect(out.raised is None and out.msgs == reply and seen == sent, "message-changed", desc)
    return "ok"


def body(ch, p):
    return {"server": server_body, "client": client_body, "both": both_body}[p[0]](ch, p)


def scenarios(tier):
    out = []
    codecs_ = ("proto", "json") if tier == "thorough" else ("proto",)
    for proto in PROTOS:
        for kind in KINDS:
            for codec_name in ("proto", "json"):
                for io in ("asgi", "wsgi"):
                    for cfg in CONFIGS:
                        if tier == "thorough" or codec_name == "proto" or cfg in ("all", "default", "gz+own"):
                            out.append(("server", io, proto, kind, cfg, codec_name))
            for codec_name in codecs_:
                for io in ("async", "sync"):
                    for acc in CONFIGS:
                        for send in ("default", None, "br", "zstd", "gzip", "x-rot"):
                            if tier == "thorough" or acc in ("default", "all", "none", "gz+own") or send == "default":
                                out.append(("client", io, proto, kind, acc, send, codec_name))
                    for sio in ("asgi", "wsgi"):
                        if tier == "thorough" or (io == "async") == (sio == "asgi"):
                            out.append(("both", io, sio, proto, kind, codec_name))
    return out


CHECK = Check(
    id="C07", body=body, scenarios=scenarios,
    rule="server: every configured set x request label x per-message flag x accept header from a grid; client: every offer x send "
         "setting x response label x per-message flag; client against server: every pair of configurations; strict independent reader",
    assumptions=("unary Connect response bodies in gzip, br and zstd are decompressed by the HTTP client library",
                 "a Connect stream that names an unknown algorithm but compresses nothing may be served"),
)
