"""C02: a stream that was cut anywhere is never taken for a complete one."""
import base64
from urllib.parse import urlencode

from pyqwest import ReadError, StreamError, StreamErrorCode

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire


def handlers(kind, sync, rec):
    """rec: dict with calls, got, ended, iter_err"""
    if sync:
        def unary(r, ctx):
            rec["calls"].append(r.value)
            return M("done")

        def cstream(it, ctx):
            rec["calls"].append("*")
            try:
                for m in it:
                    rec["got"].append(m.value)
            except Exception as e:
                rec["iter_err"].append(e)
                raise
            rec["ended"].append(1)
            return M("done")

        def sstream(r, ctx):
            rec["calls"].append(r.value)
            yield M("done")

        def bidi(it, ctx):
            rec["calls"].append("*")
            try:
                for m in it:
                    rec["got"].append(m.value)
                    yield M("r")
            except Exception as e:
                rec["iter_err"].append(e)
                raise
            rec["ended"].append(1)
    else:
        async def unary(r, ctx):
            rec["calls"].append(r.value)
            return M("done")

        async def cstream(it, ctx):
            rec["calls"].append("*")
            try:
                async for m in it:
                    rec["got"].append(m.value)
            except Exception as e:
                rec["iter_err"].append(e)
                raise
            rec["ended"].append(1)
            return M("done")

        async def sstream(r, ctx):
            rec["calls"].append(r.value)
            yield M("done")

        async def bidi(it, ctx):
            rec["calls"].append("*")
            try:
                async for m in it:
                    rec["got"].append(m.value)
                    yield M("r")
            except Exception as e:
                rec["iter_err"].append(e)
                raise
            rec["ended"].append(1)

    return {"unary": unary, "client_stream": cstream, "server_stream": sstream, "bidi": bidi}[kind]


def server_body(ch, p):
    side, proto, kind, cn, comp, msgs, fault = p
    sync = side == "wsgi"
    rec = {"calls": [], "got": [], "ended": [], "iter_err": []}
    app = (wsgi_app if sync else asgi_app)([(minfo(kind), kind, handlers(kind, sync, rec))])
    full = wire.build_request(proto, kind, cn, list(msgs), path=mpath(kind), comp=comp)
    body = full.body
    n = len(body) + (1 if fault in ("disconnect", "readerror") else 0)
    if n == 0:
        return "nothing to cut"
    cut = ch.choose(n, "cut")
    split = ch.choose(2, "as one chunk / per byte")
    piece = body[:cut]
    chunks = [piece] if split == 0 else [piece[i:i + 1] for i in range(len(piece))]
    unframed = proto == "connect" and kind == "unary"
    # which messages are wholly there
    n_full = 0
    on_boundary = True
    if not unframed:
        envs, rest = wire.split_envs(piece)
        n_full = len(envs)
        on_boundary = not rest
    full.chunks = chunks
    if sync:
        inp = Input(chunks, eof_error=OSError("reset") if fault == "readerror" else None)
        if fault == "short":
            full.headers.append(("content-length", str(len(body))))
        r = wsgi_plain(app, full, inp=inp)
        expect(r.exc is None, "app-raised", lambda: repr(r.exc))
        resp = r.resp
    else:
        async def main(ev):
            srv = GatedServer(ev, full, None)
            srv.chunks = chunks or [b""]
            if fault == "disconnect":
                # never a last chunk: the client goes away instead
                srv.chunks = [*chunks, b"never"] if chunks else [b"never"]
                srv._orig = srv._release

                def rel():
                    if srv.next == len(chunks):
                        srv._disc()
                    else:
                        srv._orig()
                srv._release = rel
                ev.withdraw("chunk0")
                srv._offer()
            exc = None
            try:
                await app(asgi_scope(full), srv.receive, srv.send)
            except Exception as e:
                exc = e
            return srv, exc

        (srv, exc), info = run(None, main)
        resp = srv.mon.resp()
        expect(not info["leftover_tasks"], "leaked-task", lambda: str(info["leftover_tasks"]))
    ch.ev("rec", rec["calls"], rec["got"], len(rec["ended"]), [type(e).__name__ for e in rec["iter_err"]], resp.status)
    truncated = fault in ("disconnect", "readerror") or (
        fault == "short" if unframed else not on_boundary)
    if unframed and not truncated:
        return "n/a"
    if kind in ("client_stream", "bidi"):
        expect(rec["got"] == list(msgs[:n_full]), "wrong-messages", lambda: f"cut={cut} {rec['got']} want {msgs[:n_full]}")
        if truncated:
            expect(not rec["ended"], "truncated-stream-ended-cleanly", lambda: f"cut={cut}/{len(body)} handler saw a normal end of stream")
            expect(rec["iter_err"], "no-error-to-handler", f"cut={cut}")
        else:
            expect(rec["ended"] and not rec["iter_err"], "complete-stream-failed", lambda: f"cut={cut} {rec}")
    else:
        if truncated or n_full != 1:
            expect(not rec["calls"], "handler-on-truncated-request", lambda: f"cut={cut}/{len(body)} calls={rec['calls']}")
        else:
            expect(rec["calls"] == [msgs[0]], "complete-request-failed", lambda: f"cut={cut} {rec}")
    # the peer, if still there, must be told
    if fault != "disconnect":
        try:
            pr = wire.parse_response(proto, kind, cn, resp)
            ok = pr.error is None
        except wire.WireError as e:
            ok = False
            if 200 <= resp.status < 300:
                expect(False, "malformed-response", f"cut={cut} {e}")
        bad = truncated or (kind in ("unary", "server_stream") and n_full != 1)
        expect(ok != bad, "success-for-truncated-request" if bad else "error-for-complete-request",
               lambda: f"cut={cut}/{len(body)} resp={resp}")
        return f"{side} {kind} {'truncated' if truncated else 'whole'} {'err' if not ok else 'ok'}"
    return f"{side} {kind} disconnect"


FAULTS = {
    "eof": None,
    "read": lambda: ReadError("connection reset"),
    "rst_cancel": lambda: StreamError("rst", StreamErrorCode.CANCEL),
    "rst_noerror": lambda: StreamError("rst", StreamErrorCode.NO_ERROR),
    "conn": lambda: ConnectionError("gone"),
}


def client_body(ch, p):
    side, proto, kind, cn, comp, msgs, fault, err = p
    error = Err("aborted", "no") if err else None
    full = wire.build_response(proto, kind, cn, list(msgs), comp=comp, error=error, trailers=[("x-t", "1")])
    body = full.body
    unframed = proto == "connect" and kind == "unary"
    n = len(body) + (1 if FAULTS.get(fault) or proto == "grpc" and fault == "eof" else 0)
    if n == 0:
        return "nothing to cut"
    cut = ch.choose(n, "cut")
    split = ch.choose(2, "as one chunk / per byte")
    piece = body[:cut]
    chunks = [piece] if split == 0 else [piece[i:i + 1] for i in range(len(piece))]
    give_trailers = fault == "eof+trailers"
    mk = FAULTS.get(fault)
    kw = {}

    def fin(tr):
        if give_trailers:
            for k, v in full.trailers or []:
                tr.add(k, v)
        if mk:
            raise mk()

    if side == "aclient":
        class T:
            async def execute(self, request):
                if not isinstance(request.content, bytes):
                    async for _ in request.content:
                        pass
                tr = HTTPHeaders()

                async def content():
                    for c in chunks:
                        yield c
                    fin(tr)
                return Response(status=full.status, headers=HTTPHeaders(full.headers), content=content(), trailers=tr)

        async def main(ev):
            return await acall(make_client(False, T(), proto, cn, **kw), kind, ["q"])
        out, _ = run(None, main)
    else:
        class T:
            def execute_sync(self, request):
                if not isinstance(request.content, bytes):
                    for _ in request.content:
                        pass
                tr = HTTPHeaders()

                def content():
                    yield from chunks
                    fin(tr)
                return SyncResponse(status=full.status, headers=HTTPHeaders(full.headers), content=content(), trailers=tr)

        out = scall(make_client(True, T(), proto, cn, **kw), kind, ["q"])
    ch.ev("out", out.short(), out.msgs)
    expect(out.raised is None or out.error is not None, "not-a-connect-error", lambda: repr(out.raised))
    # Is the outcome fully determined by what arrived?
    envs, rest = ([], b"") if unframed else wire.split_envs(piece)
    endflag = {"connect": 2, "grpc": 0, "grpcweb": 0x80}[proto]
    end_seen = any(f & endflag for f, _ in envs) if not unframed else False
    complete = False
    if proto == "grpc":
        complete = give_trailers and not rest
    elif not unframed:
        # the in-band end marker is the end of the RPC; a transport error afterwards
        # may or may not be reported
        complete = end_seen
    n_full = sum(1 for f, _ in envs if not f & endflag)
    where = f"cut={cut}/{len(body)} split={split} got={out.msgs} outcome={out.short()}"
    if kind in ("server_stream", "bidi"):
        expect(out.msgs == list(msgs[:n_full]), "wrong-messages", where)
    elif not complete or err:
        expect(not out.msgs, "message-from-truncated-response", where)
    if not complete:
        expect(out.error is not None, "truncated-response-succeeded", where)
    elif err:
        expect(out.error is not None, "error-lost", where)
        if not mk:
            expect(out.error.key() == error.key(), "error-changed", lambda: f"{out.error} {where}")
    elif not mk and not (proto == "grpc" and n_full != len(msgs)):
        expect(out.error is None, "complete-response-failed", lambda: f"{out.error} {where}")
    return f"{side} {kind} {'complete' if complete else 'cut'} {out.short()}"


def extra_body(ch, p):
    """Bytes after the end-of-stream marker never become messages, however chunked."""
    side, proto, kind, cn, _tag = p
    full = wire.build_response(proto, kind, cn, ["a"])
    extra = wire.env(0, wire.enc_msg(cn, "ghost"))
    body = full.body + extra
    pts = [ch.choose(len(body) + 1, "cut")]
    chunks = [body[:pts[0]], body[pts[0]:]]
    out, _, _ = call_with("async" if side == "aclient" else "sync",
                          ("peer", lambda req: Resp(200, full.headers, chunks, full.trailers)),
                          kind, ["q"], proto=proto, codec_name=cn)
    ch.ev("out", out.short(), out.msgs)
    expect("ghost" not in out.msgs, "message-after-end", lambda: f"cut={pts} {out.msgs}")
    return f"{side} extra {out.short()}"


def headed_body(ch, p):
    """A status among the response headers is for responses without a body: it does not complete one that was cut."""
    side, proto, kind, cn, comp, n, _tag = p
    msgs = ["ab", "cd", ""][:n]
    full = wire.build_response(proto, kind, cn, msgs, comp=comp)
    cut = 1 + ch.choose(len(full.body) - (1 if proto == "grpcweb" else 0), "cut")
    piece = full.body[:cut]
    envs, _rest = wire.split_envs(piece)
    if proto == "grpcweb" and any(f & 0x80 for f, _ in envs):
        raise Prune
    chunks = [piece] if ch.flag("as one chunk") else [piece[i:i + 1] for i in range(cut)]
    headers = [*full.headers, ("grpc-status", "0")]
    out, _, _ = call_with("async" if side == "aclient" else "sync", ("peer", lambda req: Resp(200, headers, chunks, [])),
                          kind, ["q"], proto=proto, codec_name=cn)
    desc = lambda: f"{p} cut={cut} {out}"
    expect(out.raised is None or out.error is not None, "not-a-connect-error", desc)
    expect(out.error is not None, "truncated-response-succeeded", desc)
    expect(out.msgs == (msgs[:len(envs)] if kind in ("server_stream", "bidi") else []), "wrong-messages", desc)
    return f"{side} status in headers"


def squeezed_body(ch, p):
    """The compressed bytes of one message stop before their own end."""
    side, proto, kind, cn, comp, n, _tag = p
    text = "hello hello hello hello"
    msgs = [f"{text}{i}" for i in range(n)]
    which = ch.choose(n + (0 if side in ("asgi", "wsgi") or proto == "grpc" else 1), "which message")
    get = kind == "unary" and proto == "connect" and ch.flag("GET")

    def cut(data):
        k = 1 + ch.choose(len(data) - 1, "bytes kept")
        return data[:k]

    if side in ("asgi", "wsgi"):
        sync = side == "wsgi"
        rec = {"calls": [], "got": [], "ended": [], "iter_err": []}
        mi = minfo(kind, idem=IdempotencyLevel.NO_SIDE_EFFECTS)
        comps = [compression(c) for c in ("gzip", "br", "zstd")]
        app = (wsgi_app if sync else asgi_app)([(mi, kind, handlers(kind, sync, rec))], compressions=comps)
        req = wire.build_request(proto, kind, cn, msgs, path=mpath(kind), comp=comp)
        if get:
            data = cut(req.body)
            req = Req("GET", mpath(kind), urlencode({
                "connect": "v1", "encoding": cn, "compression": comp, "base64": "1",
                "message": base64.urlsafe_b64encode(data).decode().rstrip("=")}), [("host", "example.test")], [b""])
        elif proto == "connect" and kind == "unary":
            req.chunks = [cut(req.body)]
        else:
            envs, _ = wire.split_envs(req.body)
            req.chunks = [wire.env(f, cut(d) if i == which else d) for i, (f, d) in enumerate(envs)]
        r = (wsgi_plain if sync else asgi_sync)(app, req)
        desc = lambda: f"{p} which={which} {rec} {r.resp}"
        expect(r.exc is None, "app-raised", desc)
        if kind in ("client_stream", "bidi"):
            expect(rec["got"] == msgs[:which], "wrong-messages", desc)
            expect(not rec["ended"] and rec["iter_err"], "truncated-stream-ended-cleanly", desc)
        else:
            expect(not rec["calls"], "handler-on-truncated-request", desc)
        try:
            ok = wire.parse_response(proto, kind, cn, r.resp).error is None
        except wire.WireError as e:
            ok = False
            expect(not 200 <= r.resp.status < 300, "malformed-response", lambda: f"{e} {desc()}")
        expect(not ok, "success-for-truncated-request", desc)
        return f"{side} {comp}"
    full = wire.build_response(proto, kind, cn, msgs, comp=comp, trailers=[("x-t", "1")])
    envs, _ = wire.split_envs(full.body)
    chunks = [wire.env(f, cut(d) if i == which else d) for i, (f, d) in enumerate(envs)]
    out, _, _ = call_with("async" if side == "aclient" else "sync",
                          ("peer", lambda req: Resp(200, full.headers, chunks, full.trailers)),
                          kind, ["q"], proto=proto, codec_name=cn,
                          client_kw={"accept_compression": [compression(c) for c in ("gzip", "br", "zstd")]})
    desc = lambda: f"{p} which={which} {out}"
    expect(out.raised is None or out.error is not None, "not-a-connect-error", desc)
    expect(out.error is not None, "truncated-response-succeeded", desc)
    if kind in ("server_stream", "bidi"):
        expect(out.msgs == msgs[:which], "wrong-messages", desc)
    else:
        expect(not out.msgs, "message-from-truncated-response", desc)
    return f"{side} {comp}"


def body(ch, p):
    if p[-1] == "squeezed":
        return squeezed_body(ch, p)
    if p[-1] == "headed":
        return headed_body(ch, p)
    if p[-1] == "extra":
        return extra_body(ch, p)
    return server_body(ch, p) if p[0] in ("asgi", "wsgi") else client_body(ch, p)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    sets = [("",), ("a",), ("ab", "cd"), ("", "x", "")] + ([("hello", "world", "again")] if big else [])
    for side in ("asgi", "wsgi"):
        for proto in PROTOS:
            for kind in KINDS:
                for cn in ("proto", "json"):
                    for comp in ("identity", "gzip"):
                        for msgs in sets:
                            if kind in ("unary", "server_stream") and len(msgs) > 2:
                                continue
                            if proto == "connect" and kind == "unary" and len(msgs) != 1:
                                continue
                            for fault in (("eof", "disconnect") if side == "asgi" else ("eof", "readerror", "short")):
                                if fault == "short" and not (proto == "connect" and kind == "unary"):
                                    continue
                                out.append((side, proto, kind, cn, comp, msgs, fault))
    for side in ("aclient", "sclient"):
        for proto in PROTOS:
            for kind in KINDS:
                for cn in ("proto", "json"):
                    for comp in ("identity", "gzip"):
                        for msgs in sets:
                            if kind in ("unary", "client_stream") and len(msgs) != 1:
                                continue
                            for err in (False, True):
                                for fault in [*FAULTS, "eof+trailers"]:
                                    if proto == "connect" and kind == "unary":
                                        if fault in ("eof", "eof+trailers") or err or comp != "identity":
                                            continue
                                    if fault == "eof+trailers" and (proto != "grpc" or err):
                                        continue
                                    if not big and (comp == "gzip") and len(msgs) > 2:
                                        continue
                                    out.append((side, proto, kind, cn, comp, msgs, fault, err))
            if proto != "grpc":
                for kind in ("client_stream", "server_stream", "bidi"):
                    out.append((side, proto, kind, "proto", "extra"))
    for side in ("asgi", "wsgi", "aclient", "sclient"):
        for proto in PROTOS:
            for kind in KINDS:
                many = kind in (("client_stream", "bidi") if side in ("asgi", "wsgi") else ("server_stream", "bidi"))
                if side in ("aclient", "sclient") and proto == "connect" and kind == "unary":
                    continue
                for cn in ("proto", "json"):
                    if side in ("aclient", "sclient") and proto != "connect":
                        for comp in ("identity", "gzip"):
                            for n in ((1, 2, 3) if many else (1,)):
                                out.append((side, proto, kind, cn, comp, n, "headed"))
                    for comp in ("gzip", "br", "zstd"):
                        for n in ((1, 2, 3) if many else (1,)):
                            out.append((side, proto, kind, cn, comp, n, "squeezed"))
    return out


CHECK = Check(
    id="C02", body=body, scenarios=scenarios,
    rule="every byte offset of every enumerated request/response body as the cut point x way of "
         "ending (clean EOF, read error, stream reset, disconnect, short Content-Length) x one "
         "chunk or one byte per chunk x side x protocol x kind x codec x compression; every byte offset of the compressed "
         "bytes of every message, with gzip, br and zstd; every cut of a gRPC body whose headers carry a status",
    assumptions=("an unframed (Connect unary) body cut without a transport error is the HTTP "
                 "layer's to detect, except under WSGI with a Content-Length",),
)
