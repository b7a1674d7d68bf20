"""C09: every ASGI response is a prefix of one well-formed, truthful response."""
import asyncio

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire
from mc.srv import Cfg, ERRV, Exit, run_request


def sched_body(ch, p):
    cfg = Cfg(**dict(p[1:]))
    rec = run_request(ch, cfg)
    mon = rec.mon
    desc = lambda: (f"{cfg} sent={mon.status, mon.headers, mon.chunks, mon.trailers} state={mon.state} exc={rec.exc!r} "
                    f"yielded={rec.yielded} done={rec.done} raised={rec.raised!r}")
    expect(not mon.problems, "malformed-response", lambda: f"{mon.problems} {desc()}")
    disturbed = rec.cancelled or rec.disconnected or rec.failed_send
    expect(mon.complete or disturbed or isinstance(rec.exc, (asyncio.CancelledError, Exit)), "incomplete-response", desc)
    expect(not rec.info["errors"], "loop-error", lambda: f"{rec.info['errors']} {desc()}")
    if not mon.complete:
        return f"incomplete {mon.state}"
    if mon.status == 200 or cfg.kind != "unary" or cfg.proto != "connect":
        try:
            got = wire.parse_response(cfg.proto, cfg.kind, "proto", mon.resp())
        except wire.WireError as e:
            raise Violation("malformed-response", f"{e} {desc()}") from e
    else:
        got = wire.parse_response(cfg.proto, cfg.kind, "proto", mon.resp())
    streaming = cfg.kind in ("server_stream", "bidi")
    if got.error is None:
        expect(rec.done, "false-success", desc)
        expect(got.msgs == rec.yielded, "success-without-messages", desc)
    elif streaming:
        expect(got.msgs == rec.yielded[: len(got.msgs)], "wrong-messages", desc)
    if not disturbed:
        want_code = {"ok": None, "err": ERRV.code, "crash": "unknown", "cancelled": "canceled"}
        if cfg.end in want_code:
            code = got.error.code if got.error else None
            expect(code == want_code[cfg.end], "wrong-outcome", desc)
            if cfg.end == "err":
                expect(got.error.key() == ERRV.key(), "wrong-outcome", desc)
        else:
            expect(got.error is not None, "false-success", desc)
        if streaming:
            expect(got.msgs == rec.yielded, "messages-lost", desc)
        expect(("x-h", "hv") in got.headers, "header-lost", desc)
        expect(("x-t", "tv") in got.trailers, "trailer-lost", desc)
        expect(rec.exc is None or isinstance(rec.exc, (ValueError, asyncio.CancelledError)) or cfg.end in ("badmsg", "nomsg", "cancelled", "exit"),
               "app-raised", desc)
    return got.error.code if got.error else "ok"


# requests that never reach a handler, and odd but legal scopes
def odd_requests():
    ok = {pr: {k: wire.build_request(pr, k, "proto", ["q"], path=mpath(k)) for k in KINDS} for pr in PROTOS}

    def alter(r, *, method=None, path=None, ct=None, drop=(), add=(), chunks=None, query=None):
        h = [(k, v) for k, v in r.headers if k not in drop and not (ct is not None and k == "content-type")]
        if ct:
            h.append(("content-type", ct))
        h += list(add)
        return Req(method or r.method, path or r.path, query if query is not None else r.query, h,
                   chunks if chunks is not None else list(r.chunks))

    out = []
    for pr in PROTOS:
        for k in KINDS:
            r = ok[pr][k]
            base = f"{pr}/{k}/"
            out.append((base + "404", k, alter(r, path="/nope")))
            out.append((base + "404b", k, alter(r, path=r.path + "/")))
            for m in ("GET", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "post", ""):
                out.append((base + "method " + m, k, alter(r, method=m)))
            for ct in ("", "text/plain", "application/", "application/connect+", "application/connect+nope", "application/grpc",
                       "application/grpc-web", "application/grpc+nope", "application/grpc-web+nope", "application/nope",
                       "APPLICATION/PROTO", "application/proto; charset=utf-8", "application/json;charset=utf-8",
                       "application/grpc-webx", "application/grpcx", "application/grpc-web-text", "\u00e9"):
                out.append((base + "ct " + ct, k, alter(r, ct=ct)))
            for junk in (b"", b"\x00", b"\xff" * 7, b"\x00\x00\x00\x00\x02\xff\xff", b"\x01\x00\x00\x00\x01x", b"{", b"\x02\x00\x00\x00\x00",
                         b"\x00\xff\xff\xff\xff"):
                out.append((base + "junk " + junk.hex(), k, alter(r, chunks=[junk])))
            for hd in ("content-encoding", "connect-content-encoding", "grpc-encoding", "accept-encoding",
                       "connect-accept-encoding", "grpc-accept-encoding"):
                for v in ("", "nope", "gzip", "gzip;q=0", ",,", "identity", "*"):
                    out.append((base + f"{hd}={v}", k, alter(r, add=[(hd, v)])))
            for hd in ("connect-timeout-ms", "grpc-timeout"):
                for v in ("", "x", "-1", "1S", "99999999H", "1"):
                    out.append((base + f"{hd}={v}", k, alter(r, add=[(hd, v)])))
            out.append((base + "noproto", k, alter(r, drop=("connect-protocol-version", "te"))))
            out.append((base + "badversion", k, alter(r, drop=("connect-protocol-version",), add=[("connect-protocol-version", "2")])))
            for q in ("", "message=", "message=%FF&encoding=proto", "encoding=proto", "connect=v1&encoding=proto&message=AA&base64=1",
                      "connect=v1&encoding=nope&message=", "connect=v2&encoding=proto&message=", "message=&encoding=proto&compression=nope",
                      "message=!!&base64=1&encoding=proto", "message=A&base64=1&encoding=proto"):
                out.append((base + "GET " + q, k, alter(r, method="GET", query=q, chunks=[])))
                out.append((base + "GETnoct " + q, k, alter(r, method="GET", query=q, chunks=[], drop=("content-type",))))
    return out


ODD = odd_requests()


def odd_body(ch, p):
    _, pr, k, idem, trailers_ext, root = p
    todo = [o for o in ODD if o[0].startswith(f"{pr}/{k}/")]
    name, kind, req = todo[ch.choose(len(todo), "request")]
    calls = []

    async def single(r, ctx):
        calls.append(1)
        return M("p")

    async def cstream(it, ctx):
        calls.append(1)
        async for _ in it:
            pass
        return M("p")

    async def sstream(r, ctx):
        calls.append(1)
        yield M("p")

    async def bidi(it, ctx):
        calls.append(1)
        async for _ in it:
            pass
        yield M("p")

    fn = {"unary": single, "client_stream": cstream, "server_stream": sstream, "bidi": bidi}[kind]
    app = asgi_app([(minfo(kind, idem=IdempotencyLevel.NO_SIDE_EFFECTS if idem else IdempotencyLevel.UNKNOWN), kind, fn)])
    ext = {"http.response.trailers": {}} if trailers_ext else {}
    r = asgi_sync(app, req, extensions=ext, root_path=root)
    mon = r.mon
    ch.ev("odd", name, mon.status, mon.state)
    desc = lambda: f"{name} {req.method} {req.path}?{req.query} {req.headers} -> {mon.status} {mon.headers} {mon.chunks} {mon.trailers} exc={r.exc!r}"
    expect(not mon.problems, "malformed-response", lambda: f"{mon.problems} {desc()}")
    expect(mon.complete, "incomplete-response", desc)
    expect(not r.leftover, "leaked-task", desc)
    expect(not mon.want_trailers or trailers_ext, "trailers-without-support", desc)
    ct = [v for n, v in mon.headers if n == "content-type"]
    expect(len(ct) <= 1, "repeated-content-type", desc)
    cl = [v for n, v in mon.headers if n == "content-length"]
    expect(not cl or cl == [str(len(mon.resp().body))], "content-length", desc)
    if ct and ct[0].startswith(("application/grpc", "application/connect+")):
        pr2 = "connect" if "connect" in ct[0] else ("grpcweb" if "grpc-web" in ct[0] else "grpc")
        cn = ct[0].rsplit("+", 1)[-1] if "+" in ct[0] else "proto"
        resp = mon.resp()
        resp.headers = [(a, wire.content_type(pr2, "bidi", cn) if a == "content-type" else v) for a, v in resp.headers]
        try:
            got = wire.parse_response(pr2, "bidi", cn, resp)
        except wire.WireError as e:
            raise Violation("malformed-response", f"{e} {desc()}") from e
        expect(got.error is not None or calls, "false-success", desc)
    elif mon.status == 200:
        expect(calls, "false-success", desc)
    expect(len(calls) <= 1, "handler-runs", desc)
    return f"{mon.status}"


def body(ch, p):
    return sched_body(ch, p) if p[0] == "sched" else odd_body(ch, p)


def S(**kw):
    return ("sched",) + tuple(sorted(kw.items()))


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for proto in PROTOS:
        for kind in KINDS:
            for idem in (False, True):
                for ext in (True, False):
                    for root in ("", "/x"):
                        out.append(("odd", proto, kind, idem, ext, root))
            streaming = kind in ("server_stream", "bidi")
            for end in ("ok", "err", "crash", "cancelled", "badmsg", "nomsg", "exit"):
                for k in (0, 1, 2) if streaming else (1,):
                    for wait in (False, True):
                        for gate in ("none", "after", "before"):
                            if not big and k == 2 and gate != "none" and end not in ("ok", "crash"):
                                continue
                            for disc in ("no", "ignore", "raise", "rxfail"):
                                for cancel in (0, 1) + ((2,) if big else ()):
                                    if not big and disc == "raise" and cancel:
                                        continue
                                    early = 2 if big and (k < 2 or gate == "none") else 1
                                    c = dict(proto=proto, kind=kind, end=end, k=k, wait=wait, gate=gate, disconnect=disc, cancel=cancel)
                                    out.append(S(**c, early=0))
                                    if (cancel or disc != "no") and gate != "before":
                                        out.append(S(**c, early=early))
                    out.append(S(proto=proto, kind=kind, end=end, k=k, sendfail=True, wait=False))
                    out.append(S(proto=proto, kind=kind, end=end, k=k, sendfail=True, wait=True, cancel=1))
                    out.append(S(proto=proto, kind=kind, end=end, k=k, split=True, nreq=2 if kind in ("client_stream", "bidi") else 1,
                                 disconnect="ignore", cancel=1, wait=True))
    return out


CHECK = Check(
    id="C09", body=body, scenarios=scenarios, bound=lambda tier, p: (dict(p[1:]).get("early", 0) if p[0] == "sched" else None),
    rule="ASGI response automaton on every send, with a scripted handler over every order of {request chunks, handler progress, "
         "send drain, disconnect, cancellation, send failure} at quiescence plus up to 1 (thorough 2) of them while tasks are ready; "
         "and every request of a grid of malformed / unroutable requests",
    assumptions=("once a send fails every later send fails", "the event loop runs callbacks in FIFO order"),
)
