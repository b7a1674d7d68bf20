"""C14: a side-effect-free unary call gives the same result by GET and by POST."""
import base64
from urllib.parse import parse_qsl, quote, quote_plus, urlencode

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire
from mc.wire import Req

NSE = IdempotencyLevel.NO_SIDE_EFFECTS
COMPS = ["identity", "gzip", "br", "zstd", "x-rot"]
MSGS = ["", "a", "a b", "a+b&c=d;e%41?#/\\", "~~~???>>>", "é€𝄞\u0080", "\u0000\u0001\u007f", '"quoted"\n', "x" * 200, "yÿ" * 150, "=", "+", "%"]
USER_HEADERS = [None, [("x-one", "1"), ("x-one", "2"), ("x-two", "a b")]]
DROP = {"content-type", "content-encoding", "content-length", "connect-protocol-version", "host", "accept", "user-agent"}


def make(io, seen, prog, codec_name="proto", **kw):
    def fn_(r, ctx):
        seen.append((r.value, sorted((k, v) for k, v in _split(ctx.request_headers.allitems()) if k not in DROP),
                     ctx.timeout_ms is None, ctx.method.name, ctx.http_method))
        if "meta" in prog:
            ctx.response_headers.add("x-h", "1")
            ctx.response_headers.add("x-h", "2")
            ctx.response_trailers.add("x-t", "1")
        if "err" in prog:
            raise ConnectError(Code.NOT_FOUND, "nö %41\n", details=[M("detail")])
        if "crash" in prog:
            raise ValueError("crashed")
        return M(f"<{r.value}>")

    if io == "wsgi":
        fn = fn_
    else:
        async def fn(r, ctx):
            return fn_(r, ctx)
    if codec_name == "text":
        kw["codecs"] = codecs(name="text")
    kw.setdefault("compressions", [compression(c) for c in ("gzip", "br", "zstd", "x-rot")])
    return (wsgi_app if io == "wsgi" else asgi_app)([(minfo("unary", "Get", idem=NSE), "unary", fn)], **kw)


def _split(items):
    return [(k, x.strip()) for k, v in items for x in v.split(",")]


def norm(headers):
    return sorted((k, v) for k, v in headers if k not in ("date", "server", "content-length"))


def read_query(req, codec_name):
    """The published reading of a GET request: (message, codec, compression)."""
    expect(req.query.isascii() and all(c.isalnum() or c in "-._~!$'()*+,;:@/?%&=" for c in req.query), "bad-url", lambda: req.query)
    q = parse_qsl(req.query, keep_blank_values=True, strict_parsing=True)
    names = [k for k, _ in q]
    expect(len(set(names)) == len(names) and set(names) <= {"connect", "base64", "compression", "encoding", "message"}, "bad-query", lambda: req.query)
    d = dict(q)
    expect(d.get("connect") == "v1" and d.get("encoding") == codec_name and "message" in d, "bad-query", lambda: req.query)
    m = d["message"]
    if d.get("base64") == "1":
        expect(all(c.isalnum() or c in "-_=" for c in m), "bad-query", lambda: req.query)
        data = base64.urlsafe_b64decode(m + "=" * (-len(m) % 4))
    else:
        data = m.encode("utf-8", "surrogateescape")
    comp = d.get("compression", "identity")
    return wire.dec_msg(codec_name, wire.decompress(comp, data)), comp


def client_body(ch, p):
    _, cio, sio, codec_name, comp, prog = p
    msg = MSGS[ch.choose(len(MSGS), "message")]
    uh = USER_HEADERS[ch.choose(2, "headers")]
    timeout = ch.flag("timeout")
    mi = minfo("unary", "Get", idem=NSE)
    res = []
    for use_get in (True, False):
        seen = []
        app = make(sio, seen, prog, codec_name)
        kw = {"send_compression": None if comp == "identity" else compression(comp)} if comp != "none" else {}
        from connectrpc.request import Headers
        h = None
        if uh:
            h = Headers()
            for k, v in uh:
                h.add(k, v)
        out, tr, _ = call_with(cio, (sio, app), "unary", [msg], codec_name=codec_name, client_kw=kw, mi=mi, use_get=use_get, headers=h,
                               timeout_ms=5000 if timeout else None)
        req = tr.requests[-1]
        res.append((out, seen, req))
    (g, gs, greq), (o, os_, oreq) = res
    desc = lambda: f"{p} {msg!r} {uh} timeout={timeout}\n  GET  {g} {gs} {greq.query}\n  POST {o} {os_}"
    ch.ev(msg, uh, timeout, g.short())
    expect(greq.method == "GET" and oreq.method == "POST", "http-method", lambda: f"{greq.method} {oreq.method} {desc()}")
    expect(not any(len(c) for c in greq.chunks), "get-body", desc)
    m, c = read_query(greq, codec_name)
    expect(m == msg, "query-message", desc)
    if comp != "none":
        expect(c == comp, "query-compression", desc)
    hd = [k.lower() for k, _ in greq.headers]
    expect("content-type" not in hd and "content-encoding" not in hd, "get-headers", lambda: f"{greq.headers} {desc()}")
    expect(len(gs) == 1 and gs[0][0] == msg and gs[0][4] == "GET" and gs[0][:4] == os_[0][:4], "handler-sees", desc)
    if uh:
        for k, v in uh:
            expect((k, v) in gs[0][1], "handler-sees", desc)
    expect((g.msgs, g.error) == (o.msgs, o.error), "result", desc)
    if prog in ("ok", "meta"):
        expect(g.msgs == [f"<{msg}>"] and g.error is None, "result", desc)
    else:
        want = ("not_found", "nö %41\n") if "err" in prog else ("unknown", "crashed")
        expect(g.error is not None and (g.error.code, g.error.message) == want, "result", desc)
    expect(norm(g.headers) == norm(o.headers) and norm(g.trailers) == norm(o.trailers), "metadata", desc)
    if "meta" in prog:
        expect([v for k, v in g.headers if k == "x-h"] == ["1", "2"] and [v for k, v in g.trailers if k == "x-t"] == ["1"], "metadata", desc)
    return g.short()


def spell(data, enc, is_b64):
    if is_b64:
        t = base64.urlsafe_b64encode(data).decode()
        return t if enc == "padded" else t.rstrip("=") if enc == "bare" else t.replace("=", "%3D")
    if enc == "lower":
        return "".join(chr(c) if 0x30 <= c <= 0x39 or 0x41 <= c <= 0x5a or 0x61 <= c <= 0x7a else f"%{c:02x}" for c in data)
    if enc == "all":
        return "".join(f"%{c:02X}" for c in data)
    if enc == "plus":
        return quote_plus(data, safe="")
    return quote(data, safe="")


ORDERS = [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 4, 0, 3, 1)]


def server_body(ch, p):
    _, sio, codec_name, comp, b64 = p
    msg = MSGS[ch.choose(len(MSGS), "message")]
    data = wire.enc_msg(codec_name, msg)
    if data or (comp != "identity" and ch.flag("compress empty")):
        data = wire.compress(comp, data)
    sp = ch.pick(["padded", "bare", "escaped"] if b64 else ["plain", "lower", "all", "plus"], "spelling")
    version = bool(ch.choose(2, "connect", [0, 1]))
    noise = bool(ch.choose(2, "unknown parameter", [0, 1]))
    explicit = bool(ch.choose(2, "explicit defaults", [0, 1]))
    parts = [("connect=v1" if version else None), ("base64=1" if b64 else "base64=0" if explicit else None),
             (f"compression={comp}" if comp != "identity" or explicit else None), f"encoding={codec_name}", f"message={spell(data, sp, b64)}"]
    order = ORDERS[ch.choose(len(ORDERS), "order", [0, 1, 1])]
    q = "&".join([parts[i] for i in order if parts[i]] + (["x=1&y="] if noise else []))
    accept = [None, "gzip", "br, gzip"][ch.choose(3, "accept", [0, 1, 1])]
    prog = ch.pick(["ok", "meta-err"], "handler")
    heads = [("host", "example.test"), ("x-one", "1")]
    if accept:
        heads.append(("accept-encoding", accept))
    seen = []
    app = make(sio, seen, prog, codec_name)
    path = mpath("unary", "Get")
    r = (wsgi_plain if sio == "wsgi" else asgi_sync)(app, Req("GET", path, q, heads, []))
    desc = lambda: f"{p} {msg!r} {q!r} accept={accept} {prog} seen={seen} -> {r.resp} {r.exc!r}"
    expect(not r.mon.problems, "malformed-response", lambda: f"{r.mon.problems} {desc()}")
    expect(len(seen) == 1 and seen[0][0] == msg, "handler-sees", desc)
    got = wire.parse_response("connect", "unary", codec_name, r.resp)
    if prog == "ok":
        expect(got.error is None and got.msgs == [f"<{msg}>"], "result", desc)
    else:
        expect(got.error is not None and got.error.code == "not_found" and got.error.message == "nö %41\n", "result", desc)
    # the same call by POST
    seen2 = []
    post = wire.build_request("connect", "unary", codec_name, [msg], path=path, comp=comp, accept=accept, headers=[("x-one", "1")])
    app2 = make(sio, seen2, prog, codec_name)
    r2 = (wsgi_plain if sio == "wsgi" else asgi_sync)(app2, post)
    expect(seen2 and seen[0][:4] == seen2[0][:4], "handler-sees", lambda: f"POST {seen2} {desc()}")
    plain = lambda x: wire.decompress(x.resp.get("content-encoding", "identity"), x.resp.body)
    expect((r.resp.status, norm(r.resp.headers), plain(r)) == (r2.resp.status, norm(r2.resp.headers), plain(r2)), "response-differs",
           lambda: f"POST {r2.resp} {desc()}")
    ch.ev(q, r.resp.status)
    return prog


# every malformed query: (name, query) built from the encoding of a good message
def malformed(codec_name):
    data = wire.enc_msg(codec_name, "hello")
    b = base64.urlsafe_b64encode(data).decode()
    good = {"connect": "v1", "base64": "1", "encoding": codec_name, "message": b}

    def q(**kw):
        d = dict(good)
        for k, v in kw.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        return urlencode(d)
    out = [("no message", q(message=None)), ("no encoding", q(encoding=None)), ("empty encoding", q(encoding="")),
           ("unknown encoding", q(encoding="nope")), ("unknown compression", q(compression="nope")), ("empty query", ""),
           ("b64 one char", q(message="A")), ("b64 5 chars", q(message="QUJDR")), ("bad gzip", q(compression="gzip")),
           ("bad br", q(compression="br")), ("bad zstd", q(compression="zstd")),
           ("truncated gzip", q(compression="gzip", message=base64.urlsafe_b64encode(wire.compress("gzip", data)[:-5]).decode()))]
    for bad in ["!", "!!!!", "\u00e9", " ", "*", ".", "%", "\n", "\x00"]:
        out.append((f"b64 with {bad!r}", q(message=b[:4] + bad + b[4:])))
        out.append((f"b64 only {bad!r}", q(message=bad * 4)))
    out.append(("b64 inner padding", q(message="QQ==QQ==")))
    if codec_name == "proto":
        out += [("bad proto", q(message=base64.urlsafe_b64encode(b"\x0a\x7f").decode())), ("truncated proto", q(message=base64.urlsafe_b64encode(data[:-1]).decode()))]
    else:
        out += [("bad json", q(message=base64.urlsafe_b64encode(b"{").decode())), ("truncated json", q(message=base64.urlsafe_b64encode(data[:-1]).decode())),
                ("raw as b64 missing", q(base64=None))]
    return out


def malformed_body(ch, p):
    _, sio, codec_name = p
    ms = malformed(codec_name)
    name, q = ms[ch.choose(len(ms), "query")]
    seen = []
    app = make(sio, seen, "ok", compressions=[compression(c) for c in ("gzip", "br", "zstd")])
    r = (wsgi_plain if sio == "wsgi" else asgi_sync)(app, Req("GET", mpath("unary", "Get"), q, [("host", "example.test")], []))
    desc = lambda: f"{p} {name} {q!r} seen={seen} -> {r.resp} {r.exc!r}"
    ch.ev(name, r.resp.status)
    expect(not seen, "malformed-accepted", desc)
    expect(not r.mon.problems, "malformed-response", lambda: f"{r.mon.problems} {desc()}")
    expect(r.resp.status >= 400, "not-an-error", desc)
    if r.resp.status != 415:
        got = wire.parse_response("connect", "unary", codec_name, r.resp)
        expect(got.error is not None, "not-an-error", desc)
    return str(r.resp.status)


def alphabet_body(ch, p):
    """Messages that contain every byte in turn, raw and as base64"""
    _, sio, b64 = p
    b = ch.choose(256, "byte")
    c = chr(b)
    msg = c * 3 + "a" * (ch.choose(3, "tail"))
    data = wire.enc_msg("proto", msg)
    if ch.flag("long"):
        msg = msg + "z" * b
        data = wire.enc_msg("proto", msg)
    q = "encoding=proto&message=" + (spell(data, "bare", True) + "&base64=1" if b64 else spell(data, "plain", False))
    seen = []
    app = make(sio, seen, "ok")
    r = (wsgi_plain if sio == "wsgi" else asgi_sync)(app, Req("GET", mpath("unary", "Get"), q, [("host", "example.test")], []))
    ch.ev(b, r.resp.status)
    expect([s[0] for s in seen] == [msg] and r.resp.status == 200, "handler-sees", lambda: f"{p} {msg!r} {q} {seen} {r.resp} {r.exc!r}")
    return "ok"


def body(ch, p):
    return {"client": client_body, "server": server_body, "malformed": malformed_body, "alphabet": alphabet_body}[p[0]](ch, p)


def scenarios(tier):
    out = []
    for sio in ("asgi", "wsgi"):
        for codec_name in ("proto", "json", "text"):
            for cio in ("async", "sync"):
                for comp in COMPS + ["none"]:
                    for prog in ("ok", "meta", "err", "meta-err", "crash"):
                        out.append(("client", cio, sio, codec_name, comp, prog))
            for comp in COMPS:
                for b64 in (True, False):
                    out.append(("server", sio, codec_name, comp, b64))
            if codec_name != "text":
                out.append(("malformed", sio, codec_name))
        for b64 in (True, False):
            out.append(("alphabet", sio, b64))
    return out


CHECK = Check(
    id="C14", body=body, scenarios=scenarios, bound=lambda tier, p: 2 if tier == "quick" else None,
    rule="every message of the corpus by GET and by POST x client x server x codec x compression x handler program x headers; every spelling "
         "of the query of an independent client (parameter order, base64 forms, percent-encoding forms, optional parameters); every "
         "malformed query",
    assumptions=("the standard base64 alphabet and repeated parameters are left unspecified",),
)
