"""C19: whatever the server or the network does, a client call fails only with an RPC error."""
import base64
import json

import pyqwest
from pyqwest import ReadError, StreamError, StreamErrorCode, WriteError

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import vtime, wire

RST = {0: "internal", 1: "internal", 2: "internal", 3: "internal", 4: "internal", 6: "internal",
       9: "internal", 10: "internal", 7: "unavailable", 8: "canceled", 11: "resource_exhausted",
       12: "permission_denied"}
WEIRD = "Grüße 100% \r\n\"x\""
DET = ("google.protobuf.StringValue", b"\x0a\x01d")


# -- transport --------------------------------------------------------------
class Closing:
    """Response content that records its release; may fail, also when released."""

    def __init__(self, chunks, exc=None, on_end=None, close_exc=None):
        self.chunks, self.exc, self.on_end, self.close_exc = list(chunks), exc, on_end, close_exc

    def _next(self):
        if self.chunks:
            return self.chunks.pop(0)
        if self.on_end:
            self.on_end()
            self.on_end = None
        if self.exc is not None:
            raise self.exc
        return None

    def __iter__(self):
        return self

    def __next__(self):
        c = self._next()
        if c is None:
            raise StopIteration
        return c

    def close(self):
        if self.close_exc is not None:
            raise self.close_exc

    def __aiter__(self):
        return self

    async def __anext__(self):
        c = self._next()
        if c is None:
            raise StopAsyncIteration
        return c

    async def aclose(self):
        self.close()


class T:
    """Answers every request with `resp`, failing with exc before or after the response."""

    def __init__(self, resp, exc=None, before=False, tick=None, close_exc=None):
        self.resp, self.exc, self.before, self.tick, self.close_exc = resp, exc, before, tick, close_exc

    def _go(self):
        if self.before:
            if self.tick:
                self.tick()
            raise self.exc
        r = self.resp
        headers = HTTPHeaders([(k, v) for k, v in r.headers])
        tr = HTTPHeaders()

        def end():
            if self.tick:
                self.tick()
            for k, v in r.trailers or []:
                tr.add(k, v)
        return dict(status=r.status, headers=headers, trailers=tr,
                    content=Closing(r.chunks, self.exc, end, self.close_exc))

    async def execute(self, request):
        if not isinstance(request.content, bytes):
            async for _ in request.content:
                pass
        return Response(**self._go())

    def execute_sync(self, request):
        if not isinstance(request.content, bytes):
            for _ in request.content:
                pass
        return SyncResponse(**self._go())


def do_call(io, t, kind, proto, codec_name="proto", timeout_ms=None, get=False, scope=True, **ckw):
    t = t() if not isinstance(t, T) else t
    kw = {"timeout_ms": timeout_ms}
    if get:
        kw |= {"use_get": True, "mi": minfo(kind, idem=IdempotencyLevel.NO_SIDE_EFFECTS)}
    if io == "async":
        client = make_client(False, t, proto, codec_name, **ckw)

        async def main(_env):
            return await acall(client, kind, ["q"], **kw)
        out, info = run(None, main)
    else:
        client = make_client(True, t, proto, codec_name, **ckw)
        out = scall(client, kind, ["q"], **kw)
    return out


def rpc_only(out, desc):
    """The one thing that always holds: success, or a well-formed ConnectError."""
    if out.raised is None:
        return
    e = out.raised
    expect(isinstance(e, ConnectError), "not-an-rpc-error", desc)
    ok = isinstance(e.code, Code) and isinstance(e.message, str) and isinstance(str(e), str)
    expect(ok and all(isinstance(d, ErrorDetail) and isinstance(d.type_name, str) for d in e.details),
           "malformed-error", desc)


# -- statuses ---------------------------------------------------------------
BODIES = [
    b"", b"not json", b"null", b"[]", b'"x"', b"{}", b"\xff\xfe", b'{"message": "m"}',
    json.dumps({"code": "not_found"}).encode(),
    json.dumps({"code": "aborted", "message": WEIRD}).encode(),
    json.dumps({"code": "data_loss", "message": "m", "details": [
        {"type": DET[0], "value": base64.b64encode(DET[1]).decode().rstrip("=")}]}).encode(),
    json.dumps({"code": "data_loss", "details": [{"type": DET[0]}, {"value": "AA"}, {}]}).encode(),
    json.dumps({"code": "data_loss", "details": []}).encode(),
    json.dumps({"code": "data_loss", "extra": {"a": [1]}}).encode(),
    b'{"code": "bogus", "message": "m"}', b'{"code": 5}', b'{"code": null}', b'{"code": []}',
    b'{"code": "not_found", "message": null}', b'{"code": "not_found", "message": 5}',
    b'{"code": "not_found", "message": {"a": "b"}}',
    b'{"code": "not_found", "details": null}', b'{"code": "not_found", "details": 5}',
    b'{"code": "not_found", "details": "ab"}', b'{"code": "not_found", "details": [1, null, "x", []]}',
    b'{"code": "not_found", "details": [{"type": 5, "value": "AA"}]}',
    b'{"code": "not_found", "details": [{"type": "a.B", "value": 5}]}',
    b'{"code": "not_found", "details": [{"type": "a.B", "value": "A"}]}',
    b'{"code": "not_found", "details": [{"type": "a.B", "value": "\xc3\xa4"}]}',
    b'{"code": "not_found", "details": {"type": "a.B", "value": "AA"}}',
    b'{"code": "not_found"', b'{"code": "NOT_FOUND"}', b"[" * 50_000, b"1" * 5000,
]


def valid_error(b):
    """Err if the body is a well-formed error object, 'none' if it carries no error, else None."""
    try:
        d = json.loads(b)
    except (ValueError, RecursionError):
        return "none"
    if not isinstance(d, dict):
        return "none"
    try:
        if "code" not in d:
            return "none"
        if not isinstance(d.get("message", ""), str) or not isinstance(d.get("details", []), list):
            return None
        det = []
        for x in d.get("details", []):
            if not isinstance(x, dict):
                return None
            if "type" in x and "value" in x:
                if not isinstance(x["type"], str) or not isinstance(x["value"], str):
                    return None
                raw = x["value"]
                if not raw.isascii() or len(raw) % 4 == 1:
                    return None
                det.append((x["type"], wire.b64d(raw)))
        if d["code"] not in wire.CODES:
            return None
        return Err(d["code"], d.get("message", ""), det)
    except TypeError:
        return None


def status_body(ch, p):
    _, io, proto, kind, lo, hi = p
    st = lo + ch.choose(hi - lo, "status")
    right = wire.content_type(proto, kind, "proto")
    ct = ch.pick(["application/json", "application/json; charset=utf-8", "text/html", right, None], "content-type")
    body = ch.pick(BODIES, "body")
    get = kind == "unary" and proto == "connect" and ch.flag("GET")
    h = [] if ct is None else [("content-type", ct)]
    r = Resp(st, h, [body] if body else [])
    out = do_call(io, T(r), kind, proto, get=get)
    desc = lambda: f"{p} status={st} ct={ct!r} body={body[:80]!r} -> {out.raised!r} {out.msgs}"
    rpc_only(out, desc)
    ch.ev(st, ct, out.short())
    if st == 200:
        ok = proto == "connect" and kind == "unary" and ct == right and body == b""
        expect(ok == (out.raised is None), "bad-response-accepted" if not ok else "good-response-refused", desc)
        return "200"
    expect(out.raised is not None, "http-error-accepted", desc)
    by_status = wire.FROM_HTTP.get(st, "unknown")
    e = valid_error(body)
    js = ct is not None and ct.startswith("application/json")
    if proto == "connect" and kind == "unary":
        if not js or e == "none":
            expect(out.error.code == by_status, "wrong-code-for-status", desc)
            return "by status"
        if e is not None:
            expect(out.error.key() == e.key(), "error-body-ignored", desc)
            return "by body"
        return "malformed body"
    if e == "none":
        expect(out.error.code == by_status, "wrong-code-for-status", desc)
        return "by status"
    if e is not None:
        expect(out.error.code in (by_status, e.code), "wrong-code-for-status", desc)
    return "body on stream"


def split_body(ch, p):
    """How an error body is split into chunks changes nothing."""
    _, io, proto, kind = p
    st = ch.pick([404, 503, 418], "status")
    b = ch.pick([x for x in BODIES if 1 < len(x) < 200], "body")
    cut = ch.pick(["bytes", 1, len(b) // 2, len(b) - 1], "cut")
    parts = [b[i: i + 1] for i in range(len(b))] if cut == "bytes" else [b[:cut], b[cut:], b""]
    h = [("content-type", "application/json")]
    whole = do_call(io, T(Resp(st, h, [b])), kind, proto)
    out = do_call(io, T(Resp(st, h, parts)), kind, proto)
    ch.ev(st, cut, out.short())
    desc = lambda: f"{p} status={st} body={b!r} cut={cut} -> {out.raised!r} {out.msgs}, in one piece {whole.raised!r}"
    rpc_only(out, desc)
    expect(out.error is not None and whole.error is not None and out.error.key() == whole.error.key(), "error-body-split", desc)
    return "split"


# -- transport faults -------------------------------------------------------
def faults():
    out = [
        ("OSError", lambda: OSError("boom"), "unavailable"),
        ("ConnectionResetError", lambda: ConnectionResetError(), "unavailable"),
        ("ConnectionRefusedError", lambda: ConnectionRefusedError(111, "refused"), "unavailable"),
        ("ReadError", lambda: ReadError("boom"), "unavailable"),
        ("WriteError", lambda: WriteError("boom"), "unavailable"),
        ("TimeoutError", lambda: TimeoutError("t"), "deadline_exceeded"),
        ("RuntimeError", lambda: RuntimeError("x"), None),
        ("ValueError", lambda: ValueError(), None),
        ("KeyError", lambda: KeyError("k"), None),
        ("EOFError", lambda: EOFError(), None),
        ("UnicodeError", lambda: UnicodeDecodeError("utf8", b"\xff", 0, 1, "bad"), None),
        ("ssl", lambda: __import__("ssl").SSLError("handshake"), "unavailable"),
    ]
    for n in range(14):
        out.append((f"rst{n}", lambda n=n: StreamError("reset", StreamErrorCode(n)), RST.get(n)))
    return out


TRAILERS = [
    ("none", []),
    ("status 0", [("grpc-status", "0")]),
    ("status 5", [("grpc-status", "5"), ("grpc-message", "not%20here")]),
    ("details", wire.grpc_trailers(Err("aborted", WEIRD, [DET]))),
    ("bad base64", [("grpc-status", "5"), ("grpc-status-details-bin", "!")]),
    ("bad base64 2", [("grpc-status", "5"), ("grpc-status-details-bin", "A")]),
    ("bad proto", [("grpc-status", "5"), ("grpc-status-details-bin", "/w")]),
    ("bad proto 2", [("grpc-status", "5"), ("grpc-status-details-bin", base64.b64encode(b"\x0a\xff").decode())]),
    ("bad status", [("grpc-status", "x")]),
    ("bad message", [("grpc-status", "5"), ("grpc-message", "%ff%zz%")]),
]


def fault_body(ch, p):
    _, io, proto, kind, fi = p
    name, mk, code = faults()[fi]
    unary = proto == "connect" and kind == "unary"
    before = ch.flag("before the response")
    nmsg = 0
    tname, tr = "none", []
    cut = 0
    chunks = []
    if not before:
        full = wire.build_response(proto, kind, "proto", ["a", "bb"] if kind in ("server_stream", "bidi") else ["a"])
        single_body = full.body
        if unary:
            chunks = ch.pick([[], [single_body[:1]]], "chunks")
        else:
            pts = list(full.chunks[: 2 if kind in ("server_stream", "bidi") else 1])
            n = ch.choose(len(pts) + 1, "messages before")
            chunks = pts[:n]
            nmsg = n
            cut = ch.choose(3, "partial envelope")
            if cut and n < len(pts):
                chunks = chunks + [pts[n][: (3 if cut == 1 else len(pts[n]) - 1)]]
            elif cut:
                raise Prune
        if proto == "grpc":
            tname, tr = ch.pick(TRAILERS, "trailers")
        elif proto == "grpcweb" and cut == 0:
            # the whole trailer frame arrived, then the fault
            tname, t2 = ch.pick(TRAILERS, "trailers")
            if t2:
                chunks = chunks + [wire.env(0x80, "".join(f"{k}: {v}\r\n" for k, v in t2).encode())]
    to = ch.pick([None, 60_000], "timeout")
    passed = to is not None and io == "sync" and ch.flag("deadline passed")
    status = 200
    if not before and not unary and not tr and nmsg == 0 and cut == 0 and ch.flag("status 503"):
        status = 503
    full = wire.build_response(proto, kind, "proto", ["a"])
    r = Resp(status, full.headers, chunks, tr)
    if io == "sync":
        with vtime.virtual_clock() as cell:
            def tick():
                if passed:
                    cell[0] += 120
            out = do_call(io, T(r, mk(), before, tick), kind, proto, timeout_ms=to)
    else:
        out = do_call(io, T(r, mk(), before), kind, proto, timeout_ms=to)
    desc = lambda: (f"{p} {name} before={before} n={nmsg} cut={cut} trailers={tname} timeout={to} passed={passed} "
                    f"http={status} -> {out.raised!r} {out.msgs}")
    ch.ev(name, nmsg, tname, out.short())
    rpc_only(out, desc)
    expect(out.raised is not None or tname == "status 0", "fault-accepted", desc)
    if kind in ("server_stream", "bidi"):
        expect(out.msgs == ["a", "bb"][:nmsg], "messages-before-fault", desc)
    if out.raised is None:
        return "complete before the fault"
    if name == "rst8" and passed:
        code = "deadline_exceeded"
    if status != 200:
        expect(out.error.code in (code, "unavailable"), "wrong-code-for-fault", desc)
        return "status"
    if tname in ("bad status", "bad message", "bad base64", "bad base64 2", "bad proto", "bad proto 2") or (
        proto == "grpcweb" and tname != "none"
    ):
        return "garbled trailers"
    if code == "unavailable" and tname in ("status 5", "details") and not name.startswith("rst"):
        # the trailers arrived although the connection failed
        expect(out.error.code in ("unavailable", "not_found", "aborted"), "wrong-code-for-fault", desc)
    elif code is not None:
        want = {code, "deadline_exceeded"} if passed else {code}
        expect(out.error.code in want, "wrong-code-for-fault", desc)
    if name.startswith("rst") and code is not None and tname == "details" and proto == "grpc" and nmsg + cut:
        expect(out.error.message == WEIRD and out.error.details == [DET], "trailers-of-reset-lost", desc)
    return "fault"


# -- failures while the response is released --------------------------------
def close_body(ch, p):
    _, io, proto, kind = p
    mk = ch.pick([lambda: OSError("close"), lambda: StreamError("reset", StreamErrorCode.NO_ERROR),
                  lambda: StreamError("reset", StreamErrorCode.CANCEL), lambda: RuntimeError("close")], "close fault")
    case = ch.pick(["ok", "error", "oversize", "two", "bad content-type", "garbage"], "response")
    single = kind in ("unary", "client_stream")
    kw = {}
    if case == "ok":
        r = wire.build_response(proto, kind, "proto", ["a"])
    elif case == "error":
        r = wire.build_response(proto, kind, "proto", [], error=Err("aborted", "m", [DET]))
    elif case == "oversize":
        r = wire.build_response(proto, kind, "proto", ["a" * 500])
        kw["read_max_bytes"] = 300
    elif case == "two":
        if proto == "connect" and kind == "unary":
            raise Prune
        r = wire.build_response(proto, kind, "proto", ["a", "b"])
    elif case == "bad content-type":
        r = wire.build_response(proto, kind, "proto", ["a"])
        r.headers = [("content-type", "text/html")]
    else:
        r = wire.build_response(proto, kind, "proto", ["a"])
        r.chunks = [b"\x00\x00\x00\x00\x02\xff\xff"]
    out = do_call(io, T(r, close_exc=mk()), kind, proto, **kw)
    desc = lambda: f"{p} {case} -> {out.raised!r} {out.msgs}"
    rpc_only(out, desc)
    ch.ev(case, out.short())
    if case in ("error", "oversize", "bad content-type", "garbage") or (case == "two" and single):
        expect(out.raised is not None, "error-lost-on-close", desc)
    if not (proto == "connect" and kind == "unary"):
        # the response itself said how the call ended, whatever happened to the connection after that
        if case == "error":
            expect(out.error.code == "aborted" and out.error.message == "m" and out.error.details == [DET], "error-lost-on-close", desc)
        elif case == "oversize":
            expect(out.error.code == "resource_exhausted", "error-lost-on-close", desc)
    return case


# -- malformed protocol messages --------------------------------------------
STATUS = ["", "0", "00", "0 ", "-1", "17", "99999999999999999999", "abc", "1.0", "٣", "+5"] + [str(i) for i in range(1, 17)]
MSGS = [None, "", "plain", "a%20b", "%", "%z", "%zz", "%ff", "%e4%bd", "a%2", "ä"]
NOT_FOUND_BIN = base64.b64encode(wire.status_bin(Err("not_found", "nf", [DET]))).decode().rstrip("=")
DETS = [None, "", "!", "A", "/w", "AAAA", NOT_FOUND_BIN, NOT_FOUND_BIN + "==", "\u00e4",
        base64.b64encode(b"\x08\x00").decode(), base64.b64encode(b"\x08\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01").decode(),
        base64.b64encode(b"\x12\x02\xff\xfe").decode(), base64.b64encode(b"\x1a\x02\x0a\x05").decode(),
        base64.b64encode(b"\x1a\x00").decode(), base64.b64encode(b"\x1a\x05\x0a\x03abc").decode()]


def grpc_body(ch, p):
    _, io, proto, kind, big = p
    n = ch.choose(3, "messages")
    st = ch.pick([None] + STATUS, "status")
    msg, det = None, None
    if st is not None and st not in ("0", "00"):
        if (big or st in ("5", "2", "17", "abc")) and ch.flag("vary details"):
            det = ch.pick(DETS[1:], "details")
            msg = ch.pick([None, "nf"], "message")
        else:
            msg = ch.pick(MSGS, "message")
    where = ch.pick(["trailers", "headers"] if n == 0 else ["trailers"], "where")
    twice = st is not None and ch.flag("twice")
    tr = []
    if st is not None:
        tr.append(("grpc-status", st))
        if twice:
            tr.append(("grpc-status", "0"))
    if msg is not None:
        tr.append(("grpc-message", msg))
    if det is not None:
        tr.append(("grpc-status-details-bin", det))
    r = wire.build_response(proto, kind, "proto", ["a", "b"][:n])
    base = [x for x in r.headers if not x[0].startswith("grpc-")]
    if any(not v.isascii() for _, v in tr) and not (proto == "grpcweb" and where == "trailers"):
        raise Prune  # not representable as an HTTP field
    if proto == "grpc":
        r = Resp(200, base + (tr if where == "headers" else []), r.chunks[:n], tr if where == "trailers" else [])
    elif where == "headers":
        r = Resp(200, base + tr, [], [])
    else:
        r = Resp(200, base, r.chunks[:n] + [wire.env(0x80, "".join(f"{k}: {v}\r\n" for k, v in tr).encode())], [])
    out = do_call(io, T(r), kind, proto)
    desc = lambda: f"{p} n={n} {where} {tr} -> {out.raised!r} {out.msgs}"
    rpc_only(out, desc)
    ch.ev(n, st, out.short())
    single = kind in ("unary", "client_stream")
    want = ["a", "b"][:n]
    if twice:
        return "ambiguous"
    if st == "0":
        if single and n != 1:
            expect(out.raised is not None, "cardinality", desc)
        else:
            expect(out.raised is None and out.msgs == want, "good-response-refused", desc)
        return "ok"
    if st in ("00", "0 "):
        return "lenient"
    expect(out.raised is not None, "bad-status-accepted", desc)
    if not single:
        expect(out.msgs == want, "messages-before-error", desc)
    if not (single and n == 2) and st is not None and st.isascii() and st.isdigit() and 1 <= int(st) <= 16 and len(st) <= 2:
        code = wire.CODES[int(st) - 1]
        if det in (None, ""):
            expect(out.error.code == code, "wrong-code", desc)
            if msg == "a%20b":
                expect(out.error.message == "a b", "wrong-message", desc)
            elif msg in (None, "", "plain"):
                expect(out.error.message == (msg or ""), "wrong-message", desc)
        elif det.startswith(NOT_FOUND_BIN) and code == "not_found":
            expect(out.error.key() == ("not_found", "nf", (DET,)), "wrong-details", desc)
    if not (single and n == 2) and st is not None and st.isascii() and st.isdigit() and int(st) > 16 and det is None:
        # a status the protocol does not define (yet)
        expect(out.error.code == "unknown", "wrong-code", desc)
        if msg in ("", "plain", "a%20b"):
            expect(out.error.message == msg.replace("%20", " "), "wrong-message", desc)
    return "error"


ENDS = [
    # (payload, verdict): ok, err (any RPC error), any, or the expected error
    (b"{}", "ok"), (b'{"metadata": {}}', "ok"), (b'{"metadata": {"a": ["1", "2"]}}', "ok"), (b' {"x": 1} ', "ok"),
    (b'{"error": null}', "any"), (b'{"metadata": null}', "any"),
    (b"", "err"), (b"null", "err"), (b"[]", "err"), (b"5", "err"), (b'"x"', "err"), (b"{", "err"),
    (b"\xff\xff", "err"), (b"{} {}", "err"), (b"[" * 50_000, "err"), (b"true", "err"),
    (b'{"error": {}}', "err"), (b'{"error": []}', "err"), (b'{"error": ""}', "err"), (b'{"error": 0}', "err"),
    (b'{"error": 5}', "err"), (b'{"error": "x"}', "err"), (b'{"error": true}', "err"), (b'{"error": false}', "err"),
    (b'{"error": [{"code": "aborted"}]}', "err"), (b'{"error": {"code": null}}', "err"),
    (b'{"error": {"code": "bogus"}}', "err"), (b'{"error": {"code": 5}}', "err"), (b'{"error": {"code": []}}', "err"),
    (b'{"error": {"message": "m"}}', "err"), (b'{"error": {"code": ""}}', "err"),
    (b'{"error": {"code": "aborted", "message": null}}', "err"), (b'{"error": {"code": "aborted", "message": 5}}', "err"),
    (b'{"error": {"code": "aborted", "message": ["a"]}}', "err"),
    (b'{"error": {"code": "aborted", "details": 5}}', "err"), (b'{"error": {"code": "aborted", "details": [5]}}', "err"),
    (b'{"error": {"code": "aborted", "details": [{"type": 5, "value": 5}]}}', "err"),
    (b'{"error": {"code": "aborted", "details": [{"type": "a", "value": "A"}]}}', "err"),
    (b'{"error": {"code": "aborted"}}', Err("aborted")),
    (b'{"error": {"code": "aborted", "message": "m"}, "metadata": {"a": ["1"]}}', Err("aborted", "m")),
    (b'{"error": {"code": "aborted"}, "metadata": 5}', "err"), (b'{"error": {"code": "aborted"}, "metadata": []}', "err"),
    (b'{"error": {"code": "aborted", "details": [{"type": "google.protobuf.StringValue", "value": "CgFk"}]}}',
     Err("aborted", "", [DET])),
    (b'{"error": {"code": "aborted", "details": [{"value": "CgFk"}, {"type": "a"}]}}', Err("aborted")),
    (b'{"metadata": 5}', "any"), (b'{"metadata": []}', "any"), (b'{"metadata": "x"}', "any"), (b'{"metadata": ["x"]}', "any"),
    (b'{"metadata": {"a": "1"}}', "any"), (b'{"metadata": {"a": 5}}', "any"), (b'{"metadata": {"a": null}}', "any"),
    (b'{"metadata": {"a": [5, null, {}]}}', "any"), (b'{"metadata": {"": ["1"]}}', "any"),
    (b'{"metadata": {"a": {"b": 1}}}', "any"), (b'{"metadata": {"\\u00e4\\n": ["\\ud800"]}}', "any"),
]


def end_body(ch, p):
    _, io, kind = p
    n = ch.choose(3, "messages")
    data, verdict = ch.pick(ENDS, "end message")
    comp = ch.pick(["identity", "gzip", "bad gzip", "flag without encoding"], "compression")
    r = wire.build_response("connect", kind, "proto", ["a", "b"][:n])
    flag, payload = 2, data
    if comp == "gzip":
        flag, payload = 3, wire.compress("gzip", data)
        r.headers.append(("connect-content-encoding", "gzip"))
    elif comp == "bad gzip":
        flag, payload = 3, b"\x1f\x8b" + data
        r.headers.append(("connect-content-encoding", "gzip"))
    elif comp == "flag without encoding":
        flag = 3
    r.chunks[-1] = wire.env(flag, payload)
    out = do_call(io, T(r), kind, "connect", accept_compression=[compression("gzip")])
    desc = lambda: f"{p} n={n} {comp} end={data[:80]!r} -> {out.raised!r} {out.msgs}"
    rpc_only(out, desc)
    ch.ev(n, data[:60], out.short())
    single = kind in ("unary", "client_stream")
    if not single:
        expect(out.msgs == ["a", "b"][:n], "messages-before-end", desc)
    if comp in ("bad gzip", "flag without encoding"):
        verdict = "err"
    if single and n != 1 and verdict in ("ok", "any"):
        verdict = "err"
    if verdict == "ok":
        expect(out.raised is None, "good-response-refused", desc)
    elif verdict == "err":
        expect(out.raised is not None, "bad-end-accepted", desc)
    elif isinstance(verdict, Err) and not (single and n == 2):
        expect(out.error is not None and out.error.key() == verdict.key(), "end-error-changed", desc)
    return verdict if isinstance(verdict, str) else "error"


def head_body(ch, p):
    """content types and encodings of otherwise right responses"""
    _, io, proto, kind = p
    right = wire.content_type(proto, kind, "proto")
    cts = [right, None, "", "application/json", "text/html", "application/proto", "application/grpc",
           "application/grpc+json", "application/grpc-web", "application/grpc-web+json",
           "application/connect+json", "application/connect+", right + "x", right.upper(), "application/", ";", "a" * 5000]
    ct = ch.pick(cts, "content-type")
    enc = ch.pick([None, "", "identity", "gzip", "br", "bogus", "gzip, br", "GZIP", "ä"[:0] or "x y"], "encoding")
    zipped = ch.flag("compressed")
    r = wire.build_response(proto, kind, "proto", ["a"], comp="gzip" if zipped else "identity")
    hs = [x for x in r.headers if x[0] not in ("content-type", wire.enc_header(proto, kind))]
    if ct is not None:
        hs.append(("content-type", ct))
    if enc is not None:
        hs.append((wire.enc_header(proto, kind), enc))
    unary = proto == "connect" and kind == "unary"
    if unary and zipped:
        raise Prune  # pyqwest itself decompresses
    r.headers = hs
    out = do_call(io, T(r), kind, proto, accept_compression=[compression("gzip")])
    desc = lambda: f"{p} ct={ct!r} enc={enc!r} zipped={zipped} -> {out.raised!r} {out.msgs}"
    rpc_only(out, desc)
    ch.ev(ct and ct[:40], enc, out.short())
    if out.raised is None:
        expect(out.msgs == ["a"], "wrong-message", desc)
        base = (ct or "").lower().partition(";")[0].strip()
        bad_ct = base != right and not (right.startswith("application/grpc") and base == right.rsplit("+", 1)[0])
        expect(not bad_ct, "wrong-content-type-accepted", desc)
        expect(enc in (None, "", "identity", "gzip", "GZIP") or (not zipped and enc is not None), "unknown-encoding-accepted", desc)
        return "ok"
    if ct == right and ((enc in (None, "", "identity") and not zipped) or (enc == "gzip" and zipped)):
        expect(False, "good-response-refused", desc)
    return "refused"


# -- mutations --------------------------------------------------------------
def variants(proto, kind):
    multi = kind in ("server_stream", "bidi")
    ms = ["a", "bb"] if multi else ["a"]
    return [
        wire.build_response(proto, kind, "proto", ms),
        wire.build_response(proto, kind, "json", ms),
        wire.build_response(proto, kind, "proto", ms, trailers=[("t", "1")]),
        wire.build_response(proto, kind, "proto", ms[:1] if multi else [], error=Err("aborted", "m%", [DET])),
        wire.build_response(proto, kind, "proto", ms, comp="gzip"),
    ]


def mutate_body(ch, p):
    _, io, proto, kind, vi, big = p
    r = variants(proto, kind)[vi]
    codec_name = "json" if vi == 1 else "proto"
    unary = proto == "connect" and kind == "unary"
    if unary and vi == 4:
        raise Prune
    b = r.body
    if not b:
        raise Prune
    i = ch.choose(len(b), "position")
    subs = list(range(256)) if big else [0, 1, 2, 3, 0x7F, 0x80, 0x81, 0xFF, b[i] ^ 1, b[i] ^ 0x20, (b[i] + 1) & 255, 0x22, 0x7B]
    op = ch.choose(len(subs) + 3, "mutation")
    if op < len(subs):
        nb = b[:i] + bytes([subs[op]]) + b[i + 1:]
        if nb == b:
            raise Prune
    elif op == len(subs):
        nb = b[:i] + b[i + 1:]
    elif op == len(subs) + 1:
        nb = b[:i] + b[i:i + 1] + b[i:]
    else:
        nb = b[:i] + b"\x00" + b[i:]
    r.chunks = [nb]
    out = do_call(io, T(r), kind, proto, codec_name)
    desc = lambda: f"{p} body={nb!r} -> {out.raised!r} {out.msgs}"
    rpc_only(out, desc)
    ch.ev(nb.hex(), out.short())
    try:
        want = wire.parse_response(proto, kind, codec_name, r)
    except Exception:
        return "malformed"
    single = kind in ("unary", "client_stream")
    if want.error is None:
        if single and len(want.msgs) != 1:
            expect(out.raised is not None, "cardinality", desc)
        else:
            if out.raised is None:
                expect(out.msgs == want.msgs, "wrong-message", desc)
        return "valid"
    expect(out.raised is not None, "error-lost", desc)
    return "valid error"


MODES = {"status": status_body, "fault": fault_body, "close": close_body, "grpc": grpc_body, "end": end_body, "split": split_body,
         "head": head_body, "mutate": mutate_body}


def body(ch, p):
    return MODES[p[0]](ch, p)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    ranges = [(a, min(a + 25, 600)) for a in range(100, 600, 25)] if big else \
        [(200, 202), (302, 303), (400, 405), (408, 410), (429, 430), (499, 505)]
    for io in ("async", "sync"):
        for proto in PROTOS:
            for kind in KINDS:
                for lo, hi in ranges:
                    out.append(("status", io, proto, kind, lo, hi))
                for fi in range(len(faults())):
                    out.append(("fault", io, proto, kind, fi))
                out.append(("close", io, proto, kind))
                out.append(("split", io, proto, kind))
                out.append(("head", io, proto, kind))
                if proto != "connect":
                    out.append(("grpc", io, proto, kind, big))
                elif kind != "unary":
                    out.append(("end", io, kind))
                for vi in range(5):
                    out.append(("mutate", io, proto, kind, vi, big))
    return out


CHECK = Check(
    id="C19", body=body, scenarios=scenarios,
    rule="both clients x protocol x kind: HTTP statuses (thorough: all of 100..599) x content types x error bodies, whole and in chunks; every transport fault "
         "(I/O errors, timeouts, stream resets of every code) before the response and after every message, inside an envelope, with every kind of "
         "trailers and with the deadline passed; faults while the response is released; malformed gRPC statuses, Connect end messages, content types "
         "and encodings; every position of valid bodies mutated (thorough: all 256 byte values)",
    assumptions=("an error body or trailer that is itself malformed may be reported with any code",
                 "a JSON error body on a stream response whose HTTP status is not 200 may be honoured or ignored"),
)
