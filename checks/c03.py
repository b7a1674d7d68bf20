"""C03: an error raised by a handler reaches the caller unchanged."""
import re

from protobuf import Registry
from protobuf.wkt import Any as PAny
from protobuf.wkt import Int32Value, wrappers_pb

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire

CHARS = [chr(c) for c in range(0x00, 0x250)] + [chr(c) for c in (
    0x3B1, 0x5D0, 0x7FF, 0x800, 0x1100, 0x2028, 0x2029, 0x3042, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD,
    0xFFFF, 0x10000, 0x1F600, 0x10FFFF)]
STRINGS = [
    "", "plain", "two words", "%", "%%", "%4", "%41", "%zz", "100% sure", "a%20b", "%E2%82%AC",
    "\r\ngrpc-status: 0\r\n", "line1\nline2", "tab\tx", "quote\"s", "back\\slash", "{\"code\":\"ok\"}",
    "\x00\x01", "\u00e9\u20ac\U0001f600", "mixed % \u00e9 %C3", "a:b", ": leading", "x" * 300, "\u00e9" * 3000,
    "trailing ", " leading", "a;b,c", "+plus+", "&amp;", "~", "\x7f", "0", "null", "None",
]


def _any(t, b, prefix="type.googleapis.com/"):
    return PAny(type_url=prefix + t, value=b)


DETAILS = [
    ([], []),
    ([StringValue(value="x")], None),
    ([StringValue(value="")], None),
    ([StringValue(value="\u00e9"), StringValue(value="second")], None),
    ([_any("acme.v1.Foo", b"")], None),
    *[([_any("acme.v1.Foo", bytes(range(n)))], None) for n in range(1, 8)],
    ([_any("acme.v1.Foo", b"\xff\xfe\xfb\xff")], None),
    ([_any("acme.v1.Foo", bytes(range(256)))], None),
    ([_any("a.B", b"1"), StringValue(value="m"), _any("c.D", b"22")], None),
    ([ErrorDetail(StringValue(value="wrapped")), _any("google.protobuf.StringValue", b"\x0a\x01z")], None),
    ([_any("google.rpc.ErrorInfo", b"\x0a\x03abc")], None),
    # a type is named by what follows the last slash
    ([_any("google.protobuf.StringValue", b"\x0a\x01z", "types.example.com/")], None),
    ([_any("google.protobuf.StringValue", b"\x0a\x01z", "https://example.com/a/b/")], None),
    ([_any("google.protobuf.StringValue", b"\x0a\x01z", "/")], None),
    ([_any("a.B", bytes([i])) for i in range(70)], None),
    ([_any("a.B", bytes(70000))], None),
    # cannot be deserialized
    ([_any("google.protobuf.StringValue", b"\x0a\x05z"), StringValue(value="y")], None),
    ([_any("google.protobuf.StringValue", b"\x0a\x01\xff"), _any("google.protobuf.StringValue", b"\x08")], None),
    ([_any("google.protobuf.StringValue", b"\xff\xff\xff"), _any("google.protobuf.Int32Value", b"\x08\x07")], None),
]
REGISTRY = Registry(wrappers_pb.desc())


def check_values(details):
    """What a caller makes of the details it received."""
    for d in details:
        want = {StringValue: None, Int32Value: None}
        for t in want:
            if d.type_name == f"google.protobuf.{t.__name__}":
                try:
                    want[t] = t.from_binary(bytes(d.message_bytes))
                except Exception:
                    want[t] = None
        either = want[StringValue] or want[Int32Value]
        desc = lambda: f"{d.type_name} {bytes(d.message_bytes)!r}"
        try:
            got = (d.value(), d.value(StringValue), d.value(StringValue.desc()), d.value(Int32Value), d.value(REGISTRY), d.value(Registry()))
        except Exception as e:
            raise Violation("detail-value", f"{e!r} {desc()}") from e
        expect(got == (None, want[StringValue], want[StringValue], want[Int32Value], either, None), "detail-value",
               lambda: f"{got} {desc()}")


def detail_key(ds):
    out = []
    for d in ds:
        if isinstance(d, ErrorDetail):
            out.append((d.type_name, bytes(d.message_bytes)))
        elif isinstance(d, PAny):
            out.append((d.type_url.rsplit("/", 1)[1], bytes(d.value)))
        else:
            raw = d.to_binary()
            out.append(("google.protobuf.StringValue", bytes(raw)))
    return tuple(out)


class OwnError(ConnectError):
    """An application's own RPC error."""

    def __init__(self, code, message, details):
        super().__init__(code, message, details)
        self.extra = object()

    def __str__(self):
        return "not the message"


def err_chained(*a):
    e = ConnectError(*a)
    e.__cause__ = ValueError("cause")
    e.__suppress_context__ = True
    return e


class Custom(Exception):
    def __str__(self):
        return "custom \u00e9 %41"


PLAIN = [
    (lambda: ValueError("boom"), "boom"),
    (lambda: RuntimeError(""), ""),
    (lambda: KeyError("k"), "'k'"),
    (lambda: Custom(), "custom \u00e9 %41"),
    (lambda: OSError("io"), "io"),
    (lambda: TimeoutError("slow"), "slow"),
    (lambda: NotImplementedError("nope"), "nope"),
    (lambda: ZeroDivisionError("division by zero"), "division by zero"),
    (lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"),
     "'utf-8' codec can't decode byte 0xff in position 0: bad"),
    (lambda: AssertionError(), ""),
    # not valid Unicode, like the names of files can be
    (lambda: ValueError("a\udc80b"), "a\udc80b"),
    (lambda: OSError(2, "No such file", "caf\udce9.txt"), "[Errno 2] No such file: 'caf\\udce9.txt'"),
    (lambda: ValueError("\ud83d"), "\ud83d"),
    (lambda: ConnectError(Code.NOT_FOUND, "no \udcff\ud800 file", [StringValue(value="d")]), "no \udcff\ud800 file"),
    (lambda: StopIteration("stop"), None),
    (lambda: StopAsyncIteration("stop"), None),
]


def stop_text(exc, sio, kind):
    """What Python makes of these exceptions when a coroutine or a generator raises them."""
    it, name = type(exc) is StopIteration, type(exc).__name__
    if sio == "asgi":
        if kind in ("unary", "client_stream"):
            return f"coroutine raised {name}" if it else "stop"
        return f"async generator raised {name}"
    if kind in ("unary", "client_stream") or not it:
        return "stop"
    return f"generator raised {name}"


def same_text(got, want):
    """Text the wire cannot carry may be replaced; nothing else may."""
    parts = re.split("[\ud800-\udfff]+", want)
    if len(parts) == 1:
        return got == want
    return re.fullmatch("(?s:.+)".join(map(re.escape, parts)), got) is not None


def make_app(sync, kind, when, mk):
    """when: number of responses yielded before raising (streams), or 'req' to drain the
    request first, or 'start'."""
    n = when if isinstance(when, int) else 0
    if sync:
        def unary(r, ctx):
            raise mk()

        def cstream(it, ctx):
            if when == "req":
                for _ in it:
                    pass
            elif when == "one":
                next(it)
            raise mk()

        def sstream(r, ctx):
            for i in range(n):
                yield M(f"m{i}")
            raise mk()

        def bidi(it, ctx):
            if when == "req":
                for _ in it:
                    pass
            for i in range(n):
                yield M(f"m{i}")
            raise mk()
    else:
        async def unary(r, ctx):
            raise mk()

        async def cstream(it, ctx):
            if when == "req":
                async for _ in it:
                    pass
            elif when == "one":
                await anext(it)
            raise mk()

        async def sstream(r, ctx):
            for i in range(n):
                yield M(f"m{i}")
            raise mk()

        async def bidi(it, ctx):
            if when == "req":
                async for _ in it:
                    pass
            for i in range(n):
                yield M(f"m{i}")
            raise mk()
    fn = {"unary": unary, "client_stream": cstream, "server_stream": sstream, "bidi": bidi}[kind]
    return (wsgi_app if sync else asgi_app)([(minfo(kind), kind, fn)])


def body(ch, p):
    cio, sio, proto, kind, cn, when, dim = p
    # -- the error --------------------------------------------------------
    code, msg, det = "internal", "it broke", []
    plain = rechunk = None
    cls = ConnectError
    if dim == "code":
        code = ch.pick(wire.CODES, "code")
        det = ch.pick([[], [StringValue(value="d")]], "det")
        msg = ch.pick(["it broke", ""], "msg")
        cls = ch.pick([ConnectError, OwnError, err_chained], "class") if sio != "peer" else ConnectError
    elif dim == "char":
        msg = "a" + ch.pick(CHARS, "char") + "b"
    elif dim == "edgechar":
        c = ch.pick(CHARS, "char")
        msg = c if proto == "connect" or not c.isspace() else c + "."
    elif dim == "string":
        msg = ch.pick(STRINGS, "string")
        det = ch.pick([[], [StringValue(value="d")]], "det")
    elif dim == "details":
        det = ch.pick([d for d, _ in DETAILS], "details")
        code = ch.pick(["internal", "canceled", "unauthenticated"], "code")
    elif dim == "chunks":
        rechunk = ch.pick(["one", "bytes", "shift"], "chunks")
        det = ch.pick([[], [StringValue(value="d")]], "det")
    elif dim == "plain":
        mk0, msg = ch.pick(PLAIN, "exc")
        code = "unknown"
        plain = mk0
        exc = mk0()
        if msg is None:
            msg = stop_text(exc, sio, kind)
        if isinstance(exc, ConnectError):
            code, det = exc.code.value, [StringValue(value="d")]
    want = Err(code, msg, list(detail_key(det))).key()
    nreq = 2 if kind in ("client_stream", "bidi") else 1
    msgs = [f"q{i}" for i in range(nreq)]
    n = when if isinstance(when, int) else 0
    sent = [f"m{i}" for i in range(n)]

    mk = plain or (lambda: cls(Code(code), msg, det))
    if sio == "peer":
        err = Err(code, msg, list(detail_key(det)))
        if det and isinstance(det[0], PAny):
            err.prefix = det[0].type_url.removesuffix(err.details[0][0])
        serve = ("peer", lambda req: wire.build_response(
            proto, kind, cn, sent, error=err, trailers_only=(when == "req")))
    else:
        app = make_app(sio == "wsgi", kind, when, mk)
        serve = (sio, app)
    runs = []
    if cio == "raw":
        req = wire.build_request(proto, kind, cn, msgs, path=mpath(kind))
        r = asgi_sync(app, req) if sio == "asgi" else wsgi_plain(app, req)
        runs.append(r)
        try:
            pr = wire.parse_response(proto, kind, cn, r.resp)
        except wire.WireError as e:
            raise Violation("malformed-error-response", f"{e}: {r.resp}") from e
        got, gmsgs = pr.error.key() if pr.error else None, pr.msgs
    else:
        out, _, runs = call_with(cio, serve, kind, msgs, proto=proto, codec_name=cn, runs=runs, rechunk=rechunk)
        expect(out.error is not None, "error-lost", lambda: f"{out.raised!r} {out.msgs}")
        expect(isinstance(out.raised, ConnectError), "not-connect-error", lambda: repr(out.raised))
        got, gmsgs = out.error.key(), out.msgs
        if dim == "details":
            check_values(out.raised.details)
    if runs:
        r = runs[0]
        expect(not r.mon.problems, "response-protocol", lambda: str(r.mon.problems))
        if plain is None or isinstance(exc, ConnectError):
            expect(r.exc is None, "app-raised", lambda: repr(r.exc))
    ch.ev("err", got)
    if got and want[1] != got[1] and same_text(got[1], want[1]):
        want = (want[0], got[1], *want[2:])
    expect(got == want, f"error-changed", lambda: f"got {str(got)[:500]!r} want {str(want)[:500]!r}")
    if kind in ("server_stream", "bidi"):
        expect(gmsgs == sent, "messages-before-error", lambda: f"{gmsgs} want {sent}")
    else:
        expect(gmsgs == [], "messages-with-error", lambda: f"{gmsgs}")
    return f"{cio} {sio} {proto} {kind} {dim}"


def whens(kind):
    return {"unary": ["start"], "client_stream": ["start", "one", "req"],
            "server_stream": [0, 1, 2], "bidi": [0, 1, 2, "req"]}[kind]


PAIRS = [("async", "asgi"), ("async", "wsgi"), ("sync", "asgi"), ("sync", "wsgi"),
         ("raw", "asgi"), ("raw", "wsgi"), ("async", "peer"), ("sync", "peer")]


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for cio, sio in PAIRS:
        for proto in PROTOS:
            for kind in KINDS:
                for when in whens(kind):
                    for cn in ("proto", "json"):
                        for dim in ("code", "plain", "details", "string", "chunks"):
                            if sio == "peer" and (dim == "plain" or when == "one") or cio == "raw" and dim == "chunks":
                                continue
                            out.append((cio, sio, proto, kind, cn, when, dim))
                    if big or when in ("start", 1):
                        if big or kind in ("unary", "server_stream"):
                            out.append((cio, sio, proto, kind, "proto", when, "char"))
                            out.append((cio, sio, proto, kind, "proto", when, "edgechar"))
    return out


CHECK = Check(
    id="C03", body=body, scenarios=scenarios,
    rule="16 codes x every message of the corpus (each char U+0000..U+024F plus edge code points, "
         "34 tricky strings) x detail lists x plain exceptions, x how the response is cut into chunks x client/server implementation "
         "(incl. an independent peer on either side) x protocol x kind x codec x raise point",
    assumptions=("parts of a message that are not valid Unicode may be replaced",
                 "header values are carried verbatim by the HTTP layer"),
)
