"""C05: deadlines travel from caller to handler at their exact value."""
import re
import time
from fractions import Fraction

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire
from mc.vtime import virtual_clock

MAXT = 10**16
EDGES = [1, 10, 100, 999, 1000, 1001, 59_999, 60_000, 60_001, 3_599_999, 3_600_000, 3_600_001,
         *[10**k + d for k in range(1, 13) for d in (-1, 0, 1)],
         99_999_999_000 - 1, 99_999_999_000, 99_999_999_999, 100_000_000_000,
         99_999_999 * 60_000, 100_000_000 * 60_000 - 1, 100_000_000 * 60_000, 100_000_000 * 60_000 + 1,
         99_999_999 * 3_600_000, 100_000_000 * 3_600_000 - 1, 100_000_000 * 3_600_000, 10**15]
VALUES = sorted(set(EDGES))
CONNECT_MAX = 9_999_999_999
GRPC_RE = re.compile(r"[0-9]{1,8}[HMSmun]\Z", re.ASCII)
CONN_RE = re.compile(r"[0-9]{1,10}\Z", re.ASCII)
UNIT = {"H": Fraction(3_600_000), "M": Fraction(60_000), "S": Fraction(1000), "m": Fraction(1),
        "u": Fraction(1, 1000), "n": Fraction(1, 1_000_000)}


def allowed(proto, t):
    """(lo, hi) of the remaining milliseconds a handler may see for a caller's t."""
    if proto == "connect":
        return (min(t, CONNECT_MAX), min(t, CONNECT_MAX))
    for u in (1, 1000, 60_000, 3_600_000):
        # never coarser than the finest unit that can express it
        if t // u < 10**8:
            return (t - t % u, t)
    return (99_999_999 * 3_600_000, t)


def server(sio, kind, seen, extra=None):
    def note(ctx):
        seen.append((ctx.timeout_ms, extra))

    def one(r, ctx):
        note(ctx)
        return M("r")

    async def aone(r, ctx):
        note(ctx)
        return M("r")

    def gen(r, ctx):
        note(ctx)
        yield M("r")

    async def agen(r, ctx):
        note(ctx)
        yield M("r")
    st = kind in ("server_stream", "bidi")
    mi = minfo(kind, idem=IdempotencyLevel.NO_SIDE_EFFECTS)
    if sio == "asgi":
        return asgi_app([(mi, kind, agen if st else aone)])
    return wsgi_app([(mi, kind, gen if st else one)])


def send_body(ch, p):
    """client -> (header) -> server"""
    _, cio, sio, proto, kind, where = p
    t = ch.pick(VALUES, "timeout")
    seen = []
    app = server(sio, kind, seen)
    kw = {"mi": minfo(kind, idem=IdempotencyLevel.NO_SIDE_EFFECTS)}
    ckw = {}
    if where == "call":
        kw["timeout_ms"] = t
    elif where == "client":
        ckw["timeout_ms"] = t
    elif where == "both":
        kw["timeout_ms"], ckw["timeout_ms"] = t, 77
    elif where == "get":
        kw["timeout_ms"], kw["use_get"] = t, True
    elif where == "forwarded":
        # the caller passes on the headers of another call, with that one's deadline
        kw["timeout_ms"] = t
        kw["headers"] = Headers([("Connect-Timeout-Ms", "77"), ("grpc-timeout", "77m"), ("x-a", "1")])
    with virtual_clock():
        out, tr, _ = call_with(cio, (sio, app), kind, ["q"], proto=proto, client_kw=ckw, **kw)
    lo, hi = allowed(proto, t)
    hs = {k: v for k, v in tr.requests[0].headers}
    name = "connect-timeout-ms" if proto == "connect" else "grpc-timeout"
    hv = hs.get(name)
    ch.ev("t", t, "header", hv, "seen", seen)
    expect(hv is not None, "no-timeout-header", lambda: f"{t}: {hs}")
    expect((CONN_RE if proto == "connect" else GRPC_RE).match(hv), "header-grammar", lambda: f"{t}: {hv!r}")
    expect(out.raised is None, "call-failed", lambda: f"{t}: {out.raised!r}")
    expect(len(seen) == 1, "handler-runs", lambda: str(seen))
    got = seen[0][0]
    expect(got is not None and lo - 1e-3 <= got <= hi + 1e-3, "deadline-changed",
           lambda: f"caller {t} ms, header {hv!r}, handler {got}, allowed [{lo},{hi}]")
    return f"send {proto}"


def none_body(ch, p):
    _, cio, sio, proto, kind = p
    seen = []
    out, tr, _ = call_with(cio, (sio, server(sio, kind, seen)), kind, ["q"], proto=proto)
    expect(out.raised is None and seen == [(None, None)], "deadline-from-nowhere", lambda: f"{seen} {out.raised!r}")
    expect(not any("timeout" in k for k, _ in tr.requests[0].headers), "timeout-header", lambda: str(tr.requests[0].headers))
    return "none"


def zero_body(ch, p):
    """An explicit zero (or already passed) deadline never turns into a longer one."""
    _, cio, sio, proto, kind = p
    t = ch.pick([0, -5], "t")
    dflt = ch.pick([None, 5000], "default")
    seen = []
    with virtual_clock():
        out, tr, _ = call_with(cio, (sio, server(sio, kind, seen)), kind, ["q"], proto=proto,
                               timeout_ms=t, client_kw={"timeout_ms": dflt})
    for s, _x in seen:
        expect(s is not None and s <= 0.001, "expired-deadline-extended", lambda: f"asked {t} default {dflt} seen {s}")
    expect(seen or out.error is not None, "silent", lambda: repr(out.raised))
    if out.error is not None and (cio, sio) != ("async", "asgi"):
        # (that pair runs in one task here, so the server sees the client's own cancellation)
        expect(out.error.code == "deadline_exceeded", "wrong-code", lambda: f"asked {t} default {dflt}: {out.error}")
    for req in tr.requests:
        hv = dict(req.headers).get("connect-timeout-ms" if proto == "connect" else "grpc-timeout")
        expect(hv is not None and (CONN_RE if proto == "connect" else GRPC_RE).match(hv), "header-grammar", lambda: f"{t}: {hv!r}")
    ch.ev("zero", t, dflt, seen, out.short())
    return "zero"


ALPHA = ["0", "1", "9", "H", "M", "S", "m", "u", "n", "s", "h", ".", "e", "x", "-", "+", " ", "_", "\u0661"]
LONG = [d * k + u for d in ("1", "9", "0") for k in range(1, 11) for u in ("H", "M", "S", "m", "u", "n", "")]
LONG += ["29000u", "57u", "1000000n", "999999n", "1999999n", "4503u", "12345678u", "87654321n", "1001u",
         "00000001S", "000000001S", "1.5S", "1e3S", "0x1S", "1SS", "S1", "inf", "nanS", "infS", "1 S", "\u0661S", "NaN", "1Q"]


def parse_body(ch, p):
    _, sio, proto, kind, mode = p
    if mode == "short":
        n = 1 + ch.choose(3, "len")
        s = "".join(ch.pick(ALPHA, "c") for _ in range(n))
        if s != s.strip():
            raise Prune()  # optional whitespace around a header value is not part of it
    elif mode == "list":
        s = ch.pick(LONG, "s")
    seen = []
    app = server(sio, kind, seen)
    req = wire.build_request(proto, kind, "proto", ["q"], path=mpath(kind), timeout=s)
    with virtual_clock():
        r = asgi_sync(app, req) if sio == "asgi" else wsgi_plain(app, req)
    expect(not r.mon.problems, "response-protocol", lambda: f"{s!r}: {r.mon.problems}")
    ok = (CONN_RE if proto == "connect" else GRPC_RE).match(s)
    ch.ev("hdr", s.encode("unicode_escape"), "ok", bool(ok), "seen", seen, r.resp.status)
    if ok:
        expect(len(seen) == 1, "valid-timeout-refused", lambda: f"{s!r}: {r.resp}")
        exact = Fraction(int(s)) if proto == "connect" else Fraction(int(s[:-1])) * UNIT[s[-1]]
        got = seen[0][0]
        # the implementation may keep whole milliseconds
        expect(got is not None and exact - 1 < Fraction(got) + Fraction(1, 1000) and Fraction(got) <= exact + Fraction(1, 1000),
               "timeout-value", lambda: f"{s!r}: handler saw {got}, exact {float(exact)}")
        if exact.denominator == 1:
            expect(abs(got - int(exact)) < 0.01, "timeout-value", lambda: f"{s!r}: handler saw {got}, exact {exact}")
    else:
        expect(not seen, "malformed-timeout-accepted", lambda: f"{s!r}: handler saw {seen}")
        expect(r.exc is None, "app-crashed", lambda: f"{s!r}: {r.exc!r}")
        if r.resp.status == 200:
            try:
                pr = wire.parse_response(proto, kind, "proto", r.resp)
            except wire.WireError as e:
                raise Violation("malformed-response", f"{s!r}: {e}") from e
            expect(pr.error is not None, "malformed-timeout-accepted", lambda: f"{s!r}")
        else:
            expect(400 <= r.resp.status < 600, "status", lambda: f"{s!r}: {r.resp.status}")
            if r.resp.get("content-type") == "application/json":
                import json
                code = json.loads(r.resp.body).get("code")
                expect(code == "invalid_argument", "refusal-code", lambda: f"{s!r}: {code}")
    return f"parse {proto} {'ok' if ok else 'bad'}"


def elapse_body(ch, p):
    """remaining time shrinks with the clock, at the handler and at a client interceptor"""
    _, proto, kind, = p
    t = ch.pick([1, 250, 60_000], "t")
    steps = [ch.pick([0, 0.1, 0.25, 100], "sleep") for _ in range(2)]
    seen = []
    t0 = []

    async def note(ctx):
        import asyncio
        now = [time.monotonic()]
        seen.append((0.0, ctx.timeout_ms))
        for s in steps:
            await asyncio.sleep(s)
            seen.append((time.monotonic() - now[0], ctx.timeout_ms))

    async def one(r, ctx):
        await note(ctx)
        return M("r")

    async def gen(r, ctx):
        await note(ctx)
        yield M("r")
    st = kind in ("server_stream", "bidi")
    app = asgi_app([(minfo(kind), kind, gen if st else one)])
    hv = str(t) if proto == "connect" else f"{t}m"
    req = wire.build_request(proto, kind, "proto", ["q"], path=mpath(kind), timeout=hv)
    asgi_sync(app, req)
    expect(len(seen) == 3, "handler", lambda: str(seen))
    for el, rem in seen:
        expect(abs(rem - (t - el * 1000)) < 0.01, "remaining-time", lambda: f"t={t} elapsed={el} remaining={rem}")
    return "elapse"


def body(ch, p):
    return {"send": send_body, "none": none_body, "zero": zero_body, "parse": parse_body, "elapse": elapse_body}[p[0]](ch, p)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for proto in PROTOS:
        for kind in KINDS:
            for cio, sio in [("async", "asgi"), ("sync", "wsgi"), ("async", "wsgi"), ("sync", "asgi")]:
                for where in ("call", "client", "both", "forwarded") + (("get",) if kind == "unary" and proto == "connect" else ()):
                    out.append(("send", cio, sio, proto, kind, where))
                out.append(("none", cio, sio, proto, kind))
                out.append(("zero", cio, sio, proto, kind))
            for sio in ("asgi", "wsgi"):
                if big or kind in ("unary", "server_stream") or proto == "connect":
                    out.append(("parse", sio, proto, kind, "short"))
                out.append(("parse", sio, proto, kind, "list"))
            out.append(("elapse", proto, kind))
    return out


CHECK = Check(
    id="C05", body=body, scenarios=scenarios,
    rule="caller timeouts around every power of ten and unit limit, by call, client default and both, on "
         "every pair; every timeout header of <=3 characters over a 19-letter alphabet plus 90 long "
         "ones parsed by both servers; remaining time against a virtual clock",
    assumptions=("the clock is time.monotonic, replaced by a virtual one",
                 "a rejected header may be refused by an RPC error or an HTTP error status"),
)
