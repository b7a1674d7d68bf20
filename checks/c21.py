"""C21: OpenTelemetry spans and metrics of RPCs."""
import asyncio
import contextvars
import gc
import logging

from opentelemetry import context as octx
from opentelemetry import trace as otrace
from opentelemetry.metrics import NoOpMeterProvider
from opentelemetry.propagators.textmap import TextMapPropagator
from opentelemetry.sdk.metrics import Histogram, MeterProvider
from opentelemetry.sdk.metrics.export import AggregationTemporality, InMemoryMetricReader
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.sampling import ALWAYS_OFF
from opentelemetry.trace import NonRecordingSpan, NoOpTracerProvider, SpanContext, SpanKind, StatusCode, TraceFlags
from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator

from connectrpc_otel import OpenTelemetryInterceptor

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import srv, wire

CODES = [c.value for c in Code]
SCOPE = "connectrpc-otel"
STREAMED = ("server_stream", "bidi")


class SubError(ConnectError):
    """An application's own RPC error."""

    def __init__(self):
        super().__init__(Code.ABORTED, "own")


class Falsy(Exception):
    def __len__(self):
        return 0


class Spans(SpanProcessor):
    def __init__(self):
        self.started, self.ended = [], []

    def on_start(self, span, parent_context=None):
        self.started.append(span)

    def on_end(self, span):
        self.ended.append(span)


class Tele:
    def __init__(self, sampler=None):
        self.sp = Spans()
        self.tp = TracerProvider(shutdown_on_exit=False, **({"sampler": sampler} if sampler else {}))
        self.tp.add_span_processor(self.sp)
        self.reader = InMemoryMetricReader(preferred_temporality={Histogram: AggregationTemporality.DELTA})
        self.mp = MeterProvider([self.reader], shutdown_on_exit=False)
        self.user = self.tp.get_tracer("user")

    def reset(self):
        self.sp.started.clear()
        self.sp.ended.clear()
        self.reader.get_metrics_data()
        return self

    def interceptor(self, client, **kw):
        return OpenTelemetryInterceptor(tracer_provider=self.tp, meter_provider=self.mp, client=client, **kw)

    def spans(self):
        return [s for s in self.sp.started if s.instrumentation_scope.name == SCOPE]

    def ended(self):
        return [s for s in self.sp.ended if s.instrumentation_scope.name == SCOPE]

    def points(self):
        d = self.reader.get_metrics_data()
        return [(m.name, m.unit, pt) for r in (d.resource_metrics if d else []) for s in r.scope_metrics if s.scope.name == SCOPE
                for m in s.metrics for pt in m.data.data_points]


_TELE = {}


def tele(name="on"):
    if name not in _TELE:
        logging.getLogger("opentelemetry").setLevel(logging.CRITICAL)
        _TELE[name] = Tele(ALWAYS_OFF if name == "off" else None)
    return _TELE[name].reset()


class Prop(TextMapPropagator):
    """a propagator of its own format"""

    def extract(self, carrier, context=None, getter=None):
        v = carrier.get("x-own")
        if v is None:
            return context or octx.Context()
        t, s = v.split("/")
        return otrace.set_span_in_context(NonRecordingSpan(SpanContext(int(t, 16), int(s, 16), True, TraceFlags(1))), context)

    def inject(self, carrier, context=None, setter=None):
        c = otrace.get_current_span(context).get_span_context()
        if c.is_valid:
            setter.set(carrier, "x-own", f"{c.trace_id:x}/{c.span_id:x}")

    @property
    def fields(self):
        return {"x-own"}


def attach(t, how):
    """the span that is current when the call begins, or None"""
    if how == "none":
        return None
    if how == "unsampled":
        span = NonRecordingSpan(SpanContext(0xABC, 0xDEF, False, TraceFlags(0)))
    else:
        span = t.user.start_span("caller")
    octx.attach(otrace.set_span_in_context(span))
    return span


def base_attrs(kind, server, name=None):
    a = {"rpc.system.name": "connectrpc", "rpc.method": f"{SERVICE}/{name or minfo(kind).name}"}
    if server is not None:
        a["server.address"], a["server.port"] = server
    return a


def same(attrs, want):
    return all(unbracket(attrs.get(k)) == unbracket(v) for k, v in want.items())


def unbracket(v):
    return v.strip("[]").lower() if isinstance(v, str) else v


def err_attrs(e):
    if e is None:
        return {}
    return {"error.type": type(e).__qualname__, "rpc.response.status_code": e.code.value if isinstance(e, ConnectError) else "unknown"}


ERR_KEYS = ("error.type", "rpc.response.status_code")


def check_one(t, kind, client, error, server, what, cl=None, lenient_error=False, name=None):
    """exactly one span and one record; returns the span"""
    spans, ended, pts = t.spans(), t.ended(), t.points()
    expect(len(spans) == 1, "span-count", lambda: f"{what()} {len(spans)} spans")
    expect(len(ended) == 1 and spans[0].end_time is not None, "span-not-ended", lambda: f"{what()} ended={len(ended)}")
    s = spans[0]
    expect(s.kind == (SpanKind.CLIENT if client else SpanKind.SERVER), "span-kind", lambda: f"{what()} {s.kind}")
    base = base_attrs(kind, server, name)
    expect(s.name == base["rpc.method"], "span-name", lambda: f"{what()} {s.name}")
    expect(s.start_time <= s.end_time, "span-time", lambda: f"{what()} {s.start_time} {s.end_time}")
    want = dict(base)
    if cl is not None:
        want["client.address"], want["client.port"] = cl
    expect(same(s.attributes, want), "span-attributes", lambda: f"{what()} {dict(s.attributes)} want {want}")
    expect(len(pts) == 1 and pts[0][2].count == 1, "record-count", lambda: f"{what()} {pts}")
    metric, unit, pt = pts[0]
    expect(metric == f"rpc.{'client' if client else 'server'}.call.duration" and unit == "s", "record-name", lambda: f"{what()} {metric} {unit}")
    expect(0 <= pt.sum <= (s.end_time - s.start_time) / 1e9 + 60, "record-value", lambda: f"{what()} {pt.sum}")
    expect(same(pt.attributes, base), "record-attributes", lambda: f"{what()} {pt.attributes}")
    if not lenient_error:
        e = err_attrs(error)
        for where, attrs in (("span", s.attributes), ("record", pt.attributes)):
            expect({k: attrs[k] for k in ERR_KEYS if k in attrs} == e, "error-attributes", lambda: f"{what()} {where} {dict(attrs)} want {e}")
        expect((s.status.status_code == StatusCode.ERROR) == (error is not None), "span-status", lambda: f"{what()} {s.status}")
    return s


def fresh(fn):
    """in a context of its own, where nothing is current"""
    return contextvars.Context().run(fn)


# -- client -----------------------------------------------------------------
def client_call(io, proto, kind, prog, n, stop, interceptors, hook=None, headers=None):
    """-> (msgs, error, raised, headers, trailers, request)"""
    out_kind = kind in STREAMED
    msgs = [f"m{i}" for i in range(n)] if out_kind else ["m"]
    reqs = ["q0", "q1"] if kind in ("client_stream", "bidi") else ["q0"]

    def peer(req):
        if hook:
            hook(req)
        if prog == "transport":
            raise ConnectionError("reset")
        if prog == "garbage":
            return Resp(200, [("content-type", wire.content_type(proto, kind, "proto"))], [b"\xff\xff\xff"], None)
        if prog.startswith("err"):
            return wire.build_response(proto, kind, "proto", msgs if out_kind else [], error=Err(prog[4:], "no", []))
        return wire.build_response(proto, kind, "proto", msgs)
    kw = {"timeout_ms": 0} if prog == "timeout" else {}
    if headers:
        kw["headers"] = headers
    link = (AsyncLink if io == "async" else SyncLink)(peer)
    client = make_client(io == "sync", link, proto, "proto", send_compression=None, interceptors=interceptors)
    got = []
    mi = minfo(kind)
    boom = Falsy("x") if prog == "falsy" else ValueError("iterator")

    async def ait():
        yield M(reqs[0])
        raise boom

    def sit():
        yield M(reqs[0])
        raise boom
    if prog in ("badreq", "falsy"):
        kw["req_iter"] = ait() if io == "async" else sit()
    if not stop:
        if io == "async":
            async def main(_env):
                r = await acall(client, kind, reqs, mi=mi, **kw)
                return r, otrace.get_current_span()
            (out, cur), _ = run(None, main)
        else:
            out = scall(client, kind, reqs, mi=mi, **kw)
            cur = otrace.get_current_span()
        return out, link.requests, cur
    out = Outcome()
    if io == "async":
        async def main(_env):
            async def it():
                for r in reqs:
                    yield M(r)
            s = (client.execute_server_stream(request=M(reqs[0]), method=mi, headers=headers) if kind == "server_stream"
                 else client.execute_bidi_stream(request=it(), method=mi, headers=headers))
            async for r in s:
                out.msgs.append(r.value)
                if len(out.msgs) == stop:
                    break
            await s.aclose()
            return otrace.get_current_span()
        cur, _ = run(None, main)
    else:
        s = (client.execute_server_stream(request=M(reqs[0]), method=mi, headers=headers) if kind == "server_stream"
             else client.execute_bidi_stream(request=iter([M(r) for r in reqs]), method=mi, headers=headers))
        for r in s:
            out.msgs.append(r.value)
            if len(out.msgs) == stop:
                break
        s.close()
        cur = otrace.get_current_span()
    return out, link.requests, cur


PROPAGATION = {"traceparent", "tracestate", "baggage", "x-own"}


def view(o, reqs):
    return (o.msgs, o.error, type(o.raised), o.headers, o.trailers,
            [(r.method, r.path, r.query, sorted((k, v) for k, v in r.headers if k not in PROPAGATION), r.body) for r in reqs])


def client_body(ch, p):
    _, io, proto, kind, parent = p
    progs = ["ok", "transport", "garbage", "timeout"] + [f"err:{c}" for c in CODES]
    if kind in ("client_stream", "bidi"):
        progs += ["badreq", "falsy"]
    prog = ch.pick(progs, "outcome")
    n = ch.choose(3, "messages") if kind in STREAMED and (prog == "ok" or prog.startswith("err")) else 1
    stop = 0
    if prog == "ok" and kind in STREAMED and n:
        stop = ch.choose(n + 1, "stop after")
    prov = ch.pick(["on", "off", "noop"], "provider")
    t = tele("off" if prov == "off" else "on")
    # headers a server passes on from the request it is serving
    forward = {"x-pass": "on", "traceparent": REMOTE["valid"]} if prog == "ok" and prov == "on" and ch.flag("passed on headers") else None
    plain, preqs, _ = fresh(lambda: client_call(io, proto, kind, prog, n, stop, [], headers=forward and dict(forward)))
    during = []

    def go():
        caller = attach(t, parent)
        if prov == "noop":
            i = OpenTelemetryInterceptor(tracer_provider=NoOpTracerProvider(), meter_provider=NoOpMeterProvider(), client=True)
        else:
            i = t.interceptor(True)
        before = otrace.get_current_span()
        r = client_call(io, proto, kind, prog, n, stop, [i], hook=lambda _r: during.append(otrace.get_current_span()),
                        headers=forward)
        return caller, before, r
    caller, before, (out, reqs, cur) = fresh(go)
    what = lambda: f"{p} {prog} n={n} stop={stop} {prov} passed on {forward} -> {out.short()} {out.raised!r}"
    ch.ev(prog, n, stop, prov, out.short())
    expect(forward in (None, {"x-pass": "on", "traceparent": REMOTE["valid"]}), "headers-changed", what)
    expect(view(plain, preqs) == view(out, reqs), "call-changed", lambda: f"{what()}\n without: {view(plain, preqs)}\n with:    {view(out, reqs)}")
    expect(cur is before and otrace.get_current_span() is not None, "context-left-behind", lambda: f"{what()} {cur}")
    if prov == "noop":
        expect(not t.spans() and not t.points(), "wrong-provider", what)
        return "noop"
    sampled = prov == "on" and parent != "unsampled"
    err = out.raised
    if not sampled:
        expect(not t.spans(), "span-count", what)
        pts = t.points()
        expect(len(pts) == 1 and pts[0][2].count == 1, "record-count", lambda: f"{what()} {pts}")
    else:
        s = check_one(t, kind, True, err, ("example.test", 80), what)
        if parent == "none":
            expect(forward or s.parent is None, "client-parent", lambda: f"{what()} {s.parent}")
        else:
            expect(s.parent is not None and s.parent.span_id == caller.get_span_context().span_id, "client-parent", lambda: f"{what()} {s.parent}")
    for r in reqs:
        tp = [v for k, v in r.headers if k == "traceparent"]
        if sampled:
            sc = s.get_span_context()
            want = f"00-{sc.trace_id:032x}-{sc.span_id:016x}-{int(sc.trace_flags):02x}"
            expect(tp == [want], "propagation", lambda: f"{what()} {tp} want {want}")
        elif parent == "unsampled" and prov == "on":
            expect(len(tp) == 1 and tp[0].split("-")[1] == f"{0xABC:032x}" and tp[0].endswith("-00"), "propagation", lambda: f"{what()} {tp}")
    if sampled and prog != "timeout":
        expect(all(d.get_span_context().span_id == s.get_span_context().span_id for d in during), "not-current", lambda: f"{what()} {during}")
    return f"{prog.split(':')[0]}"


# -- server -----------------------------------------------------------------
REMOTE = {"valid": "00-0000000000000000000000000000abcd-000000000000ef01-01", "unsampled": "00-0000000000000000000000000000abcd-000000000000ef01-00",
          "garbage": "00-zz-1-", "future": "01-0000000000000000000000000000abcd-000000000000ef01-01-x", "zero": "00-" + "0" * 32 + "-" + "0" * 16 + "-01", "empty": ""}


def server_app(io, kind, prog, n, interceptors, t, inner, ncode=None):
    err = {"verr": ValueError("bug"), "falsy": Falsy("x"), "key": KeyError("k"), "stop": RuntimeError("r"), "own": SubError()}.get(prog)
    if prog.startswith("err"):
        err = ConnectError(Code(prog[4:]), "no")
    raised = []

    def note():
        cur = otrace.get_current_span()
        with t.user.start_as_current_span("inner") as x:
            inner.append((cur, x))

    def end():
        if err is not None:
            raised.append(err)
            raise err
    if io == "async":
        async def one(r, ctx):
            if hasattr(r, "__aiter__"):
                async for _ in r:
                    pass
            note()
            end()
            return M("r")

        async def many(r, ctx):
            if hasattr(r, "__aiter__"):
                async for _ in r:
                    pass
            for i in range(n):
                note()
                yield M(f"m{i}")
            note()
            end()
        return asgi_app([(minfo(kind), kind, many if kind in STREAMED else one)], interceptors=interceptors), raised

    def one(r, ctx):
        if hasattr(r, "__next__"):
            list(r)
        note()
        end()
        return M("r")

    def many(r, ctx):
        if hasattr(r, "__next__"):
            list(r)
        for i in range(n):
            note()
            yield M(f"m{i}")
        note()
        end()
    return wsgi_app([(minfo(kind), kind, many if kind in STREAMED else one)], interceptors=interceptors), raised


def serve_once(io, app, req, stop=None, **kw):
    if io == "async":
        mon = ASGIMonitor(None)
        out = []

        async def main(_env):
            chunks = list(req.chunks) or [b""]
            left = [{"type": "http.request", "body": c, "more_body": i + 1 < len(chunks)} for i, c in enumerate(chunks)]
            sent = 0

            async def receive():
                if left:
                    return left.pop(0)
                if stop is not None and sent > stop:
                    return {"type": "http.disconnect"}
                await asyncio.get_running_loop().create_future()

            async def send(m):
                nonlocal sent
                if m["type"] == "http.response.body":
                    sent += 1
                    if stop is not None and sent > stop:
                        raise OSError("disconnected")
                mon.on_send(m)
            try:
                await app(asgi_scope(req, **kw), receive, send)
            except Exception as e:
                out.append(type(e))
            return otrace.get_current_span()
        cur, _ = run(None, main)
        return mon.resp(), out, cur
    r = wsgi_plain(app, req, chunk_limit=stop, **kw)
    return r.resp, [type(r.exc)] if r.exc else [], otrace.get_current_span()


def server_body(ch, p):
    _, io, proto, kind, remote = p
    local = ch.pick(["none", "local", "unsampled"], "local span")
    prog = ch.pick(["ok", "verr", "falsy", "key", "own"] + [f"err:{c}" for c in CODES], "handler")
    n = ch.choose(3, "messages") if kind in STREAMED else 1
    stop = None
    if kind in STREAMED and prog == "ok" and n and ch.flag("client goes away"):
        stop = 1
    t = tele()
    req = wire.build_request(proto, kind, "proto", ["q0", "q1"] if kind in ("client_stream", "bidi") else ["q0"], path=mpath(kind))
    if remote != "none":
        req.headers = req.headers + [("traceparent", REMOTE[remote])]
    plain = fresh(lambda: serve_once(io, server_app(io, kind, prog, n, [], t, [])[0], req, stop))
    t.reset()
    inner = []

    def go():
        loc = attach(t, local)
        before = otrace.get_current_span()
        app, raised = server_app(io, kind, prog, n, [t.interceptor(False)], t, inner)
        return loc, before, serve_once(io, app, req, stop), raised
    loc, before, got, raised = fresh(go)
    what = lambda: f"{p} {local} {prog} n={n} stop={stop} -> {got[0].status}"
    ch.ev(local, prog, n, stop, got[0].status)
    show = lambda g: (g[0].status, g[0].headers, g[0].body, g[0].trailers, g[1])
    expect(show(plain) == show(got), "call-changed", lambda: f"{what()}\n without: {show(plain)}\n with:    {show(got)}")
    expect(got[2] is before, "context-left-behind", lambda: f"{what()} {got[2]}")
    # whose child it is
    if local != "none":
        ptid, pid, sampled = loc.get_span_context().trace_id, loc.get_span_context().span_id, local == "local"
    elif remote in ("valid", "unsampled", "future"):
        ptid, pid, sampled = 0xABCD, 0xEF01, remote != "unsampled"
    else:
        ptid, pid, sampled = None, None, True
    if not sampled:
        expect(not t.spans(), "span-count", what)
        pts = t.points()
        expect(len(pts) == 1 and pts[0][2].count == 1, "record-count", lambda: f"{what()} {pts}")
        return "unsampled"
    s = check_one(t, kind, False, raised[0] if raised else None, ("example.test", 80), what, cl=("127.0.0.1", 5), lenient_error=stop is not None)
    if ptid is None:
        expect(s.parent is None, "server-parent", lambda: f"{what()} {s.parent}")
    else:
        expect(s.parent is not None and (s.parent.trace_id, s.parent.span_id) == (ptid, pid) and s.get_span_context().trace_id == ptid, "server-parent",
               lambda: f"{what()} {s.parent}")
    sc = s.get_span_context()
    for cur, x in inner:
        expect(cur.get_span_context().span_id == sc.span_id and x.parent.span_id == sc.span_id, "not-current", lambda: f"{what()} {cur}")
    return f"{prog.split(':')[0]}"


# -- schedules of the ASGI server -------------------------------------------
def sched_body(ch, p):
    _, proto, kind, end, disconnect, cancel = p
    t = tele()
    cfg = srv.Cfg(proto=proto, kind=kind, k=1, end=end, wait=True, disconnect=disconnect, cancel=cancel, gate="after", sendfail=not cancel and disconnect == "no")
    rec = fresh(lambda: srv.run_request(ch, cfg, app_kw={"interceptors": [t.interceptor(False)]}))
    spans, ended, pts = t.spans(), t.ended(), t.points()
    what = lambda: f"{cfg} entered={rec.entered} spans={len(spans)} ended={len(ended)} points={[(x[0], x[2].count) for x in pts]}"
    expect(len(spans) <= 1 and len(spans) >= rec.entered, "span-count", what)
    expect(len(ended) == len(spans), "span-not-ended", what)
    expect(sum(x[2].count for x in pts) == len(spans), "record-count", what)
    if rec.entered and end in ("err", "crash") and rec.raised is not None and not rec.cancelled and not rec.disconnected and not rec.failed_send:
        e = err_attrs(rec.raised)
        expect(all(spans[0].attributes.get(k) == v for k, v in e.items()), "error-attributes", lambda: f"{what()} {dict(spans[0].attributes)} {e}")
    return f"{len(spans)}"


# -- client and server together ---------------------------------------------
def pair_body(ch, p):
    _, io, proto, kind, parent, prop = p
    prog = ch.pick(["ok", "verr", "err:not_found"], "handler")
    t = tele()
    kw = {"propagator": {"own": Prop, "w3c": TraceContextTextMapPropagator}[prop]()} if prop != "default" else {}
    inner = []
    app, _ = server_app(io, kind, prog, 2, [t.interceptor(False, **kw)], t, inner)

    def go():
        caller = attach(t, parent)
        before = otrace.get_current_span()
        if io == "async":
            async def serve(req):
                async def one():
                    return (await asgi_plain(app, req)).resp
                return await asyncio.get_running_loop().create_task(one(), context=contextvars.Context())
        else:
            serve = lambda req: contextvars.Context().run(lambda: wsgi_plain(app, req).resp)
        link = (AsyncLink if io == "async" else SyncLink)(serve)
        client = make_client(io == "sync", link, proto, "proto", send_compression=None, interceptors=[t.interceptor(True, **kw)])
        reqs = ["q0", "q1"] if kind in ("client_stream", "bidi") else ["q0"]
        if io == "async":
            async def main(_env):
                return await acall(client, kind, reqs), otrace.get_current_span()
            (out, cur), _ = run(None, main)
        else:
            out, cur = scall(client, kind, reqs), otrace.get_current_span()
        return caller, before, out, cur
    caller, before, out, cur = fresh(go)
    spans = t.spans()
    what = lambda: f"{p} {prog} {out.short()} {[(s.kind, s.parent) for s in spans]}"
    ch.ev(prog, out.short(), len(spans))
    expect(cur is before, "context-left-behind", what)
    expect(out.error is None if prog == "ok" else out.error is not None, "call-failed", what)
    expect(sorted(s.kind.name for s in spans) == ["CLIENT", "SERVER"] and len(t.ended()) == 2, "span-count", what)
    c, s = sorted(spans, key=lambda x: x.kind.name)
    expect(s.parent is not None and s.parent.trace_id == c.get_span_context().trace_id and s.parent.span_id == c.get_span_context().span_id,
           "not-linked", what)
    if caller is not None:
        expect(c.parent is not None and c.parent.span_id == caller.get_span_context().span_id, "not-linked", what)
    pts = t.points()
    expect(sorted(x[0] for x in pts) == ["rpc.client.call.duration", "rpc.server.call.duration"] and all(x[2].count == 1 for x in pts),
           "record-count", lambda: f"{what()} {pts}")
    return prog


# -- addresses --------------------------------------------------------------
URLS = [("http://h.test", "h.test", 80), ("https://h.test", "h.test", 443), ("http://h.test:8080", "h.test", 8080), ("http://h.test:8080/api", "h.test", 8080),
        ("https://h.test/api/v1", "h.test", 443), ("http://[::1]:81", "::1", 81), ("http://[::1]", "::1", 80), ("https://[2001:db8::1]/x", "2001:db8::1", 443),
        ("http://u:p@h.test:82", "h.test", 82), ("http://10.0.0.1", "10.0.0.1", 80), ("HTTP://H.test:1/a:b", "h.test", 1)]
HOSTS = [("h.test", 80), ("h.test:8080", 8080), ("[::1]", 80), ("[::1]:81", 81), ("10.0.0.1:65535", 65535)]
ODD = ["", ":", "h.test:", "h.test:x", "a:b:c", "::1", "[::1", "[::1]x", "[]:1", "h.test:-1", "h.test:+1", "h.test: 1", "h.test:1_0", "h.test:99999999999", "h.test:1.5",
       "h.test:\u0661", "é:1", "a@b:1", "a/b"]


def address_body(ch, p):
    _, side, io, proto, kind = p
    t = tele()
    if side == "client":
        url, host, port = ch.pick(URLS, "url")
        peer = lambda req: wire.build_response(proto, kind, "proto", ["m"])
        out, tr, _ = fresh(lambda: call_with(io, ("peer", peer), kind, ["q"], proto=proto, client_kw={"address": url, "interceptors": [t.interceptor(True)]}))
        ch.ev(url, out.short())
        expect(out.raised is None, "call-changed", lambda: f"{p} {url} {out}")
        check_one(t, kind, True, None, (host, port), lambda: f"{p} {url}")
        return "client"
    odd = ch.flag("odd host")
    host, port = (ch.pick(ODD, "host"), None) if odd else ch.pick(HOSTS, "host")
    if io == "async":
        cl = ch.pick([("1.2.3.4", 143), ("::1", 5), None, ("/run/x.sock", None), ("", 0), ("testclient", 50000)], "client")
    else:
        cl = ch.pick([("1.2.3.4", "143"), ("::1", "5"), None, ("", ""), ("1.2.3.4", ""), ("1.2.3.4", "x"), ("1.2.3.4", None), ("unix:", "0"), ("1.2.3.4", 143)], "client")
    req = wire.build_request(proto, kind, "proto", ["q"], path=mpath(kind))
    req.headers = [(k, v) for k, v in req.headers if k.lower() != "host"] + [("host", host)]
    kw = {"client": cl} if io == "async" else {"client_env": {} if cl is None else {k: v for k, v in (("REMOTE_ADDR", cl[0]), ("REMOTE_PORT", cl[1])) if v is not None}}
    inner = []

    def go():
        app, raised = server_app(io, kind, "ok", 1, [t.interceptor(False)], t, inner)
        return serve_once(io, app, req, None, **kw)
    resp, exc, _ = fresh(go)
    ch.ev(host, cl, resp.status)
    what = lambda: f"{p} host={host!r} client={cl!r} -> {resp.status} {resp.body[:200]} {exc}"
    try:
        got = wire.parse_response(proto, kind, "proto", resp)
        expect(got.error is None and not exc, "call-changed", what)
    except wire.WireError as e:
        raise Violation("call-changed", f"{e} {what()}") from None
    good_client = cl is not None and cl[0] not in ("",) and str(cl[1]).isdigit() and ":/" not in cl[0] and cl[0] != "unix:"
    want_cl = (cl[0], int(cl[1])) if good_client else None
    hostname = host.rpartition(":")[0] if not odd and host.rpartition("]")[2].count(":") else host
    check_one(t, kind, False, None, None if odd else (hostname, port), what, cl=want_cl)
    return "server"


# -- two streams of one task ------------------------------------------------
def overlap_body(ch, p):
    _, io, how, nested = p
    t = tele()
    ops = []
    ended_early = []

    def peer(req):
        return wire.build_response("connect", "server_stream", "proto", ["a", "b"])
    mi = minfo("server_stream")

    def lifo():
        stack = []
        for op in ops:
            if op[0] == "open":
                stack.append(op[1])
            elif op[0] in ("close", "end", "drop"):
                if op[1] not in stack:
                    continue
                if stack[-1] != op[1] or (op[0] == "drop" and io == "async"):
                    return False
                stack.remove(op[1])
        return not stack

    async def amain(_env):
        client = make_client(False, AsyncLink(peer), "connect", "proto", interceptors=[t.interceptor(True)])
        base = otrace.get_current_span()
        streams, left = {}, {}
        for k in range(6):
            acts = ["stop"] if not streams else []
            if len(left) < 2:
                acts.append("open")
            for i in ([max(streams)] if nested and streams else streams):
                acts += [f"next{i}", f"close{i}"] + ([f"drop{i}"] if how == "drop" else [])
            a = ch.pick(acts, "op")
            if a == "stop":
                break
            if a == "open":
                i = len(left)
                streams[i] = client.execute_server_stream(request=M("q"), method=mi)
                left[i] = 2
                m = await streams[i].__anext__()
                ops.append(("open", i))
                continue
            i = int(a[-1])
            if a.startswith("next"):
                try:
                    await streams[i].__anext__()
                    ops.append(("next", i))
                except StopAsyncIteration:
                    ops.append(("end", i))
                    del streams[i]
            elif a.startswith("close"):
                await streams[i].aclose()
                ops.append(("close", i))
                del streams[i]
            else:
                ops.append(("drop", i))
                m = None
                del streams[i]
                gc.collect()
                for _ in range(5):
                    await asyncio.sleep(0)
        for i in sorted(streams, reverse=True):
            await streams[i].aclose()
            ops.append(("close", i))
        return base, otrace.get_current_span(), len(left)

    def smain():
        client = make_client(True, SyncLink(peer), "connect", "proto", interceptors=[t.interceptor(True)])
        base = otrace.get_current_span()
        streams, n = {}, 0
        for k in range(6):
            acts = ["stop"] if not streams else []
            if n < 2:
                acts.append("open")
            for i in ([max(streams)] if nested and streams else streams):
                acts += [f"next{i}", f"close{i}"] + ([f"drop{i}"] if how == "drop" else [])
            a = ch.pick(acts, "op")
            if a == "stop":
                break
            if a == "open":
                i = n
                n += 1
                streams[i] = client.execute_server_stream(request=M("q"), method=mi)
                next(streams[i])
                ops.append(("open", i))
                continue
            i = int(a[-1])
            if a.startswith("next"):
                try:
                    next(streams[i])
                    ops.append(("next", i))
                except StopIteration:
                    ops.append(("end", i))
                    del streams[i]
            elif a.startswith("close"):
                streams[i].close()
                ops.append(("close", i))
                del streams[i]
            else:
                ops.append(("drop", i))
                del streams[i]
        for i in sorted(streams, reverse=True):
            streams[i].close()
            ops.append(("close", i))
        return base, otrace.get_current_span(), n
    base, cur, n = fresh(lambda: run(None, amain)[0] if io == "async" else smain())
    ch.ev(ops)
    what = lambda: f"{p} {ops} spans={len(t.spans())} ended={len(t.ended())} current={cur}"
    expect(len(t.spans()) == n and len(t.ended()) == n, "span-not-ended", what)
    pts = t.points()
    expect(sum(x[2].count for x in pts) == n, "record-count", lambda: f"{what()} {pts}")
    if cur is not base:
        raise Violation("context-left-behind" if lifo() else "context-left-behind-by-overlapping-streams", what())
    return f"{n} streams"


# -- several calls through one interceptor ----------------------------------
STEPS = [(k, o) for k in ("unary", "server_stream") for o in ("ok", "err:not_found", "err:aborted", "crash")]


class Part:
    """the spans and records of one of several calls, told apart by the method"""

    def __init__(self, t, pts, name):
        m = f"{SERVICE}/{name}"
        self._s = [s for s in t.spans() if s.attributes.get("rpc.method") == m]
        self._e = [s for s in t.ended() if s.attributes.get("rpc.method") == m]
        self._p = [x for x in pts if x[2].attributes.get("rpc.method") == m]

    def spans(self):
        return self._s

    def ended(self):
        return self._e

    def points(self):
        return self._p


def outcome_error(o):
    return None if o == "ok" else ValueError("crash") if o == "crash" else ConnectError(Code(o[4:]), "no")


def many_app(io, names, interceptors, gate=None, seen=None, raised=None):
    """every name is a method, its kind follows from it; the header x-out tells its outcome"""
    def fin(ctx, name):
        e = outcome_error(ctx.request_headers.get("x-out"))
        if e is not None:
            raised[name] = e
            raise e

    def mk(name, kind):
        def look():
            seen.setdefault(name, []).append(otrace.get_current_span())
        if io == "sync":
            def one(r, ctx):
                look()
                fin(ctx, name)
                return M("r")

            def many(r, ctx):
                look()
                yield M("a")
                look()
                fin(ctx, name)
            return one if kind == "unary" else many

        async def aone(r, ctx):
            look()
            if gate:
                await gate(name)
            look()
            fin(ctx, name)
            return M("r")

        async def amany(r, ctx):
            look()
            yield M("a")
            if gate:
                await gate(name)
            look()
            fin(ctx, name)
        return aone if kind == "unary" else amany
    return (asgi_app if io == "async" else wsgi_app)([(minfo(k, n), k, mk(n, k)) for n, k in names], interceptors=interceptors)


def history_body(ch, p):
    _, side, io, proto, first, steps = p
    t = tele()
    seen, raised, link_seen = {}, {}, []
    names = [("U", "unary"), ("S", "server_stream")]
    name_of = {k: n for n, k in names}
    if side == "server":
        app = many_app(io, names, [t.interceptor(False)], seen=seen, raised=raised)
    else:
        out = [None]

        def peer(req):
            link_seen.append((otrace.get_current_span(), [v for k, v in req.headers if k == "traceparent"]))
            kind = {n: k for n, k in names}[req.path.rpartition("/")[2]]
            if out[0] == "crash":
                raise ConnectionError("reset")
            return wire.build_response(proto, kind, "proto", ["m"] if out[0] == "ok" else [], error=None if out[0] == "ok" else Err(out[0][4:], "no", []))
        client = make_client(io == "sync", (AsyncLink if io == "async" else SyncLink)(peer), proto, "proto", interceptors=[t.interceptor(True)])
    done = []
    for i in range(3):
        kind, o = first if i == 0 else steps[ch.choose(len(steps), f"call {i}")]
        host = ("h.test", 81 + (ch.choose(2, f"host {i}") if i else 0)) if side == "server" else ("example.test", 80)
        name = name_of[kind]
        seen.clear()
        raised.clear()
        del link_seen[:]
        t.reset()
        done.append((kind, o, host))
        if side == "server":
            req = wire.build_request(proto, kind, "proto", ["q"], path=mpath(kind, name), headers=[("x-out", o)])
            req.headers = [(k, v) for k, v in req.headers if k.lower() != "host"] + [("host", f"{host[0]}:{host[1]}")]
            resp, _, _ = fresh(lambda: serve_once(io, app, req))
            error = raised.get(name)
            r = resp.status
        else:
            out[0] = o
            mi = minfo(kind, name)
            if io == "async":
                res = fresh(lambda: run(None, lambda _e: acall(client, kind, ["q"], mi=mi))[0])
            else:
                res = fresh(lambda: scall(client, kind, ["q"], mi=mi))
            error, r = res.raised, res.short()
        what = lambda: f"{p} {done} -> {r}"
        ch.ev(kind, o, r)
        expect((error is None) == (o == "ok"), "call-failed", what)
        s = check_one(t, kind, side == "client", error, host, what, cl=("127.0.0.1", 5) if side == "server" else None, name=name)
        expect(s.parent is None, "server-parent" if side == "server" else "client-parent", lambda: f"{what()} {s.parent}")
        sid = s.get_span_context().span_id
        for cur in seen.get(name, []) + [x for x, _ in link_seen]:
            expect(cur.get_span_context().span_id == sid, "not-current", lambda: f"{what()} {cur}")
        for _, tp in link_seen:
            expect(len(tp) == 1 and tp[0].split("-")[2] == f"{sid:016x}", "propagation", lambda: f"{what()} {tp}")
    return " ".join(o[:3] for _, o, _ in done)


def joint_body(ch, p):
    """concurrent calls, each in a task and context of its own"""
    _, side, proto, calls = p
    t = tele()
    seen, raised, tps, res = {}, {}, {}, {}
    names = [(f"{'U' if k == 'unary' else 'S'}{i}", k) for i, (k, _) in enumerate(calls)]
    outs = {n: o for (n, _), (_, o) in zip(names, calls)}

    async def main(env):
        async def hop(name):
            f = asyncio.get_running_loop().create_future()
            k = sum(a.startswith(name) for a in env.names())
            env.offer(f"{name}#{k}", lambda: f.done() or f.set_result(None))
            await f
        if side == "server":
            app = many_app("async", names, [t.interceptor(False)], gate=hop, seen=seen, raised=raised)

            async def one(i, name, kind):
                await hop(name)
                req = wire.build_request(proto, kind, "proto", ["q"], path=mpath(kind, name), headers=[("x-out", outs[name])])
                req.headers = req.headers + [("traceparent", f"00-{i + 1:032x}-{i + 1:016x}-01")]
                res[name] = (await asgi_plain(app, req)).resp.status
        else:
            async def peer(req):
                name = req.path.rpartition("/")[2]
                look = lambda: seen.setdefault(name, []).append(otrace.get_current_span())
                look()
                tps[name] = [v for k, v in req.headers if k == "traceparent"]
                await hop(name)
                look()
                o = outs[name]
                kind = dict(names)[name]
                if o == "crash":
                    raise ConnectionError("reset")
                return wire.build_response(proto, kind, "proto", ["m"] if o == "ok" else [], error=None if o == "ok" else Err(o[4:], "no", []))
            client = make_client(False, AsyncLink(peer), proto, "proto", interceptors=[t.interceptor(True)])

            async def one(i, name, kind):
                await hop(name)
                r = await acall(client, kind, ["q"], mi=minfo(kind, name))
                res[name] = r.short()
                raised[name] = r.raised
        loop = asyncio.get_running_loop()
        tasks = [loop.create_task(one(i, n, k), context=contextvars.Context()) for i, (n, k) in enumerate(names)]
        await asyncio.gather(*tasks)
    run(ch, main)
    what = lambda: f"{p} {ch.log} {res}"
    pts = t.points()
    expect(len(t.spans()) == len(calls), "span-count", what)
    for i, (n, k) in enumerate(names):
        e = raised.get(n)
        expect((e is None) == (outs[n] == "ok"), "call-failed", what)
        s = check_one(Part(t, pts, n), k, side == "client", e, ("example.test", 80), what, name=n)
        sid = s.get_span_context().span_id
        if side == "server":
            expect(s.parent is not None and s.parent.span_id == i + 1 and s.get_span_context().trace_id == i + 1, "server-parent", lambda: f"{what()} {s.parent}")
        else:
            expect(s.parent is None, "client-parent", lambda: f"{what()} {s.parent}")
            expect(len(tps[n]) == 1 and tps[n][0].split("-")[2] == f"{sid:016x}", "propagation", lambda: f"{what()} {tps}")
        expect(len(seen[n]) == 2 and all(c.get_span_context().span_id == sid for c in seen[n]), "not-current", lambda: f"{what()} {n} {seen[n]}")
    return "joint"


BODIES = {"history": history_body, "joint": joint_body, "client": client_body, "server": server_body, "sched": sched_body, "pair": pair_body, "address": address_body, "overlap": overlap_body}


def body(ch, p):
    return BODIES[p[0]](ch, p)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for io in ("async", "sync"):
        for proto in PROTOS:
            for kind in KINDS:
                for parent in ("none", "local", "unsampled"):
                    out.append(("client", io, proto, kind, parent))
                for remote in ["none", *REMOTE]:
                    out.append(("server", io, proto, kind, remote))
                for parent in ("none", "local"):
                    for prop in ("default", "own", "w3c"):
                        out.append(("pair", io, proto, kind, parent, prop))
                for side in ("client", "server"):
                    out.append(("address", side, io, proto, kind))
        for how in ("close", "drop"):
            out.append(("overlap", io, how, False))
            if (io, how) != ("async", "drop"):
                out.append(("overlap", io, how, True))
    for side in ("client", "server"):
        for proto in PROTOS:
            for io in ("async", "sync"):
                few = STEPS if big else [x for x in STEPS if x[1] != "err:aborted" and x != ("server_stream", "crash")]
                out += [("history", side, io, proto, s, tuple(few)) for s in few]
            for a in STEPS:
                for b in STEPS:
                    out.append(("joint", side, proto, (a, b)))
                    if big:
                        out += [("joint", side, proto, (a, b, c)) for c in STEPS]
    for proto in PROTOS:
        for kind in KINDS:
            for end in ("ok", "err", "crash", "badmsg"):
                for disconnect, cancel in (("no", 0), ("ignore", 0), ("raise", 0), ("no", 1)) + ((("no", 2), ("raise", 1)) if big else ()):
                    out.append(("sched", proto, kind, end, disconnect, cancel))
    return out


CHECK = Check(
    id="C21", body=body, scenarios=scenarios,
    rule="calls x outcomes (success, all codes, exceptions, transport errors, stopping early) x parents x providers on both sides, compared with the same "
         "call without telemetry and with an independent account of the one span and one record it must leave; all schedules of an ASGI request with "
         "disconnects, failing sends and cancellations; client and server joined over a network; forms of addresses; all histories of three calls through one interceptor, and all orders of two (thorough: three) concurrent ones; all histories of two streams in one task",
    assumptions=("a call that ends by cancellation or is abandoned has no required error attributes",
                 "an RPC is described once it reaches the interceptors; failures before (undecodable requests) have no span",),
)
