"""C12: interceptors nest in order and see every call exactly once."""
import asyncio

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire
from mc.vloop import run

NEXT = {"unary": "unary", "client_stream": "client_stream", "server_stream": "server_stream", "bidi": "bidi_stream"}
OTHERS = {"unary": ["bidi"], "client_stream": ["unary"], "server_stream": ["bidi", "unary"], "bidi": ["server_stream", "client_stream"]}
SINGLE_RES = ("unary", "client_stream")
SINGLE_REQ = ("unary", "server_stream")


def desc_exc(e):
    if e is None:
        return None
    if isinstance(e, ConnectError):
        return ("connect", e.code.value, e.message)
    return (type(e).__name__, str(e))


def mkexc(which, tag):
    if which == "connect":
        return ConnectError(Code.ALREADY_EXISTS, tag)
    return ValueError(tag)


class Layer:
    """One interceptor program."""

    def __init__(self, i, type_, fault, exc):
        self.i, self.type, self.fault, self.exc = i, type_, fault, exc

    def __repr__(self):
        return f"{self.type}{':' + self.fault if self.fault else ''}{'(' + self.exc + ')' if self.exc else ''}"

    def boom(self):
        return mkexc(self.exc, f"layer{self.i}")


# --------------------------------------------------------------------------
# the reference: nesting, written once with plain generators


class Ref:
    def __init__(self, stack, kind, handler, client_side):
        self.stack, self.kind, self.handler_prog, self.client_side = stack, kind, handler, client_side
        self.log, self.hlog = [], []
        self.hdrs, self.trailers = [], []
        self.calls = 0

    def handler(self, reqs):
        self.calls += 1
        self.hlog.append((list(reqs), list(self.hdrs)))
        h = self.handler_prog

        def fail(e):
            if self.client_side and not isinstance(e, ConnectError):
                e = ConnectError(Code.UNKNOWN, str(e))
            raise e
        if h == "cerr" or (h == "flaky" and self.calls == 1):
            fail(mkexc("connect", "handler"))
        if h == "verr":
            fail(mkexc("value", "handler"))
        if self.kind in SINGLE_RES:
            yield "r0"
            return
        yield "r0"
        if h == "mid":
            fail(mkexc("connect", "handler"))
        yield "r1"

    def layer(self, i, reqs):
        if i == len(self.stack):
            yield from self.handler(reqs)
            return
        s = self.stack[i]
        if s.type == "other":
            yield from self.layer(i + 1, reqs)
        elif s.type == "meta":
            if s.fault == "start":
                self.log.append(("start fails", i))
                raise s.boom()
            self.log.append(("start", i))
            self.hdrs.append(str(i))
            err = None
            try:
                yield from self.layer(i + 1, reqs)
            except Exception as e:
                err = e
                raise
            finally:
                self.log.append(("end", i, desc_exc(err)))
                self.trailers.append(str(i))
                if s.fault == "end":
                    raise s.boom()
        elif self.kind in SINGLE_RES:
            yield self.single(s, reqs)
        else:
            yield from self.stream(s, reqs)

    def enter(self, s, reqs):
        self.log.append(("in", s.i, reqs[0] if self.kind in SINGLE_REQ else None))
        self.hdrs.append(str(s.i))
        if s.fault == "before":
            raise s.boom()
        if s.fault == "replace_req":
            return [f"{x}+{s.i}" for x in reqs]
        return reqs

    def single(self, s, reqs):
        reqs = self.enter(s, reqs)
        if s.fault == "short":
            return f"short{s.i}"
        try:
            (res,) = list(self.layer(s.i + 1, reqs))
        except Exception as e:
            self.log.append(("err", s.i, desc_exc(e)))
            if s.fault == "swallow":
                return f"swallowed{s.i}"
            if s.fault == "replace_err":
                raise s.boom() from e
            if s.fault != "retry":
                raise
            (res,) = list(self.layer(s.i + 1, reqs))
        self.log.append(("msg", s.i, res))
        if s.fault == "after":
            raise s.boom()
        return f"{res}/{s.i}" if s.fault == "replace_res" else res

    def stream(self, s, reqs):
        reqs = self.enter(s, reqs)
        if s.fault == "short":
            yield f"short{s.i}"
            yield f"short{s.i}"
            return
        try:
            for attempt in (0, 1):
                inner = self.layer(s.i + 1, reqs)
                try:
                    for res in inner:
                        self.log.append(("msg", s.i, res))
                        yield f"{res}/{s.i}" if s.fault == "replace_res" else res
                        if s.fault == "stop":
                            return
                    break
                except Exception as e:
                    self.log.append(("err", s.i, desc_exc(e)))
                    if s.fault == "swallow":
                        yield f"swallowed{s.i}"
                        break
                    if s.fault == "replace_err":
                        raise s.boom() from e
                    if s.fault != "retry" or attempt:
                        raise
                finally:
                    inner.close()
            if s.fault == "after":
                raise s.boom()
        finally:
            self.log.append(("out", s.i))


def reference(stack, kind, handler, client_side, reqs, stop_after):
    r = Ref(stack, kind, handler, client_side)
    got, err = [], None
    g = r.layer(0, reqs)
    try:
        for m in g:
            if not got:
                r.sent = list(r.hdrs)  # headers go out with the first message
            got.append(m)
            if stop_after and len(got) == stop_after:
                break
        g.close()
    except Exception as e:
        err = e
    if not got or kind in SINGLE_RES:
        r.sent = list(r.hdrs)
    return r, got, err


# --------------------------------------------------------------------------
# the same programs as real interceptors


class PlainIter:
    def __init__(self, vals):
        self.vals = list(vals)

    def __aiter__(self):
        return self

    async def __anext__(self):
        if not self.vals:
            raise StopAsyncIteration
        return M(self.vals.pop(0))

    def __iter__(self):
        return self

    def __next__(self):
        if not self.vals:
            raise StopIteration
        return M(self.vals.pop(0))


class W:
    """What the real execution did."""

    def __init__(self):
        self.log, self.hlog, self.ctxs = [], [], []
        self.calls = 0


def enter(w, s, kind, request, ctx, client_side):
    w.ctxs.append(ctx)
    w.log.append(("in", s.i, request.value if kind in SINGLE_REQ else None))
    ctx.request_headers.add("x-layer", str(s.i))
    if not client_side:
        ctx.response_headers.add("x-start", str(s.i))
    if s.fault == "before":
        raise s.boom()


def build(w, s, kind, sync, client_side, yields=False):
    """The real interceptor object of program `s`."""
    i = s.i

    if s.type == "meta":
        def on_start_(ctx):
            w.ctxs.append(ctx)
            if s.fault == "start":
                w.log.append(("start fails", i))
                raise s.boom()
            w.log.append(("start", i))
            ctx.request_headers.add("x-layer", str(i))
            if not client_side:
                ctx.response_headers.add("x-start", str(i))
            return f"token{i}"

        def on_end_(token, ctx, error):
            w.ctxs.append(ctx)
            w.log.append(("end", i, desc_exc(error)) if token == f"token{i}" else ("wrong token", i, token))
            if not client_side:
                ctx.response_trailers.add("x-end", str(i))
            if s.fault == "end":
                raise s.boom()
        if sync:
            class Meta:
                def on_start_sync(self, ctx):
                    return on_start_(ctx)

                def on_end_sync(self, token, ctx, error):
                    on_end_(token, ctx, error)
        else:
            class Meta:
                async def on_start(self, ctx):
                    return on_start_(ctx)

                async def on_end(self, token, ctx, error):
                    on_end_(token, ctx, error)
        return Meta()

    def rreq(request):
        if s.fault != "replace_req":
            return request
        if kind in SINGLE_REQ:
            return M(f"{request.value}+{i}")
        if sync:
            return (M(f"{x.value}+{i}") for x in request)

        async def it():
            async for x in request:
                yield M(f"{x.value}+{i}")
        return it()

    def got(res):
        w.log.append(("msg", i, res.value))
        return M(f"{res.value}/{i}") if s.fault == "replace_res" else res

    def failed(e):
        w.log.append(("err", i, desc_exc(e)))
        if s.fault == "replace_err":
            raise s.boom() from e
        if s.fault not in ("retry", "swallow"):
            raise e

    def single_s(self, call_next, request, ctx):
        enter(w, s, kind, request, ctx, client_side)
        if s.fault == "short":
            return M(f"short{i}")
        request = rreq(request)
        try:
            res = call_next(request, ctx)
        except Exception as e:
            failed(e)
            if s.fault == "swallow":
                return M(f"swallowed{i}")
            res = call_next(request, ctx)
        res = got(res)
        if s.fault == "after":
            raise s.boom()
        return res

    async def single_a(self, call_next, request, ctx):
        enter(w, s, kind, request, ctx, client_side)
        if s.fault == "short":
            return M(f"short{i}")
        request = rreq(request)
        try:
            res = await call_next(request, ctx)
        except Exception as e:
            failed(e)
            if s.fault == "swallow":
                return M(f"swallowed{i}")
            res = await call_next(request, ctx)
        res = got(res)
        if s.fault == "after":
            raise s.boom()
        return res

    def stream_s(self, call_next, request, ctx):
        if s.fault == "short":
            enter(w, s, kind, request, ctx, client_side)
            return PlainIter([f"short{i}"] * 2)

        def gen():
            enter(w, s, kind, request, ctx, client_side)
            req = rreq(request)
            try:
                for attempt in (0, 1):
                    inner = call_next(req, ctx)
                    try:
                        for res in inner:
                            yield got(res)
                            if s.fault == "stop":
                                return
                        break
                    except Exception as e:
                        if s.fault == "retry" and attempt:
                            w.log.append(("err", i, desc_exc(e)))
                            raise
                        failed(e)
                        if s.fault == "swallow":
                            yield M(f"swallowed{i}")
                            break
                    finally:
                        if hasattr(inner, "close"):
                            inner.close()
                if s.fault == "after":
                    raise s.boom()
            finally:
                w.log.append(("out", i))
        return gen()

    def stream_a(self, call_next, request, ctx):
        if s.fault == "short":
            enter(w, s, kind, request, ctx, client_side)
            return PlainIter([f"short{i}"] * 2)

        async def gen():
            enter(w, s, kind, request, ctx, client_side)
            req = rreq(request)
            try:
                for attempt in (0, 1):
                    inner = call_next(req, ctx)
                    try:
                        async for res in inner:
                            yield got(res)
                            if s.fault == "stop":
                                return
                        break
                    except Exception as e:
                        if s.fault == "retry" and attempt:
                            w.log.append(("err", i, desc_exc(e)))
                            raise
                        failed(e)
                        if s.fault == "swallow":
                            yield M(f"swallowed{i}")
                            break
                    finally:
                        # (an interceptor that stops early has to close what it wraps)
                        if hasattr(inner, "aclose"):
                            await inner.aclose()
                if s.fault == "after":
                    raise s.boom()
            finally:
                w.log.append(("out", i))
        return gen()

    suffix = "_sync" if sync else ""

    def wrong(self, call_next, request, ctx):
        w.log.append(("wrong hook", i))
        return call_next(request, ctx)

    single, stream = (single_s, stream_s) if sync else (single_a, stream_a)
    d = {}
    kinds = {"own": [kind], "all": list(KINDS), "other": OTHERS[kind]}[s.type]
    for k in kinds:
        fn = wrong if k != kind else (single if k in SINGLE_RES else stream)
        d[f"intercept_{NEXT[k]}{suffix}"] = fn
    return type("Own", (), d)()


def make_handler(w, kind, prog, sync):
    def pre(reqs, ctx):
        w.calls += 1
        w.hlog.append(([r.value for r in reqs], [x for v in ctx.request_headers.getall("x-layer") for x in v.split(",")]))
        if prog == "cerr" or (prog == "flaky" and w.calls == 1):
            raise mkexc("connect", "handler")
        if prog == "verr":
            raise mkexc("value", "handler")

    if sync:
        def single(r, ctx):
            pre(list(r) if kind == "client_stream" else [r], ctx)
            return M("r0")

        def many(r, ctx):
            pre(list(r) if kind == "bidi" else [r], ctx)
            yield M("r0")
            if prog == "mid":
                raise mkexc("connect", "handler")
            yield M("r1")
    else:
        async def single(r, ctx):
            pre([x async for x in r] if kind == "client_stream" else [r], ctx)
            return M("r0")

        async def many(r, ctx):
            pre([x async for x in r] if kind == "bidi" else [r], ctx)
            yield M("r0")
            if prog == "mid":
                raise mkexc("connect", "handler")
            yield M("r1")
    return single if kind in SINGLE_RES else many


def choose_stack(ch, n, kind, exc_all):
    stack = []
    own_faults = ["before", "after", "short", "swallow", "replace_req", "replace_res", "replace_err"]
    if kind not in SINGLE_RES:
        own_faults.append("stop")
    if kind in SINGLE_REQ:
        own_faults.append("retry")
    excs = ["connect", "value"]
    for i in range(n):
        opts = [("meta", None, None), ("own", None, None), ("all", None, None), ("other", None, None)]
        k = len(opts)
        for f in ("start", "end"):
            opts += [("meta", f, e) for e in excs]
        for f in own_faults:
            opts += [("own", f, e) for e in (excs if f in ("before", "after", "replace_err") else [None])]
        j = ch.choose(len(opts), f"layer {i}", [0] * k + [1] * (len(opts) - k))
        stack.append(Layer(i, *opts[j]))
    return stack


def give(form, objs):
    if form == "list":
        return objs
    if form == "tuple":
        return tuple(objs)
    return (o for o in objs)


def body(ch, p):
    if p[0] == "cancel":
        return cancel_body(ch, p)
    side, io, kind, proto, n, form = p
    client_side = side == "client"
    sync = io == "sync"
    stack = choose_stack(ch, n, kind, True)
    progs = ["ok", "cerr", "verr"] + (["mid"] if kind not in SINGLE_RES else [])
    if any(s.fault == "retry" for s in stack):
        progs.append("flaky")
    prog = ch.pick(progs, "handler")
    stop = 0
    if client_side and kind not in SINGLE_RES and ch.flag("caller stops early"):
        stop = 1
    reqs = ["q0"] if kind in SINGLE_REQ else ["q0", "q1"]
    ref, want, werr = reference(stack, kind, prog, client_side, reqs, stop)

    w = W()
    srv_sync = sync if not client_side else (io == "sync")
    icpts = give(form, [build(w, s, kind, sync, client_side) for s in stack])
    handler = make_handler(w, kind, prog, srv_sync)
    mi = minfo(kind)
    dummy = minfo("unary", "Other")

    def other_s(r, ctx):
        raise AssertionError

    async def other_a(r, ctx):
        raise AssertionError
    app_kw = {} if client_side else {"interceptors": icpts}
    client_kw = {"interceptors": icpts} if client_side else {}
    hs = [(dummy, "unary", other_s if srv_sync else other_a), (mi, kind, handler)]
    app = wsgi_app(hs, **app_kw) if srv_sync else asgi_app(hs, **app_kw)
    desc = lambda: (f"{p} stack={stack} handler={prog} stop={stop}\n  want {want} {desc_exc(werr)} log={ref.log} handler={ref.hlog}\n"
                    f"  got  {got} {gerr} log={w.log} handler={w.hlog}")
    got, gerr = [], None
    if stop:
        got, gerr = early_stop(io, proto, kind, client_kw, app, reqs, stop)
        trailers = None
    else:
        runs = []
        out, tr, runs = call_with(io, ("wsgi" if srv_sync else "asgi", app), kind, reqs, proto=proto, client_kw=client_kw, runs=runs)
        got, gerr = out.msgs, desc_exc(out.raised)
        trailers = out.trailers
        if client_side:
            expect(len(runs) == ref.calls, "call-count", lambda: f"{len(runs)} requests sent, {ref.calls} expected {desc()}")
    ch.ev(tuple(map(repr, stack)), prog, len(got), gerr)
    expect(w.log == ref.log, "hook-order", desc)
    if werr is not None and not client_side and not isinstance(werr, ConnectError):
        werr = ConnectError(Code.UNKNOWN, str(werr))
    expect(gerr == desc_exc(werr), "outcome", desc)
    if kind not in SINGLE_RES or gerr is None:
        expect(got == want, "messages", desc)
    if not stop or w.hlog:
        expect(w.hlog == ref.hlog, "handler-sees", desc)
    expect(len({id(c) for c in w.ctxs}) <= 1, "context", desc)
    if not client_side:
        hs = [v for k, v in out.headers if k == "x-start"]
        expect(hs == ref.sent, "interceptor-headers", lambda: f"{out.headers} {desc()}")
        ts = [v for k, v in trailers if k == "x-end"]
        expect(ts == ref.trailers, "interceptor-trailers", lambda: f"{trailers} {desc()}")
    return f"{prog} {desc_exc(werr) and desc_exc(werr)[0]}"


def early_stop(io, proto, kind, client_kw, app, reqs, stop):
    mi = minfo(kind)
    got = []
    if io == "async":
        async def main(_env):
            client = make_client(False, AsyncLink(serve_asgi_async(app, [])), proto, "proto", **client_kw)

            async def it():
                for r in reqs:
                    yield M(r)
            s = (client.execute_server_stream(request=M(reqs[0]), method=mi) if kind == "server_stream"
                 else client.execute_bidi_stream(request=it(), method=mi))
            try:
                async for r in s:
                    got.append(r.value)
                    if len(got) == stop:
                        break
                if hasattr(s, "aclose"):
                    await s.aclose()
            except Exception as e:
                return desc_exc(e)
        err, info = run(None, main)
        return got, err
    client = make_client(True, SyncLink(serve_wsgi(app, [])), proto, "proto", **client_kw)
    s = (client.execute_server_stream(request=M(reqs[0]), method=mi) if kind == "server_stream"
         else client.execute_bidi_stream(request=iter([M(r) for r in reqs]), method=mi))
    try:
        for r in s:
            got.append(r.value)
            if len(got) == stop:
                break
        if hasattr(s, "close"):
            s.close()
    except Exception as e:
        return got, desc_exc(e)
    return got, None


# --------------------------------------------------------------------------
# cancellation of a client call at every scheduling point


def cancel_body(ch, p):
    _, proto, kind, n, timeout = p
    log = []
    base = wire.build_response(proto, kind, "proto", ["r0"] if kind in SINGLE_RES else ["r0", "r1"])

    class Meta:
        def __init__(self, i):
            self.i = i

        async def on_start(self, ctx):
            log.append(("starting", self.i))
            await asyncio.sleep(0)
            log.append(("start", self.i))
            return self.i

        async def on_end(self, token, ctx, error):
            assert token == self.i
            log.append(("end", self.i, type(error).__name__))
            await asyncio.sleep(0)

    async def main(env):
        class T:
            async def execute(self, request):
                c = GatedContent(env, base.chunks, trailers=HTTPHeaders(), fill=base.trailers or [])
                await asyncio.sleep(0)
                return Response(status=base.status, headers=HTTPHeaders(base.headers), content=c, trailers=c.trailers)

        client = make_client(False, T(), proto, "proto", interceptors=[Meta(i) for i in range(n)])
        t = asyncio.ensure_future(acall(client, kind, ["q"], timeout_ms=5000 if timeout else None))
        env.offer("cancel", lambda: t.cancel())
        t.add_done_callback(lambda _t: env.withdraw("cancel"))
        await asyncio.wait([t])
        return "cancelled" if t.cancelled() else t.result().short()

    env = Env(ch, early=True, time_race=bool(timeout))
    env.early_ok = ("cancel",)
    res, info = run(ch, main, env=env)
    d = lambda: f"{p} {res} {log}"
    starts = [x[1] for x in log if x[0] == "start"]
    ends = [x[1] for x in log if x[0] == "end"]
    expect(starts == list(range(len(starts))), "hook-order", d)
    expect(ends == starts[::-1], "end-not-once", d)
    expect(not info["leftover_tasks"] and not info["errors"], "leftovers", lambda: f"{info} {d()}")
    if res != "cancelled":
        want = "ConnectError" if "deadline" in res or "canceled" in res else "NoneType"
        expect(all(x[2] == want for x in log if x[0] == "end"), "end-error", d)
    return res


def scenarios(tier):
    out = []
    for side in ("client", "server"):
        for io in ("async", "sync"):
            for kind in KINDS:
                for proto in PROTOS:
                    out.append((side, io, kind, proto, 1, "generator"))
                    if proto == "connect" or tier == "thorough":
                        out.append((side, io, kind, proto, 2, "generator"))
                    if tier == "thorough":
                        out.append((side, io, kind, proto, 3, "tuple"))
                        out.append((side, io, kind, proto, 4, "list"))
                    elif proto == "grpc":
                        out.append((side, io, kind, proto, 2, "list"))
                    else:
                        out.append((side, io, kind, proto, 3, "tuple"))
    for proto in PROTOS:
        for kind in KINDS:
            for timeout in (False, True):
                for n in (1, 2) if tier == "quick" else (1, 2, 3):
                    out.append(("cancel", proto, kind, n, timeout))
    return out


def bound(tier, p):
    if p[0] == "cancel":
        return 1
    if p[4] == 4 or (p[4] == 3 and tier == "quick"):
        return 0  # any stack, but nothing deviates
    return 1 if tier == "quick" or p[4] == 3 else 2


CHECK = Check(
    id="C12", body=body, scenarios=scenarios, bound=bound,
    rule="every stack of up to two (thorough: three; without deviations three and four) interceptors over {metadata, own kind, all kinds, other kinds} with up to one (two) "
         "deviating layers (failing at start or end, short-circuit, replace request/response/error, swallow, retry, stop early) x handler "
         "outcome x caller stopping early, on both sides, sync and async, against a nesting model; client calls cancelled at every "
         "scheduling point",
    assumptions=("an asynchronous interceptor that abandons the stream it wraps closes it",),
)
