"""C11: disconnect and cancellation stop the handler, run its cleanup once and leak nothing."""
import asyncio

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire
from mc.srv import Cfg, run_request
from mc.vloop import Deadlock


def server_body(ch, p):
    cfg = Cfg(**dict(p[1:]))
    rec = run_request(ch, cfg)
    desc = lambda: (f"{cfg} entered={rec.entered} cleanup={rec.cleanup_at_end}/{rec.cleanup} yielded={rec.yielded} "
                    f"raised={rec.raised!r} exc={rec.exc!r} ilog={rec.ilog} disc={rec.disconnected} cancelled={rec.cancelled}")
    full = 11 if cfg.cleanup == "async" else 1
    expect(rec.entered <= 1, "handler-runs", desc)
    if rec.entered:
        expect(rec.cleanup_at_end != 0, "cleanup-not-before-end", desc)
        # a second cancellation may interrupt the cleanup itself
        expect(rec.cleanup == full or (cfg.cleanup == "async" and rec.cancelled > 1) or
               (cfg.cleanup == "async" and rec.cancelled and rec.cleanup == 1), "cleanup-not-once", desc)
        expect(rec.cleanup_at_end == rec.cleanup, "cleanup-not-before-end", desc)
        if rec.cancelled == 0:
            expect(rec.cleanup == full, "cleanup-not-once", desc)
    else:
        expect(rec.cleanup == 0, "cleanup-not-once", desc)
    expect(not rec.info["leftover_tasks"], "leaked-task", lambda: f"{rec.info['leftover_tasks']} {desc()}")
    # a second cancellation may interrupt the wait for the end of a task
    expect(rec.cancelled > 1 or not rec.tasks_at_end, "task-outlives-request", lambda: f"{rec.tasks_at_end} {desc()}")
    expect(rec.in_flight_after == 0, "pending-read", desc)
    expect(not rec.env_left, "pending-work", lambda: f"{rec.env_left} {desc()}")
    errs = [e for e in rec.info["errors"]]
    expect(not errs, "loop-error", lambda: f"{errs} {desc()}")
    # interceptors end exactly once each, in reverse order, after the handler's cleanup and before the request ends
    starts = [x[1] for x in rec.ilog if x[0] == "start"]
    ends = [x[1] for x in rec.ilog if x[0] == "end"]
    expect(starts == list(range(len(starts))) and ends == starts[::-1], "interceptor-hooks", desc)
    if rec.entered:
        expect(all(x[2] == rec.cleanup for x in rec.ilog if x[0] == "end"), "cleanup-not-before-end", desc)
    if rec.disconnected and cfg.kind == "server_stream":
        slack = 1 if rec.disc_early else 0
        # a handler that never really waits starves the event loop that would tell it
        if cfg.wait or (cfg.gate != "none" and not rec.disc_early):
            # (a message whose send began before the disconnect may still go out)
            expect(rec.body_after_disc <= slack + (cfg.gate != "none"), "sends-after-disconnect", lambda: f"{rec.body_after_disc} {desc()}")
            expect(rec.yields_after_disc <= 1 + slack, "handler-not-stopped", desc)
    return f"{rec.entered} {rec.cleanup} {type(rec.raised).__name__} {rec.disconnected} {rec.cancelled}"


class CWatch:
    def __init__(self, rec, i):
        self.rec, self.i = rec, i

    async def on_start(self, ctx):
        self.rec.append(("start", self.i))

    async def on_end(self, token, ctx, error):
        self.rec.append(("end", self.i))


def client_body(ch, p):
    """A caller stops reading a response stream: the exchange is released at once."""
    _, proto, kind, n, how, icpt, timeout = p
    base = wire.build_response(proto, kind, "proto", [f"r{i}" for i in range(n)])
    log = {}
    ilog = []

    async def main(env):
        state = {"closed": 0, "closed_at_end": None, "req_closed": 0}

        class T:
            async def execute(self, request):
                async def feed():
                    if not isinstance(request.content, bytes):
                        async for _ in request.content:
                            pass
                await feed()
                c = GatedContent(env, base.chunks, trailers=HTTPHeaders(), fill=base.trailers or [], stall=True)
                orig = c.aclose

                async def aclose():
                    state["closed"] += 1
                    await orig()
                c.aclose = aclose
                state["content"] = c
                return Response(status=base.status, headers=HTTPHeaders(base.headers), content=c, trailers=c.trailers)

        client = make_client(False, T(), proto, "proto", interceptors=[CWatch(ilog, i) for i in range(icpt)],
                             **({"timeout_ms": 10_000} if timeout else {}))

        async def reqs():
            try:
                yield M("q")
            finally:
                state["req_closed"] += 1

        mi = minfo(kind)
        s = (client.execute_server_stream(request=M("q"), method=mi) if kind == "server_stream"
             else client.execute_bidi_stream(request=reqs(), method=mi))
        got = []
        stop = ch.choose(n, "stop after") + 1

        async def go():
            if how == "aclose":
                async for r in s:
                    got.append(r.value)
                    if len(got) == stop:
                        break
                await s.aclose()
            elif how == "throw":
                try:
                    async for r in s:
                        got.append(r.value)
                        if len(got) == stop:
                            await s.athrow(KeyError("caller"))
                except KeyError:
                    pass
                except ConnectError:
                    pass
            log["closed_at_end"] = state["content"].closed
            log["ilog_at_end"] = list(ilog)

        t = asyncio.get_running_loop().create_task(go())
        if how == "cancel":
            env.offer("cancel", t.cancel)
        await asyncio.wait({t})
        env.withdraw("cancel")
        for nm in list(env.names()):
            env.withdraw(nm)
        t.result()
        log["got"] = got
        t0 = asyncio.get_running_loop().time()
        if timeout:
            await asyncio.sleep(20)  # a timer left behind would strike now
        for _ in range(5):
            await asyncio.sleep(0)

    try:
        _, info = run(ch, main, time_race=False)
    except Deadlock as e:
        raise Violation("call-hangs", str(e)) from e
    except asyncio.CancelledError as e:
        raise Violation("timer-left-behind", f"{log} {ilog}") from e
    desc = lambda: f"{p} {log} {ilog}"
    expect(log["closed_at_end"], "exchange-not-released", desc)
    expect(log["ilog_at_end"] == [("start", i) for i in range(icpt)] + [("end", i) for i in reversed(range(icpt))],
           "interceptor-hooks", desc)
    expect(ilog == log["ilog_at_end"], "interceptor-hooks", desc)
    expect(not info["leftover_tasks"], "leaked-task", lambda: str(info["leftover_tasks"]))
    expect(not info["errors"], "loop-error", lambda: str(info["errors"]))
    return how


class SWatch:
    def __init__(self, rec, i):
        self.rec, self.i = rec, i

    def on_start_sync(self, ctx):
        self.rec.append(("start", self.i))

    def on_end_sync(self, token, ctx, error):
        self.rec.append(("end", self.i))


class Held:
    """An iterator of a service's own, that must be told when it is not needed any more."""

    def __init__(self, g, log):
        self.g, self.cycle = g, self

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.g)

    def close(self):
        self.g.close()


def wsgi_body(ch, p):
    """A WSGI server stops sending a response (its peer is gone) and closes it, at every point."""
    _, proto, kind, n, icpt, style = p
    log, ilog = [], []
    kept = []
    early = ch.flag("abandoned")
    after = ch.choose(n + 2, "parts sent") if early else None

    def stream(request, ctx):
        log.append("enter")
        try:
            if kind == "bidi":
                for _ in request:
                    pass
            for i in range(n):
                log.append(("yield", i))
                yield M(f"r{i}")
            log.append("done")
        finally:
            log.append("cleanup")

    def handler(request, ctx):
        g = stream(request, ctx)
        if style == "held":  # (the service keeps track of its streams)
            kept.append(g)
        return Held(g, log) if style == "iterator" else g

    app = wsgi_app([(minfo(kind), kind, handler)], interceptors=[SWatch(ilog, i) for i in range(icpt)])
    req = wire.build_request(proto, kind, "proto", ["q"], path=mpath(kind))
    mon = WSGIMonitor(ch)
    env = wsgi_environ(req, Input(req.chunks), send_trailers=mon.send_trailers)
    it = app(env, mon.start_response)
    i = iter(it)
    sent = 0
    finished = False
    while after is None or sent < after:
        try:
            mon.on_chunk(next(i))
            sent += 1
        except StopIteration:
            finished = True
            break
    before = list(log)
    trailers = mon.trailer_calls
    exc = None
    try:
        close = getattr(it, "close", None)
        if close is not None:
            close()
    except Exception as e:
        exc = e
    mon.finished = True
    desc = lambda: f"{p} sent={sent} {log} {ilog} {mon.problems} {exc!r}"
    expect(exc is None, "close-fails", desc)
    del i, it, close
    expect(log.count("enter") == 1, "handler-runs", desc)
    expect(log.count("cleanup") == 1 and log[-1] == "cleanup", "cleanup-not-once", desc)
    expect([x for x in log if x not in before] in ([], ["cleanup"]), "sends-after-disconnect", desc)
    # the handler is asked for a message only when the server is ready to send it
    expect(len([x for x in log if x[0] == "yield"]) <= min(n, max(1, sent + (1 if finished else 0))), "handler-not-stopped", desc)
    expect(mon.trailer_calls == trailers and not mon.problems, "sends-after-disconnect", desc)
    expect(ilog == [("start", k) for k in range(icpt)] + [("end", k) for k in reversed(range(icpt))],
           "interceptor-hooks", desc)
    return f"{finished} {sent}"


def sclient_body(ch, p):
    """A synchronous caller stops reading a response stream: the exchange is released at once."""
    _, proto, kind, n, icpt, timeout = p
    base = wire.build_response(proto, kind, "proto", [f"r{i}" for i in range(n)])
    chunks = rechunked(base.chunks, ch.pick((None, "one"), "chunks"))
    state = {"closed": 0, "read": 0}
    ilog = []

    class T:
        def execute_sync(self, request):
            if not isinstance(request.content, bytes):
                for _ in request.content:
                    pass
            trailers = HTTPHeaders()

            def content():
                try:
                    for c in chunks:
                        state["read"] += 1
                        yield c
                    for k, v in base.trailers or []:
                        trailers.add(k, v)
                finally:
                    state["closed"] += 1

            return SyncResponse(status=base.status, headers=HTTPHeaders(base.headers), content=content(), trailers=trailers)

    client = make_client(True, T(), proto, "proto", interceptors=[SWatch(ilog, i) for i in range(icpt)],
                         **({"timeout_ms": 60_000} if timeout else {}))
    mi = minfo(kind)
    s = (client.execute_server_stream(request=M("q"), method=mi) if kind == "server_stream"
         else client.execute_bidi_stream(request=iter([M("q")]), method=mi))
    how = ch.pick(("close", "throw", "drop"), "how")
    stop = ch.choose(n, "stop after") + 1
    got = [next(s).value for _ in range(stop)]
    read = state["read"]
    exc = None
    try:
        if how == "close":
            s.close()
        elif how == "throw":
            s.throw(KeyError("caller"))
    except Exception as e:
        exc = e
        e.__traceback__ = None
        if e.__context__ is not None:
            e.__context__.__traceback__ = None
        if e.__cause__ is not None:
            e.__cause__.__traceback__ = None
    del s
    desc = lambda: f"{p} {how} {stop} {got} {state} {ilog} {exc!r}"
    expect(got == [f"r{i}" for i in range(stop)], "messages", desc)
    expect(how == "throw" or exc is None, "close-fails", desc)
    expect(state["closed"] == 1, "exchange-not-released", desc)
    # pyqwest drains what is there already: nothing obliges it not to
    expect(ilog == [("start", k) for k in range(icpt)] + [("end", k) for k in reversed(range(icpt))],
           "interceptor-hooks", desc)
    return f"{how} {stop} {state['read'] - read}"


def body(ch, p):
    return {"server": server_body, "client": client_body, "wsgi": wsgi_body, "sclient": sclient_body}[p[0]](ch, p)


def S(**kw):
    return ("server",) + tuple(sorted(kw.items()))


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for proto in PROTOS:
        for kind in KINDS:
            streaming = kind in ("server_stream", "bidi")
            ends = ("ok", "err", "crash") + (("forever",) if streaming else ())
            for end in ends:
                for k in (0, 1, 2) if streaming and end != "forever" else (1,):
                    for wait, gate in ((False, "none"), (True, "none"), (False, "after"), (True, "after")):
                        for disc in ("no", "ignore", "raise", "rxfail"):
                            for cancel in (0, 1, 2):
                                if end == "forever" and not (cancel or disc != "no"):
                                    continue
                                if end == "forever" and not (wait or gate != "none"):
                                    continue
                                if cancel == 2 and not big and (disc != "no" or k == 2):
                                    continue
                                for icpt in (0, 2):
                                    for cleanup in ("sync", "async", "raise"):
                                        if not big and cleanup != "sync" and (end == "err" or k == 2):
                                            continue
                                        if cleanup == "raise" and end == "forever":
                                            continue
                                        for early in (0, 1) + ((2,) if big else ()):
                                            if early and not (cancel or disc != "no"):
                                                continue
                                            if early and not big and (k == 2 or cancel == 2 or icpt == 0 and cleanup != "sync"):
                                                continue
                                            if early and not big and wait and gate == "after" and (disc == "raise" or cancel):
                                                continue
                                            if early == 2 and (end == "forever" or k == 2 or cancel == 2):
                                                continue
                                            out.append(S(proto=proto, kind=kind, end=end, k=k, wait=wait, gate=gate, disconnect=disc,
                                                         cancel=cancel, icpt=icpt, cleanup=cleanup, early=early))
            if kind in ("client_stream", "bidi"):
                for reads in ("none", "one", "all"):
                    for nreq in (1, 2):
                        for disc in ("no", "ignore"):
                            for cancel in (0, 1):
                                for icpt in (0, 1):
                                    for early in (0, 1):
                                        out.append(S(proto=proto, kind=kind, end="ok", k=1, wait=True, reads=reads, nreq=nreq,
                                                     disconnect=disc, cancel=cancel, icpt=icpt, split=True, early=early))
            if streaming:
                for n in (1, 2, 3):
                    for how in ("aclose", "throw"):
                        for icpt in (0, 1, 2):
                            for timeout in (False, True):
                                out.append(("client", proto, kind, n, how, icpt, timeout))
                for icpt in (0, 1, 2):
                    for n in range(0, 6 if big else 4):
                        for style in ("generator", "held", "iterator"):
                            out.append(("wsgi", proto, kind, n, icpt, style))
                        if n:
                            for timeout in (False, True):
                                out.append(("sclient", proto, kind, n, icpt, timeout))
    return out


CHECK = Check(
    id="C11", body=body, scenarios=scenarios, bound=lambda tier, p: (dict(p[1:]).get("early", 0) if p[0] == "server" else None),
    rule="scripted handlers (finite, endless, failing, with sync / async / failing cleanup, behind 0-2 interceptors) x every order of "
         "{request chunks, handler progress, send drain, disconnect, cancellations} at quiescence plus up to 1 (thorough 2) "
         "early; clients that stop reading after every message",
    assumptions=("the event loop runs callbacks in FIFO order",
                 "a bidi handler that never reads its requests is only told of a disconnect by a failing send"),
)
