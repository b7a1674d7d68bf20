"""C06: deadline and cancellation of client calls over every order of events."""
import asyncio
import contextlib

from pyqwest._pyqwest import get_sync_timeout

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire
from mc.vtime import real_monotonic, virtual_clock
from mc.vloop import Deadlock

T_MS = 100
EPS = 1e-3
IDEM = IdempotencyLevel.NO_SIDE_EFFECTS


class Passing:
    """metadata interceptor that only watches"""

    def __init__(self, log):
        self.log = log

    async def on_start(self, ctx):
        self.log.append("start")

    async def on_end(self, token, ctx, error):
        self.log.append(("end", type(error).__name__ if error else None))


def async_body(ch, p):
    _, proto, kind, n, outcome, use_timeout, cancel, early, consumer, icpt, stall_req = p
    busy = consumer == "busy"
    get, kind = kind == "get", "unary" if kind == "get" else kind
    streaming = kind in ("server_stream", "bidi")
    err = Err("aborted", "server said so") if outcome == "error" else None
    sent = [f"r{i}" for i in range(n)]
    base = wire.build_response(proto, kind, "proto", sent, error=err)
    if busy:  # also halves of messages arrive
        base.chunks = [h for c in base.chunks for h in (c[: len(c) // 2], c[len(c) // 2:])]
    # the body itself says how the call ended, so the client need not wait for its end
    inband = proto == "grpcweb" or (proto == "connect" and kind != "unary")
    log = {}
    ilog = []

    async def main(env):
        env.early = bool(early)
        state = {"execute": "not started", "content": None}

        class T:
            async def execute(self, request):
                state["execute"] = "running"
                try:
                    if isinstance(request.content, bytes):
                        pass
                    else:
                        async for _ in request.content:
                            pass
                    f = asyncio.get_running_loop().create_future()
                    env.offer("headers", lambda: f.done() or f.set_result(None))
                    try:
                        await f
                    finally:
                        env.withdraw("headers")
                    tr = HTTPHeaders()
                    c = state["content"] = GatedContent(env, base.chunks, trailers=tr, fill=base.trailers or [])
                    state["execute"] = "returned"
                    return Response(status=base.status, headers=HTTPHeaders(base.headers), content=c, trailers=tr)
                except BaseException:
                    state["execute"] = "stopped"
                    raise

        kw = {"timeout_ms": T_MS} if use_timeout else {}
        if icpt:
            kw["interceptors"] = [Passing(ilog)]
        client = make_client(False, T(), proto, "proto", **kw)
        out = Outcome()
        mi = minfo(kind, idem=IDEM) if get else minfo(kind)
        where = {"own": False}
        loop = asyncio.get_running_loop()
        start = loop.time()
        log["start"] = start

        async def reqs():
            yield M("q0")
            if stall_req:
                f = loop.create_future()
                env.offer("req", lambda: f.done() or f.set_result(None))
                try:
                    await f
                finally:
                    env.withdraw("req")
            yield M("q1")

        async def caller():
            log["begun"] = True
            try:
                if kind == "unary":
                    out.msgs.append((await client.execute_unary(request=M("q"), method=mi, use_get=get)).value)
                elif kind == "client_stream":
                    out.msgs.append((await client.execute_client_stream(request=reqs(), method=mi)).value)
                else:
                    s = (client.execute_server_stream(request=M("q"), method=mi) if kind == "server_stream"
                         else client.execute_bidi_stream(request=reqs(), method=mi))
                    async for r in s:
                        out.msgs.append(r.value)
                        if consumer == "slow":
                            where["own"] = True
                            await asyncio.sleep(2 * T_MS / 1000)
                            where["own"] = False
            except ConnectError as e:
                out.error, out.raised = err_of(e), e
            except asyncio.CancelledError as e:
                out.raised = e
            except Exception as e:
                out.raised = e
            log["end"] = loop.time()

        log["end"] = start
        if busy:
            # the loop is kept busy until after the deadline, and meanwhile something arrives
            def jump():
                info_clock[0] += 2 * T_MS / 1000
                log["busy_until"] = info_clock[0]
                for nm in env.names():
                    if nm.startswith(("headers", "rchunk", "rend")):
                        env.take(nm)
                        break
            info_clock = loop.clock
            env.offer("busy", jump)
        tick = loop.call_later(2 * T_MS / 1000, lambda: None)  # time passes whoever is watching
        task = loop.create_task(caller())
        if cancel:
            def do_cancel():
                log["cancelled"] = True
                log["cancel_own"] = where["own"]
                task.cancel()
            env.offer("cancel", do_cancel)
        try:
            await asyncio.wait({task})
            if task.cancelled():
                out.raised = asyncio.CancelledError()
        finally:
            env.withdraw("cancel")
            env.withdraw("busy")
            tick.cancel()
        env.early = False
        for _ in range(20):
            await asyncio.sleep(0)
        c = state["content"]
        log["all_released"] = c is not None and (c.done or (inband and c.next == len(c.chunks)))
        log["exec"] = state["execute"]
        log["released"] = (state["execute"] in ("not started", "stopped") if c is None else (c.done or c.closed))
        log["own_at_end"] = where["own"]
        return out

    try:
        out, info = run(ch, main)
    except Deadlock as e:
        raise Violation("call-hangs", f"{e}; {log}") from e
    ch.ev("out", out.short(), out.msgs, {k: v for k, v in log.items() if k not in ("start", "end")})
    late = log["end"] - log["start"] >= T_MS / 1000 - 1e-9
    canc = log.get("cancelled", False)
    want_ok = out.raised is None
    desc = lambda: f"{out.raised!r} msgs={out.msgs} late={late} log={log}"
    expect(out.msgs == sent[: len(out.msgs)], "messages", desc)
    if isinstance(out.raised, asyncio.CancelledError):
        # only a cancellation that hit the caller's own code may surface raw
        expect(canc and (log.get("cancel_own") or not log.get("begun")), "bare-cancelled-error", desc)
    elif out.error is not None:
        code = out.error.code
        if code == "deadline_exceeded":
            expect(use_timeout and late, "deadline-too-early", desc)
        elif code == "canceled":
            expect(canc, "canceled-from-nowhere", desc)
        elif err is not None and log["all_released"]:
            expect(out.error.key() == err.key(), "server-error-changed", desc)
            expect(not streaming or out.msgs == sent, "messages", desc)
        else:
            raise Violation("invented-outcome", desc())
    else:
        expect(want_ok, "non-rpc-error", desc)
        expect(err is None and log["all_released"], "success-invented", desc)
        expect(out.msgs == sent, "messages", desc)
    if not early:
        # every action ran to quiescence, so the order of events decides the outcome
        if consumer != "slow":
            ends = {"env rend"} | ({f"env rchunk{len(base.chunks) - 1}"} if inband else set())
            want = set()
            passed = False
            for line in ch.log:
                if line.startswith("env cancel"):
                    want.add("canceled")
                    break
                if line.startswith("time") and late and use_timeout:
                    want.add("deadline")
                    break
                if line.startswith("env busy") and use_timeout:
                    want.add("deadline")  # or what arrived at the same time ends the call
                    passed = True
                    continue
                if any(line.startswith(e) for e in ends):
                    want.add("done")
                    if line.startswith("env rend"):
                        break
                if passed:
                    break
            got = ("canceled" if out.error and out.error.code == "canceled" else
                   "deadline" if out.error and out.error.code == "deadline_exceeded" else "done")
            expect(got in (want or {"done"}), "wrong-outcome", lambda: f"allowed {want}, got {got}: {desc()}")
            if got == "deadline":
                expect(log["end"] <= max(log["start"] + T_MS / 1000, log.get("busy_until", 0)) + EPS, "deadline-late", desc)
    if out.raised is not None and not isinstance(out.raised, asyncio.CancelledError):
        expect(log["released"], "exchange-not-released", desc)
    expect(not info["leftover_tasks"], "leaked-task", lambda: str(info["leftover_tasks"]))
    expect(not info["errors"], "loop-error", lambda: str(info["errors"]))
    if icpt and log.get("begun"):
        expect(ilog[0] == "start" and len(ilog) == 2, "interceptor-end", lambda: f"{ilog} {desc()}")
    return f"{out.short()}"


class Clocked:
    def __init__(self, cell, d):
        self.cell, self.d = cell, d

    def on_start_sync(self, ctx):
        self.cell[0] += self.d

    def on_end_sync(self, token, ctx, error):
        pass


def sync_body(ch, p):
    _, proto, kind, n, use_timeout = p
    get, kind = kind == "get", "unary" if kind == "get" else kind
    sent = [f"r{i}" for i in range(n)]
    base = wire.build_response(proto, kind, "proto", sent)
    k = len(base.chunks)
    fail = ch.choose(k + 3, "timeout raised at")  # 0 never, 1 execute, 2.. before chunk i
    before = ch.pick([0, 0.04, 0.1, 0.25], "time before the call is sent")
    during = ch.pick([0, 0.05, 0.3], "time during the exchange")
    seen, spent = [], []
    got = []
    real0 = real_monotonic()  # the transport's timeout runs on the real clock
    with virtual_clock() as cell:
        start = cell[0]

        class T:
            def execute_sync(self, request):
                t = get_sync_timeout()
                spent.append(real_monotonic() - real0)
                seen.append(None if t is None else t.total_seconds())
                if not isinstance(request.content, bytes):
                    for _ in request.content:
                        pass
                if fail == 1:
                    cell[0] += 10
                    raise TimeoutError("transport timeout")
                tr = HTTPHeaders()

                def content():
                    for i, c in enumerate(base.chunks):
                        if fail == i + 2:
                            cell[0] += 10
                            raise TimeoutError("transport timeout")
                        yield c
                    cell[0] += during
                    if fail == k + 2:
                        cell[0] += 10
                        raise TimeoutError("transport timeout")
                    for a, b in base.trailers or []:
                        tr.add(a, b)
                return SyncResponse(status=base.status, headers=HTTPHeaders(base.headers), content=content(), trailers=tr)

        kw = {"timeout_ms": T_MS} if use_timeout else {}
        client = make_client(True, T(), proto, "proto", interceptors=[Clocked(cell, before)], **kw)
        out = scall(client, kind, ["q"], on_msg=got.append, **({"mi": minfo(kind, idem=IDEM), "use_get": True} if get else {}))
        end = cell[0]
    desc = lambda: f"{out.raised!r} {out.msgs} seen={seen} fail={fail} before={before} during={during}"
    ch.ev("sync", fail, before, during, seen, out.short())
    expect(out.raised is None or out.error is not None, "non-rpc-error", desc)
    code = out.error.code if out.error else "ok"
    expect(out.msgs == sent[: len(out.msgs)], "messages", desc)
    late = end - start >= T_MS / 1000 - 1e-9
    if use_timeout and before >= T_MS / 1000:
        expect(code == "deadline_exceeded", "expired-deadline", desc)
        return "sync expired"
    expect(len(seen) == 1, "requests", desc)
    if use_timeout:
        left = T_MS / 1000 - before
        expect(seen[0] is not None and left - spent[0] - 0.002 <= seen[0] <= left + 1e-6, "transport-timeout", desc)
    else:
        expect(seen[0] is None, "transport-timeout", desc)
    if fail:
        expect(code == "deadline_exceeded", "timeout-misreported", desc)
    elif use_timeout and late:
        expect(code in ("ok", "deadline_exceeded"), "outcome", desc)
    else:
        expect(code == "ok" and out.msgs == sent, "result-lost", desc)
    return f"sync {code}"


@contextlib.contextmanager
def older_python():
    """The timeout the library brings along for Python 3.10, in place of asyncio's."""
    try:
        from connectrpc import _asyncio_timeout, _client_async
        saved, other = _client_async.asyncio_timeout, _asyncio_timeout.timeout
    except (ImportError, AttributeError):
        yield
        return
    _client_async.asyncio_timeout = other
    try:
        yield
    finally:
        _client_async.asyncio_timeout = saved


def body(ch, p):
    if p[0] == "older":
        with older_python():
            return async_body(ch, p)
    return async_body(ch, p) if p[0] == "async" else sync_body(ch, p)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for proto in PROTOS:
        for kind in KINDS + (("get",) if proto == "connect" else ()):
            streaming = kind in ("server_stream", "bidi")
            for n in ((0, 1, 2) if streaming else (1,)):
                for outcome in ("ok", "error"):
                    if outcome == "error" and not streaming and n:
                        nn = 0
                    else:
                        nn = n
                    for use_timeout in (True, False):
                        for cancel in (True, False):
                            if not use_timeout and not cancel and n != 1:
                                continue
                            for early in (0, 1, 2) + ((3,) if big else ()):
                                if early == 2 and not big and outcome == "error":
                                    continue
                                for icpt in (False, True):
                                    for stall in ((False, True) if kind in ("client_stream", "bidi") else (False,)):
                                        out.append(("async", proto, kind, nn, outcome, use_timeout, cancel, early, "fast", icpt, stall))
                        if use_timeout:
                            for icpt in (False, True):
                                for stall in ((False, True) if kind in ("client_stream", "bidi") else (False,)):
                                    out.append(("async", proto, kind, nn, outcome, True, False, 0, "busy", icpt, stall))
                        if streaming and use_timeout:
                            for early in (0, 1):
                                for cancel in (True, False):
                                    for icpt in (False, True):
                                        out.append(("async", proto, kind, nn, outcome, True, cancel, early, "slow", icpt, False))
                for ut in (True, False):
                    out.append(("sync", proto, kind, n, ut))
    # (what a Connect unary call uses instead comes from asyncio on every version)
    out += [("older",) + s[1:] for s in out
            if s[0] == "async" and (big or s[7] < 2) and not (s[1] == "connect" and s[2] in ("unary", "get"))]
    return out


CHECK = Check(
    id="C06", body=body, scenarios=scenarios, bound=lambda tier, p: (None if p[0] == "sync" else p[7]),
    rule="every order of {response headers, each chunk, end, deadline, cancellation} at quiescence, plus up to 2 "
         "(thorough 3) of them while the client is running, x protocol x kind x outcome x interceptors x slow consumer x a loop kept busy past the deadline while something arrives; "
         "sync client: transport timeouts at every point and time lost before and during the exchange",
    assumptions=("the HTTP client library applies the per-request timeout it is given",
                 "a cancellation that hits the caller's own code between messages is the caller's"),
)
