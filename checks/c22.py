"""C22: concurrent calls do not influence one another."""
from mc import vtime  # noqa: F401
import asyncio
import contextvars
import itertools
import zlib

import brotli
import zstandard

from mc import sched

sched.exclusive(zstandard, "ZstdCompressor")
sched.exclusive(zstandard, "ZstdDecompressor")
sched.exclusive(zlib, "compressobj")
sched.exclusive(zlib, "decompressobj")
sched.exclusive(brotli, "Compressor")
sched.exclusive(brotli, "Decompressor")
sched.patch_locks()

from checks.c22fresh import VARIANTS  # noqa: E402
from mc import fresh  # noqa: E402
from mc.core import Check  # noqa: E402
from mc.rig import *  # noqa: E402,F403
from mc import wire  # noqa: E402
from mc.vloop import Deadlock, run  # noqa: E402

# A call is (name, kind, behaviour, timeout). Everything it sends and is answered names it, so whatever leaks is seen.
BEHAVE = ["ok", "error", "crash"]


class Call:
    def __init__(self, tag, kind, behaviour="ok", timeout=None, get=False):
        self.tag, self.kind, self.behaviour, self.timeout, self.get = tag, kind, behaviour, timeout, get
        self.msgs = [f"{tag}0", f"{tag}1" * 3] if kind in ("client_stream", "bidi") else [f"{tag}0"]

    def headers(self):
        h = Headers()
        h.add("x-tag", self.tag)
        h.add(f"x-only-{self.tag}", "1")
        h.add("x-behaviour", self.behaviour)
        return h


METHODS = {
    "unary": minfo("unary", idem=IdempotencyLevel.NO_SIDE_EFFECTS), "client_stream": minfo("client_stream"),
    "server_stream": minfo("server_stream"), "bidi": minfo("bidi"),
}


def before(ctx, log):
    """What the handler sees of its call."""
    tag = ctx.request_headers.get("x-tag")
    only = sorted(k for k in ctx.request_headers if k.startswith("x-only-"))
    log.append(("start", tag, tuple(only), ctx.method.name, None if ctx.timeout_ms is None else round(ctx.timeout_ms / 1000)))
    ctx.response_headers.add("x-answer", tag)
    ctx.response_headers.add(f"x-h-{tag}", tag)
    return tag


def finish(ctx, tag, got, log):
    ctx.response_trailers.add("x-bye", tag)
    ctx.response_trailers.add(f"x-t-{tag}", tag)
    log.append(("got", tag, tuple(got)))
    b = ctx.request_headers.get("x-behaviour")
    if b == "error":
        raise ConnectError(Code.ABORTED, f"no {tag}", details=[M(tag)])
    if b == "crash":
        raise ValueError(f"crash {tag}")


def wsgi_handlers(log):
    def unary(r, ctx):
        tag = before(ctx, log)
        sched.point()
        finish(ctx, tag, [r.value], log)
        return M(f"re {r.value}")

    def client_stream(r, ctx):
        tag = before(ctx, log)
        got = [m.value for m in r]
        finish(ctx, tag, got, log)
        return M("re " + " ".join(got))

    def server_stream(r, ctx):
        tag = before(ctx, log)
        yield M(f"re0 {r.value}")
        sched.point()
        yield M(f"re1 {r.value}")
        finish(ctx, tag, [r.value], log)

    def bidi(r, ctx):
        tag = before(ctx, log)
        got = []
        for m in r:
            got.append(m.value)
            yield M(f"re {m.value}")
        finish(ctx, tag, got, log)
    return [(METHODS[k], k, f) for k, f in (("unary", unary), ("client_stream", client_stream), ("server_stream", server_stream), ("bidi", bidi))]


def asgi_handlers(log, gate):
    async def unary(r, ctx):
        tag = before(ctx, log)
        await gate(tag)
        finish(ctx, tag, [r.value], log)
        return M(f"re {r.value}")

    async def client_stream(r, ctx):
        tag = before(ctx, log)
        got = [m.value async for m in r]
        await gate(tag)
        finish(ctx, tag, got, log)
        return M("re " + " ".join(got))

    async def server_stream(r, ctx):
        tag = before(ctx, log)
        yield M(f"re0 {r.value}")
        await gate(tag)
        yield M(f"re1 {r.value}")
        finish(ctx, tag, [r.value], log)

    async def bidi(r, ctx):
        tag = before(ctx, log)
        got = []
        async for m in r:
            got.append(m.value)
            yield M(f"re {m.value}")
        await gate(tag)
        finish(ctx, tag, got, log)
    return [(METHODS[k], k, f) for k, f in (("unary", unary), ("client_stream", client_stream), ("server_stream", server_stream), ("bidi", bidi))]


class TokensA:
    """A metadata interceptor, shared by all calls, that checks that the token it gets back is the one of the call."""

    def __init__(self, log, side):
        self.log, self.side = log, side

    async def on_start(self, ctx):
        return ctx, ctx.request_headers.get("x-tag")

    async def on_end(self, token, ctx, error):
        self.log.append((self.side + " end", ctx.request_headers.get("x-tag"), token[0] is ctx, token[1],
                         None if error is None else (type(error).__name__, str(error))))


class TokensS:
    def __init__(self, log, side):
        self.log, self.side = log, side

    def on_start_sync(self, ctx):
        return ctx, ctx.request_headers.get("x-tag")

    def on_end_sync(self, token, ctx, error):
        self.log.append((self.side + " end", ctx.request_headers.get("x-tag"), token[0] is ctx, token[1],
                         None if error is None else (type(error).__name__, str(error))))


def seen(out, log, tag):
    """Everything observable about one call."""
    return {
        "msgs": tuple(out.msgs), "error": repr(out.error) if out.error else None,
        "raised": None if out.raised is None or out.error else repr(out.raised),
        "headers": tuple((k, v) for k, v in out.headers if k.startswith("x-")),
        "trailers": tuple((k, v) for k, v in out.trailers if k.startswith("x-")),
        "handler": tuple(e for e in log if e[1] == tag),
    }


COMPS = {"none": None, "gzip": ["gzip"], "zstd": ["zstd"], "br": ["br"], "mixed": ["gzip", "br"], "clients": ["zstd", "gzip"], "codecs": None}
ACCEPT = ("accept-encoding", "connect-accept-encoding", "grpc-accept-encoding")
ANSWER = {"a": "gzip", "b": "br", "c": "identity"}  # "mixed": what the server may use for each call
OTHER = {"connect": "grpc", "grpc": "grpcweb", "grpcweb": "connect"}


def accepting(req, comp):
    if comp == "mixed":
        tag = next(v for k, v in req.headers if k == "x-tag")
        req.headers = [(k, ANSWER[tag] if k in ACCEPT else v) for k, v in req.headers]
    return req


def clients(sync, link, proto, comp, kw):
    """The client of each call: one for all or, with "clients" and "codecs", two unlike ones of one server."""
    one = make_client(sync, link, proto, **kw)
    if comp not in ("clients", "codecs"):
        return lambda tag: one
    if comp == "codecs":
        other = make_client(sync, link, proto, "json", **kw)
    else:
        other = make_client(sync, link, OTHER[proto], "json", **dict(kw, send_compression=None))
    return lambda tag: other if tag == "b" else one


def settings(comp, sync, log, interceptors):
    kw, akw = {}, {}
    if comp != "default":
        cs = [compression(c) for c in COMPS[comp] or []]
        kw = {"send_compression": cs[0] if cs else None, "accept_compression": cs}
        akw = {"compressions": cs}
    if interceptors:
        kw["interceptors"] = [(TokensS if sync else TokensA)(log, "client")]
        akw["interceptors"] = [(TokensS if sync else TokensA)(log, "server")]
    return kw, akw


# ---------------------------------------------------------------------------
# threads

_solo = {}


def build_sync(proto, comp, icpt):
    log = []
    kw, akw = settings(comp, True, log, icpt)
    app = wsgi_app(wsgi_handlers(log), **akw)

    class Tr:
        """Full duplex: everything moves when it is asked for, in the thread of the call."""

        def execute_sync(self, request):
            req = accepting(req_from_http(request, []), comp)
            tr = HTTPHeaders()
            mon = WSGIMonitor()
            if isinstance(request.content, bytes):
                inp = Input([request.content])
            else:
                it = iter(request.content)

                class inp:  # noqa: N801
                    @staticmethod
                    def read(n=-1):
                        return bytes(next(it, b""))
            body = app(wsgi_environ(req, inp, send_trailers=mon.send_trailers), mon.start_response)
            if dict(mon.headers).get("content-encoding", "identity") != "identity":
                resp = mon.resp()
                resp.chunks = list(body)
                headers, chunks, _ = _view(resp)
                return SyncResponse(status=mon.status, headers=headers, content=iter(chunks), trailers=tr)

            def content():
                for b in body:
                    mon.on_chunk(b)
                    if b:
                        yield b
                for k, v in mon.trailers or []:
                    tr.add(k, v)
            return SyncResponse(status=mon.status, headers=HTTPHeaders(mon.headers), content=content(), trailers=tr)
    return clients(True, Tr(), proto, comp, kw), log


def _view(resp):
    from mc.rig import _client_view
    return _client_view(resp, True)


def call_sync(pick, c):
    client = pick(c.tag)

    def go():
        def reqs():
            for m in c.msgs:
                yield M(m)
        return scall(client, c.kind, c.msgs, mi=METHODS[c.kind], headers=c.headers(), timeout_ms=c.timeout, use_get=c.get,
                     req_iter=reqs())
    # a thread starts with an empty context
    return contextvars.Context().run(go)


def solo_sync(key, calls, proto, comp, icpt, gran):
    if key not in _solo:
        want, counts = {}, []
        for _ in range(2):  # the first time, caches are filled
            want, counts = {}, []
            for c in calls:
                client, log = build_sync(proto, comp, icpt)
                s = sched.Scheduler(None, None, gran)
                res = s.run([lambda: call_sync(client, c)])[0]  # noqa: B023
                if res[0] != "ok":
                    raise HarnessError(f"solo call failed: {res!r}")
                want[c.tag] = seen(res[1], log, c.tag)
                counts.append(s.points[0])
        _solo[key] = want, counts
    return _solo[key]


def body_threads(ch, p):
    _, proto, specs, comp, icpt, gran, shard = p
    calls = [Call(*s) for s in specs]
    want, counts = solo_sync(p[:-1], calls, proto, comp, icpt, gran)
    for c in calls:
        check_solo(want[c.tag], c)
    client, log = build_sync(proto, comp, icpt)
    sched.misuse.clear()
    s = sched.Scheduler(ch, counts, gran)
    s.shard = shard
    try:
        res = s.run([lambda c=c: call_sync(client, c) for c in calls])
    except sched.Deadlocked:
        expect(False, "threads-deadlock", lambda: f"{p} preempted {s.switches}")
    for c, r in zip(calls, res):
        desc = lambda: f"{p} call {c.tag} {c.kind}, preempted {s.switches}:\n got {got}\nwant {want[c.tag]}"
        got = repr(r)
        expect(r[0] == "ok", "thread-crashed", desc)
        got = seen(r[1], log, c.tag)
        ch.ev(c.tag, got["msgs"], got["error"])
        expect(got == want[c.tag], "calls-mixed", desc)
    expect(not sched.misuse, "native-object-shared", lambda: f"{p} preempted {s.switches}: {sched.misuse}")
    return f"threads {len(s.switches)}"


def check_solo(w, c):
    """The reference itself is what the call should give."""
    tag = c.tag
    if c.kind == "unary":
        msgs = (f"re {tag}0",)
    elif c.kind == "client_stream":
        msgs = ("re " + " ".join(c.msgs),)
    elif c.kind == "server_stream":
        msgs = (f"re0 {tag}0", f"re1 {tag}0")
    else:
        msgs = tuple(f"re {m}" for m in c.msgs)
    if c.behaviour != "ok" and c.kind in ("unary", "client_stream"):
        msgs = ()
    ok = w["msgs"] == msgs and (w["error"] is None) == (c.behaviour == "ok") and w["raised"] is None
    ok = ok and (c.behaviour == "ok" or tag in w["error"])
    start = [e for e in w["handler"] if e[0] == "start"]
    ok = ok and len(start) == 1 and start[0][2] == (f"x-only-{tag}",) and start[0][4] == (None if c.timeout is None else c.timeout // 1000)
    ok = ok and ("x-answer", tag) in w["headers"] and ("x-bye", tag) in w["trailers"]
    expect(ok, "solo-call-wrong", lambda: f"{c.__dict__}: {w}")


# ---------------------------------------------------------------------------
# tasks


# which steps of the network are gated
HOPS = {"phase": (), "coarse": ("request", "handler"), "mid": ("request", "handler", "headers", "end"), "down": ("handler", "down", "end"), "up": ("up", "handler")}


class GatedLink:
    """Async transport in front of an ASGI application: every step of the network is an action of the environment."""

    def __init__(self, app, env, fine, comp):
        self.app, self.env, self.fine, self.comp = app, env, fine, comp
        self.ticks = {}  # passes of the event loop that the steps of a call take
        self.exc = []
        self.tasks = []

    async def hop(self, name):
        for _ in range(self.ticks.get(name, 0)):
            await asyncio.sleep(0)
        if self.fine != "all" and name.split()[1] not in HOPS[self.fine]:
            return
        f = asyncio.get_running_loop().create_future()
        k = 0
        while f"{name}#{k}" in self.env._actions:
            k += 1
        n = f"{name}#{k}"
        self.env.offer(n, lambda: f.done() or f.set_result(None))
        try:
            await f
        finally:
            self.env.withdraw(n)

    async def execute(self, request):
        loop = asyncio.get_running_loop()
        req = accepting(req_from_http(request, []), self.comp)
        tag = next(v for k, v in req.headers if k == "x-tag")
        content = request.content
        mon = ASGIMonitor()
        started, tr = loop.create_future(), HTTPHeaders()
        down = asyncio.Queue()
        gone = loop.create_future()
        await self.hop(f"{tag} request")
        if isinstance(content, bytes):
            async def one():
                yield content
            it = one()
        else:
            it = content.__aiter__()
        state = {"over": False}

        async def receive():
            if state["over"]:
                await gone
                return {"type": "http.disconnect"}
            b = await anext(it, None)
            await self.hop(f"{tag} up")
            if b is None:
                state["over"] = True
                return {"type": "http.request", "body": b"", "more_body": False}
            return {"type": "http.request", "body": bytes(b), "more_body": True}

        async def send(m):
            mon.on_send(m)
            if m["type"] == "http.response.start":
                started.set_result(None)
            elif m["type"] == "http.response.body" and m.get("body"):
                down.put_nowait(bytes(m["body"]))
            if mon.complete:
                down.put_nowait(None)

        async def serve():
            try:
                await self.app(asgi_scope(req), receive, send)
            except Exception as e:
                self.exc.append((tag, repr(e)))
            finally:
                if not started.done():
                    started.set_result(None)
                down.put_nowait(None)
        task = loop.create_task(serve(), context=contextvars.Context())
        self.tasks.append(task)
        try:
            await started
            await self.hop(f"{tag} headers")
        except asyncio.CancelledError:
            gone.done() or gone.set_result(None)
            raise
        if any(k == "content-encoding" and v != "identity" for k, v in mon.headers):
            await task
            headers, chunks, _ = _view(mon.resp())

            async def plain():
                for c in chunks:
                    yield c
            return Response(status=mon.status, headers=headers, content=plain(), trailers=tr)

        async def body():
            try:
                while (b := await down.get()) is not None:
                    await self.hop(f"{tag} down")
                    yield b
                await self.hop(f"{tag} end")
                for k, v in mon.trailers or []:
                    tr.add(k, v)
            finally:
                gone.done() or gone.set_result(None)
        return Response(status=mon.status or 500, headers=HTTPHeaders(mon.headers), content=body(), trailers=tr)


def run_async(ch, p, calls, only=None):
    _, proto, specs, comp, icpt, fine, fault = p
    log = []

    async def main(env):
        env.early_ok = {"cancel"}
        kw, akw = settings(comp, False, log, icpt)

        async def gate(tag):
            await link.hop(f"{tag} handler")
        app = asgi_app(asgi_handlers(log, gate), **akw)
        link = GatedLink(app, env, fine, comp)
        pick = clients(False, link, proto, comp, kw)
        outs = {}

        async def one(c):
            async def reqs():
                for m in c.msgs:
                    yield M(m)
            outs[c.tag] = await acall(pick(c.tag), c.kind, c.msgs, mi=METHODS[c.kind], headers=c.headers(), timeout_ms=c.timeout,
                                      use_get=c.get, req_iter=reqs())

        loop = asyncio.get_running_loop()
        delay = {}
        if fine == "phase" and ch is not None:
            # all steps are immediate, the calls run in lockstep but for this
            delay[ch.pick([c.tag for c in calls], "later")] = ch.choose(20, "passes later")
            for c in calls:
                link.ticks[f"{c.tag} handler"] = ch.choose(3, f"handler {c.tag}")

        async def later(c):
            for _ in range(delay.get(c.tag, 0)):
                await asyncio.sleep(0)
            await one(c)

        tasks = [loop.create_task(later(c), context=contextvars.Context()) for c in calls if only is None or c.tag == only]
        if fault == "cancel" and only is None:
            env.offer("cancel a", tasks[0].cancel)
        await asyncio.wait(tasks)
        env.withdraw("cancel a")
        for t in tasks:
            if not t.cancelled() and t.exception() is not None:
                raise t.exception()
        if only is None and fault is None:
            await asyncio.wait(link.tasks)
        return outs
    outs, info = run(ch, main, early=fault == "cancel", time_race=fault == "deadline")
    return {c.tag: seen(outs[c.tag], log, c.tag) for c in calls if c.tag in outs}


def body_tasks(ch, p):
    _, proto, specs, comp, icpt, fine, fault = p
    calls = [Call(*s) for s in specs]
    if p not in _solo:
        want = {}
        for c in calls:
            if fault == "deadline" and c.tag == "a":
                c2 = Call(c.tag, c.kind, c.behaviour)
                want.update(run_async(None, p[:-1] + (None,), [c2]))
                w = want["a"]
                w["handler"] = tuple(e[:4] if e[0] == "start" else e for e in w["handler"])
            else:
                want.update(run_async(None, p, [c], only=c.tag))
        _solo[p] = want
    want = _solo[p]
    for c in calls:
        if not (fault == "deadline" and c.tag == "a"):
            check_solo(want[c.tag], c)
    try:
        got = run_async(ch, p, calls)
    except Deadlock:
        expect(False, "calls-stuck", lambda: f"{p}: {ch.log}")
    for c in calls:
        w = want[c.tag]
        if fault and c.tag == "a":
            g = got.get("a")  # ended by the fault, or before it
            if g is None:
                continue
            desc = lambda: f"{p} call a {c.kind}:\n got {g}\nwant {w} or a prefix and the fault"
            if fault == "deadline":
                g = dict(g, handler=tuple(e[:4] if e[0] == "start" else e for e in g["handler"]))
            if g["error"] is None or "deadline" not in g["error"] and "canceled" not in g["error"]:
                expect({k: v for k, v in g.items() if k != "handler"} == {k: v for k, v in w.items() if k != "handler"}, "calls-mixed", desc)
            expect(g["msgs"] == w["msgs"][:len(g["msgs"])], "calls-mixed", desc)
            expect(set(g["headers"]) <= set(w["headers"]) and set(g["trailers"]) <= set(w["trailers"]), "calls-mixed", desc)
            continue
        desc = lambda: f"{p} call {c.tag} {c.kind}:\n got {got.get(c.tag)}\nwant {w}"
        expect(got.get(c.tag) == w, "calls-mixed", desc)
    ch.ev(sorted((t, g["msgs"], g["error"]) for t, g in got.items()))
    return f"tasks {len(calls)} {fault}"


# ---------------------------------------------------------------------------
# what the caller shares between calls: header objects, the client, the messages

USER = [("x-one", "1"), ("x-two", "2"), ("x-two", "3"), ("x-b-bin", "AAEC")]


class Marks:
    """An interceptor that adds to the request of each call"""

    def on_start_sync(self, ctx):
        ctx.request_headers["x-mark"] = ctx.method.name + str(ctx.timeout_ms)
        ctx.request_headers.add("x-two", "4")

    async def on_start(self, ctx):
        self.on_start_sync(ctx)


def user_headers(mode):
    if mode == "dict":
        return dict(USER)
    h = Headers()
    for k, v in USER:
        h.add(k, v)
    return h


def items(h):
    return sorted(h.allitems()) if hasattr(h, "allitems") else sorted(h.items())


def share_calls(io, proto, steps, hmode, icpt, order):
    """steps: (kind, get, timeout). Returns the requests in order of the steps, the results and the caller's headers."""
    h = user_headers(hmode)
    reqs, outs = [None] * len(steps), [None] * len(steps)
    shared = [M("m0"), M("m1")]

    def serve_for(req):
        i = current[0]
        reqs[i] = (req.method, req.path, req.query, sorted((k, v) for k, v in req.headers), req.body)
        kind = steps[i][0]
        return wire.build_response(proto, kind, "proto", [f"r{i}"] if kind in ("unary", "client_stream") else [f"r{i}", f"s{i}"])
    current = [0]
    kw = {"send_compression": None}
    if icpt:
        kw["interceptors"] = [Marks()]
    client = make_client(io == "sync", (SyncLink if io == "sync" else AsyncLink)(serve_for), proto, **kw)

    def start(i):
        kind, get, timeout = steps[i]
        mi = METHODS[kind]
        a = {"method": mi, "headers": h, "timeout_ms": timeout}
        if kind == "unary":
            return client.execute_unary(request=shared[0], use_get=get, **a)
        if kind == "server_stream":
            return client.execute_server_stream(request=shared[0], **a)
        if io == "sync":
            it = iter(shared)
        else:
            async def gen():
                for m in shared:
                    yield m
            it = gen()
        return (client.execute_client_stream if kind == "client_stream" else client.execute_bidi_stream)(request=it, **a)

    # the work of a call, in steps: it starts (all requests are sent with its first step), and the rest of its answer is read
    if io == "sync":
        open_ = {}

        def do(i, what):
            current[0] = i
            kind = steps[i][0]
            if what == "start":
                outs[i] = []
                if kind in ("unary", "client_stream"):
                    outs[i].append(start(i).value)
                else:
                    open_[i] = start(i)
                    outs[i].append(next(open_[i]).value)
            elif kind not in ("unary", "client_stream"):
                outs[i] += [m.value for m in open_[i]]
        with vtime.virtual_clock():
            for i, what in order:
                do(i, what)
    else:
        async def main(_env):
            open_ = {}
            for i, what in order:
                current[0] = i
                kind = steps[i][0]
                if what == "start":
                    outs[i] = []
                    if kind in ("unary", "client_stream"):
                        outs[i].append((await start(i)).value)
                    else:
                        open_[i] = start(i)
                        outs[i].append((await anext(open_[i])).value)
                elif kind not in ("unary", "client_stream"):
                    outs[i] += [m.value async for m in open_[i]]
        run(None, main)
    return reqs, outs, items(h), [m.value for m in shared]


def body_shared(ch, p):
    _, io, proto, kinds, hmode, icpt = p
    steps = []
    for n, k in enumerate(kinds):
        t = [None, 5000, 70_000][ch.choose(3 if len(kinds) == 2 else 2, f"timeout {n}")]
        steps.append(("unary", True, t) if k == "get" else (k, False, t))
    # every interleaving of start and rest of the calls
    order, left = [], {i: ["start", "rest"] if steps[i][0] in ("server_stream", "bidi") else ["start"] for i in range(len(steps))}
    while any(left.values()):
        i = ch.pick([i for i in left if left[i]], "next")
        order.append((i, left[i].pop(0)))
    reqs, outs, hs, msgs = share_calls(io, proto, steps, hmode, icpt, order)
    ch.ev(reqs, outs)
    desc = lambda: f"{p} {steps} {order}: {reqs} {outs} {hs}"
    expect(hs == items(user_headers(hmode)), "caller-headers-changed", desc)
    expect(msgs == ["m0", "m1"], "caller-messages-changed", desc)
    for i, st in enumerate(steps):
        key = ("shared", io, proto, st, hmode, icpt)
        if key not in _solo:
            one, o, _, _ = share_calls(io, proto, [st], hmode, icpt, [(0, "start"), (0, "rest")])
            _solo[key] = one[0], o[0]
        want, o = _solo[key]
        expect(reqs[i] == want, "calls-mixed", lambda: f"call {i} sent {reqs[i]}, alone {want}: {desc()}")
        expect(outs[i] == [x.replace("0", str(i)) for x in o], "calls-mixed", desc)
        names = [k for k, _ in want[3]]
        tm = {"connect": "connect-timeout-ms"}.get(proto, "grpc-timeout")
        expect((tm in names) == (st[2] is not None), "solo-call-wrong", desc)
        if hmode == "headers":
            expect([x for x in want[3] if x[0] in ("x-one", "x-b-bin")] == [USER[3], USER[0]], "solo-call-wrong", desc)
    return f"shared {len(steps)}"


_alone: dict = {}


def body_fresh(ch, p):
    """the second and third call of a process are like first ones"""
    _, io, shared, first, depth, near = p
    steps = [list(first)]
    while len(steps) < depth:
        if depth == 3:
            nxt = list(first[:2]) + [ch.pick(VARIANTS, "variant")]
        else:
            proto = ch.pick(PROTOS, "protocol")
            kind = ch.pick(KINDS if not near or proto == first[0] else [first[1]], "kind")
            nxt = [proto, kind, ch.pick(VARIANTS, "variant")]
        steps.append(nxt)
    sync = io == "sync"
    for s in steps:
        key = (sync, *s)
        if key not in _alone:
            _alone[key] = fresh.ask("checks.c22fresh", [sync, shared, [s]])
            expect(isinstance(_alone[key], list) and len(_alone[key]) == 1, "history", lambda: f"{key} -> {_alone[key]}")
    got = fresh.ask("checks.c22fresh", [sync, shared, steps])
    ch.ev(steps, got)
    expect(isinstance(got, list), "history", lambda: f"{p} {steps} -> {got}")
    for s, g in zip(steps, got):
        w = _alone[(sync, *s)][0]
        expect(g == w, "history", lambda: f"{p} {steps}: {s} was {g}, in a process of its own {w}")
    return "fresh"


def body(ch, p):
    if p[0] == "fresh":
        return body_fresh(ch, p)
    if p[0] == "shared":
        return body_shared(ch, p)
    return body_threads(ch, p) if p[0] == "threads" else body_tasks(ch, p)


def pairs():
    out = []
    for i, a in enumerate(KINDS):
        for b in KINDS[i:]:
            out.append((a, b))
    return out


def scenarios(tier):
    big = tier == "thorough"
    out = []
    line = "line" if big else "line+first"
    for io in ("async", "sync"):
        for first in itertools.product(PROTOS, KINDS, VARIANTS):
            for shared in (True, False):
                if big:
                    out.append(("fresh", io, shared, first, 2, False))
                    out.append(("fresh", io, shared, first, 3, False))
                elif shared == (first[2] in ("meta", "error")):
                    out.append(("fresh", io, shared, first, 2, True))
    for io in ("async", "sync"):
        for proto in PROTOS:
            ks = KINDS + (("get",) if proto == "connect" else ())
            for n in (2, 3):
                for kinds in itertools.product(ks, repeat=n):
                    for hmode in ("headers", "dict"):
                        for icpt in (False, True):
                            if n == 3 and not big and (hmode == "dict" or not icpt or len(set(kinds)) > 1):
                                continue
                            out.append(("shared", io, proto, kinds, hmode, icpt))
    for i, proto in enumerate(PROTOS):
        for j, (ka, kb) in enumerate(pairs()):
            specs = (("a", ka, "ok", 60000), ("b", kb, "error", 90000))
            comps = ["none", "gzip", "zstd", "br"]
            if big:
                comps = [comps[(i + j) % 4], comps[(i + j + 2) % 4]]
            else:
                comps = [comps[(i + j) % 4]] if (i + j) % 2 == 0 else []
                if ka == kb == "unary":
                    comps = [{"connect": "zstd", "grpc": "br", "grpcweb": "gzip"}[proto]]
            if big or (ka, kb) in (("server_stream", "server_stream"), ("unary", "bidi")):
                comps.append("mixed")
            if big or (ka, kb) in (("unary", "unary"), ("server_stream", "bidi")):
                comps.append("clients")
            if big or (ka, kb) in (("unary", "server_stream"), ("bidi", "bidi")):
                comps.append("codecs")
            for comp in comps:
                out.append(("threads", proto, specs, comp, (i + j) % 4 == 0, line, None))
            if ka == kb and ka in ("unary", "client_stream") and (big or ka == "unary" or proto == "grpc"):
                # (both have a response)
                out.append(("threads", proto, (("a", ka, "ok", 60000), ("b", kb, "ok", 90000)), "none", False, line, None))
            if big or (i + j) % 6 == 0:
                out.append(("threads", proto, (("a", ka, "crash", None), ("b", kb, "ok", 90000)), "default", True, line, None))
        if proto == "connect":
            out.append(("threads", proto, (("a", "unary", "ok", 60000, True), ("b", "unary", "error", 90000)), "gzip", False, line, None))
            if big:
                out.append(("threads", proto, (("a", "unary", "ok", None, True), ("b", "unary", "error", 90000, True)), "none", False, line, None))
        # two preemptions, at function entries
        for j, (ka, kb) in enumerate(pairs()):
            if (i + 2 * j) % 5 == 0 if big else (proto == "connect" and ka == kb == "unary"):
                m = 16
                for k in range(m):
                    out.append(("threads", proto, (("a", ka, "ok", 60000), ("b", kb, "error", 90000)), "gzip", False, "call+first", (k, m)))
        for j, (ka, kb) in enumerate(pairs()):
            for behs in (("ok", "ok"), ("error", "error"), ("ok", "error")) if big else (("ok", "ok"),):
                for comp in ("default", "mixed", "clients", "codecs") if big else ("default",):
                    out.append(("tasks", proto, (("a", ka, behs[0], 60000), ("b", kb, behs[1], 90000)), comp, comp == "default", "phase", None))
            for behs in (("ok", "error"), ("crash", "ok")) if not big else (("ok", "error"), ("crash", "ok"), ("error", "error"), ("ok", "ok")):
                specs = (("a", ka, behs[0], 60000), ("b", kb, behs[1], 90000))
                if big and behs == ("ok", "error") and ka == "unary" and (i + j) % 2 == 0:
                    out.append(("tasks", proto, specs, "default", True, "all", None))
                for fine in ("mid", "down", "up"):
                    out.append(("tasks", proto, specs, "default", True, fine, None))
                    if behs[0] == "ok" and (big or fine == "mid"):
                        for comp in ("mixed", "clients", "codecs"):
                            out.append(("tasks", proto, specs, comp, False, fine, None))
            for fault in ("cancel", "deadline"):
                if not big and fault == "cancel" and (i + j) % 3:
                    continue
                tm = 100 if fault == "deadline" else None
                out.append(("tasks", proto, (("a", ka, "ok", tm), ("b", kb, "ok", None)), "default", True, "mid", fault))
                if ka != kb:
                    out.append(("tasks", proto, (("a", kb, "ok", tm), ("b", ka, "ok", None)), "default", True, "mid", fault))
        for ks in itertools.product(KINDS, repeat=3):
            specs = tuple((t, k, b, tm) for t, k, b, tm in zip("abc", ks, ("ok", "error", "ok"), (60000, 90000, None)))
            if list(ks) == sorted(ks):
                out.append(("tasks", proto, specs, "none", False, "coarse", None))
        if big and proto == "connect":
            specs = (("a", "unary", "ok", 60000), ("b", "unary", "error", 90000), ("c", "unary", "ok", None))
            out.append(("tasks", proto, specs, "none", False, "mid", None))
    return out


def bound(tier, p):
    if p[0] in ("shared", "fresh"):
        return None
    if p[0] == "threads":
        return 2 if p[5] == "call+first" else 1
    return None if p[5] == "phase" else 1


CHECK = Check(
    id="C22", body=body, scenarios=scenarios, bound=bound,
    rule="two or three calls on one client and one server. Tasks: every order of the network steps and handler steps of all calls, with cancellation or expiry of one "
         "of them anywhere, and of those in lockstep with one up to 19 passes of the event loop behind. Threads: every single preemption at every line of the library, and every pair of preemptions at function entries; native compression objects "
         "are preemptible inside. What every call gets, and its handler sees, is compared with the same call alone; the calls also differ in the compression of their responses, or come from two clients of different protocol or codec. Histories: two or three calls given the same header object and "
         "messages, in every order and overlap; every two (thorough three) calls in a process that has made none, compared with each alone",
    assumptions=("a line of Python is executed without preemption", "every call runs in a context of its own"),
)
