"""C24: streams are processed incrementally."""
import asyncio
import itertools

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire
from mc.vloop import Deadlock, run

# ---------------------------------------------------------------------------
# interceptors through which everything must stay incremental


class MetaA:
    async def on_start(self, ctx):
        return None

    async def on_end(self, token, ctx, error):
        pass


class WrapA:
    async def intercept_client_stream(self, call_next, request, ctx):
        async def reqs():
            async for m in request:
                yield m
        return await call_next(reqs(), ctx)

    async def intercept_server_stream(self, call_next, request, ctx):
        async for m in call_next(request, ctx):
            yield m

    async def intercept_bidi_stream(self, call_next, request, ctx):
        async def reqs():
            async for m in request:
                yield m
        async for m in call_next(reqs(), ctx):
            yield m


class MetaS:
    def on_start_sync(self, ctx):
        return None

    def on_end_sync(self, token, ctx, error):
        pass


class WrapS:
    def intercept_client_stream_sync(self, call_next, request, ctx):
        return call_next((m for m in request), ctx)

    def intercept_server_stream_sync(self, call_next, request, ctx):
        yield from call_next(request, ctx)

    def intercept_bidi_stream_sync(self, call_next, request, ctx):
        yield from call_next((m for m in request), ctx)


def icpt(mode, sync):
    one = {"none": [], "meta": [MetaS() if sync else MetaA()], "wrap": [WrapS() if sync else WrapA()]}
    return one["meta"] + one["wrap"] if mode == "both" else one[mode]


# ---------------------------------------------------------------------------
# A: servers


def chunked(bodies, layout):
    """Chunks, and for every message the number of chunks needed to have it."""
    if layout == "per":
        return list(bodies), list(range(1, len(bodies) + 1))
    if layout == "split":
        out, need = [], []
        for b in bodies:
            out += [b[:3], b[3:]]
            need.append(len(out))
        return out, need
    if layout == "straddle":  # the head of the next message arrives with the previous one
        data, need, out = b"".join(bodies), [], []
        ends = list(itertools.accumulate(len(b) for b in bodies))
        cuts = [0] + [min(e + 2, len(data)) for e in ends[:-1]] + [len(data)]
        for i in range(len(cuts) - 1):
            out.append(data[cuts[i]:cuts[i + 1]])
            need.append(i + 1)
        return [c for c in out if c], need
    out, need = [], []  # pairs
    for i in range(0, len(bodies), 2):
        out.append(b"".join(bodies[i:i + 2]))
        need += [len(out)] * len(bodies[i:i + 2])
    return out, need


def body_server(ch, p):
    _, side, proto, kind, layout, mode, depth, nmsg = p
    alpha = {"client_stream": "RHTE", "server_stream": "SHTE", "bidi": "RSHTE"}[kind]
    # the program is chosen step by step; X ends it
    prog = []
    while len(prog) < depth:
        s = ch.pick(["X"] + list(alpha), "step")
        if s == "X":
            break
        prog.append(s)
        if s == "E":
            break
    prog = "".join(prog)
    n = ch.choose(nmsg + 1, "messages") if kind in ("client_stream", "bidi") else 1
    msgs = [f"m{i}" for i in range(n)]
    req = wire.build_request(proto, kind, "proto", msgs, path=mpath(kind))
    envs = []
    if n:
        data = req.body
        while data:
            size = 5 + int.from_bytes(data[1:5], "big")
            envs.append(data[:size])
            data = data[size:]
    chunks, need = chunked(envs, layout)
    req.chunks = chunks
    ctxinfo = {"recv": 0, "asked": 0, "sent": 0, "yielded": 0, "resumed": 0, "started": None, "got": [], "ended": False}
    L = ctxinfo
    probs = []
    hset, tset = [], []
    before_first = []
    is_single = kind == "server_stream"

    def allowed():
        if is_single:
            return 10 ** 6
        if L["ended"]:
            return 10 ** 6
        j = L["asked"]
        if j == 0:
            return 0
        return need[j - 1] if j <= n else 10 ** 6

    def on_recv():
        L["recv"] += 1
        if L["recv"] > allowed():
            probs.append(("reads-ahead", f"read {L['recv']} chunks when {L['asked']} messages were asked for"))

    def do(s, ctx):
        if s == "H":
            k = f"x-h{len(hset)}"
            hset.append(k)
            ctx.response_headers.add(k, "v")
        elif s == "T":
            k = f"x-t{len(tset)}"
            tset.append(k)
            ctx.response_trailers.add(k, "v")
        elif s == "E":
            L["ended"] = True
            raise ConnectError(Code.ABORTED, "stop")

    def before_yield():
        if not L["yielded"]:
            before_first.extend(hset)
            if L["started"] is not None:
                probs.append(("headers-too-early", "response headers sent before the first message"))
        L["yielded"] += 1

    def after_yield():
        L["resumed"] += 1
        if L["sent"] < L["yielded"]:
            probs.append(("not-sent-before-next", f"asked for the next response when {L['sent']} of {L['yielded']} are sent"))

    def ask():
        L["asked"] += 1

    def got(m):
        L["got"].append(m.value if m is not None else None)

    if side == "asgi":
        async def step(s, it, ctx):
            if s == "R":
                ask()
                got(await anext(it, None))
            else:
                do(s, ctx)

        async def single(r, ctx):
            for s in prog:
                await step(s, r.__aiter__(), ctx)
            L["ended"] = True
            return M("r0")

        async def many(r, ctx):
            it = r.__aiter__() if kind == "bidi" else None
            for s in prog:
                if s == "S":
                    before_yield()
                    yield M(f"r{L['yielded'] - 1}")
                    after_yield()
                else:
                    await step(s, it, ctx)
            L["ended"] = True
        fn = single if kind == "client_stream" else many
        app = asgi_app([(minfo(kind), kind, fn)], interceptors=icpt(mode, False))

        async def main(env):
            env.early_ok = {"chunk", "drain"}
            g = GatedServer(env, req, ch, gate_send=True, tail_empty=not chunks)
            real_recv, real_send = g.receive, g.send

            async def receive():
                m = await real_recv()
                if m["type"] == "http.request":
                    on_recv()
                return m

            async def send(m):
                if m["type"] == "http.response.start" and L["started"] is None:
                    L["started"] = [k.decode() for k, _ in m["headers"]]
                await real_send(m)
                if m["type"] == "http.response.body" and m.get("body"):
                    L["sent"] = count_msgs(g.mon.chunks)
            await app(asgi_scope(req), receive, send)
            return g
        g, info = run(ch, main, early=True)
        resp, mon = g.mon.resp(), g.mon
    else:
        def step_s(s, it, ctx):
            if s == "R":
                ask()
                got(next(it, None))
            else:
                do(s, ctx)

        def single_s(r, ctx):
            it = iter(r)
            for s in prog:
                step_s(s, it, ctx)
            L["ended"] = True
            return M("r0")

        def many_s(r, ctx):
            it = iter(r) if kind == "bidi" else None
            for s in prog:
                if s == "S":
                    before_yield()
                    yield M(f"r{L['yielded'] - 1}")
                    after_yield()
                else:
                    step_s(s, it, ctx)
            L["ended"] = True
        fn = single_s if kind == "client_stream" else many_s
        app = wsgi_app([(minfo(kind), kind, fn)], interceptors=icpt(mode, True))
        inp = Input(req.chunks)
        real_read = inp.read

        def read(*a):
            b = real_read(*a)
            if b:
                on_recv()
            return b
        inp.read = read
        mon = WSGIMonitor(ch)
        oc, osr = mon.on_chunk, mon.start_response

        def on_chunk(b):
            oc(b)
            L["sent"] = count_msgs(mon.chunks)

        def sr(status, headers, exc_info=None):
            if L["started"] is None:
                L["started"] = [k.lower() for k, _ in headers]
            return osr(status, headers, exc_info)
        env = wsgi_environ(req, inp, send_trailers=mon.send_trailers)
        it = app(env, sr)
        for b in it:
            on_chunk(b)
        if hasattr(it, "close"):
            it.close()
        resp = mon.resp()
    ch.ev(prog, n, L["got"], L["sent"])
    desc = lambda: f"{p} handler {prog or 'empty'}, {n} messages: {probs} {L} {mon.problems}"
    expect(not mon.problems, "malformed-response", desc)
    for k, _ in probs:
        expect(False, k, desc)
    pr = wire.parse_response(proto, kind, "proto", resp)
    nS = prog.count("S") if kind != "client_stream" else (0 if "E" in prog else 1)
    expect([m for m in pr.msgs] == [f"r{i}" for i in range(nS)], "wrong-messages", desc)
    expect((pr.error.code if pr.error else None) == ("aborted" if "E" in prog else None), "wrong-outcome", desc)
    if kind in ("client_stream", "bidi"):
        r = prog.count("R")
        expect(L["got"] == (msgs + [None] * r)[:r], "wrong-request", desc)
    need_h = before_first if nS and kind != "client_stream" else hset
    expect(all(h in L["started"] for h in need_h), "headers-lost", desc)
    expect(all(t in [k.lower() for k, _ in pr.trailers] for t in tset), "trailers-lost", desc)
    return f"{side} {kind} {len(prog)}"


def count_msgs(chunks):
    envs, _ = wire.split_envs(b"".join(chunks))
    return sum(1 for f, _ in envs if not f & 0x82)


# ---------------------------------------------------------------------------
# B: clients; the transport runs a program of P (ask for a request message), D (deliver a response message)


def body_client(ch, p):
    _, io, proto, kind, layout, mode, depth, nmsg = p
    alpha = "PD" if kind == "bidi" else ("P" if kind == "client_stream" else "D")
    prog = []
    while len(prog) < depth:
        s = ch.pick(["X"] + list(alpha), "step")
        if s == "X":
            break
        prog.append(s)
    head = ch.choose(len(prog) + 1, "headers after")  # where in the program the response headers come
    n = ch.choose(nmsg + 1, "messages") if kind in ("client_stream", "bidi") else 1
    # does the response wait for the end of the request?
    D = prog.count("D") if kind in ("bidi", "server_stream") else 1
    msgs = [f"r{i}" for i in range(D)]
    resp = wire.build_response(proto, kind, "proto", msgs)
    data = b"".join(resp.chunks)
    envs = []
    while data:
        size = 5 + int.from_bytes(data[1:5], "big")
        envs.append(data[:size])
        data = data[size:]
    tail = envs[D:]
    S = {"pulled": 0, "asked": 0, "delivered": 0, "got": [], "wants": 0, "seen": []}
    probs = []

    def pulled():
        S["pulled"] += 1
        if S["pulled"] > S["asked"]:
            probs.append(("takes-early", f"{S['pulled']} request messages taken when the transport asked for {S['asked']}"))

    cache = {}

    def pieces(i):
        if i not in cache:
            cache[i] = [envs[i]] if layout == "per" else [envs[i][:3], envs[i][3:]]
        return cache[i]

    def about_to_read():
        # everything delivered so far has been handed over
        if len(S["got"]) < S["delivered"]:
            probs.append(("not-handed-over", f"asked for more when {len(S['got'])} of {S['delivered']} messages are handed over"))

    def on_msg(m):
        S["got"].append(m)
    # client_stream: single response comes at the end, so it is delivered by the tail
    rest = prog[head:]
    pre = prog[:head]
    if "D" in pre:
        raise Prune  # nothing can be delivered before the headers
    if io == "async":
        async def reqs():
            for i in range(n):
                pulled()
                yield M(f"m{i}")

        async def ask(it):
            S["asked"] += 1
            b = await anext(it, None)
            if b is not None:
                S["seen"] += wire_msgs(bytes(b))

        class T:
            async def execute(self, request):
                it = request.content.__aiter__() if not isinstance(request.content, bytes) else None
                tr = HTTPHeaders()
                for _ in pre:
                    await ask(it)

                async def content():
                    i = 0
                    for s in rest:
                        if s == "P":
                            await ask(it)
                        else:
                            for part in pieces(i):
                                about_to_read()
                                if part is pieces(i)[-1]:
                                    S["delivered"] += 1
                                yield part
                            i += 1
                    if kind == "client_stream":
                        yield envs[0]
                    for t in tail:
                        yield t
                    for k, v in resp.trailers or []:
                        tr.add(k, v)
                return Response(status=resp.status, headers=HTTPHeaders(resp.headers), content=content(), trailers=tr)
        client = make_client(False, T(), proto, interceptors=icpt(mode, False), send_compression=None)

        async def main(_env):
            return await acall(client, kind, ["m0"], req_iter=reqs() if kind != "server_stream" else None, on_msg=on_msg)
        out, info = run(None, main)
    else:
        def reqs_s():
            for i in range(n):
                pulled()
                yield M(f"m{i}")

        def ask_s(it):
            S["asked"] += 1
            b = next(it, None)
            if b is not None:
                S["seen"] += wire_msgs(bytes(b))
        class TS:
            def execute_sync(self, request):
                it = iter(request.content) if not isinstance(request.content, bytes) else None
                tr = HTTPHeaders()
                for _ in pre:
                    ask_s(it)

                def content():
                    i = 0
                    for s in rest:
                        if s == "P":
                            ask_s(it)
                        else:
                            for part in pieces(i):
                                about_to_read()
                                if part is pieces(i)[-1]:
                                    S["delivered"] += 1
                                yield part
                            i += 1
                    if kind == "client_stream":
                        yield envs[0]
                    yield from tail
                    for k, v in resp.trailers or []:
                        tr.add(k, v)
                return SyncResponse(status=resp.status, headers=HTTPHeaders(resp.headers), content=content(), trailers=tr)
        client = make_client(True, TS(), proto, interceptors=icpt(mode, True), send_compression=None)
        out = scall(client, kind, ["m0"], req_iter=reqs_s() if kind != "server_stream" else None, on_msg=on_msg)
    prog = "".join(prog)
    ch.ev(prog, head, n, out.msgs, S["seen"])
    desc = lambda: f"{p} transport {prog or 'empty'} headers@{head}, {n} messages: {probs} {S} {out}"
    for k, _ in probs:
        expect(False, k, desc)
    expect(out.raised is None and out.msgs == msgs, "wrong-messages", desc)
    if kind != "server_stream":
        asked = min(prog.count("P"), n)
        expect(S["pulled"] == asked and S["seen"] == [f"m{i}" for i in range(asked)], "wrong-request", desc)
    return f"{io} {kind} {len(prog)}"


def wire_msgs(b):
    envs, rest = wire.split_envs(b)
    assert not rest
    return [wire.dec_msg("proto", d) for _, d in envs]


# ---------------------------------------------------------------------------
# C: dialogs; client and server take turns in every order, over a full-duplex link


class Duplex:
    """Async transport in front of an ASGI application. Request chunks go to the server when it asks (lazy) or as soon as the
    client has them (eager); response chunks come back as they are sent."""

    def __init__(self, app, eager, ch=None):
        self.app, self.eager, self.ch = app, eager, ch
        self.exc = None

    async def execute(self, request):
        loop = asyncio.get_running_loop()
        req = req_from_http(request, [])
        it = request.content.__aiter__()
        up, down = asyncio.Queue(), asyncio.Queue()
        started = loop.create_future()
        tr = HTTPHeaders()
        mon = self.mon = ASGIMonitor(self.ch)

        async def pump():
            async for c in it:
                up.put_nowait(bytes(c))
            up.put_nowait(None)
        ptask = loop.create_task(pump()) if self.eager else None

        async def receive():
            if self.eager:
                b = await up.get()
            else:
                b = await anext(it, None)
                b = bytes(b) if b is not None else None
            if b is None:
                return {"type": "http.request", "body": b"", "more_body": False}
            return {"type": "http.request", "body": b, "more_body": True}

        async def send(m):
            mon.on_send(m)
            if m["type"] == "http.response.start":
                started.set_result(None)
            elif m["type"] == "http.response.body":
                if m.get("body"):
                    down.put_nowait(bytes(m["body"]))
            if mon.complete:
                down.put_nowait(None)

        async def serve():
            try:
                await self.app(asgi_scope(req), receive, send)
            except Exception as e:
                self.exc = e
            if not started.done():
                started.set_result(None)
            down.put_nowait(None)
        stask = loop.create_task(serve())
        await started

        async def content():
            try:
                while (b := await down.get()) is not None:
                    yield b
                for k, v in mon.trailers or []:
                    tr.add(k, v)
            finally:
                for t in (ptask, stask):
                    if t is not None:
                        t.cancel()
        return Response(status=mon.status or 500, headers=HTTPHeaders(mon.headers), content=content(), trailers=tr)


class SyncDuplex:
    """The same for WSGI: everything happens in one thread, so data moves only when it is asked for."""

    def __init__(self, app, ch=None):
        self.app, self.ch = app, ch

    def execute_sync(self, request):
        req = req_from_http(request, [])
        it = iter(request.content)
        mon = self.mon = WSGIMonitor(self.ch)

        class In:
            def read(self, n=-1):
                return bytes(next(it, b""))
        tr = HTTPHeaders()
        body = self.app(wsgi_environ(req, In(), send_trailers=mon.send_trailers), mon.start_response)

        def content():
            for b in body:
                mon.on_chunk(b)
                if b:
                    yield b
            for k, v in mon.trailers or []:
                tr.add(k, v)
        return SyncResponse(status=mon.status, headers=HTTPHeaders(mon.headers), content=content(), trailers=tr)


def body_dialog(ch, p):
    _, link, proto, mode, depth = p
    word = ""
    while len(word) < depth:
        s = ch.pick(["", "c", "s"], "turn")
        if not s:
            break
        word += s
    # who ends first: the client half-closes, or the server returns while the client could still send
    last = ch.pick(["client", "server"], "ends first")
    log = []
    if link == "async":
        eager = ch.flag("eager transport")

        async def handler(reqs, ctx):
            for i, s in enumerate(word):
                if s == "c":
                    m = await anext(reqs)
                    log.append(("srv got", m.value))
                else:
                    log.append(("srv sends", i))
                    yield M(f"s{i}")
            if last == "client":
                assert await anext(reqs, None) is None
                log.append(("srv eof", len(word)))
        app = asgi_app([(minfo("bidi"), "bidi", handler)], interceptors=icpt(mode, False))
        tr = Duplex(app, eager, ch)
        client = make_client(False, tr, proto, interceptors=icpt(mode, False), send_compression=None)
        received = []

        async def main(env):
            turn = asyncio.Condition()

            async def reqs():
                for i, s in enumerate(word):
                    if s == "c":
                        async with turn:
                            await turn.wait_for(lambda: len(received) >= word[:i].count("s"))
                        log.append(("cli sends", i))
                        yield M(f"c{i}")
                async with turn:
                    await turn.wait_for(lambda: len(received) >= word.count("s"))
                if last == "server":
                    await asyncio.get_running_loop().create_future()
            async for m in client.execute_bidi_stream(request=reqs(), method=minfo("bidi")):
                async with turn:
                    received.append(m.value)
                    turn.notify_all()
            return None
        err = None
        try:
            run(ch, main)
        except Deadlock:
            err = "deadlock"
        except Exception as e:
            err = e
    else:
        received = []

        def handler_s(reqs, ctx):
            for i, s in enumerate(word):
                if s == "c":
                    log.append(("srv got", next(reqs).value))
                else:
                    log.append(("srv sends", i))
                    yield M(f"s{i}")
            if last == "client":
                assert next(reqs, None) is None
                log.append(("srv eof", len(word)))
        app = wsgi_app([(minfo("bidi"), "bidi", handler_s)], interceptors=icpt(mode, True))
        client = make_client(True, SyncDuplex(app, ch), proto, interceptors=icpt(mode, True), send_compression=None)

        def reqs_s():
            for i, s in enumerate(word):
                if s == "c":
                    if len(received) < word[:i].count("s"):
                        raise DialogStuck
                    log.append(("cli sends", i))
                    yield M(f"c{i}")
            if len(received) < word.count("s") or last == "server":
                raise DialogStuck
        err = None
        try:
            for m in client.execute_bidi_stream(request=reqs_s(), method=minfo("bidi")):
                received.append(m.value)
        except Exception as e:
            err = "deadlock" if isinstance(e.__cause__, DialogStuck) or isinstance(e, DialogStuck) or "DialogStuck" in str(e) else e
    ch.ev(word, last, received)
    desc = lambda: f"{p} dialog {word or 'empty'}, {last} ends first: {err!r} received={received} {log}"
    expect(err != "deadlock", "dialog-stuck", desc)
    expect(err is None, "dialog-fails", desc)
    expect(received == [f"s{i}" for i, s in enumerate(word) if s == "s"], "wrong-messages", desc)
    expect([v for k, v in log if k == "srv got"] == [f"c{i}" for i, s in enumerate(word) if s == "c"], "wrong-request", desc)
    return f"dialog {link} {len(word)}"


class DialogStuck(BaseException):
    pass


def body(ch, p):
    return {"server": body_server, "client": body_client, "dialog": body_dialog}[p[0]](ch, p)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for proto in PROTOS:
        for mode in ("none", "meta", "wrap") + (("both",) if big else ()):
            for kind in ("client_stream", "server_stream", "bidi"):
                for layout in ("per", "pair", "split", "straddle"):
                    if kind == "server_stream" and layout != "per":
                        continue
                    out.append(("server", "wsgi", proto, kind, layout, mode, 5 if big else 4, 3))
                    if kind == "server_stream":
                        out.append(("server", "asgi", proto, kind, layout, mode, 5 if big else 4, 1))
                    elif big:
                        out.append(("server", "asgi", proto, kind, layout, mode, 4, 3 if layout in ("per", "pair") else 2))
                    elif mode != "meta" or kind == "bidi" and layout == "per":
                        out.append(("server", "asgi", proto, kind, layout, mode, 3 if kind == "bidi" else 4, 2))
                for layout in ("per", "split"):
                    for io in ("async", "sync"):
                        out.append(("client", io, proto, kind, layout, mode, 6 + (3 if big else 0), 3))
            for link in ("async", "sync"):
                out.append(("dialog", link, proto, mode, 8 + (3 if big else 0)))
    return out


def bound(tier, p):
    if p[0] == "server" and p[1] == "asgi":
        return 2 if tier == "thorough" and p[3] == "server_stream" else 1
    return None


CHECK = Check(
    id="C24", body=body, scenarios=scenarios, bound=bound,
    rule="every handler program over receive / send / set header / set trailer / raise up to the depth, on both servers, with every early arrival of chunks and "
         "late completion of sends up to the bound; every transport program over ask / deliver on both clients; every dialog of client and server turns up to the "
         "depth over a full-duplex link, lazy and eager; the order of observable events against the model",
    assumptions=("a single-message request may be read completely before the handler runs",),
)
