"""C28: a request that its caller cannot finish is broken off, never presented as complete."""
import asyncio

from pyqwest import WriteError

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire

TEXT = "cannot go on \u00e9%"
HOW = ["none", "raise", "rpc", "timeout", "exit", "encode", "type", "null", "compress"]
END = object()


class Leave(BaseException):
    pass


class BadCodec(TextCodec):
    def encode(self, message):
        if message.value == "bad":
            raise ValueError(TEXT)
        return super().encode(message)


class BadCompression(RotCompression):
    def compress(self, data):
        if b"bad" in bytes(data):
            raise ValueError(TEXT)
        return super().compress(data)


def failure(how):
    return {"raise": lambda: ValueError(TEXT), "rpc": lambda: ConnectError(Code.ABORTED, TEXT), "exit": lambda: Leave(TEXT),
            "timeout": lambda: TimeoutError(TEXT)}[how]()


class Source:
    """The caller's request iterator."""

    def __init__(self, k, how):
        self.k, self.how = k, how
        self.pulled = 0  # times it was asked
        self.failed = False

    def _next(self):
        i = self.pulled
        self.pulled += 1
        if i < self.k:
            return M(f"q{i}")
        if i > self.k or self.how == "none":
            return END
        if self.how in ("encode", "compress"):
            self.failed = True
            return M("bad")
        if self.how == "type":
            self.failed = True
            return object()
        if self.how == "null":
            self.failed = True
            return None
        self.failed = True
        raise failure(self.how)

    def __iter__(self):
        return self

    def __next__(self):
        m = self._next()
        if m is END:
            raise StopIteration
        return m

    def __aiter__(self):
        return self

    async def __anext__(self):
        m = self._next()
        if m is END:
            raise StopAsyncIteration
        return m


class Wire:
    """The exchange as the network sees it: it asks for request bytes and hands out response chunks in every order."""

    def __init__(self, ch, base, wrap):
        self.ch, self.base, self.wrap = ch, base, wrap
        self.sent = []  # request bytes
        self.clean = False  # the request was ended as a complete one
        self.broke = None
        self.out = 0  # response chunks handed out
        self.over = False
        self.started = False

    def ended(self, exc=None):
        if exc is None:
            self.clean = True
            return
        self.broke = exc
        if self.wrap and isinstance(exc, Exception):
            raise WriteError(f"Request failed: {exc}") from exc
        raise exc

    # the two sides differ only in the await
    async def apull(self, it):
        try:
            self.sent.append(bytes(await anext(it)))
        except StopAsyncIteration:
            self.ended()
        except BaseException as e:
            self.ended(e)

    def pull(self, it):
        try:
            self.sent.append(bytes(next(it)))
        except StopIteration:
            self.ended()
        except BaseException as e:
            self.ended(e)

    def more(self):
        return not self.clean and self.broke is None

    def step(self):
        """'pull', 'chunk' or 'end'"""
        n = len(self.base.chunks)
        if self.out < n:
            return self.ch.pick(["pull", "chunk"], "next") if self.more() else "chunk"
        if self.more() and self.ch.flag("request after response"):
            return "pull"
        return "end"

    def start(self):
        return self.more() and not self.ch.flag("respond")


def finish(w, trailers):
    for k, v in w.base.trailers or []:
        trailers.add(k, v)
    w.over = True


class ATransport:
    def __init__(self, w):
        self.w = w

    async def execute(self, request):
        w = self.w
        w.started = True
        tr = HTTPHeaders()
        if isinstance(request.content, bytes):
            w.sent, w.clean = [request.content], True
            it = None
        else:
            it = aiter(request.content)
            while w.start():
                await w.apull(it)

        async def content():
            while True:
                s = w.step()
                if s == "pull":
                    await w.apull(it)
                elif s == "chunk":
                    w.out += 1
                    yield w.base.chunks[w.out - 1]
                else:
                    finish(w, tr)
                    return

        return Response(status=w.base.status, headers=HTTPHeaders(w.base.headers), content=content(), trailers=tr)


class STransport:
    def __init__(self, w):
        self.w = w

    def execute_sync(self, request):
        w = self.w
        w.started = True
        tr = HTTPHeaders()
        if isinstance(request.content, bytes):
            w.sent, w.clean = [request.content], True
            it = None
        else:
            it = iter(request.content)
            while w.start():
                w.pull(it)

        def content():
            while True:
                s = w.step()
                if s == "pull":
                    w.pull(it)
                elif s == "chunk":
                    w.out += 1
                    yield w.base.chunks[w.out - 1]
                else:
                    finish(w, tr)
                    return

        return SyncResponse(status=w.base.status, headers=HTTPHeaders(w.base.headers), content=content(), trailers=tr)


def body(ch, p):
    if p[0] == "stuck":
        return stuck_body(ch, p)
    io, proto, kind, k, how, wrap, comp = p
    codec_name = "text" if how == "encode" else "proto"
    many = kind in ("client_stream", "bidi")
    res = ["r0", "r1"] if kind in ("server_stream", "bidi") else ["r0"]
    fails = ch.flag("server error")
    get = kind == "get"
    real = "unary" if get else kind
    base = wire.build_response(proto, real, codec_name, [] if fails and real in ("unary", "client_stream") else res,
                               error=Err("aborted", "server said so") if fails else None)
    w = Wire(ch, base, wrap)
    src = Source(k, how)
    cname = "x-rot" if how == "compress" else comp
    kw = {"send_compression": BadCompression() if how == "compress" else None if comp == "identity" else compression(comp)}
    tr = STransport(w) if io == "sync" else ATransport(w)
    if how == "encode":
        kw["codec"] = BadCodec()
    client = make_client(io == "sync", tr, proto, codec_name, **kw)
    mi = minfo(real, idem=IdempotencyLevel.NO_SIDE_EFFECTS) if get else minfo(real)
    out = Outcome()

    def first():
        return src._next() if how != "none" else M("q0")

    if io == "async":
        async def main(_env):
            try:
                if real == "unary":
                    out.msgs.append((await client.execute_unary(request=first(), method=mi, use_get=get)).value)
                elif kind == "client_stream":
                    out.msgs.append((await client.execute_client_stream(request=src, method=mi)).value)
                elif kind == "server_stream":
                    async for r in client.execute_server_stream(request=first(), method=mi):
                        out.msgs.append(r.value)
                else:
                    async for r in client.execute_bidi_stream(request=src, method=mi):
                        out.msgs.append(r.value)
            except BaseException as e:
                out.raised = e
        run(None, main)
    else:
        try:
            if real == "unary":
                out.msgs.append(client.execute_unary(request=first(), method=mi, use_get=get).value)
            elif kind == "client_stream":
                out.msgs.append(client.execute_client_stream(request=src, method=mi).value)
            elif kind == "server_stream":
                for r in client.execute_server_stream(request=first(), method=mi):
                    out.msgs.append(r.value)
            else:
                for r in client.execute_bidi_stream(request=src, method=mi):
                    out.msgs.append(r.value)
        except BaseException as e:
            out.raised = e
    pulled = src.pulled
    desc = lambda: f"{p} server-error={fails} sent={w.sent} clean={w.clean} broke={w.broke!r} out={w.out} over={w.over} -> {out.raised!r} {out.msgs} pulled={pulled}"
    ch.ev(len(w.sent), w.clean, repr(w.broke), w.out, w.over, type(out.raised).__name__, out.msgs)
    # what the server was given
    if how != "none":
        expect(not w.clean, "completed", desc)
    if proto == "connect" and real == "unary":
        if how != "none":
            expect(not w.started, "sent", desc)
    else:
        got = []
        for b in w.sent:
            i = 0
            while i < len(b):
                flag, n = b[i], int.from_bytes(b[i + 1: i + 5], "big")
                data = b[i + 5: i + 5 + n]
                expect(len(data) == n and flag in (0, 1), "malformed-request", desc)
                got.append(wire.dec_msg(codec_name, wire.decompress(cname, data) if flag else data))
                i += 5 + n
        good = [f"q{i}" for i in range(k)] if many else ["q0"] if how == "none" else []
        expect(got == good[: len(got)], "messages", desc)
        if w.clean or w.broke is not None:
            expect(got == good, "messages", desc)
        if many:
            expect(pulled <= k + 1, "pulled-after-failure", desc)
    # what the caller was told
    expect(out.msgs == res[: len(out.msgs)], "responses", desc)
    if w.broke is not None or (how != "none" and not w.started):
        expect(out.raised is not None, "success", desc)
        if how == "exit" and many:
            expect(isinstance(out.raised, (Leave, ConnectError)), "error", desc)
        else:
            expect(isinstance(out.raised, ConnectError), "error", desc)
            if how in ("raise", "rpc", "encode", "compress"):
                expect(TEXT in out.raised.message, "cause-lost", desc)
    elif fails:
        expect(isinstance(out.raised, ConnectError) and out.raised.code == Code.ABORTED and out.raised.message == "server said so", "error", desc)
    else:
        expect(out.raised is None and out.msgs == res, "result", desc)
    return f"{how} {'broken' if w.broke is not None else w.clean} {type(out.raised).__name__}"


def stuck_body(ch, p):
    """a call that ends while it waits for the caller's next message"""
    _, proto, kind, k, how, where, wrap = p
    base = wire.build_response(proto, kind, "proto", ["r0", "r1"] if kind == "bidi" else ["r0"])
    w = Wire(None, base, wrap)
    waiting = []

    class Stuck:
        n = 0

        def __aiter__(self):
            return self

        async def __anext__(self):
            self.n += 1
            if self.n <= k:
                return M(f"q{self.n - 1}")
            waiting.append(True)
            await asyncio.Event().wait()

    async def main(_env):
        async def pull_all(it):
            while w.more():
                await w.apull(it)

        class T:
            async def execute(self, request):
                it = aiter(request.content)
                if where == "request":
                    await pull_all(it)
                tr = HTTPHeaders()

                async def content():
                    yield base.chunks[0]
                    task = None
                    if where == "task":
                        # as transports do that send and receive at once
                        task = asyncio.ensure_future(pull_all(it))
                        try:
                            await asyncio.Event().wait()
                        finally:
                            task.cancel()
                            await asyncio.wait([task])
                            if not task.cancelled():
                                task.exception()
                    else:
                        await pull_all(it)
                    for c in base.chunks[1:]:
                        yield c
                    finish(w, tr)
                return Response(status=200, headers=HTTPHeaders(base.headers), content=content(), trailers=tr)

        client = make_client(False, T(), proto, "proto", **({"timeout_ms": 1000} if how == "deadline" else {}))
        out = Outcome()

        async def call():
            try:
                if kind == "client_stream":
                    out.msgs.append((await client.execute_client_stream(request=Stuck(), method=minfo(kind))).value)
                else:
                    async for r in client.execute_bidi_stream(request=Stuck(), method=minfo(kind)):
                        out.msgs.append(r.value)
            except BaseException as e:
                out.raised = e

        t = asyncio.ensure_future(call())
        if how == "cancel":
            while not waiting:
                await asyncio.sleep(0)
            for _ in range(ch.choose(3, "passes")):
                await asyncio.sleep(0)
            t.cancel()
        await asyncio.wait([t])
        return out

    out, _ = run(None, main)
    desc = lambda: f"{p} sent={w.sent} clean={w.clean} broke={w.broke!r} over={w.over} -> {out.raised!r} {out.msgs}"
    ch.ev(w.clean, repr(w.broke), type(out.raised).__name__)
    expect(waiting and not w.clean, "completed", desc)
    expect(isinstance(out.raised, ConnectError), "error", desc)
    expect(out.raised.code == (Code.CANCELED if how == "cancel" else Code.DEADLINE_EXCEEDED), "error", desc)
    return f"stuck {how}"


def scenarios(tier):
    out = []
    for proto in PROTOS:
        for kind in ("client_stream", "bidi"):
            for k in (0, 1, 2):
                for how in ("cancel", "deadline"):
                    for where in ("request", "response", "task"):
                        for wrap in (True, False):
                            out.append(("stuck", proto, kind, k, how, where, wrap))
    for io in ("async", "sync"):
        for proto in PROTOS:
            for kind in KINDS + (("get",) if proto == "connect" else ()):
                many = kind in ("client_stream", "bidi")
                for k in range(4 if tier == "thorough" else 3) if many else (0,):
                    for how in HOW:
                        if not many and how in ("raise", "rpc", "timeout", "exit"):
                            continue
                        for wrap in (True, False):
                            for comp in ("identity", "gzip") if how != "compress" else ("x-rot",):
                                out.append((io, proto, kind, k, how, wrap, comp))
    return out


CHECK = Check(
    id="C28", body=body, scenarios=scenarios,
    rule="request streams that break after 0..2 (thorough 3) messages in every way (iterator, codec, compression) x client x protocol x kind, every "
         "order of request reads and response chunks; calls cancelled or expired while their request stream is waited for; transports that wrap the failure and ones that pass it on",
    assumptions=("an exchange whose response is complete before the request breaks is a success",),
)
