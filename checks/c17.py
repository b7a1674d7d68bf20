"""C17: response metadata belongs to the calls made in its scope."""
import asyncio

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire
from mc.vloop import run

OPS = ["enter", "exit", "unary", "unary bare", "unary error", "unary down", "client stream", "open", "open bare", "open error", "step", "step last", "abandon"]


def response(proto, kind, k, variant):
    tr = [] if variant == "bare" else [("x-call", f"t{k}")]
    err = wire.Err("not_found", "no", []) if variant == "error" else None
    msgs = ["r0", "r1"] if kind in ("server_stream", "bidi") else ["r0"]
    if err is not None:
        msgs = msgs[:-1]
    return wire.build_response(proto, kind, "proto", msgs, error=err, headers=[("x-call", f"h{k}")], trailers=tr)


class Scope:
    def __init__(self, md):
        self.md = md
        self.last, self.down = None, False
        self.want = [([], [])]  # acceptable (headers, trailers)


def view(md):
    return ([v for k, v in md.headers.allitems() if k == "x-call"], [v for k, v in md.trailers.allitems() if k == "x-call"])


def leave(md, exc):
    """Leave the scope, by an exception (which has to go on) or without."""
    e = ValueError("left") if exc else None
    got = md.__exit__(type(e) if exc else None, e, None)
    expect(not got, "exception-swallowed", lambda: f"leaving the scope returned {got!r}")


class Machine:
    """The history interpreter: `call` and friends are supplied by the sync or async driver."""

    def __init__(self):
        self.k = 0
        self.scopes = []  # entered
        self.all = []
        self.streams = []  # [iterator, scope, k, variant]
        self.next = None

    def top(self):
        return self.scopes[-1] if self.scopes else None

    def record(self, scope, k, variant, done):
        if scope is None:
            return
        if variant == "down":
            # no response: what was there may stay or go
            scope.want = scope.want + [([], [])]
            scope.down = True
        else:
            scope.last, down = k, scope.down and done
            scope.down = False
            old = scope.want if down else []
            scope.want = [([f"h{k}"], [f"t{k}"] if done and variant != "bare" else [])] + old

    def check(self, desc):
        for i, s in enumerate(self.all):
            got = view(s.md)
            expect(got in s.want, "scope-content", lambda: f"scope {i}: {got}, expected one of {s.want}; {desc()}")
            s.want = [got]


def history_body(ch, p):
    _, cio, proto, depth = p
    from connectrpc.client import ResponseMetadata
    m = Machine()
    hist = []
    desc = lambda: f"{p} {hist}"

    def serve(req):
        k, kind, variant = m.next
        if variant == "down":
            raise OSError("down")
        return response(proto, kind, k, variant)

    def enabled():
        ops = ["enter", "unary", "unary bare", "unary error", "unary down", "client stream", "open", "open bare", "open error"]
        if m.scopes:
            ops.append("exit")
        if m.streams:
            ops += ["step", "abandon"]
        if len(m.streams) > 1:
            ops.append("step last")
        return [o for o in OPS if o in ops]

    def before(op):
        if op == "enter":
            s = Scope(ResponseMetadata())
            s.md.__enter__()
            m.scopes.append(s)
            m.all.append(s)
        elif op == "exit":
            leave(m.scopes.pop().md, ch.choose(2, "with an exception"))

    def call_args(op):
        m.k += 1
        variant = op.split()[-1] if op.split()[-1] in ("bare", "error", "down") else "ok"
        kind = {"unary": "unary", "client": "client_stream", "open": "server_stream"}[op.split()[0]]
        m.next = (m.k, kind, variant)
        return m.k, kind, variant

    def after_step(s, ended):
        it, scope, k, variant, _ = s
        if ended:
            if scope is not None and scope.last == k:
                m.record(scope, k, variant, True)
            m.streams.remove(s)

    mi = {k: minfo(k) for k in KINDS}

    if cio == "sync":
        client = make_client(True, SyncLink(serve), proto)
        for _ in range(depth):
            ops = enabled()
            op = ops[ch.choose(len(ops), "op")]
            hist.append(op)
            before(op)
            if op.startswith(("unary", "client")):
                k, kind, variant = call_args(op)
                try:
                    if kind == "unary":
                        client.execute_unary(request=M("q"), method=mi[kind])
                    else:
                        client.execute_client_stream(request=iter([M("q")]), method=mi[kind])
                except ConnectError:
                    pass
                m.record(m.top(), k, variant, True)
            elif op.startswith("open"):
                k, kind, variant = call_args(op)
                it = client.execute_server_stream(request=M("q"), method=mi[kind])
                m.record(m.top(), k, variant, False)
                next(it)
                m.streams.append([it, m.top(), k, variant, 0])
            elif op.startswith("step"):
                s = m.streams[-1 if op == "step last" else 0]
                ended = False
                try:
                    next(s[0])
                except (StopIteration, ConnectError):
                    ended = True
                after_step(s, ended)
            elif op == "abandon":
                s = m.streams.pop(0)
                s[0].close()
            m.check(desc)
        for s in m.streams:
            s[0].close()
        while m.scopes:
            m.scopes.pop().md.__exit__(None, None, None)
        m.next = (99, "unary", "ok")
        client.execute_unary(request=M("q"), method=mi["unary"])
        m.check(desc)
    else:
        async def main(_env):
            client = make_client(False, AsyncLink(serve), proto)

            async def q():
                yield M("q")
            for _ in range(depth):
                ops = enabled()
                op = ops[ch.choose(len(ops), "op")]
                hist.append(op)
                before(op)
                if op.startswith(("unary", "client")):
                    k, kind, variant = call_args(op)
                    try:
                        if kind == "unary":
                            await client.execute_unary(request=M("q"), method=mi[kind])
                        else:
                            await client.execute_client_stream(request=q(), method=mi[kind])
                    except ConnectError:
                        pass
                    m.record(m.top(), k, variant, True)
                elif op.startswith("open"):
                    k, kind, variant = call_args(op)
                    it = client.execute_server_stream(request=M("q"), method=mi[kind])
                    m.record(m.top(), k, variant, False)
                    await anext(it)
                    m.streams.append([it, m.top(), k, variant, 0])
                elif op.startswith("step"):
                    s = m.streams[-1 if op == "step last" else 0]
                    ended = False
                    try:
                        await anext(s[0])
                    except (StopAsyncIteration, ConnectError):
                        ended = True
                    after_step(s, ended)
                elif op == "abandon":
                    s = m.streams.pop(0)
                    await s[0].aclose()
                m.check(desc)
            for s in m.streams:
                await s[0].aclose()
            while m.scopes:
                m.scopes.pop().md.__exit__(None, None, None)
            m.next = (99, "unary", "ok")
            await client.execute_unary(request=M("q"), method=mi["unary"])
            m.check(desc)
        run(None, main)
    ch.ev(tuple(hist))
    return f"{len(m.all)} scopes {m.k} calls"


# --------------------------------------------------------------------------
# concurrent calls


SHAPES = ["siblings", "outer", "child", "shared", "three"]


def concurrent_body(ch, p):
    _, proto, kind, shape, client_shared, variants = p
    log = []

    async def main(env):
        class T:
            async def execute(self, request):
                if not isinstance(request.content, bytes):
                    async for _ in request.content:
                        pass
                k = dict(request.headers.items())["x-k"]
                r = response(proto, kind, k, variants[int(k)])
                f = asyncio.get_running_loop().create_future()
                env.offer(f"head{k}", lambda: f.done() or f.set_result(None))
                await f
                tr = HTTPHeaders()

                async def content():
                    for i, c in enumerate(r.chunks):
                        if i == len(r.chunks) - 1:
                            g = asyncio.get_running_loop().create_future()
                            env.offer(f"tail{k}", lambda: g.done() or g.set_result(None))
                            await g
                        yield c
                    for a, b in r.trailers or []:
                        tr.add(a, b)
                return Response(status=r.status, headers=HTTPHeaders(r.headers), content=content(), trailers=tr)

        from connectrpc.client import ResponseMetadata
        mi = minfo(kind)
        client = make_client(False, T(), proto)

        async def call(k):
            c = client if client_shared else make_client(False, T(), proto)
            h = {"x-k": str(k)}
            try:
                if kind == "unary":
                    await c.execute_unary(request=M("q"), method=mi, headers=h)
                else:
                    async for _ in c.execute_server_stream(request=M("q"), method=mi, headers=h):
                        pass
            except ConnectError as e:
                log.append((k, e.code.value))

        def check(md, k, where):
            got = view(md)
            want = ([f"h{k}"], [f"t{k}"] if variants[k] != "bare" else [])
            expect(got == want, "scope-content", lambda: f"{p} {where}: {got}, expected {want} {ch.log}")

        async def scoped(k):
            with ResponseMetadata() as md:
                await call(k)
                check(md, k, f"task {k}")
            return md

        if shape == "siblings":
            mds = await asyncio.gather(scoped(0), scoped(1))
            for k, md in enumerate(mds):
                check(md, k, f"after {k}")
        elif shape == "three":
            mds = await asyncio.gather(scoped(0), scoped(1), scoped(2))
            for k, md in enumerate(mds):
                check(md, k, f"after {k}")
        elif shape == "outer":
            # one call outside of any scope, next to one inside
            a, b = await asyncio.gather(call(0), scoped(1))
            check(b, 1, "after")
        elif shape == "child":
            # tasks started in a scope have scopes of their own
            with ResponseMetadata() as outer:
                t = asyncio.ensure_future(scoped(1))
                u = asyncio.ensure_future(scoped(2))
                await call(0)
                check(outer, 0, "outer")
                await asyncio.gather(t, u)
                check(outer, 0, "outer at end")
                check(t.result(), 1, "inner")
        else:
            # two calls in one scope at once: only theirs, never the third's
            async def both():
                with ResponseMetadata() as md:
                    await asyncio.gather(call(0), call(1))
                return md
            md, other = await asyncio.gather(both(), scoped(2))
            check(other, 2, "other")
            hs, ts = view(md)
            expect(len(hs) == 1 and hs[0] in ("h0", "h1") and set(ts) <= {"t0", "t1"}, "scope-content", lambda: f"{p} shared scope: {hs} {ts} {ch.log}")
        return "ok"

    env = Env(ch, early=False)
    res, info = run(ch, main, env=env)
    return res


# --------------------------------------------------------------------------
# every way a response can fail: its headers are the scope's, whatever they were before

ODD = ["503 html", "404 html", "429 json", "200 html", "200 other codec", "200 unknown encoding", "200 undecodable", "200 too large", "302 empty",
       "200 end only", "200 two", "500 nothing"]


def odd_response(proto, kind, what):
    r = response(proto, kind, 2, "bare")
    drop = lambda *names: [(k, v) for k, v in r.headers if k.lower() not in names]
    if what == "200 end only":
        return wire.build_response(proto, kind, "proto", [], headers=[("x-call", "h2")])
    if what == "200 two":
        return wire.build_response(proto, kind, "proto", ["r0", "r1"], headers=[("x-call", "h2")])
    status, kind2 = what.split(" ", 1)
    r.status = int(status)
    if kind2 == "nothing":
        r.headers, r.chunks, r.trailers = [], [], []
        return r
    if kind2 in ("html", "empty"):
        r.headers = drop("content-type") + ([("content-type", "text/html")] if kind2 == "html" else [])
        r.chunks = [b"<p>no</p>"] if kind2 == "html" else []
    elif kind2 == "json":
        r.headers = drop("content-type") + [("content-type", "application/json")]
        r.chunks = [b"{}"]
    elif kind2 == "other codec":
        r.headers = drop("content-type") + [("content-type", wire.content_type(proto, kind, "json"))]
    elif kind2 == "unknown encoding":
        name = {"connect": "content-encoding" if kind == "unary" else "connect-content-encoding"}.get(proto, "grpc-encoding")
        r.headers = drop(name) + [(name, "nope")]
    elif kind2 == "undecodable":
        r.chunks = [c.replace(b"r0", b"\xff\xff") for c in r.chunks]
    return r


def odd_body(ch, p):
    _, cio, proto, kind, what = p
    if what == "200 end only" and proto == "connect" and kind == "unary":
        return "skip"
    if what == "200 two" and (kind not in ("unary", "client_stream") or (proto == "connect" and kind == "unary")):
        return "skip"
    from connectrpc.client import ResponseMetadata
    before = ch.choose(3, "earlier call")  # none, with trailers, without
    todo = []

    def serve(req):
        return todo.pop(0)

    kw = {"read_max_bytes": 3} if what == "200 too large" else {}
    mi = minfo(kind)
    md = ResponseMetadata()
    client = make_client(cio == "sync", (SyncLink if cio == "sync" else AsyncLink)(serve), proto, **kw)
    codes = []

    def plan():
        if before:
            todo.append(response(proto, kind, 1, "ok" if before == 1 else "bare"))
        todo.append(odd_response(proto, kind, what))

    plan()
    calls = len(todo)
    if cio == "sync":
        with md:
            for _ in range(calls):
                try:
                    if kind == "unary":
                        client.execute_unary(request=M("q"), method=mi)
                    elif kind == "client_stream":
                        client.execute_client_stream(request=iter([M("q")]), method=mi)
                    elif kind == "server_stream":
                        list(client.execute_server_stream(request=M("q"), method=mi))
                    else:
                        list(client.execute_bidi_stream(request=iter([M("q")]), method=mi))
                    codes.append("ok")
                except ConnectError as e:
                    codes.append(e.code.value)
    else:
        async def main(_env):
            async def q():
                yield M("q")
            with md:
                for _ in range(calls):
                    try:
                        if kind == "unary":
                            await client.execute_unary(request=M("q"), method=mi)
                        elif kind == "client_stream":
                            await client.execute_client_stream(request=q(), method=mi)
                        elif kind == "server_stream":
                            [m async for m in client.execute_server_stream(request=M("q"), method=mi)]
                        else:
                            [m async for m in client.execute_bidi_stream(request=q(), method=mi)]
                        codes.append("ok")
                    except ConnectError as e:
                        codes.append(e.code.value)
        run(None, main)
    got = view(md)
    ch.ev(codes, got)
    expect(got == ([] if what == "500 nothing" else ["h2"], []), "scope-content", lambda: f"{p} earlier={before}: calls ended {codes}, scope has {got}, expected the headers of the last response")
    return codes[-1]


# --------------------------------------------------------------------------
# scopes left in another context than they were entered in, as when a generator holding one is closed elsewhere


def elsewhere_body(ch, p):
    _, cio, proto, kind = p
    import contextvars
    from connectrpc.client import ResponseMetadata
    outer, own, exc = ch.choose(2, "scope around"), ch.choose(2, "scope there"), ch.choose(2, "with an exception")
    n = [0]
    mi = minfo(kind)

    def serve(req):
        n[0] += 1
        return response(proto, kind, n[0], "ok")

    client = make_client(cio == "sync", (SyncLink if cio == "sync" else AsyncLink)(serve), proto)

    def call():
        if cio == "sync":
            if kind == "unary":
                client.execute_unary(request=M("q"), method=mi)
            else:
                list(client.execute_server_stream(request=M("q"), method=mi))
        else:
            async def main(_env):
                if kind == "unary":
                    await client.execute_unary(request=M("q"), method=mi)
                else:
                    [m async for m in client.execute_server_stream(request=M("q"), method=mi)]
            run(None, main)

    here, there = contextvars.Context(), contextvars.Context()
    a, b, c = ResponseMetadata(), ResponseMetadata(), ResponseMetadata()
    if outer:
        here.run(a.__enter__)
    here.run(b.__enter__)
    here.run(call)  # 1
    if own:
        there.run(c.__enter__)
    there.run(leave, b, exc)
    there.run(call)  # 2
    want = {"a": ([], []), "b": (["h1"], ["t1"]), "c": (["h2"], ["t2"]) if own else ([], [])}
    got = {"a": view(a), "b": view(b), "c": view(c)}
    ch.ev(got)
    expect(got == want, "scope-content", lambda: f"{p} outer={outer} own={own}: {got}, expected {want}")
    if own:
        there.run(leave, c, exc)
        there.run(call)  # 3
        got = {"a": view(a), "b": view(b), "c": view(c)}
        expect(got == want, "scope-content", lambda: f"{p} outer={outer} after all: {got}, expected {want}")
    return "ok"


def body(ch, p):
    if p[0] == "elsewhere":
        return elsewhere_body(ch, p)
    if p[0] == "odd":
        return odd_body(ch, p)
    return history_body(ch, p) if p[0] == "history" else concurrent_body(ch, p)


def scenarios(tier):
    out = []
    for cio in ("sync", "async"):
        for proto in PROTOS:
            out.append(("history", cio, proto, 4 if tier == "quick" else 5))
            for kind in ("unary", "server_stream"):
                out.append(("elsewhere", cio, proto, kind))
            for kind in KINDS:
                for what in ODD:
                    out.append(("odd", cio, proto, kind, what))
    vs = [("ok", "ok", "ok"), ("ok", "bare", "ok"), ("error", "ok", "bare")]
    for proto in PROTOS:
        for kind in ("unary", "server_stream"):
            for shape in SHAPES:
                for shared in (True, False):
                    for v in vs:
                        out.append(("concurrent", proto, kind, shape, shared, v))
    return out


CHECK = Check(
    id="C17", body=body, scenarios=scenarios,
    rule="all histories of scope entries and exits, unary, client-streaming and server-streaming calls (with and without trailers, failing, "
         "without response), stream steps and abandonment up to depth four (thorough five), sync and async; all interleavings of response "
         "heads and tails of up to three concurrent calls in sibling, nested, shared and absent scopes; every way a response can be refused; scopes left by an exception, "
         "and in another context than they were entered in",
    assumptions=("a stream belongs to the scope in which its first message is asked for", "concurrent calls in one scope are not told apart"),
)
