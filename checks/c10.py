"""C10: every WSGI response is well formed and truthful."""
import importlib

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire

ERRV = Err("aborted", "from handler", [])


class Exit(BaseException):
    """Like SystemExit: not an error of the handler, and no success either."""


class FaultInput(Input):
    def __init__(self, chunks, ch, fault):
        super().__init__(chunks)
        self.ch, self.fault, self.dead = ch, fault, False

    def read(self, n=-1):
        if self.dead or (self.fault and self.ch.flag("read fails")):
            self.dead = True
            self.reads += 1
            raise OSError("connection reset")
        return super().read(n)


class Watch:
    def __init__(self, log, i):
        self.log, self.i = log, i

    def on_start_sync(self, ctx):
        self.log.append(("start", self.i))

    def on_end_sync(self, token, ctx, error):
        self.log.append(("end", self.i))


# what a handler may give by mistake
BAD = {"badmsg": "not a message", "nomsg": None,
       # and its cleanup then fails when the response is given up
       "badclose": "not a message"}


def sched_body(ch, p):
    _, proto, kind, k, end, reads, nreq, fault, version, clen, icpt = p
    streaming = kind in ("server_stream", "bidi")
    st = {"entered": 0, "cleanup": 0, "done": False, "yielded": [], "seen": [], "raised": None}
    ilog = []

    def finish():
        if end == "err":
            raise ConnectError(Code(ERRV.code), ERRV.message)
        if end == "crash":
            raise ValueError("handler bug")
        if end == "exit":
            raise Exit("handler leaves")
        st["done"] = end not in BAD

    def enter(ctx):
        st["entered"] += 1
        ctx.response_headers["x-h"] = "hv"
        ctx.response_trailers["x-t"] = "tv"

    def read(it):
        if reads == "none":
            return
        for m in it:
            st["seen"].append(m.value)
            if reads == "one":
                return

    def single(r, ctx):
        enter(ctx)
        try:
            if kind == "client_stream":
                read(r)
            else:
                st["seen"].append(r.value)
            finish()
            st["yielded"].append("p0")
            return BAD[end] if end in BAD else M("p0")
        except BaseException as e:
            st["raised"] = e
            raise
        finally:
            st["cleanup"] += 1

    def many(r, ctx):
        enter(ctx)
        try:
            if kind == "bidi":
                read(r)
            else:
                st["seen"].append(r.value)
            for i in range(k):
                st["yielded"].append(f"p{i}")
                yield M(f"p{i}")
            if end in BAD:
                st["bad"] = True
                yield BAD[end]
            finish()
        except BaseException as e:
            st["raised"] = e
            raise
        finally:
            st["cleanup"] += 1
            if end == "badclose" and "bad" in st:
                raise ValueError("cleanup fails")

    fn = many if streaming else single
    app = wsgi_app([(minfo(kind), kind, fn)], interceptors=[Watch(ilog, i) for i in range(icpt)])
    sent = [f"q{i}" for i in range(nreq)]
    req = wire.build_request(proto, kind, "proto", sent, path=mpath(kind))
    body = req.body
    if clen:
        req.headers.append(("content-length", str(len(body))))
    inp = FaultInput([body[:4], body[4:]], ch, fault)
    total = k + 3
    stop = ch.choose(total + 1, "consumer stops after")  # 0 = reads to the end
    r = wsgi_plain(app, req, ch, inp=inp, server_protocol=version, chunk_limit=stop or None,
                   catch=(Exception, Exit))
    mon = r.mon
    ch.ev("end", mon.status, len(mon.chunks), mon.trailers, st["done"])
    desc = lambda: (f"{p} stop={stop} -> {mon.status_line} {mon.headers} {mon.chunks} {mon.trailers} exc={r.exc!r} "
                    f"state={st} input dead={inp.dead} errors={r.errors[-200:]!r}")
    expect(r.exc is None or (end == "exit" and isinstance(r.exc, Exit)), "app-crashed", desc)
    if r.exc is not None:
        expect(st["cleanup"] == 1, "cleanup-not-once", desc)
        expect(mon.starts <= 1 and len(mon.chunks) <= len(st["yielded"]) and not mon.trailers, "false-success", desc)
        return "exit"
    expect(not mon.problems, "malformed-response", lambda: f"{mon.problems} {desc()}")
    expect(mon.starts == 1, "start-response", desc)
    expect(st["entered"] <= 1 and st["cleanup"] == st["entered"], "cleanup-not-once", desc)
    starts = [i for a, i in ilog if a == "start"]
    ends = [i for a, i in ilog if a == "end"]
    expect(starts == list(range(len(starts))) and ends == starts[::-1], "interceptor-hooks", desc)
    if stop and stop <= len(mon.chunks):
        return "cut"
    expect((mon.trailers is not None) == (proto == "grpc"), "trailers", desc)
    try:
        got = wire.parse_response(proto, kind, "proto", mon.resp())
    except wire.WireError as e:
        raise Violation("malformed-response", f"{e} {desc()}") from e
    if got.error is None:
        expect(st["done"], "false-success", desc)
        expect(got.msgs == st["yielded"], "success-without-messages", desc)
    elif streaming:
        expect(got.msgs == st["yielded"], "messages-lost", desc)
    if end == "crash" and isinstance(st["raised"], ValueError):
        expect("handler bug" in r.errors and "ValueError" in r.errors, "not-logged", desc)
        expect(got.error is not None and got.error.code == "unknown", "wrong-outcome", desc)
    if not inp.dead:
        want = {"ok": None, "err": ERRV.code, "crash": "unknown"}
        if end in want:
            expect((got.error.code if got.error else None) == want[end], "wrong-outcome", desc)
        else:
            expect(got.error is not None, "false-success", desc)
        expect(("x-h", "hv") in got.headers and ("x-t", "tv") in got.trailers, "metadata-lost", desc)
        if reads == "all" or kind in ("unary", "server_stream"):
            expect(st["seen"] == sent, "request-messages", desc)
        if end in ("ok", "err"):
            expect(r.errors == "", "logged-for-nothing", desc)
    return f"{got.error.code if got.error else 'ok'} {inp.dead}"


ODD = importlib.import_module("checks.c09").ODD


def odd_body(ch, p):
    _, pr, k, idem, trailers_ext, version, script = p
    todo = [o for o in ODD if o[0].startswith(f"{pr}/{k}/")]
    name, kind, req = todo[ch.choose(len(todo), "request")]
    calls = []

    def single(r, ctx):
        calls.append(1)
        return M("p")

    def cstream(it, ctx):
        calls.append(1)
        for _ in it:
            pass
        return M("p")

    def sstream(r, ctx):
        calls.append(1)
        yield M("p")

    def bidi(it, ctx):
        calls.append(1)
        for _ in it:
            pass
        yield M("p")

    fn = {"unary": single, "client_stream": cstream, "server_stream": sstream, "bidi": bidi}[kind]
    app = wsgi_app([(minfo(kind, idem=IdempotencyLevel.NO_SIDE_EFFECTS if idem else IdempotencyLevel.UNKNOWN), kind, fn)])
    r = wsgi_plain(app, req, None, trailers_ext=trailers_ext, server_protocol=version, script_name=script)
    mon = r.mon
    ch.ev("odd", name, mon.status)
    desc = lambda: f"{p} {name} {req.method} {req.path}?{req.query} {req.headers} -> {mon.status_line} {mon.headers} {mon.chunks} {mon.trailers} exc={r.exc!r}"
    expect(r.exc is None, "app-crashed", desc)
    expect(not mon.problems, "malformed-response", lambda: f"{mon.problems} {desc()}")
    expect(mon.starts == 1, "start-response", desc)
    ct = [v for n, v in mon.headers if n == "content-type"]
    expect(len(ct) <= 1, "repeated-content-type", desc)
    if ct and ct[0].startswith(("application/grpc", "application/connect+")):
        pr2 = "connect" if "connect" in ct[0] else ("grpcweb" if "grpc-web" in ct[0] else "grpc")
        cn = ct[0].rsplit("+", 1)[-1] if "+" in ct[0] else "proto"
        expect((mon.trailers is not None) == (pr2 == "grpc"), "trailers", desc)
        resp = mon.resp()
        resp.headers = [(a, wire.content_type(pr2, "bidi", cn) if a == "content-type" else v) for a, v in resp.headers]
        try:
            got = wire.parse_response(pr2, "bidi", cn, resp)
        except wire.WireError as e:
            raise Violation("malformed-response", f"{e} {desc()}") from e
        expect(got.error is not None or calls, "false-success", desc)
    else:
        expect(mon.trailers is None, "trailers", desc)
        expect(mon.status != 200 or calls, "false-success", desc)
    expect(len(calls) <= 1, "handler-runs", desc)
    return f"{mon.status}"


def body(ch, p):
    return sched_body(ch, p) if p[0] == "sched" else odd_body(ch, p)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for proto in PROTOS:
        for kind in KINDS:
            streaming = kind in ("server_stream", "bidi")
            for idem in (False, True):
                for ext in (True, False):
                    for version in ("HTTP/2", "HTTP/1.1"):
                        for script in ("", "/x"):
                            out.append(("odd", proto, kind, idem, ext, version, script))
            for end in ("ok", "err", "crash", "badmsg", "nomsg", "badclose", "exit"):
                if end == "badclose" and not streaming:
                    continue
                for k in ((0, 1, 2, 3) if big else (0, 1, 2)) if streaming else (1,):
                    for reads in ("none", "one", "all") if kind in ("client_stream", "bidi") else ("all",):
                        for nreq in ((0, 1, 2, 3) if big else (0, 1, 2)) if kind in ("client_stream", "bidi") else (1,):
                            for fault in (False, True):
                                for version in ("HTTP/2", "HTTP/1.1"):
                                    for clen in (False, True):
                                        for icpt in (0, 2):
                                            out.append(("sched", proto, kind, k, end, reads, nreq, fault, version, clen, icpt))
    return out


CHECK = Check(
    id="C10", body=body, scenarios=scenarios,
    rule="WSGI response automaton on start_response, body, trailers and close(), scripted handlers x input fault at every read x "
         "consumer stopping after every chunk x HTTP version x content length x interceptors; and a grid of malformed / unroutable requests",
    assumptions=("the WSGI server iterates the body in one thread and calls close()", "CPython reference counting closes dropped generators"),
)
