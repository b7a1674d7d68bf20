"""C26: automatic instrumentation. Every history runs in a process forked from one that never imported connectrpc.client or connectrpc.server."""
import asyncio
import json
import logging
import os
import sys
import traceback

# everything the library needs, but not the instrumented modules
import opentelemetry.sdk.metrics
import protobuf.wkt
import pyqwest
from opentelemetry import trace as otrace
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
import connectrpc_otel

from mc.core import Check, HarnessError, Prune, Violation

OPS = ["instrument A", "instrument B", "uninstrument", "import client", "import server"]


class Spans(SpanProcessor):
    def __init__(self):
        self.n = []

    def on_end(self, span):
        if span.instrumentation_scope.name == "connectrpc-otel":
            self.n.append(span.kind.name)


def provider():
    tp = TracerProvider(shutdown_on_exit=False)
    sp = Spans()
    tp.add_span_processor(sp)
    return tp, sp


def interceptor_forms(sync, tele, log):
    """name -> (interceptors argument or None to leave it out, explicit telemetry?)"""
    class Log:
        if sync:
            def on_start_sync(self, ctx):
                log.append(otrace.get_current_span().get_span_context().is_valid)

            def on_end_sync(self, token, ctx, error):
                pass
        else:
            async def on_start(self, ctx):
                log.append(otrace.get_current_span().get_span_context().is_valid)

            async def on_end(self, token, ctx, error):
                pass

    class Derived(connectrpc_otel.OpenTelemetryInterceptor):
        pass

    def ot(client, cls=connectrpc_otel.OpenTelemetryInterceptor):
        return cls(tracer_provider=tele[0], client=client)
    return {
        "none given": (lambda c: None, False, 0),
        "empty": (lambda c: [], False, 0),
        "log": (lambda c: [Log()], False, 1),
        "log tuple": (lambda c: (Log(),), False, 1),
        "log twice": (lambda c: [Log()] * 2, False, 2),
        "log iterator": (lambda c: iter([Log(), Log()]), False, 2),
        "explicit": (lambda c: [ot(c)], True, 0),
        "explicit last": (lambda c: (Log(), ot(c)), True, 1),
        "explicit iterator": (lambda c: iter([ot(c), Log()]), True, 1),
        "explicit derived": (lambda c: [ot(c, Derived)], True, 0),
    }


class Problem(Exception):
    def __init__(self, key, msg):
        super().__init__(key, msg)


class Child:
    def __init__(self, forms):
        logging.disable(logging.CRITICAL)
        self.forms = forms
        self.prov = {"A": provider(), "B": provider()}
        self.explicit = provider()
        self.mp = MeterProvider([InMemoryMetricReader()], shutdown_on_exit=False)
        self.on = None
        self.imported = set()
        self.loop = asyncio.new_event_loop()
        from connectrpc.method import IdempotencyLevel, MethodInfo
        E = protobuf.wkt.Empty
        self.mi = MethodInfo(name="M", service_name="s.S", input=E, output=E, idempotency_level=IdempotencyLevel.UNKNOWN)

    def do(self, op):
        inst = connectrpc_otel.ConnectInstrumentor()
        if op.startswith("instrument"):
            which = op[-1]
            inst.instrument(tracer_provider=self.prov[which][0], meter_provider=self.mp)
            if self.on is None:
                self.on = which
        elif op == "uninstrument":
            inst.uninstrument()
            self.on = None
        else:
            mod = op.split()[1]
            __import__(f"connectrpc.{mod}")
            self.imported.add(mod)

    def use(self, side, sync, interceptors):
        kw = {} if interceptors is None else {"interceptors": interceptors}
        E = protobuf.wkt.Empty
        if side == "client":
            from connectrpc.client import ConnectClient, ConnectClientSync

            class T:
                async def execute(self, request):
                    return pyqwest.Response(status=200, headers=pyqwest.Headers([("content-type", "application/proto")]), content=b"")

                def execute_sync(self, request):
                    return pyqwest.SyncResponse(status=200, headers=pyqwest.Headers([("content-type", "application/proto")]), content=b"")
            if sync:
                class C(ConnectClientSync):
                    pass
                C("http://h.test", http_client=pyqwest.SyncClient(T()), **kw).execute_unary(request=E(), method=self.mi)
            else:
                class C(ConnectClient):
                    pass
                c = C("http://h.test", http_client=pyqwest.Client(T()), **kw)
                self.loop.run_until_complete(c.execute_unary(request=E(), method=self.mi))
            return
        from connectrpc.server import ConnectASGIApplication, ConnectWSGIApplication, Endpoint, EndpointSync
        if sync:
            class W(ConnectWSGIApplication):
                path = "/s.S"

                def __init__(self, **k):
                    super().__init__(endpoints={"/s.S/M": EndpointSync.unary(method=mi, function=lambda r, ctx: E())}, **k)
            mi = self.mi
            import io
            st = []
            env = {"REQUEST_METHOD": "POST", "SCRIPT_NAME": "", "PATH_INFO": "/s.S/M", "QUERY_STRING": "", "SERVER_NAME": "h", "SERVER_PORT": "80",
                   "SERVER_PROTOCOL": "HTTP/1.1", "wsgi.url_scheme": "http", "wsgi.version": (1, 0), "wsgi.input": io.BytesIO(b""),
                   "wsgi.errors": io.StringIO(), "wsgi.multithread": True, "wsgi.multiprocess": False, "wsgi.run_once": False,
                   "CONTENT_TYPE": "application/proto", "CONTENT_LENGTH": "0", "HTTP_HOST": "h.test"}
            list(W(**kw)(env, lambda s, h, *a: st.append(s)))
            if not st or not st[0].startswith("200"):
                raise Problem("call-failed", f"{st}")
            return
        mi = self.mi

        async def fn(r, ctx):
            return E()

        class A(ConnectASGIApplication):
            path = "/s.S"

            def __init__(self, **k):
                super().__init__(service=object(), endpoints=lambda svc: {"/s.S/M": Endpoint.unary(method=mi, function=fn)}, **k)
        sent = []

        async def go():
            async def receive():
                return {"type": "http.request", "body": b"", "more_body": False}

            async def send(m):
                sent.append(m)
            await A(**kw)({"type": "http", "method": "POST", "path": "/s.S/M", "raw_path": b"/s.S/M", "root_path": "", "scheme": "http", "query_string": b"",
                           "headers": [(b"content-type", b"application/proto"), (b"host", b"h.test")], "client": ("1.2.3.4", 5), "server": ("h", 80),
                           "http_version": "1.1", "asgi": {"version": "3.0"}, "extensions": {}, "state": {}}, receive, send)
        self.loop.run_until_complete(go())
        if not sent or sent[0].get("status") != 200:
            raise Problem("call-failed", f"{sent}")

    def probe(self, what):
        for side in sorted(self.imported):
            for sync in (False, True):
                log = []
                for name, (make, explicit, logs) in interceptor_forms(sync, self.explicit, log).items():
                    if name not in self.forms:
                        continue
                    for _, sp in (*self.prov.values(), self.explicit):
                        sp.n.clear()
                    log.clear()
                    w = f"{what}: {side} {'sync' if sync else 'async'} {name}"
                    arg = make(side == "client")
                    before = list(arg) if isinstance(arg, (list, tuple)) else None
                    try:
                        self.use(side, sync, arg)
                    except Problem as e:
                        raise Problem(e.args[0], f"{w} {e.args[1]}") from None
                    # the caller may go on to use its list
                    if before is not None and list(arg) != before:
                        raise Problem("argument-changed", f"{w} {arg}")
                    got = {k: list(v[1].n) for k, v in self.prov.items()} | {"explicit": list(self.explicit[1].n)}
                    one = [side.upper()]
                    want = {"A": [], "B": [], "explicit": one if explicit else []}
                    if not explicit and self.on:
                        want[self.on] = one
                    if got != want:
                        raise Problem("wrong-layers", f"{w} got {got} want {want}")
                    if len(log) != logs:
                        raise Problem("interceptors-lost", f"{w} own interceptors ran {len(log)} times, not {logs}")
                    if not explicit and self.on and not all(log):
                        raise Problem("not-outermost", f"{w} an interceptor ran outside of the telemetry layer")

    def run(self, ops):
        digest = []
        for k, op in enumerate(ops):
            self.do(op)
            self.probe(f"after {ops[:k + 1]}")
            digest.append(f"{op} on={self.on} {sorted(self.imported)}")
        return digest


def in_child(fn):
    for m in ("connectrpc.client", "connectrpc.server"):
        if m in sys.modules:
            raise HarnessError(f"{m} was imported before the history began")
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = {"ok": fn()}
            except Problem as e:
                out = {"problem": list(e.args)}
            except BaseException:
                out = {"crash": traceback.format_exc()}
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    try:
        while chunk := os.read(r, 65536):
            buf += chunk
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not buf:
        raise HarnessError("the child process died")
    return json.loads(buf)


def body(ch, p):
    length, forms, first = p
    ops = list(first)
    while len(ops) < length:
        acts = [o for o in OPS if not (o.startswith("import") and o in ops) and not (o == "instrument B" and "instrument A" not in ops)]
        ops.append(ch.pick(acts, "op"))
    for k, o in enumerate(first):
        if (o.startswith("import") and o in first[:k]) or (o == "instrument B" and "instrument A" not in first[:k]):
            raise Prune
    out = in_child(lambda: Child(forms).run(ops))
    if "problem" in out:
        raise Violation(*out["problem"])
    if "crash" in out:
        raise Violation("crash", f"{ops}\n{out['crash'][-2500:]}")
    ch.ev(out["ok"])
    return out["ok"][-1].split(" on=")[1]


ALL = ("none given", "empty", "log", "log tuple", "log twice", "log iterator", "explicit", "explicit last", "explicit iterator", "explicit derived")
FEW = ("log", "explicit")


def scenarios(tier):
    out = []
    for a in OPS:
        for b in OPS:
            out.append((4, ALL, (a, b)))
            for c in OPS:
                out.append((6 if tier == "quick" else 8, FEW, (a, b, c)))
    return out


CHECK = Check(
    id="C26", body=body, scenarios=scenarios,
    rule="all histories of enabling (two providers), disabling and importing the client and server modules up to the bound, each in a process of its own; "
         "after every step, new clients and servers of the imported sides (sync and async, every form of the interceptors argument) are created and used",
    assumptions=("clients and servers created earlier keep the telemetry they were created with",),
)
