"""C04: headers and trailers arrive completely, in order, and as what they were."""
from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire

# operations a handler may perform on its response metadata
VALS = ["1", "two words", "a,b", "k: v; w=%20", "v=1==", "Mon, 01 Jan 2024 00:00:00 GMT", "a, b", 'W/"x"; q="y, z"', "", "0", "null",
        "true", '{"a": [1]}', "a\tb", "%41%", "+", "".join(map(chr, range(0x21, 0x7F))), "x: y: z", ":", "=?utf-8?q?x?=", "\\r\\n"]
OPS = [
    ("h", "add", "X-A", "1"), ("h", "add", "x-a", "2"), ("h", "set", "x-A", "3"), ("h", "add", "x-b", "k: v; w=%20"),
    ("t", "add", "X-A", "4"), ("t", "add", "x-a", "5"), ("t", "set", "X-a", "6"), ("t", "add", "x-c", "a,b"),
    ("h", "del", "x-a", None), ("t", "del", "x-a", None),
]
EXTRA = [("h", "add", "x-v", v) for v in VALS] + [("t", "add", "x-v", v) for v in VALS] + [
    ("t", "add", "x-bin", "AAEC/w=="), ("h", "add", "x-bin", "AAEC/w=="), ("t", "add", "x-t", "a:b:c"),
    ("t", "add", "x-trailer-id", "7"), ("t", "add", "trailer-x", "8"), ("h", "add", "x-trailer-id", "9"), ("t", "add", "x-grpc-status", "1"),
    ("h", "add", "trailer-y", "9"), ("h", "add", "x-grpc-status", "5"), ("h", "add", "x-content-type", "a/b"), ("t", "add", "x-content-encoding", "none"),
    ("h", "add", "x-long", "y" * 4000), ("t", "add", "x-long", "z" * 4000)]

REQ_HEADERS = [
    None, {}, {"X-Q": "1"}, {"x-q": "a b", "X-R": "c,d"},
    ("H", (("X-Q", "1"), ("x-q", "2"), ("X-Q", "3"))), ("H", (("x-r", "z"), ("X-Q", "1"), ("x-q", "2"))),
    ("H", (("User-Agent", "mine/1"), ("authorization", "Bearer a.b=="))), {"x-empty-ish": "-"},
    ("H", (("x-bin", "AAEC/w=="), ("x-bin", "AA=="))),
    *({"X-V": v} for v in VALS),
]


def apply(ctx, op):
    h = ctx.response_headers if op[0] == "h" else ctx.response_trailers
    if op[1] == "add":
        h.add(op[2], op[3])
    elif op[1] == "set":
        h[op[2]] = op[3]
    else:
        h.pop(op[2], None)


def model(m, op):
    k = op[2].lower()
    if op[1] == "add":
        m.setdefault(k, []).append(op[3])
    elif op[1] == "set":
        m[k] = [op[3]]
    else:
        m.pop(k, None)


def make_app(sync, kind, plan, outcome, seen):
    """plan: list of (stage, op); stages 0 (start), 1 (after first message), 2 (at end)."""
    streaming = kind in ("server_stream", "bidi")

    def at(ctx, stage):
        for s, op in plan:
            if s == stage:
                apply(ctx, op)

    def note(ctx):
        seen.append(list(ctx.request_headers.allitems()))

    def finish():
        if outcome == "error":
            raise ConnectError(Code.ABORTED, "nope")
        if outcome == "plain":
            raise ValueError("plain")

    if sync:
        def one(r, ctx):
            note(ctx)
            for s in (0, 1, 2):
                at(ctx, s)
            finish()
            return M("r")

        def stream(r, ctx):
            note(ctx)
            at(ctx, 0)
            if outcome != "empty":
                yield M("r0")
            at(ctx, 1)
            if outcome != "empty":
                yield M("r1")
            at(ctx, 2)
            finish()
    else:
        async def one(r, ctx):
            note(ctx)
            for s in (0, 1, 2):
                at(ctx, s)
            finish()
            return M("r")

        async def stream(r, ctx):
            note(ctx)
            at(ctx, 0)
            if outcome != "empty":
                yield M("r0")
            at(ctx, 1)
            if outcome != "empty":
                yield M("r1")
            at(ctx, 2)
            finish()
    return (wsgi_app if sync else asgi_app)([(minfo(kind), kind, stream if streaming else one)])


def grouped(pairs):
    d = {}
    for k, v in pairs:
        d.setdefault(k.lower(), []).append(v)
    return d


PROTO_T = ("grpc-status", "grpc-message", "grpc-status-details-bin")


def body(ch, p):
    if p[0] == "req":
        return req_body(ch, p[1:])
    cio, sio, proto, kind, outcome, nops = p
    streaming = kind in ("server_stream", "bidi")
    plan = []
    if nops == "extra":
        op = ch.pick(EXTRA, "op")
        if op[0] == "h" and op[2].startswith("trailer-") and proto == "connect" and kind == "unary":
            raise Prune  # the prefix is the protocol's own way to send trailers there
        plan.append((0, op))
    else:
        stage = 0
        for i in range(nops):
            if streaming:
                stage += ch.choose(3 - stage, "stage")
            op = ch.pick(OPS, "op")
            if op[0] == "h" and stage > 0 and outcome != "empty":
                raise Prune()  # headers were already sent: outside the property
            plan.append((stage, op))
    hm, tm = {}, {}
    for _, op in plan:
        model(hm if op[0] == "h" else tm, op)
    seen = []
    runs = []
    msgs = ["q"]
    if sio == "peer":
        hl = [(k, v) for k, vs in hm.items() for v in vs]
        tl = [(k, v) for k, vs in tm.items() for v in vs]
        err = Err("aborted", "nope") if outcome == "error" else None
        sent = [] if outcome == "empty" else (["r0", "r1"] if streaming else ([] if err else ["r"]))
        serve = ("peer", lambda req: wire.build_response(
            proto, kind, "proto", sent, error=err, headers=hl, trailers=tl))
    else:
        app = make_app(sio == "wsgi", kind, plan, outcome, seen)
        serve = (sio, app)
    if cio == "raw":
        req = wire.build_request(proto, kind, "proto", msgs, path=mpath(kind))
        r = asgi_sync(app, req) if sio == "asgi" else wsgi_plain(app, req)
        runs.append(r)
        try:
            pr = wire.parse_response(proto, kind, "proto", r.resp)
        except wire.WireError as e:
            raise Violation("malformed-response", f"{e}: {r.resp}") from e
        hs, ts = pr.headers, pr.trailers
        failed = pr.error is not None
    else:
        out, _, runs = call_with(cio, serve, kind, msgs, proto=proto, runs=runs)
        hs, ts = out.headers, out.trailers
        failed = out.error is not None
        expect(out.raised is None or failed, "non-rpc-error", lambda: repr(out.raised))
    if runs:
        expect(not runs[0].mon.problems, "response-protocol", lambda: str(runs[0].mon.problems))
    expect(failed == (outcome in ("error", "plain")), "outcome", lambda: f"{failed} {outcome}")
    gh, gt = grouped(hs), grouped((k, v) for k, v in ts if k.lower() not in PROTO_T)
    ch.ev("h", sorted(gh.items()), "t", sorted(gt.items()))
    expect(all(k == k.lower() for k, _ in ts), "trailer-name-case", lambda: str(ts))
    for k, vs in hm.items():
        expect(gh.get(k) == vs, "response-header", lambda: f"{k}: got {gh.get(k)} want {vs}; plan {plan}")
    expect(gt == tm, "response-trailers", lambda: f"got {gt} want {tm}; plan {plan}")
    for k in gh:
        expect(k in hm or not k.startswith("x-"), "unexpected-header", lambda: f"{k} in {gh}")
    return f"{cio} {sio} {proto} {kind} {outcome}"


def req_body(ch, p):
    cio, sio, proto, kind, get = p
    spec = ch.pick(REQ_HEADERS, "headers")
    if spec is None or isinstance(spec, dict):
        given = dict(spec) if spec is not None else None
        want = grouped((spec or {}).items())
    else:
        given = Headers(spec[1])
        want = grouped(spec[1])
    before = None if given is None else list(given.allitems() if isinstance(given, Headers) else given.items())
    seen = []
    kw = {"use_get": True} if get else {}
    mi = minfo(kind, idem=IdempotencyLevel.NO_SIDE_EFFECTS) if get else None
    if mi:
        kw["mi"] = mi
    if sio == "peer":
        def fn(req):
            seen.append(list(req.headers))
            return wire.build_response(proto, kind, "proto", ["r"])
        serve = ("peer", fn)
    else:
        def one(r, ctx):
            seen.append(list(ctx.request_headers.allitems()))
            return M("r")

        async def aone(r, ctx):
            return one(r, ctx)

        def gen(r, ctx):
            seen.append(list(ctx.request_headers.allitems()))
            yield M("r")

        async def agen(r, ctx):
            seen.append(list(ctx.request_headers.allitems()))
            yield M("r")
        streaming = kind in ("server_stream", "bidi")
        fn = (gen if streaming else one) if sio == "wsgi" else (agen if streaming else aone)
        serve = (sio, (wsgi_app if sio == "wsgi" else asgi_app)([(mi or minfo(kind), kind, fn)]))
    out, tr, _ = call_with(cio, serve, kind, ["q"], proto=proto, headers=given, **kw)
    expect(out.raised is None and out.msgs == ["r"], "call-failed", lambda: f"{out.raised!r}")
    expect(len(seen) == 1, "handler-runs", lambda: str(seen))
    got = grouped(seen[0])
    ch.ev("seen", sorted(got.items()))
    for k, vs in want.items():
        g = got.get(k)
        ok = g == vs or (sio == "wsgi" and g is not None and len(g) == 1 and g[0].replace(", ", ",") == ",".join(vs).replace(", ", ","))
        expect(ok, "request-header", lambda: f"{k}: got {g} want {vs}")
    for k in got:
        expect(k in want or not k.startswith("x-"), "unexpected-request-header", lambda: f"{k}: {got[k]}")
    after = None if given is None else list(given.allitems() if isinstance(given, Headers) else given.items())
    expect(before == after, "caller-headers-mutated", lambda: f"{before} -> {after}")
    expect(len(tr.requests) == 1, "requests", lambda: str(len(tr.requests)))
    return f"req {cio} {sio} {proto} {kind}"


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for cio, sio in [("async", "asgi"), ("async", "wsgi"), ("sync", "asgi"), ("sync", "wsgi"), ("raw", "asgi"),
                     ("raw", "wsgi"), ("async", "peer"), ("sync", "peer")]:
        for proto in PROTOS:
            for kind in KINDS:
                if cio != "raw":
                    out.append(("req", cio, sio, proto, kind, False))
                    if kind == "unary" and proto == "connect" and sio != "peer":
                        out.append(("req", cio, sio, proto, kind, True))
                for outcome in ("ok", "error", "plain") + (("empty",) if kind in ("server_stream", "bidi") else ()):
                    if sio == "peer" and outcome == "plain":
                        continue
                    for n in (0, 1, 2, "extra") + ((3,) if big else ()):
                        if n == 2 and outcome == "plain" and not big:
                            continue
                        if n == 3 and cio != sio[0:0] + {"asgi": "async", "wsgi": "sync"}.get(sio, cio):
                            continue
                        out.append((cio, sio, proto, kind, outcome, n))
    return out


CHECK = Check(
    id="C04", body=body, scenarios=scenarios,
    rule="every sequence of <=2 (thorough 3) metadata operations (10 operations on header and trailer sets, "
         "same and different names) at every stage of a handler x outcome x protocol x kind x "
         "implementation pair; 9 request-header shapes on every pair, by POST and GET",
    assumptions=("values are visible ASCII without surrounding blanks, as HTTP requires",
                 "WSGI servers join repeated request headers with a comma, as PEP 3333 servers do"),
)
