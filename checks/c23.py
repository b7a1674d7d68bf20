"""C23: reading request bodies in WSGI."""
from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire


class Short:
    """wsgi.input: how much every read returns is chosen. Reading past the declared length would block, or take bytes of the next request."""

    def __init__(self, ch, data, declared, eof, rest=b"NEXT REQUEST"):
        self.ch, self.data, self.declared, self.eof = ch, data, declared, eof
        self.pos = 0
        self.past = None
        self.rest = rest

    def _left(self):
        return len(self.data) - self.pos

    def read(self, n=-1):
        if self.declared is not None:
            allowed = self.declared - self.pos
            if n is None or n < 0 or n > allowed:
                self.past = self.past or (n, allowed)
                # what a raw socket would give
                buf = (self.data + self.rest)[self.pos:]
                out = buf if n is None or n < 0 else buf[:n]
                self.pos += len(out)
                return out
        m = self._left() if n is None or n < 0 else min(n, self._left())
        if m <= 0:
            if self.eof == "raises" and n != 0:
                raise OSError("connection lost")
            return b""
        opts = list(range(m, 0, -1)) if m <= 12 else sorted({m, m - 1, m // 2, 1, 5}, reverse=True)
        k = m if self.ch is None else opts[self.ch.choose(len(opts), "read", costs=[0] + [1] * (len(opts) - 1))]
        out = self.data[self.pos:self.pos + k]
        self.pos += k
        return out

    def readline(self, size=-1):
        return self.read(size)

    def readlines(self, hint=-1):
        return [self.read(hint)]

    def __iter__(self):
        while b := self.read(4096):
            yield b


LARGE = ("64k-1", "64k", "64k+1", "200k")
MODES = {"unary": ["all"], "server_stream": ["all"], "client_stream": ["all", "one", "none", "raise"], "bidi": ["all", "one", "none", "raise", "echo"]}


def make_app(kind, mode, seen, kw):
    def take(r):
        if kind in ("unary", "server_stream"):
            seen.append(r.value)
            return
        if mode == "raise":
            raise ConnectError(Code.ABORTED, "no")
        if mode == "none":
            return
        for m in r:
            seen.append(m.value)
            if mode == "one":
                return

    def one(r, ctx):
        take(r)
        return M("r")

    def many(r, ctx):
        if mode == "echo":
            for m in r:
                seen.append(m.value)
                yield M("e")
            return
        take(r)
        yield M("r")
    return wsgi_app([(minfo(kind), kind, many if kind in ("server_stream", "bidi") else one)], **kw)


def outcome(proto, kind, resp):
    if resp.status == 404:
        return ("http", 404, None)
    try:
        p = wire.parse_response(proto, kind, "proto", resp)
        return (p.error.code if p.error else "ok", p.error.message if p.error else None, tuple(p.msgs))
    except wire.WireError as e:
        return ("malformed", str(e), resp.status)


def go(ch, proto, kind, mode, req, data, declared, cl, eof, http, kw=None, path=None):
    seen = []
    app = make_app(kind, mode, seen, kw or {})
    inp = Short(ch, data, declared, eof)
    req = Req(req.method, path or req.path, req.query, [(k, v) for k, v in req.headers if k.lower() != "content-length"]
              + ([("content-length", cl)] if cl is not None else []), [])
    r = wsgi_plain(app, req, ch, inp=inp, server_protocol=http)
    return outcome(proto, kind, r.resp), seen, inp, r


TEXT = "".join(f"{i:07d}" for i in range(30_000))[:200_000]
BODIES = {"empty": [""], "small": ["a"], "two": ["a", "b"], "mid": ["abcdefg"], "big": ["x" * 9000], "two big": ["x" * 5000, "y" * 4200],
          "64k-1": [TEXT[:65531]], "64k": [TEXT[:65532]], "64k+1": [TEXT[:65533]], "200k": [TEXT]}


def body(ch, p):
    what, proto, kind, size, comp, http, mode = p
    msgs = BODIES[size]
    if len(msgs) > 1 and kind in ("unary", "server_stream"):
        raise Prune
    req = wire.build_request(proto, kind, "proto", msgs, path=mpath(kind), comp=comp)
    data = req.body
    if what == "exact":
        cl, eof = ch.pick([(str(len(data)), "empty"), (str(len(data)), "raises"), (None, "empty"), ("", "empty")], "declared")
        res, seen, inp, r = go(ch, proto, kind, mode, req, data, int(cl) if cl else None, cl, eof, http)
        want_seen = {"all": msgs, "echo": msgs, "one": msgs[:1], "none": [], "raise": []}[mode]
        desc = lambda: f"{p} declared={cl} eof={eof} -> {res} seen={[s[:10] for s in seen]} read={inp.pos}/{len(data)} past={inp.past} {r.exc!r}"
        ch.ev(cl, eof, res[0], inp.pos)
        expect(inp.past is None, "reads-past-end", desc)
        expect(r.exc is None, "crash", desc)
        expect(res[0] == ("aborted" if mode == "raise" else "ok"), "wrong-outcome", desc)
        expect(seen == want_seen, "wrong-request", desc)
        if http == "HTTP/1.1" and mode == "raise":
            expect(inp.pos == len(data), "not-drained", desc)
        return f"exact {res[0]}"
    if what == "longer":
        # less is declared than there is: the rest is not ours
        if not data:
            raise Prune
        keep = ch.choose(len(data), "declared") if len(data) <= 16 else ch.pick([0, 1, 5, len(data) - 1, len(data) // 2], "declared")
        ref, ref_seen, _, _ = go(None, proto, kind, mode, req, data[:keep], keep, str(keep), "empty", http)
        res, seen, inp, r = go(ch, proto, kind, mode, req, data, keep, str(keep), "empty", http)
        desc = lambda: f"{p} declared={keep} of {len(data)} -> {res} seen={seen} past={inp.past}; with only that much: {ref} {ref_seen}"
        ch.ev(keep, res[0])
        expect(inp.past is None, "reads-past-end", desc)
        expect((res, seen) == (ref, ref_seen), "wrong-request", desc)
        return f"longer {res[0]}"
    if what == "shorter":
        # the connection ends before the declared length
        have = ch.choose(len(data) + 1, "received") if len(data) <= 24 else ch.pick([0, 1, 5, len(data) - 1, len(data) // 2, len(data)], "received")
        more = ch.pick([1, 5000], "missing") if have == len(data) else len(data) - have
        eof = ch.pick(["empty", "raises"], "eof")
        res, seen, inp, r = go(ch, proto, kind, mode, req, data[:have], have + more, str(have + more), eof, http)
        desc = lambda: f"{p} received {have} of {len(data)}, declared {have + more}, eof={eof} -> {res} seen={seen} past={inp.past} {r.exc!r}"
        ch.ev(have, more, eof, res[0])
        expect(inp.past is None, "reads-past-end", desc)
        expect(res[0] != "malformed", "malformed-response", desc)
        if kind in ("unary", "server_stream"):
            expect(res[0] not in ("ok",), "truncated-accepted", desc)
            expect(not seen, "truncated-accepted", desc)
        elif mode in ("all", "echo"):
            expect(res[0] != "ok", "truncated-accepted", desc)
            expect(seen == msgs[:len(seen)], "wrong-request", desc)
        else:
            expect(seen == msgs[:len(seen)], "wrong-request", desc)
            if mode == "raise":
                expect(res[0] == "aborted", "wrong-outcome", desc)
        return f"shorter {res[0]}"
    # requests that fail before or while reading
    case = ch.pick(["unknown path", "bad message", "too large", "unknown compression"], "case")
    kw, path = {}, None
    d = data
    want = None
    if case == "unknown path":
        path = f"/{SERVICE}/NoSuch"
        want = {"http"}
    elif case == "bad message":
        d = bytes(len(data))
        d = d[:-1] + b"\xff" if proto == "connect" and kind == "unary" else b"\x00\x00\x00\x00\x01\xff"
    elif case == "too large":
        kw = {"read_max_bytes": 1}
        want = {"resource_exhausted"}
    else:
        if proto == "connect" and kind != "unary":
            raise Prune  # a stream that names an unknown algorithm but compresses nothing may be served
        req.headers = [(k, v) for k, v in req.headers if k.lower() not in ("content-encoding", "connect-content-encoding", "grpc-encoding")]
        req.headers.append(({"connect": "content-encoding" if kind == "unary" else "connect-content-encoding"}.get(proto, "grpc-encoding"), "bogus"))
        want = {"unimplemented"}
    res, seen, inp, r = go(ch, proto, kind, mode, req, d, len(d), str(len(d)), ch.pick(["empty", "raises"], "eof"), http, kw, path)
    desc = lambda: f"{p} {case} -> {res} seen={seen} read={inp.pos}/{len(d)} past={inp.past} {r.exc!r}"
    ch.ev(case, res[0])
    expect(inp.past is None, "reads-past-end", desc)
    expect(res[0] != "ok" and r.exc is None, "wrong-outcome", desc)
    expect(want is None or res[0] in want, "wrong-outcome", desc)
    if http == "HTTP/1.1":
        expect(inp.pos == len(d), "not-drained", desc)
    return f"{case} {res[0]}"


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for proto in PROTOS:
        for kind in KINDS:
            for http in ("HTTP/1.1", "HTTP/2"):
                for mode in MODES[kind]:
                    for size in BODIES:
                        if size in ("two", "two big") and kind in ("unary", "server_stream"):
                            continue
                        for comp in ("identity", "gzip") if size in ("small", "mid", "two big") and (big or mode in ("all", "raise")) else ("identity",):
                            for what in ("exact", "longer", "shorter") if size not in LARGE else ("exact",) if mode in ("all", "raise") else ():
                                if comp == "gzip" and what == "longer":
                                    continue
                                out.append((what, proto, kind, size, comp, http, mode))
                for size in ("small", "mid", "big"):
                    out.append(("fails", proto, kind, size, "identity", http, "all"))
    return out


def bound(tier, p):
    what, proto, kind, size, comp, http, mode = p
    if size in LARGE:
        return 1
    small = size in ("empty", "small") and comp == "identity"
    if tier == "thorough":
        if small and what == "exact":
            return None
        return 4 if what == "exact" and size != "two big" else 3
    if small and what == "exact":
        return 8
    return 2 if what == "exact" and comp == "identity" else 1


CHECK = Check(
    id="C23", body=body, scenarios=scenarios, bound=bound,
    rule="every way the reads of a request body can be cut short (all of them for small bodies, up to the bound for larger ones) x declared length (exact, none, "
         "less, more than arrives, then end of file or an error) x what the handler reads x failures before reading; an input that notices reads past its end",
    assumptions=("without a declared length, the server marks the end of the body with an empty read",),
)
