"""One ASGI request against a scripted handler, under every order of outside events."""
from __future__ import annotations

from dataclasses import dataclass, field

from .rig import *  # noqa: F403
from .rig import _App  # noqa: F401
from . import wire
from .vloop import Deadlock, StepLimit
import asyncio


# what a handler may give by mistake
BAD = {"badmsg": "not a message", "nomsg": None}


@dataclass
class Cfg:
    proto: str = "connect"
    kind: str = "unary"
    k: int = 1  # responses the handler produces (streams)
    end: str = "ok"  # ok | err | crash | cancelled | badmsg | nomsg | forever
    wait: bool = False  # handler waits for an outside event before each step
    reads: str = "all"  # client_stream / bidi: none | one | all
    nreq: int = 1
    gate: str = "none"  # none | after (recorded, then drains) | before (drains, then recorded)
    disconnect: str = "no"  # no | ignore | raise | rxfail (receive raises)
    cancel: int = 0
    sendfail: bool = False
    early: int = 0
    icpt: int = 0
    split: bool = False  # request body in two chunks
    cleanup: str = "sync"  # sync | async | raise


ERRV = Err("aborted", "from handler", [])


@dataclass
class Rec:
    cfg: Cfg
    mon: ASGIMonitor = None
    exc: BaseException | None = None
    entered: int = 0
    cleanup: int = 0
    cleanup_at_end: int = 0
    tasks_at_end: list = field(default_factory=list)
    yielded: list = field(default_factory=list)
    seen: list = field(default_factory=list)
    done: bool = False  # the handler ran to a successful end
    raised: BaseException | None = None
    cancelled: int = 0
    disconnected: bool = False
    disc_early: bool = False
    failed_send: bool = False
    in_flight: int = 0
    in_flight_after: int = 0
    info: dict = field(default_factory=dict)
    body_after_disc: int = 0
    yields_after_disc: int = 0
    ilog: list = field(default_factory=list)
    ctx: object = None


class Exit(BaseException):
    """Like SystemExit: not an error of the handler, and no success either."""


class Server:
    """Test server; see Cfg.gate for when a send counts as done."""

    def __init__(self, env, ch, req: Req, cfg: Cfg, rec: Rec):
        self.env, self.ch, self.cfg, self.rec = env, ch, cfg, rec
        self.mon = rec.mon = ASGIMonitor(ch)
        body = req.body
        self.chunks = [body[:3], body[3:]] if cfg.split else [body]
        self.next = 0
        self.queue = []
        self.waiters = []
        self.nsend = 0
        self.broken = False
        self._offer()
        if cfg.disconnect != "no":
            env.offer("disconnect", self._disc)

    def _offer(self):
        if self.next < len(self.chunks):
            self.env.offer(f"chunk{self.next}", self._release)

    def _release(self):
        i = self.next
        self.next += 1
        self.queue.append({"type": "http.request", "body": self.chunks[i],
                           "more_body": i + 1 < len(self.chunks)})
        self._wake()
        self._offer()

    def _disc(self):
        self.rec.disconnected = True
        self.rec.disc_early = bool(asyncio.get_running_loop()._ready)
        self.env.withdraw(f"chunk{self.next}")
        self.queue.clear()
        self._wake()

    def _wake(self):
        for w in self.waiters:
            if not w.done():
                w.set_result(None)
        self.waiters.clear()

    async def receive(self):
        self.rec.in_flight += 1
        try:
            while True:
                if self.queue:
                    m = self.queue.pop(0)
                    self.ch.ev("recv", len(m["body"]), m["more_body"])
                    return m
                if self.rec.disconnected:
                    self.ch.ev("recv disconnect")
                    if self.cfg.disconnect == "rxfail":
                        raise OSError("connection lost")
                    return {"type": "http.disconnect"}
                w = asyncio.get_running_loop().create_future()
                self.waiters.append(w)
                await w
        finally:
            self.rec.in_flight -= 1

    async def _drain(self):
        loop = asyncio.get_running_loop()
        f = loop.create_future()
        name = f"drain{self.nsend}"
        self.nsend += 1
        self.env.offer(name, lambda: f.done() or f.set_result(None))
        try:
            await f
        finally:
            self.env.withdraw(name)

    async def send(self, m):
        cfg, rec = self.cfg, self.rec
        if self.broken:
            raise OSError("connection lost")
        if cfg.sendfail and self.ch.flag("send fails"):
            self.broken = rec.failed_send = True
            raise OSError("connection lost")
        if rec.disconnected:
            if m["type"] == "http.response.body" and m.get("more_body"):
                rec.body_after_disc += 1
            if cfg.disconnect == "raise":
                self.broken = True
                raise OSError("client disconnected")
        if cfg.gate == "before" and not rec.disconnected:
            await self._drain()
        self.mon.on_send(m)
        if cfg.gate == "after" and not rec.disconnected:
            await self._drain()


class Watch:
    """metadata interceptor that only records"""

    def __init__(self, rec, i):
        self.rec, self.i = rec, i

    async def on_start(self, ctx):
        self.rec.ilog.append(("start", self.i))
        return self.i

    async def on_end(self, token, ctx, error):
        self.rec.ilog.append(("end", self.i, self.rec.cleanup, error))


def make_handler(cfg: Cfg, rec: Rec, env, ch):
    n = 0

    async def step():
        nonlocal n
        if not cfg.wait:
            return
        f = asyncio.get_running_loop().create_future()
        name = f"work{n}"
        n += 1
        env.offer(name, lambda: f.done() or f.set_result(None))
        try:
            await f
        finally:
            env.withdraw(name)

    def finish():
        if cfg.end == "err":
            raise ConnectError(Code(ERRV.code), ERRV.message)
        if cfg.end == "crash":
            raise ValueError("handler bug")
        if cfg.end == "exit":
            raise Exit("handler leaves")
        if cfg.end == "cancelled":
            raise asyncio.CancelledError
        rec.done = cfg.end not in BAD
        ch.ev("handler done")

    def enter(ctx):
        rec.entered += 1
        rec.ctx = ctx
        ctx.response_headers["x-h"] = "hv"
        ctx.response_trailers["x-t"] = "tv"

    async def clean():
        rec.cleanup += 1
        if cfg.cleanup == "async":
            await asyncio.sleep(0)
            rec.cleanup += 10
        elif cfg.cleanup == "raise":
            raise RuntimeError("cleanup failed")

    async def read(it):
        if cfg.reads == "none":
            return
        async for m in it:
            rec.seen.append(m.value)
            if cfg.reads == "one":
                return

    async def single(r, ctx):
        enter(ctx)
        try:
            if cfg.kind == "client_stream":
                await read(r)
            else:
                rec.seen.append(r.value)
            await step()
            finish()
            rec.yielded.append("p0")
            return M("p0") if cfg.end not in BAD else BAD[cfg.end]
        except BaseException as e:
            rec.raised = e
            raise
        finally:
            await clean()

    async def many(r, ctx):
        enter(ctx)
        try:
            if cfg.kind == "bidi":
                await read(r)
            else:
                rec.seen.append(r.value)
            i = 0
            while i < cfg.k or cfg.end == "forever":
                await step()
                rec.yielded.append(f"p{i}")
                if rec.disconnected:
                    rec.yields_after_disc += 1
                yield M(f"p{i}")
                i += 1
                if cfg.end == "forever" and (rec.yields_after_disc > 3 or (i > 4 and not rec.disconnected)):
                    break  # keep the space finite
            await step()
            if cfg.end in BAD:
                yield BAD[cfg.end]
            finish()
        except BaseException as e:
            rec.raised = e
            raise
        finally:
            await clean()

    return many if cfg.kind in ("server_stream", "bidi") else single


def run_request(ch, cfg: Cfg, req: Req | None = None, app_kw=None, extra=None) -> Rec:
    rec = Rec(cfg)
    if req is None:
        req = wire.build_request(cfg.proto, cfg.kind, "proto", [f"q{i}" for i in range(cfg.nreq)],
                                 path=mpath(cfg.kind))

    async def main(env):
        env.early = bool(cfg.early)
        srv = Server(env, ch, req, cfg, rec)
        kw = dict(app_kw or {})
        if cfg.icpt:
            kw["interceptors"] = [Watch(rec, i) for i in range(cfg.icpt)]
        app = asgi_app([(minfo(cfg.kind), cfg.kind, make_handler(cfg, rec, env, ch))], **kw)

        async def go():
            try:
                await app(asgi_scope(req), srv.receive, srv.send)
            except BaseException as e:
                rec.exc = e
            rec.cleanup_at_end = rec.cleanup
            rec.tasks_at_end = [repr(t.get_coro()) for t in asyncio.all_tasks() - before
                                # (the interpreter closing an abandoned generator is not the request)
                                if not t.done() and "async_generator_athrow" not in repr(t.get_coro())]

        before = asyncio.all_tasks()
        task = asyncio.get_running_loop().create_task(go())
        before.add(task)
        left = cfg.cancel

        def do_cancel():
            nonlocal left
            left -= 1
            rec.cancelled += 1
            task.cancel()
            if left:
                env.offer(f"cancel{left}", do_cancel)

        if cfg.cancel:
            env.offer("cancel", do_cancel)
        try:
            await asyncio.wait({task})
        finally:
            for nm in list(env.names()):
                env.withdraw(nm)
        env.early = False
        for _ in range(10):
            await asyncio.sleep(0)
        rec.in_flight_after = rec.in_flight
        rec.env_left = env.names()

    try:
        _, rec.info = run(ch, main, max_iterations=3000)
    except Deadlock as e:
        raise Violation("request-hangs", f"{cfg} {e}") from e
    except StepLimit as e:
        raise Violation("request-never-ends", f"{cfg} {e}") from e
    return rec
