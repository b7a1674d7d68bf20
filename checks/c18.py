"""C18: the ASGI lifespan protocol is followed."""
import asyncio

from mc.core import Check
from mc.rig import *  # noqa: F403
from mc import wire
import mc.rig as rig
from mc.vloop import run

SERVICES = ["plain", "gen", "gen slow", "fail", "fail connect", "fail empty", "fail slow", "fail late", "yields nothing", "cleanup fails", "cleanup fails connect",
            "cleanup slow", "cleanup yields", "swallows exit", "bad endpoints", "empty"]


class Svc:
    def __init__(self, tag, rec):
        self.tag, self.rec = tag, rec

    async def unary(self, r, ctx):
        self.rec["served"].append((self.tag, self.rec["cleanups"]))
        return M(f"{self.tag}")


def make(kind, rec, gate, icpt):
    def exc():
        if "connect" in kind:
            return ConnectError(Code.ABORTED, "own failure")
        if "empty" in kind:
            return ValueError()
        return RuntimeError("own failure")

    async def gen():
        rec["starts"] += 1
        if kind == "yields nothing":
            return
        if kind.startswith("fail"):
            if "slow" in kind:
                await gate("startup work")
            if kind == "fail late":
                try:
                    raise exc()
                finally:
                    rec["cleanups"] += 1
                    await gate("cleanup of failed startup")
            raise exc()
        if kind == "gen slow":
            await gate("startup work")
            await asyncio.sleep(1)
        try:
            yield Svc("gen", rec)
        except BaseException as e:
            rec["exit"] = type(e).__name__
            if kind != "swallows exit":
                raise
        finally:
            if kind == "cleanup slow":
                await gate("cleanup work")
            rec["cleanups"] += 1
            if kind.startswith("cleanup fails"):
                raise exc()
            if kind == "cleanup yields":
                yield Svc("second", rec)

    service = Svc("plain", rec) if kind == "plain" else gen()
    if kind == "empty":
        async def g2():
            rec["starts"] += 1
            yield Svc("gen", rec)
            rec["cleanups"] += 0
        service = g2()

    def eps(svc):
        rec["resolved"].append(svc.tag)
        if kind == "bad endpoints":
            raise AttributeError("own failure")
        if kind == "empty":
            return {}
        return rig.endpoints([(minfo("unary"), "unary", svc.unary)], False)
    kw = {}
    if icpt:
        class Watch:
            async def on_start(self, ctx):
                rec["watched"] += 1

            async def on_end(self, token, ctx, error):
                pass
        kw["interceptors"] = [Watch()]
    return rig._App(service=service, endpoints=eps, **kw)


def body(ch, p):
    kind, icpt, depth, early = p
    rec = {"starts": 0, "cleanups": 0, "served": [], "resolved": [], "exit": None, "watched": 0}
    hist = []
    failing_start = kind.startswith("fail") or kind in ("yields nothing", "bad endpoints")
    isgen = kind != "plain"
    left = [depth]

    async def main(env):
        async def gate(name):
            f = asyncio.get_running_loop().create_future()
            env.offer(name, lambda: f.done() or f.set_result(None))
            try:
                await f
            finally:
                env.withdraw(name)

        app = make(kind, rec, gate, icpt)
        done = asyncio.get_running_loop().create_future()
        state = {"life": 0, "phase": "none", "tasks": [], "requests": []}
        # phase: none (no scope), waiting (in receive), busy, over

        class Life:
            def __init__(self):
                self.sent, self.given, self.waiter, self.q = [], [], None, []
                self.task = asyncio.ensure_future(self.go())

            async def receive(self):
                self.waiter = asyncio.get_running_loop().create_future()
                offer()
                try:
                    return await self.waiter
                finally:
                    self.waiter = None
                    offer()

            async def send(self, m):
                hist.append(("sent", m["type"]))
                last = self.given[-1] if self.given else None
                d = lambda: f"{p} {hist} {m} {rec}"
                expect(last is not None and m["type"].startswith(last), "unasked-answer", d)
                expect(not [x for x in self.sent if x["type"].startswith(last)], "answered-twice", d)
                if m["type"] == "lifespan.shutdown.complete" and isgen and self.started() and not kind == "empty":
                    expect(rec["cleanups"] == 1, "complete-before-cleanup", d)
                if m["type"] == "lifespan.startup.complete":
                    expect(rec["cleanups"] == 0, "cleanup-before-shutdown", d)
                self.sent.append(m)

            def started(self):
                return any(x["type"] == "lifespan.startup.complete" for x in self.sent)

            async def go(self):
                try:
                    await app({"type": "lifespan", "asgi": {"version": "3.0"}, "state": {}}, self.receive, self.send)
                except Exception as e:
                    self.exc = e
                    hist.append(("lifespan crashed", repr(e)))
                offer()

            exc = None

            def give(self, t):
                hist.append(t)
                self.given.append(t)
                self.waiter.set_result({"type": t})

        lives = []

        def use():
            left[0] -= 1
            if left[0] <= 0:
                for n in EVENTS:
                    env.withdraw(n)

        EVENTS = ["startup", "shutdown", "request", "other path", "begin", "again", "stop"]

        def offer():
            for n in EVENTS:
                env.withdraw(n)
            if done.done():
                return
            env.offer("stop", stop)
            if left[0] <= 0:
                return
            env.offer("request", lambda: request(mpath("unary")))
            env.offer("other path", lambda: request("/nowhere"))
            life = lives[-1] if lives else None
            if life is None or life.task.done():
                if len(lives) < (1 if kind == "cleanup yields" else 2):
                    env.offer("begin", begin)
            elif life.waiter is not None and not life.waiter.done():
                if "lifespan.startup" not in life.given:
                    env.offer("startup", lambda: (use(), life.give("lifespan.startup"), offer()))
                env.offer("shutdown", lambda: (use(), life.give("lifespan.shutdown"), offer()))

        def begin():
            hist.append("lifespan scope")
            lives.append(Life())
            offer()

        def request(path):
            use()
            life_state = phase()
            hist.append(("request", path, life_state))
            t = asyncio.ensure_future(asgi_plain(app, wire.build_request("connect", "unary", "proto", ["q"], path=path)))
            state["requests"].append((t, path, life_state))
            offer()

        def phase():
            if not isgen:
                return "ready"
            if any(life.started() for life in lives):
                return "ready" if not any("lifespan.shutdown" in life.given for life in lives) else "after"
            if any("lifespan.startup" in life.given for life in lives):
                return "starting" if not lives[0].task.done() else "after"
            return "before"

        def stop():
            hist.append("stop")
            if not done.done():
                done.set_result(None)
            for n in EVENTS:
                env.withdraw(n)

        offer()
        await done
        # let everything that was started come to rest
        for t, _, _ in state["requests"]:
            await t
        for life in lives:
            if not life.task.done() and (life.waiter is None or life.waiter.done()):
                # an answer is still being worked on
                for _ in range(30):
                    if life.task.done() or (life.waiter is not None and not life.waiter.done()):
                        break
                    await asyncio.sleep(5)
        out = []
        for i, life in enumerate(lives):
            out.append((list(life.given), [m for m in life.sent], life.exc, life.task.done(), life.waiter is not None))
            if not life.task.done():
                life.task.cancel()
                try:
                    await life.task
                except asyncio.CancelledError:
                    pass
        reqs = [(t.result(), path, ls) for t, path, ls in state["requests"]]
        return out, reqs, dict(rec, served=list(rec["served"]))

    env = Env(ch, early=early, time_race=False)
    (lives, reqs, rec_), info = run(ch, main, env=env)
    d = lambda: f"{p} {hist} lives={lives} rec={rec_}"
    for i, (given, sent, exc, over, waiting) in enumerate(lives):
        types = [m["type"] for m in sent]
        expect(exc is None, "lifespan-crash", d)
        want = []
        ends = False
        for g in given:
            if ends:
                break
            if g == "lifespan.startup":
                exhausted = isgen and (i > 0 and any("lifespan.startup" in life[0] for life in lives[:i]))
                bad = failing_start or exhausted
                want.append(g + (".failed" if bad else ".complete"))
                ends = bad
            else:
                started = "lifespan.startup.complete" in want
                fails = started and (kind.startswith("cleanup fails") or kind == "cleanup yields")
                want.append(g + (".failed" if fails else ".complete"))
                ends = True
        expect(types == want, "wrong-answer", lambda: f"want {want} {d()}")
        expect(over == ends, "not-ended", lambda: f"want {want} {d()}")
        for m in sent:
            if m["type"].endswith(".failed") and i == 0 and kind not in ("fail empty", "yields nothing", "cleanup yields"):
                expect("own failure" in m.get("message", ""), "failure-message", d)
    if isgen and kind != "empty":
        shut = any("lifespan.startup.complete" in [m["type"] for m in s] and "lifespan.shutdown" in g for g, s, *_ in lives)
        started = any("lifespan.startup" in g for g, *_ in lives)
        # a service that never got as far as its cleanup code has none to run
        want = 1 if shut or (kind == "fail late" and started) or (kind == "bad endpoints" and started) else 0
        expect(rec_["cleanups"] == want, "cleanup-count", lambda: f"want {want} {d()}")
        expect(rec_["starts"] == (1 if started else 0), "start-count", d)
    elif kind == "plain":
        expect(all(t == "plain" for t in rec_["resolved"]), "service-identity", d)
    served = list(rec_["served"])
    nserved = 0
    for r, path, ls in reqs:
        ok = r.mon.status == 200
        dd = lambda: f"request {path} in {ls}: {r.resp} {r.exc!r} {d()}"
        if ok:
            nserved += 1
            expect(path == mpath("unary"), "wrong-path-served", dd)
            g = wire.parse_response("connect", "unary", "proto", r.resp)
            expect(g.msgs == ["gen" if isgen else "plain"], "service-identity", dd)
        if ls == "ready" and not (kind == "bad endpoints" and isgen):
            if path == mpath("unary") and kind != "empty":
                expect(ok, "not-served", dd)
            else:
                expect(r.mon.status == 404 and r.exc is None, "not-found", dd)
        if ls in ("before", "starting"):
            expect(not ok, "served-before-startup", dd)
    expect(nserved == len(served), "served-count", d)
    if icpt:
        expect(rec_["watched"] == nserved, "interceptors", d)
    expect(not info["leftover_tasks"], "leftover", lambda: f"{info['leftover_tasks']} {d()}")
    ch.ev(tuple(map(str, hist)))
    return f"{kind} {len(lives)} {nserved}"


def scenarios(tier):
    return [(k, icpt, 5 if tier == "quick" else 7, early) for k in SERVICES for icpt in (False, True) for early in (False, True)]


CHECK = Check(
    id="C18", body=body, scenarios=scenarios, bound=lambda tier, p: 1 if tier == "quick" else 2,
    rule="all histories of up to five (seven) events (startup, shutdown, request, request for an unknown path, a new lifespan scope) x service "
         "programs (plain, generator, failing or slow at each step, yielding nothing or twice), with the service's own waits as events",
    assumptions=("a server sends startup at most once per lifespan scope and at most one message before its answer",),
)
