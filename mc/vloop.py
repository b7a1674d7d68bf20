"""A controlled asyncio event loop with virtual time.

asyncio guarantees FIFO order of ready callbacks, so what a program cannot rely on is
*when* the outside world acts: data arriving, sends draining, the peer going away, a
timer expiring, a caller cancelling.  Those are the nondeterministic steps.  The harness
offers them as named actions in an Env; the loop asks the Chooser which one happens
  * whenever the program is quiescent (nothing ready): exactly one enabled action, or
    the passage of time to the next timer, must be taken; and
  * optionally at every loop iteration while callbacks are still ready ("early"), which
    is charged to the deviation bound.
If nothing is ready, no action is enabled and no timer is pending the program has hung:
Deadlock.
"""
from __future__ import annotations

import asyncio
import heapq
from collections.abc import Callable

from .core import Chooser, HarnessError
from .vtime import virtual_clock


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class Env:
    """Enabled environment actions, in a stable order."""

    def __init__(self, ch: Chooser | None, early: bool = False, time_race: bool = True):
        self.ch = ch
        self.early = early
        self.time_race = time_race
        self._actions: dict[str, Callable[[], None]] = {}
        self.early_ok: set[str] | None = None  # names (prefix) allowed to fire early

    def offer(self, name: str, fn: Callable[[], None]) -> None:
        if name in self._actions:
            raise HarnessError(f"action {name} offered twice")
        self._actions[name] = fn

    def withdraw(self, name: str) -> None:
        self._actions.pop(name, None)

    def names(self) -> list[str]:
        return list(self._actions)

    def take(self, name: str) -> None:
        fn = self._actions.pop(name)
        if self.ch is not None:
            self.ch.ev("env", name)
        fn()

    # loop hooks -------------------------------------------------------
    def at_ready(self) -> None:
        if not self.early or self.ch is None or not self._actions:
            return
        names = [
            n for n in self._actions
            if self.early_ok is None or any(n.startswith(p) for p in self.early_ok)
        ]
        if not names:
            return
        i = self.ch.choose(
            len(names) + 1, "early:" + "|".join(names), [0] + [1] * len(names)
        )
        if i:
            self.take(names[i - 1])

    def at_idle(self, timeout: float | None) -> str:
        """Returns 'acted' or 'time' (let virtual time advance by timeout)."""
        names = list(self._actions)
        if not names:
            if timeout is None:
                raise Deadlock("nothing ready, no timer, no enabled environment action")
            return "time"
        opts = list(names)
        if timeout is not None and self.time_race:
            opts.append("<time>")
        if self.ch is None:
            self.take(names[0])
            return "acted"
        i = self.ch.choose(len(opts), "idle:" + "|".join(opts))
        if opts[i] == "<time>":
            self.ch.ev("time", round(timeout, 6))
            return "time"
        self.take(opts[i])
        return "acted"


class _Selector:
    def __init__(self, loop: VLoop) -> None:
        self.loop = loop

    def select(self, timeout):
        lp = self.loop
        lp.iterations += 1
        if lp.iterations > lp.max_iterations:
            raise StepLimit(f"more than {lp.max_iterations} loop iterations")
        if timeout == 0:
            if lp._ready:
                lp.env.at_ready()
            return []
        if lp.env.at_idle(timeout) == "time":
            # jump exactly to the earliest timer
            when = lp._scheduled[0].when() if lp._scheduled else lp.clock[0]
            if when > lp.clock[0]:
                lp.clock[0] = when
            lp.clock[0] += 1e-9
        return []

    def close(self):
        pass


class VLoop(asyncio.BaseEventLoop):
    def __init__(self, env: Env, clock: list[float], max_iterations: int = 20000):
        super().__init__()
        self.env = env
        self.clock = clock
        self.iterations = 0
        self.max_iterations = max_iterations
        self._selector = _Selector(self)
        self._clock_resolution = 1e-9
        self.errors: list[dict] = []
        self.set_exception_handler(lambda _l, c: self.errors.append(c))
        self.slow_callback_duration = 1e9

    def time(self) -> float:
        return self.clock[0]

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    async def shutdown_default_executor(self, timeout=None):
        return None


def run(ch: Chooser | None, main, *, early: bool = False, time_race: bool = True,
        max_iterations: int = 20000, env: Env | None = None):
    """Run `await main(env)` to completion under the controlled loop.

    Returns (result, loop info dict). Raises Deadlock / StepLimit.
    Leftover tasks are reported, then cancelled.
    """
    if env is None:
        env = Env(ch, early=early, time_race=time_race)
    with virtual_clock() as cell:
        loop = VLoop(env, cell, max_iterations)
        asyncio.set_event_loop(loop)
        info = {"loop": loop, "clock": cell}
        try:
            coro = main(env)
            task = loop.create_task(coro)
            try:
                res = loop.run_until_complete(task)
            except (Deadlock, StepLimit):
                env._actions.clear()
                env.ch = None
                raise
            leftovers = [t for t in asyncio.all_tasks(loop) if not t.done()]
            info["leftover_tasks"] = [repr(t.get_coro()) for t in leftovers]
            info["errors"] = list(loop.errors)
            return res, info
        finally:
            _dispose(loop, env)


def _dispose(loop: VLoop, env: Env) -> None:
    env._actions.clear()
    env.ch = None
    env.early = False
    loop.max_iterations = loop.iterations + 2000
    for _ in range(3):
        tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
        if not tasks:
            break
        for t in tasks:
            t.cancel()
        try:
            loop.run_until_complete(asyncio.gather(*tasks, return_exceptions=True))
        except BaseException:
            break
    try:
        loop.run_until_complete(loop.shutdown_asyncgens())
    except BaseException:
        pass
    asyncio.set_event_loop(None)
    loop._ready.clear()
    loop._scheduled.clear()
    heapq.heapify(loop._scheduled)
    try:
        loop.close()
    except BaseException:
        pass
