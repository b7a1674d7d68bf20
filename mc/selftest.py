"""setup_cmd: nothing to build; check that the explorer itself is sound and that the
code under test can be imported from /repo."""
from __future__ import annotations

import asyncio

from . import core, wire
from .vloop import Env, run


def main() -> int:
    # the explorer enumerates complete trees
    seen = set()

    def body(ch, p):
        seen.add((ch.choose(3), ch.choose(2), ch.flag()))
        return "x"

    r = core.explore(body, None)
    assert r.executions == 12 and len(seen) == 12, r
    # deviation bound
    def body2(ch, p):
        return str(sum(ch.choose(2, "", costs=(0, 1)) for _ in range(5)))

    r = core.explore(body2, None, bound=2)
    assert r.executions == 1 + 5 + 10, r.executions

    # it finds a lost update between two tasks
    def race(ch, p):
        async def main(env: Env):
            box = [0]

            async def inc(name):
                v = box[0]
                f = asyncio.get_running_loop().create_future()
                env.offer(name, lambda: f.set_result(None))
                await f
                box[0] = v + 1

            await asyncio.gather(inc("a"), inc("b"))
            return box[0]

        res, _ = run(ch, main)
        if res != 2:
            raise core.Violation("lost", str(res))
        return str(res)

    assert core.explore(race, None, bound=3).violations
    # the independent codec agrees with itself
    for proto in wire.PROTOS:
        for kind in wire.KINDS:
            err = wire.Err("aborted", "x\u00e9%", [("a.B", b"\x01")])
            resp = wire.build_response(proto, kind, "proto", ["m"], trailers=[("x-t", "1")])
            pr = wire.parse_response(proto, kind, "proto", resp)
            assert pr.msgs == ["m"] and ("x-t", "1") in pr.trailers
            pr = wire.parse_response(proto, kind, "proto", wire.build_response(proto, kind, "proto", [], error=err))
            assert pr.error.key() == err.key()
    from . import rig  # noqa: F401

    print("selftest ok")
    return 0
