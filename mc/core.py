"""Exhaustive exploration core.

An *execution* is one run of a check's body under a Chooser.  Every source of
nondeterminism (schedule, fault, chunking, timer, input bit) is a call to
Chooser.choose(n, label).  The explorer enumerates every choice sequence by
depth-first replay: no sampling.  A check is a finite list of scenarios (the outer,
cartesian part of the bounded space) times the choice tree of each scenario.

Replays that diverge (a different label or arity at the same position) are a hard
error: they would mean that the harness does not control all nondeterminism.
"""
from __future__ import annotations

import gc
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time as _time
import traceback
from dataclasses import dataclass, field

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from .vtime import real_monotonic  # noqa: E402


class Violation(Exception):
    """The property is broken in this execution. `key` identifies the failing input /
    call site / history independently of where in the search it was found."""

    def __init__(self, key: str, msg: str) -> None:
        super().__init__(f"{key}: {msg}")
        self.key = key
        self.msg = msg


class HarnessError(Exception):
    pass


class ExecTimeout(BaseException):
    pass


class Prune(Exception):
    """This choice sequence is outside the bounded space; not counted as an execution."""


class Chooser:
    def __init__(self, prefix=(), bound: int | None = None) -> None:
        self.prefix = list(prefix)
        self.trace: list[tuple[str, int, int, tuple[int, ...] | None]] = []
        self.spent = 0
        self.bound = bound
        self.log: list[str] = []
        self.state_hashes: list[str] = []

    # -- nondeterminism -------------------------------------------------
    def choose(self, n: int, label: str = "", costs=None) -> int:
        """Pick one of n options. costs[i] is charged against the deviation bound."""
        if n <= 0:
            raise HarnessError(f"choose with {n} options at {label}")
        if costs is not None and self.bound is not None:
            left = self.bound - self.spent
            if not any(c <= left for c in costs[1:]):
                # only the free default remains: not a branching point
                return 0
        elif n == 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise HarnessError(f"replay diverged at {i} ({label}): {c} >= {n}")
        else:
            c = 0
        self.trace.append((label, n, c, tuple(costs) if costs is not None else None))
        if costs is not None:
            self.spent += costs[c]
        self.state_hashes.append(self._hash())
        return c

    def pick(self, options, label: str = ""):
        options = list(options)
        return options[self.choose(len(options), label)]

    def flag(self, label: str = "") -> bool:
        return bool(self.choose(2, label))

    # -- observations ---------------------------------------------------
    def ev(self, *parts) -> None:
        self.log.append(" ".join(str(p) for p in parts))

    def _hash(self) -> str:
        h = hashlib.blake2b(digest_size=12)
        for line in self.log:
            h.update(line.encode("utf-8", "backslashreplace"))
            h.update(b"\n")
        # the choice prefix is part of the state only through what it caused, plus its
        # length (position) so that pure-input choices are told apart
        h.update(repr([t[2] for t in self.trace]).encode())
        return h.hexdigest()

    def choices(self) -> list[int]:
        return [t[2] for t in self.trace]


def next_prefix(ch: Chooser) -> list[int] | None:
    """The lexicographically next choice prefix within the deviation bound."""
    tr = ch.trace
    # spent before each position
    spent = []
    s = 0
    for _, _, c, costs in tr:
        spent.append(s)
        if costs is not None:
            s += costs[c]
    for i in range(len(tr) - 1, -1, -1):
        _, n, c, costs = tr[i]
        for nc in range(c + 1, n):
            if (
                costs is not None
                and ch.bound is not None
                and spent[i] + costs[nc] > ch.bound
            ):
                continue
            return [t[2] for t in tr[:i]] + [nc]
    return None


@dataclass
class Result:
    executions: int = 0
    states: int = 0
    transitions: int = 0
    pruned: int = 0
    complete: bool = True
    max_depth: int = 0
    outcomes: dict = field(default_factory=dict)
    samples: list = field(default_factory=list)
    violations: list = field(default_factory=list)
    known: dict = field(default_factory=dict)


def _alarm(_sig, _frm):
    raise ExecTimeout()


EXEC_TIMEOUT_S = int(os.environ.get("VERIF_EXEC_TIMEOUT", "60"))


def run_one(body, params, prefix, bound) -> tuple[Chooser, object, tuple | None, bool]:
    """One execution. Returns (chooser, outcome, violation, pruned)."""
    ch = Chooser(prefix, bound)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(EXEC_TIMEOUT_S)
    vio = None
    pruned = False
    outcome = None
    try:
        outcome = body(ch, params)
    except Violation as v:
        vio = (v.key, v.msg)
    except Prune:
        pruned = True
    except HarnessError:
        raise
    except ExecTimeout:
        vio = ("hang", f"execution did not finish within {EXEC_TIMEOUT_S}s of real time")
    except RecursionError as e:
        vio = ("crash", f"RecursionError {e}")
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        # The code under test let an exception through where the body expected
        # none: bodies catch every outcome the property allows.
        vio = ("unexpected-exception", traceback.format_exc(limit=-6))
    finally:
        signal.alarm(0)
    return ch, outcome, vio, pruned


def explore(body, params, bound=None, deadline=None, max_execs=None, is_known=None) -> Result:
    r = Result()
    prefix: list[int] = []
    seen: set[str] = set()
    gc.collect()
    gc.freeze()  # what exists already need not be scanned again and again
    gc.disable()
    n = 0
    while True:
        ch, outcome, vio, pruned = run_one(body, params, prefix, bound)
        # nodes and edges of the choice tree not visited by an earlier execution
        new_edges = len(ch.trace) - max(0, len(prefix) - 1)
        r.transitions += max(0, new_edges)
        for h in ch.state_hashes:
            seen.add(h)
        seen.add(ch._hash() + "$")
        r.max_depth = max(r.max_depth, len(ch.trace))
        if pruned:
            r.pruned += 1
        else:
            r.executions += 1
            key = outcome if isinstance(outcome, str) else repr(outcome)
            if len(r.outcomes) < 64 or key in r.outcomes:
                r.outcomes[key] = r.outcomes.get(key, 0) + 1
            if r.executions <= 1:
                r.samples.append(
                    {"params": repr(params)[:300], "choices": ch.choices()[:40],
                     "events": [x[:300] for x in ch.log[:40]], "outcome": key[:300]}
                )
        if vio is not None and is_known is not None and is_known(vio[0]):
            r.known[vio[0]] = r.known.get(vio[0], 0) + 1  # listed: the search goes on
        elif vio is not None:
            r.violations.append(
                {"key": vio[0], "msg": vio[1][:4000], "choices": ch.choices(),
                 "bound": bound, "log": [x[:2000] for x in ch.log[-200:]]}
            )
            if len(r.violations) >= 10:
                r.complete = False
                break
        nxt = next_prefix(ch)
        if nxt is None:
            break
        prefix = nxt
        n += 1
        if n % 200 == 0:
            gc.collect()
        if deadline is not None and real_monotonic() > deadline:
            r.complete = False
            break
        if max_execs is not None and n >= max_execs:
            r.complete = False
            break
    gc.collect()
    gc.enable()
    r.states = len(seen)
    return r


# ---------------------------------------------------------------------------
# Check runner


@dataclass
class Check:
    id: str
    body: object  # body(ch, params)
    scenarios: object  # scenarios(tier) -> list of picklable params
    bound: object = None  # int | None | callable(tier, params)
    level: str = "model_checking"
    rule: str = ""
    assumptions: tuple = ()
    extra: object = None  # callable(tier) -> dict merged in coverage
    keyfn: object = None


_CURRENT: Check | None = None
_DEADLINE: float | None = None
_TIER = "quick"


def _worker(item):
    idx, params = item
    chk = _CURRENT
    b = chk.bound(_TIER, params) if callable(chk.bound) else chk.bound
    try:
        if _DEADLINE is not None and real_monotonic() > _DEADLINE:
            r = Result(complete=False)
            return idx, r, None
        known = load_known(chk.id)
        r = explore(chk.body, params, bound=b, deadline=_DEADLINE,
                    is_known=(lambda key: _match(known, params, {"key": key}) is not None) if known else None)
        return idx, r, None
    except HarnessError as e:
        return idx, Result(), f"{e}\n{traceback.format_exc()}"


def load_known(pid: str) -> list[dict]:
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e["property"] == pid]


def _match(known, params, vio):
    for k in known:
        if k.get("key") == vio["key"] and (
            "params" not in k or k["params"] == repr(params)
        ):
            return k
    return None


def run_check(chk: Check, tier: str, seed: int, budget_s: float, jobs: int) -> int:
    global _CURRENT, _DEADLINE, _TIER
    t0 = real_monotonic()
    _CURRENT, _TIER = chk, tier
    _DEADLINE = t0 + budget_s
    scen = list(chk.scenarios(tier))
    known = load_known(chk.id)
    total = Result()
    outcomes: dict[str, int] = {}
    samples = []
    harness_errors = []
    found: list[tuple[object, dict]] = []
    known_hits: dict[str, int] = {}
    incomplete = 0
    items = list(enumerate(scen))
    # spread heavy neighbours over workers; the order does not affect what is covered
    order = sorted(items, key=lambda it: (it[0] * 2654435761 + seed) & 0xFFFFFFFF)
    ctx = mp.get_context("fork")
    chunk = max(1, min(64, len(order) // (jobs * 8) or 1))
    pool = ctx.Pool(jobs)
    try:
        for idx, r, herr in pool.imap_unordered(_worker, order, chunksize=chunk):
            if herr:
                harness_errors.append((repr(scen[idx])[:300], herr))
                if len(harness_errors) > 3:
                    break
                continue
            total.executions += r.executions
            total.states += r.states
            total.transitions += r.transitions
            total.pruned += r.pruned
            total.max_depth = max(total.max_depth, r.max_depth)
            if not r.complete:
                incomplete += 1
            for k, v in r.outcomes.items():
                if len(outcomes) < 200 or k in outcomes:
                    outcomes[k] = outcomes.get(k, 0) + v
            if len(samples) < 200:
                samples.extend(r.samples)
            for key, cnt in r.known.items():
                k = _match(known, scen[idx], {"key": key})
                known_hits[k["id"]] = known_hits.get(k["id"], 0) + cnt
            found += [(scen[idx], v) for v in r.violations]
            if len(found) >= 25:
                break
    finally:
        pool.terminate()
        pool.join()
    wall = real_monotonic() - t0
    coverage = {
        "states": total.states,
        "transitions": total.transitions,
        "traces_validated_against_impl": total.executions,
        "scenarios": len(scen),
        "executions": total.executions,
        "pruned": total.pruned,
        "max_choice_depth": total.max_depth,
        "distinct_outcomes": len(outcomes),
        "outcomes": dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:25]),
        "exhaustive": incomplete == 0 and not found and not harness_errors,
        "scenarios_cut_by_time": incomplete,
        "rule": chk.rule,
        "samples": _spread(samples, 5),
        "known_findings_hit": known_hits,
    }
    # not one count under two names
    del coverage["executions"]
    if chk.extra is not None:
        coverage.update(chk.extra(tier))
    ev = {
        "property": chk.id,
        "tier": tier,
        "seed": seed,
        "level": chk.level,
        "coverage": coverage,
        "assumptions": list(chk.assumptions),
        "wall_s": round(wall, 3),
        "violations": len(found),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{chk.id}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print(
        f"{chk.id} [{tier}] scenarios={len(scen)} executions={total.executions} "
        f"states={total.states} transitions={total.transitions} "
        f"outcomes={len(outcomes)} cut={incomplete} wall={wall:.1f}s"
    )
    for k in known:
        if k["id"] in known_hits:
            print(f"KNOWN-FINDING: property={chk.id} {k['what']}")
    if harness_errors and not found:
        for p, e in harness_errors:
            print(f"HARNESS ERROR in {p}:\n{e}", file=sys.stderr)
        return 2
    if found:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        seen_keys = set()
        for params, v in found:
            if v["key"] in seen_keys:
                continue
            seen_keys.add(v["key"])
            fp = hashlib.blake2b(
                (chk.id + v["key"] + repr(params)).encode("utf-8", "backslashreplace"), digest_size=6
            ).hexdigest()
            path = os.path.join(rdir, f"{chk.id}-{fp}.json")
            with open(path, "w") as f:
                json.dump(
                    {"property": chk.id, "tier": tier, "scenario_index": scen.index(params),
                     "params": repr(params), **v}, f, indent=1)
            print(f"VIOLATION property={chk.id} replay={path}")
            print(f"  [{v['key']}] params={repr(params)[:400]}")
            print("  " + v["msg"].replace("\n", "\n  ")[:1500])
            if len(seen_keys) >= 5:
                break
        return 1
    return 0


def _spread(xs, k):
    if len(xs) <= k:
        return xs
    step = len(xs) / k
    return [xs[int(i * step)] for i in range(k)]


def replay(chk: Check, path: str) -> int:
    global _CURRENT, _TIER
    with open(path) as f:
        art = json.load(f)
    _TIER = art["tier"]
    scen = list(chk.scenarios(art["tier"]))
    params = scen[art["scenario_index"]]
    if repr(params) != art["params"]:
        params = next(p for p in scen if repr(p) == art["params"])
    print("params:", params)
    ch, outcome, vio, pruned = run_one(chk.body, params, art["choices"], art["bound"])
    for t in ch.trace:
        print(f"  choice {t[0]}: {t[2]}/{t[1]}")
    for line in ch.log:
        print("  event", line)
    print("outcome:", outcome, "pruned" if pruned else "")
    if vio:
        print(f"VIOLATION property={chk.id} replay={path}\n  [{vio[0]}] {vio[1]}")
        return 1
    print("no violation on replay")
    return 0
