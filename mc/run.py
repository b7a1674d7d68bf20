"""Entry point: python -m mc.run <ID> [--tier quick|thorough] | replay <file>"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import sys
import warnings


def load(pid: str):
    mod = importlib.import_module(f"checks.{pid.lower()}")
    return mod.CHECK


def main() -> int:
    warnings.simplefilter("ignore")
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("path", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args()
    from mc import core, vtime  # noqa: F401

    if a.what == "selftest":
        from mc import selftest

        return selftest.main()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.what == "replay":
        with open(a.path) as f:
            art = json.load(f)
        return core.replay(load(art["property"]), a.path)
    budget = a.budget or (600.0 if a.tier == "quick" else 800.0)
    chk = load(a.what)
    return core.run_check(chk, a.tier, seed, budget, a.jobs)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
