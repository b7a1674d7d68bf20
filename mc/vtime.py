"""Virtual clock. Must be imported before connectrpc: it replaces time.monotonic with a
wrapper that reads the virtual clock while one is active and the real clock otherwise."""
from __future__ import annotations

import time

_real_monotonic = time.monotonic
_clock: list[float] | None = None


def _monotonic() -> float:
    c = _clock
    return _real_monotonic() if c is None else c[0]


time.monotonic = _monotonic
real_monotonic = _real_monotonic


class virtual_clock:
    """Context manager: time.monotonic() == cell[0] while active."""

    def __init__(self, start: float = 1000.0) -> None:
        self.cell = [start]

    def __enter__(self) -> list[float]:
        global _clock
        self._prev = _clock
        _clock = self.cell
        return self.cell

    def __exit__(self, *a) -> None:
        global _clock
        _clock = self._prev
