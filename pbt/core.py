"""Violations, the call wrapper around the code under test, and campaign descriptions."""

from __future__ import annotations

from dataclasses import dataclass, field
from typing import Any, Callable


class Violation(Exception):
    """The property does not hold on this case.  ``finding`` names a recorded known finding, if any."""

    def __init__(self, message: str, finding: str | None = None):
        super().__init__(message)
        self.finding = finding


class Hang(Violation):
    """A call did not come back within a CPU budget hundreds of times its normal cost."""


class Ambiguous(Exception):
    """The input sits on a documented tolerance: the case carries no verdict."""


class StopRun(BaseException):
    """Raised to leave Hypothesis when the time guard is reached (not a verdict)."""


def sut(f: Callable, *args, **kwargs):
    """Call the code under test with inputs it must accept: an exception is a violation."""
    try:
        return f(*args, **kwargs)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{getattr(f, '__name__', f)} raised {type(e).__name__}: {e}") from e


def require(cond, message: str):
    if not cond:
        raise Violation(message)


@dataclass
class Ctx:
    """What one case reports about itself."""

    labels: list[str] = field(default_factory=list)
    trivial: bool = False
    notes: list[str] = field(default_factory=list)
    known: list[str] = field(default_factory=list)

    def label(self, *names: str):
        self.labels.extend(names)


@dataclass
class Campaign:
    """One generated campaign: for each stratum, ``quick``/``thorough`` examples from ``strategy(stratum)``."""

    name: str
    strategy: Callable[[Any], Any]
    run: Callable[[dict, Ctx], None]
    strata: Callable[[str], list]  # tier -> strata
    quick: int
    thorough: int
    cpu_limit: float = 100.0
