"""Test description shared by the check modules."""
from dataclasses import dataclass
from typing import Callable, Optional


@dataclass
class Test:
    name: str
    strategy: Callable  # () -> hypothesis strategy of JSON cases
    check: Callable     # (case, rec) -> None, raises on a violation
    quick: int
    thorough: int
    weight: float = 1.0
    max_workers: Optional[int] = None


def need(cond, msg, *args):
    """The oracle's verdict."""
    if not cond:
        raise AssertionError(msg % args if args else msg)
