"""Generators shared by the checks. Every case is JSON."""
from hypothesis import strategies as st


def fx(lo, hi, step=0.001):
    """Reals in [lo, hi] on a fine decimal grid: shrinks towards short numbers."""
    dec = max(0, len(repr(step).rstrip("0").split(".")[-1])) if step < 1 else 0
    a, b = int(round(lo / step)), int(round(hi / step))
    return st.integers(a, b).map(lambda k: round(k * step, dec))


def logx(lo, hi):
    """Reals spread over decades."""
    import math
    return fx(math.log10(lo), math.log10(hi)).map(lambda e: float("%.4g" % 10 ** e))


def sign():
    return st.sampled_from([1, -1])
