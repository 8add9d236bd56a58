"""Loops over symbolic lengths: bounded unrolling by forking."""
from . import core
from .core import SNum, Unsupported

UNROLL = 6


def concretize(n, limit=None):
    """Concrete value of a symbolic length (forks); Unsupported beyond the limit."""
    if isinstance(n, int):
        return n
    limit = UNROLL if limit is None else limit
    for k in range(limit + 1):
        if bool(core.compare("==", n, k)):
            return k
    raise Unsupported("iteration over a symbolic-length array")
