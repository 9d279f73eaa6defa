"""Helpers shared by the contract modules."""
from pyvc import engine
from pyvc.engine import *
from skdecide.core import Memory


def cx():
    return engine.CTX


def memory_ctor(x=(), maxlen=None):
    """Assumed contract of the deque constructor: the last maxlen elements in order."""
    if type(x) is not SymSeq and not isinstance(maxlen, engine.Sym):
        return Memory(x, maxlen)
    x = to_seq(x if type(x) is SymSeq else list(x))
    r = x.copy()
    r.cls, r.maxlen_ = Memory, maxlen
    if maxlen is not None:
        m, n, e = num(maxlen), x.n, x.elem
        if not engine.CTX.branch(n <= m):
            r.n, r.elem, r.arrays = m, (lambda j: e(j + (n - m))), None
    return r


def with_memory():
    engine.CTORS[Memory] = memory_ctor
    return lambda: engine.CTORS.pop(Memory, None)
