"""Event log of random draws.

`RandomVariable.perform` (aesara) is wrapped; each event records the Op, its
parameters, the value drawn, and the position of its bit generator before and
after the draw.
"""
import contextlib
import hashlib

import numpy as np
from aesara.tensor.random.op import RandomVariable

_orig = RandomVariable.perform
_sinks = []
_call = [0]


def new_call():
    """Tells the log that a compiled function is about to be called."""
    _call[0] += 1


class Event:
    __slots__ = ("name", "params", "value", "inc", "before", "after", "call")


def _pos(rng):
    bg = rng._bit_generator if isinstance(rng, np.random.RandomState) else rng.bit_generator
    s = bg.state
    if s["bit_generator"] != "PCG64":
        return None, hashlib.blake2b(repr(s).encode(), digest_size=8).digest()
    return s["state"]["inc"], s["state"]["state"]


def perform(self, node, inputs, outputs):
    if not _sinks:
        return _orig(self, node, inputs, outputs)
    e = Event()
    e.inc, e.before = _pos(inputs[0])
    _orig(self, node, inputs, outputs)
    e.name, e.call = self.name, _call[0]
    e.params = [np.array(x) for x in inputs[3:]]
    _, e.after = _pos(outputs[0][0])
    e.value = np.array(outputs[1][0])
    for s in _sinks:
        s.append(e)


def install():
    """Call before compiling the functions to observe."""
    RandomVariable.perform = perform


@contextlib.contextmanager
def record():
    sink = []
    _sinks.append(sink)
    try:
        yield sink
    finally:
        _sinks.remove(sink)


MULT = 0x2360ED051FC65DA44385DF649FCCF645
M = (1 << 128) - 1


def distance(s, t, inc):
    """Number of PCG64 (LCG) steps from state s to state t."""
    cm, cp, bit, d = MULT, inc, 1, 0
    while s != t:
        if (s & bit) != (t & bit):
            s = (s * cm + cp) & M
            d |= bit
        bit = (bit << 1) & M
        if bit == 0:
            return None
        cp = ((cm + 1) * cp) & M
        cm = (cm * cm) & M
    return d


def overlaps(events):
    """Pairs of draws that used the same random numbers.

    Every draw consumes the interval [before, after) of its stream.  Two
    different draws (different Op, parameters or value) must consume disjoint
    intervals.  Identical events are the same draw computed twice, but only within
    one call of a compiled function.
    """
    streams, seen = {}, set()
    bad, compared = [], 0
    for i, e in enumerate(events):
        if e.inc is None or e.before == e.after:
            continue
        key = (e.call, e.name, e.inc, e.before, e.after, e.value.tobytes())
        if key in seen:
            continue
        seen.add(key)
        streams.setdefault(e.inc, []).append(i)
    for inc, idx in streams.items():
        base = events[idx[0]].before
        iv = []
        for i in idx:
            d = distance(base, events[i].before, inc)
            if d is None:
                continue
            if d > 1 << 127:
                d -= 1 << 128
            iv.append((d, d + distance(events[i].before, events[i].after, inc), i))
        iv.sort()
        end, who = iv[0][1], iv[0][2]
        for a, b, i in iv[1:]:
            compared += 1
            if a < end:
                bad.append((who, i))
            if b > end:
                end, who = b, i
    return bad, compared, len(streams)
