"""Segment views over a small base array, and what they should show."""
import itertools

import numpy as np

from core import pattern
from atrcopy.segments import DefaultSegment, ObjSegment, SegmentData, SegmentedFileSegment


def build(path, n, origin=0, cls=None, base=None):
    """path: list of ["s", a, b] / ["i", [..]] steps -> (segment, reference index list, base SegmentData)"""
    if base is None:
        base = SegmentData(np.frombuffer(pattern("view", n), dtype=np.uint8).copy())
    r = base
    ref = list(range(n))
    for st in path:
        if st[0] == "s":
            r = r[st[1]:st[2]]
            ref = ref[st[1]:st[2]]
        else:
            r = r.get_indexed(list(st[1]))
            ref = [ref[i] for i in st[1]]
    return (cls or DefaultSegment)(r, origin), ref, base


def slices(n):
    return [["s", a, b] for a in range(n + 1) for b in range(a, n + 1)]


def index_lists(n, upto):
    for k in range(upto + 1):
        for t in itertools.product(range(n), repeat=k):
            yield ["i", list(t)]


def length(path, n):
    for st in path:
        n = st[2] - st[1] if st[0] == "s" else len(st[1])
    return n


def sub_ranges(n):
    return [(a, b) for a in range(n + 1) for b in range(a, n + 1)]


def runs(flags):
    """list of bools -> [(start, end)] of the consecutive true stretches"""
    out = []
    for i, f in enumerate(flags):
        if f:
            if out and out[-1][1] == i:
                out[-1] = (out[-1][0], i + 1)
            else:
                out.append((i, i + 1))
    return out
