"""Segment lists shared by the executable checks, and an independent reader of
the Atari binary load format."""
import itertools

import numpy as np

from core import filled
from atrcopy import SegmentData
from atrcopy.segments import DefaultSegment, ObjSegment

# (origin, length): single bytes, page edges, adjacent, overlapping, nested and identical ranges, both ends of memory
POOL = [(0x2000, 1), (0x2000, 255), (0x2000, 256), (0x20ff, 2), (0x2100, 3), (0x1fff, 257), (0x0600, 2), (0x2010, 16), (0, 1), (0, 300),
        (0xff00, 256), (0xfffe, 2), (0x0003, 5), (0xbfff, 1)]
BIG = [(0x1000, 0x8000), (0, 0x10000), (0x0800, 0xb800)]
SPECIAL = [(0x2e0, 2), (0x2e2, 2), (0x2e0, 4), (0x2df, 3)]


_fill = ""      # kind of contents, set by make_segments


def data_for(i, o, n):
    return filled(_fill, "seg%d-%d-%d" % (i, o, n), n)


def make_segments(spec, kind="plain"):
    """-> segments; kind: how their bytes are stored, and after a colon, what they contain"""
    global _fill
    kind, _, _fill = kind.partition(":")
    segs = []
    if kind == "shared":
        # all segments are views of one array
        total = sum(n for _, n in spec)
        raw = SegmentData(np.zeros(total + 7, dtype=np.uint8))
        pos = 3
        for i, (o, n) in enumerate(spec):
            raw.data[pos:pos + n] = np.frombuffer(data_for(i, o, n), dtype=np.uint8)
            segs.append(ObjSegment(raw[pos:pos + n], 0, 0, o, o + n))
            pos += n
        return segs
    for i, (o, n) in enumerate(spec):
        d = np.frombuffer(data_for(i, o, n), dtype=np.uint8).copy()
        if kind == "indexed":
            # bytes stored backwards, seen through an index
            raw = SegmentData(d[::-1].copy())
            raw = raw.get_indexed(list(range(n - 1, -1, -1)))
        else:
            raw = SegmentData(d)
        segs.append(DefaultSegment(raw, o))
    return segs


def addresses(deep):
    """load addresses: around every page boundary (around all of them, byte by byte, near the vectors)"""
    out = {a + d for a in range(0, 0x10000, 0x100) for d in ((-2, -1, 0, 1, 2, 3, 0x7f, 0x80) if deep else (-1, 0, 1))}
    out |= set(range(0x2d0, 0x300)) | set(range(0, 0x20)) | set(range(0xffe0, 0xffff))
    return sorted(a for a in out if 0 <= a < 0xffff)


def lists(pool, upto):
    for k in range(1, upto + 1):
        for t in itertools.product(pool, repeat=k):
            yield list(t)


def runs(spec):
    """run addresses worth trying for a list of segments"""
    out = [None]
    for o, n in spec:
        out += [o, o + n - 1, o + n // 2, o + n, o - 1]
    return [r for r in dict.fromkeys(out) if r is None or 0 < r <= 0xffff]


def inside(spec, addr):
    return any(o <= addr < o + n for o, n in spec)


def read_xex(b):
    """reference reader -> list of (start, bytes); ValueError if malformed"""
    if b[0:2] != b"\xff\xff":
        raise ValueError("no $FFFF in front")
    p = 0
    out = []
    while p < len(b):
        if b[p:p + 2] == b"\xff\xff":
            p += 2
            continue
        if p + 4 > len(b):
            raise ValueError("incomplete header at %d" % p)
        s = b[p] | b[p + 1] << 8
        e = b[p + 2] | b[p + 3] << 8
        if e < s:
            raise ValueError("end before start at %d" % p)
        n = e - s + 1
        if p + 4 + n > len(b):
            raise ValueError("incomplete segment at %d" % p)
        out.append((s, b[p + 4:p + 4 + n]))
        p += 4 + n
    return out
