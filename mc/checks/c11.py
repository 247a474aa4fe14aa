"""C11 Apple binaries"""
import numpy as np

import exe
from core import FILLS, Violation, chunks
from atrcopy import SegmentData, errors, find_diskimage_from_data
from atrcopy.dos33 import Dos33BinFile
from atrcopy.executables import get_bsave, create_executable_file_data

PROPERTY = "C11"
LEVEL = "model_checking"
TITLE = "an Apple binary built from segments holds every byte at its address"
RULE = ("every list of segments x run address is built into a BSAVE file and compared byte by byte with a 64K memory model loaded with the same "
        "segments; the file is then parsed again; states = distinct files")
BOUNDS = {
    "quick": "all lists of <= 3 segments over 13 address/length pairs (adjacent, overlapping, nested, equal, gaps, both ends of memory), <= 2 with 32K and larger; all run addresses at start, middle, end and just outside of each segment; 3 storage kinds; lists of 4..70 and up to 257 segments in 3 arrangements; 9 kinds of contents (zeros, 255, blanks, line ends, markers) in lists of <= 2; one or two segments around every page boundary and at every address near 0, $2D0-$2FF and $FFFF",
    "thorough": "all lists of <= 4 segments with all run addresses",
}
ASSUMPTIONS = ["the combined image is shorter than 64K and starts at $0003 or later if a jump is needed"]

POOL = [p for p in exe.POOL if p[0] not in (0,)] + [(0x2001, 2)]


def check(case):
    spec = [tuple(s) for s in case["segs"]]
    run = case["run"]
    lo = min(o for o, _ in spec)
    hi = max(o + n for o, n in spec)
    jump = bool(run) and run != lo
    if hi - lo + 3 * jump > 0xffff or (jump and lo < 3):
        return None
    segs = exe.make_segments(spec, case.get("kind", "plain"))
    before = [(s.origin, bytes(s[:])) for s in segs]
    bad = jump and not exe.inside(spec, run)
    try:
        if case.get("name"):
            data, ftype = create_executable_file_data(case["name"], segs, run)
            if ftype != "B":
                raise Violation("file type %r" % ftype)
        else:
            data = get_bsave(segs, run)
    except errors.InvalidBinaryFile:
        if bad:
            return b"refused"
        raise
    if bad:
        raise Violation("run address $%04x outside of all segments accepted" % run)
    if [(s.origin, bytes(s[:])) for s in segs] != before:
        raise Violation("building the binary changed the segments")
    raw = bytes(np.asarray(data).tobytes())
    mem = bytearray(0x10000 + 4)
    for o, d in before:
        mem[o:o + len(d)] = d
    start = lo
    if jump:
        start = lo - 3
        mem[start:lo] = bytes([0x4c, run & 255, run >> 8])
    n = hi - start
    if raw[0:4] != bytes([start & 255, start >> 8, n & 255, n >> 8]):
        raise Violation("header %s, expected load address $%04x length $%04x" % (raw[0:4].hex(), start, n))
    if len(raw) != n + 4:
        raise Violation("%d bytes, expected %d" % (len(raw), n + 4))
    want = bytes(mem[start:hi])
    if raw[4:] != want:
        k = next(i for i in range(n) if raw[4 + i] != want[i])
        raise Violation("byte at $%04x is $%02x, expected $%02x" % (start + k, raw[4 + k], want[k]))
    f = Dos33BinFile(SegmentData(np.frombuffer(raw, dtype=np.uint8).copy()))
    f.parse_segments()
    got = [(int(s.origin), bytes(s[:])) for s in f.segments]
    if got != [(start, want)]:
        raise Violation("parsed into %s" % [("$%04x" % o, len(d)) for o, d in got])
    if case.get("identify"):
        parser, mime = find_diskimage_from_data(raw)
        if parser.menu_name == "BIN (Apple ][ executable)":
            got = [(int(s.origin), bytes(s[:])) for s in parser.segments[1:]]
            if got != [(start, want)]:
                raise Violation("identified file is parsed into %s" % [("$%04x" % o, len(d)) for o, d in got])
    return raw


def run_case(case):
    return check(case)


def one(res, c):
    res.sample(c)
    raw = res.case(c, check, c)
    res.count("traces")
    res.count("transitions", len(c["segs"]))
    if raw is not None:
        res.state(raw)


def fam_lists(res, args):
    pool = [tuple(p) for p in args["pool"]]
    for tail in [[]] + list(exe.lists(pool, args["upto"] - len(args["head"]))):
        spec = [list(p) for p in args["head"]] + [list(t) for t in tail]
        rs = exe.runs([tuple(s) for s in spec])
        if len(spec) >= 3 and not args["full"]:
            rs = rs[:1] + rs[2::4]
        for r in rs:
            one(res, {"segs": spec, "run": r, "kind": args["kind"]})


def fam(res, args):
    for c in args["cases"]:
        one(res, c)


FAMILIES = {"lists": fam_lists, "build": fam}


def plan(tier):
    out = []
    deep = tier == "thorough"
    for p in POOL:
        if deep:
            out += [("lists", {"head": [p, q], "pool": POOL, "upto": 4, "kind": "plain", "full": True}) for q in POOL]
        else:
            out.append(("lists", {"head": [p], "pool": POOL, "upto": 3, "kind": "plain", "full": False}))
        for fill in FILLS:
            out.append(("lists", {"head": [p], "pool": POOL, "upto": 2, "kind": "plain:" + fill, "full": deep}))
        for kind in ("shared", "indexed"):
            out.append(("lists", {"head": [p], "pool": POOL, "upto": 2, "kind": kind, "full": True}))
    for p in exe.BIG + [(0, 1), (0, 300), (2, 1), (1, 0xfffe)]:
        out.append(("lists", {"head": [p], "pool": POOL[:6], "upto": 2, "kind": "plain", "full": True}))
        out += [("lists", {"head": [q, p], "pool": POOL[:6], "upto": 2, "kind": "plain", "full": True}) for q in POOL[:6]]
    cs = []
    for p in POOL + exe.BIG:
        for q in POOL[:5]:
            for name in ("GAME.BIN", "game.bsave", "BSAVE", None):
                for r in (None, q[0]):
                    cs.append({"segs": [p, q], "run": r, "name": name, "identify": True})
    for n in list(range(4, 71)) + [100, 127, 128, 129, 255, 256, 257]:
        for segs in ([(0x1000 + 8 * i, 4) for i in range(n)], [(0x4000 - 3 * i, 3) for i in range(n)], [(0x2000 + 100 * i, 1 + i) for i in range(n)]):
            for r in dict.fromkeys((None, segs[-1][0], segs[n // 2][0] + segs[n // 2][1] - 1, segs[-1][0] + segs[-1][1])):
                cs.append({"segs": segs, "run": r})
    # every page boundary and both ends of memory
    for a in exe.addresses(deep):
        n = 1 if a == 0xfffe else 2
        for segs in ([(a, n)], [(a, n), (0x4005, 5)], [(0x4005, 5), (a, n)]):
            for r in dict.fromkeys((None, a or None, a + n - 1 or None, 0x4005)):
                cs.append({"segs": segs, "run": r})
    out += [("build", {"cases": c}) for c in chunks(cs, 40)]
    return out
