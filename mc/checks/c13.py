"""C13 Apple ][ boot disks: run the boot sector on a 6502 / Disk II model"""
import contextlib
import io
import itertools

import numpy as np

import exe
from core import FILLS, Violation, chunks
from cpu6502 import Crash, boot
from atrcopy import errors
from atrcopy.standard_delivery import StandardDeliveryImage

PROPERTY = "C13"
LEVEL = "model_checking"
TITLE = "an Apple boot disk loads every segment to its address"
RULE = ("for every list of segments the disk is built and its boot sector is executed instruction by instruction on a model of the "
        "6502, the Disk II boot ROM's sector reader and the drive's head stepper; memory and jump address are compared with the segments; "
        "states = distinct images")
BOUNDS = {
    "quick": "one segment of every page count 1..183 (aligned, unaligned start, unaligned end) at 3 addresses; 1, 3 and 32 pages at every page; both screen aliases; all ordered lists of <= 3 segments over 14 address ranges (shared pages, hi-res screens, 32-page groups, overlaps) x run addresses; 1..125 one-page segments; disks more than full",
    "thorough": "all ordered lists of <= 4 segments, every page count at 8 addresses",
}
ASSUMPTIONS = [
    "boots from slot 6 on a drive whose boot ROM behaves like the Disk II P5A ROM",
    "segments lie within $0900-$BFFF; $2001 and $4001 are the documented aliases for loading a hi-res screen without showing it; which screen is shown is not checked",
]

POOL = [(0x2000, 0x2000), (0x4000, 0x2000), (0x2000, 0x1ff8), (0x0900, 1), (0x09ff, 2), (0x0a01, 255), (0x6000, 0x300), (0x6300, 0x201), (0x6080, 0x40),
        (0x60f0, 0x20), (0x6501, 0x2000), (0x8501, 0x1000), (0xbfff, 1), (0x3f80, 0x100)]


def check(case):
    spec = [tuple(s) for s in case["segs"]]
    run = case.get("run")
    segs = exe.make_segments(spec, case.get("kind", "plain"))
    before = [bytes(s[:]) for s in segs]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            img = StandardDeliveryImage.create_boot_image(segs, run)
    except errors.AtrError as e:
        pages = sum((o % 256 + n + 255) // 256 for o, n in spec)
        # every segment needs one or two table entries per group of up to 32 pages, plus a possible screen switch
        least = sum(2 if p > 2 else p for o, n in spec for p in [(o % 256 + n + 255) // 256])
        most = sum(2 * ((p + 31) // 32) + 33 * (o == 0x2000) + 1 for o, n in spec for p in [(o % 256 + n + 255) // 256])
        if pages <= 559 and (most <= 100 or not isinstance(e, errors.NotEnoughSpaceOnDisk)):
            raise Violation("refused %d segments with %d pages that need at most %d table entries" % (len(spec), pages, most))
        return b"refused %d %d" % (len(spec), least)
    raw = np.asarray(img.bytes[:]).tobytes()
    if len(raw) != 143360:
        raise Violation("image has %d bytes" % len(raw))
    if [bytes(s[:]) for s in segs] != before:
        raise Violation("building the disk changed the segments")
    try:
        mem, pc, reads = boot(raw)
    except Crash as e:
        raise Violation("booting the disk fails: %s" % e)
    want = {}
    for (o, n), d in zip(spec, before):
        if o in (0x2001, 0x4001):
            o -= 1      # loads the screen without showing it
        for i in range(0, n):
            want[o + i] = d[i]
    bad = [a for a in want if mem[a] != want[a]]
    if bad:
        raise Violation("%d bytes are wrong after booting, first at $%04x: $%02x instead of $%02x" % (len(bad), bad[0], mem[bad[0]], want[bad[0]]))
    goal = run or spec[0][0]
    if pc != goal:
        raise Violation("jumps to $%04x instead of $%04x" % (pc, goal))
    if len(set((t, s) for t, s, _ in reads)) != len(reads):
        raise Violation("reads a sector twice")
    return raw


def run_case(case):
    return check(case)


def fam(res, args):
    for c in args["cases"]:
        res.count("traces")
        res.count("transitions")
        res.sample(c)
        raw = res.case(c, check, c)
        if raw is not None:
            res.state(raw)


FAMILIES = {"sizes": fam, "lists": fam, "many": fam, "full": fam}


def plan(tier):
    deep = tier == "thorough"
    out = []
    cs = []
    bases = [0x0900, 0x2000, 0x4000] + ([0x0a00, 0x1f00, 0x2100, 0x6000, 0x9f00] if deep else [])
    for b in bases:
        for pages in range(1, (0xc000 - b) // 256 + 1):
            cs.append({"segs": [(b, pages * 256)]})
            cs.append({"segs": [(b, pages * 256 - 255)]})
            if pages > 1:
                cs.append({"segs": [(b + 2, pages * 256 - 3)], "run": b + pages * 256 - 2})
    # groups of pages anywhere
    for page in range(0x09, 0xc0):
        for pages in (1, 2, 3, 31, 32, 33, 64, 65) if deep else (1, 3, 32):
            if page + pages <= 0xc0:
                cs.append({"segs": [(page * 256, pages * 256)]})
                if pages == 32:
                    cs.append({"segs": [(page * 256, pages * 256), (0x2000, 0x2000)]})
                    cs.append({"segs": [(0x2000, 0x2000), (page * 256, pages * 256 - 3)]})
    for a in (0x2001, 0x4001):
        for n in (1, 2, 254, 255, 256, 257, 0x1fff, 0x2000, 0x2001, 0x2100):
            for r in (0x2000, 0x4003, 0x3d0):
                cs.append({"segs": [(a, n)], "run": r})
            for o, m in ((0x0900, 300), (0x2000, 0x2000), (0x4000, 0x2000), (0x2001, 0x2000), (0x4001, 0x2000)):
                cs += [{"segs": [(a, n), (o, m)], "run": 0x2000}, {"segs": [(o, m), (a, n)], "run": 0x2000}]
    out += [("sizes", {"cases": c}) for c in chunks(cs, 40)]
    cs = []
    for k in (1, 2, 3, 4) if deep else (1, 2, 3):
        for spec in itertools.permutations(POOL, k):
            runs = [None]
            if k <= 2:
                runs += [spec[-1][0] + spec[-1][1] - 1, spec[-1][0], 0xbffe, 0xff69, 0x3d0]
            for r in dict.fromkeys(runs):
                cs.append({"segs": list(spec), "run": r})
            if k == 1 or (k == 2 and deep):
                cs += [{"segs": list(spec), "kind": kd} for kd in ("shared", "indexed")]
            if k <= 2:
                cs += [{"segs": list(spec), "kind": "plain:" + f} for f in (FILLS if deep or k == 1 else ("zero", "ff", "zerostart", "zeroend"))]
    out += [("lists", {"cases": c}) for c in chunks(cs, 60)]
    cs = []
    for n in range(1, 126):
        cs.append({"segs": [(0x0900 + 256 * i + i, 3) for i in range(n)]})
        cs.append({"segs": [(0x6000 + 2 * i, 2) for i in range(n)]})
        cs.append({"segs": [(0x0a00 + 700 * i, 600) for i in range(n) if 0x0a00 + 700 * i + 600 <= 0xc000]})
    cs = [c for i, c in enumerate(cs) if c not in cs[:i]]
    out += [("many", {"cases": c}) for c in chunks(cs, 20)]
    cs = []
    for k in range(1, 5):
        for last in (1, 2, 3, 8, 9, 10, 11, 12, 100):
            cs.append({"segs": [(0x0900, 0xb700)] * k + [(0x1000, last * 256)]})
    out += [("full", {"cases": c}) for c in chunks(cs, 4)]
    return out
