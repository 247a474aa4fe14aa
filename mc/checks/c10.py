"""C10 Atari executables"""
import numpy as np

import exe
from core import FILLS, Violation, chunks, pattern
from atrcopy import SegmentData, errors, find_diskimage_from_data
from atrcopy.ataridos import AtariDosFile, AtariDosDiskImage
from atrcopy.executables import get_xex, create_executable_file_data

PROPERTY = "C10"
LEVEL = "model_checking"
TITLE = "an Atari executable built from segments loads the same bytes again"
RULE = ("every list of segments x run address is built into an executable; its bytes are read by an independent reader of the load format "
        "and by the library's parser and compared with the request; parse direction: every sequence of header/segment blocks; states = distinct executables")
BOUNDS = {
    "quick": "all lists of <= 3 segments over 14 address/length pairs (1 byte to 300 bytes, adjacent/overlapping/equal, both ends of memory), <= 2 with 32K-64K and run/init-address segments; all run addresses at start, middle, end and just outside of each segment; 3 storage kinds; lists of 4..70 and up to 257 segments in 3 arrangements; 9 kinds of contents (zeros, 255, blanks, line ends, markers) in lists of <= 2; one or two segments around every page boundary and at every address near 0, $2D0-$2FF and $FFFF; all block sequences of <= 5 for the parser",
    "thorough": "all lists of <= 4 segments over 18 pairs with all run addresses",
}
ASSUMPTIONS = ["no segment begins at $FFFF (that value marks a header in the format)", "segments lie within 64K"]


def check_build(case):
    spec = [tuple(s) for s in case["segs"]]
    run = case["run"]
    segs = exe.make_segments(spec, case.get("kind", "plain"))
    before = [(s.origin, bytes(s[:])) for s in segs]
    own = any(o == 0x2e0 for o, _ in spec)
    bad = bool(run) and not own and not exe.inside(spec, run)
    name = case.get("name")
    try:
        if name:
            data, ftype = create_executable_file_data(name, segs, run)
            subs = None
            if ftype != "XEX":
                raise Violation("file type %r" % ftype)
        else:
            main, subs = get_xex(segs, run)
            data = main.data
    except errors.InvalidBinaryFile:
        if bad:
            return b"refused"
        raise
    if bad:
        raise Violation("run address $%04x outside of all segments accepted" % run)
    if [(s.origin, bytes(s[:])) for s in segs] != before:
        raise Violation("building the executable changed the segments")
    raw = bytes(np.asarray(data).tobytes()) if not hasattr(data, "np_data") else bytes(data[:].tobytes())
    want = [(o, d) for o, d in before]
    if not own:
        r = run or spec[0][0]
        want.insert(0, (0x2e0, bytes([r & 255, r >> 8])))
    try:
        got = exe.read_xex(raw)
    except ValueError as e:
        raise Violation("malformed executable: %s" % e)
    compare("file", got, want)
    # the library's own view
    f = AtariDosFile(SegmentData(np.frombuffer(raw, dtype=np.uint8).copy()))
    f.parse_segments()
    compare("parsed", [(int(s.origin), bytes(s[:])) for s in f.segments], want)
    if want[0][0] == 0x2e0 and not own:
        if f.segments[0].run_address() != (run or spec[0][0]):
            raise Violation("parsed run address is $%04x" % f.segments[0].run_address())
    if subs is not None:
        compare("returned segments", [(int(s.origin), bytes(s[:])[4:]) for s in subs], want)
    if case.get("identify"):
        parser, mime = find_diskimage_from_data(raw)
        if parser.menu_name != "XEX (Atari 8-bit executable)":
            raise Violation("executable is identified as %r" % parser.menu_name)
        compare("identified", [(int(s.origin), bytes(s[:])) for s in parser.segments[1:]], want)
    return raw


def compare(what, got, want):
    if got != want:
        def d(x):
            return ["$%04x+%d" % (o, len(b)) for o, b in x]
        for i, (g, w) in enumerate(zip(got, want)):
            if g != w:
                raise Violation("%s: segment %d is $%04x+%d %s.., expected $%04x+%d %s.." % (
                    what, i, g[0], len(g[1]), g[1][:8].hex(), w[0], len(w[1]), w[1][:8].hex()))
        raise Violation("%s: segments %s, expected %s" % (what, d(got), d(want)))


BLOCKS = {
    "h": lambda i: (b"\xff\xff", None),
    "a": lambda i: block(0x2000 + i, pattern("a%d" % i, 1)),
    "b": lambda i: block(0x3000 + i, pattern("b%d" % i, 130)),
    "r": lambda i: block(0x2e0, b"\x34\x12"),
    "i": lambda i: block(0x2e2, b"\x78\x56"),
    "z": lambda i: block(0xfff0, b"\xff" * 16),
    "o": lambda i: block(0, pattern("o%d" % i, 2)),
}


def block(start, data):
    e = start + len(data) - 1
    return bytes([start & 255, start >> 8, e & 255, e >> 8]) + data, (start, data)


def check_parse(case):
    raw = b"\xff\xff"
    want = []
    for i, k in enumerate(case["blocks"]):
        b, seg = BLOCKS[k](i)
        raw += b
        if seg:
            want.append(seg)
    arr = np.frombuffer(raw, dtype=np.uint8).copy()
    f = AtariDosFile(SegmentData(arr))
    f.parse_segments()
    compare("parsed", [(int(s.origin), bytes(s[:])) for s in f.segments], want)
    for s in f.segments:
        if int(s.origin) == 0x2e0 and s.run_address() != 0x1234:
            raise Violation("run address read as %s" % s.run_address())
        # a segment is a view: writing through it changes the file at the right place
        o = s.get_raw_index(0)
        if getattr(s, "data_start", o) != o or getattr(s, "metadata_start", o - 4) != o - 4:
            raise Violation("segment $%04x is shown at file index %d, header at %d, but starts at %d" % (s.origin, s.data_start, s.metadata_start, o))
        if raw[o:o + len(s)] != bytes(s[:]):
            raise Violation("position of segment $%04x in the file is wrong" % s.origin)
    if arr.tobytes() != raw:
        raise Violation("parsing changed the file")
    # cut anywhere in the last block: everything before it is still there
    if case.get("cut") and want and case["blocks"][-1] != "h":
        last = 4 + len(want[-1][1])
        for c in range(1, last):
            g = AtariDosFile(SegmentData(np.frombuffer(raw[:-c], dtype=np.uint8).copy()))
            g.parse_segments()
            compare("cut by %d" % c, [(int(s.origin), bytes(s[:])) for s in g.segments][:len(want) - 1], want[:-1])
    return raw


def run_case(case):
    return check_parse(case) if "blocks" in case else check_build(case)


def fam(res, args):
    for c in args["cases"]:
        res.count("traces")
        res.count("transitions", len(c.get("segs", c.get("blocks", ()))) or 1)
        res.sample(c)
        raw = res.case(c, run_case, c)
        if raw is not None:
            res.state(raw)


def fam_lists(res, args):
    """all lists with the given first element(s)"""
    pool = [tuple(p) for p in args["pool"]]
    for tail in [[]] + list(exe.lists(pool, args["upto"] - len(args["head"]))):
        spec = [list(p) for p in args["head"]] + [list(t) for t in tail]
        rs = exe.runs([tuple(s) for s in spec])
        if len(spec) >= 3 and not args["full"]:
            rs = rs[:1] + rs[2::4]
        for r in rs:
            c = {"segs": spec, "run": r, "kind": args["kind"]}
            res.count("traces")
            res.count("transitions", len(spec))
            res.sample(c)
            raw = res.case(c, run_case, c)
            if raw is not None:
                res.state(raw)


FAMILIES = {"lists": fam_lists, "build": fam, "parse": fam}


def plan(tier):
    out = []
    deep = tier == "thorough"
    pool = exe.POOL + (exe.SPECIAL if deep else [])
    for p in pool:
        if deep:
            out += [("lists", {"head": [p, q], "pool": pool, "upto": 4, "kind": "plain", "full": True}) for q in pool]
        else:
            out.append(("lists", {"head": [p], "pool": pool, "upto": 3, "kind": "plain", "full": False}))
        for fill in FILLS:
            out.append(("lists", {"head": [p], "pool": pool, "upto": 2, "kind": "plain:" + fill, "full": deep}))
        for kind in ("shared", "indexed"):
            out.append(("lists", {"head": [p], "pool": pool, "upto": 2, "kind": kind, "full": True}))
    for p in exe.SPECIAL + exe.BIG:
        small = exe.POOL[:6] + exe.SPECIAL
        out.append(("lists", {"head": [p], "pool": small, "upto": 2, "kind": "plain", "full": True}))
        out += [("lists", {"head": [q, p], "pool": small, "upto": 2, "kind": "plain", "full": True}) for q in small]
    cs = []
    for p in exe.POOL + exe.BIG:
        for q in exe.POOL[:5] + exe.SPECIAL:
            for name in ("GAME.XEX", "game.xex", "XEX", None):
                cs.append({"segs": [p, q], "run": p[0] or None, "name": name, "identify": True})
    for n in list(range(4, 71)) + [100, 127, 128, 129, 255, 256, 257]:
        for segs in ([(0x1000 + 8 * i, 4) for i in range(n)], [(0x4000 - 3 * i, 3) for i in range(n)], [(0x2000 + 100 * i, 1 + i) for i in range(n)]):
            for r in dict.fromkeys((None, segs[-1][0], segs[n // 2][0] + segs[n // 2][1] - 1, segs[-1][0] + segs[-1][1])):
                cs.append({"segs": segs, "run": r})
    # every page boundary, every power of two, around the run and init vectors
    for a in exe.addresses(deep):
        n = 1 if a == 0xffff - 1 or 0x2d0 <= a <= 0x2ff and a != 0x2e0 else 2
        for segs in ([(a, n)], [(a, n), (0x4005, 5)], [(0x4005, 5), (a, n)]):
            for r in dict.fromkeys((None, a or None, a + n - 1 or None, 0x4005)):
                cs.append({"segs": segs, "run": r})
    out += [("build", {"cases": c}) for c in chunks(cs, 40)]
    import itertools
    ps = []
    for n in range(0, 6 if deep else 5):
        for t in itertools.product("habrizo", repeat=n):
            ps.append({"blocks": "".join(t), "cut": n <= 2})
    out += [("parse", {"cases": c}) for c in chunks(ps, 200)]
    return out
