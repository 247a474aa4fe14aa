"""C23 the segments of an image show its structure"""
import itertools

import numpy as np

import atari_ref as A
import dos33_ref as D
import sparta_ref as S
from checks import c22
from core import Violation, chunks, pattern
from atrcopy import add_xexboot_header, find_diskimage_from_data

PROPERTY = "C23"
LEVEL = "model_checking"
TITLE = "the segments of an image show its structure exactly"
RULE = ("disks are produced by independent encoders; after opening, the complete segment list is compared with one computed from how the disk was built: "
        "for each segment the position in the image of every one of its bytes, its address and its name; then each is changed through the segment and the image compared; "
        "states = distinct (image, segment list)")
BOUNDS = {
    "quick": "Atari DOS on 7 layouts, MyDOS on 3, DOS 3.3, SpartaDOS on 5, KBoot: all file sets of <= 2 out of 12 contents (empty, plain, executables of 1..4 parts, with run address, repeated markers, cut, reversed) in 3 sector orders; "
             "executables whose first part has every length 1..300; boot records: all sector counts 0..12 and 250..255 x 5 addresses x 3 flags; labels and comments of every byte; ROM ZIP files of 1..3 members of 2 or 4 sizes, each stored or deflated",
    "thorough": "file sets of 3, first parts of up to 1100 bytes",
}
ASSUMPTIONS = ["files are undamaged (C09 covers damaged ones)"]


def arr(b):
    return np.frombuffer(b, dtype=np.uint8).copy()


def part(a, n, k):
    e = a + n - 1
    return bytes([a & 255, a >> 8, e & 255, e >> 8]) + bytes((i * 3 + k * 17 + 1) & 0x7f for i in range(n))


def xex(parts, marks=(0,)):
    """-> (bytes, [(origin, offset in file, length)])"""
    out = b""
    where = []
    for k, (a, n) in enumerate(parts):
        if k in marks:
            out += b"\xff\xff"
        where.append((a, len(out) + 4, n))
        out += part(a, n, k)
    return out, where


def content(kind):
    """-> (file bytes, parts or None if none are to be shown)"""
    if isinstance(kind, int):
        return xex([(0x2000, kind), (0x2e0, 2), (0x3000, 7)], (0, 2))
    table = {
        "empty": (b"", []),
        "plain": (pattern("plain", 200), []),
        "byte": (b"\x41", []),
        "text": (b"HELLO\x9b", []),
        "one": xex([(0x2000, 40)]),
        "two": xex([(0x2000, 200), (0x600, 1)]),
        "run": xex([(0x4000, 10), (0x2e0, 2)]),
        "marks": xex([(0x4000, 130), (0x5000, 260), (0x2e2, 2), (0x2e0, 2)], (0, 1, 3)),
        "same": xex([(0x600, 3), (0x600, 3)]),
        "zero": xex([(0, 5), (0xfff0, 16)]),
    }
    if kind in table:
        return table[kind]
    if kind == "marker":
        return b"\xff\xff", []
    if kind == "reversed":
        return b"\xff\xff\x00\x30\xff\x2f" + bytes(30), []
    if kind == "cut":
        d, w = xex([(0x2000, 20), (0x3000, 50)])
        return d[:-10], [w[0], "rest"]
    raise ValueError(kind)


KINDS = ["empty", "plain", "byte", "text", "one", "two", "run", "marks", "same", "zero", "marker", "reversed", "cut"]


def indexes(s):
    return [s.get_raw_index(i) for i in range(len(s))]


def spread(segs):
    """compress a list of positions for messages"""
    return "%d bytes from %s" % (len(segs), segs[0] if segs else "-")


def compare(raw, want, menu, labels=None, comments=None):
    """want: list of (name part, origin or None, positions)"""
    data = arr(raw)
    parser, mime = find_diskimage_from_data(data)
    if parser.menu_name != menu:
        raise Violation("recognised as %s" % parser.menu_name)
    segs = parser.segments
    if indexes(segs[0]) != list(range(len(raw))):
        raise Violation("first segment is not the entire image")
    segs = [s for s in segs[1:] if len(s) or "Header" not in s.name]     # a missing header may be shown as empty
    i = 0
    for w in want:
        if w == "rest":
            i += 1
            continue
        name, origin, pos = w
        if i >= len(segs):
            raise Violation("no segment for %s" % name)
        s = segs[i]
        if name not in s.name and name not in str(s):
            raise Violation("segment %d is %s, should be %s" % (i, s, name))
        got = indexes(s)
        if got != pos:
            k = next((k for k in range(min(len(got), len(pos))) if got[k] != pos[k]), min(len(got), len(pos)))
            raise Violation("%s shows %s, should be %s; different from byte %d on" % (name, spread(got), spread(pos), k))
        if s.tobytes() != bytes(raw[p] for p in pos):
            raise Violation("%s does not show the bytes at its positions" % name)
        if origin is not None and s.origin != origin:
            raise Violation("%s is at $%04x, should be $%04x" % (name, s.origin, origin))
        str(s), s.verbose_info
        i += 1
    if i != len(segs):
        raise Violation("unexpected segment %s" % segs[i])
    if data.tobytes() != raw:
        raise Violation("opening changed the image")
    # labels
    for name, f in (labels or {}).items():
        s = next(s for s in segs if s.name == name)
        for k in range(len(s)):
            if s.label(k) != f(k) or s.label(k, False) != f(k, "X"):
                raise Violation("byte %d of %s is labelled %s instead of %s" % (k, name, s.label(k), f(k)))
    for name, table in (comments or {}).items():
        s = next(s for s in segs if s.name == name)
        for k, text in table.items():
            if text not in s.get_comment(k):
                raise Violation("byte %d of %s: comment %r instead of %s" % (k, name, s.get_comment(k), text))
    # every segment is a view
    image = bytearray(raw)
    for j, (s, w) in enumerate(zip(segs, [w for w in want])):
        if w == "rest" or not len(s):
            continue
        for k in {0, len(s) // 2, len(s) - 1}:
            v = (int(s[k]) + 1 + j) & 255
            s[k] = v
            image[w[2][k]] = v
    root = parser.segments[0]
    if root.tobytes() != bytes(image):
        bad = [k for k in range(len(image)) if root[k] != image[k]]
        raise Violation("changing bytes through the segments changed the image at %s" % bad[:5])
    for s, w in zip(segs, want):
        if w != "rest" and s.tobytes() != bytes(image[p] for p in w[2]):
            raise Violation("%s does not show the changed image" % w[0])
    return [str(s) for s in segs]


def positions(g, secs, nbytes=None):
    out = []
    for s in secs:
        p, n = g.pos(s)
        out += range(p, p + n)
    return out


def file_positions(g, secs, data):
    out = []
    for s in secs:
        p, n = g.pos(s)
        k = min(n - 3, len(data) - len(out))
        out += range(p, p + k)
    return out


def file_segments(name, pos, parts):
    out = [(name, None, pos)]
    for w in parts:
        out.append(w if w == "rest" else ("", w[0], pos[w[1]:w[1] + w[2]]))
    return out


def deal(pool, order):
    return {"up": pool, "down": pool[::-1], "mix": [x for ab in zip(pool, pool[::-1]) for x in ab][:len(pool)]}[order]


def c_atari(case):
    g = A.GEOS[case["geo"]]
    mydos = case.get("mydos")
    pool = deal([s for s in range(4, 720) if not 360 <= s <= 368], case.get("order", "up"))
    files, tail = [], []
    for i, kind in enumerate(case["files"]):
        data, parts = content(kind)
        n = max(1, -(-len(data) // g.payload))
        secs, pool = pool[:n], pool[n:]
        name = "FILE%d.X%d" % (i, i)
        files.append({"slot": i, "name": name, "data": data, "sectors": secs, "flag": 0x46 if mydos else (0x42, 0x62)[i % 2]})
        tail += file_segments(name, file_positions(g, secs, data), parts)
    raw = bytearray(A.build(g, files, None, case.get("fill", 0)))
    flag, nboot, load = case.get("boot", (0, 3, 0x700))
    p = g.pos(1)[0]
    raw[p:p + 6] = bytes([flag, nboot, load & 255, load >> 8, 0x40, 0x15])
    raw = bytes(raw)
    want = []
    if g.hdr:
        want.append(("ATR Header", 0, list(range(16))))
    want.append(("Raw disk sectors", 0, list(range(g.hdr, len(raw)))))
    if flag == 0 and 1 <= nboot <= g.nsec:
        b = positions(g, range(1, nboot + 1))
        want += [("Boot Sectors", load, b), ("Boot Header", load, b[:20]), ("Boot Code", load + 20, b[20:])]
    want.append(("VTOC", 0, positions(g, [360])))
    if g.nsec >= 1024:
        want.append(("VTOC2", 0, positions(g, [1024])))
    want.append(("Directory", 0, positions(g, range(361, 369))))

    def label(first):
        def f(k, x="x"):
            if first == 1 and g.nboot:
                s, b = divmod(k, 128) if k < 384 else divmod(k - 384, g.ssize)
                s += 0 if k < 384 else 3
            else:
                s, b = divmod(k, g.ssize)
            return ("s%03d:%02" + x) % (s + first, b)
        return f
    com = {}
    for i in range(64):
        o = i // 8 * g.ssize + i % 8 * 16
        for d, t in ((0, "Flag"), (1, "Number of sectors"), (3, "Starting sector"), (5, "Filename"), (13, "Extension")):
            com[o + d] = "FILE #%d: %s" % (i, t)
    return compare(raw, want + tail, "Atari DOS Disk Image",
                   {"Raw disk sectors": label(1), "VTOC": label(360), "Directory": label(361)} if case.get("labels") else None,
                   {"Directory": com, "VTOC": {0: "Type code", 1: "Total number", 3: "Number of free", 10: "bit map"}} if case.get("labels") else None)


def c_sparta(case):
    n, ss = case["sparta"]
    g = S.geo(n, ss)
    # lay the files out as S.build does
    bitmap = -(-(g.nsec + 1) // (8 * g.ssize))
    pool = list(range(4 + bitmap, g.nsec + 1))
    order = case.get("order", "up")
    if order == "down":
        pool.reverse()
    elif order == "odd":
        pool = pool[::2] + pool[1::2]
    per = (g.ssize - 4) // 2
    it = iter(pool)

    def take(k):
        return [next(it) for _ in range(k)]
    rl = 23 * (len(case["files"]) + 1)
    nroot = -(-rl // g.ssize)
    take(max(1, -(-nroot // per)))
    rpos = positions(g, take(nroot))[:rl]
    files, tail = [], []
    for i, kind in enumerate(case["files"]):
        data, parts = content(kind)
        k = -(-len(data) // g.ssize)
        take(max(1, -(-k // per)))
        pos = positions(g, take(k))[:len(data)]
        files.append({"base": b"FILE%d" % i, "ext": b"X", "data": data})
        tail += file_segments("FILE%d.X" % i, pos, parts)
    raw = bytearray(S.build(g, files, order))
    nboot, load = case.get("boot", (3, 0x3000))
    p = g.pos(1)[0]
    raw[p + 1], raw[p + 2], raw[p + 3] = nboot, load & 255, load >> 8
    b = positions(g, range(1, max(nboot, 1) + 1))
    want = [("ATR Header", 0, list(range(16))), ("Raw disk sectors", 0, list(range(16, len(raw)))), ("Boot Header", load, b[:43])]
    if nboot:
        want.append(("Boot Code", load + 43, b[43:]))
    want.append(("Bitmap", 0, positions(g, range(4, 4 + bitmap))))
    want.append(("MAIN", None, rpos))
    return compare(bytes(raw), want + tail, "Sparta DOS Disk Image")


def c_dos33(case):
    pool = deal([s for s in range(48, 560) if not 272 <= s < 288], case.get("order", "up"))
    files, tail = [], []
    for i, kind in enumerate(case["files"]):
        data, _ = content(kind)
        typ = "BTA"[i % 3]
        load = 0x2000 + 0x111 * i
        if typ == "B":
            data = bytes([load & 255, load >> 8, len(data) & 255, len(data) >> 8]) + data
        n = -(-len(data) // 256)
        if n == 0:
            n, data = 1, b"\0"
        secs, pool = pool[:n + 1], pool[n + 1:]
        name = "FILE %d" % i
        files.append({"slot": i, "name": name, "type": typ, "locked": bool(case.get("locked", 0) >> i & 1), "ts": [secs[0]], "sectors": secs[1:], "data": data.ljust(256 * n, b"\0")})
        pos = [p for s in secs[1:] for p in range(s * 256, s * 256 + 256)]
        tail.append((name, load - 4 if typ == "B" else 0, pos))
    raw = D.build(files, None)
    r = lambda a, b: list(range(a * 256, b * 256))
    want = [("Raw disk sectors", 0, r(0, 560)), ("Boot 1", 0x800, r(0, 1)), ("Boot 2", 0x3700, r(1, 10)), ("Relocator", 0x1b00, r(10, 12)), ("Boot 3", 0x1d00, r(12, 38)),
            ("VTOC", 0, r(272, 273)), ("Catalog", 0, [p for s in range(287, 272, -1) for p in range(s * 256, s * 256 + 256)])]
    com = {}
    for i in range(105):
        o = i // 7 * 256 + 11 + i % 7 * 35
        for d, t in ((0, "Track"), (1, "Sector"), (2, "File type"), (3, "Filename"), (33, "Number of sectors")):
            com[o + d] = "FILE #%d: %s" % (i, t)
    vt = {0x27: "Number of track/sector pairs", 0x34: "Tracks per disk", 0x35: "Sectors per track"}
    vt.update({0x38 + 4 * t: "track %d" % t for t in range(35)})

    def label(first):
        return lambda k, x="x": ("t%02ds%02d:%02" + x) % ((first + k // 256) // 16, (first + k // 256) % 16, k % 256)
    return compare(raw, want + tail, "DOS 3.3 Disk Image", {"Raw disk sectors": label(0), "VTOC": label(272)} if case.get("labels") else None, {"Catalog": com, "VTOC": vt} if case.get("labels") else None)


def c_kboot(case):
    data, parts = content(case["kboot"])
    body = bytes(add_xexboot_header(arr(data)))
    raw = A.atr_header(len(body), 128) + body
    pos = list(range(16 + 384, 16 + 384 + len(data)))
    want = [("ATR Header", 0, list(range(16))), ("Raw disk sectors", 0, list(range(16, len(raw))))]
    return compare(raw, want + file_segments("KBoot Executable", pos, parts), "KBoot Disk Image")


def c_rom(case):
    r = c22.c_zip(case)
    return ["%s %s" % (r, m) for m in case["zip"]]


RUN = {"zip": c_rom, "geo": c_atari, "sparta": c_sparta, "dos33": c_dos33, "kboot": c_kboot}


def run_case(case):
    for k, f in RUN.items():
        if k in case:
            return f(case)


def fam(res, args):
    for c in args["cases"]:
        res.sample(c)
        res.count("traces")
        r = res.case(c, run_case, c)
        if r is not None:
            res.count("transitions", len(r))
            res.outcome(str(sorted(set(x.split(" ")[0] for x in r))[:6]))
            res.state(str((sorted(c.items()), r)))


FAMILIES = {"roms": fam, "atari": fam, "apple": fam, "sparta": fam, "kboot": fam}


def plan(tier):
    deep = tier == "thorough"
    out = []
    sets = [()] + [(a,) for a in KINDS] + list(itertools.product(KINDS, repeat=2)) + (list(itertools.product(KINDS, repeat=3)) if deep else [])
    cs = []
    for gi, g in enumerate(A.GEOS):
        for i, fs in enumerate(sets):
            if len(fs) < 2 or deep or g in ("SD", "DD") or i % 6 == gi % 6:
                cs.append({"geo": g, "files": list(fs), "order": ("up", "down", "mix")[i % 3], "labels": len(fs) == 0})
        for fs in (KINDS, KINDS[::-1]):
            for order in ("up", "down", "mix"):
                cs.append({"geo": g, "files": list(fs), "order": order})
        for nboot in list(range(13)) + list(range(250, 256)):
            for load in (0, 0x600, 0x700, 0x7fff, 0xfff0):
                for flag in (0, 1, 255) if load == 0x700 else (0,):
                    cs.append({"geo": g, "files": ["two"], "boot": [flag, nboot, load]})
    for g in ("SD", "DD", "ED") if "ED" in A.GEOS else ("SD", "DD"):
        for n in range(1, 1101 if deep else 301):
            cs.append({"geo": g, "files": [n], "order": ("up", "down", "mix")[n % 3], "mydos": n % 5 == 0})
        for fs in sets[:40]:
            cs.append({"geo": g, "files": list(fs), "mydos": 1})
    out += [("atari", {"cases": c}) for c in chunks(cs, 40)]
    cs = []
    for lay in ((720, 128), (720, 256), (1040, 128), (1440, 256), (720, 512)):
        for i, fs in enumerate(sets):
            if len(fs) < 2 or deep or i % 5 == 0:
                cs.append({"sparta": list(lay), "files": list(fs), "order": ("up", "down", "odd")[i % 3]})
        for nboot in (0, 1, 2, 3, 4, 10, 255):
            for load in (0, 0x700, 0x3000, 0xff00):
                cs.append({"sparta": list(lay), "files": ["one"], "boot": [nboot, load]})
        cs.append({"sparta": list(lay), "files": KINDS})
    for n in range(1, 301, 1 if deep else 7):
        cs.append({"sparta": [720, 128], "files": [n], "order": "odd"})
    out += [("sparta", {"cases": c}) for c in chunks(cs, 40)]
    cs = []
    for i, fs in enumerate(sets):
        cs.append({"dos33": 1, "files": list(fs), "order": ("up", "down", "mix")[i % 3], "labels": len(fs) < 2})
    cs += [{"dos33": 1, "files": list(fs), "locked": m} for fs in itertools.product(KINDS[:3], repeat=2) for m in (1, 2, 3)]
    cs += [{"dos33": 1, "files": KINDS * 4, "locked": m} for m in (-1, 0x555555, 0xcccccc)]
    cs += [{"dos33": 1, "files": KINDS * 8, "order": o} for o in ("up", "down", "mix")]
    out += [("apple", {"cases": c}) for c in chunks(cs, 40)]
    cs = [{"kboot": k} for k in KINDS if k not in ("empty",)] + [{"kboot": n} for n in range(1, 301)]
    out += [("kboot", {"cases": c}) for c in chunks(cs, 40)]
    cs = []
    for k in (1, 2, 3):
        for sizes in itertools.product((16, 32, 48, 272) if k < 3 or deep else (16, 48), repeat=k):
            cs += [{"zip": [["rom%d" % i, n] for i, n in enumerate(sizes)], "method": m} for m in range(1 << k)]
    out += [("roms", {"cases": c}) for c in chunks(cs, 30)]
    return out
