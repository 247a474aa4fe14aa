"""C15 segment views"""
import functools
import itertools

import numpy as np

import segmodel as M
from checks import c09, c17
from core import Violation, chunks, pattern
from atrcopy import SegmentData, find_diskimage_from_data
from atrcopy.segments import DefaultSegment, RawSectorsSegment, RawTrackSectorSegment, interleave_segments

PROPERTY = "C15"
LEVEL = "model_checking"
TITLE = "a segment view shows and changes exactly its own bytes of the image"
RULE = ("every view of the bounded space is built from the real classes; all its reads, index conversions and all single, range and list "
        "writes through it are compared with a list-of-indexes model; states = distinct (view, base contents)")
BOUNDS = {
    "quick": "base of 6 bytes: all slices, all byte orders of <= 3 indexes (with repeats), all permutations-like full orders (rotations, reversals), every slice/order of <= 2 inside each of them, selected depth 3; all interleavings of 2 and 3 segments over 12 views x 1..3 bytes; all segments of 14 disk images and executables (first, middle, last byte, every 61st); sector labels of every sector of 10 layouts; 12 views of a 70,000 byte image and 8 of a 16 MB image at positions around powers of two; 60 interleavings of up to 6 segments; all resizes 0..9 -> 0..9 and all sequences of three sizes out of 4 with views re-attached",
    "thorough": "base of 7 bytes, orders of <= 4 indexes, every byte of every segment of the disk images",
}
ASSUMPTIONS = ["contiguous slices and explicit index lists, as created by atrcopy itself (no strided slices, no negative indexes)"]


def check_view(case):
    n = case["n"]
    path = case["path"]
    origin = case.get("origin", 0x2000)
    seg, ref, base = M.build(path, n, origin)
    orig = base.data.tobytes()
    want = bytes(orig[i] for i in ref)
    if len(seg) != len(ref) or len(seg.rawdata) != len(ref):
        raise Violation("length %d instead of %d" % (len(seg), len(ref)))
    if seg.tobytes() != want or bytes(seg[:]) != want or bytes(np.asarray(seg.data[:])) != want or bytes(seg.rawdata.unindexed_data) != want:
        raise Violation("shows %s instead of %s" % (bytes(seg[:]).hex(), want.hex()))
    if seg.rawdata.bufferedio.read() != want or seg.search_copy != want:
        raise Violation("copied contents differ")
    got = [int(i) for i in seg.rawdata.get_indexes_from_base()]
    if got != ref:
        raise Violation("indexes into the base are %s instead of %s" % (got, ref))
    for i, b in enumerate(ref):
        if int(seg[i]) != orig[b]:
            raise Violation("byte %d is wrong" % i)
        if seg.get_raw_index(i) != b or seg.get_raw_index_from_address(origin + i) != b or seg.rawdata.get_raw_index(i) != b:
            raise Violation("index %d converted to base index %d instead of %d" % (i, seg.get_raw_index(i), b))
        if seg.label(i) != "%04x" % (origin + i) or seg.label(i, False) != "%04X" % (origin + i):
            raise Violation("label of byte %d is %s" % (i, seg.label(i)))
        if not seg.is_valid_index(i):
            raise Violation("index %d called invalid" % i)
    if seg.is_valid_index(len(ref)) or seg.is_valid_index(-1):
        raise Violation("index outside of the segment called valid")
    for b in range(n):
        for f in (seg.get_index_from_base_index, seg.rawdata.get_reverse_index):
            try:
                i = int(f(b))
            except IndexError:
                if b in ref:
                    raise Violation("base index %d not found" % b)
                continue
            if not 0 <= i < len(ref) or ref[i] != b:
                raise Violation("base index %d found at %d" % (b, i))
    try:
        seg.get_index_from_base_index(n)
        raise Violation("base index beyond the end accepted")
    except IndexError:
        pass
    # ranges and lists
    L = len(ref)
    for a, b in M.sub_ranges(L):
        if bytes(seg[a:b]) != want[a:b]:
            raise Violation("[%d:%d] shows other bytes" % (a, b))
    # a copy is independent
    cp = seg.rawdata.copy()
    if bytes(cp.unindexed_data) != want:
        raise Violation("copy has other bytes")
    if L:
        cp.data[0] = int(cp.data[0]) ^ 255
        cp.style[0] = 255
    if base.data.tobytes() != orig or any(base.style.tobytes()):
        raise Violation("changing a copy changed the original")
    # writes
    other, oref, _ = M.build([["s", 0, n]], n, 0, base=base)

    def expect(changes, what):
        cur = bytearray(orig)
        for b, v in changes:
            cur[b] = v
        if base.data.tobytes() != bytes(cur):
            raise Violation("%s: base is %s instead of %s" % (what, base.data.tobytes().hex(), bytes(cur).hex()))
        w = bytes(cur[i] for i in ref)
        if seg.tobytes() != w or seg.search_copy != w or bytes(seg[:]) != w:
            raise Violation("%s: segment itself shows something else" % what)
        if other.tobytes() != bytes(cur):
            raise Violation("%s: other view of the same data differs" % what)
        if any(base.style.tobytes()):
            raise Violation("%s: changed styles" % what)
        base.data[:] = np.frombuffer(orig, dtype=np.uint8)
        seg[0] = orig[ref[0]]

    for i, b in enumerate(ref):
        v = orig[b] ^ 0x55
        seg[i] = v
        expect([(b, v)], "writing byte %d" % i)
        seg.style[i] |= 0x20
        st = base.style.tobytes()
        if [j for j in range(n) if st[j]] != [b]:
            raise Violation("style written through byte %d is at %s" % (i, [j for j in range(n) if st[j]]))
        base.style[:] = 0
    for a, b in M.sub_ranges(L):
        if a == b:
            continue
        seg[a:b] = 0xa7
        expect([(r, 0xa7) for r in ref[a:b]], "filling [%d:%d]" % (a, b))
        if len(set(ref[a:b])) == b - a:
            vals = [(7 * k + 3) & 255 for k in range(b - a)]
            seg[a:b] = np.asarray(vals, dtype=np.uint8)
            expect(list(zip(ref[a:b], vals)), "writing [%d:%d]" % (a, b))
    if L >= 2:
        ix = [L - 1, 0]
        seg[ix] = 0x3c
        expect([(ref[i], 0x3c) for i in ix], "writing a list of bytes")
    # subsets
    if L >= 1:
        order = [L - 1, 0, L // 2]
        s2 = seg.create_subset(order, "sub")
        if s2.tobytes() != bytes(want[i] for i in order):
            raise Violation("subset shows other bytes")
        s2[0] = want[L - 1] ^ 0xff
        expect([(ref[L - 1], want[L - 1] ^ 0xff)], "writing through a subset")
    # styles are copied along, the view keeps its own
    base.style[:] = np.arange(n, dtype=np.uint8) + 1
    cp = seg.rawdata.copy()
    if bytes(cp.unindexed_style) != bytes(b + 1 for b in ref) or bytes(seg.rawdata.unindexed_style) != bytes(b + 1 for b in ref):
        raise Violation("copied styles differ")
    base.style[:] = 0
    check_export(seg, want, origin)
    check_parallel(seg, ref, n)
    return seg, ref


def check_export(seg, want, origin):
    for saver in seg.savers:
        got = bytes(saver.encode_data(seg, None))
        if "Apple" in saver.export_data_name:
            if origin < 0x10000 and len(want) < 0x10000 and got != bytes([origin & 255, origin >> 8, len(want) & 255, len(want) >> 8]) + want:
                raise Violation("exported as Apple binary: %s for %s at $%04x" % (got[:12].hex(), want[:12].hex(), origin))
        elif got != want:
            raise Violation("exported as %s: %s instead of %s" % (saver.export_data_name, got[:12].hex(), want[:12].hex()))


def check_parallel(seg, ref, n):
    """the same part of another image of the same size"""
    if not len(ref):
        return
    box = DefaultSegment(SegmentData(np.frombuffer(pattern("parallel", n), dtype=np.uint8).copy()))
    r = box.get_parallel_raw_data(seg)
    if [int(i) for i in r.get_indexes_from_base()] != list(ref) or bytes(r.unindexed_data) != bytes(int(box.data[i]) for i in ref):
        raise Violation("parallel data shows %s" % [int(i) for i in r.get_indexes_from_base()][:12])


BIG = 70000
BIGVIEWS = [[], [["s", 0, 65535]], [["s", 0, 65536]], [["s", 1, 70000]], [["s", 65000, 66000]], [["s", 69990, 70000]], [["s", 16, 69996], ["s", 65500, 65600]],
            [["i", list(range(69999, -1, -1))]], [["i", [65535, 65536, 69999, 0, 32768, 32767, 256, 255, 0]]], [["s", 100, 69900], ["i", list(range(0, 69800, 7))]],
            [["i", list(range(0, 70000, 3))], ["s", 22000, 23000]], [["s", 5, 69000], ["i", list(range(68000, 1000, -11))], ["i", [6000, 3, 0, 5999]]]]


HUGE = (1 << 24) + 5000      # the largest ATR images have 16 MB
EDGES = [e + d for e in (1 << 16, 1 << 17, 1 << 20, 1 << 21, 1 << 22, 1 << 23, 1 << 24) for d in (-1, 0, 1)]
HUGEVIEWS = [[["s", e - 100, e + 100]] for e in (1 << 20, 1 << 22, 1 << 23, 1 << 24)] + [
    [["i", EDGES]], [["i", EDGES[::-1]], ["s", 2, 15]], [["s", 1 << 20, HUGE], ["i", [e - (1 << 20) for e in EDGES if e >= 1 << 20]]],
    [["s", (1 << 22) - 3, HUGE - 7], ["s", 1 << 23, (1 << 23) + 300], ["i", [299, 0, 7, 7]]]]


def check_big(case):
    origin = case["origin"]
    views, BIG = (HUGEVIEWS, HUGE) if case.get("huge") else (BIGVIEWS, globals()["BIG"])
    seg, ref, base = M.build(views[case["big"]], BIG, origin)
    orig = base.data.tobytes()
    want = bytes(orig[i] for i in ref)
    L = len(ref)
    if len(seg) != L or seg.tobytes() != want or bytes(seg[:]) != want or seg.search_copy != want or seg.rawdata.bufferedio.read() != want:
        raise Violation("shows other bytes")
    if [int(i) for i in seg.rawdata.get_indexes_from_base()] != ref:
        raise Violation("wrong indexes into the base")
    back = {}
    for i, b in enumerate(ref):
        back.setdefault(b, set()).add(i)
    marks = sorted({i for p in (0, 1, 127, 128, 255, 256, 257, 4095, 4096, 32766, 32767, 32768, 65534, 65535, 65536, 65537, L // 2, L - 2, L - 1) for i in (p,) if 0 <= i < L})
    for i in marks:
        b = ref[i]
        if seg.get_raw_index(i) != b or seg.get_raw_index_from_address(origin + i) != b:
            raise Violation("index %d converted to %d instead of %d" % (i, seg.get_raw_index(i), b))
        if seg.label(i) != "%04x" % (origin + i):
            raise Violation("label of %d is %s" % (i, seg.label(i)))
        v = orig[b] ^ 0x5a
        seg[i] = v
        if int(base.data[b]) != v or int(seg[i]) != v:
            raise Violation("write to byte %d not seen" % i)
        base.data[b] = orig[b]
    for b in sorted(set(marks) | set(ref[i] for i in marks) | {BIG - 1}):
        try:
            i = seg.get_index_from_base_index(b)
        except IndexError:
            i = None
        if i not in back.get(b, {None}):
            raise Violation("base index %d found at %s" % (b, i))
    if base.data.tobytes() != orig:
        raise Violation("other bytes changed")
    for a, b in ((0, L), (L // 3, L), (0, min(L, 65537)), (max(0, L - 300), L)):
        cur = bytearray(orig)
        for k in ref[a:b]:
            cur[k] = 0xa7
        seg[a:b] = 0xa7
        if base.data.tobytes() != bytes(cur):
            raise Violation("filling [%d:%d] changed other bytes" % (a, b))
        base.data[:] = np.frombuffer(orig, dtype=np.uint8)
        if L:
            seg[0] = want[0]
    cp = seg.rawdata.copy()
    if bytes(cp.unindexed_data) != want:
        raise Violation("copy has other bytes")
    check_export(seg, want, origin)
    check_parallel(seg, ref, BIG)


def check_interleave(case):
    n = case["n"]
    k = case["bytes"]
    base = None
    segs, refs = [], []
    for p in case["paths"]:
        s, r, base = M.build(p, n, 0, base=base)
        segs.append(s)
        refs.append(r)
    new = interleave_segments(segs, k)
    size = min(len(r) for r in refs) // k * k
    want = []
    for g in range(0, size, k):
        for r in refs:
            want += r[g:g + k]
    got = [int(i) for i in new.rawdata.get_indexes_from_base()]
    if got != want:
        raise Violation("interleaved by %d: %s instead of %s" % (k, got, want))
    if new.tobytes() != bytes(int(base.data[i]) for i in want):
        raise Violation("interleaved bytes differ")
    if want:
        new[0] = int(new[0]) ^ 255
        if int(base.data[want[0]]) != pattern("view", n)[want[0]] ^ 255:
            raise Violation("writing through interleaved segments does not reach the data")
    return None


def check_foreign(case):
    a, _, _ = M.build([], 6)
    b, _, _ = M.build([["s", 1, 5]], 6)
    for x, y in ((a, b), (b, a), (a, DefaultSegment(SegmentData(np.arange(4, dtype=np.uint8))))):
        try:
            interleave_segments([x, y], 1)
        except ValueError:
            continue
        raise Violation("segments of different data interleaved")


@functools.lru_cache(2)
def parsed(name):
    raw = c09.base(name)[0]
    data = np.frombuffer(raw, dtype=np.uint8).copy()
    parser, mime = find_diskimage_from_data(data)
    return raw, parser


def check_disk(case):
    raw, parser = parsed(case["image"])
    base = parser.segments[0].data
    seg = parser.segments[case["segment"]]
    n = len(seg)
    r = seg.rawdata
    order = [int(i) for i in r.get_indexes_from_base()]
    if len(order) != n:
        raise Violation("%s: %d indexes for %d bytes" % (seg, len(order), n))
    if seg.tobytes() != bytes(raw[i] for i in order):
        raise Violation("%s: shows other bytes" % seg)
    if case["step"]:
        pos = sorted(set(range(0, n, case["step"])) | {n - 1, n // 2} if n else [])
    else:
        pos = range(n)
    for i in pos:
        b = order[i]
        if seg.get_raw_index(i) != b:
            raise Violation("%s: index %d converted to %d instead of %d" % (seg, i, seg.get_raw_index(i), b))
        j = seg.get_index_from_base_index(b)
        if order[j] != b:
            raise Violation("%s: base index %d found at %d" % (seg, b, j))
        old = int(seg[i])
        seg[i] = old ^ 0xff
        if int(base[b]) != raw[b] ^ 0xff:
            raise Violation("%s: write to byte %d does not reach the image" % (seg, i))
        base[b] = raw[b]
        if int(seg[i]) != old:
            raise Violation("%s: change of the image not seen at byte %d" % (seg, i))
    if base.tobytes() != raw:
        raise Violation("%s: writes changed other bytes" % seg)


def check_labels(case):
    first, nsec, ssize, nboot, bsize, skip = case["labels"]
    size = nboot * bsize + (nsec - nboot) * ssize
    r = SegmentData(np.zeros(size + skip, dtype=np.uint8))
    track = case["track"]
    seg = (RawTrackSectorSegment if track else RawSectorsSegment)(r[skip:], first, nsec, size, bsize, nboot, ssize)
    for k in range(nsec):
        o = k * bsize if k < nboot else nboot * bsize + (k - nboot) * ssize
        ln = bsize if k < nboot else ssize
        num = first + k
        for byte in sorted({0, 1, 15, 16, ln // 2, ln - 2, ln - 1}):
            if track:
                want = "t%02ds%02d:%02x" % (num // 16, num % 16, byte)
                up = "t%02ds%02d:%02X" % (num // 16, num % 16, byte)
            else:
                want = "s%03d:%02x" % (num, byte)
                up = "s%03d:%02X" % (num, byte)
            got = seg.label(o + byte), seg.label(o + byte, False)
            if got != (want, up):
                raise Violation("byte %d of sector %d is labelled %s instead of %s" % (byte, num, got[0], want))


def run_case(case):
    if "labels" in case:
        return check_labels(case)
    if "sizes" in case:
        return c17.check_resize(case)
    if "big" in case:
        return check_big(case)
    if "paths" in case:
        return check_interleave(case)
    if "foreign" in case:
        return check_foreign(case)
    if "image" in case:
        return check_disk(case)
    return check_view(case)


def fam(res, args):
    for c in args["cases"]:
        res.count("traces")
        res.sample(c)
        res.case(c, run_case, c)
        L = M.length(c["path"], c["n"]) if "path" in c else 1
        res.count("transitions", 2 * L + L * (L + 1) + 4 if "path" in c else 1)
        res.state(str(sorted(c.items())))


FAMILIES = {"views": fam, "resize": fam, "interleave": fam, "disks": fam, "labels": fam}


def plan(tier):
    deep = tier == "thorough"
    n = 7 if deep else 6
    out = []
    outer = M.slices(n) + list(M.index_lists(n, 4 if deep else 3))
    full = [["i", [(i * s + k) % n for i in range(n)]] for k in range(n) for s in (1, n - 1)]
    cs = [{"n": n, "path": []}] + [{"n": n, "path": [o]} for o in outer + full]
    cs += [{"n": n, "path": [["s", 1, 5]], "origin": o} for o in (0, 1, 0xfff0, 0xffff, 0x10000)]
    mids = M.slices(n) + full[:6] + full[-3:] + [["i", t] for t in ([], [3], [5, 0], [2, 2], [4, 1, 3], [1, 2, 3], [0, 5, 0], [5, 4, 3, 2, 1, 0])]
    for m in mids:
        L = M.length([m], n)
        for inner in M.slices(L) + list(M.index_lists(L, 2)):
            cs.append({"n": n, "path": [m, inner]})
            if inner[0] == "s" and inner[2] - inner[1] >= 2 and m in mids[::3]:
                L2 = inner[2] - inner[1]
                for third in (["s", 1, L2], ["s", 0, L2 - 1], ["i", [L2 - 1, 0]], ["i", [1]]):
                    cs.append({"n": n, "path": [m, inner, third]})
    out += [("views", {"cases": c}) for c in chunks(cs, 100)]
    views = [[], [["s", 0, 6]], [["s", 1, 5]], [["s", 0, 3]], [["s", 3, 6]], [["s", 2, 2]], [["i", [4, 1, 3]]], [["i", [5, 4, 3, 2, 1, 0]]], [["i", [2, 2, 5]]], [["i", []]],
             [["s", 1, 5], ["i", [3, 0]]], [["i", [5, 1, 2, 4]], ["s", 1, 4]]]
    cs = [{"foreign": 1}]
    for a in views:
        cs += [{"n": 6, "paths": [a], "bytes": k} for k in (1, 2, 3)]
        for b in views:
            cs += [{"n": 6, "paths": [a, b], "bytes": k} for k in (1, 2, 3)]
            for c in views if deep else views[2::3]:
                cs += [{"n": 6, "paths": [a, b, c], "bytes": k} for k in (1, 2)]
    n = 40
    for ps in ([["s", 0, 9], ["s", 9, 20], ["s", 20, 31], ["s", 31, 40]], [["s", 0, 8], ["s", 8, 12], ["s", 16, 24]], [["s", 0, 7], ["i", list(range(39, 19, -1))], ["s", 10, 19], ["s", 3, 30], ["s", 0, 40]],
               [["s", 0, 40]] * 6, [["s", 1, 3], ["s", 0, 40]]):
        cs += [{"n": n, "paths": [[q] for q in ps], "bytes": k} for k in (1, 2, 3, 4, 5, 7, 8, 11, 16, 40, 41)]
    cs += [{"n": 140000, "paths": [[["s", 0, 70000]], [["s", 70000, 139000]]], "bytes": k} for k in (1, 3, 128, 256, 300)]
    out += [("interleave", {"cases": c}) for c in chunks(cs, 150)]
    out += [("disks", {"cases": [{"big": v, "origin": (0, 0x2000, 1)[v % 3]}]}) for v in range(len(BIGVIEWS))]
    out += [("disks", {"cases": [{"big": v, "huge": 1, "origin": (0, 0x2000, 1)[v % 3]}]}) for v in range(len(HUGEVIEWS))]
    for name in ("SD", "DD", "ED", "XSD", "mydos", "dos33", "sparta128", "sparta256", "kboot", "boot", "xex", "bsave", "cart8", "cart32"):
        raw, parser = parsed(name)
        cs = [{"image": name, "segment": i, "step": 0 if len(parser.segments[i]) < 3000 else 61 if not deep else 7} for i in range(len(parser.segments))]
        out += [("disks", {"cases": c}) for c in chunks(cs, 10)]
    cs = []
    for first in (1, 0, 4, 360):
        for nsec in (1, 3, 4, 720, 1040):
            for lay in ((128, 0, 128), (256, 3, 128), (256, 0, 256), (512, 0, 512), (256, 0, 0), (512, 3, 128)):
                ssize, nboot, bsize = lay
                if nboot <= nsec:
                    cs += [{"labels": [first, nsec, ssize, nboot, bsize, skip], "track": t} for skip in (0, 16) for t in (False, True)]
    out += [("labels", {"cases": c}) for c in chunks(cs, 12)]
    cs = [{"sizes": [a, b]} for a in range(10) for b in range(10)] + [{"sizes": list(t)} for t in itertools.product((4, 6, 9, 17), repeat=4 if deep else 3)]
    cs += [{"sizes": t} for t in ([255, 256, 257], [65535, 65536, 65537])]
    out += [("resize", {"cases": c}) for c in chunks(cs, 40)]
    return out
