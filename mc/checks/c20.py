"""C20 cartridges"""
import functools
import gc

import numpy as np

from core import Violation, chunks, pattern
from atrcopy import SegmentData, find_diskimage_from_data, errors
from atrcopy import cartridge as CA
from atrcopy import parsers as P

PROPERTY = "C20"
LEVEL = "model_checking"
TITLE = "cartridge images of every type map their bytes correctly"
RULE = ("every known cartridge type is built with and without header in the declared size and in every other size of the bounded set, "
        "identified, split into segments and compared with an independent table of the atari800 cartridge formats; states = distinct (type, size, way of opening)")
BOUNDS = {
    "quick": "all 67 types up to 4 MB x (declared size, 12 nearby sizes, every other size in the table up to 1 MB) x (CART header, no header) x (strict, chosen type); all header type numbers 0..300 and powers of two; every value of each checksum byte; ROM images of every size 0..5000 and around powers of two up to 1 MB",
    "thorough": "also types of 32, 64 and 128 MB; all type numbers 0..70000",
}
ASSUMPTIONS = ["types whose bank layout atrcopy does not know are shown as one segment holding the entire ROM"]

# type: (KB, machine, [(offset KB, size KB, address)] main first, then banks) from the atari800 cartridge documentation
XEGS = lambda k: [(k - 8, 8, 0xa000)] + [(b, 8, 0x8000) for b in range(0, k - 8, 8)]
OSS = [(12, 4, 0xb000), (0, 4, 0xa000), (4, 4, 0xa000), (8, 4, 0xa000)]
TABLE = {1: (8, 8, [(0, 8, 0xa000)]), 2: (16, 8, [(0, 16, 0x8000)]), 3: (16, 8, OSS), 4: (32, 5, [(0, 32, 0x4000)]), 5: (32, 8, None), 6: (16, 5, None), 7: (40, 5, None),
         8: (64, 8, None), 9: (64, 8, None), 10: (64, 8, None), 11: (64, 8, None), 12: (32, 8, XEGS(32)), 13: (64, 8, XEGS(64)), 14: (128, 8, XEGS(128)),
         15: (16, 8, None), 16: (16, 5, None), 17: (128, 8, None), 18: (40, 8, None), 19: (8, 5, [(0, 8, 0x8000)]), 20: (4, 5, [(0, 4, 0x8000)]), 21: (8, 8, None),
         22: (32, 8, None), 23: (256, 8, XEGS(256)), 24: (512, 8, XEGS(512)), 25: (1024, 8, XEGS(1024)), 26: (16, 8, None), 27: (32, 8, None), 28: (64, 8, None),
         29: (128, 8, None), 30: (256, 8, None), 31: (512, 8, None), 32: (1024, 8, None), 33: (32, 8, XEGS(32)), 34: (64, 8, XEGS(64)), 35: (128, 8, XEGS(128)),
         36: (256, 8, XEGS(256)), 37: (512, 8, XEGS(512)), 38: (1024, 8, XEGS(1024)), 39: (8, 8, None), 40: (16, 8, [(0, 16, 0x8000)]), 41: (128, 8, None),
         42: (1024, 8, None), 43: (128, 8, None), 44: (8, 8, None), 45: (16, 8, OSS), 46: (4, 8, None), 47: (32, 8, None), 48: (64, 8, None), 49: (128, 8, None),
         50: (64, 8, None), 51: (128, 8, None), 52: (32, 8, None), 53: (8, 8, [(0, 8, 0x8000)]), 54: (128, 8, None), 55: (256, 8, None), 56: (512, 8, None),
         57: (2, 8, [(0, 2, 0xb800)]), 58: (4, 8, [(0, 4, 0xb000)]), 59: (4, 8, [(0, 4, 0x9000)]), 60: (32, 8, None), 61: (2048, 8, None), 62: (131072, 8, None),
         63: (4096, 8, None), 64: (2048, 8, None), 65: (32768, 8, None), 66: (65536, 8, None), 67: (64, 8, XEGS(64))}


@functools.lru_cache(2)
def rom(n):
    """every 1K block is different"""
    if n <= 65536:
        return pattern("rom", n)
    base = np.frombuffer(pattern("rom", 65536 - 1), dtype=np.uint8)
    return np.resize(base, n).tobytes()


def header(t):
    return b"CART" + t.to_bytes(4, "big") + b"\0\0\x12\x34" + b"\0\0\0\0"


def check_segments(image_segments, raw, hdr, t):
    k, machine, lay = TABLE[t]
    want = []
    if hdr:
        want.append((0, 16, 0))
    for o, n, a in lay or [(0, k, None)]:
        want.append((hdr + o * 1024, n * 1024, a))
    got = image_segments
    if len(got) != len(want):
        raise Violation("type %d: %d segments instead of %d" % (t, len(got), len(want)))
    for i, (s, (o, n, a)) in enumerate(zip(got, want)):
        if len(s) != n:
            raise Violation("type %d: segment %d (%s) has %d bytes instead of %d" % (t, i, s.name, len(s), n))
        if a is not None and s.origin != a:
            raise Violation("type %d: segment %d (%s) at $%04x instead of $%04x" % (t, i, s.name, s.origin, a))
        if s.data.tobytes() != raw[o:o + n]:
            raise Violation("type %d: segment %d (%s) shows other bytes" % (t, i, s.name))


def check_type(case):
    """case: type, delta (bytes more or less than declared) or size, hdr, strict"""
    t = case["type"]
    k, machine, lay = TABLE[t]
    hdr = 16 if case["hdr"] else 0
    size = case["size"] if "size" in case else k * 1024 + case.get("delta", 0)
    right = size == k * 1024
    raw = (header(t) if hdr else b"") + rom(size)
    if case.get("auto"):
        # as found by looking at the data
        try:
            parser, mime = find_diskimage_from_data(np.frombuffer(raw, dtype=np.uint8).copy())
        except errors.AtrError:
            if right:
                raise Violation("type %d with header and %d KB not recognised" % (t, k))
            return "refused"
        cart = isinstance(parser.image, CA.BaseAtariCartImage)
        if cart != right:
            raise Violation("type %d with %d bytes is %s" % (t, size, "taken for a cartridge" if cart else "identified as " + parser.menu_name))
        if not cart:
            return "other"
        want = "application/vnd.atari5200.cart" if machine == 5 else "application/vnd.atari8bit.cart"
        if mime != want:
            raise Violation("type %d identified as %s" % (t, mime))
        if parser.segments[0].data.tobytes() != raw:
            raise Violation("whole image differs")
        check_segments(parser.image.segments, raw, hdr, t)
        return "recognised"
    data = np.frombuffer(raw, dtype=np.uint8).copy()
    cls = {"any": CA.AtariCartImage, "8": CA.Atari8bitCartImage, "5": CA.Atari5200CartImage}[case.get("cls", "any")]
    try:
        img = cls(SegmentData(data), t)
        if case["strict"]:
            img.strict_check()
        else:
            img.relaxed_check()
        img.parse_segments()
    except errors.AtrError as e:
        ok = right and not (case["strict"] and (not hdr or (case.get("cls", "any") != "any" and int(case["cls"]) != machine)))
        if ok:
            raise Violation("type %d, %d bytes%s refused: %s" % (t, size, " with header" if hdr else "", e))
        return "refused"
    if not right:
        raise Violation("type %d accepted with %d bytes instead of %d" % (t, size, k * 1024))
    if case["strict"]:
        if not hdr:
            raise Violation("type %d without header passes the strict check" % t)
        if case.get("cls", "any") != "any" and int(case["cls"]) != machine:
            raise Violation("type %d accepted by the wrong machine" % t)
    check_segments(img.segments, raw, hdr, t)
    str(img)
    # emulator image: header plus the ROM, of the same type
    s = img.create_emulator_boot_segment()
    b = s.data.tobytes()
    if b[16:] != raw[hdr:] or b[:4] != b"CART" or int.from_bytes(b[4:8], "big") != t:
        raise Violation("type %d: cartridge for the emulator is wrong (%d bytes, header %s)" % (t, len(b), b[:16].hex()))
    again = CA.AtariCartImage(SegmentData(np.frombuffer(b, dtype=np.uint8).copy()), t)
    again.strict_check()
    again.parse_segments()
    check_segments(again.segments, b, 16, t)
    if data.tobytes() != raw:
        raise Violation("parsing changed the image")
    return "accepted"


def check_number(case):
    """header with type number"""
    t = case["number"]
    h = np.frombuffer(header(t), dtype=np.uint8).copy()
    try:
        a = CA.A8CartHeader(h)
    except errors.AtrError:
        if t in TABLE:
            raise Violation("header of type %d refused" % t)
        return "refused"
    if 67 < t < 256:
        return "newer"
    if t not in TABLE and t != 0:
        raise Violation("header of unknown type %d accepted" % t)
    b = a.to_array().tobytes()
    if b[:12] != h.tobytes()[:12] or len(b) != 16:
        raise Violation("header of type %d becomes %s" % (t, b.hex()))
    if a.crc != 0x1234 or "crc=%d" % 0x1234 not in str(a):
        raise Violation("header of type %d: checksum $1234 is read as $%x (%s)" % (t, a.crc, a))
    if t and (a.cart_type, a.cart_size) != (t, TABLE[t][0]):
        raise Violation("header of type %d is read as type %d with %d KB" % (t, a.cart_type, a.cart_size))
    return "known"


def check_sum(case):
    """header checksum: all values of each byte"""
    v = case["crc"]
    h = header(case["type"])[:8] + v.to_bytes(4, "big") + b"\0\0\0\0"
    a = CA.A8CartHeader(np.frombuffer(h, dtype=np.uint8).copy())
    if a.crc != v:
        raise Violation("header checksum $%08x is read as $%x" % (v, a.crc))
    if a.to_array().tobytes() != h:
        raise Violation("header checksum $%08x is written as %s" % (v, a.to_array().tobytes().hex()))
    return "checksum"


def check_rom(case):
    n = case["rom"]
    raw = rom(n)
    data = np.frombuffer(raw, dtype=np.uint8).copy()
    for cls in (CA.RomImage, CA.Atari2600CartImage, CA.VectrexCartImage):
        try:
            img = cls(SegmentData(data))
            img.strict_check()
            img.parse_segments()
        except errors.AtrError:
            if n and n & (n - 1) == 0:
                raise Violation("%s of %d bytes refused" % (cls.__name__, n))
            continue
        if n & (n - 1):
            raise Violation("%s of %d bytes accepted" % (cls.__name__, n))
        if len(img.segments) != 1 or img.segments[0].data.tobytes() != raw:
            raise Violation("%s of %d bytes: segment differs" % (cls.__name__, n))
    return "rom"


def check_table(case):
    """every cartridge type can be chosen by a parser of its own, grouped by size"""
    known = {c[0] for c in CA.known_cart_types} - {0}
    if not known >= set(TABLE):
        raise Violation("cartridge types missing: %s" % sorted(set(TABLE) - known))
    g = CA.get_known_carts()
    for k, v in g.items():
        for c in v:
            if c[0] in TABLE and TABLE[c[0]][0] != k:
                raise Violation("type %d listed under %d KB" % (c[0], k))
    if sorted(c[0] for v in g.values() for c in v) != sorted(known):
        raise Violation("not every type is listed exactly once")
    return "table"


def run_case(case):
    if "number" in case:
        return check_number(case)
    if "crc" in case:
        return check_sum(case)
    if "rom" in case:
        return check_rom(case)
    if "table" in case:
        return check_table(case)
    return check_type(case)


def fam(res, args):
    for c in args["cases"]:
        res.count("traces")
        res.count("transitions")
        res.sample(c)
        r = res.case(c, run_case, c)
        if r is not None:
            res.outcome(r)
            res.state(str(sorted(c.items())))
        if c.get("size", 0) > 1 << 19 or TABLE.get(c.get("type"), (0,))[0] > 500:
            gc.collect()


FAMILIES = {"types": fam, "headers": fam, "roms": fam}


def plan(tier):
    deep = tier == "thorough"
    out = []
    sizes = sorted({v[0] for v in TABLE.values()})
    for t in sorted(TABLE):
        k = TABLE[t][0]
        if k > 4096 and not deep:
            continue
        big = k > 4096
        cs = []
        ways = [(True, True, "any"), (True, False, "any"), (False, False, "any"), (False, True, "any"), (True, True, "8"), (True, True, "5")]
        for hdr, strict, cls in ways[:2] if big else ways:
            base = {"type": t, "hdr": hdr, "strict": strict, "cls": cls}
            cs.append(base)
            if cls != "any" or big:
                continue
            deltas = [-1, 1, 15, 16, 17, -16, 512, -512, 1023, 1024, -1024, 8192, -k * 512]
            cs += [dict(base, delta=d) for d in deltas]
            cs += [dict(base, size=s * 1024) for s in sizes if s != k and (s <= 1024 if k <= 64 or deep else s <= 128)]
        cs.append({"type": t, "hdr": True, "strict": True, "auto": True})
        if not big:
            cs += [{"type": t, "hdr": True, "strict": True, "auto": True, "delta": d} for d in (-1, 1, 1024, -1024)]
        out += [("types", {"cases": c}) for c in chunks(cs, 60 if k <= 64 else 15 if k < 1000 else 8)]
    nums = list(range(70000 if deep else 300)) + [2 ** i for i in range(9, 32)] + [2 ** 32 - 1]
    out += [("headers", {"cases": c}) for c in chunks([{"number": n} for n in nums] + [{"table": 1}], 2000)]
    sums = [{"crc": b << s, "type": t} for t in (1, 12, 45) for s in (0, 8, 16, 24) for b in range(256)] + [{"crc": c, "type": 1} for c in (0x12345678, 0xffffffff, 0x80000000)]
    out += [("headers", {"cases": c}) for c in chunks(sums, 1600)]
    roms = set(range(5001))
    for b in range(10, 21):
        roms |= set(range((1 << b) - 3, (1 << b) + 4)) | {3 << (b - 1), (1 << b) + 16}
    out += [("roms", {"cases": c}) for c in chunks([{"rom": n} for n in sorted(roms)], 300)]
    return out
