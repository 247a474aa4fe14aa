"""C09 arbitrary and damaged input"""
import bz2
import contextlib
import functools
import gc
import gzip
import io
import lzma
import zipfile

import numpy as np

import atari_ref as A
import dos33_ref as D
import sparta_ref as S
from core import Violation, chunks, pattern
from readonly import read_everything
from atrcopy import SegmentData, find_diskimage_from_data, iter_parsers, errors

PROPERTY = "C09"
LEVEL = "fault_enumeration"
TITLE = "arbitrary or damaged input is handled without hanging, crashing or changes"
RULE = ("every case of the bounded damage space is opened, identified, listed, printed and read; accepted outcomes: success or one of the "
        "library's own errors, within a CPU limit, input bytes untouched; distinct = distinct outcomes per base image and damage location")
BOUNDS = {
    "quick": "31 base images of all formats: every metadata byte x 11-15 values (0, 1, 127, 128, 255, each bit flipped, +-1; names and unused bytes 3 values), every metadata truncation; all byte strings of length <= 2 over 48 values and <= 4 over 10 values; every ATR header field x boundary values x 14 body sizes; every CART type x sizes; damage to each file's own sectors x isolation of the other files (listing, contents, segments; up to 40 files)",
    "thorough": "every metadata byte x all 256 values; all byte strings of length <= 2; pairs of damaged header bytes",
}
ASSUMPTIONS = ["termination is judged by a CPU limit of 60 s per case (ordinary cases take milliseconds)",
               "single damaged bytes and truncations (pairs in the thorough tier); not arbitrary combinations of damage"]


# ------------------------------------------------------------------ the act of opening

def segments(parser):
    return [(s.name, bytes(s.tobytes())) for s in parser.segments[1:] if "sectors" not in s.name]


def open_everything(raw, segs=False):
    """-> short description of the outcome; raises Violation"""
    data = np.frombuffer(raw, dtype=np.uint8).copy()
    try:
        parser, mime = find_diskimage_from_data(data)
        got = read_everything(parser)
        out = (parser.menu_name, got, segments(parser) if segs else None)
    except errors.AtrError as e:
        out = (type(e).__name__, None, None)
    if data.tobytes() != raw:
        raise Violation("opening or reading changed the input")
    return out


def open_both(raw):
    """also through the library's iterator"""
    out = open_everything(raw)
    data = np.frombuffer(raw, dtype=np.uint8).copy()
    try:
        mime, parser = iter_parsers(SegmentData(data))
    except errors.AtrError as e:
        if out[0] != type(e).__name__:
            raise Violation("find_diskimage: %s, iter_parsers: %s" % (out[0], type(e).__name__))
        return out
    name = parser.menu_name if parser is not None else "UnsupportedDiskImage"
    if name != out[0]:
        raise Violation("find_diskimage: %s, iter_parsers: %s" % (out[0], name))
    if data.tobytes() != raw:
        raise Violation("opening changed the input")
    return out


# ------------------------------------------------------------------ base images

def xex():
    def seg(a, d):
        e = a + len(d) - 1
        return bytes([a & 255, a >> 8, e & 255, e >> 8]) + d
    return b"\xff\xff" + seg(0x2000, pattern("x1", 20)) + seg(0x2e2, b"\x00\x20") + b"\xff\xff" + seg(0x3000, pattern("x2", 7)) + seg(0x2e0, b"\x05\x20")


def rng(*parts):
    out = []
    for p in parts:
        out += list(range(p[0], p[1])) if isinstance(p, tuple) else [p]
    return out


def atari(g):
    geo = {"SD": A.Geo("SD", 720, 128, 0), "DD": A.Geo("DD", 720, 256, 3), "ED": A.Geo("ED", 1040, 128, 0), "XSD": A.Geo("XSD", 720, 128, 0, False)}[g]
    p = geo.payload
    files = [{"slot": 0, "name": "A.DAT", "data": pattern("a", 2 * p + 1), "sectors": [4, 9, 5]},
             {"slot": 1, "name": "OLD.X", "flag": 0x80, "start": 30, "count": 2},
             {"slot": 2, "name": "B.XEX", "data": xex(), "sectors": [6], "flag": 0x62},
             {"slot": 3, "name": "C", "data": b"", "sectors": [7]}]
    raw = A.build(geo, files, None, 0xe5)
    pos = list(range(16)) if geo.hdr else []
    b = geo.pos(1)[0]
    pos += rng((b, b + 40))
    v, n = geo.pos(360)
    pos += rng((v, v + 24), v + 60, v + 99, v + 100, v + n - 1)
    if g == "ED":
        v, n = geo.pos(1024)
        pos += rng(v, v + 84, (v + 120, v + 126))
    d = geo.slot_pos(0)
    pos += rng((d, d + 16 * 4 + 8))
    LIGHT[g] = set(rng(*[(d + 16 * k + 6, d + 16 * k + 16) for k in range(5)], (b + 12, b + 31), (v + 12, v + 20)))
    own = {}
    for f in files:
        for s in f.get("sectors", []):
            q, n = geo.pos(s)
            own.setdefault(f["name"], []).extend([q] + list(range(q + n - 3, q + n)))
    q = geo.pos(6)[0]
    own["B.XEX"] += rng((q, q + len(xex())))
    return raw, pos, own


def many(kind):
    """a dozen files, each damaged in turn"""
    own = {}
    if kind == "dos33":
        files = [{"slot": i, "name": "FILE%02d" % i, "type": "TBAI"[i % 4], "data": bytes([0, 0x20]) + pattern("m%d" % i, 300), "ts": [320 + 4 * i], "sectors": [321 + 4 * i, 322 + 4 * i]} for i in range(17)]
        raw = D.build(files, None)
        for f in files:
            own[f["name"]] = [f["ts"][0] * 256 + k for k in (1, 2, 12, 13, 14, 15)]
    else:
        geo = A.Geo("SD", 720, 128, 0)
        files = [{"slot": i, "name": "FILE%02d.DAT" % i, "data": pattern("m%d" % i, 300), "sectors": [20 + 40 * i, 380 + i, 21 + 3 * i], "flag": 0x46 if kind == "mydos" else 0x42} for i in range(8)]
        files += [{"slot": i, "name": "FILE%02d.DAT" % i, "data": pattern("m%d" % i, 200), "sectors": [400 + 5 * i, 403 + 5 * i], "flag": 0x46 if kind == "mydos" else 0x42} for i in range(8, 40)]
        raw = A.build(geo, files, None, 0xe5)
        for f in files:
            own[f["name"]] = [geo.pos(s)[0] + k for s in f["sectors"] for k in ((125, 126, 127) if f["slot"] < 12 else (125,))]
    return raw, [], own


def mydos():
    geo = A.Geo("SD", 720, 128, 0)
    files = [{"slot": 0, "name": "A.DAT", "data": pattern("a", 251), "sectors": [4, 9, 5], "flag": 0x46},
             {"slot": 1, "name": "B.DAT", "data": pattern("b", 5), "sectors": [700], "flag": 0x66}]
    raw = A.build(geo, files, None, 0xe5)
    own = {}
    for f in files:
        for s in f["sectors"]:
            q, n = geo.pos(s)
            own.setdefault(f["name"], []).extend(range(q + n - 3, q + n))
    d = geo.slot_pos(0)
    return raw, rng((d, d + 33)), own


def dos33():
    files = [{"slot": 0, "name": "TEXT", "type": "T", "data": pattern("t", 300), "ts": [19 * 16 + 15], "sectors": [19 * 16 + 14, 19 * 16 + 13]},
             {"slot": 1, "name": "GONE", "deleted": True},
             {"slot": 2, "name": "BIN", "type": "B", "data": bytes([0, 0x20, 4, 1]) + pattern("b", 260), "ts": [20 * 16], "sectors": [20 * 16 + 2, 20 * 16 + 1], "locked": True},
             {"slot": 7, "name": "BASIC", "type": "A", "data": pattern("c", 7), "ts": [21 * 16], "sectors": [21 * 16 + 1]}]
    files += [{"slot": i, "name": "D%d" % i, "deleted": True} for i in (3, 4, 5, 6)]
    raw = D.build(files, None, D.Geo33([287, 286]))
    v = 272 * 256
    pos = rng((0, 4), (v, v + 0x3c), v + 0xff)
    c = 287 * 256
    pos += rng((c, c + 11 + 35 * 3))
    LIGHT["dos33"] = set(rng((v + 8, v + 0x26), (v + 0x28, v + 0x30), (c + 3, c + 11), *[(c + 11 + 35 * k + 4, c + 11 + 35 * k + 32) for k in range(3)]))
    c = 286 * 256
    pos += rng((c, c + 11 + 36))
    LIGHT["dos33"] |= set(rng((c + 3, c + 11), (c + 15, c + 43)))
    own = {}
    for f in files:
        for t in f.get("ts", []):
            own.setdefault(f["name"], []).extend(rng((t * 256, t * 256 + 20), t * 256 + 255))
            LIGHT["dos33"] |= set(rng((t * 256 + 3, t * 256 + 12), t * 256))
        for s in f.get("sectors", []):
            own[f["name"]].extend(range(s * 256, s * 256 + 5))
            LIGHT["dos33"] |= set(rng((s * 256, s * 256 + 5)))
    return raw, pos, own


def sparta(ss):
    g = S.geo(720, ss)
    files = [{"base": b"ONE", "ext": b"DAT", "data": pattern("1", ss * 2 + 5)},
             {"base": b"TWO", "ext": b"", "data": pattern("2", ss * (ss // 2 - 2) + 3 if ss == 128 else 700)},
             {"base": b"SUB", "ext": b"", "data": pattern("3", 46), "status": S.IN_USE | S.SUBDIR},
             {"base": b"DEL", "ext": b"X", "status": S.DELETED}]
    raw = S.build(g, files)
    b = g.pos(1)[0]
    rm = raw[b + 9] | raw[b + 10] << 8
    p = g.pos(rm)[0]
    root = raw[p + 4] | raw[p + 5] << 8
    r = g.pos(root)[0]
    pos = rng((0, 16), (b, b + 44), (p, p + 10), (r, r + 23 * 5))
    LIGHT["sparta%d" % ss] = set(rng((b + 22, b + 30), *[(r + 23 * k + 7, r + 23 * k + 22) for k in range(5)]))
    own = {}
    for i, f in enumerate(files):
        if "data" not in f:
            continue
        m = raw[r + 23 * (i + 1) + 1] | raw[r + 23 * (i + 1) + 2] << 8
        name = f["base"].decode() + ("." + f["ext"].decode() if f["ext"] and not f.get("status", 8) & S.SUBDIR else "")
        k = 0
        while m:
            q, n = g.pos(m)
            own.setdefault(name, []).extend(rng((q, q + 12), (q + n - 2, q + n)))
            if k == 0:
                first = raw[q + 4] | raw[q + 5] << 8
                own[name] += rng((g.pos(first)[0], g.pos(first)[0] + 3))
            m = raw[q] | raw[q + 1] << 8
            k += 1
    return raw, pos, own


def kboot():
    from atrcopy.kboot import add_xexboot_header
    x = xex() + pattern("pad", 120)
    body = bytes(add_xexboot_header(np.frombuffer(x, dtype=np.uint8).copy()))
    raw = A.atr_header(len(body), 128) + body
    return raw, rng((0, 16), (16, 16 + 40), (16 + 384, 16 + 384 + 60)), {}


def zipped(method, n=2):
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w", method) as z:
        for i in range(n):
            z.writestr(zipfile.ZipInfo("rom%d.bin" % i, (1990, 1, 1, 0, 0, 0)), bytes([i]) * 16 + bytes(16 * i), method)
    b = f.getvalue()
    return b, list(range(len(b))), {}


def cart(t, k, hdr=True):
    body = bytes(b & 0x7f for b in pattern("cart%d" % t, k * 1024))
    if hdr:
        return b"CART" + bytes([0, 0, 0, t, 1, 2, 3, 4, 0, 0, 0, 0]) + body, rng((0, 20)), {}
    return body, rng((0, 4)), {}


def container(kind, what):
    raw = {"xex": xex(), "atr": atari("SD")[0]}[what]
    if kind == "gz":
        b = gzip.compress(raw, mtime=0)
    elif kind == "bz2":
        b = bz2.compress(raw)
    elif kind == "xz":
        b = lzma.compress(raw, preset=0)
    else:
        b = lzma.compress(raw, lzma.FORMAT_ALONE, preset=0)
    if what == "atr":
        pos = rng((0, 40), (len(b) - 30, len(b)))
    else:
        pos = list(range(len(b)))
    return b, pos, {}


def delivery():
    from atrcopy.standard_delivery import StandardDeliveryImage
    from atrcopy.segments import DefaultSegment
    s = DefaultSegment(SegmentData(np.frombuffer(pattern("sd", 700), dtype=np.uint8).copy()), 0x2000)
    with contextlib.redirect_stdout(io.StringIO()):
        img = StandardDeliveryImage.create_boot_image([s], 0x2000)
    return bytes(img.bytes[:]), rng((0, 8), (272 * 256, 272 * 256 + 6)), {}


def boot():
    """boot disk without a file system"""
    body = bytearray(pattern("boot", 90 * 128))
    body[0:6] = bytes([0, 3, 0, 7, 0x40, 0x15])
    body[9:12] = b"\xff\xff\xff"
    return A.atr_header(len(body), 128) + bytes(body), rng((0, 16), (16, 16 + 12)), {}


BASES = {
    "SD": lambda: atari("SD"), "DD": lambda: atari("DD"), "ED": lambda: atari("ED"), "XSD": lambda: atari("XSD"),
    "many-atari": lambda: many("atari"), "many-mydos": lambda: many("mydos"), "many-dos33": lambda: many("dos33"),
    "mydos": mydos, "dos33": dos33, "sparta128": lambda: sparta(128), "sparta256": lambda: sparta(256), "kboot": kboot, "boot": boot,
    "xex": lambda: (xex(), list(range(len(xex()))), {}),
    "bsave": lambda: (b"\x00\x20\x0a\x00" + pattern("b", 10), list(range(14)), {}),
    "cart8": lambda: cart(1, 8), "cart32": lambda: cart(12, 32), "cart16-5200": lambda: cart(16, 16), "rom2": lambda: cart(57, 2, False), "rom8": lambda: cart(1, 8, False),
    "zip": lambda: zipped(zipfile.ZIP_STORED), "zipdef": lambda: zipped(zipfile.ZIP_DEFLATED), "zip0": lambda: zipped(zipfile.ZIP_STORED, 0),
    "gz": lambda: container("gz", "xex"), "bz2": lambda: container("bz2", "xex"), "xz": lambda: container("xz", "xex"), "lzma": lambda: container("lzma", "xex"),
    "gz-atr": lambda: container("gz", "atr"),
    "dcm": lambda: (b"\xfa\x81" + pattern("dcm", 30), list(range(8)), {}),
    "prodos": lambda: (b"\x01\x38\xb0\x03" + bytes(143360 - 4), rng((0, 4)), {}),
    "delivery": delivery,
}


@functools.lru_cache(None)
def base(name):
    return BASES[name]()


@functools.lru_cache(None)
def clean(name):
    return open_everything(base(name)[0], True)


LIGHT = {}      # bytes of names, dates, unused areas: fewer values in the quick tier


def values(orig, tier, light=False):
    if tier == "thorough":
        return [v for v in range(256) if v != orig]
    if light:
        return [v for v in dict.fromkeys([0, 0xff, orig ^ 0x80]) if v != orig]
    vs = [0, 1, 0x7f, 0x80, 0xff, (orig + 1) & 255, (orig - 1) & 255] + [orig ^ (1 << b) for b in range(8)]
    return [v for v in dict.fromkeys(vs) if v != orig]


# ------------------------------------------------------------------ cases

def damaged(case):
    raw = bytearray(base(case["base"])[0])
    for p, v in case["set"]:
        raw[p] = v
    if "cut" in case:
        raw = raw[:case["cut"]]
    if "add" in case:
        raw += bytes.fromhex(case["add"])
    return bytes(raw)


def atr_case(case):
    h = bytearray(16)
    h[0:2] = b"\x96\x02"
    par, ss, size = case["atr"]
    h[2:4] = bytes([par & 255, (par >> 8) & 255])
    h[4:6] = bytes([ss & 255, ss >> 8])
    h[6] = (par >> 16) & 255
    return bytes(h) + bytes((i * 7) & 0x7f for i in range(size))


def cart_case(case):
    t, size = case["cart"]
    return b"CART" + t.to_bytes(4, "big") + b"\1\2\3\4\0\0\0\0" + bytes((i * 3) & 0x7f for i in range(size))


def named(segment, name):
    """segment names contain the file name as a word"""
    return name in segment.split() or name in segment


def run_case(case):
    if "hex" in case:
        out = open_both(bytes.fromhex(case["hex"]))
    elif "atr" in case:
        out = open_everything(atr_case(case))
    elif "cart" in case:
        out = open_everything(cart_case(case))
    else:
        out = open_everything(damaged(case), bool(case.get("file")))
    if case.get("file"):
        # only this file's own sectors are damaged: all others must be as before
        want = clean(case["base"])
        if out[0] != want[0]:
            raise Violation("damage to the sectors of %s: image is now taken for %r" % (case["file"], out[0]))
        if [n for n, _ in out[1]] != [n for n, _ in want[1]]:
            raise Violation("damage to the sectors of %s: listing is now %s" % (case["file"], [n for n, _ in out[1]]))
        for (n, a), (_, b) in zip(out[1], want[1]):
            if n != case["file"] and a != b:
                raise Violation("damage to the sectors of %s: %s reads differently" % (case["file"], n))
        for n, _ in want[1]:
            if n != case["file"] and [x for x in out[2] if named(x[0], n)] != [x for x in want[2] if named(x[0], n)]:
                raise Violation("damage to the sectors of %s: segment of %s is missing or differs" % (case["file"], n))
    return out


def summary(out):
    return (out[0], None if out[1] is None else tuple((n, d if isinstance(d, str) else len(d)) for n, d in out[1]))


def fam(res, args):
    for c in args["cases"]:
        go(res, c)


def go(res, c):
    res.sample(c)
    if c.get("base") in ("xz", "lzma"):
        # decompressors with large dictionaries are freed late by the interpreter
        res.count("decompressors")
        if not c["set"] or c["set"][0][0] < 28 or res.n["decompressors"] % 50 == 0:
            gc.collect()
    out = res.case(c, run_case, c)
    if out is not None:
        res.outcome(out[0])
        res.state((c.get("base"), c.get("set"), summary(out)))


def fam_bytes(res, args):
    name = args["base"]
    raw, pos, own = base(name)
    if "unused" in args:
        return
    for p in args["pos"]:
        for v in values(raw[p], args["tier"], p in LIGHT.get(name, ())):
            c = {"base": name, "set": [[p, v]]}
            if args.get("file"):
                c["file"] = args["file"]
            go(res, c)


FAMILIES = {"bytes": fam_bytes, "cut": fam, "strings": fam, "headers": fam, "pairs": fam}

ALPHA48 = sorted(set([0, 1, 2, 3, 4, 7, 8, 0x10, 0x1f, 0x20, 0x28, 0x37, 0x38, 0x40, 0x41, 0x42, 0x43, 0x4b, 0x4c, 0x50, 0x52, 0x54, 0x5a, 0x5d, 0x60, 0x68, 0x7a,
                      0x7f, 0x80, 0x81, 0x8b, 0x96, 0x9d, 0xa1, 0xa8, 0xb0, 0xc0, 0xc1, 0xd0, 0xe0, 0xe2, 0xee, 0xf9, 0xfa, 0xfb, 0xfd, 0xfe, 0xff]))
ALPHA10 = [0, 1, 2, 0x1f, 0x42, 0x50, 0x80, 0x8b, 0x96, 0xff]


def plan(tier):
    out = []
    for name in BASES:
        raw, pos, own = base(name)
        pos = sorted(set(pos))
        step = 10 if len(raw) > 30000 else 40
        if tier == "thorough":
            step = max(1, step // 10)
        out += [("bytes", {"base": name, "pos": c, "tier": tier}) for c in chunks(pos, step)]
        for f, ps in sorted(own.items()):
            out += [("bytes", {"base": name, "pos": c, "tier": tier, "file": f}) for c in chunks(sorted(set(ps)), step)]
        # truncations and trailing bytes
        n = len(raw)
        if n < 600:
            cuts = list(range(n))
        else:
            cuts = sorted(set(list(range(0, 60)) + [k for c in range(0, n, 128 * 64) for k in (c, c + 1, c + 16, c + 17)] +
                              [p + d for p in pos for d in (0, 1)] + list(range(n - 10, n))))
            if tier != "thorough":
                cuts = [c for i, c in enumerate(cuts) if c < 60 or i % 3 == 0 or c > n - 10]
        cs = [{"base": name, "set": [], "cut": c} for c in cuts if c < n]
        cs += [{"base": name, "set": [], "add": a} for a in ("00", "ff", "00" * 16, "ff" * 128, "1f8b", "504b0506" + "00" * 18)]
        out += [("cut", {"cases": c}) for c in chunks(cs, 25)]
        if tier == "thorough":
            few = [p for p in pos if p < 64][:20]
            ps = [{"base": name, "set": [[p, v], [q, w]]} for i, p in enumerate(few) for q in few[i + 1:] for v in (0, 1, 0x80, 0xff) for w in (0, 1, 0x80, 0xff)]
            out += [("pairs", {"cases": c}) for c in chunks(ps, 100)]
    # short strings
    st = [[]]
    st += [[a] for a in range(256)]
    st += [[a, b] for a in (range(256) if tier == "thorough" else ALPHA48) for b in (range(256) if tier == "thorough" else ALPHA48)]
    st += [[a, b, c] for a in ALPHA10 for b in ALPHA10 for c in ALPHA10]
    if tier == "thorough":
        st += [[a, b, c, d] for a in ALPHA10 for b in ALPHA10 for c in ALPHA10 for d in ALPHA10]
    for a in (0x00, 0x01, 0x20, 0xff):      # executables with extreme segment addresses
        for b in (0, 0x20, 0xff):
            for c in (0, 1, 0xff):
                for d in (0, 0x20, 0xff):
                    for n in (0, 1, 2, 3):
                        st.append([0xff, 0xff, a, b, c, d] + [7] * n)
                        st.append([a, b, c, d] + [7] * n)
    for lo in (0xdf, 0xe0, 0xe1, 0xe2, 0xe3, 0xe4):
        for hi in (0xe0, 0xe1, 0xe2, 0xe3, 0xe4):
            for n in (0, 1, 2, 3, 5):
                st.append([0xff, 0xff, lo, 2, hi, 2] + [9] * n)
    st = sorted(set(bytes(s) for s in st))
    out += [("strings", {"cases": [{"hex": s.hex()} for s in c]}) for c in chunks(st, 60)]
    hs = []
    for par in (0, 1, 2, 8, 24, 25, 0xb3b, 0x1680, 0x1668, 0x2d00, 0x2cf8, 0x2cd0, 0x2080, 0xfff, 0x10000, 0xffffff):
        for ss in (0, 1, 127, 128, 129, 255, 256, 257, 512, 1024, 0x8080, 0xffff):
            for size in (0, 1, 15, 127, 128, 129, 383, 384, 385, 640, 4096, 46080, 92160):
                if tier != "thorough" and size > 4096 and not (ss in (0, 128, 256, 512) and par in (0, 0x1680, 0x2d00, 0xfff)):
                    continue
                hs.append({"atr": [par, ss, size]})
    for t in list(range(0, 70)) + [127, 128, 255, 256, 0x10000, 0xffffffff]:
        for size in (0, 1, 1023, 1024, 2048, 4096, 8192):
            hs.append({"cart": [t, size]})
    out += [("headers", {"cases": c}) for c in chunks(hs, 40)]
    return out
