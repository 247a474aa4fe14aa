"""C08 sector geometry and ATR headers"""
import numpy as np

import atari_ref as A
import dos33_ref as D
from core import Violation, chunks, pattern
from atrcopy import SegmentData, AtariDosDiskImage, Dos33DiskImage, errors
from atrcopy.ataridos import AtrHeader, AtariDiskImage, add_atr_header

PROPERTY = "C08"
LEVEL = "exploration"
TITLE = "sector numbers map one-to-one onto the bytes of the image"
RULE = ("every sector number of every layout is mapped by the real code and compared with an independent computation; every value "
        "of every ATR header byte is decoded and re-encoded; distinct = distinct (layout, sector range) and header byte strings")
BOUNDS = {
    "quick": "7 standard layouts + 30 other ATR sizes (128/256/512 byte sectors), all sector numbers from -3 to N+40, all sector ranges of length <= 9 on one small image; 16 x 256 single-byte header variants and all 4096 size/sector-size combinations of a grid",
    "thorough": "same with all pairs of header bytes at 12 values and 400 other sizes",
}
ASSUMPTIONS = ["first three sectors are 128 bytes only in double density images whose size says so"]


def geos():
    out = dict(A.GEOS)
    for n, ss, nb in OTHER:
        name = "%dx%d%s" % (n, ss, "+short" if nb else "")
        out[name] = A.Geo(name, n, ss, nb)
    return out


OTHER = [(n, 128, 0) for n in (3, 4, 5, 18, 100, 719, 721, 1039, 1041, 1440, 2048)] + \
        [(n, 256, 3) for n in (4, 5, 18, 100, 719, 721, 1440, 2000, 4001)] + \
        [(n, 256, 0) for n in (4, 100, 721, 1440)] + [(n, 512, 0) for n in (4, 100, 720, 1440)]


def blank(geo):
    img = bytearray(A.blank(geo)) if geo.name in A.GEOS else None
    if img is None:
        img = bytearray(geo.size)
        img[0:16] = A.atr_header(geo.size - 16, geo.ssize)
    body = pattern("geo" + geo.name, geo.size - geo.hdr)
    if geo.name in A.GEOS:
        # keep directory and VTOC as they are, fill data sectors
        for s in range(4, 720):
            if not 360 <= s <= 368:
                p, n = geo.pos(s)
                img[p:p + n] = body[p - geo.hdr:p - geo.hdr + n]
        A.set_vtoc(img, geo, set(range(4, 720)) - set(range(360, 369)))
    else:
        img[geo.hdr:] = body
    return bytes(img)


def open_geo(geo):
    raw = blank(geo)
    data = np.frombuffer(raw, dtype=np.uint8).copy()
    cls = AtariDosDiskImage if geo.name in A.GEOS else AtariDiskImage
    return raw, cls(SegmentData(data))


def check_layout(name):
    geo = geos()[name]
    raw, img = open_geo(geo)
    h = img.header
    if h.max_sectors != geo.nsec:
        raise Violation("%s: %d sectors, should be %d" % (name, h.max_sectors, geo.nsec))
    listed = list(h.iter_sectors())
    want = [(s,) + geo.pos(s) for s in range(1, geo.nsec + 1)]
    if [tuple(map(int, x)) for x in listed] != want:
        bad = [(a, b) for a, b in zip(listed, want) if tuple(a) != b][:2]
        raise Violation("%s: iterating the sectors gives %d entries, first differences %s" % (name, len(listed), bad))
    end = geo.hdr
    for s in range(1, geo.nsec + 1):
        if not h.sector_is_valid(s):
            raise Violation("%s: sector %d is not valid" % (name, s))
        pos, size = h.get_pos(s)
        if (pos, size) != geo.pos(s) or pos != end:
            raise Violation("%s: sector %d is at %d+%d, should be at %d+%d" % (name, s, pos, size, *geo.pos(s)))
        end = pos + size
    if end != len(raw):
        raise Violation("%s: sectors end at %d of %d" % (name, end, len(raw)))
    for s in list(range(-3, 1)) + list(range(geo.nsec + 1, geo.nsec + 41)) + [0xffff, 1 << 20]:
        if h.sector_is_valid(s):
            raise Violation("%s: sector %d is valid" % (name, s))
        for what, fn in (("get_pos", lambda: h.get_pos(s)), ("get_sectors", lambda: img.get_sectors(s)), ("get_raw_bytes", lambda: img.get_raw_bytes(s))):
            try:
                fn()
            except errors.ByteNotInFile166:
                continue
            raise Violation("%s: %s(%d) did not raise the out of range error" % (name, what, s))
    # reading sectors and ranges
    step = 1 if geo.nsec <= 1040 else 37
    for s in list(range(1, geo.nsec + 1, step)) + [geo.nsec]:
        p, n = geo.pos(s)
        b, bp, bn = img.get_raw_bytes(s)
        if bytes(b) != raw[p:p + n] or (bp, bn) != (p, n):
            raise Violation("%s: raw bytes of sector %d" % (name, s))
        e = min(geo.nsec, s + 1 + s % 5)
        data, style = img.get_sectors(s, e)
        pe, ne = geo.pos(e)
        if bytes(data) != raw[p:pe + ne] or len(style) != len(data):
            raise Violation("%s: sectors %d-%d" % (name, s, e))
        if tuple(map(int, img.get_contiguous_sectors(s, e - s + 1))) != (p, pe + ne - p):
            raise Violation("%s: contiguous sectors %d-%d" % (name, s, e))
    if geo.hdr and bytes(h.to_array()) != raw[:16]:
        raise Violation("%s: header re-encoded as %s" % (name, bytes(h.to_array()).hex()))
    if not geo.hdr and len(h.to_array()) != 0:
        raise Violation("%s: header for headerless image" % name)
    if bytes(img.bytes) != raw:
        raise Violation("%s: image changed" % name)


def check_ranges(name):
    geo = geos()[name]
    raw, img = open_geo(geo)
    n = 0
    for a in range(1, min(geo.nsec, 14) + 1):
        for b in range(a, min(geo.nsec, a + 8) + 1):
            data, _ = img.get_sectors(a, b)
            lo = geo.pos(a)[0]
            hi = sum(geo.pos(b))
            if bytes(data) != raw[lo:hi]:
                raise Violation("%s: sectors %d-%d are %d bytes, should be %d" % (name, a, b, len(data), hi - lo))
            n += 1
    return n


def check_dos33():
    raw = D.build([])
    img = Dos33DiskImage(SegmentData(np.frombuffer(raw, dtype=np.uint8).copy()))
    h = img.header
    if [tuple(map(int, x)) for x in h.iter_sectors()] != [(s, s * 256, 256) for s in range(560)]:
        raise Violation("DOS 3.3 sectors")
    for t in range(35):
        for s in range(16):
            n = h.sector_from_track(t, s)
            if n != t * 16 + s or tuple(h.track_from_sector(n)) != (t, s):
                raise Violation("track %d sector %d <-> %s" % (t, s, n))
            if bytes(img.get_sectors(n)[0]) != raw[n * 256:n * 256 + 256]:
                raise Violation("bytes of track %d sector %d" % (t, s))
    for s in (-2, -1, 560, 561, 575, 576, 600, 65535):
        try:
            h.get_pos(s)
        except errors.ByteNotInFile166:
            continue
        raise Violation("DOS 3.3 sector %d did not raise the out of range error" % s)


def check_header(hdr):
    """decode -> encode reproduces; fields have the documented meaning"""
    arr = np.frombuffer(hdr, dtype=np.uint8).copy()
    try:
        h = AtrHeader(arr)
    except errors.InvalidAtrHeader:
        ss = hdr[4] | hdr[5] << 8
        if hdr[:2] == b"\x96\x02" and ss in (128, 256, 512, 1024):
            raise Violation("valid header %s refused" % hdr.hex())
        return "refused"
    if hdr[:2] != b"\x96\x02":
        raise Violation("header without magic accepted: %s" % hdr.hex())
    size = (hdr[2] | hdr[3] << 8 | hdr[6] << 16) * 16
    if h.image_size != size or h.sector_size != (hdr[4] | hdr[5] << 8):
        raise Violation("header %s decoded as size %d, sector size %d" % (hdr.hex(), h.image_size, h.sector_size))
    out = bytes(h.to_array())
    if out != hdr:
        raise Violation("header %s re-encoded as %s" % (hdr.hex(), out.hex()))
    if bytes(arr) != hdr:
        raise Violation("decoding changed the header")
    return "ok"


def check_new_header(name):
    """adding an ATR header to headerless data of a standard size"""
    geo = A.GEOS[name]
    raw = blank(geo)
    body = raw[geo.hdr:]
    data = add_atr_header(np.frombuffer(body, dtype=np.uint8).copy())
    want = A.atr_header(len(body), geo.ssize) + body
    if bytes(data) != want:
        raise Violation("%s: header added as %s, should be %s" % (name, bytes(data[:16]).hex(), want[:16].hex()))
    img = AtariDosDiskImage(SegmentData(data))
    if img.header.max_sectors != geo.nsec or img.header.sector_size != geo.ssize:
        raise Violation("%s: reopened as %d x %d" % (name, img.header.max_sectors, img.header.sector_size))
    src = AtariDosDiskImage(SegmentData(np.frombuffer(raw, dtype=np.uint8).copy()))
    new = src.as_new_format("ATR")
    if bytes(new.bytes) != want:
        raise Violation("%s: conversion to ATR differs" % name)
    if bytes(src.bytes) != raw:
        raise Violation("%s: conversion changed the source" % name)


def run_case(case):
    k, v = case["kind"], case["value"]
    if k == "header":
        check_header(bytes.fromhex(v))
    else:
        {"layout": check_layout, "ranges": check_ranges, "new": check_new_header, "dos33": lambda x: check_dos33()}[k](v)


def fam(res, args):
    for v in args["values"]:
        case = {"kind": args["kind"], "value": v}
        res.state((args["kind"], v))
        res.sample(case)
        res.case(case, run_case, case)


def fam_headers(res, args):
    for v in args["values"]:
        case = {"kind": "header", "value": v}
        res.state(bytes.fromhex(v))
        res.sample(case)
        res.case(case, run_case, case)


FAMILIES = {"geometry": fam, "headers": fam_headers}


def headers(tier):
    out = []
    base = A.atr_header(92160, 128)
    base2 = A.atr_header(16776960, 256)
    for b in (base, base2):
        for i in range(16):
            for v in range(256):
                h = bytearray(b)
                h[i] = v
                out.append(bytes(h).hex())
    for par in [0, 1, 23, 24, 255, 256, 5760, 8320, 11496, 11520, 65535, 65536, 65537, 0x100000, 0xfffff0, 0xffffff] + [1 << k for k in range(24)]:
        for ss in (128, 256, 512, 1024):
            for tail in (bytes(9), bytes(range(1, 10)), b"\xff" * 9):
                out.append((A.atr_header(par * 16, ss)[:7] + tail).hex())
    if tier == "thorough":
        vals = (0, 1, 2, 3, 127, 128, 129, 150, 254, 255, 64, 16)
        for i in range(16):
            for j in range(i):
                for a in vals:
                    for b in vals:
                        h = bytearray(base2)
                        h[i], h[j] = a, b
                        out.append(bytes(h).hex())
    return sorted(set(out))


def plan(tier):
    names = list(geos())
    out = [("geometry", {"kind": "layout", "values": [n]}) for n in names]
    out += [("geometry", {"kind": "ranges", "values": [n for n in names if n != "1440x128"]})]
    out += [("geometry", {"kind": "new", "values": [n]}) for n in A.GEOS]
    out += [("geometry", {"kind": "dos33", "values": ["DOS33"]})]
    out += [("headers", {"values": c}) for c in chunks(headers(tier), 400)]
    return out
