"""C14 compressed containers"""
import bz2
import functools
import gc
import gzip
import hashlib
import io
import lzma
import struct
import zlib

import numpy as np

from atari_ref import atr_header
from checks import c09
from core import Violation, chunks, pattern
from readonly import read_everything
from atrcopy import SegmentData, find_diskimage_from_data, iter_parsers, errors
from atrcopy.parsers import guess_container

PROPERTY = "C14"
LEVEL = "fault_enumeration"
TITLE = "compressed containers are transparent"
RULE = ("every image x container is opened and compared with the bare image; every truncation and every single-byte change of a container "
        "must give the original image, the container's own bytes, or an error; distinct = (container, damage, outcome)")
BOUNDS = {
    "quick": "20 images x 15 container variants, 5 more images of up to 16 MB, 14 images known by checksum only (levels, header fields, split into 2 members at 9 points, known and unknown length); 4 images x 6 containers: every truncation, every byte x 12 values; pass-through of 20 images and of all-zero/all-one images with every value in each of the first 16 bytes and pairs of them; all 2x256 DCM headers",
    "thorough": "every container byte x all 256 values, members split at every point",
}
ASSUMPTIONS = ["changed bytes in a bare .lzma stream are out of scope: that format has no check sum (its truncations are covered)",
               "data counts as not compressed if it does not start with a valid header of one of the formats"]


def mk(kind, raw, split=None):
    if split is not None:
        return mk(kind, raw[:split]) + mk(kind, raw[split:])
    if kind.startswith("gz"):
        if kind == "gzname":
            # FEXTRA, FNAME, FCOMMENT, FHCRC
            h = b"\x1f\x8b\x08\x1e" + struct.pack("<IBB", 0x5e000000, 0, 3) + struct.pack("<H", 5) + b"ab\x01\x00x" + b"disk.atr\0" + b"comment\0"
            h += struct.pack("<H", zlib.crc32(h) & 0xffff)
            c = zlib.compressobj(9, zlib.DEFLATED, -15)
            return h + c.compress(raw) + c.flush() + struct.pack("<II", zlib.crc32(raw), len(raw) & 0xffffffff)
        return gzip.compress(raw, {"gz0": 0, "gz1": 1, "gz9": 9}[kind], mtime=0)
    if kind.startswith("bz2"):
        return bz2.compress(raw, int(kind[3:] or 9))
    if kind.startswith("xz"):
        check = {"xz": lzma.CHECK_CRC64, "xzcrc32": lzma.CHECK_CRC32, "xzsha": lzma.CHECK_SHA256}[kind]
        return lzma.compress(raw, lzma.FORMAT_XZ, check=check, preset=0)
    b = lzma.compress(raw, lzma.FORMAT_ALONE, preset=int(kind[4:5]))
    if kind.endswith("n"):
        # the same stream with its length in the header (end marker allowed)
        b = b[:5] + struct.pack("<Q", len(raw)) + b[13:]
    return b


KINDS = ["gz0", "gz1", "gz9", "gzname", "bz21", "bz29", "xz", "xzcrc32", "xzsha", "lzma0", "lzma6", "lzma0n"]
IMAGES = ["SD", "DD", "ED", "XSD", "mydos", "dos33", "sparta128", "sparta256", "kboot", "boot", "xex", "bsave", "cart8", "cart32", "cart16-5200", "rom2", "rom8",
          "zip", "prodos", "delivery"]
# up to the largest image an ATR can hold with 256-byte sectors
BIG = ["big1040-128-p", "big2048-256-0", "big8300-256-p", "big65535-256-p", "big65535-256-0"]


@functools.lru_cache(None)
def image(name):
    if name == "tiny":
        return b"\x00\x20\x01\x00\x60"
    if name.startswith("big"):
        # boot disks of unusual size: sectors, sector size, contents
        n, ss, fill = name[3:].split("-")
        n, ss = int(n), int(ss)
        b = bytearray(pattern("big", 4093) * (n * ss // 4093 + 1) if fill == "p" else bytes([int(fill)]) * (n * ss))
        del b[n * ss - (384 if ss == 256 else 0):]
        for i in range(0, len(b), 65521):
            b[i] = (i // 65521) & 255     # no two parts alike
        b[0:7] = bytes([0, 3, 0, 7, 0x40, 0xff, 0x60])
        return atr_header(len(b), ss) + bytes(b)
    return c09.base(name)[0]


@functools.lru_cache(8)
def packed(kind, name, split=None):
    return mk(kind, image(name), split)


def arr(b):
    return np.frombuffer(b, dtype=np.uint8).copy()


def opened(raw):
    data = arr(raw)
    try:
        parser, mime = find_diskimage_from_data(data)
    except errors.AtrError as e:
        return (type(e).__name__,)
    out = (parser.menu_name, type(parser).__name__, mime, parser.segments[0].data.tobytes(), read_everything(parser),
           [(s.name, s.origin, len(s)) for s in parser.segments])
    if data.tobytes() != raw:
        raise Violation("opening changed the compressed data")
    return out


@functools.lru_cache(None)
def reference(name):
    return opened(image(name))


def check_open(case):
    raw = image(case["image"])
    b = packed(case["kind"], case["image"], case.get("split"))
    c = guess_container(arr(b))
    if c is None:
        raise Violation("not recognised as compressed")
    if np.asarray(c.unpacked).tobytes() != raw:
        raise Violation("unpacked to %d different bytes, image has %d" % (len(c.unpacked), len(raw)))
    if not case.get("light") and (case.get("split") is None or case["split"] == len(raw) // 2):
        got, want = opened(b), reference(case["image"])
        if got != want:
            raise Violation("opens as %s, bare image as %s" % (str(got[:3])[:80], str(want[:3])[:80]))
        try:
            mime, parser = iter_parsers(SegmentData(arr(b)))
        except errors.AtrError as e:
            if (type(e).__name__,) != want:
                raise Violation("iter_parsers raises %s, bare image gives %s" % (type(e).__name__, str(want)[:80]))
            return "ok"
        if want[0] != (parser.menu_name if parser else "UnsupportedDiskImage"):
            raise Violation("iter_parsers gives %r instead of %r" % (parser and parser.menu_name, want[0]))
        if parser and mime != want[2]:
            raise Violation("iter_parsers gives %r instead of %r" % (mime, want[2]))
        if parser and parser.segments[0].data.tobytes() != want[3]:
            raise Violation("iter_parsers gives other bytes")
    # the data must be writable like that of an uncompressed image
    u = c.unpacked
    if len(u):
        old = int(u[0])
        u[0] = old ^ 255
        if u[0] != old ^ 255:
            raise Violation("unpacked image cannot be changed")
    return "ok"


def check_known(case):
    """images that are known by their checksum alone"""
    from atrcopy import parsers, signatures
    db = getattr(parsers, "sha1_signatures", None)
    if db is None or db is not getattr(signatures, "sha1_signatures", None):
        return "no database"
    n, mime = case["known"]
    raw = bytes((0x21 + i * 7) & 0x3f | 0x20 for i in range(n))
    had = n in db
    entry = db.setdefault(n, {})
    old = dict(entry)
    try:
        entry[hashlib.sha1(raw).digest()] = (mime, "title")
        want = opened(raw)
        if len(want) < 3 or want[2] != mime:
            raise Violation("image of %d bytes with a known checksum opens as %s" % (n, str(want[:3])))
        b = mk(case["kind"], raw, case.get("split"))
        got = opened(b)
        if got != want:
            raise Violation("opens as %s, bare image as %s" % (str(got[:3])[:80], str(want[:3])[:80]))
        m, parser = iter_parsers(SegmentData(arr(b)))
        if parser is None or (parser.menu_name, m) != (want[0], mime) or parser.segments[0].data.tobytes() != want[3]:
            raise Violation("iter_parsers gives %s %s instead of %s" % (parser and parser.menu_name, m, want[:3]))
    finally:
        if had:
            entry.clear()
            entry.update(old)
        else:
            del db[n]
    return mime


def check_damage(case):
    raw = image(case["image"])
    b = bytearray(packed(case["kind"], case["image"]))
    if "cut" in case:
        b = b[:case["cut"]]
    for p, v in case.get("set", []):
        b[p] = v
    b += bytes.fromhex(case.get("add", ""))
    b = bytes(b)
    a = arr(b)
    try:
        c = guess_container(a)
    except errors.UnsupportedContainer:
        return "unsupported"
    if a.tobytes() != b:
        raise Violation("damaged container was changed")
    if c is None:
        return "not a container"
    u = np.asarray(c.unpacked).tobytes()
    if u != raw and u != b:
        raise Violation("damaged container unpacked to %d bytes that differ from the image of %d bytes" % (len(u), len(raw)))
    return "intact"


def looks_compressed(b):
    if b[:2] == b"\x1f\x8b" or b[:3] == b"BZh" or b[:6] == b"\xfd7zXZ\0" or b[:4] == b"LZIP":
        return True
    if len(b) > 13 and b[0] < 225:
        d = int.from_bytes(b[1:5], "little")
        if d >= 4096:
            n = d.bit_length() - 1
            if d == 1 << n or d == 3 << (n - 1) or d == 0xffffffff:
                s = int.from_bytes(b[5:13], "little")
                return s == (1 << 64) - 1 or s < 1 << 38
    return False


def check_plain(case):
    if "image" in case:
        raw = bytearray(image(case["image"]))
    else:
        raw = bytearray([case["fill"]]) * case["size"]
    for p, v in case.get("set", []):
        if p < len(raw):
            raw[p] = v
    raw = bytes(raw)
    if looks_compressed(raw):
        return "skip"
    dcm = len(raw) > 1 and raw[0] in (0xf9, 0xfa) and raw[1] & 31 == 1 and (raw[1] >> 5) & 3 < 3
    a = arr(raw)
    try:
        c = guess_container(a)
    except errors.UnsupportedContainer:
        if dcm:
            return "dcm"
        raise Violation("reported as an unsupported container")
    if dcm:
        raise Violation("DCM archive not reported as unsupported")
    if c is not None:
        raise Violation("%d uncompressed bytes unpacked to %d bytes by %s" % (len(raw), len(c.unpacked), type(c).__name__))
    if a.tobytes() != raw:
        raise Violation("data changed")
    if "image" in case and not case.get("set"):
        reference(case["image"])
    return "plain"


def check_dcm(case):
    raw = bytes(case["dcm"]) + pattern("dcm", case["more"])
    t, f = case["dcm"]
    valid = f & 0x1f == 1 and (f >> 5) & 3 < 3
    for opener in (lambda: find_diskimage_from_data(arr(raw)), lambda: iter_parsers(SegmentData(arr(raw))), lambda: guess_container(arr(raw))):
        try:
            r = opener()
            name = "accepted"
        except errors.UnsupportedContainer:
            name = "unsupported"
        except errors.AtrError:
            name = "error"
        if valid and name != "unsupported":
            raise Violation("DCM archive $%02x $%02x is %s instead of reported as unsupported" % (t, f, name))
        if not valid and name == "unsupported":
            raise Violation("$%02x $%02x is not a first DCM pass but reported as one" % (t, f))
    return "dcm" if valid else "not dcm"


def run_case(case):
    if "dcm" in case:
        return check_dcm(case)
    if "known" in case:
        return check_known(case)
    if case["what"] == "open":
        return check_open(case)
    if case["what"] == "damage":
        return check_damage(case)
    return check_plain(case)


def fam(res, args):
    if "gen" in args:
        cases = generate(args["gen"])
    else:
        cases = args["cases"]
    for i, c in enumerate(cases):
        res.count("traces")
        res.count("transitions")
        res.sample(c)
        r = res.case(c, run_case, c)
        if r is not None:
            res.outcome(r)
            res.state((c.get("kind"), c.get("image"), str(c.get("set")), c.get("cut"), r))
        if i % (25 if "zma" in str(c.get("kind")) or "xz" in str(c.get("kind")) else 500) == 0:
            gc.collect()    # decompressors hold megabytes


FAMILIES = {"open": fam, "known": fam, "damage": fam, "plain": fam, "dcm": fam}


def generate(g):
    """cases of one slice; kept out of the plan to keep that small"""
    kind, name, lo, hi, tier = g
    b = packed(kind, name)
    for p in range(lo, min(hi, len(b))):
        yield {"what": "damage", "kind": kind, "image": name, "cut": p}
        if kind.startswith("lzma"):
            continue
        o = b[p]
        if tier == "thorough":
            vs = [v for v in range(256) if v != o]
        else:
            vs = [v for v in dict.fromkeys([0, 255, (o + 1) & 255, (o - 1) & 255] + [o ^ 1 << k for k in range(8)]) if v != o]
        for v in vs:
            yield {"what": "damage", "kind": kind, "image": name, "set": [[p, v]]}


def plan(tier):
    deep = tier == "thorough"
    out = []
    cs = []
    for n in IMAGES:
        raw = len(image(n))
        for k in KINDS:
            cs.append({"what": "open", "image": n, "kind": k})
        for k in ("gz9", "bz29", "xz"):
            pts = [0, 1, 2, 16, raw // 2, raw - 1, raw]
            if deep and raw < 3000:
                pts = range(raw + 1)
            cs += [{"what": "open", "image": n, "kind": k, "split": p} for p in sorted(set(pts))]
    out += [("open", {"cases": c}) for c in chunks(cs, 20)]
    cs = [{"known": [n, "application/vnd." + m], "kind": k} for n in (90, 777, 4096, 8448) for m in ("atari2600.cart", "atari2600.starpath", "vectrex") for k in KINDS]
    cs += [{"known": [n, "application/vnd.atari5200.cart"], "kind": k} for n in (4096, 32768) for k in KINDS]
    out += [("known", {"cases": c}) for c in chunks(cs, 20)]
    for n in BIG:
        for k in KINDS:
            for sp in (None, 1 << 16) if k in ("gz9", "bz29", "xz") else (None,):
                c = {"what": "open", "image": n, "kind": k, "light": 1}
                if sp:
                    c["split"] = sp
                out.append(("open", {"cases": [c]}))
    for n in ("tiny", "xex", "bsave", "kboot") + (("SD", "dos33", "sparta256") if deep else ("SD",)):
        for k in ("gz9", "gzname", "bz29", "xz", "xzcrc32", "lzma0", "lzma0n"):
            m = len(packed(k, n))
            if n == "SD" and not deep:
                # headers and trailers plus the middle
                for lo, hi in ((0, 48), (m // 2, m // 2 + 24), (m - 48, m)):
                    out.append(("damage", {"gen": [k, n, lo, hi, tier]}))
                continue
            step = 50 if len(image(n)) < 3000 else 25
            for lo in range(0, m, step):
                out.append(("damage", {"gen": [k, n, lo, lo + step, tier]}))
    cs = []
    for n in ("tiny", "xex"):
        for k in ("gz9", "bz29", "xz"):
            for add in ("00", "0000000000", "ff", "1f8b", "1f8b0800", "425a68", "425a683931", "fd377a585a00", "fd377a585a0000", "5d00000100"):
                cs.append({"what": "damage", "kind": k, "image": n, "add": add})
    out.append(("damage", {"cases": cs}))
    cs = [{"what": "plain", "image": n} for n in IMAGES if not n.startswith("zip")]
    sizes = (20, 720 * 128) if not deep else (14, 20, 1024, 720 * 128, 143360)
    for size in sizes:
        for fill in (0, 255, 1, 0x5d):
            cs.append({"what": "plain", "fill": fill, "size": size})
            for p in range(16):
                cs += [{"what": "plain", "fill": fill, "size": size, "set": [[p, v]]} for v in range(256) if v != fill and (size < 100 or deep or v < 40 or v in (128, 255))]
            if fill in (0, 255):
                for p in range(16):
                    for q in range(p + 1, 16):
                        for v in (1, 2, 4, 0x10, 0x5d, 0x80, 0xff):
                            for w in (1, 5, 0x20, 0x80, 0xff):
                                if size < 100 or (deep and size < 3000):
                                    cs.append({"what": "plain", "fill": fill, "size": size, "set": [[p, v], [q, w]]})
    for p in range(16):
        for n in ("SD", "dos33", "xex", "XSD"):
            cs += [{"what": "plain", "image": n, "set": [[p, v]]} for v in ((0, 1, 0x1f, 0x42, 0x5d, 0xf9, 0xfa, 0xfd, 255) if not deep else range(256))]
    out += [("plain", {"cases": c}) for c in chunks(cs, 400)]
    cs = [{"dcm": [t, f], "more": m} for t in (0xf9, 0xfa) for f in range(256) for m in (0, 1, 3, 40)]
    out += [("dcm", {"cases": c}) for c in chunks(cs, 256)]
    return out
