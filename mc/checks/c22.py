"""C22 format recognition"""
import contextlib
import functools
import gzip
import hashlib
import io
import os
import shutil
import tempfile
import zipfile

import numpy as np

import atari_ref as A
import dos33_ref as D
import sparta_ref as S
from checks import c09, c20
from core import Violation, chunks, pattern
from atrcopy import SegmentData, errors, find_diskimage, find_diskimage_from_data, guess_detail_for_mime, guess_parser_for_system, iter_parsers
from atrcopy import omnivore_loader

PROPERTY = "C22"
LEVEL = "model_checking"
TITLE = "every supported kind of image is recognised, and as nothing else"
RULE = ("images of every format are built by independent encoders over the bounded parameter space and opened in every way there is; the reported format, "
        "MIME type and segments are compared with how the image was built; states = distinct (image parameters, verdict)")
BOUNDS = {
    "quick": "Atari DOS disks: 7 layouts x 6 file sets x 3 fill bytes; SpartaDOS: 6 layouts x 3 versions x 3 orders, boot record with every version and sector size byte and 25 wrong sector numbers; KBoot: executables of 1..400 bytes and around powers of two to 200,000; boot records: every sector count 0..255 x 14 load addresses x 4 flags on 3 layouts; "
             "file sizes: 92160, 133120, 183936, 184320 and 143360 with -17..+17 bytes; ATR magic: every value of each byte; executables: every 2-byte start, 1..5 parts, every cut; every cartridge type with header; ZIP files of 0..4 members, all sizes 0..48, stored and deflated; "
             "Apple binaries of 0..300 and up to 65535 bytes with every length field error -3..3; other data of every size 1..2100 and around powers of two; every signature: complete, each byte changed in 3 ways, each cut; checksum database: every format; each image also opened from a byte string and through the omnivore loader",
    "thorough": "each signature byte with all 255 other values, executable starts with 3-byte combinations, all sizes to 20,000",
}
ASSUMPTIONS = ["the checksum database is extended by entries for generated images: images with the listed checksums are not available",
               "boot disks carry no directory: their bytes where a directory would be are not valid entries"]

ATR, XEX, CART8, CART52 = ["application/vnd." + x for x in ("atari8bit.atr", "atari8bit.xex", "atari8bit.cart", "atari5200.cart")]
MAME, DSK, BIN, ROM = ["application/vnd." + x for x in ("mame_rom", "apple2.dsk", "apple2.bin", "rom")]
NAMES = {"kboot": ("KBoot Disk Image", ATR), "sparta": ("Sparta DOS Disk Image", ATR), "atari": ("Atari DOS Disk Image", ATR), "boot": ("Atari Boot Disk Image", ATR),
         "disk": ("Atari Disk Image", ATR), "xex": ("XEX (Atari 8-bit executable)", XEX), "zip": ("MAME ROM Zipfile", MAME), "dos33": ("DOS 3.3 Disk Image", DSK),
         "bin": ("BIN (Apple ][ executable)", BIN), "rom": ("ROM Image", ROM), None: (None, None)}

GEOS = dict(A.GEOS)


def arr(b):
    return np.frombuffer(b, dtype=np.uint8).copy()


def opened(fn):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return fn()
    except errors.UnsupportedDiskImage:
        return None


def identify(raw, ways="all"):
    """(menu name, mime, parser) by every way to open the data"""
    data = arr(raw)
    r = opened(lambda: find_diskimage_from_data(data))
    verdict = (r[0].menu_name, r[1]) if r else (None, None)
    if data.tobytes() != raw:
        raise Violation("opening changed the data")

    def same(v, how):
        if v != verdict:
            raise Violation("find_diskimage_from_data says %s, %s says %s" % (verdict, how, v))
    q = opened(lambda: iter_parsers(SegmentData(arr(raw))))
    same((q[1].menu_name, q[0]) if q and q[1] else (None, None), "iter_parsers")
    if ways in ("all", "sha"):
        v = opened(lambda: find_diskimage_from_data(arr(raw), True))
        same((v[0].menu_name, v[1]) if v else (None, None), "verbose opening")
        v = opened(lambda: find_diskimage_from_data(raw))
        same((v[0].menu_name, v[1]) if v else (None, None), "opening a byte string")
        with contextlib.redirect_stdout(io.StringIO()):
            v = omnivore_loader.identify_mime(raw[:1024], io.BytesIO(raw))
        same((v["atrcopy_parser"].menu_name, v["mime"]) if v else (None, None), "the loader for omnivore")
        v = opened(lambda: find_diskimage_from_data(gzip.compress(raw, 1, mtime=0)))
        same((v[0].menu_name, v[1]) if v else (None, None), "opening the compressed image")
        v = opened(lambda: iter_parsers(SegmentData(arr(gzip.compress(raw, 1, mtime=0)))))
        same((v[1].menu_name, v[0]) if v and v[1] else (None, None), "iter_parsers of the compressed image")
        if verdict[1] and "2600" not in verdict[1] and "vectrex" not in verdict[1] and ways != "sha":
            p = opened(lambda: guess_parser_for_system(verdict[1].split(".")[0] + "." + verdict[1].split(".")[1], SegmentData(arr(raw))))
            if p is None or p[1] is None or (p[1].menu_name, p[0]) != verdict:
                raise Violation("guess_parser_for_system says %s instead of %s" % (p and (p[1] and p[1].menu_name, p[0]), verdict))
        d = tempfile.mkdtemp(prefix="c22-")
        try:
            fn = os.path.join(d, "some.img")
            with open(fn, "wb") as fh:
                fh.write(raw)
            v = opened(lambda: find_diskimage(fn))
            same((v[0].menu_name, v[1]) if v else (None, None), "find_diskimage")
            if v and v[0].image.filename != fn:
                raise Violation("image does not know its file name")
            with open(fn, "rb") as fh:
                if fh.read() != raw or os.listdir(d) != ["some.img"]:
                    raise Violation("opening changed the file")
        finally:
            shutil.rmtree(d)
    return verdict, (r[0] if r else None)


def expect(raw, kind, ways="all", mime=None):
    (name, got), parser = identify(raw, ways)
    want = NAMES[kind] if not isinstance(kind, tuple) else kind
    if name != want[0]:
        raise Violation("%d bytes recognised as %s instead of %s" % (len(raw), name, want[0]))
    if got != (mime or want[1]):
        raise Violation("MIME type is %s instead of %s" % (got, mime or want[1]))
    if parser is not None:
        s = parser.segments[0]
        if kind != "zip" and s.tobytes() != raw:
            raise Violation("first segment is not the entire image")
        if kind in ("kboot", "sparta", "atari", "boot", "disk", "dos33", "xex"):
            s = parser.image.create_emulator_boot_segment()
            if s is None or s.tobytes() != raw:
                raise Violation("image for the emulator is not the entire image")
        elif kind == "bin":
            s = parser.image.create_emulator_boot_segment()
            if s is None or s.tobytes() != raw[4:] or s.origin != raw[0] + 256 * raw[1]:
                raise Violation("segment for the emulator is not the binary")
    return parser


# ------------------------------------------------------------------ builders and their checks

def c_atari(case):
    g = GEOS[case["geo"]]
    p = g.payload
    names = ["A.DAT", "B", "LONGNAME.EXT", "X.XEX", "E.E", "F.TXT"]
    files = []
    sec = 4
    for i in range(case["files"]):
        n = (0, 1, p, p + 1, 3 * p, 2 * p - 1)[i % 6]
        k = max(1, -(-n // p))
        files.append({"slot": i, "name": names[i % 6], "data": pattern("f%d" % i, n), "sectors": list(range(sec, sec + k)), "flag": (0x42, 0x62, 0x46)[i % 3]})
        sec += k
    raw = A.build(g, files, None, case["fill"])
    ps = expect(raw, "atari")
    if [f.filename for f in ps.image.files] != [f["name"] for f in files]:
        raise Violation("lists %s" % [f.filename for f in ps.image.files])
    return "atari"


def c_sparta(case):
    n, ss = case["sparta"]
    g = S.geo(n, ss)
    raw = S.build(g, [{"base": b"ONE", "ext": b"DAT", "data": pattern("1", k)} for k in case["sizes"]], case["order"], case["version"])
    if "field" in case:
        # a boot record that describes no SpartaDOS disk of this size
        off, size, value = case["field"]
        b = bytearray(raw)
        p = g.pos(1)[0] + off
        b[p:p + size] = value.to_bytes(size, "little")
        v = identify(bytes(b))[0]
        v = v[0] if isinstance(v, tuple) else v
        if (v == NAMES["sparta"][0]) != case["sane"]:
            raise Violation("%s with byte %d of its boot record changed to %d is identified as %s" % ("SpartaDOS disk", off, value, v))
        return "sparta field"
    expect(raw, "sparta")
    return "sparta"


def c_kboot(case):
    from atrcopy import add_xexboot_header
    n = case["kboot"]
    x = (b"\xff\xff\x00\x20" + bytes([(0x2000 + n) & 255, (0x2000 + n) >> 8 & 255]) + pattern("k", n))[:n]
    body = bytes(add_xexboot_header(arr(x)))
    expect(A.atr_header(len(body), 128) + body, "kboot", "some" if case.get("light") else "all")
    return "kboot"


def c_boot(case):
    flag, nsec, load, layout = case["boot"]
    ndisk, ss = layout
    body = bytearray(0xe5 ^ (b & 0x1f) for b in pattern("boot", ndisk * ss))
    body[0:6] = bytes([flag, nsec, load & 255, load >> 8, 0x40, 0x15])
    body[9:12] = b"\xff\xff\xff"
    body[32] = 0x99
    raw = A.atr_header(len(body), ss) + bytes(body)
    ok = nsec >= 1 and load + nsec * ss <= 0xc000 and not (flag == 255 and nsec == 255)
    if nsec > ndisk:
        # asks for more sectors than there are
        (name, mime), p = identify(raw, "some")
        if mime != ATR or name not in (NAMES["boot"][0], NAMES["disk"][0]):
            raise Violation("recognised as %s" % name)
        return "too many"
    p = expect(raw, "boot" if ok else "disk", "some")
    segs = [s for s in p.segments if "Boot" in s.name and s is not p.segments[0]]
    if ok and flag == 0:
        n = min(nsec * ss, len(body))
        want = [("Boot Sectors", load, bytes(body[:n])), ("Boot Header", load, bytes(body[:6])), ("Boot Code", load + 6, bytes(body[6:n]))]
        if [(s.name, s.origin, s.tobytes()) for s in segs] != want:
            raise Violation("%d boot sectors at $%04x shown as %s" % (nsec, load, [(s.name, hex(s.origin), len(s)) for s in segs]))
    elif not ok and segs:
        raise Violation("boot segments of a disk that does not boot")
    return "boot" if ok else "disk"


def c_size(case):
    """data that looks like nothing: only the size counts"""
    n = case["size"]
    raw = bytes((0x11 + i * 7) & 0x3f | 0x20 for i in range(n))
    raw = b"\x21\x00\x23\x24\x25"[:n] + raw[5:]     # not bootable
    if n in (92160, 133120, 183936, 184320):
        expect(raw, case.get("as", "disk"))
        return "disk"
    if n == 143360:
        return "skip"
    if n >= 4 and raw[2] | raw[3] << 8 == n - 4:
        return "skip"
    expect(raw, "rom" if n & (n - 1) == 0 else None, "some" if n > 300 else "all")
    return "rom" if n & (n - 1) == 0 else "none"


def c_magic(case):
    a, b, n, ss = case["atrmagic"]
    body = bytearray((0x11 + i * 7) & 0x3f | 0x20 for i in range(n * ss))
    body[0:4] = b"\x21\x00\x23\x24"     # not bootable
    raw = bytearray(A.atr_header(len(body), ss) + bytes(body))
    raw[0:2] = bytes([a, b])
    if (a, b) == (0x96, 2):
        expect(bytes(raw), "disk", "some")
        return "disk"
    if (a, b) == (255, 255):
        return "skip"
    expect(bytes(raw), None, "some")
    return "none"


def xex_of(parts):
    out = b"\xff\xff"
    for k, (start, n, mark) in enumerate(parts):
        if mark:
            out += b"\xff\xff"
        e = start + n - 1
        out += bytes([start & 255, start >> 8, e & 255, e >> 8]) + pattern("x%d" % k, n)
    return out


def c_xex(case):
    raw = bytearray(xex_of(case["xex"]))
    if "cut" in case:
        raw = raw[:case["cut"]]
    for p, v in case.get("set", []):
        raw[p] = v
    raw = bytes(raw)
    n = len(raw)
    if raw[:2] != b"\xff\xff":
        if n >= 4 and raw[2] | raw[3] << 8 == n - 4:
            return "skip"
        expect(raw, "rom" if n & (n - 1) == 0 else None, "some")
        return "not xex"
    p = expect(raw, "xex", "all" if case.get("full") else "some", case.get("mime"))
    if "cut" not in case and "set" not in case:
        got = [(s.origin, s.tobytes()) for s in p.segments[1:]]
        want = [(a, pattern("x%d" % k, m)) for k, (a, m, _) in enumerate(case["xex"])]
        if got != want:
            raise Violation("parts are %s" % [(hex(a), len(b)) for a, b in got])
    return "xex"


def c_reversed(case):
    """end address before the start"""
    raw = b"\xff\xff" + bytes(case["reversed"]) + bytes(case["more"])
    s, e = raw[2] | raw[3] << 8, raw[4] | raw[5] << 8
    n = len(raw)
    bad = s != 0xffff and e < s
    if bad:
        expect(raw, "rom" if n & (n - 1) == 0 else None, "some")
    return "refused" if bad else "skip"


def c_cart(case):
    t = case["cart"]
    kb, machine, _ = c20.TABLE[t]
    raw = b"CART" + t.to_bytes(4, "big") + bytes(8) + bytes((i * 5 + (i >> 8)) & 0x7f for i in range(1024)) * kb
    (name, mime), p = identify(raw, "some" if kb > 256 else "all")
    if mime != (CART52 if machine == 5 else CART8):
        raise Violation("cartridge type %d recognised as %s %s" % (t, name, mime))
    if not name.endswith(" Cartridge") or p.image.header.cart_type != t:
        raise Violation("cartridge type %d recognised as %s" % (t, name))
    return "cart"


def c_zip(case):
    f = io.BytesIO()
    data = []
    with zipfile.ZipFile(f, "w") as z:
        for i, (name, n) in enumerate(case["zip"]):
            d = pattern("zip%d" % i, n)
            data.append((name, d))
            zi = zipfile.ZipInfo(name, (1990, 1, 1, 0, 0, 0))
            z.writestr(zi, d, zipfile.ZIP_DEFLATED if (case["method"] >> i) & 1 else zipfile.ZIP_STORED)
        if case.get("comment"):
            z.comment = b"a comment"
        if case.get("total"):
            z.comment = b""
            z.close()
            z = zipfile.ZipFile(f, "a")
            z.comment = b"c" * (case["total"] - len(f.getvalue()))
            z.close()
    raw = f.getvalue()
    raw = bytes.fromhex(case.get("front", "")) + raw
    ok = data and all(len(d) % 16 == 0 for _, d in data)
    n = len(raw)
    if n >= 4 and raw[2] | raw[3] << 8 == n - 4:
        return "skip"
    p = expect(raw, "zip" if ok else "rom" if n & (n - 1) == 0 else None, "some" if case["method"] else "all")
    if not ok:
        return "refused"
    got = [(s.name, s.tobytes()) for s in p.segments[1:]]
    if got != data:
        raise Violation("members %s shown as %s" % ([(a, len(b)) for a, b in data], [(a, len(b)) for a, b in got]))
    if p.image.rawdata.data.tobytes() != b"".join(d for _, d in data):
        raise Violation("the ROM set is not its members one after the other")
    off = 0
    for s, (_, d) in zip(p.segments[1:], data):
        if d and (s.get_raw_index(0) != off or s.data_start != off):
            raise Violation("member %s starts at %d instead of %d" % (s.name, s.get_raw_index(0), off))
        off += len(d)
    return "zip"


def c_bin(case):
    n, err, load = case["bin"]
    raw = bytes([load & 255, load >> 8, (n + err) & 255, ((n + err) >> 8) & 255]) + bytes(b & 0x7f for b in pattern("bin", n))
    size = len(raw)
    if err % 65536:
        if size == 143360 or size in (92160, 133120, 183936, 184320):
            return "skip"
        expect(raw, "rom" if size & (size - 1) == 0 else None, "some")
        return "none"
    if size in (92160, 133120, 183936, 184320, 143360):
        return "skip"
    p = expect(raw, "bin", "some")
    if [(s.origin, s.tobytes()) for s in p.segments[1:]] != [(load, raw[4:])]:
        raise Violation("binary shown as %s" % [(hex(s.origin), len(s)) for s in p.segments[1:]])
    return "bin"


def c_dos33(case):
    files = []
    for i in range(case["dos33"]):
        files.append({"slot": i, "name": "FILE%d" % i, "type": "TIAB"[i % 4], "data": pattern("d%d" % i, 40), "ts": [320 + 2 * i], "sectors": [321 + 2 * i]})
    raw = bytearray(D.build(files, None))
    raw[0:4] = bytes(case["start"])
    raw = bytes(raw)
    if raw[0:4] == b"\x01\x38\xb0\x03":
        # ProDOS: recognised but not supported
        expect(raw, None)
        return "prodos"
    p = expect(raw, "dos33", "some")
    if [f.filename for f in p.image.files] != [f["name"] for f in files]:
        raise Violation("lists %s" % [f.filename for f in p.image.files])
    return "dos33"


# ------------------------------------------------------------------ signatures

def sig_image(k):
    """image with the bytes of a known title -> (bytes, kind, mime, signature positions)"""
    if k == "getaway_pd":
        body = bytearray(c09.base("boot")[0])
        sig = {8: 0x82, 9: 0x39, 12: 0x67, 13: 0x21, 14: 0x70, 15: 0x64}
        mime, kind = ATR + ".getaway_pd", "boot"
    elif k == "getaway":
        body = bytearray(A.atr_header(720 * 128, 128) + bytes(0xe5 ^ (x & 0x1f) for x in pattern("away", 720 * 128)))
        body[16 + 32] = 0x99
        sig = dict(zip(range(0x10, 0x19), [0x00, 0xc1, 0x80, 0x0f, 0xcc, 0x22, 0x18, 0x60, 0x0e]))
        body[16 + 9:16 + 12] = b"\xff\xff\xff"
        mime, kind = ATR + ".getaway", "boot"
    elif k in ("jumpman", "jumpman_level_tester"):
        par, off = (0x1680, 0x810) if k == "jumpman" else (0x5d0, 0x196)
        b = bytearray(0xe5 ^ (x & 0x1f) for x in pattern("jump", par * 16))
        b[0:6] = bytes([0, 3, 0, 7, 0x40, 0x15])
        b[9:12] = b"\xff\xff\xff"
        b[32] = 0x99
        body = bytearray(A.atr_header(len(b), 128) + bytes(b))
        sig = dict(zip(range(5), [0x96, 2, par & 255, par >> 8, 0x80]))
        sig.update({off + 0x3f: 0x4c, off + 0x48: 0x20, off + 0x4b: 0x60, off + 0x4c: 0xff})
        mime, kind = ATR + "." + k, "boot"
    else:
        body = bytearray(b"\xff\xff\x80\x2a\xff\x8a" + bytes(pattern("g", 0x8aff - 0x2a80 + 1)))
        sig = dict(zip(range(6), [0xff, 0xff, 0x80, 0x2a, 0xff, 0x8a]))
        mime, kind = XEX + ".getaway", "xex"
    for p, v in sig.items():
        body[p] = v
    return bytes(body), kind, mime, sig


SIGS = ["getaway_pd", "getaway", "jumpman", "jumpman_level_tester", "getaway_xex"]


def c_sig(case):
    raw, kind, mime, sig = sig_image(case["sig"])
    if "cut" in case:
        q = raw[:case["cut"]]
        got = opened(lambda: find_diskimage_from_data(arr(q)))
        got = got and got[1]
        base = mime.rpartition(".")[0]
        detail = guess_detail_for_mime(base, SegmentData(arr(q)), None)
        if mime in (got, detail):
            raise Violation("%s reported although there are only %d bytes" % (mime, len(q)))
        if detail != base:
            raise Violation("%d bytes refined to %s" % (len(q), detail))
        return str((got, detail))
    if "set" not in case:
        expect(raw, kind, "all", mime)
        return mime
    b = bytearray(raw)
    p, v = case["set"]
    if b[p] == v:
        return "skip"
    b[p] = v
    got = opened(lambda: find_diskimage_from_data(arr(bytes(b))))
    got = got and got[1]
    if got == mime:
        raise Violation("%s reported although byte %d is $%02x" % (mime, p, v))
    if p >= 16 and case["sig"] != "getaway_xex" and got != ATR:
        raise Violation("byte %d changed to $%02x: %s" % (p, v, got))
    return str(got)


def c_sha(case):
    """known checksums decide before anything else"""
    from atrcopy import signatures, parsers
    db = getattr(parsers, "sha1_signatures", None)
    if db is None or db is not getattr(signatures, "sha1_signatures", None):
        return "no database"
    n, mime, name = case["sha"]
    raw = bytes((0x21 + i * 7) & 0x3f | 0x20 for i in range(n))
    h = hashlib.sha1(raw).digest()
    had = n in db
    entry = db.setdefault(n, {})
    old = dict(entry)
    try:
        entry[h] = (mime, "title")
        expect(raw, (name, mime), "sha")
        # one byte different: no longer known
        for p in (0, n // 2, n - 1):
            b = bytearray(raw)
            b[p] ^= 1
            (got, m), _ = identify(bytes(b), "some")
            if m == mime:
                raise Violation("data with another checksum reported as %s" % m)
        # same bytes in another length
        for q in (raw[:-1], raw + b"\0"):
            (got, m), _ = identify(q, "some")
            if m == mime:
                raise Violation("data of another length reported as %s" % m)
    finally:
        if had:
            entry.clear()
            entry.update(old)
        else:
            del db[n]
    return "known"


def c_table(case):
    """every listed checksum names a kind of image that can be opened"""
    from atrcopy.parsers import mime_parsers
    from atrcopy.signatures import sha1_signatures as db
    for size, d in db.items():
        for h, (mime, name) in d.items():
            if len(h) != 20 or not mime_parsers.get(mime):
                raise Violation("checksum entry of %s (%d bytes) cannot be used" % (name, size))
    return "table"


RUN = {"geo": c_atari, "sparta": c_sparta, "kboot": c_kboot, "boot": c_boot, "size": c_size, "atrmagic": c_magic, "xex": c_xex, "reversed": c_reversed, "cart": c_cart,
       "zip": c_zip, "bin": c_bin, "dos33": c_dos33, "sig": c_sig, "sha": c_sha, "table": c_table}


def run_case(case):
    for k, f in RUN.items():
        if k in case:
            return f(case)


def fam(res, args):
    for c in args["cases"]:
        res.sample(c)
        res.count("traces")
        res.count("transitions")
        r = res.case(c, run_case, c)
        if r is not None:
            res.outcome(r)
            res.state(str(sorted(c.items())))


FAMILIES = {"formats": fam, "boot": fam, "sizes": fam, "programs": fam, "zip": fam, "signatures": fam}


def plan(tier):
    deep = tier == "thorough"
    out = []
    cs = []
    for g in GEOS:
        for k in range(6):
            for fill in (0, 0xe5, 0xff):
                cs.append({"geo": g, "files": k, "fill": fill})
    for n, ss in ((720, 128), (720, 256), (1040, 128), (1441, 128), (1440, 256), (2880, 256)):
        for version in (0x11, 0x20, 0x21):
            for k, order in enumerate(("up", "down", "odd")):
                if order == "up" and version == 0x20:
                    base = {"sparta": [n, ss], "version": version, "order": order, "sizes": [300, 5]}
                    cs += [dict(base, field=[32, 1, v], sane=v in (0x11, 0x20, 0x21)) for v in range(256)]
                    cs += [dict(base, field=[31, 1, v], sane=False) for v in range(256) if v not in (0, 1, 0x80)]
                    cs += [dict(base, field=[11, 2, v], sane=v == n) for v in (0, 1, n - 256, n - 2, n - 1, n, n + 1, n + 2, n + 256, 720, 1040, 0xffff) if v >= 0]
                    for off in (9, 16, 18):
                        cs += [dict(base, field=[off, 2, v], sane=False) for v in (n + 1, n + 2, n + 256, n + 1000, 0xffff)]
                    cs += [dict(base, field=[18, 2, v], sane=True) for v in (0, 1, 100, n - 1, n)]
                cs.append({"sparta": [n, ss], "version": version, "order": order, "sizes": ([], [0, 1], [300, 8000, 5])[k]})
    cs += [{"cart": t} for t in c20.TABLE if c20.TABLE[t][0] <= 4096]
    out += [("formats", {"cases": c}) for c in chunks(cs, 8)]
    ks = set(range(1, 401)) | {2 ** k + d for k in range(9, 18) for d in (-1, 0, 1)} | {200000, 92160 - 384, 133120 - 384}
    cs = [{"kboot": n, "light": n % 16} for n in sorted(ks)]
    out += [("formats", {"cases": c}) for c in chunks(cs, 30)]
    cs = [{"dos33": k, "start": st} for k in (0, 1, 7, 8) for st in ([1, 0xa5, 0x27, 0xc9], [0, 0, 0, 0], [1, 0x38, 0xb0, 3], [1, 0x38, 0xb0, 2], [1, 0x38, 0xb1, 3], [0, 0x38, 0xb0, 3], [1, 0x39, 0xb0, 3])]
    out += [("formats", {"cases": c}) for c in chunks(cs, 8)]
    cs = []
    loads = (0, 1, 0x600, 0x700, 0x7ff, 0x2000, 0x4000, 0x7f80, 0x8000, 0xa000, 0xbf00, 0xbf80, 0xbf81, 0xc000, 0xffff)
    for lay in ((90, 128), (720, 128)) if not deep else ((90, 128), (720, 128), (1040, 128)):
        for nsec in range(256):
            for load in loads if lay[0] == 90 or deep else loads[3::5]:
                for flag in (0, 1, 255) if load in (0x700, 0x8000) else (0,):
                    cs.append({"boot": [flag, nsec, load, lay]})
    out += [("boot", {"cases": c}) for c in chunks(cs, 100)]
    ss = set(range(1, 20000 if deep else 2101)) | {b + d for b in (92160, 133120, 183936, 184320, 143360) for d in range(-17, 18)}
    ss |= {2 ** k + d for k in range(11, 21) for d in (-1, 0, 1)} | {92176, 133136, 183952, 184336}
    out += [("sizes", {"cases": c}) for c in chunks([{"size": n} for n in sorted(ss)], 60)]
    cs = []
    for n, s2 in ((720, 128), (90, 128)):
        cs += [{"atrmagic": [a, 2, n, s2]} for a in range(256)] + [{"atrmagic": [0x96, b, n, s2]} for b in range(256)] + [{"atrmagic": [2, 0x96, n, s2]}]
    out += [("sizes", {"cases": c}) for c in chunks(cs, 60)]
    cs = []
    base = [[0x2000, 5, 0], [0x3000, 1, 1], [0x2e0, 2, 0], [0x600, 300, 1], [0, 3, 0]]
    for k in range(1, 6):
        cs.append({"xex": base[:k], "full": 1})
        cs.append({"xex": base[::-1][:k], "full": 1})
        n = len(xex_of(base[:k]))
        cs += [{"xex": base[:k], "cut": c} for c in (range(2, n + 1) if n < 60 or deep else list(range(2, 40)) + list(range(n - 20, n + 1)))]
    cs += [{"xex": [[a, n, 0]], "full": 1} for a in (0, 1, 0x2e2, 0x8000, 0xfff0) for n in (1, 2, 15)] + [{"xex": [[0, 65535, 0]]}, {"xex": [[1, 65534, 0]]}]
    for t in [2 ** k for k in range(4, 16)]:
        cs.append({"xex": [[0x1000, t - 6, 0]]})
        cs.append({"xex": [[0x1000, t // 2 - 6, 0], [0x600, t // 2 - 4, 0]]} if t > 16 else {"xex": [[0x1000, t - 6, 0]], "full": 1})
    cs.append({"xex": [[0x100, 60000, 0], [0x100, 60000, 0], [0x100, 143360 - 120014, 0]]})
    for v in range(256):
        cs += [{"xex": base[:2], "set": [[0, v]]}, {"xex": base[:2], "set": [[1, v]]}]
    if deep:
        cs += [{"xex": base[:2], "set": [[0, a], [1, b]]} for a in range(0, 256, 3) for b in range(0, 256, 5)]
    vals = (0, 1, 0x20, 0x7f, 0x80, 0xff)
    cs += [{"reversed": [a, b, c, d], "more": m} for a in vals for b in vals for c in vals for d in vals for m in (0, 2, 40)]
    out += [("programs", {"cases": c}) for c in chunks(cs, 120)]
    cs = []
    for n in sorted(set(range(0, 301)) | {2 ** k + d for k in range(9, 17) for d in (-5, -4, -3, -1, 0, 1)} | {65535}):
        if n > 65535:
            continue
        for err in (-3, -1, 0, 1, 3, 256, -256) if n > 300 or n % 9 == 0 or deep else (0, 1):
            if n + err >= 0:
                cs.append({"bin": [n, err, (0x2000, 0x300, 0, 0xfe00)[n % 4]]})
    out += [("programs", {"cases": c}) for c in chunks(cs, 120)]
    cs = [{"zip": [], "method": 0}]
    nm = ["a.bin", "dir/b.rom", "c", "long name with blanks.1"]
    for n in range(0, 49):
        cs += [{"zip": [[nm[0], n]], "method": m} for m in (0, 1)]
        cs += [{"zip": [[nm[0], 32], [nm[1], n]], "method": m} for m in (0, 3)]
    for sizes in ((16, 32, 48), (48, 16, 16), (0, 16, 16), (16, 16, 1), (4096, 2048, 8192), (16, 16, 16, 16), (0, 0, 0), (65536, 16, 32), (15, 16, 16), (16, 8, 24)):
        for m in (0, 5, 15):
            cs.append({"zip": [[nm[i], n] for i, n in enumerate(sizes)], "method": m})
        cs.append({"zip": [[nm[3 - i], n] for i, n in enumerate(sizes)], "method": 2, "comment": 1})
    cs.append({"zip": [["r%d" % i, 16 * (i % 5)] for i in range(60)], "method": 9})
    # sizes that would be something else
    for t in [2 ** k for k in range(8, 15)]:
        cs += [{"zip": [["a", 48]], "method": 0, "total": t}, {"zip": [["a", 64], ["b", 7]], "method": 0, "total": t}]
    for t in [2 ** k for k in range(15, 18)] + [143360]:
        cs += [{"zip": [["a", t - 320]], "method": 0, "total": t}]
    cs.append({"zip": [["same", 16], ["same", 32]], "method": 0}) if deep else None
    out += [("zip", {"cases": c}) for c in chunks(cs, 30)]
    cs = []
    for k in SIGS:
        raw, kind, mime, sig = sig_image(k)
        cs.append({"sig": k})
        cs += [{"sig": k, "cut": p} for p in sorted(sig_image(k)[3])]
        for p, v in sorted(sig.items()):
            cs += [{"sig": k, "set": [p, w]} for w in (range(256) if deep else (v ^ 1, v ^ 0x80, v ^ 0xff))]
    out += [("signatures", {"cases": c}) for c in chunks(cs, 12)]
    shas = [("application/vnd." + m, t, n) for m, t in (("atari2600.cart", "Atari 2600 Cartridge"), ("atari2600.starpath", "Atari 2600 Starpath Cassette"), ("vectrex", "Vectrex Cartridge"))
            for n in (90, 777, 1000, 2048, 4096, 5000, 8192, 8448, 12288, 33792, 65536)]
    shas += [("application/vnd.atari5200.cart", t, n) for t, n in (("Standard 4 KB 5200 Cartridge", 4096), ("Standard 8 KB 5200 Cartridge", 8192), ("Standard 32 KB 5200 Cartridge", 32768), ("Bounty Bob 40 KB 5200 Cartridge", 40960))]
    cs = [{"sha": [n, m, t]} for m, t, n in shas] + [{"table": 1}]
    out += [("signatures", {"cases": [c]}) for c in cs]
    return out
