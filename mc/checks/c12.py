"""C12 KBoot images"""
import numpy as np

import exe
from core import FILLS, Violation, chunks, filled, pattern
from atrcopy import SegmentData, errors, find_diskimage_from_data
from atrcopy.ataridos import add_atr_header
from atrcopy.kboot import KBootImage, add_xexboot_header

PROPERTY = "C12"
LEVEL = "model_checking"
TITLE = "a KBoot disk image contains the executable unchanged"
RULE = ("for every executable length / segment list the image is built, checked byte by byte against the format, identified and read again; "
        "states = distinct images")
BOUNDS = {
    "quick": "executables of every length 1..700, all lengths within 3 of multiples of 128 up to 4K and within 3 of 64K, 128K and 130K; all lists of <= 2 segments over 17 pairs x all run addresses",
    "thorough": "every length 1..5000, all segment lists of <= 3",
}
ASSUMPTIONS = []


def check_image(raw, xex, what):
    """raw: ATR image; xex: the executable it must hold"""
    n = len(xex)
    body = 384 + -(-n // 128) * 128
    if len(raw) != 16 + body:
        raise Violation("%s: image of %d bytes for an executable of %d, expected %d" % (what, len(raw), n, 16 + body))
    par = body // 16
    if raw[0:7] != bytes([0x96, 2, par & 255, (par >> 8) & 255, 128, 0, par >> 16]):
        raise Violation("%s: ATR header %s does not describe %d bytes" % (what, raw[0:16].hex(), body))
    if raw[16 + 9:16 + 12] != bytes([n & 255, (n >> 8) & 255, n >> 16]):
        raise Violation("%s: boot code has length %s for %d bytes" % (what, raw[25:28].hex(), n))
    if raw[400:400 + n] != xex:
        raise Violation("%s: executable changed" % what)
    if any(raw[400 + n:]):
        raise Violation("%s: garbage after the executable" % what)
    data = np.frombuffer(raw, dtype=np.uint8).copy()
    parser, mime = find_diskimage_from_data(data)
    if parser.menu_name != "KBoot Disk Image":
        raise Violation("%s: identified as %r" % (what, parser.menu_name))
    img = parser.image
    if len(img.files) != 1:
        raise Violation("%s: %d files" % (what, len(img.files)))
    d = img.files[0]
    got = bytes(img.get_file(d))
    if got != xex:
        raise Violation("%s: read back %d bytes instead of %d" % (what, len(got), n))
    if bytes(img.find_file(d.filename)) != xex:
        raise Violation("%s: find_file differs" % what)
    if ("%d byte" % n) not in str(img):
        raise Violation("%s: described as %s" % (what, img))
    if not any(bytes(s[:]) == xex for s in parser.segments[1:]):
        raise Violation("%s: no segment shows the executable" % what)
    if data.tobytes() != raw:
        raise Violation("%s: reading changed the image" % what)


def check_len(case):
    n = case["len"]
    xex = filled(case.get("fill", ""), "kb%d" % n, n)
    if n > 2:
        xex = b"\xff\xff" + xex[2:]
    arr = np.frombuffer(xex, dtype=np.uint8).copy()
    kw = {}
    if "title" in case:
        kw = {"title": case["title"].encode(), "author": case["author"].encode()}
    if "code" in case:
        kw["bootcode"] = np.frombuffer(pattern("code", case["code"]), dtype=np.uint8).copy()
    body = add_xexboot_header(arr, **kw)
    if arr.tobytes() != xex:
        raise Violation("adding the boot sectors changed the executable")
    body = np.asarray(body)
    raw = bytes(add_atr_header(body))
    check_image(raw, xex, "length %d" % n)
    plain = bytes(np.asarray(add_xexboot_header(arr, title=b"", author=b"")))
    got = bytes(body)
    if "code" in case:
        want = bytearray(pattern("code", case["code"]).ljust(384, b"\0"))
        want[9:12] = bytes([n & 255, (n >> 8) & 255, n >> 16])
        if got[:384] != bytes(want):
            raise Violation("own boot code was changed")
    elif "title" in case:
        want = bytearray(plain[:384])
        for o, t, c in ((268, kw["title"], 0xc0), (308, kw["author"], 0x40)):
            x = o + (20 - len(t)) // 2
            for i, ch in enumerate(t.upper()):
                want[x + i] = (ch - 32) | c
        if got[:384] != bytes(want):
            raise Violation("title or author not where expected, or boot code changed")
    return raw


def check_segs(case):
    spec = [tuple(s) for s in case["segs"]]
    run = case["run"]
    segs = exe.make_segments(spec, case.get("kind", "plain"))
    before = [(s.origin, bytes(s[:])) for s in segs]
    own = any(o == 0x2e0 for o, _ in spec)
    bad = bool(run) and not own and not exe.inside(spec, run)
    try:
        img = KBootImage.create_boot_image(segs, run)
    except errors.InvalidBinaryFile:
        if bad:
            return b"refused"
        raise
    if bad:
        raise Violation("run address $%04x outside of all segments accepted" % run)
    raw = bytes(np.asarray(img.bytes[:]).tobytes())
    n = raw[25] | raw[26] << 8 | raw[27] << 16
    xex = raw[400:400 + n]
    try:
        got = exe.read_xex(xex)
    except ValueError as e:
        raise Violation("malformed executable on the image: %s" % e)
    want = list(before)
    if not own:
        r = run or spec[0][0]
        want.insert(0, (0x2e0, bytes([r & 255, r >> 8])))
    if got != want:
        raise Violation("executable on the image has %s, expected %s" % (
            [("$%04x" % o, len(d), d[:2].hex()) for o, d in got], [("$%04x" % o, len(d), d[:2].hex()) for o, d in want]))
    check_image(raw, xex, "segments")
    return raw


def run_case(case):
    return check_len(case) if "len" in case else check_segs(case)


def fam(res, args):
    for c in args["cases"]:
        res.count("traces")
        res.count("transitions")
        res.sample(c)
        raw = res.case(c, run_case, c)
        if raw is not None:
            res.state(raw)


FAMILIES = {"lengths": fam, "titles": fam, "segments": fam}


def plan(tier):
    deep = tier == "thorough"
    lens = set(range(1, 5000 if deep else 700))
    for k in list(range(0, 33)) + [511, 512, 1023, 1024, 1015, 1016]:
        lens |= set(range(max(1, k * 128 - 3), k * 128 + 4))
    for k in (65536 - 384, 65536, 131072, 133120):
        lens |= set(range(k - 2, k + 3))
    out = [("lengths", {"cases": c}) for c in chunks([{"len": n} for n in sorted(lens)], 40)]
    out += [("lengths", {"cases": c}) for c in chunks([{"len": n, "fill": k} for k in FILLS for n in sorted(lens) if n < 600 and (n % 7 == 0 or n % 128 in (0, 1, 127))], 40)]
    ts = []
    for a in range(0, 21):
        for b in range(0, 21):
            if deep or a in (0, 1, 4, 19, 20) or b in (0, 1, 13, 19, 20):
                ts.append({"len": 300, "title": "ABCDEFGHIJ KLMNOPqrs"[:a], "author": "an atari user 012345"[:b]})
    ts += [{"len": n, "code": c} for n in (1, 127, 128, 300, 70000) for c in (12, 13, 128, 383, 384)]
    out += [("titles", {"cases": c}) for c in chunks(ts, 40)]
    pool = exe.POOL + exe.SPECIAL + (exe.BIG if deep else exe.BIG[:1])
    cs = []
    for spec in exe.lists(pool, 3 if deep else 2):
        rs = exe.runs(spec)
        if len(spec) == 3:
            rs = rs[:1] + rs[2::4]
        for r in rs:
            cs.append({"segs": spec, "run": r})
            if len(spec) == 1:
                cs += [{"segs": spec, "run": r, "kind": "plain:" + k} for k in FILLS]
                cs += [{"segs": spec, "run": r, "kind": k} for k in ("shared", "indexed")]
    out += [("segments", {"cases": c}) for c in chunks(cs, 100)]
    return out
