"""C07 save / reopen / identify; reading never modifies"""
import os
import shutil
import tempfile

import numpy as np

import atari_ref as A
import fs
import sparta_ref as S
from core import Violation, chunks, pattern, REPO
from fscheck import alphabet, ALL, payload
from readonly import read_everything
from atrcopy import errors, SegmentData, find_diskimage, find_diskimage_from_data, iter_parsers

PROPERTY = "C07"
LEVEL = "model_checking"
TITLE = "saving and reopening a disk image is lossless; reading never modifies it"
RULE = ("after every operation sequence the live image is read in every way, saved to a file in a scratch directory, identified and "
        "opened again; bytes, format, listing and contents are compared with the model; states = distinct saved images")
BOUNDS = {
    "quick": "all sequences of depth 2 over 8 operations on 29 starting disks in 8 layouts; saving under the own name for 12 names x 3 images x 2 ways of opening; unusual values of every bookkeeping byte of the volume table; all template and sample images, SpartaDOS builds, executables and cartridges read and re-saved",
    "thorough": "all sequences of depth 3",
}
ASSUMPTIONS = ["scratch directory on a local file system"]

NAME = {"atari": "Atari DOS Disk Image", "dos33": "DOS 3.3 Disk Image"}
FIX = ["%s-%s" % (g, w) for g in ALL for w in ("blank", "tight", "frag")] + ["SD-foreign", "DOS33-names", "SD-dir2", "DD-dir2", "SD-only:", "DOS33-only:", "SD-full"]


def scratch():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="verif-c07-", dir=base)


def save_and_compare(img, raw, expect_name, model_files, path):
    img.save(path)
    with open(path, "rb") as fh:
        saved = fh.read()
    if saved != raw:
        raise Violation("saved file differs from the image (%d bytes, image has %d)" % (len(saved), len(raw)))
    if fs.snap(img) != raw:
        raise Violation("saving changed the image")
    parser, mime = find_diskimage(path)
    if parser.menu_name != expect_name:
        raise Violation("saved image is identified as %r instead of %r" % (parser.menu_name, expect_name))
    again = parser.image.bytes[:].tobytes()
    if again != raw:
        raise Violation("reopened image differs")
    got = read_everything(parser)
    if [n for n, _ in got] != [d.filename for d in img.files]:
        raise Violation("listing after reopening is %s, was %s" % ([n for n, _ in got][:8], [d.filename for d in img.files][:8]))
    for n, data in got:
        if n in model_files and model_files[n][0] != data:
            raise Violation("%s reads differently after saving and reopening" % n)
    if parser.image.bytes[:].tobytes() != raw:
        raise Violation("reading the reopened image changed it")
    # and once more from the reopened one
    parser.image.save(path)
    with open(path, "rb") as fh:
        if fh.read() != raw:
            raise Violation("saving the reopened image changed it")


def run_ops(fixture, ops):
    fx = fs.fixture(fixture)
    model = fs.initial(fx)
    img = fx.open()
    for op in ops:
        if not model.enabled(op):
            continue
        exp = model.expect(op)
        try:
            fs.do(img, op)
            if exp is None:
                model.apply(op)
        except Exception:
            if exp is None:
                raise
    raw = fs.snap(img)
    for d in img.files:
        str(d)
        if d.num_sectors < 60:
            img.get_file(d)
        d.extra_metadata(img)
    img.dir()
    str(img)
    str(img.get_vtoc_object())
    img.parse_segments()
    if fs.snap(img) != raw:
        raise Violation("reading the live image changed it")
    tmp = scratch()
    try:
        save_and_compare(img, raw, NAME[fx.kind], model.files, os.path.join(tmp, "image.bin"))
    finally:
        shutil.rmtree(tmp)
    return raw


def other_images():
    out = {}
    for d in ("atrcopy/templates", "test_data"):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
            if f.endswith((".atr", ".dsk", ".xex")):
                out["file:%s/%s" % (d, f)] = None
    for g in ("SD", "DD", "ED"):
        for o in ("up", "down"):
            out["sparta:%s:%s" % (g, o)] = None
    for n in (1, 121, 122, 123, 250, 1000, 50000):
        out["kboot:%d" % n] = None
    for n in (1, 2, 100, 5000):
        out["xex:%d" % n] = None
        out["bsave:%d" % n] = None
    return sorted(out)


EXPECT = {"sparta": "Sparta DOS Disk Image", "kboot": "KBoot Disk Image", "xex": "XEX (Atari 8-bit executable)", "bsave": "BIN (Apple ][ executable)"}


def make(name):
    kind, _, arg = name.partition(":")
    if kind == "file":
        with open(os.path.join(REPO, arg), "rb") as fh:
            return fh.read(), None
    if kind == "sparta":
        g, o = arg.split(":")
        geo = S.geo(*{"SD": (720, 128), "DD": (720, 256), "ED": (1040, 128)}[g])
        return S.build(geo, [{"base": b"F%d" % i, "ext": b"DAT", "data": pattern("c07%d" % i, i * 77)} for i in range(9)], o), EXPECT[kind]
    n = int(arg)
    body = bytes(b & 0x7f for b in pattern("x%d" % n, n))
    if kind == "xex":
        end = 0x2000 + n - 1
        return b"\xff\xff\x00\x20" + bytes([end & 255, end >> 8]) + body, EXPECT[kind]
    if kind == "bsave":
        return bytes([0, 0x20, n & 255, n >> 8]) + body, EXPECT[kind]
    if kind == "kboot":
        from atrcopy.kboot import add_xexboot_header
        xex = b"\xff\xff\x00\x20" + bytes([(0x1fff + n) & 255, (0x1fff + n) >> 8]) + body
        body = bytes(add_xexboot_header(np.frombuffer(xex, dtype=np.uint8).copy()))
        return A.atr_header(len(body), 128) + body, EXPECT[kind]
    raise KeyError(name)


def run_other(name):
    raw, expect = make(name)
    data = np.frombuffer(raw, dtype=np.uint8).copy()
    mime, parser = iter_parsers(SegmentData(data))
    if parser is None:
        raise Violation("%s not identified" % name)
    if expect and parser.menu_name != expect:
        raise Violation("%s identified as %r instead of %r" % (name, parser.menu_name, expect))
    got = read_everything(parser)
    if bytes(data) != raw:
        raise Violation("%s: reading changed the bytes" % name)
    parser2, mime2 = find_diskimage_from_data(raw)
    if (parser2.menu_name, mime2) != (parser.menu_name, mime):
        raise Violation("%s: identified as %s and as %s" % (name, (parser.menu_name, mime), (parser2.menu_name, mime2)))
    if read_everything(parser2) != got:
        raise Violation("%s: read differently the second time" % name)
    segs = [(s.name, bytes(s.data)) for s in parser.segments]
    if segs != [(s.name, bytes(s.data)) for s in parser2.segments]:
        raise Violation("%s: parsed into different segments the second time" % name)
    if hasattr(parser.image, "save"):
        tmp = scratch()
        try:
            path = os.path.join(tmp, "x.bin")
            parser.image.save(path)
            with open(path, "rb") as fh:
                if fh.read() != raw:
                    raise Violation("%s: saved file differs" % name)
            parser3, mime3 = find_diskimage(path)
            if (parser3.menu_name, mime3) != (parser.menu_name, mime) or read_everything(parser3) != got:
                raise Violation("%s: saved file is identified or read differently" % name)
        finally:
            shutil.rmtree(tmp)
    return raw


NAMES = ["disk.atr", "DISK.ATR", "Disk.Atr", "disk", "a.b.c", "x.dsk", "dir.d/disk", "dir.d/disk.atr", ".hidden", "two words.atr", "image.bin", "disk.XFD"]


def tree(d):
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            with open(os.path.join(base, f), "rb") as fh:
                out[os.path.relpath(os.path.join(base, f), d)] = fh.read()
    return out


def run_own(fixture, how, name):
    """change an image that was opened from a file and save it without naming
    the file: exactly this file is rewritten, its neighbours are not"""
    fx = fs.fixture(fixture)
    tmp = scratch()
    try:
        os.mkdir(os.path.join(tmp, "dir.d"))
        path = os.path.join(tmp, name)
        want = {}
        for i, n in enumerate(NAMES + ["disk.", "dir"]):
            want[n] = b"decoy %d" % i
        want[name] = fx.raw
        for n in want:
            with open(os.path.join(tmp, n), "wb") as fh:
                fh.write(want[n])
        op = ["add", "NEW.DAT" if fx.kind == "atari" else "NEW", 300, 0]
        if how == "find":
            img = find_diskimage(path)[0].image
        else:
            img = type(fx.open())(SegmentData(np.frombuffer(fx.raw, dtype=np.uint8).copy()), filename=path)
        fs.do(img, op)
        raw = fs.snap(img)
        img.save()
        want[name] = raw
        if tree(tmp) != want:
            got = tree(tmp)
            raise Violation("saving an image opened as %r: files that differ: %s" % (name, sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))))
        # saving elsewhere leaves the original alone
        fs.do(img, ["del", op[1]])
        img.save(os.path.join(tmp, "copy.out"))
        want["copy.out"] = fs.snap(img)
        if tree(tmp) != want:
            raise Violation("saving an image under another name changed other files")
        # a shorter image replaces a longer file completely
        other = fs.fixture("XSD-blank").open()
        other.save(os.path.join(tmp, "copy.out"))
        want["copy.out"] = fs.snap(other)
        if tree(tmp) != want:
            raise Violation("saving over a longer file leaves part of it")
    finally:
        shutil.rmtree(tmp)
    return raw


def run_odd(fixture, sector, byte, value):
    """unusual bookkeeping values: reading must not repair (change) them"""
    fx = fs.fixture(fixture)
    b = bytearray(fx.raw)
    b[fx.sector_range(sector)[0] + byte] = value
    raw = bytes(b)
    data = np.frombuffer(raw, dtype=np.uint8).copy()
    try:
        mime, parser = iter_parsers(SegmentData(data))
        got = read_everything(parser) if parser else None
    except errors.AtrError:
        pass
    if bytes(data) != raw:
        raise Violation("reading %s with byte %d of sector %d = %02x changed the bytes" % (fixture, byte, sector, value))
    return raw


def run_case(case):
    if "own" in case:
        return run_own(case["fixture"], case["how"], case["own"])
    if "odd" in case:
        return run_odd(case["fixture"], *case["odd"])
    if "other" in case:
        return run_other(case["other"])
    return run_ops(case["fixture"], case["ops"])


def fam(res, args):
    for c in args["cases"]:
        res.count("traces")
        res.count("transitions", len(c.get("ops", [0])))
        res.sample(c)
        raw = res.case(c, run_case, c)
        if raw is not None:
            res.state(raw)


FAMILIES = {"histories": fam, "formats": fam, "own": fam, "odd": fam}


def plan(tier):
    depth = 3 if tier == "thorough" else 2
    cases = []
    for n in FIX:
        fx = fs.fixture(n)
        alpha = alphabet(n.split("-")[0])
        cases.append({"fixture": n, "ops": []})
        if n.startswith("X") or n.startswith("DDF"):
            alpha = [alpha[i] for i in (0, 1, 3)]
        if "dir2" in n:
            alpha = [alpha[i] for i in (0, 1, 3)] + [["del", "F03.X"]]
        for d in range(1, depth + 1):
            for ops, _ in fs.sequences(fx, alpha, d):
                cases.append({"fixture": n, "ops": ops})
    out = [("histories", {"cases": c}) for c in chunks(cases, 15)]
    out += [("formats", {"cases": c}) for c in chunks([{"other": n} for n in other_images()], 3)]
    own = [{"fixture": f, "how": h, "own": n} for f in ("SD-tight", "DOS33-tight", "XDD-tight") for h in ("find", "ctor") for n in NAMES]
    out += [("own", {"cases": c}) for c in chunks(own, 12)]
    odd = []
    for f in ("SD-blank", "SD-full", "SD-only:", "DD-full", "ED-tight", "XSD-only:", "DOS33-full", "DOS33-only:", "DOS33-blank"):
        vtoc = 272 if f.startswith("DOS33") else 360
        for b in list(range(10)) + ([0x27, 0x30, 0x31, 0x34, 0x35, 0x36, 0x37] if vtoc == 272 else [100, 127]):
            for v in (0, 1, 2, 3, 7, 0x7f, 0x80, 0xff):
                odd.append({"fixture": f, "odd": [vtoc, b, v]})
    out += [("odd", {"cases": c}) for c in chunks(odd, 40)]
    return out
