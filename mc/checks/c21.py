"""C21 reading disks written by other systems"""
import itertools

import numpy as np

import atari_ref as A
import dos33_ref as D
import fs
import sparta_ref as S
from core import FILLS, Violation, chunks, filled, pattern
from atrcopy import SegmentData, SpartaDosDiskImage, AtariDosDiskImage, Dos33DiskImage, iter_parsers

PROPERTY = "C21"
LEVEL = "exploration"
TITLE = "disks written by other systems are listed and read faithfully"
RULE = ("disks are produced by an independent encoder for every file length, layout and directory content listed, then listed and "
        "read by the real code; distinct = distinct disk images")
BOUNDS = {
    "quick": "SpartaDOS 128/256/512 byte sectors: every length 0..3 sectors+1 (step 1 for 128), +-1 around every sector-map boundary up to 3 maps, 3 allocation orders, 3 versions; hard disk partitions of up to 65,535 sectors with files of up to 16385 sectors (4 MB) and sector numbers above 32767; directories of 0..24 entries; all 5^3 combinations of live/locked/subdirectory/deleted/never-used entries in 3 slots; MyDOS: lengths and links above sector 1023 on 5 disk sizes; Atari DOS 2 on 7 layouts: all fills {1, 60, full-1, full} of up to 3 sectors, all orders of up to 4 sectors, all states of 4 slots x 8 contents of deleted entries, full disks; DOS 3.3: all orders of list and up to 3 data sectors, lists up to 4 sectors, stale pairs, all states of 3 slots at 3 positions, 5 catalog chains",
    "thorough": "every length 0..8 sectors, all 5^5 slot combinations, directories up to 150 entries",
}
ASSUMPTIONS = ["files without holes (no zero entries inside a sector map)"]

GEOS = {"SD": (720, 128), "ED": (1040, 128), "DD": (720, 256), "QD": (1440, 256), "S100": (100, 128), "H": (720, 512), "BIG": (3000, 128), "BIGD": (3000, 256)}

# hard disk partitions: sector numbers of 16 bits, files of thousands of sectors, image sizes of 24 bits
HUGE = {"HD128": (65535, 128), "HD256": (65535, 256), "HD512": (33000, 512), "HD256b": (33000, 256)}
GEOS_ALL = dict(GEOS, **HUGE)


def check_disk(raw, want, cls=SpartaDosDiskImage, identify=None, locked=None):
    data = np.frombuffer(raw, dtype=np.uint8).copy()
    img = cls(SegmentData(data))
    names = [d.filename for d in img.files]
    if names != [n for n, _ in want]:
        raise Violation("listing is %s, should be %s" % (names[:10], [n for n, _ in want][:10]))
    for name, content in want:
        if content is None:
            continue
        got = bytes(img.find_file(name))
        if got != content:
            i = next((i for i in range(min(len(got), len(content))) if got[i] != content[i]), min(len(got), len(content)))
            raise Violation("%s reads as %d bytes, should be %d; first difference at %d" % (name, len(got), len(content), i))
    for name, flag in (locked or {}).items():
        if bool(next(d for d in img.files if d.filename == name).locked) != flag:
            raise Violation("%s is listed as %slocked" % (name, "un" if flag else ""))
    str(img)
    img.dir()
    if bytes(data) != raw:
        raise Violation("reading changed the image")
    if identify:
        mime, parser = iter_parsers(SegmentData(data))
        if parser is None or parser.menu_name != identify:
            raise Violation("identified as %s" % (parser and parser.menu_name))
        if [d.filename for d in parser.image.files] != names:
            raise Violation("listing through automatic identification differs")
        if bytes(data) != raw:
            raise Violation("identification changed the image")


def sparta_lengths(case):
    g = S.geo(*GEOS_ALL[case["geo"]])
    d = filled(case.get("content"), "sp%s" % case["n"], case["n"])
    k = pattern("keep", 3 * g.ssize // 2)
    raw = S.build(g, [{"base": b"KEEP", "ext": b"DAT", "data": k}, {"base": b"FILE", "ext": b"X", "data": d, "interleave": case.get("il", False)},
                      {"base": b"LAST", "ext": b"", "data": k[:5]}], case.get("order", "up"), case.get("version", 0x20))
    check_disk(raw, [("KEEP.DAT", k), ("FILE.X", d), ("LAST", k[:5])], identify="Sparta DOS Disk Image" if case.get("id") else None)
    return raw


def sparta_dir(case):
    g = S.geo(*GEOS_ALL[case["geo"]])
    kinds = case["kinds"]
    files = []
    want = []
    for i, k in enumerate(kinds):
        name = b"F%d" % i
        data = pattern("d%d" % i, 1 + 40 * (i % 50) if len(kinds) < 100 else 1 + 3 * i % 100)
        f = {"base": name, "ext": b"E%d" % (i % 100), "data": data}
        if k == "L":
            f["status"] = S.IN_USE | S.LOCKED
        elif k == "D":
            f["status"] = S.DELETED
        elif k == "d":           # deleted file with the name of the first live one
            f.update(status=S.DELETED, base=b"F0", ext=b"E0")
        elif k == "S":
            f.update(status=S.IN_USE | S.SUBDIR, ext=b"", data=S.entry(S.IN_USE | S.SUBDIR, 0, 23, name, b""))
        files.append(f)
        if k in "ULS":
            want.append((name.decode() + ("" if k == "S" else ".E%d" % (i % 100)), None if k == "S" else data))
    raw = S.build(g, files)
    check_disk(raw, want, locked={n: kinds[int(n[1:].split(".")[0])] == "L" for n, d in want if d is not None})
    return raw


def mydos(case):
    """sector links of 16 bits, no file numbers"""
    n, ss = case["size"]
    g = A.Geo("M", n, ss, 3 if ss == 256 else 0)
    img = bytearray(A.blank(g, 0xe5))
    if g.nsec >= 1024:
        p, k = g.pos(1024)
        img[p:p + k] = bytes([0xe5]) * k
    files = []
    want = []
    pool = [s for s in range(4, n + 1) if not 360 <= s <= 368]
    if case["where"] == "high":
        pool = pool[::-1]
    elif case["where"] == "mix":
        pool = [x for ab in zip(pool[:len(pool) // 2], pool[::-1]) for x in ab]
    for i, ln in enumerate(case["lens"]):
        k = max(1, -(-ln // g.payload))
        secs, pool = pool[:k], pool[k:]
        data = filled(case.get("content"), "my%d" % i, ln)
        A.write_chain(img, g, i, data, secs, None, True)
        base, ext = A.name83("MY%d.DAT" % i)
        A.set_entry(img, g, i, case.get("flag", 0x46), k, secs[0], base, ext)
        want.append(("MY%d.DAT" % i, data))
    p, sz = g.pos(360)
    v = bytearray(sz)
    v[0] = 2
    v[1:5] = bytes([n & 255, n >> 8, 100, 0])
    img[p:p + sz] = v
    raw = bytes(img)
    check_disk(raw, want, AtariDosDiskImage)
    return raw


def dos2(case):
    """Atari DOS 2 files with their sectors anywhere and filled to any degree, directory entries in any slot"""
    g = A.GEOS[case["geo"]]
    files = []
    want = []
    for i, (slot, flag, secs, counts) in enumerate(case["files"]):
        full = g.payload
        counts = [full if c == "F" else full - 1 if c == "f" else c for c in counts]
        if flag & 0x80:
            files.append({"slot": slot, "name": "OLD%d" % i, "flag": flag, "start": secs[0]})
            continue
        data = filled(case.get("content"), "o%d" % i, sum(counts))
        name = ("F%d.DAT" % i, "NOEXT%d" % i, "%d" % i)[i % 3]
        files.append({"slot": slot, "name": name, "flag": flag, "sectors": secs, "counts": counts, "data": data, "pad": 0xdd})
        want.append((slot, name, data))
    raw = A.build(g, files, None, 0xe5 if case.get("fill") else 0)
    if case.get("tomb"):
        raw = bytearray(raw)
        for slot, flag, secs, counts in case["files"]:
            if flag & 0x80:
                p = g.slot_pos(slot)
                raw[p + 1:p + 16] = fs.A_TOMBS[case["tomb"]][1:]
        raw = bytes(raw)
    if case.get("gap"):
        # a directory ends at the first entry never used
        raw = bytearray(raw)
        p = g.slot_pos(case["gap"])
        raw[p:p + 16] = bytes(16)
        p += 16
        raw[p:p + 16] = b"\x42\x01\x00\x04\x00HIDDEN  DAT"
        raw = bytes(raw)
    want = [(n, d) for s, n, d in sorted(want)]
    check_disk(raw, want, AtariDosDiskImage, "Atari DOS Disk Image" if case.get("id") else None)
    return raw


def dos33(case):
    """DOS 3.3 files with their sectors and track/sector lists anywhere, unused pairs in the last list left over from earlier use"""
    geo = D.Geo33(case["catalog"]) if case.get("catalog") else D.G33
    files = []
    want = []
    for i, (slot, typ, ts, secs) in enumerate(case["files"]):
        data = filled(case.get("content"), "a%d" % i, 256 * len(secs))
        name = "FILE %d" % i
        if typ == "deleted":
            files.append({"slot": slot, "name": name, "deleted": True})
            continue
        files.append({"slot": slot, "name": name, "type": typ, "ts": ts, "sectors": secs, "data": data, "locked": i % 2})
        want.append((slot, name, data))
    raw = bytearray(D.build(files, None, geo, fill=0xe5 if case.get("fill") else 0))
    if case.get("tomb"):
        for slot, typ, ts, secs in case["files"]:
            if typ == "deleted":
                p = geo.slot_pos(slot)
                raw[p:p + 35] = fs.D_TOMBS[case["tomb"]]
    if case.get("stale"):
        for i, (slot, typ, ts, secs) in enumerate(case["files"]):
            k = len(secs) % 122
            for j in range(k, min(122, k + case["stale"])):
                raw[ts[-1] * 256 + 12 + 2 * j:ts[-1] * 256 + 14 + 2 * j] = bytes([5, j % 16])
    want = [(n, d) for s, n, d in sorted(want)]
    check_disk(bytes(raw), want, Dos33DiskImage, "DOS 3.3 Disk Image" if case.get("id") else None)
    return bytes(raw)


KINDS = {"lengths": sparta_lengths, "dir": sparta_dir, "mydos": mydos, "dos2": dos2, "dos33": dos33}


def run_case(case):
    return KINDS[case["kind"]](case)


def fam(res, args):
    for c in args["cases"]:
        res.sample(c)
        raw = res.case(c, run_case, c)
        if raw:
            res.state(raw)
            res.outcome(c["kind"])


FAMILIES = {"lengths": fam, "dir": fam, "mydos": fam, "dos2": fam, "dos33": fam}


def plan(tier):
    deep = tier == "thorough"
    L = []
    for g, (n, ss) in GEOS.items():
        per = (ss - 4) // 2
        top = (8 if deep else 3) * ss + 2
        step = 1 if deep or ss == 128 and g in ("SD", "ED") else 7
        lens = set(range(0, top, step)) | {k * ss + d for k in (1, 2, 3) for d in (-1, 0, 1)}
        for m in (1, 2, 3):
            for k in (m * per - 1, m * per, m * per + 1):
                if k + 20 < n:
                    lens |= {k * ss - 1, k * ss, k * ss + 1}
        for ln in sorted(lens):
            L.append({"kind": "lengths", "geo": g, "n": ln, "id": ln % 5 == 0})
        for ln in (0, 1, ss, 2 * ss + 1, min((per + 1) * ss, (n - 30) * ss // 2)):
            for order in ("down", "odd"):
                for v in (0x11, 0x20, 0x21):
                    L.append({"kind": "lengths", "geo": g, "n": ln, "order": order, "version": v, "il": order == "odd" and ln < n * ss // 3, "id": True})
    HD = []
    for g, (n, ss) in HUGE.items():
        room = n - 4 * (n // ((ss - 4) // 2) // 4 + 1) - 300
        for k in (1, 255, 256, 257, 1023, 1024, 1025, 2049, 4097, 8193, 16385, 32769, room):
            if k > room or not deep and (k not in (1, 257, 1025, 2049, 4097, 16385) or k > 5000 and g != "HD256b"):
                continue
            for order in ("up", "down") if k < 8193 else ("up",):
                HD.append({"kind": "lengths", "geo": g, "n": min(k * ss - 3, 0xffffff), "order": order, "id": k == 1})
    DIR = []
    for g in ("SD", "DD", "H"):
        for n in list(range(0, 25)) + ([30, 60, 100, 120] if deep else [40]):
            DIR.append({"kind": "dir", "geo": g, "kinds": "U" * n})
        if g != "H":
            DIR.append({"kind": "dir", "geo": {"SD": "BIG", "DD": "BIGD"}[g], "kinds": "U" * 200})
            DIR.append({"kind": "dir", "geo": {"SD": "BIG", "DD": "BIGD"}[g], "kinds": ("ULDSd" * 80)[:360]})
        for n in (23, 30):
            DIR.append({"kind": "dir", "geo": g, "kinds": ("ULDSd" * 10)[:n]})
    for combo in itertools.product("ULDSd", repeat=5 if deep else 3):
        DIR.append({"kind": "dir", "geo": "SD", "kinds": "U" + "".join(combo)})
        DIR.append({"kind": "dir", "geo": "DD", "kinds": "".join(combo)})
    M = []
    for size in ((720, 128), (720, 256), (1200, 128), (2000, 128), (2000, 256)):
        p = size[1] - 3
        for where in ("low", "high", "mix"):
            for ln in list(range(0, 2 * p + 2, 1 if deep else 11)) + [k * p + d for k in (1, 2, 3, 10, 50) for d in (-1, 0, 1)]:
                M.append({"kind": "mydos", "size": list(size), "where": where, "lens": [ln, 3 * p, 1]})
    T = []
    for g in A.GEOS:
        top = min(A.GEOS[g].nsec, 719)
        spots = (4, 359, 369, top)
        # every fill of up to 3 (4) sectors in every order
        for k in range(1, 5 if deep else 4):
            for counts in itertools.product((1, 60, "f", "F"), repeat=k - 1):
                for last in (0, 1, "f", "F"):
                    if k == 1 or deep or g in ("SD", "DD") or last == 1:
                        T.append({"kind": "dos2", "geo": g, "files": [[0, 0x42, [100], [9]], [1, 0x42, list(spots[:k]), list(counts) + [last]], [2, 0x42, [101], ["F"]]], "id": k == 2})
        for k in (2, 3, 4):
            for secs in itertools.permutations(spots, k):
                T.append({"kind": "dos2", "geo": g, "files": [[0, 0x62, list(secs), ["F"] * (k - 1) + [7]], [1, 0x42, [200, 150, 201], ["F", 3, "f"]]], "fill": k == 3})
        # every way to use 4 slots: in use, locked, deleted
        for flags in itertools.product((0x42, 0x62, 0x80), repeat=4):
            T.append({"kind": "dos2", "geo": g, "files": [[i, f, [10 + i, 20 + i], ["F", 5 + i]] for i, f in enumerate(flags)], "gap": 4})
            if 0x80 in flags:
                for tomb in sorted(fs.A_TOMBS):
                    T.append({"kind": "dos2", "geo": g, "files": [[i, f, [10 + i, 20 + i], ["F", 5 + i]] for i, f in enumerate(flags)], "tomb": tomb, "id": flags[0] == 0x80})
        T.append({"kind": "dos2", "geo": g, "files": [[i, 0x42, [10 + i], [i + 1]] for i in range(64)], "id": 1})
        T.append({"kind": "dos2", "geo": g, "files": [[i, (0x42, 0x80)[i % 2], [10 + i], [i + 1]] for i in range(64)], "id": 1})
        free = [s for s in range(4, top + 1) if not 360 <= s <= 368]
        T.append({"kind": "dos2", "geo": g, "files": [[0, 0x42, free, ["F"] * (len(free) - 1) + [1]]]})
        T.append({"kind": "dos2", "geo": g, "files": [[0, 0x42, free[::-1], [1 + i % 100 for i in range(len(free))]]]})
    AP = []
    spots = (48, 271, 288, 559)
    for k in (1, 2, 3):
        for perm in itertools.permutations(spots, k + 1):
            for stale in (0, 1, 50) if k < 3 else (0, 3):
                AP.append({"kind": "dos33", "files": [[0, "TIAB"[k], [perm[0]], list(perm[1:])], [1, "B", [100], [101]]], "stale": stale, "id": k == 1, "fill": k == 2})
    for n in (120, 121, 122, 123, 124, 243, 244, 245, 246, 365, 366, 367):
        nts = max(1, -(-n // 122))
        pool = [s for s in range(48, 560) if not 272 <= s < 288]
        for order in range(3):
            q = (pool, pool[::-1], pool[::2] + pool[1::2])[order]
            for stale in (0, 2, 200) if n % 122 else (0,):
                AP.append({"kind": "dos33", "files": [[0, "B", q[n:n + nts], q[:n]], [1, "T", [q[n + nts + 1]], [q[n + nts]]]], "stale": stale if stale < 200 else 122})
                AP.append({"kind": "dos33", "files": [[0, "B", q[n + nts:n:-1], q[:n][::-1]]], "stale": stale if stale < 200 else 122})
    for kinds in itertools.product(("B", "T", "deleted"), repeat=4 if deep else 3):
        for first in (0, 6, 40):
            AP.append({"kind": "dos33", "files": [[first + i, k, [300 + 2 * i], [301 + 2 * i]] for i, k in enumerate(kinds)]} if first == 0 else
                      {"kind": "dos33", "files": [[i, "deleted", [500], [501]] for i in range(first)] + [[first + i, k, [300 + 2 * i], [301 + 2 * i]] for i, k in enumerate(kinds)]})
    for kinds in itertools.product(("B", "deleted"), repeat=4):
        for tomb in sorted(fs.D_TOMBS) if "deleted" in kinds else ():
            AP.append({"kind": "dos33", "files": [[i, k, [300 + 2 * i], [301 + 2 * i]] for i, k in enumerate(kinds)], "tomb": tomb, "id": kinds[0] == "deleted"})
    for n in (7, 8, 14, 60, 104, 105):
        AP.append({"kind": "dos33", "files": [[i, "TIAB"[i % 4], [300 + 2 * i], [301 + 2 * i]] for i in range(n)], "id": 1})
    for cat in ([287, 286], [274, 280, 276], [288, 559, 48], [273]):
        n = 7 * len(cat)
        AP.append({"kind": "dos33", "catalog": cat, "files": [[i, "B", [300 + 2 * i], [301 + 2 * i]] for i in range(n)]})
    for f in FILLS:
        for g, (n, ss) in GEOS.items():
            for ln in (1, 2, ss - 1, ss, ss + 1, 3 * ss):
                L.append({"kind": "lengths", "geo": g, "n": ln, "content": f})
        for size in ((720, 128), (720, 256), (2000, 128)):
            M.append({"kind": "mydos", "size": list(size), "where": "mix", "lens": [1, 2 * size[1], 300, size[1] - 3], "content": f})
        for g in A.GEOS:
            T.append({"kind": "dos2", "geo": g, "files": [[0, 0x42, [100], [9]], [1, 0x42, [200, 50, 300], ["F", 7, "F"]], [2, 0x62, [101], ["F"]]], "content": f, "id": 1})
        AP.append({"kind": "dos33", "files": [[0, "B", [300], [301, 302]], [1, "T", [303], [304]], [2, "A", [305], [306, 307, 308]], [3, "I", [309], [310]]], "content": f, "id": 1})
    out = [("dos2", {"cases": c}) for c in chunks(T, 40)]
    out += [("dos33", {"cases": c}) for c in chunks(AP, 40)]
    out += [("lengths", {"cases": c}) for c in chunks(L, 40)]
    out += [("lengths", {"cases": [c]}) for c in HD]
    out += [("dir", {"cases": c}) for c in chunks(DIR, 20)]
    out += [("mydos", {"cases": c}) for c in chunks(M, 40)]
    return out
