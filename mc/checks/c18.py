"""C18 serialization"""
import functools
import itertools
import json

import jsonpickle
import numpy as np

import segmodel as M
from checks import c09, c16
from core import Violation, chunks, pattern
from atrcopy import SegmentData, find_diskimage_from_data
from atrcopy import segments as S

PROPERTY = "C18"
LEVEL = "model_checking"
TITLE = "session state survives serialization"
RULE = ("every segment view / annotation state of the bounded space is serialized to JSON text, restored over a fresh copy of the bytes and compared; "
        "states = distinct serialized states")
BOUNDS = {
    "quick": "base of 6 bytes: all slices and byte orders of <= 3 indexes, nested views, 6 segment classes x attribute values; all 16^3 combinations of comment/user marks on 3 bytes x all 8 comment placements, all C16 single-operation states; every segment of 16 disk images, cartridges and executables through their parser; session data of older versions; attribute values (texts, label maps of 0..1000 entries, sizes), views of a 70,000 byte container, sessions with up to 700 marks and comments",
    "thorough": "orders of <= 4 indexes on 7 bytes; all 16^4 mark combinations",
}
ASSUMPTIONS = ["search matches, selection and differences are transient and not part of a session; user data values are stored separately by applications"]

CLASSES = {
    "DefaultSegment": lambda r, o: S.DefaultSegment(r, o, name="n1", error="bad", verbose_name="long name", memory_map={0x10: "a", 0x2000: "b", 3: "c"}),
    "ObjSegment": lambda r, o: S.ObjSegment(r, 3, 7, o, name="obj"),
    "SegmentedFileSegment": lambda r, o: S.SegmentedFileSegment(r, 1, 2, o, name="seg file"),
    "RawSectorsSegment": lambda r, o: S.RawSectorsSegment(r, 2, 3, len(r), 1, 1, 2, name="sectors"),
    "RawTrackSectorSegment": lambda r, o: S.RawTrackSectorSegment(r, 0, 3, len(r), 0, 0, 2, name="track sectors"),
}


def facts(s):
    """what a user can see of a segment"""
    r = s.rawdata
    L = len(s)
    out = [type(s).__name__, L, s.tobytes().hex(), s.origin, s.name, s.verbose_name, s.error, s.page_size, s.map_width, s.uuid, s.can_resize,
           sorted(s.memory_map.items()), [int(i) for i in r.get_indexes_from_base()] if L else [], str(s), s.verbose_info if L else "",
           [s.label(i) for i in sorted({0, 1, L // 2, L - 1}) if 0 <= i < L], bytes(s.style[:]).hex()]
    for a in ("metadata_start", "data_start", "boot_sector_size", "num_boot_sectors", "first_sector", "num_sectors"):
        if hasattr(s, a):
            out.append((a, getattr(s, a)))
    return out


NAMES = ["class", "length", "bytes", "origin", "name", "verbose name", "error", "page size", "map width", "uuid", "resizable", "memory map", "byte order",
         "text", "description", "labels", "marks"] + ["attribute"] * 6


def compare(got, want, what):
    for n, g, x in zip(NAMES, got, want):
        if g != x:
            raise Violation("%s: %s is %s instead of %s" % (what, n, str(g)[:100], str(x)[:100]))
    if len(got) != len(want):
        raise Violation("%s: attributes missing" % what)


def check_view(case):
    n = case["n"]
    seg, ref, base = M.build(case["path"], n, case["origin"], CLASSES[case["cls"]])
    seg.page_size, seg.map_width = (seg.page_size, 40) if case["cls"].startswith("Raw") else (case.get("page", -1), case.get("width", 40))
    want = facts(seg)
    text = jsonpickle.dumps([seg, seg])
    if facts(seg) != want:
        raise Violation("serializing changed the segment")
    for attempt in (0, 1):
        a, b = jsonpickle.loads(text)
        fresh = SegmentData(base.data.copy())
        a.reconstruct_raw(fresh)
        compare(facts(a), want, "restored segment")
        if a.rawdata.extra is not fresh.extra:
            raise Violation("restored segment does not share the comments of its container")
    # it is a view of the new data
    if len(a):
        a[0] = int(a[0]) ^ 255
        if int(fresh.data[ref[0]]) != int(base.data[ref[0]]) ^ 255:
            raise Violation("writing through the restored segment does not reach the container")
    # again
    text2 = jsonpickle.dumps(a)
    c = jsonpickle.loads(text2)
    c.reconstruct_raw(SegmentData(base.data.copy()))
    compare(facts(c), want, "segment restored twice")
    return text


def check_session(case):
    n = case["n"]
    st = c16.decode_state(case["state"])
    w = c16.World([[]], n)
    w.put(st)
    d = {}
    w.all.serialize_session(d)
    if w.get() != st:
        raise Violation("saving the session changed it")
    d2 = json.loads(json.dumps(d))
    v = c16.World([[]], n)
    v.all.restore_session(d2)
    got = v.get()
    keep = 0x47
    want = bytes(b & keep for b in st[0]), st[1]
    if got[0] != want[0]:
        raise Violation("marks restored as %s instead of %s" % (got[0].hex(), want[0].hex()))
    if got[1] != want[1]:
        raise Violation("comments restored as %s instead of %s" % (got[1], want[1]))
    d3 = {}
    v.all.serialize_session(d3)
    if json.loads(json.dumps(d3)) != d2:
        raise Violation("restored session is saved differently")
    return json.dumps(d2, sort_keys=True)


def check_old(case):
    """data saved by older versions"""
    k = case["old"]
    w = c16.World([[]], 6)
    if k == "display list":
        w.all.set_user_data([(0, 6)], 1, 5)
        w.all.restore_session({"display list ranges": [[1, 3], [4, 5]]})
        st = w.get()
        if [b & 7 for b in st[0]] != [0, 1, 1, 0, 1, 0] or [w.all.get_user_data(i, 1) for i in range(6)] != [5, 0, 0, 5, 0, 5]:
            raise Violation("display list ranges of older sessions: %s" % (st,))
    elif k == "user ranges":
        w.all.restore_session({"user ranges 1": [[[0, 2], 0], [[2, 3], 1], [[4, 6], 2]]})
        if [b & 7 for b in w.get()[0]] != [2, 2, 3, 0, 4, 4]:
            raise Violation("user ranges of older sessions: %s" % w.get()[0].hex())
    elif k == "partial":
        w.all.restore_session({})
        w.all.restore_session({"comments": [[2, "x"]]})
        w.all.restore_session({"comment ranges": [[2, 4]]})
        if w.get() != (bytes([0, 0, 0x40, 0x40, 0, 0]), ((2, "x"),), ()):
            raise Violation("partial session: %s" % (w.get(),))
    else:
        seg, ref, base = M.build([["s", 1, 5]], 6, 0x700)
        state = seg.__getstate__()
        state["start_addr"] = state.pop("origin")
        for a in ("memory_map", "uuid", "can_resize"):
            state.pop(a)
        new = S.DefaultSegment.__new__(S.DefaultSegment)
        new.__setstate__(state)
        new.reconstruct_raw(SegmentData(base.data.copy()))
        if new.origin != 0x700 or new.tobytes() != seg.tobytes() or new.can_resize or new.memory_map != {} or hasattr(new, "start_addr") or not new.uuid:
            raise Violation("segment saved by an older version restored wrong")


@functools.lru_cache(2)
def parsed(name):
    raw = c09.base(name)[0]
    data = np.frombuffer(raw, dtype=np.uint8).copy()
    parser, mime = find_diskimage_from_data(data)
    return raw, parser


def check_parser(case):
    raw, p = parsed(case["image"])
    base = p.segments[0]
    base.set_comment([(3, 5)], "hello")
    base.set_comment_at(len(raw) - 1, "end")
    base.set_style_ranges([(1, 9)], data=True)
    for k, s in enumerate(p.segments[1:]):
        if len(s):
            s.set_comment([(len(s) - 1, len(s))], "last byte of %s" % s.name)
            s.set_comment([(0, 1)], "start of %s" % s.name)
            s.set_style_ranges([(len(s) // 2, len(s))], user=k % 7)
    want = [facts(s) for s in p.segments]
    text = jsonpickle.dumps(p)
    d = {}
    base.serialize_session(d)
    q = jsonpickle.loads(text)
    fresh = SegmentData(np.frombuffer(raw, dtype=np.uint8).copy())
    q.reconstruct_segments(fresh)
    q.segments[0].restore_session(json.loads(json.dumps(d)))
    if type(q) is not type(p) or q.strict != p.strict or len(q.segments) != len(p.segments):
        raise Violation("restored %s with %d segments instead of %s with %d" % (type(q).__name__, len(q.segments), type(p).__name__, len(p.segments)))
    for i, (s, x) in enumerate(zip(q.segments, want)):
        compare(facts(s), x, "segment %d (%s)" % (i, x[4]))
    if type(q.image) is not type(p.image):
        raise Violation("image restored as %s" % type(q.image).__name__)
    if [(f.filename, bytes(q.image.get_file(f))) for f in q.image.files] != [(f.filename, bytes(p.image.get_file(f))) for f in p.image.files]:
        raise Violation("files of the restored image differ")
    for s in q.segments:
        t = p.segments[q.segments.index(s)]
        for i in (0, len(s) // 2, len(s) - 1):
            if len(s) and s.get_comment(i) != t.get_comment(i):
                raise Violation("comment at %d of %s differs" % (i, s))
    if fresh.data.tobytes() != raw:
        raise Violation("restoring changed the bytes")
    return text


TEXTS = ["", "x", " lead and trail ", "two\nlines\ttab", "quote \"'\\ {}[]", "\u00e9\u2014\U0001f600", "null", "1", "long " * 400, "py/object"]
LBASE = 70000
LVIEWS = {
    "all": [], "low": [["s", 0, 40000]], "cross": [["s", 65000, 66000]], "high": [["s", 65536, 70000]], "last": [["s", 69999, 70000]],
    "order": [["i", list(range(69999, -1, -1))]], "order high": [["i", [65535, 65536, 69999, 0, 32768, 32767, 256, 255]]],
    "order in slice": [["s", 100, 69900], ["i", list(range(0, 69800, 7))]], "slice of order": [["i", list(range(0, 70000, 3))], ["s", 22000, 23000]],
}


def check_large(case):
    """attribute values and sizes of real life"""
    n = case["base"]
    path = LVIEWS[case["view"]] if n == LBASE else case["view"]
    seg, ref, base = M.build(path, n, case["origin"], CLASSES[case["cls"]])
    for a, v in case["set"].items():
        setattr(seg, a, dict(map(tuple, v)) if a == "memory_map" else v)
    want = facts(seg)
    text = jsonpickle.dumps(seg)
    t = jsonpickle.loads(text)
    fresh = SegmentData(base.data.copy())
    t.reconstruct_raw(fresh)
    compare(facts(t), want, "restored segment")
    for a, v in case["set"].items():
        v = dict(map(tuple, v)) if a == "memory_map" else v
        if getattr(t, a) != v:
            raise Violation("%s restored as %s instead of %s" % (a, str(getattr(t, a))[:80], str(v)[:80]))
    for k in (0, len(ref) // 2, len(ref) - 1):
        t[k] = int(t[k]) ^ 255
        if int(fresh.data[ref[k]]) == int(base.data[ref[k]]):
            raise Violation("restored segment is not a view of its container")
        t[k] = int(t[k]) ^ 255
    return case["cls"] + str(sorted(case["set"]))


def check_many(case):
    """sessions with many marks and comments, far into the image"""
    n = case["many"]
    at = [i for i in sorted({0, 1, 2, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, n // 2, n - 2, n - 1}
                            | set(range(0, n, case["every"]))) if 0 <= i < n]
    style = bytearray(n)
    com = []
    for k, i in enumerate(at):
        style[i] = (0x40 if k % 2 else 0) | (k // 2) % 8
        for j in range(i, min(n, i + k % 4)):
            style[j] |= (k // 2) % 8
        if k % 3:
            com.append((i, TEXTS[k % len(TEXTS)] or "-"))
    st = (bytes(style), tuple(com), ())
    w = c16.World([[]], n)
    w.put(st)
    d = {}
    w.all.serialize_session(d)
    v = c16.World([[]], n)
    v.all.restore_session(json.loads(json.dumps(d)))
    if v.get() != st:
        a, b = v.get(), st
        bad = [i for i in range(n) if a[0][i] != b[0][i]]
        raise Violation("%d marks differ (first at %s), comments differ: %s" % (len(bad), bad[:3], a[1] != b[1]))
    return "many"


def check_empty(case):
    base = SegmentData(np.arange(6, dtype=np.uint8))
    s = S.EmptySegment(base, "nothing", "why")
    want = (len(s), s.tobytes(), s.name, s.error, str(s), s.verbose_info)
    t = jsonpickle.loads(jsonpickle.dumps(s))
    t.reconstruct_raw(base)
    if (len(t), t.tobytes(), t.name, t.error, str(t), t.verbose_info) != want:
        raise Violation("empty segment restored as %s" % t)


def run_case(case):
    if "image" in case:
        return check_parser(case)
    if "state" in case:
        return check_session(case)
    if "old" in case:
        return check_old(case)
    if "large" in case:
        return check_large(case)
    if "many" in case:
        return check_many(case)
    if "empty" in case:
        return check_empty(case)
    return check_view(case)


def fam(res, args):
    cases = args.get("cases")
    if cases is None:
        n, firsts = args["n"], args["first"]
        vals = [u | c for u in range(8) for c in (0, 0x40)]
        cases = []
        for f in firsts:
            for rest in itertools.product(vals, repeat=n - 1):
                style = bytes([f] + list(rest))
                for c in range(1 << n) if n == 3 else (0, 5, 15):
                    com = tuple((i, "t%d" % i) for i in range(n) if c >> i & 1)
                    cases.append({"n": n, "state": c16.encode_state((style, com, ()))})
    for c in cases:
        res.sample(c)
        res.count("traces")
        res.count("transitions", 2)
        r = res.case(c, run_case, c)
        res.state(r if r is not None and "uuid" not in r and "large" not in c else str(sorted(c.items())))


FAMILIES = {"views": fam, "sessions": fam, "parsers": fam, "old": fam, "large": fam}


def plan(tier):
    deep = tier == "thorough"
    n = 7 if deep else 6
    out = []
    paths = [[]] + [[s] for s in M.slices(n)] + [[i] for i in M.index_lists(n, 4 if deep else 3)]
    for m in (["s", 1, 5], ["s", 2, 6], ["i", [4, 1, 3]], ["i", [5, 4, 3, 2, 1, 0]], ["i", [2, 2, 5]]):
        L = M.length([m], n)
        paths += [[m, i] for i in M.slices(L) + list(M.index_lists(L, 2))]
    cs = []
    for k, p in enumerate(paths):
        for j, cls in enumerate(CLASSES):
            if len(p) < 2 and (k < 60 or (k + j) % 3 == 0 or deep) or (k + j) % 5 == 0:
                cs.append({"n": n, "path": p, "origin": (0, 0x2000, 0xffff, 1)[(k + j) % 4], "cls": cls, "page": (-1, 128)[k % 2], "width": (40, 16)[k % 2]})
    out += [("views", {"cases": c}) for c in chunks(cs, 100)]
    vals = [u | c for u in range(8) for c in (0, 0x40)]
    out += [("sessions", {"n": 3, "first": [v]}) for v in vals]
    if deep:
        out += [("sessions", {"n": 4, "first": [v]}) for v in vals]
    states = set()
    for st in (c16.EMPTY, c16.ALT, c16.FULL):
        for v, op in c16.OPS:
            states.add(c16.apply_model(st, M.build(c16.VIEWS[v], c16.N)[1], op))
    out += [("sessions", {"cases": c}) for c in chunks([{"n": 6, "state": c16.encode_state(s)} for s in sorted(states)], 200)]
    names = ["SD", "DD", "ED", "XSD", "mydos", "dos33", "sparta128", "sparta256", "kboot", "boot", "xex", "bsave", "cart8", "cart32", "rom2", "rom8", "gz-atr"]
    out += [("parsers", {"cases": [{"image": x}]}) for x in names if x != "gz-atr"]
    cs = []
    for cls in CLASSES:
        raw = cls.startswith("Raw")
        sets = [{"name": t} for t in TEXTS] + [{"verbose_name": t} for t in TEXTS + [None]] + [{"error": t} for t in TEXTS + [None]]
        sets += [{"map_width": w} for w in (1, 2, 8, 16, 23, 40, 64, 80, 256)]
        sets += [{"page_size": w} for w in ((128, 256, 512) if raw else (-1, 0, 1, 128, 256, 1024))]
        sets += [{"can_resize": w} for w in (True, False)]
        sets += [{"uuid": "a0-b1"}, {}]
        sets += [{"memory_map": [[a * 3 % 65536, "label %d" % a] for a in range(m)]} for m in (0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 1000)]
        sets += [{"memory_map": [[a, TEXTS[k % len(TEXTS)]] for k, a in enumerate([0, 1, 9, 10, 99, 100, 255, 256, 4095, 0x7fff, 0x8000, 0xffff, 0x10000])]}]
        if raw:
            sets += [{a: v} for a in ("boot_sector_size", "num_boot_sectors", "first_sector", "num_sectors") for v in (1, 3, 128, 256, 720, 65535)]
        elif cls != "DefaultSegment":
            sets += [{a: v} for a in ("metadata_start", "data_start") for v in (0, 1, 255, 256, 65536, 1000000)]
        for k, d in enumerate(sets):
            cs.append({"large": 1, "cls": cls, "base": 40, "view": ([], [["s", 7, 23]], [["i", [9, 4, 30, 4]]])[k % 3], "origin": (0, 1, 0x600, 0xffff, 0x10000, 0x123456)[k % 6], "set": d})
        for k, v in enumerate(LVIEWS):
            cs.append({"large": 1, "cls": cls, "base": LBASE, "view": v, "origin": (0, 0x2000, 0xffff)[k % 3], "set": {}})
    out += [("large", {"cases": c}) for c in chunks(cs, 12)]
    out.append(("large", {"cases": [{"many": m, "every": e} for m, e in ((300, 1), (300, 3), (70000, 997), (70000, 101), (143360, 1009), (1000, 2))]}))
    out.append(("old", {"cases": [{"old": x} for x in ("display list", "user ranges", "partial", "attributes")] + [{"empty": 1}]}))
    return out
