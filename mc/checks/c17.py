"""C17 saving and restoring annotations, resizing"""
import itertools

import numpy as np

import segmodel as M
from checks import c16
from core import Violation, chunks, pattern
from atrcopy.segments import DefaultSegment, SegmentData, SegmentedFileSegment

PROPERTY = "C17"
LEVEL = "model_checking"
TITLE = "saved mark and data state can be restored exactly"
RULE = ("for every start state, view and range the marks and comments are saved, every operation (or pair) of the C16 model is executed through any "
        "view, and the saved state is restored; resizes: all sequences of sizes with all child views re-attached; compared with the per-byte model; "
        "states = distinct annotation states / container contents")
BOUNDS = {
    "quick": "3 start states x 9 views x 5 range lists x all 950 operations (pairs: every 19th x every 23rd); container sizes 0..9: all pairs, all sequences of 3 over 4 sizes, 9 child views, writes and marks through every child after each step; sizes around 256, 32768, 65536 and disk sizes; save and restore on a 66,600 byte image (7 views, 5 range lists, 6 operations through 2 views)",
    "thorough": "pairs thinned to every 5th x every 7th; sequences of 4 over 5 sizes",
}
ASSUMPTIONS = ["comment texts are not empty", "children of a container that shrinks cannot be re-attached (refused with an error)"]


def overlay(saved, now, bytes_):
    style = bytearray(now[0])
    com = dict(now[1])
    old = dict(saved[1])
    for b in bytes_:
        style[b] = saved[0][b]
        com.pop(b, None)
        if b in old:
            com[b] = old[b]
    return bytes(style), tuple(sorted(com.items())), now[2]


def fix_op(op):
    return tuple([tuple(x) for x in y] if isinstance(y, list) and y and isinstance(y[0], list) else y for y in op)


def check_big(case):
    """the same at realistic positions in a large image"""
    w = c16.bigworld()
    v = case["big"]
    seg, ref = w.views[v]
    L = len(ref)
    st = (bytes(c16.BIGN), (), ())
    if case["start"] == "full":
        st = (bytes((i * 41 + 7) & 0xf7 for i in range(c16.BIGN)), tuple((i, "c%d" % i) for i in range(0, c16.BIGN, 3)), ())
    ranges = [r for r in ([(0, L)], [(0, 1), (L - 1, L)], [(i, i + 1) for i in range(0, L, max(2, L // 300))], [(L // 2, L)], [(L // 3, L // 3 + 257), (5, 7)])[case["ranges"]] if r[0] < r[1] <= L]
    hit = sorted({ref[i] for a, b in ranges for i in range(a, b)})
    w.put(st)
    saved = seg.get_comment_restore_data(ranges)
    now = st
    for u in (v, 0):
        uo = c16.big_ops(u)
        for k in case["ops"]:
            op = uo[k % len(uo)]
            now = c16.apply_model(now, w.views[u][1], op)
            c16.apply_real(w, w.views[u][0], op)
    seg.restore_comments(saved)
    want = overlay(st, now, hit)
    got = w.get()
    for n, g, x in zip(("marks", "comments", "user data"), got, want):
        if g != x:
            raise Violation("after restoring %d ranges: %s are %s instead of %s" % (len(ranges), n, c16.shorten(g, x), c16.shorten(x, g)))
    return want


def check_restore(case):
    w = c16.world()
    st = c16.decode_state(case["state"])
    v = case["view"]
    seg, ref = w.views[v]
    ranges = [tuple(r) for r in case["ranges"]]
    hit = sorted({ref[i] for a, b in ranges for i in range(a, b)})
    w.put(st)
    saved = seg.get_comment_restore_data(ranges)
    if w.get() != st:
        raise Violation("saving changed the annotations")
    now = st
    for u, op in case["ops"]:
        op = fix_op(op)
        now = c16.apply_model(now, w.views[u][1], op)
        c16.apply_real(w, w.views[u][0], op)
    if w.get() != now:
        raise Violation("operation itself differs from the model")
    seg.restore_comments(saved)
    want = overlay(st, now, hit)
    got = w.get()
    if got != want:
        for n, g, x in zip(("marks", "comments", "user data"), got, want):
            if g != x:
                raise Violation("after restoring %s through view %s: %s are %s instead of %s" % (
                    ranges, c16.VIEWS[v], n, g.hex() if isinstance(g, bytes) else g, x.hex() if isinstance(x, bytes) else x))
    # the saved data can be used again
    if case.get("again"):
        for u, op in case["ops"]:
            op = fix_op(op)
            want = c16.apply_model(want, w.views[u][1], op)
            c16.apply_real(w, w.views[u][0], op)
        seg.restore_comments(saved)
        want = overlay(st, want, hit)
        if w.get() != want:
            raise Violation("restoring a second time gives something else")
    return want


CHILDREN = [[["s", 0, 4]], [["s", 1, 3]], [["s", 2, 2]], [["s", 0, 4], ["s", 1, 4]], [["i", [3, 0, 1]]], [["i", [2]]], [["s", 1, 4], ["i", [2, 0]]], [["i", [3, 2, 1, 0]], ["s", 1, 3]],
            [["i", []]]]


def check_resize(case):
    sizes = case["sizes"]
    n = sizes[0]
    data = bytearray(pattern("resize", n))
    style = bytearray((i * 37 + 1) & 0x7f for i in range(n))
    raw = SegmentData(np.frombuffer(bytes(data), dtype=np.uint8).copy())
    raw.style[:] = np.frombuffer(bytes(style), dtype=np.uint8)
    box = SegmentedFileSegment(raw, 0, 0, 0x2000)
    kids = []
    for p in CHILDREN + ([[["s", n - 5, n - 1]], [["i", [n - 1, 0, n - 2, n // 2]]], [["s", n // 2, n], ["s", 3, n // 3]]] if n > 9 else []):
        ok = True
        ref = list(range(n))
        for stp in p:
            if stp[0] == "s":
                ok = ok and stp[2] <= len(ref)
                ref = ref[stp[1]:stp[2]]
            else:
                ok = ok and all(i < len(ref) for i in stp[1])
                ref = [ref[i] for i in stp[1]] if ok else ref
        if ok:
            s, ref, _ = M.build(p, n, 0x3000, base=box.rawdata)
            kids.append((s, ref))
    com = {}
    if n:
        box.set_comment_at(n - 1, "last")
        com[n - 1] = "last"
    tick = 0
    attached = True

    def lookups(s, ref, size):
        for b in range(size) if size < 1000 else sorted(set(ref) | {i + k for i in (0, ref[0], ref[-1], size - 2) for k in (-1, 0, 1) if i + k >= 0} if len(ref) < 1000 and ref else
                                                         {i + k for i in (0, 255, n, keep, size - 2) for k in (0, 1) if i + k < size}):
            for f in (s.get_index_from_base_index, s.rawdata.get_reverse_index):
                try:
                    j = int(f(b))
                except IndexError:
                    j = None
                if (j is None) != (b not in ref) or (j is not None and ref[j] != b):
                    raise Violation("in a container of %d bytes base index %d is found at %s in %s" % (size, b, j, list(ref)[:9]))
        if s.search_copy != s.tobytes():
            raise Violation("in a container of %d bytes a search looks at other bytes than the segment has" % size)
        if [int(i) for i in s.rawdata.get_indexes_from_base()] != list(ref):
            raise Violation("in a container of %d bytes the segment covers other indexes than %s" % (size, list(ref)[:9]))

    keep = n
    for s, ref in [(box, range(n))] + kids:
        lookups(s, ref, n)
    for size in sizes[1:]:
        old, new = box.resize(size)
        if (old, new) != (len(data), size):
            raise Violation("resize to %d reports %d -> %d" % (size, old, new))
        grown = size >= len(data)
        keep = min(size, len(data))
        data = data[:keep] + bytes(size - keep)
        style = style[:keep] + bytes(size - keep)
        if len(box) != size or box.tobytes() != bytes(data):
            raise Violation("resized to %d: contents are %s instead of %s" % (size, box.tobytes().hex(), bytes(data).hex()))
        if bytes(box.style[:]) != bytes(style):
            raise Violation("resized to %d: marks are %s instead of %s" % (size, bytes(box.style[:]).hex(), bytes(style).hex()))
        if {int(k): t for k, t in box.rawdata.extra.comments.items()} != com:
            raise Violation("resized to %d: comments changed" % size)
        if box.origin != 0x2000:
            raise Violation("resize changed the address")
        lookups(box, range(size), size)
        for s, ref in kids if attached else []:
            before = s.tobytes()
            try:
                s.replace_data(box)
            except Exception as e:
                if grown:
                    raise Violation("segment at %s cannot follow the resize to %d: %r" % (ref, size, e))
                if s.tobytes() != before:
                    raise Violation("refused re-attachment changed the segment")
                continue
            if not grown:
                raise Violation("segment %s re-attached to a smaller container" % ref)
            if s.tobytes() != bytes(data[i] for i in ref) or len(s) != len(ref):
                raise Violation("segment at %s shows %s after the resize to %d" % (ref, s.tobytes().hex(), size))
            if bytes(s.style[:]) != bytes(style[i] for i in ref):
                raise Violation("segment at %s lost its marks" % ref)
            if [int(i) for i in s.rawdata.get_indexes_from_base()] != ref or [s.get_raw_index(i) for i in range(len(ref))] != ref:
                raise Violation("segment moved from %s to %s" % (ref, [int(i) for i in s.rawdata.get_indexes_from_base()]))
            lookups(s, ref, size)
        if not grown:
            attached = False
        # write through everything that is attached
        ws = [(box, list(range(size)))] + (kids if attached else [])
        for s, ref in ws:
            if not ref:
                continue
            tick += 1
            i = tick % len(ref)
            s[i] = 0x80 | tick & 0x7f
            data[ref[i]] = 0x80 | tick & 0x7f
            s.set_style_ranges([(i, i + 1)], match=True)
            style[ref[i]] |= 0x20
            s.set_comment_at(i, "t%d" % tick)
            com[ref[i]] = "t%d" % tick
            for o, oref in ws:
                if o.tobytes() != bytes(data[k] for k in oref) or bytes(o.style[:]) != bytes(style[k] for k in oref):
                    raise Violation("a change made through %s is seen differently through %s" % (ref, oref))
    return bytes(data)


def check_refused(case):
    box, _, base = M.build([], 6)
    for s in (box, M.build([["s", 0, 6]], 6, cls=lambda r, o: SegmentedFileSegment(r, 0, 0, o))[0], M.build([["i", [1, 2]]], 6, cls=lambda r, o: SegmentedFileSegment(r, 0, 0, o))[0]):
        before = s.tobytes()
        try:
            s.resize(8)
        except ValueError:
            if s.tobytes() != before or len(s) != len(before):
                raise Violation("refused resize changed the segment")
            continue
        raise Violation("%s was resized" % s)


def run_case(case):
    if "sizes" in case:
        return check_resize(case)
    if "big" in case:
        return check_big(case)
    if "refused" in case:
        return check_refused(case)
    return check_restore(case)


def fam_restore(res, args):
    w = c16.world()
    v = args["view"]
    for ranges in args["ranges"]:
        for ops in args["ops"]:
            case = {"state": args["state"], "view": v, "ranges": ranges, "ops": [list(c16.OPS[k]) for k in ops], "again": sum(ops) % 5 == 0}
            res.sample(case)
            res.count("traces")
            res.count("transitions", len(ops) + 2)
            st = res.case(case, check_restore, case)
            if st is not None:
                res.state(st)


def fam_resize(res, args):
    for c in args["cases"]:
        res.sample(c)
        res.count("traces")
        res.count("transitions", len(c.get("sizes", [0])))
        r = res.case(c, run_case, c)
        if r is not None:
            res.state(r)


FAMILIES = {"restore": fam_restore, "resize": fam_resize}


def plan(tier):
    deep = tier == "thorough"
    out = []
    nops = len(c16.OPS)
    singles = [[]] + [[k] for k in range(nops)]
    pairs = [[a, b] for a in range(0, nops, 5 if deep else 19) for b in range(a % 3, nops, 7 if deep else 23)]
    for st in (c16.EMPTY, c16.FULL, c16.ALT):
        for v, p in enumerate(c16.VIEWS):
            L = M.length(p, c16.N)
            rs = [[(0, L)], [(1, 2)], [(0, 1), (L - 1, L)], [(1, L)], [(1, 1)]]
            for r in rs if deep else rs[:4] if v < 5 else rs[:2]:
                out.append(("restore", {"state": c16.encode_state(st), "view": v, "ranges": [r], "ops": singles}))
            k = 0
            for c in chunks(pairs, 700):
                k += 1
                if deep or (k + v) % 3 == 0:
                    out.append(("restore", {"state": c16.encode_state(st), "view": v, "ranges": [rs[(k + v) % 4]], "ops": c}))
    cs = [{"refused": 1}]
    cs += [{"sizes": [a, b]} for a in range(10) for b in range(10)]
    pool = (0, 4, 6, 9, 17) if deep else (4, 6, 9, 17)
    cs += [{"sizes": list(t)} for t in itertools.product(pool, repeat=3)] + [{"sizes": list(t)} for t in itertools.product(pool, repeat=4)]
    if deep:
        cs += [{"sizes": list(t)} for t in itertools.product(pool, repeat=5)]
    out += [("resize", {"cases": c}) for c in chunks(cs, 40)]
    cs = [{"sizes": t} for t in ([255, 256, 257], [65535, 65536, 65537], [65000, 70000, 70001, 140000], [92176, 133136], [300, 65536, 65535, 65600], [70000, 300, 70000], [32767, 32768, 32769])]
    out += [("resize", {"cases": [c]}) for c in cs]
    for v in range(len(c16.BIGVIEWS)):
        for st in ("empty", "full"):
            cs = [{"big": v, "start": st, "ranges": r, "ops": list(range(a, 40, 7))} for r in range(5) for a in (range(7) if deep else (r, r + 2))]
            out += [("resize", {"cases": c}) for c in chunks(cs, 5)]
    return out
