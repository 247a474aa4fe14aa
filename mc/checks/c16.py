"""C16 comments, marks and user data"""
import itertools

import numpy as np

import segmodel as M
from core import Violation, chunks
from atrcopy.segments import DefaultSegment, SegmentData

PROPERTY = "C16"
LEVEL = "model_checking"
TITLE = "comments, marks and user data follow a simple per-byte model"
RULE = ("explicit-state search: from every reached state (marks of each byte, comments, user data) every operation through every view is run on "
        "the real classes and compared with the per-byte model; in every new state all queries through all views are compared; "
        "states = distinct annotation states")
BOUNDS = {
    "quick": "base of 6 bytes, 9 views (slices, orders, nested, repeated bytes); all operation sequences of depth <= 2 over 950 operations from 3 start states (empty, everything set, alternating), operations before the last one thinned to every 11th; queries in every 23rd new state; searches on all 2^6 mark patterns x 8 comment patterns, style sections on all 2^6 x 2^6; all rectangles in 7 shapes through 4 views, and the ranges they span; 66,600 byte image with 7 views: 60 operations at positions around powers of two and on 300 ranges, in sequences of 6",
    "thorough": "all depth-2 sequences without thinning, queries in every new state, depth 3 with thinning",
}
ASSUMPTIONS = ["comment texts are not empty", "the data mark is stored as user style 1, user styles combine by or; clearing user styles clears all of them (as in the code's style table)"]

N = 6
VIEWS = [[], [["s", 0, 6]], [["s", 1, 5]], [["s", 1, 5], ["s", 1, 3]], [["i", [4, 1, 3]]], [["i", [5, 4, 3, 2, 1, 0]]], [["s", 2, 6], ["i", [3, 0, 1]]],
         [["i", [0, 2, 4, 5]], ["s", 1, 4]], [["i", [2, 2, 5]]]]
BITS = {"match": 0x20, "comment": 0x40, "selected": 0x80, "diff": 0x10, "data": 1, "user2": 2, "user5": 5, "user4": 4}
MASKS = {"match": 0xdf, "comment": 0xbf, "selected": 0x7f, "diff": 0xef, "user2": 0xf8, "user5": 0xf8, "user4": 0xf8}


COMBOS = ["match+comment", "selected+user2", "diff+match+selected", "data+user4", "comment+user5"]
for _k in COMBOS:
    BITS[_k] = MASKS[_k] = 0
    for _p in _k.split("+"):
        BITS[_k] |= BITS[_p]
        MASKS[_k] |= 0xff ^ MASKS.get(_p, 0xff)
    MASKS[_k] ^= 0xff
    if "data" in _k:
        MASKS.pop(_k)


def kw(kind):
    d = {}
    for k in kind.split("+"):
        d.update({"user": int(k[4:])} if k.startswith("user") else {k: True})
    return d


class World:
    """the real objects"""
    def __init__(self, views=VIEWS, n=N):
        self.n = n
        self.base = SegmentData(np.zeros(n, dtype=np.uint8))
        self.views = []
        for p in views:
            s, ref, _ = M.build(p, n, 0x100, base=self.base)
            self.views.append((s, ref))
        self.all = DefaultSegment(self.base, 0)

    def put(self, st):
        style, comments, user = st
        self.base.style[:] = np.frombuffer(style, dtype=np.uint8)
        e = self.base.extra
        e.comments.clear()
        e.comments.update(comments)
        for k in e.user_data:
            e.user_data[k].clear()
        for (k, i), v in user:
            e.user_data[k][i] = v

    def get(self):
        e = self.base.extra
        return (self.base.style.tobytes(), tuple(sorted((int(k), v) for k, v in e.comments.items())),
                tuple(sorted(((k, int(i)), v) for k, d in e.user_data.items() for i, v in d.items())))


EMPTY = (bytes(N), (), ())
FULL = (b"\xf7" * N, tuple((i, "c%d" % i) for i in range(N)), tuple(sorted(((k, i), k + i) for k in (1, 2) for i in range(N))))
ALT = (bytes([0x41, 0x20, 0x42, 0x80, 0x00, 0x63]), ((0, "zero"), (2, "two"), (5, "five")), (((1, 1), 9), ((1, 2), 9), ((2, 3), 4)))


# ------------------------------------------------------------------ operations: model and real

def apply_model(st, ref, op):
    style = bytearray(st[0])
    com = dict(st[1])
    usr = dict(st[2])
    name = op[0]
    L = len(ref)

    def spread(ranges):
        for a, b in ranges:
            if b < a:
                a, b = b, a
            for i in range(a, min(b, L)):
                yield ref[i]
    if name == "set":
        for b in spread(op[1]):
            style[b] |= BITS[op[2]]
    elif name == "clear":
        for b in spread(op[1]):
            style[b] &= MASKS[op[2]]
    elif name == "clearall":
        for b in ref:
            style[b] &= MASKS[op[1]]
    elif name == "at":
        for i in op[1]:
            style[ref[i]] |= BITS[op[2]]
    elif name == "comment":
        for b in spread(op[1]):
            style[b] |= 0x40
        for a, _ in op[1]:
            com[ref[a]] = op[2]
    elif name == "commentat":
        com[ref[op[1]]] = op[2]
    elif name == "uncomment":
        for b in spread(op[1]):
            style[b] &= 0xbf
            com.pop(b, None)
    elif name == "remove":
        for i in op[1]:
            com.pop(ref[i], None)
    elif name == "user":
        for b in spread(op[1]):
            usr[(op[2], b)] = op[3]
    elif name == "fixup":
        for b in range(len(style)):
            style[b] = style[b] & 0xbf | (0x40 if b in com else 0)
    elif name == "comments":
        for i, t in zip(op[1], op[2]):
            if t:
                com[ref[i]] = t
            else:
                com.pop(ref[i], None)
    elif name == "diff":
        for b in ref:
            style[b] &= 0xef
        for i, b in enumerate(ref):
            if i in op[1]:
                style[b] |= 0x10
    elif name == "copy":
        for i, b in enumerate(ref):
            if i < op[1]:
                com[ref[i + op[2]]] = "s%d" % i
    else:
        raise ValueError(name)
    return bytes(style), tuple(sorted(com.items())), tuple(sorted(usr.items()))


def apply_real(w, seg, op):
    name = op[0]
    if name == "set":
        seg.set_style_ranges(op[1], **kw(op[2]))
    elif name == "clear":
        seg.clear_style_ranges(op[1], **kw(op[2]))
    elif name == "clearall":
        seg.clear_style_bits(**kw(op[1]))
    elif name == "at":
        seg.set_style_at_indexes(op[1], **kw(op[2]))
    elif name == "comment":
        seg.set_comment(op[1], op[2])
    elif name == "commentat":
        seg.set_comment_at(op[1], op[2])
    elif name == "uncomment":
        seg.clear_comment(op[1])
    elif name == "remove":
        if len(op[1]) == 1:
            seg.remove_comment(op[1][0])
        else:
            seg.remove_comments_at_indexes(op[1])
    elif name == "user":
        seg.set_user_data(op[1], op[2], op[3])
    elif name == "fixup":
        seg.fixup_comments()
    elif name == "comments":
        seg.set_comments_at_indexes([], op[1], op[2])
    elif name == "diff":
        d = np.zeros(len(seg), dtype=np.uint8)
        for i in op[1]:
            d[i] = 1
        seg.compare_segment(DefaultSegment(SegmentData(d), 0))
    elif name == "copy":
        src = DefaultSegment(SegmentData(np.zeros(op[1], dtype=np.uint8)), 0)
        for i in range(op[1]):
            src.set_comment_at(i, "s%d" % i)
        seg.copy_user_data(src, op[2])


def operations():
    out = []
    for v, p in enumerate(VIEWS):
        L = M.length(p, N)
        rs = [[(0, L)], [(1, 2)], [(0, 1), (L - 1, L)], [(2, 1)], [(L - 1, L)], [(1, 1)], [(0, L), (0, 1)]]
        for r in rs[:4]:
            out += [(v, ("set", r, k)) for k in BITS if "+" not in k]
            out += [(v, ("clear", r, k)) for k in MASKS if k != "user4" and "+" not in k]
        for k in MASKS:
            if "+" not in k or v % 2:
                out.append((v, ("clearall", k)))
        out += [(v, ("set", rs[i % 4], k)) for i, k in enumerate(COMBOS)] + [(v, ("clear", rs[i % 4], k)) for i, k in enumerate(COMBOS) if k in MASKS]
        out += [(v, ("at", ix, k)) for ix in ([0], [L - 1, 0]) for k in ("match", "selected", "comment", "user2")]
        for r in (rs[0], rs[1], rs[2], rs[4], rs[6]):
            out += [(v, ("comment", r, "n%d" % v)), (v, ("uncomment", r)), (v, ("user", r, 1 + v % 3, 10 + v))]
        out += [(v, ("uncomment", rs[5])), (v, ("user", rs[1], 6, 1))]
        out += [(v, ("commentat", i, "a%d" % v)) for i in range(L)]
        out += [(v, ("remove", [i])) for i in range(L)] + [(v, ("remove", [0, L - 1]))]
        out.append((v, ("comments", [0, L - 1], ["x", ""])))
        out.append((v, ("comments", [L - 1, 0], ["y", "z"])))
        out.append((v, ("copy", 2, L - 2 if L > 2 else 0)))
        out.append((v, ("copy", 1, 0)))
        if len(set(range(L))) == len(set(M.build(p, N)[1])):
            out += [(v, ("diff", d)) for d in ([], [0], [0, L - 1], [1], list(range(L)))]
    out.append((0, ("fixup",)))
    return out


OPS = operations()


def shorten(g, x):
    if isinstance(g, bytes):
        bad = [i for i in range(min(len(g), len(x))) if g[i] != x[i]]
        return g.hex() if len(g) < 50 else "%s at %s" % ([g[i] for i in bad[:5]], bad[:5])
    return str([e for e in g if e not in x][:5])


def check_step(w, st, v, op):
    seg, ref = w.views[v]
    w.put(st)
    want = apply_model(st, ref, op)
    apply_real(w, seg, op)
    got = w.get()
    if got != want:
        for n, (g, x) in zip(("marks", "comments", "user data"), zip(got, want)):
            if g != x:
                raise Violation("%s through view %s: %s are %s instead of %s" % (op[0], ("view", v), n, shorten(g, x), shorten(x, g)))
    if any(w.base.data.tobytes()):
        raise Violation("%s changed data" % op[0])
    return want


# ------------------------------------------------------------------ queries

def check_queries(w, st, full=True):
    """full: True after operations, False: positions of marks (find_next/previous everywhere), "sections": only style sections"""
    w.put(st)
    style, com, usr = st[0], dict(st[1]), dict(st[2])
    for vi, (seg, ref) in enumerate(w.views):
        L = len(ref)
        mine = [style[b] for b in ref]
        if full == "sections":
            if vi in (0, 4, 7):
                check_sections(seg, ref, mine, com, L)
            continue
        if bytes(seg.style[:]) != bytes(mine):
            raise Violation("marks seen are %s instead of %s" % (bytes(seg.style[:]).hex(), bytes(mine).hex()))
        for kind in ("match", "comment", "selected", "data", "user5") if full else ("match", "comment"):
            flags = [(m & BITS[kind]) == BITS[kind] for m in mine]
            want = M.runs(flags)
            got = seg.get_style_ranges(**kw(kind))
            if [tuple(int(x) for x in r) for r in got] != want:
                raise Violation("ranges of %s are %s instead of %s" % (kind, got, want))
            starts = [a for a, _ in want]
            if full == "big":
                where = (-1, 0, 1, 255, 256, 32767, 32768, 65535, 65536, L - 1, L)
            else:
                where = range(-1, L + 1) if not full else (1,) if kind == "comment" else ()
            for i in where:
                nx = seg.find_next(i, **kw(kind))
                pv = seg.find_previous(i, **kw(kind))
                wn = min([a for a in starts if a > i] or starts) if starts else None
                wp = max([a for a in starts if a < i] or starts) if starts else None
                if nx != wn or pv != wp:
                    raise Violation("next/previous %s from %d: %s/%s instead of %s/%s (ranges %s)" % (kind, i, nx, pv, wn, wp, want))
        for i, b in enumerate(ref):
            if seg.get_comment(i) != com.get(b, ""):
                raise Violation("comment at %d is %r" % (i, seg.get_comment(i)))
            if full:
                for k in (1, 2, 3, 6):
                    if seg.get_user_data(i, k) != usr.get((k, b), 0):
                        raise Violation("user data %d at %d is %r instead of %r" % (k, i, seg.get_user_data(i, k), usr.get((k, b), 0)))
        # with a byte shown several times any of its positions may be reported
        uniq = len(set(ref)) == L
        shown = {b for b in ref if b in com}
        it = list(seg.iter_comments_in_segment())
        if sorted(ref[int(i)] for i, _ in it) != sorted(shown) or any(com[ref[int(i)]] != t for i, t in it):
            raise Violation("comments listed: %s instead of those at %s" % (it, sorted(shown)))
        for a, b in ((0, L), (1, L), (0, L - 1), (1, 2)):
            got = seg.get_comments_in_range(a, b)
            if uniq:
                want = {i: com[ref[i]] for i in range(a, min(b, L)) if ref[i] in com}
                if {int(i): t for i, t in got.items()} != want:
                    raise Violation("comments in [%d,%d): %s instead of %s" % (a, b, got, want))
            if a < L and b > a and seg.get_first_comment([(a, b)]) != com.get(ref[a], ""):
                raise Violation("first comment of [%d,%d) is %r" % (a, b, seg.get_first_comment([(a, b)])))
        if L > 2 and seg.get_first_comment([(2, 3), (1, 2)]) != com.get(ref[1], ""):
            raise Violation("first comment of several ranges is wrong")
        ix = np.asarray([L - 1, 0] if L > 1 else [0])
        if [int(x) for x in seg.get_style_at_indexes(ix)] != [mine[i] for i in ix]:
            raise Violation("marks at indexes differ")
        pos, cs = seg.get_comments_at_indexes(ix)
        wp = [k for k, i in enumerate(ix) if mine[i] & 0x40]
        if [int(p) for p in pos] != wp or cs != [com.get(ref[ix[k]]) for k in wp]:
            raise Violation("comments at indexes %s: %s %s" % (list(ix), list(pos), cs))
        if full:
            check_sections(seg, ref, mine, com, L, vi % 4)
    got = w.all.get_sorted_comments()
    if [list(x) for x in got] != [[k, v] for k, v in sorted(com.items())]:
        raise Violation("sorted comments are %s" % got)
    if full:
        for k in range(1, 7):
            want = []
            for i in range(w.n):
                if (k, i) in usr:
                    if want and want[-1][0][1] == i and want[-1][1] == usr[(k, i)]:
                        want[-1][0][1] = i + 1
                    else:
                        want.append([[i, i + 1], usr[(k, i)]])
            got = w.all.get_sorted_user_data(k)
            if [[list(r), v] for r, v in got] != want:
                raise Violation("user data ranges %d are %s instead of %s" % (k, got, want))
    if w.get() != st:
        raise Violation("queries changed the annotations")


def check_sections(seg, ref, mine, com, L, only=None):
    for k, (kws, split) in enumerate((({"user": 7}, None), ({"user": 7}, [1]), ({"user": 7}, [0, 1, 2, 3]), ({"match": True, "user": 7}, [0x20, 0x21, 1]))):
        if only is not None and k != only:
            continue
        bits = (7 if "user" in kws else 0) | (0x20 if "match" in kws else 0)
        masked = [m & bits for m in mine]
        tagged = [m | (0x40 if ref[i] in com else 0) for i, m in enumerate(masked)]
        want = []
        for i in range(L):
            new = i == 0 or masked[i] != masked[i - 1] or (split and tagged[i] & 0x40 and tagged[i] != tagged[i - 1] and masked[i] in split)
            if new:
                want.append(((i, i + 1), masked[i]))
            else:
                want[-1] = ((want[-1][0][0], i + 1), masked[i])
        got = [((int(a), int(b)), int(s)) for (a, b), s in seg.get_entire_style_ranges(split, **kws)]
        if got != want:
            raise Violation("style sections %s split %s: %s instead of %s" % (kws, split, got, want))


# ------------------------------------------------------------------ rectangles

def rect_bytes(n, width, s, e):
    # the end is a cursor position after its byte when moving forward
    fwd = e // width > s // width or (e // width == s // width and e > s)
    b = e - 1 if fwd else e
    r1, r2 = sorted((s // width, b // width))
    c1, c2 = sorted((s % width, b % width))
    return [i for i in range(n) if r1 <= i // width <= r2 and c1 <= i % width <= c2]


def check_rect(case):
    n, width = case["rect"]
    w = World([[], [["i", list(range(n - 1, -1, -1))]], [["s", 1, n]], [["s", 2, n], ["i", list(range(0, n - 2))]]], n)
    cnt = 0
    kinds = ["selected", "match", "comment", "user2", "match+comment"]
    for vi, (seg, ref) in enumerate(w.views):
        L = len(ref)
        for s in range(L):
            for e in range(L + 1):
                two = (s + e + vi) % 7 == 0
                rects = [(s, e)] + ([(0, 1)] if two else [])
                kind = kinds[(s * 3 + e + vi) % len(kinds)] if vi else "selected"
                w.put((bytes([0x01] * n), (), ()))
                seg.set_style_ranges_rect(rects, width, **kw(kind))
                rg = [(int(a), int(b)) for a, b in seg.rects_to_ranges([(divmod(a, width), (b // width + 1, b % width + 1)) for a, b in [r if r[0] <= r[1] else r[::-1] for r in rects]], width)]
                if rg != [(min(r), max(r) + 1) for r in rects]:
                    raise Violation("rectangles %s in rows of %d span the ranges %s" % (rects, width, rg))
                want = bytearray([0x01] * n)
                for a, b in rects:
                    for i in rect_bytes(L, width, a, b):
                        want[ref[i]] |= BITS[kind]
                got = w.base.style.tobytes()
                if got != bytes(want):
                    raise Violation("%s rectangle %s in rows of %d marks %s instead of %s" % (
                        kind, rects, width, [ref.index(i) for i in ref if got[i] != 1], [ref.index(i) for i in ref if want[i] != 1]))
                cnt += 1
    return cnt


# ------------------------------------------------------------------ images of realistic size

BIGN = 66600
BIGVIEWS = [[], [["s", 0, 40000]], [["s", 65000, 66000]], [["s", 16, 66592], ["s", 65400, 65600]], [["i", list(range(66599, 65000, -1))]],
            [["s", 100, 66500], ["i", list(range(0, 66400, 257))]], [["i", [65535, 65536, 66599, 0, 32768, 32767, 256, 255]]]]
_BIG = []


def bigworld():
    if not _BIG:
        _BIG.append(World(BIGVIEWS, BIGN))
    return _BIG[0]


def big_ops(v):
    """operations at positions around the powers of two, 300 ranges at once"""
    L = M.length(BIGVIEWS[v], BIGN)
    at = [i for i in (0, 1, 7, 8, 127, 128, 255, 256, 257, 1023, 1024, 32766, 32767, 32768, 65534, 65535, 65536, 65537, L - 2, L - 1) if 0 <= i < L]
    at = sorted(set(at))
    rs = [(i, min(L, i + 1 + k % 3)) for k, i in enumerate(at)]
    many = [(i, i + 1) for i in range(0, L, max(2, L // 300))]
    out = []
    for k in ("match", "comment", "selected", "data", "user5", "diff"):
        out += [("set", rs, k), ("set", many, k), ("set", [(0, L)], k)]
    for k in ("match", "comment", "selected", "user5", "diff"):
        out += [("clear", rs, k), ("clear", many, k), ("clear", [(0, L)], k), ("clearall", k)]
    out += [("at", at, "match"), ("comment", rs, "text"), ("comment", many, "many"), ("uncomment", rs), ("uncomment", [(0, L)]),
            ("user", rs, 1, 7), ("user", many, 6, 9), ("user", [(L // 2, L)], 2, 3), ("remove", at), ("comments", at, ["x%d" % i if i % 2 else "" for i in at]), ("fixup",)]
    out += [("commentat", i, "at %d" % i) for i in at]
    if len(set(M.build(BIGVIEWS[v], BIGN)[1])) == L:
        out += [("diff", []), ("diff", at), ("diff", [a for a, _ in many]), ("diff", list(range(L // 2, L)))]
    return out


def check_big(case):
    w = bigworld()
    v = case["big"]
    st = (bytes(BIGN), (), ())
    if case["start"] == "full":
        st = (b"\xf7" * BIGN, tuple((i, "c%d" % i) for i in range(0, BIGN, 13)), tuple(sorted(((k, i), i % 5) for k in (1, 6) for i in range(0, BIGN, 11))))
    ops = big_ops(v)
    for k in case["ops"]:
        st = check_step(w, st, v, ops[k])
    check_queries(w, st, "big")
    return st


# ------------------------------------------------------------------ families

_W = []


def world():
    if not _W:
        _W.append(World())
    return _W[0]


def decode_state(s):
    return bytes.fromhex(s[0]), tuple((int(k), v) for k, v in s[1]), tuple(((k, i), v) for (k, i), v in s[2])


def encode_state(st):
    return [st[0].hex(), [list(x) for x in st[1]], [[list(k), v] for k, v in st[2]]]


def run_case(case):
    if "rect" in case:
        return check_rect(case)
    if "big" in case:
        return check_big(case)
    w = world()
    st = decode_state(case["state"])
    if "ops" in case:
        for v, op in case["ops"]:
            op = tuple([tuple(x) for x in y] if isinstance(y, list) and y and isinstance(y[0], list) else y for y in op)
            st = check_step(w, st, v, op)
    check_queries(w, st, case.get("full", True))
    return st


def fam_states(res, args):
    """queries in all listed states"""
    for m in args["marks"]:
        for c in args["comments"]:
            style = bytes((m >> i & 1) * args["bit"] | (i % 2) for i in range(N))
            com = tuple((i, "t%d" % i) for i in range(N) if c >> i & 1)
            st = (style, com, ())
            case = {"state": encode_state(st), "full": args["full"]}
            res.sample(case)
            res.count("traces")
            res.count("transitions", len(VIEWS))
            res.case(case, run_case, case)
            res.state(st)


def fam_steps(res, args):
    """all operations from the states reached by the given first operations"""
    w = world()
    start = decode_state(args["start"])
    seen = set()
    for first in args["first"]:
        st = start
        prefix = []
        try:
            for k in first:
                st = check_step(w, st, *OPS[k])
                prefix.append(list(OPS[k]))
        except Exception:
            pass
        case = {"state": args["start"], "ops": prefix}
        res.sample(case)
        st = res.case(case, run_case, case)
        if st is None or st in seen:
            continue
        seen.add(st)
        res.state(st)
        for k in range(len(OPS)):
            c = {"state": encode_state(st), "ops": [list(OPS[k])]}

            def one():
                return check_step(w, st, *OPS[k])
            new = res.case(c, one)
            res.count("transitions")
            if new is not None and new not in seen and (args["deep"] or k % 23 == len(seen) % 23):
                seen.add(new)
                res.state(new)
                res.case(dict(c, ops=[], state=encode_state(new)), check_queries, w, new, True)
    res.count("traces", len(args["first"]))


def fam_rect(res, args):
    for c in args["cases"]:
        n = res.case(c, run_case, c)
        res.count("transitions", n or 0)
        res.count("traces")
        res.sample(c)
        res.state(str(c))


def fam_big(res, args):
    for c in args["cases"]:
        st = res.case(c, check_big, c)
        res.count("transitions", len(c["ops"]))
        res.count("traces")
        res.sample(c)
        if st is not None:
            res.state(st)


FAMILIES = {"states": fam_states, "steps": fam_steps, "rect": fam_rect, "big": fam_big}


def plan(tier):
    deep = tier == "thorough"
    out = []
    for bit in (0x20, 0x40) + ((0x80, 0x60, 4) if deep else ()):
        for c in chunks(range(64), 4):
            out.append(("states", {"bit": bit, "marks": c, "comments": list(range(64)) if deep else [0, 1, 2, 18, 32, 37, 45, 63], "full": False}))
    for bit in (1, 0x20, 2) if deep else (0x20, 2):
        for c in chunks(range(64), 8):
            out.append(("states", {"bit": bit, "marks": c, "comments": list(range(64)), "full": "sections"}))
    for st in (EMPTY, FULL, ALT):
        firsts = [[]] + [[k] for k in range(0, len(OPS), 1 if deep else 11)]
        if deep:
            firsts += [[a, b] for a in range(0, len(OPS), 17) for b in range(0, len(OPS), 19)]
        out += [("steps", {"start": encode_state(st), "first": c, "deep": deep}) for c in chunks(firsts, 4)]
    out += [("rect", {"cases": [{"rect": [n, w]}]}) for n, w in ((12, 4), (11, 4), (9, 3), (7, 5), (6, 1), (10, 16), (24, 8))]
    for v in range(len(BIGVIEWS)):
        n = len(big_ops(v))
        ix = list(range(n))
        for st in ("empty", "full"):
            # every operation once, then sequences that run through all of them
            seqs = [[k] for k in ix] if deep else []
            seqs += [ix[a:a + 6] for a in range(0, n, 6)] + [ix[a::7] for a in range(7)]
            out += [("big", {"cases": c}) for c in chunks([{"big": v, "start": st, "ops": q} for q in seqs], 3)]
    return out
