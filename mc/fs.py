"""Filesystem harness: real atrcopy disk image objects driven next to a trivial
model (an ordered list of named byte strings), judged by the independent
decoders in atari_ref/dos33_ref on the raw bytes after every operation.

Violations carry property tags:
  C01 content read back          C02 everything else untouched
  C03 allocation structures      C04 success/failure and atomicity
  C05 directory listing/lookup
"""
import atari_ref as A
import dos33_ref as D
from core import Violation, filled, pattern

import re
import zlib

import numpy as np
from atrcopy import SegmentData, AtariDosDiskImage, Dos33DiskImage, errors


class Fixture:
    """A starting disk: raw bytes + how to open and judge it."""

    def __init__(self, name, kind, geo, raw, reserved=(), capacity=None):
        self.name = name
        self.kind = kind
        self.geo = geo
        self.raw = raw
        self.reserved = frozenset(reserved)
        self.capacity = capacity if capacity is not None else (64 if kind == "atari" else 7 * len(geo.catalog))

    # -- the real code
    def open(self, raw=None):
        raw = self.raw if raw is None else raw
        data = np.frombuffer(raw, dtype=np.uint8).copy()
        cls = AtariDosDiskImage if self.kind == "atari" else Dos33DiskImage
        # one half of the images are parts of something larger
        pad = (5, 7) if zlib.crc32(raw) & 1 else (0, 0)
        base = SegmentData(np.concatenate([np.full(pad[0], 0x5a, np.uint8), data, np.full(pad[1], 0xa5, np.uint8)]))
        base.style[:] = (np.arange(len(base.style), dtype=np.uint32) * 37 >> 3).astype(np.uint8)
        base.extra.comments.update({0: "first", pad[0] + 20: "early", len(base.style) - 1: "last"})
        img = cls(base[pad[0]:pad[0] + len(data)])
        for describe in (img.get_boot_segments, img.get_vtoc_segments, img.get_directory_segments):
            try:
                describe()                   # these put comments on the fields
            except errors.AtrError:
                pass
        img.surroundings_for_check = lambda: (base.data[:pad[0]].tobytes(), base.data[pad[0] + len(data):].tobytes(), zlib.crc32(base.style.tobytes()), len(base.data),
                                              len(base.style), sorted(base.extra.comments.items()))
        return img

    # -- reference side
    def fsck(self, raw):
        if self.kind == "atari":
            return A.fsck(raw, self.geo, self.reserved)
        return D.fsck(raw, self.geo, self.reserved)

    def entries(self, raw):
        if self.kind == "atari":
            return A.decode(raw, self.geo)[0]
        return D.decode(raw)[1]

    def need(self, size):
        n = max(1, -(-size // self.geo.payload))
        if self.kind == "dos33":
            n += -(-n // 122)
        return n

    def shown(self, name):
        """name as the directory can hold it"""
        if self.kind == "atari":
            return A.display(*A.name83(name))
        return name[:30].rstrip(" ")

    def readback(self, data):
        if self.kind == "atari":
            return data
        return data + bytes(-len(data) % 256 if data else 256)

    def slot_range(self, slot):
        p = self.geo.slot_pos(slot)
        return p, p + (16 if self.kind == "atari" else 35)

    def sector_range(self, s):
        if self.kind == "atari":
            p, n = self.geo.pos(s)
            return p, p + n
        return s * 256, s * 256 + 256

    def vtoc_ranges(self):
        if self.kind == "atari":
            p = self.geo.pos(360)[0]
            r = [(p + 3, p + 5), (p + 10, p + 100)]
            if self.geo.nsec >= 1024:
                q = self.geo.pos(1024)[0]   # second VTOC: copy of the bitmap and count
                r += [(q, q + 84), (q + 122, q + 124)]
            return r
        p = 272 * 256
        return [(p + 0x30, p + 0x32)] + [(p + 0x38 + 4 * t, p + 0x3a + 4 * t) for t in range(50)]

    def shreddable(self, raw):
        free = self.fsck(raw)[1]
        return [s for s in free if (1 <= s <= self.geo.nsec if self.kind == "atari" else s < D.NSEC)]

    def canon(self, raw):
        """state for deduplication: everything except the content of free sectors,
        which no operation reads"""
        _, free, _ = self.fsck(raw)
        b = bytearray(raw)
        for s in free:
            if self.kind == "atari" and not 1 <= s <= self.geo.nsec:
                continue
            if self.kind == "dos33" and s >= D.NSEC:
                continue
            lo, hi = self.sector_range(s)
            b[lo:hi] = bytes(hi - lo)
        return bytes(b)


def snap(img):
    return img.bytes[:].tobytes()


def content(op):
    """data for an add operation ["add", name, size, version]"""
    ver = op[3] if len(op) > 3 else 0
    return filled(ver if isinstance(ver, str) else "", "%s/%d/%s" % (op[1], op[2], ver), op[2])


TYPE_NAMES = {v: k for k, v in D.TYPES.items()}
FTYPES = ["B", "T", "A", "I", "S", "R", "a", "b"]


def ftype(op):
    return op[4] if len(op) > 4 else "B"


class Model:
    """name -> data for live files, in directory order; slots freed by deletes"""

    def __init__(self, fx, raw=None):
        files, free, problems = fx.fsck(fx.raw if raw is None else raw)
        assert not problems, (fx.name, problems)
        self.fx = fx
        self.files = {}
        for slot in sorted(files):
            e, data, secs = files[slot]
            self.files[e["name"]] = (data, len(secs))
        self.orig = set(list(self.files)[3:])
        self.nfree = len(free)
        ents = fx.entries(fx.raw if raw is None else raw)
        self.slots = len(ents)
        self.holes = sum(1 for e in ents if (e["flag"] & 0x80 if fx.kind == "atari" else e["deleted"]))

    def clone(self):
        m = Model.__new__(Model)
        m.fx, m.files, m.nfree, m.slots, m.holes = self.fx, dict(self.files), self.nfree, self.slots, self.holes
        m.orig = self.orig
        return m

    def key(self):
        return (tuple(sorted((k, len(v[0])) for k, v in self.files.items())), self.nfree, self.slots, self.holes)

    def enabled(self, op):
        if op[0] == "add":
            return self.fx.shown(op[1]) not in self.files
        if op[0] == "del":
            return op[1] in self.files
        if op[0] == "missing":
            return op[1] not in self.files
        return True

    def expect(self, op):
        """None = success, or the tuple of acceptable exception classes"""
        if op[0] == "add":
            bad = ()
            if self.fx.need(op[2]) > self.nfree:
                bad += (errors.NotEnoughSpaceOnDisk,)
            if self.slots >= self.fx.capacity and self.holes == 0:
                bad += (errors.NoSpaceInDirectory,)
            return bad or None
        if op[0] == "missing":
            return (errors.FileNotFound,)
        return None

    def apply(self, op):
        if op[0] == "add":
            n = self.fx.need(op[2])
            self.files[self.fx.shown(op[1])] = (self.fx.readback(content(op)), n)
            self.nfree -= n
            if self.holes:
                self.holes -= 1
            else:
                self.slots += 1
        elif op[0] == "del":
            _, n = self.files.pop(op[1])
            self.nfree += n
            self.holes += 1


def do(img, op):
    if op[0] == "add":
        d = content(op)
        form = op[2] % 4 if op[0] == "add" else 0
        if form:                             # the same bytes as an array, as every other byte of an array, or as a list
            a = np.frombuffer(d, dtype=np.uint8)
            d = a.copy() if form == 1 else np.repeat(a, 2)[::2] if form == 2 else a.tolist()
        img.write_file(op[1], ftype(op), d)
    elif op[0] in ("del", "missing"):
        target = op[1]
        if len(op) > 2:                      # a directory entry instead of its name
            known = img.__dict__.setdefault("entries_seen_by_check", {})
            target = next((d for d in img.files if d.filename == op[1]), None) or known.get(op[1], op[1])
            known[op[1]] = target
        img.delete_file(target)
    elif op[0] == "shred":
        img.shred(op[1])
    else:
        raise AssertionError(op)


class Findings:
    def __init__(self):
        self.items = []

    def add(self, tags, msg):
        if isinstance(tags, str):
            tags = (tags,)
        self.items.append((tags, msg))

    def done(self, where=""):
        if self.items:
            tags = sorted({t for ts, _ in self.items for t in ts})
            raise Violation("%s%s" % (where, "; ".join("[%s] %s" % ("/".join(ts), m) for ts, m in self.items[:6])), tags)


def step(fx, img, model, op, api=True, big=False):
    """Execute one operation on the live image and judge the outcome.  Updates
    the model.  Returns (outcome string, raw bytes after)."""
    f = Findings()
    before = snap(img)
    around = img.surroundings_for_check() if hasattr(img, "surroundings_for_check") else None
    expect = model.expect(op)
    err = None
    try:
        do(img, op)
    except Exception as e:
        err = e
    after = snap(img)
    what = "%s on %s: " % (op, fx.name)
    if len(after) != len(before):
        f.add(("C01", "C02", "C03", "C04", "C05"), "image size changed %d -> %d" % (len(before), len(after)))
        f.done(what)
    if around is not None and img.surroundings_for_check() != around:
        f.add(("C02", "C04") if err is not None else ("C02", "C06") if op[0] == "shred" else "C02", "bytes around the image or marks or comments changed")
    if err is not None:
        if expect is None:
            f.add(("C04", "C01", "C05"), "should have succeeded (%d sectors free, %d entries used) but raised %s: %s" % (
                model.nfree, model.slots - model.holes, type(err).__name__, err))
        elif not isinstance(err, expect):
            f.add("C04", "raised %s (%s) instead of %s" % (type(err).__name__, err, "/".join(c.__name__ for c in expect)))
        if after != before:
            diff = [i for i in range(len(before)) if before[i] != after[i]]
            f.add(("C04", "C03", "C02"), "failed with %s but changed the image at %s (%d bytes)" % (type(err).__name__, fx.geo.where(diff[0]), len(diff)))
        outcome = "%s:%s" % (op[0], type(err).__name__)
    else:
        if expect is not None:
            f.add(("C04", "C03", "C05") if op[0] != "missing" else ("C04", "C05", "C02"), "succeeded but should have failed with %s" % "/".join(c.__name__ for c in expect))
            f.done(what)
        judge(fx, f, before, after, model, op)
        model.apply(op)
        outcome = "%s:ok" % op[0]
    if api and not f.items:
        judge_api(fx, f, img, model, op, big)
    f.done(what)
    return outcome, after


def judge(fx, f, before, after, model, op):
    """raw before/after of a successful operation"""
    bfiles, bfree, _ = fx.fsck(before)
    afiles, afree, problems = fx.fsck(after)
    for p in problems[:3]:
        f.add("C03", p)
    bent = {e["slot"]: e for e in fx.entries(before)}
    aent = {e["slot"]: e for e in fx.entries(after)}
    mine = None
    allowed = list(fx.vtoc_ranges())
    if op[0] == "add":
        shown = fx.shown(op[1])
        new = [s for s, e in aent.items() if e["live"] and (s not in bent or not bent[s]["live"]) and e["name"] == shown]
        if len(new) != 1:
            f.add(("C05", "C01"), "new entries named %r: %d" % (shown, len(new)))
            if not new:
                return
        mine = new[0]
        if mine in bent and not (bent[mine]["flag"] & 0x80 if fx.kind == "atari" else bent[mine]["deleted"]):
            f.add(("C02", "C05"), "entry %d was taken over though it was not deleted" % mine)
        if mine not in afiles:
            f.add(("C01", "C03"), "new file is not readable")
        else:
            e, data, secs = afiles[mine]
            if data != fx.readback(content(op)):
                f.add("C01", "content on disk differs from what was written (%d bytes, expected %d; %s)" % (
                    len(data), len(fx.readback(content(op))), first_diff(data, fx.readback(content(op)))))
            for s in secs:
                if s not in bfree:
                    f.add(("C03", "C02"), "sector %d was not free" % s)
                elif s not in fx.geo.system:
                    allowed.append(fx.sector_range(s))
            if fx.kind == "atari":
                if e["flag"] != 0x42:
                    f.add("C05", "new entry has flags %02x" % e["flag"])
                b, x = A.name83(op[1])
                if (e["base"], e["ext"]) != (b, x):
                    f.add("C05", "name stored as %r" % (e["base"] + e["ext"]))
            else:
                if e["type"] != D.TYPES[ftype(op)] or e["locked"]:
                    f.add("C05", "type stored as %02x locked=%s" % (e["type"], e["locked"]))
                if e["raw"][3:33] != D.name30(op[1]):
                    f.add("C05", "name stored as %r" % e["raw"][3:33])
            if afree != bfree - set(secs):
                f.add("C03", "free map changed by %s, file uses %s" % (sorted(bfree ^ afree)[:12], sorted(secs)[:12]))
            if len(secs) != fx.need(op[2]):
                f.add("C03", "file of %d bytes uses %d sectors instead of %d" % (op[2], len(secs), fx.need(op[2])))
    elif op[0] == "del":
        gone = [s for s, e in bent.items() if e["live"] and (s not in aent or not aent[s]["live"])]
        if len(gone) != 1 or bent[gone[0]]["name"] != op[1]:
            f.add(("C05", "C02"), "deleted entries: %s" % [bent[s]["name"] for s in gone])
            if not gone:
                return
        mine = gone[0]
        secs = bfiles[mine][2] if mine in bfiles else []
        if afree != bfree | set(secs):
            f.add("C03", "free map changed by %s, file used %s" % (sorted(bfree ^ afree)[:12], sorted(secs)[:12]))
        for s in secs:
            allowed.append(fx.sector_range(s))
        if mine in aent and fx.kind == "atari" and aent[mine]["raw"][1:] != bent[mine]["raw"][1:]:
            pass    # the rest of a deleted entry is free to change
    elif op[0] == "shred":
        want = bytearray(before)
        for s in fx.shreddable(before):
            lo, hi = fx.sector_range(s)
            want[lo:hi] = bytes([op[1]]) * (hi - lo)
            allowed.append((lo, hi))
        if bytes(want) != after:
            diff = [i for i in range(len(after)) if want[i] != after[i]]
            f.add("C06", "%d bytes wrong, first %s is %02x (was %02x, should be %02x)" % (
                len(diff), fx.geo.where(diff[0]), after[diff[0]], before[diff[0]], want[diff[0]]))
    if mine is not None:
        allowed.append(fx.slot_range(mine))
    for s in bent:
        if s != mine and (s not in aent or aent[s]["raw"] != bent[s]["raw"]):
            f.add("C02", "entry %d (%s) changed from %r to %r" % (s, bent[s]["name"], bent[s]["raw"], aent[s]["raw"] if s in aent else None))
    for s in bfiles:
        if s != mine and (s not in afiles or afiles[s][1:] != bfiles[s][1:]):
            f.add("C02", "file %s changed" % bfiles[s][0]["name"])
    if before != after:
        for lo, hi in changed(before, after):
            for o in range(lo, hi):
                if before[o] != after[o] and not any(a <= o < b for a, b in allowed):
                    f.add("C02", "%s changed from %02x to %02x" % (fx.geo.where(o), before[o], after[o]))
                    return


def changed(a, b, block=256):
    """coarse ranges that differ"""
    for i in range(0, len(a), block):
        if a[i:i + block] != b[i:i + block]:
            yield i, min(i + block, len(a))


def first_diff(a, b):
    for i in range(min(len(a), len(b))):
        if a[i] != b[i]:
            return "first difference at %d: %02x != %02x" % (i, a[i], b[i])
    return "common prefix equal"


def judge_api(fx, f, img, model, op, big):
    """what the library reports about the disk now"""
    names = [d.filename for d in img.files]
    want = [e["name"] for e in fx.entries(snap(img)) if e["live"]]
    if names != want or sorted(names) != sorted(model.files):
        f.add("C05", "listing is %s, should be %s" % (names[:12], sorted(model.files)[:12]))
        return
    ref = [e for e in fx.entries(snap(img)) if e["live"]]
    for d, e in zip(img.files, ref):
        if fx.kind == "atari":
            if bool(d.locked) != bool(e["flag"] & 0x20):
                f.add("C05", "%s is listed as locked=%s" % (d.filename, d.locked))
            if d.file_num != e["slot"]:
                f.add("C05", "%s is listed as file number %s instead of %d" % (d.filename, d.file_num, e["slot"]))
        else:
            if bool(d.locked) != e["locked"] or d.file_type != TYPE_NAMES.get(e["type"], "?"):
                f.add("C05", "%s is listed with type %s locked=%s, should be %02x %s" % (d.filename, d.file_type, d.locked, e["type"], e["locked"]))
    target = fx.shown(op[1]) if op[0] == "add" else None
    many = len(model.files) - len(model.orig) > 10
    for name, (data, n) in model.files.items():
        if not big and (len(data) > 8192 or (many or name in model.orig) and name != target):
            continue        # the independent decoder has compared its bytes on disk
        tag = "C01" if op[0] == "add" and name == fx.shown(op[1]) else "C02"
        try:
            got = img.find_file(name)
        except Exception as e:
            f.add((tag, "C05"), "reading %s raised %s: %s" % (name, type(e).__name__, e))
            continue
        if bytes(got) != data:
            f.add(tag, "%s reads as %d bytes, should be %d; %s" % (name, len(got), len(data), first_diff(got, data)))
    for d in img.files:
        if d.num_sectors != model.files[d.filename][1]:
            f.add("C05", "%s is listed with %d sectors, has %d" % (d.filename, d.num_sectors, model.files[d.filename][1]))
    if fx.kind == "atari" and fx.geo.nsec < 1024 and int(img.unused_sectors) != model.nfree:
        f.add("C03", "library reports %d free sectors, should be %d" % (img.unused_sectors, model.nfree))
    if fx.kind == "atari" and fx.geo.nsec >= 1024 and int(img.unused_sectors) != model.nfree + 303:
        f.add("C03", "library reports %d free sectors, should be %d" % (img.unused_sectors, model.nfree + 303))
    for dname in ([op[1]] if op[0] in ("del", "missing") else []):
        if dname in model.files:
            continue
        try:
            img.find_dirent(dname)
            f.add("C05", "%s can still be looked up" % dname)
        except errors.FileNotFound:
            pass
    vtoc = img.get_vtoc_object()
    if vtoc.num_free_sectors != model.nfree:
        f.add("C03", "sector map shows %d free sectors, should be %d" % (vtoc.num_free_sectors, model.nfree))
    if model.nfree % 8 == 3:
        # the map printed by the vtoc command
        first, per, tracks = (1, 18, 40) if fx.kind == "atari" else (0, 16, 35)
        free = fx.fsck(img.bytes.tobytes())[1]
        rows = [("".join(re.findall("[01]", line.split(":", 1)[1]))) for line in str(vtoc).splitlines() if line.startswith("track")]
        want = ["".join("1" if first + t * per + i in free else "0" for i in range(per)) for t in range(tracks)]
        if fx.kind == "atari":
            want[-1] = want[-1][:-1] + rows[-1][-1:]       # sector 720 is not in the map
        if rows != want:
            f.add("C03", "the printed map shows row %s" % [(i, a, b) for i, (a, b) in enumerate(zip(rows, want)) if a != b][:2])


_models = {}


def initial(fx):
    if fx.name not in _models:
        _models[fx.name] = Model(fx)
    return _models[fx.name].clone()


def run_sequence(fx, ops, res=None, reopen_each=False, final_reopen=True, check_from=0, full=False):
    """Execute ops on one live object; full judgement of every step from
    check_from on (earlier ones were judged as part of another sequence)."""
    model = initial(fx)
    img = fx.open()
    raw = fx.raw
    for i, op in enumerate(ops):
        if not model.enabled(op):
            continue
        if reopen_each and i:
            img = fx.open(raw)
        if i < check_from:
            if model.expect(op) is None:
                do(img, op)
                model.apply(op)
            else:
                try:
                    do(img, op)
                except errors.AtrError:
                    pass
            raw = snap(img)
            continue
        o, raw = step(fx, img, model, op, big=full and i == len(ops) - 1)
        if res is not None:
            res.count("transitions")
            res.outcome("%s %s" % (fx.kind, o))
            res.state(fx.name.encode() + raw)
    if final_reopen:
        f = Findings()
        img2 = fx.open(raw)
        judge_api(fx, f, img2, model, ops[-1], full or len(ops) > 10)
        f.done("after reopening, %s on %s: " % (ops, fx.name))
    return img, raw


def sequences(fx, alphabet, depth, prefix=()):
    """all maximal enabled sequences (length == depth, or stuck), as
    (ops, check_from): steps before check_from are shared with an earlier
    sequence that judged them."""
    def rec(model, seq, check_from):
        if len(seq) == depth:
            yield seq, check_from
            return
        first = True
        any_ = False
        for op in alphabet:
            if len(seq) < len(prefix) and op != prefix[len(seq)]:
                continue
            if not model.enabled(op):
                continue
            any_ = True
            m = model.clone()
            if m.expect(op) is None:
                m.apply(op)
            # only the first child re-judges the shared prefix
            yield from rec(m, seq + [op], check_from if first else len(seq))
            first = False
        if not any_ and seq:
            yield seq, check_from
    yield from rec(initial(fx), [], 0)


def tree(res, fx, alphabet, depth, prefix=(), full=False):
    for ops, check_from in sequences(fx, alphabet, depth, prefix):
        res.count("traces")
        res.sample({"fixture": fx.name, "ops": ops})
        res.case({"fixture": fx.name, "ops": ops, "full": full}, run_sequence, fx, ops, res, False, True, check_from, full)
        if res.n.get("violations", 0) >= 6:
            return


def closure(res, fx, alphabet, max_states=100000):
    """Breadth-first search over every reachable disk state: each transition
    reopens the raw bytes, runs one real operation and judges it.  Stops when no
    new state appears (complete) or at max_states (reported as a cap)."""
    seen = {}
    frontier = [(fx.raw, initial(fx), [])]
    seen[fx.canon(fx.raw)] = 0
    depth = 0
    import hashlib
    seen = {hashlib.blake2b(fx.canon(fx.raw), digest_size=12).digest()}
    while frontier:
        nxt = []
        depth += 1
        for raw, model, hist in frontier:
            for op in alphabet:
                if not model.enabled(op):
                    continue
                res.count("transitions")

                def one():
                    m = model.clone()
                    img = fx.open(raw)
                    o, after = step(fx, img, m, op)
                    res.outcome("%s %s" % (fx.kind, o))
                    return m, after
                r = res.case({"fixture": fx.name, "ops": hist + [op], "reopen": True}, one)
                if r is None:
                    if res.n.get("violations", 0) >= 6:
                        return
                    continue
                m, after = r
                k = hashlib.blake2b(fx.canon(after), digest_size=12).digest()
                if k not in seen:
                    seen.add(k)
                    res.states.add(k[:8])
                    nxt.append((after, m, hist + [op]))
                    res.sample({"fixture": fx.name, "ops": hist + [op]})
            if len(seen) > max_states:
                res.caps.append("closure of %s stopped at %d states, depth %d" % (fx.name, len(seen), depth))
                return
        frontier = nxt
    res.count("closures_completed")
    res.outcome("closure %s: %d states, diameter %d" % (fx.name, len(seen), depth - 1))


# ---------------------------------------------------------------- fixtures

def partition(sectors, sizes):
    out = []
    i = 0
    for n in sizes:
        out.append(sectors[i:i + n])
        i += n
    return out, sectors[i:]


def only_fixture(name, g, free):
    """exactly the given sectors are free; one small file; everything else is
    marked used"""
    free = set(free)
    if g == "DOS33":
        geo = D.G33
        rest = [s for s in range(48, 560) if s not in geo.system and s not in free]
        raw = D.build([{"slot": 0, "name": "KEEP", "type": "B", "data": pattern("keep", 400), "sectors": rest[1:3], "ts": rest[:1]}], free, fill=0xe5)
        return Fixture(name, "dos33", geo, raw, rest[3:])
    geo = A.GEOS[g]
    rest = [s for s in range(1, 720) if s not in geo.system and s not in free]
    raw = A.build(geo, [{"slot": 0, "name": "KEEP.DAT", "data": pattern("keep", geo.payload + 9), "sectors": rest[:2]}], free, 0xe5)
    return Fixture(name, "atari", geo, raw, rest[2:])


A_TOMBS = {"blank": b"\x80\x01\0\x04\0" + b" " * 11, "zero": b"\x80" + bytes(15), "ff": b"\x80" + b"\xff" * 15,
           "same": b"\x80\x01\0\x04\0KEEP    DAT", "noname": b"\x80\x01\0\x04\0        DAT", "lower": b"\x80\x05\0\x0a\0keep    dat",
           "flagbf": b"\xbf\x02\0\x0a\0" + b" " * 11, "seq": bytes([0x80] + list(range(1, 16)))}


D_TOMBS = {"blank": b"\xff\x05\x04" + b"\xa0" * 29 + b"\x14\2\0", "zero": b"\xff" + bytes(34), "ff": b"\xff" * 35,
           "same": b"\xff\x05\x04\xcb\xc5\xc5\xd0" + b"\xa0" * 25 + b"\x14\2\0", "track0": b"\xff\0\x84\xcf" + b"\xa0" * 28 + b"\0\0\0",
           "ascii": b"\xff\x05\x02KEEP" + b" " * 25 + b"\x14\xff\xff", "seq": bytes([0xff] + list(range(34)))}


def atari_fixture(geo, name, free, files=None, holes=(), foreign=(), fill=0xe5, order=None):
    """free: list of free sectors.  files: list of (name, nbytes, flag).  All
    remaining sectors go to FILLER.DAT so that exactly `free` is free."""
    files = files if files is not None else [("KEEP.DAT", 2 * geo.payload + 7, 0x42), ("DOS.SYS", geo.payload, 0x62)]
    rest = [s for s in range(1, 720) if s not in geo.system and s not in set(free or ())]
    reserved = set()
    ents = []
    slot = 0
    for fn, n, flag in files:
        while slot in holes:
            ents.append({"slot": slot, "name": "OLD%d.TMP" % slot, "flag": 0x80, "count": 2, "start": 50})
            slot += 1
        k = max(1, -(-n // geo.payload))
        secs, rest = rest[:k], rest[k:]
        if order == "reverse":
            secs = secs[::-1]
        ents.append({"slot": slot, "name": fn, "flag": flag, "data": pattern("fx" + fn, n), "sectors": secs})
        slot += 1
    for fn, flag, k in foreign:
        while slot in holes:
            ents.append({"slot": slot, "name": "OLD%d.TMP" % slot, "flag": 0x80, "count": 2, "start": 50})
            slot += 1
        secs, rest = rest[:k], rest[k:]
        reserved |= set(secs)
        ents.append({"slot": slot, "name": fn, "flag": flag, "sectors": [], "count": k, "start": secs[0]})
        slot += 1
    if rest and free is not None and len(rest) > 0:
        while slot in holes:
            ents.append({"slot": slot, "name": "OLD%d.TMP" % slot, "flag": 0x80, "count": 2, "start": 50})
            slot += 1
        ents.append({"slot": slot, "name": "FILLER.DAT", "flag": 0x42, "data": pattern("filler", len(rest) * geo.payload - 3),
                     "sectors": rest})
        slot += 1
    while slot in holes:
        ents.append({"slot": slot, "name": "OLD%d.TMP" % slot, "flag": 0x80, "count": 2, "start": 50})
        slot += 1
    raw = A.build(geo, ents, set(rest if free is None else free), fill)
    return Fixture("%s-%s" % (geo.name, name), "atari", geo, raw, reserved)


def dos33_fixture(name, free, files=None, holes=(), catalog=None, fill=0xe5):
    geo = D.Geo33(catalog)
    files = files if files is not None else [("HELLO", 300, "A", True), ("KEEP", 700, "B", False), ("NOTES", 100, "T", False)]
    rest = [s for s in range(48, 560) if s not in geo.system and s not in set(free or ())]
    ents = []
    slot = 0

    def hole():
        nonlocal slot
        while slot in holes:
            ents.append({"slot": slot, "name": "OLD%d" % slot, "deleted": True})
            slot += 1
    for fn, n, ty, locked in files:
        hole()
        k = max(1, -(-n // 256))
        t = -(-k // 122)
        ts, rest = rest[:t], rest[t:]
        secs, rest = rest[:k], rest[k:]
        f = {"slot": slot, "type": ty, "locked": locked, "data": pattern("fx" + str(fn), n), "sectors": secs, "ts": ts}
        if isinstance(fn, bytes):
            f["rawname"] = fn
        else:
            f["name"] = fn
        ents.append(f)
        slot += 1
    if rest and free is not None:
        hole()
        t = -(-len(rest) // 123)
        ts, secs = rest[:t], rest[t:]
        ents.append({"slot": slot, "name": "FILLER", "type": "B", "data": pattern("filler", len(secs) * 256), "sectors": secs, "ts": ts})
        slot += 1
    hole()
    raw = D.build(ents, set(rest if free is None else free), geo, fill=fill)
    return Fixture("DOS33-%s" % name, "dos33", geo, raw)


_cache = {}


def fixture(name):
    """fixtures by name, so that cases are replayable"""
    if name not in _cache:
        if len(_cache) > 60:
            _cache.clear()
            _models.clear()
        _cache[name] = _fixture(name)
        assert not _cache[name].fsck(_cache[name].raw)[2], (name, _cache[name].fsck(_cache[name].raw)[2])
    return _cache[name]


TIGHT = [5, 359, 369, 512, 719]
TIGHT33 = [50, 255, 271, 288, 400, 559]


def _fixture(name):
    g, what = name.split("-", 1)
    if what.startswith("only:"):
        return only_fixture(name, g, [int(x) for x in what[5:].split(",") if x])
    if g == "DOS33":
        if what == "blank":
            geo = D.G33
            return Fixture(name, "dos33", geo, D.build([]))
        if what.startswith("tight"):
            n = int(what[5:] or 6)
            return dos33_fixture(what, (TIGHT33 + [48, 300, 301, 302, 511, 512, 513])[:n], holes=(1,))
        if what == "junk":                   # unused bytes of the table of contents hold anything
            f = dos33_fixture(what, TIGHT33, holes=(1,))
            raw = bytearray(f.raw)
            for i in [0, 4, 5] + list(range(7, 0x27)) + list(range(0x28, 0x30)) + [0x32, 0x33] + [0x38 + 4 * t + k for t in range(50) for k in (2, 3)]:
                raw[272 * 256 + i] = 0x81 + i * 5 & 0xff
            return Fixture(f.name, "dos33", f.geo, bytes(raw), f.reserved)
        if what.startswith("shortcat"):      # two catalog sectors, k free entries
            k = int(what[8:])
            names = [("FILE%02d" % i, 10 + i, "TIAB"[i % 4], i % 3 == 0) for i in range(13 - k)]
            return dos33_fixture(what, list(range(400, 420)), names, catalog=[287, 286])
        if what.startswith("cat"):           # standard catalog, k free entries, one a hole
            k = int(what[3:])
            names = [("FILE%03d" % i, 10 + i, "TIAB"[i % 4], i % 3 == 0) for i in range(104 - k)]
            holes = (50,) if k else ()
            return dos33_fixture(what, list(range(450, 470)), names, holes)
        if what == "names":                  # inverse/flashing/control characters, 30 character names
            names = [(bytes([0x01, 0x02, 0xc3]) + b"\xa0" * 27, 200, "A", False),
                     (D.name30("ABCDEFGHIJKLMNOPQRSTUVWXYZ1234"), 300, "B", True),
                     (bytes([0xc8, 0xc9, 0x84, 0x88]) + b"\xa0" * 26, 100, "I", True),
                     ("TEXT UNLOCKED", 400, "T", False), ("OTHER", 20, "R", True)]
            return dos33_fixture(what, list(range(200, 206)) + [300, 301], names)
        if what.startswith("reserve"):       # blank, but DOS tracks 1 and 2 are free for files (data disk)
            geo = D.Geo33(None)
            geo.system = geo.system - set(range(16, 48))
            return Fixture(name, "dos33", geo, D.build([], None, geo))
        if what.startswith("type:"):         # a neighbour entry with any type byte
            ty = int(what[5:])
            return dos33_fixture(what, TIGHT33, [("HELLO", 300, "A", True), ("TYPED", 600, ty & 0x7f, ty > 127), ("NOTES", 100, "T", False)])
        if what.startswith("tomb:"):
            f = dos33_fixture(what, TIGHT33, [("HELLO", 300, "A", True), ("KEEP", 700, "B", False), ("LAST", 100, "T", False)], holes=(0, 2))
            raw = bytearray(f.raw)
            for slot in (0, 2):
                p = f.geo.slot_pos(slot)
                raw[p:p + 35] = D_TOMBS[what[5:]]
            return Fixture(f.name, "dos33", f.geo, bytes(raw))
        if what == "full":
            names = [("FILE%03d" % i, 10 + i, "TIAB"[i % 4], i % 3 == 0) for i in range(105)]
            return dos33_fixture(what, None, names)
        if what == "frag":
            return dos33_fixture(what, [s for s in range(49, 560, 2) if s not in D.G33.system])
    geo = A.GEOS[g]
    if what == "blank":
        return Fixture(name, "atari", geo, A.build(geo, []))
    if what.startswith("tight"):
        n = int(what[5:] or 5)
        return atari_fixture(geo, what, (TIGHT + [4, 358, 370, 480, 481])[:n], holes=(1,))
    if what == "junk":
        f = atari_fixture(geo, what, TIGHT, holes=(1,))
        raw = bytearray(f.raw)
        p, n = geo.pos(360)
        for i in list(range(5, 10)) + list(range(100, n)):
            raw[p + i] = 0x81 + i * 5 & 0xff
        for s in range(361, 369):
            p, n = geo.pos(s)
            raw[p + 128:p + n] = pattern("junk", n - 128)
        return Fixture(f.name, "atari", geo, bytes(raw), f.reserved)
    if what.startswith("dir"):               # k free entries, one of them a hole
        k = int(what[3:])
        names = [("F%02d.X" % i, 1 + i, 0x42 if i % 5 else 0x62) for i in range(63 - k)]
        return atari_fixture(geo, what, list(range(600, 620)), names, holes=(30,) if k else ())
    if what == "foreign":                    # entries of newer DOS versions that must be left alone
        return atari_fixture(geo, what, TIGHT + [100, 101], [("KEEP.DAT", 300, 0x42), ("MY.DAT", 200, 0x46), ("W8.BIT", 10, 0x4a)],
                             holes=(2,), foreign=[("SUBDIR", 0x10, 8), ("EXT.DAT", 0x03, 3)])
    if what.startswith("flag:"):             # a neighbour entry with any flag byte
        fl = int(what[5:])
        if fl & 0x40:
            return atari_fixture(geo, what, TIGHT, [("KEEP.DAT", 300, 0x42), ("FLAG.DAT", 200, fl), ("LAST.DAT", 10, 0x62)])
        return atari_fixture(geo, what, TIGHT, [("KEEP.DAT", 300, 0x42)], foreign=[("FLAG.DAT", fl, 3)])
    if what.startswith("tomb:"):             # deleted entries before and between live files hold arbitrary bytes
        f = atari_fixture(geo, what, TIGHT, [("KEEP.DAT", 300, 0x42), ("LAST.DAT", 10, 0x62)], holes=(0, 2))
        raw = bytearray(f.raw)
        for slot in (0, 2):
            p = geo.slot_pos(slot)
            raw[p:p + 16] = A_TOMBS[what[5:]]
        return Fixture(f.name, "atari", geo, bytes(raw), set())
    if what == "full":
        names = [("F%02d.X" % i, 1 + 3 * i, 0x42 if i % 5 else 0x62) for i in range(64)]
        return atari_fixture(geo, what, None, names)
    if what == "frag":
        return atari_fixture(geo, what, [s for s in range(5, 720, 2) if s not in geo.system])
    raise KeyError(name)
