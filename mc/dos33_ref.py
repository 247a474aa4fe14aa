"""Independent reference encoder/decoder for Apple DOS 3.3 disk images (DOS
order .dsk, 35 tracks x 16 sectors x 256 bytes), from "Beneath Apple DOS".

VTOC at T17 S0; catalog chain normally T17 S15..S1; catalog sector: link in
bytes 1,2, seven 35-byte entries from byte 11: T/S of first track/sector list,
type|lock, name (30, high ASCII, blank padded), sector count.  T/S list: link in
1,2, pairs from byte 12.
"""
NSEC = 560
SIZE = NSEC * 256
TYPES = {"T": 0, "I": 1, "A": 2, "B": 4, "S": 8, "R": 0x10, "a": 0x20, "b": 0x40}


def off(s):
    return s * 256


def sec(img, s):
    return bytes(img[s * 256:s * 256 + 256])


class Geo33:
    name = "DOS33"
    payload = 256
    nsec = NSEC

    def __init__(self, catalog=None):
        self.catalog = catalog or [17 * 16 + i for i in range(15, 0, -1)]
        self.system = {17 * 16} | set(self.catalog) | set(range(0, 3 * 16))

    def slot_pos(self, slot):
        return self.catalog[slot // 7] * 256 + 11 + (slot % 7) * 35

    def where(self, o):
        return "track %d sector %d byte %d" % (o // 4096, (o // 256) % 16, o % 256)

    def sector_at(self, o):
        return o // 256


G33 = Geo33()


def name30(name):
    b = name.encode("ascii")[:30].ljust(30)
    return bytes(c | 0x80 for c in b)


def display(raw30):
    return bytes((c - 0x80) & 0xff for c in raw30 if c >= 0x80).decode("ascii").rstrip(" ")


def build(files, free=None, geo=G33, ts_pairs=122, tracks=35, fill=0):
    """files: dict(slot, name, type, data, sectors=[data sectors], ts=[list sectors],
    locked=False) ; deleted entries: dict(slot, name, deleted=True)"""
    img = bytearray([fill]) * SIZE
    for s in range(48):
        img[s * 256:s * 256 + 256] = bytes((s * 7 + i * 13 + 5) & 0xff for i in range(256))
    img[0:4] = b"\x01\xa5\x27\xc9"
    used = set()
    for i, c in enumerate(geo.catalog):
        b = bytearray(256)
        if i + 1 < len(geo.catalog):
            n = geo.catalog[i + 1]
            b[1], b[2] = n // 16, n % 16
        img[c * 256:c * 256 + 256] = b
    for f in files:
        p = geo.slot_pos(f["slot"])
        nm = f.get("rawname") or name30(f["name"])
        ty = TYPES[f.get("type", "B")] if isinstance(f.get("type", "B"), str) else f["type"]
        if f.get("locked"):
            ty |= 0x80
        if f.get("deleted"):
            t0, s0 = f.get("ts0", (20, 5))
            img[p:p + 35] = bytes([0xff, s0, ty]) + nm[:29] + bytes([t0]) + bytes([2, 0])
            continue
        ts, secs, data = f["ts"], f["sectors"], f["data"]
        assert len(ts) == max(1, (len(secs) + ts_pairs - 1) // ts_pairs), f
        n = f.get("count", len(ts) + len(secs))
        img[p:p + 35] = bytes([ts[0] // 16, ts[0] % 16, ty]) + nm + bytes([n & 255, n >> 8])
        for k, t in enumerate(ts):
            b = bytearray(256)
            if k + 1 < len(ts):
                b[1], b[2] = ts[k + 1] // 16, ts[k + 1] % 16
            lo = k * ts_pairs
            b[5], b[6] = lo & 255, lo >> 8
            for j, s in enumerate(secs[lo:lo + ts_pairs]):
                if s:
                    b[12 + 2 * j], b[13 + 2 * j] = s // 16, s % 16
            img[t * 256:t * 256 + 256] = b
        for j, s in enumerate(secs):
            if s:
                img[s * 256:s * 256 + 256] = data[j * 256:j * 256 + 256].ljust(256, b"\0")
        used |= set(ts) | set(s for s in secs if s)
    if free is None:
        free = set(range(NSEC)) - geo.system - used
    v = bytearray(256)
    v[0] = 4
    v[1], v[2] = geo.catalog[0] // 16, geo.catalog[0] % 16
    v[3] = 3
    v[6] = 254
    v[0x27] = ts_pairs
    v[0x30] = 18
    v[0x31] = 1
    v[0x34] = tracks
    v[0x35] = 16
    v[0x37] = 1
    set_free(v, free)
    img[272 * 256:273 * 256] = v
    return bytes(img)


def set_free(v, free):
    for s in free:
        t, k = divmod(s, 16)
        if k >= 8:
            v[0x38 + t * 4] |= 1 << (k - 8)
        else:
            v[0x39 + t * 4] |= 1 << k


def free_set(raw):
    v = sec(raw, 272)
    free = set()
    for t in range(50):
        for k in range(16):
            byte = v[0x38 + t * 4] if k >= 8 else v[0x39 + t * 4]
            if byte & (1 << (k & 7)):
                free.add(t * 16 + k)
    return free


def decode(raw):
    """-> (catalog sectors, entries in catalog order including deleted, up to a
    never-used one)"""
    v = sec(raw, 272)
    c = v[1] * 16 + v[2]
    cats = []
    entries = []
    end = False
    while c:
        if c in cats or c >= NSEC:
            raise ValueError("catalog chain broken at %d" % c)
        cats.append(c)
        b = sec(raw, c)
        for k in range(7):
            e = b[11 + 35 * k:46 + 35 * k]
            slot = (len(cats) - 1) * 7 + k
            if e[0] == 0:
                end = True
                break
            deleted = e[0] == 0xff
            t = e[32] if deleted else e[0]
            entries.append({"slot": slot, "deleted": deleted, "live": not deleted, "ts": t * 16 + e[1],
                            "type": e[2] & 0x7f, "locked": bool(e[2] & 0x80), "raw": e,
                            "name": display(e[3:32] if deleted else e[3:33]), "count": e[33] | e[34] << 8})
        if end:
            break
        c = b[1] * 16 + b[2]
    return cats, entries


def chain(raw, e):
    """-> (data incl. padding, data sectors, ts sectors)"""
    t = e["ts"]
    ts = []
    secs = []
    while t:
        if t in ts or t >= NSEC:
            raise ValueError("%s: track/sector list chain broken at %d" % (e["name"], t))
        b = sec(raw, t)
        if (b[5] | b[6] << 8) != 122 * len(ts):
            raise ValueError("%s: track/sector list %d says it starts at file sector %d instead of %d" % (
                e["name"], len(ts) + 1, b[5] | b[6] << 8, 122 * len(ts)))
        ts.append(t)
        for j in range(122):
            p = b[12 + 2 * j] * 16 + b[13 + 2 * j]
            if p:
                secs.append(p)
        t = b[1] * 16 + b[2]
    for s in secs:
        if s >= NSEC:
            raise ValueError("%s: data sector %d out of range" % (e["name"], s))
    return b"".join(sec(raw, s) for s in secs), secs, ts


def fsck(raw, geo=G33, reserved=()):
    files = {}
    problems = []
    owner = {}
    free = free_set(raw)
    try:
        cats, entries = decode(raw)
    except ValueError as x:
        return files, free, [str(x)]
    if cats != geo.catalog[:len(cats)]:
        problems.append("catalog chain changed: %s" % cats)
    for e in entries:
        if not e["live"]:
            continue
        try:
            data, secs, ts = chain(raw, e)
        except ValueError as x:
            problems.append(str(x))
            continue
        if e["count"] != len(secs) + len(ts):
            problems.append("%s: catalog says %d sectors, file has %d" % (e["name"], e["count"], len(secs) + len(ts)))
        for s in secs + ts:
            if s in geo.system or s in reserved:
                problems.append("%s uses system sector %d" % (e["name"], s))
            if s in owner:
                problems.append("sector %d belongs to %s and %s" % (s, owner[s], e["name"]))
            owner[s] = e["name"]
            if s in free:
                problems.append("sector %d of %s is marked free" % (s, e["name"]))
        files[e["slot"]] = (e, data, secs + ts)
    for s in sorted(free & geo.system):
        problems.append("system sector %d is marked free" % s)
    if free - set(range(NSEC)):
        problems.append("nonexistent sectors marked free: %s" % sorted(free - set(range(NSEC)))[:5])
    lost = set(range(NSEC)) - free - geo.system - set(owner) - set(reserved)
    if lost:
        problems.append("sectors lost (neither free nor used): %s" % sorted(lost)[:10])
    return files, free, problems
