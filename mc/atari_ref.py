"""Independent reference encoder/decoder for Atari DOS 2 disk images, written
from the published format descriptions (not from atrcopy's code).

ATR: 16 byte header: 96 02, paragraphs (lo word), sector size, paragraphs (hi).
Sectors are numbered from 1; in double density the first three are 128 bytes.
360 = VTOC: code, total(2), free(2), bitmap from byte 10, MSB of byte 10 is
sector 0.  361-368 = directory, 8 entries of 16 bytes in the first 128 bytes of
each sector.  File sectors: payload, then (fileno<<2 | next hi), next lo, count.
"""


class Geo:
    def __init__(self, name, nsec, ssize, nboot, header=True):
        self.name = name
        self.nsec = nsec
        self.ssize = ssize
        self.nboot = nboot      # leading sectors that are 128 bytes
        self.hdr = 16 if header else 0
        self.payload = ssize - 3
        self.size = self.hdr + nboot * 128 + (nsec - nboot) * ssize
        # system area: boot 1-3, VTOC 360, directory 361-368; sector 0 does not exist
        self.system = {0, 1, 2, 3} | set(range(360, 369))

    def pos(self, s):
        if not 1 <= s <= self.nsec:
            raise ValueError(s)
        if s <= self.nboot:
            return self.hdr + (s - 1) * 128, 128
        return self.hdr + self.nboot * 128 + (s - 1 - self.nboot) * self.ssize, self.ssize

    def sec(self, img, s):
        p, n = self.pos(s)
        return bytes(img[p:p + n])

    def slot_pos(self, slot):
        return self.pos(361 + slot // 8)[0] + (slot % 8) * 16

    def where(self, off):
        """human readable location of a byte offset"""
        if off < self.hdr:
            return "ATR header byte %d" % off
        o = off - self.hdr
        if o < self.nboot * 128:
            return "sector %d byte %d" % (o // 128 + 1, o % 128)
        o -= self.nboot * 128
        return "sector %d byte %d" % (o // self.ssize + 1 + self.nboot, o % self.ssize)

    def sector_at(self, off):
        if off < self.hdr:
            return 0
        o = off - self.hdr
        if o < self.nboot * 128:
            return o // 128 + 1
        return (o - self.nboot * 128) // self.ssize + 1 + self.nboot


SD = Geo("SD", 720, 128, 0)
ED = Geo("ED", 1040, 128, 0)
DD = Geo("DD", 720, 256, 3)
DDF = Geo("DDF", 720, 256, 0)      # double density with full size boot sectors
XSD = Geo("XSD", 720, 128, 0, False)
XED = Geo("XED", 1040, 128, 0, False)
XDD = Geo("XDD", 720, 256, 3, False)
GEOS = {g.name: g for g in (SD, ED, DD, DDF, XSD, XED, XDD)}


def geo_for(raw):
    for g in GEOS.values():
        if len(raw) == g.size and (g.hdr == 0 or raw[:2] == b"\x96\x02"):
            if g.hdr and (raw[4] | raw[5] << 8) != g.ssize:
                continue
            return g
    return None


def atr_header(nbytes, ssize):
    par = nbytes // 16
    return bytes([0x96, 0x02, par & 255, (par >> 8) & 255, ssize & 255, ssize >> 8, (par >> 16) & 255]) + bytes(9)


def put(img, geo, s, data):
    p, n = geo.pos(s)
    img[p:p + n] = bytes(data).ljust(n, b"\0")[:n]


def name83(name):
    """the 8.3 name an Atari directory entry can hold"""
    if isinstance(name, str):
        name = name.encode("latin1")
    base, _, ext = name.partition(b".")
    return base[:8].ljust(8), ext[:3].ljust(3)


def display(base, ext):
    b = base.rstrip(b" ")
    e = ext.rstrip(b" ")
    return (b + (b"." + e if e else b"")).decode("latin1")


def blank(geo, fill=0, boot_tag=b"boot"):
    img = bytearray([fill]) * geo.size
    if geo.hdr:
        img[0:16] = atr_header(geo.size - 16, geo.ssize)
    # recognisable boot sectors that are not mistaken for some other format
    for s in (1, 2, 3):
        p, n = geo.pos(s)
        img[p:p + n] = bytes((s * 37 + i * 11 + len(boot_tag)) & 0xff for i in range(n))
    p, n = geo.pos(1)
    img[p:p + 6] = bytes([0, 3, 0, 7, 0x40, 0x15])
    img[p + 9:p + 12] = b"\xff\xff\xff"     # never a plausible KBoot length
    img[p + 32] = 0x99                      # never a SpartaDOS version
    for s in range(361, 369):
        p, n = geo.pos(s)
        img[p:p + n] = bytes(n)
    if geo.nsec >= 1024:
        put(img, geo, 1024, bytes(128))
    return img


def set_vtoc(img, geo, free):
    p, n = geo.pos(360)
    v = bytearray(n)
    total = 707 if geo.nsec < 1024 else 1010
    v[0] = 2
    v[1:3] = bytes([total & 255, total >> 8])
    nfree = len([s for s in free if 0 <= s < 720])
    v[3:5] = bytes([nfree & 255, nfree >> 8])
    for s in free:
        if s < 720:
            v[10 + s // 8] |= 0x80 >> (s % 8)
    img[p:p + n] = v
    if geo.nsec >= 1024:
        w = bytearray(128)
        w[0:84] = v[16:100]
        for s in range(720, 1024):
            w[84 + (s - 720) // 8] |= 0x80 >> (s % 8)
        w[122:124] = bytes([47, 1])     # 303
        put(img, geo, 1024, w)


def write_chain(img, geo, slot, data, sectors, counts=None, mydos=False, pad=0):
    """store data in the given sectors; counts: bytes per sector (default: full)"""
    i = 0
    for k, s in enumerate(sectors):
        p, n = geo.pos(s)
        c = counts[k] if counts else min(n - 3, len(data) - i)
        nxt = sectors[k + 1] if k + 1 < len(sectors) else 0
        b = bytearray([pad]) * n
        b[0:c] = data[i:i + c]
        if mydos:
            b[n - 3] = nxt >> 8
        else:
            b[n - 3] = (slot << 2) | (nxt >> 8)
        b[n - 2] = nxt & 255
        b[n - 1] = c
        img[p:p + n] = b
        i += c
    assert i == len(data), (i, len(data))


def set_entry(img, geo, slot, flag, count, start, base, ext):
    p = geo.slot_pos(slot)
    img[p:p + 16] = bytes([flag, count & 255, count >> 8, start & 255, start >> 8]) + base + ext


def build(geo, files, free=None, fill=0):
    """files: list of dict(slot, name, data, sectors, flag=0x42, counts=None)
    plus deleted entries dict(slot, name, flag=0x80).  free: the set of free
    sectors (default: everything not used)."""
    img = blank(geo, fill)
    used = set()
    for f in files:
        base, ext = name83(f["name"])
        flag = f.get("flag", 0x42)
        secs = f.get("sectors", [])
        set_entry(img, geo, f["slot"], flag, f.get("count", len(secs)), secs[0] if secs else f.get("start", 0), base, ext)
        if secs and not flag & 0x80:
            write_chain(img, geo, f["slot"], f["data"], secs, f.get("counts"), bool(flag & 4), f.get("pad", 0))
            used |= set(secs)
    if free is None:
        free = set(range(720)) - geo.system - used
    set_vtoc(img, geo, free)
    return bytes(img)


def decode(raw, geo):
    """-> (entries, bitmap(set of free), nfree) ; entries: list of dict for every
    slot up to the first never-used one (flag 0)"""
    entries = []
    for slot in range(64):
        p = geo.slot_pos(slot)
        e = bytes(raw[p:p + 16])
        if e[0] == 0:
            break
        entries.append({"slot": slot, "flag": e[0], "count": e[1] | e[2] << 8, "start": e[3] | e[4] << 8,
                        "base": e[5:13], "ext": e[13:16], "raw": e,
                        "name": display(e[5:13], e[13:16]),
                        "live": bool(e[0] & 0x40) and not e[0] & 0x80})
    v = geo.sec(raw, 360)
    free = set()
    for s in range(720):
        if v[10 + s // 8] & (0x80 >> (s % 8)):
            free.add(s)
    return entries, free, v[3] | v[4] << 8


def chain(raw, geo, e):
    """follow the links of entry e -> (data, sectors); raises ValueError if broken"""
    data = bytearray()
    secs = []
    s = e["start"]
    while s:
        if s in secs:
            raise ValueError("%s: sector %d linked twice" % (e["name"], s))
        if not 1 <= s <= geo.nsec:
            raise ValueError("%s: link to sector %d" % (e["name"], s))
        b = geo.sec(raw, s)
        if e["flag"] & 4:
            nxt = b[-3] << 8 | b[-2]
        else:
            if b[-3] >> 2 != e["slot"]:
                raise ValueError("%s: sector %d carries file number %d instead of %d" % (e["name"], s, b[-3] >> 2, e["slot"]))
            nxt = (b[-3] & 3) << 8 | b[-2]
        if b[-1] > len(b) - 3:
            raise ValueError("%s: sector %d claims %d bytes" % (e["name"], s, b[-1]))
        data += b[:b[-1]]
        secs.append(s)
        s = nxt
    return bytes(data), secs


def fsck(raw, geo, reserved=()):
    """-> (files {slot: (entry, data, sectors)}, free, problems)"""
    entries, free, nfree = decode(raw, geo)
    files = {}
    owner = {}
    problems = []
    for e in entries:
        if not e["live"]:
            if e["flag"] & 0x80 and e["flag"] & 0x40:
                problems.append("entry %d is both deleted and in use" % e["slot"])
            continue
        try:
            data, secs = chain(raw, geo, e)
        except ValueError as x:
            problems.append(str(x))
            continue
        if e["count"] != len(secs):
            problems.append("%s: entry says %d sectors, chain has %d" % (e["name"], e["count"], len(secs)))
        for s in secs:
            if s in geo.system or s in reserved:
                problems.append("%s uses system sector %d" % (e["name"], s))
            if s in owner:
                problems.append("sector %d belongs to %s and %s" % (s, owner[s], e["name"]))
            owner[s] = e["name"]
            if s in free:
                problems.append("sector %d of %s is marked free" % (s, e["name"]))
        files[e["slot"]] = (e, data, secs)
    for s in sorted(free & geo.system):
        problems.append("system sector %d is marked free" % s)
    lost = set(range(720)) - free - geo.system - set(owner) - set(reserved)
    if lost:
        problems.append("sectors lost (neither free nor used): %s" % sorted(lost)[:10])
    if nfree != len(free):
        problems.append("free sector count is %d, bitmap has %d" % (nfree, len(free)))
    return files, free, problems
