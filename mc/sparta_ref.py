"""Independent encoder for SpartaDOS (SDFS) disk images.

Boot sector: 9 root directory map, 11 sectors, 13 free, 15 bitmaps, 16 first
bitmap, 18/20 first free, 22 volume name, 30 tracks, 31 sector size code
(128: $80, 256: 0, 512: 1), 32 version.  Sector map: next, previous map, then
sector numbers.  Directory: 23 byte entries: status, map sector, length (3),
name (8), extension (3), date, time; the first one describes the directory.
"""
import atari_ref as A

IN_USE, DELETED, SUBDIR, LOCKED = 0x08, 0x10, 0x20, 0x01


def geo(nsec, ssize):
    return A.Geo("S%dx%d" % (nsec, ssize), nsec, ssize, 3 if ssize == 256 else 0)


def put_file(img, g, data, sectors, maps):
    """store data in sectors, listed by the map sectors"""
    per = (g.ssize - 4) // 2
    assert len(maps) == max(1, -(-len(sectors) // per)), (len(maps), len(sectors))
    for i, s in enumerate(sectors):
        p, n = g.pos(s)
        img[p:p + n] = data[i * n:i * n + n].ljust(n, b"\xee")
    for k, m in enumerate(maps):
        p, n = g.pos(m)
        b = bytearray(n)
        nxt = maps[k + 1] if k + 1 < len(maps) else 0
        prv = maps[k - 1] if k else 0
        b[0:4] = bytes([nxt & 255, nxt >> 8, prv & 255, prv >> 8])
        for j, s in enumerate(sectors[k * per:(k + 1) * per]):
            b[4 + 2 * j], b[5 + 2 * j] = s & 255, s >> 8
        img[p:p + n] = b


def entry(status, start, length, base, ext, date=(1, 2, 90), time=(3, 4, 5)):
    return bytes([status, start & 255, start >> 8, length & 255, (length >> 8) & 255, length >> 16]) + \
        base.ljust(8)[:8] + ext.ljust(3)[:3] + bytes(date) + bytes(time)


def build(g, files, order="up", version=0x20, fill=0xe5, extra_entries=b""):
    """files: list of dict(base, ext, data, status=IN_USE).  Deleted entries
    (status without IN_USE) get no sectors.  order: how free sectors are dealt
    out: up, down, odd."""
    img = bytearray([fill]) * g.size
    img[0:16] = A.atr_header(g.size - 16, g.ssize)
    bitmap_secs = -(-(g.nsec + 1) // (8 * g.ssize))
    pool = list(range(4 + bitmap_secs, g.nsec + 1))
    if order == "down":
        pool.reverse()
    elif order == "odd":
        pool = pool[::2] + pool[1::2]
    per = (g.ssize - 4) // 2

    def take(n):
        nonlocal pool
        r, pool = pool[:n], pool[n:]
        assert len(r) == n, "disk full"
        return r
    entries = []
    root_len = 23 * (len(files) + 1)
    nroot = -(-root_len // g.ssize)
    root_map = take(max(1, -(-nroot // per)))
    root_secs = take(nroot)
    for f in files:
        st = f.get("status", IN_USE)
        if st & IN_USE:
            data = f["data"]
            n = -(-len(data) // g.ssize)
            maps = take(max(1, -(-n // per)))
            if f.get("interleave"):
                secs = take(2 * n)[::2]
            else:
                secs = take(n)
            put_file(img, g, data, secs, maps)
            entries.append(entry(st, maps[0], len(data), f["base"], f["ext"]))
        else:
            entries.append(entry(st, f.get("start", 7), f.get("length", 77), f["base"], f["ext"]))
    root = entry(IN_USE | SUBDIR, 0, root_len, b"MAIN", b"") + b"".join(entries)
    put_file(img, g, root, root_secs, root_map)
    p, n = g.pos(1)
    b = bytearray(n)
    b[0:9] = bytes([0, 3, 0, 0x30, 0, 0x30, 0x4c, 0x80, 0x30])

    def w(o, v):
        b[o], b[o + 1] = v & 255, v >> 8
    w(9, root_map[0])
    w(11, g.nsec)
    w(13, len(pool))
    b[15] = bitmap_secs
    w(16, 4)
    w(18, min(pool) if pool else g.nsec)
    w(20, min(pool) if pool else g.nsec)
    b[22:30] = b"TESTVOL "
    b[30] = 40
    b[31] = {128: 0x80, 256: 0, 512: 1}[g.ssize]
    b[32] = version
    img[p:p + n] = b
    for s in (2, 3):
        p, n = g.pos(s)
        img[p:p + n] = bytes((s + i) & 255 for i in range(n))
    bm = bytearray(bitmap_secs * g.ssize)
    for s in pool:
        bm[s // 8] |= 0x80 >> (s % 8)
    for k in range(bitmap_secs):
        A.put(img, g, 4 + k, bm[k * g.ssize:(k + 1) * g.ssize])
    return bytes(img)
