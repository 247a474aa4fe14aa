"""C01 write/read round trip"""
from fscheck import FAMILIES, run_case, tagged, lengths, trees, types, payload, seqs, big, removals, contents  # noqa: F401

PROPERTY = "C01"
LEVEL = "model_checking"
TITLE = "a file written to a disk image reads back exactly"
relevant = tagged("C01")
RULE = ("every listed (disk, length) and every operation sequence of the stated depth is executed on the real image "
        "object; the file is read back through the library (live and reopened) and by an independent decoder of the raw bytes; "
        "states = distinct raw disk contents reached")
BOUNDS = {
    "quick": "every length 0..3 sectors+2 on SD/DD/DOS33 blank and fragmented disks, 0..2 sectors+2 on the other layouts, "
             "+-1 around multiples up to the whole disk and around track/sector list boundaries; all DOS 3.3 types; all "
             "sequences of depth 2 over 8 operations on 9 disks; depth 3 over files of 122-490 sectors (SD, DOS 3.3); every file of 10 fixtures deleted alone, in order, in reverse and around an add; 9 kinds of contents (zeros, 255, blanks, line ends, zero or 255 halves, markers) x 11 lengths on all layouts",
    "thorough": "every length 0..8 sectors+2 on all layouts, all sequences of depth 3 (4 on SD) on 20 disks",
}
ASSUMPTIONS = ["file content is one deterministic byte pattern per (name, length): the code never branches on payload bytes of file sectors",
               "reference decoders in mc/atari_ref.py and mc/dos33_ref.py are correct"]


def around(ns, p):
    return [n * p + d for n in ns for d in (-1, 0, 1)]


def plan(tier):
    out = []
    out += big("SD", 3) + big("DOS33", 3) + removals()
    deep = tier == "thorough"
    k = 8 if deep else 3
    for g in ("SD", "DD", "DOS33"):
        p = payload(g)
        out += lengths(g, "blank", range(0, k * p + 3))
        out += lengths(g, "frag", range(0, p + 3) if not deep else range(0, k * p + 3))
        if g == "DOS33":
            out += lengths(g, "blank", around([4, 5, 10, 100, 120, 121, 122, 123, 124, 243, 244, 245, 246, 365, 366, 367, 488, 489, 490, 491, 492], p), 4)
            out += lengths(g, "frag", around([121, 122, 123, 200, 246, 247, 248], p), 4)
        else:
            out += lengths(g, "blank", around([4, 5, 10, 100, 255, 256, 257, 359, 360, 511, 512, 513, 706, 707, 708], p), 4)
            out += lengths(g, "frag", around([2, 3, 100, 255, 256, 257, 353, 354, 355], p), 4)
    for g in ("ED", "DDF", "XSD", "XED", "XDD"):
        p = payload(g)
        out += lengths(g, "blank", range(0, 2 * p + 3) if not deep else range(0, k * p + 3))
        out += lengths(g, "tight", range(4 * p, 5 * p + 2, 1 if deep else 7))
        out += lengths(g, "blank", around([257, 359, 707, 708], p), 4)
    out += types()
    for g in ("SD", "ED", "DD", "DDF", "XSD", "XED", "XDD", "DOS33"):
        p = payload(g)
        out += contents(g, (1, 2, 3, p - 1, p, p + 1, 2 * p, 3 * p - 2, 3 * p + 9) + tuple(range(4, p - 1) if deep else (100, 128)))
    for g in ("SD", "ED", "DD", "DDF", "XDD", "DOS33"):
        out += trees(g, "tight", 3 if deep else 2, split=1 if deep else 0, full=deep)
    for n in ("SD-foreign", "SD-dir2", "DOS33-names"):
        g, w = n.split("-")
        out += trees(g, w, 3 if deep else 2, split=1 if deep else 0)
    # whole disk written file by file, every file read back at the end
    for g in ("SD", "DD", "DOS33"):
        p = payload(g)
        n = 26 if g == "DOS33" else 44
        ops = [["add", "N%d" % i, 16 * p - i, i] for i in range(n)]
        out += [("tree", {"fixture": g + "-blank", "alphabet": ops, "depth": n, "prefix": ops, "full": True})]
        ops = ops[:12]
        mix = []
        for i in range(12):
            mix.append(ops[i])
            if i % 3 == 2:
                mix.append(["del", "N%d" % (i - 1)])
        out += seqs([(g + "-frag", mix), (g + "-blank", mix)])
    if deep:
        out += trees("SD", "tight", 4, split=2)
    return out
