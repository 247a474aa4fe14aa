"""C06 shred"""
from fscheck import FAMILIES, run_case, tagged, trees, seqs, payload, ALL, data_sectors  # noqa: F401

PROPERTY = "C06"
LEVEL = "model_checking"
TITLE = "shredding overwrites exactly the free sectors"
relevant = tagged("C06", "C02", "C03")
RULE = ("shred after every operation prefix and on every single-free-sector disk; the raw image must equal the one computed by "
        "the independent decoder (free sectors filled, all else identical); states = distinct raw disk contents reached")
BOUNDS = {
    "quick": "all depth-3 sequences over add/delete/shred on 8 layouts; every sector as the only free one (SD, DOS 3.3; every 3rd DD); fill values 0, 1, 0x5a, 0xff; all fill values on one disk",
    "thorough": "depth 4; every sector on all layouts; pairs",
}
ASSUMPTIONS = ["free = marked free in the disk's allocation bitmap (the main one, for enhanced density)"]


def alpha(g):
    p = payload(g)
    return [["shred", 0], ["add", "A", 2 * p + 1], ["del", "A"], ["shred", 0xff], ["add", "B", 1], ["del", "B"]]


def plan(tier):
    deep = tier == "thorough"
    out = []
    for g in ALL:
        for w in ("blank", "tight", "frag") + (("foreign",) if g != "DOS33" else ("names",)):
            out += trees(g, w, 4 if deep else (3 if w in ("tight", "foreign", "names") else 2), alpha(g), split=1 if deep else 0)
    for g in ("SD", "DD", "DOS33") if not deep else ALL:
        secs = data_sectors(g)[::1 if deep or g != "DD" else 3]
        items = [("%s-only:%d" % (g, s), [["shred", 0x5a]]) for s in secs]
        items += [("%s-only:%d,%d" % (g, s, secs[(i * 7 + 31) % len(secs)]), [["shred", 0], ["add", "A", 0, 0], ["shred", 1]])
                  for i, s in enumerate(secs) if secs[(i * 7 + 31) % len(secs)] != s]
        out += seqs(items, 60)
    out += seqs([("SD-tight", [["shred", v]]) for v in range(256)], 64)
    out += seqs([("DOS33-tight", [["shred", v]]) for v in range(0, 256, 5)], 64)
    out += seqs([("%s-full" % g, [["shred", 0x11], ["del", "F03.X" if g != "DOS33" else "FILE003"], ["shred", 0x22]]) for g in ALL], 4)
    return out
