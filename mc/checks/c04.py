"""C04 success iff it fits; failures change nothing"""
from fscheck import FAMILIES, run_case, tagged, trees, lengths, payload, seqs, slots, big, removals  # noqa: F401
import fs

PROPERTY = "C04"
LEVEL = "model_checking"
TITLE = "operations succeed exactly when they fit and failures change nothing"
relevant = tagged("C04")
RULE = ("every operation sequence of the stated depth and every file length around the capacity of each disk; success/failure is "
        "compared with the model (free sectors, directory slots) and a failed operation must leave the raw bytes identical; "
        "states = distinct raw disk contents reached")
BOUNDS = {
    "quick": "disks with 0..10 free sectors (1..13 for DOS 3.3) and with 0..2 free directory entries; lengths at every sector boundary +-1 up to past the capacity; all depth-3 sequences; filling blank disks and directories to capacity and beyond; all depth-3 sequences over files of 122-490 sectors; deletion by name, by entry and through stale or absent entries",
    "thorough": "depth-4 sequences on the same disks, all layouts, all sizes around track/sector-list boundaries",
}
ASSUMPTIONS = ["reference decoders are correct", "a disk with both too little space and a full directory may report either"]


def capacity_lengths(g, ns, deep):
    out = []
    p = payload(g)
    for k in ns:
        sizes = [m * p + d for m in range(0, k + 2) for d in (-1, 0, 1)] + [(k + 1) * p + 50, (k + 30) * p, 900 * p]
        out += lengths(g, "tight%d" % k, sizes)
    return out


def plan(tier):
    deep = tier == "thorough"
    out = []
    out += big("SD", 3) + big("DOS33", 3) + removals()
    for g in ("SD", "DD") if not deep else ("SD", "ED", "DD", "DDF", "XSD", "XED", "XDD"):
        out += capacity_lengths(g, (1, 2, 5, 10), deep)
    out += capacity_lengths("DOS33", (1, 2, 3, 6, 13), deep)
    # more than one track/sector list: 122 data sectors per list
    for k in (122, 123, 124, 125, 126) + ((245, 246, 247, 248) if deep else (247,)):
        secs = [s for s in range(50, 560) if not 272 <= s < 288][:k]
        fxn = "DOS33-only:" + ",".join(map(str, secs))
        out += seqs([(fxn, [["add", "BIG", m * 256 + d, 0], ["add", "SMALL", 1, 0]])
                     for m in range(max(1, k - 4), k + 1) for d in (0, 1)], 4)
    for g in ("SD", "DD", "DOS33"):
        out += trees(g, "tight", 4 if deep else 3, split=2 if deep else 1)
        out += trees(g, "tight2", 3, split=1)
    for n in ("SD-dir0", "SD-dir1", "DD-dir1", "DOS33-shortcat0", "DOS33-shortcat1", "DOS33-shortcat2"):
        g, w = n.split("-")
        out += trees(g, w, 3, split=1)
    small = [["add", "A", 1], ["add", "B", 30 * 256], ["del", "A"], ["del", "FILE006"], ["missing", "NOPE"]]
    out += trees("DOS33", "cat0", 3, small, split=1) + trees("DOS33", "cat1", 3, small, split=1)
    for g in ("SD", "DD", "DOS33"):
        p = payload(g)
        cap = 105 if g == "DOS33" else 64
        fill = [["add", "F%d" % i, 1 + i, 0] for i in range(cap + 2)] + [["del", "F3"], ["del", "F60"], ["add", "X", 2, 0], ["add", "Y", 3, 0], ["add", "Z", 4, 0]]
        bigs = [["add", "G%d" % i, 60 * p, 0] for i in range(14)] + [["del", "G2"], ["add", "H", 61 * p, 0], ["add", "I", 1, 0]]
        out += seqs([(g + "-blank", fill)], 1) + seqs([(g + "-blank", bigs), (g + "-frag", bigs)], 1)
    if deep:
        for g in ("ED", "DDF", "XSD", "XED", "XDD"):
            out += trees(g, "tight", 3, split=1) + trees(g, "dir1", 3, split=1)
    return out
