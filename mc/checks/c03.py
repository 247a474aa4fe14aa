"""C03 allocation soundness"""
from fscheck import FAMILIES, run_case, tagged, trees, positions, closures, payload, big, removals  # noqa: F401

PROPERTY = "C03"
LEVEL = "model_checking"
TITLE = "allocation structures stay consistent after every operation"
relevant = tagged("C03")
RULE = ("reachability of raw disk states to a fixpoint (each transition reopens the image and runs one real operation), plus "
        "every single free-sector position; every state is checked with an independent fsck; states = distinct disk states "
        "(content of free sectors ignored, nothing reads it)")
BOUNDS = {
    "quick": "disks with arbitrary unused bytes; complete reachable state space of disks with 2-4 free sectors (5 for DOS 3.3) under add/delete of 2 names x sizes 0,1,2 sectors; every sector of SD, DD and DOS 3.3 disks as the only free one and as part of a pair; all depth-3 sequences on fragmented disks and over files of 122-490 sectors; every file of 10 fixtures deleted",
    "thorough": "3 names, all layouts, depth-4 sequences",
}
ASSUMPTIONS = ["reference fsck in mc/atari_ref.py and mc/dos33_ref.py is correct",
               "free-sector content is not part of the state: no operation reads it (checked by C01/C02 on disks with non-zero filler)"]


def plan(tier):
    deep = tier == "thorough"
    out = []
    out += big("SD", 3) + big("DOS33", 3) + big("DD", 4 if deep else 2) + removals()
    for g in ("SD", "DD"):
        out += closures(g, "tight3", ("A", "B"))
        out += closures(g, "tight4", ("A", "B"), (0, 1, 3))
    for g in ("ED", "DDF", "XSD", "XDD"):
        out += closures(g, "tight2", ("A", "B"))
    out += closures("DOS33", "tight4", ("A", "B"), (0, 1, 2))
    out += closures("DOS33", "tight6", ("A", "B"), (1, 3))
    out += positions("SD") + positions("DD", 1 if deep else 3) + positions("DOS33")
    for g in ("SD", "DD", "DOS33"):
        out += trees(g, "frag", 4 if deep else 3, split=2 if deep else 1)
    for n in ("SD-foreign", "SD-dir2", "ED-tight", "DOS33-names", "DOS33-shortcat1"):
        g, w = n.split("-")
        out += trees(g, w, 3, split=1)
    for g in ("SD", "DD", "ED", "XDD", "DOS33"):
        out += trees(g, "junk", 3, [["add", "A", 1], ["add", "B", 300], ["del", "A"], ["del", "KEEP" if g == "DOS33" else "KEEP.DAT"], ["missing", "Q"]], split=1)
    if deep:
        for g in ("ED", "DDF", "XSD", "XED", "XDD"):
            out += positions(g)
            out += closures(g, "tight4", ("A", "B"))
        for g in ("SD", "DD"):
            out += closures(g, "tight3") + closures(g, "tight5", ("A", "B", "C"), (1, 2))
        out += closures("DOS33", "tight5") + closures("DOS33", "tight8", ("A", "B", "C"), (1, 2, 3))
        out += closures("DOS33", "shortcat2", ("A", "B", "C"), (1, 2))
    return out
