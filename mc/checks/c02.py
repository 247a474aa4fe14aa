"""C02 frame: adding/deleting one file leaves everything else untouched"""
from fscheck import FAMILIES, run_case, tagged, trees, slots, seqs, payload, alphabet, flags, removals  # noqa: F401

PROPERTY = "C02"
LEVEL = "model_checking"
TITLE = "adding or deleting a file leaves every other file and byte untouched"
relevant = tagged("C02")
RULE = ("every operation sequence of the stated depth from every listed starting disk; after each step the raw image is diffed "
        "byte by byte against the allowed frame (own directory entry, own sectors, allocation map) and all other files are "
        "decoded independently; states = distinct raw disk contents reached")
BOUNDS = {
    "quick": "all sequences (one half of the images being parts of larger data with marks and comments) of depth 3 over 8 operations from 16 starting disks (foreign MyDOS/DOS2.5/locked entries, fragmented, nearly full disk and directory); every slot of a full directory deleted and refilled; a neighbour with every flag (Atari) or type (DOS 3.3) byte; every file of 10 fixtures deleted",
    "thorough": "depth 4 from the small disks and depth 3 from 20; pairs of slots",
}
ASSUMPTIONS = ["reference decoders in mc/atari_ref.py and mc/dos33_ref.py are correct",
               "bytes of the deleted file's own sectors and of its dead directory entry may change"]


def plan(tier):
    deep = tier == "thorough"
    out = []
    out += flags("SD") + flags("DOS33") + removals()
    if deep:
        out += flags("DD") + flags("ED")
    for n in ("SD-foreign", "SD-tight", "DD-foreign", "DD-tight", "SD-dir2", "ED-tight", "XSD-frag"):
        g, w = n.split("-")
        out += trees(g, w, 4 if deep else 3, split=2 if deep else 1)
    for n in ("DOS33-names", "DOS33-tight", "DOS33-shortcat2"):
        g, w = n.split("-")
        p = payload(g)
        out += trees(g, w, 4 if deep else 3, split=2)
    for g in ("SD", "DD", "ED", "XDD", "DOS33"):
        out += trees(g, "junk", 3, [["add", "A", 1], ["add", "B", 300], ["del", "A"], ["del", "KEEP" if g == "DOS33" else "KEEP.DAT"], ["shred", 7]], split=1)
    p = payload("DOS33")
    small = [["add", "A", 1], ["del", "A"], ["add", "B.X", p + 1, 0, "T"], ["del", "FILE003"], ["del", "FILE006"]]
    out += trees("DOS33", "cat2", 3, small, split=1)
    small = [["add", "A", 1], ["del", "A"], ["add", "B.X", 126], ["del", "F03.X"], ["del", "F06.X"], ["del", "F40.X"]]
    for g in ("SD", "DD", "DDF", "XDD", "ED"):
        out += trees(g, "dir2", 3, small, split=1)
    for n in ("SD-foreign", "DOS33-names"):
        g, w = n.split("-")
        dels = [["del", x] for x in (("KEEP.DAT", "MY.DAT", "W8.BIT") if g == "SD" else ("C", "HI\x04\x08", "TEXT UNLOCKED", "OTHER", "ABCDEFGHIJKLMNOPQRSTUVWXYZ1234"))]
        out += trees(g, w, 4 if deep else 3, dels + [["add", "N", 5], ["add", "M", 300]], split=1, full=True)
    for g in ("SD", "DD") + (("DOS33",) if deep else ()):
        out += slots(g, deep)
    out += slots("DOS33")[::1 if deep else 3]
    if deep:
        for g in ("SD", "ED", "DD", "DDF", "XSD", "XED", "XDD", "DOS33"):
            for w in ("frag", "blank"):
                out += trees(g, w, 3, split=1)
    return out
