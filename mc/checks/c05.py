"""C05 directory semantics"""
from fscheck import FAMILIES, run_case, tagged, trees, names, slots, types, seqs, payload, flags, tombs, removals  # noqa: F401

PROPERTY = "C05"
LEVEL = "model_checking"
TITLE = "the directory lists exactly the files on the disk, under their names"
relevant = tagged("C05")
RULE = ("every sequence/name listed below is executed on the real image; listing, lookup and the stored entries are compared with "
        "a model (name -> data) and with an independent directory decoder; states = distinct raw disk contents reached")
BOUNDS = {
    "quick": "names: every 8.3 shape and every filename character in three positions (Atari), every length 1..33 and every printable character in four positions (DOS 3.3), every DOS 3.3 type; every slot of a full directory deleted and refilled; depth-3 sequences on nearly full directories; directories filled to capacity; a neighbour with every flag or type byte; deleted entries of 8 (DOS 3.3: 7) kinds of contents before and between files; every file of 10 fixtures deleted by name and by entry, and deleted entries not deleted again",
    "thorough": "depth-4 sequences, pairs of slots, all layouts",
}
ASSUMPTIONS = ["names are chosen from the characters the respective DOS allows; duplicate names are outside the alphabet"]


def plan(tier):
    deep = tier == "thorough"
    out = names("SD") + names("DOS33") + types()
    out += flags("SD") + flags("DOS33") + removals()
    for g in ("SD", "DD", "ED", "DOS33"):
        out += tombs(g)
    for g in ("SD", "DD", "DOS33"):
        out += slots(g, deep)
    for n in ("SD-dir2", "DD-dir2", "SD-foreign"):
        g, w = n.split("-")
        out += trees(g, w, 4 if deep else 3, split=2 if deep else 1)
    out += trees("DOS33", "names", 4 if deep else 3, split=2) + trees("DOS33", "shortcat2", 4 if deep else 3, split=2)
    small = [["add", "A", 1], ["add", "B", 1, 0, "T"], ["del", "A"], ["del", "FILE006"], ["missing", "NOPE"]]
    out += trees("DOS33", "cat2", 3, small, split=1)
    for g in ("SD", "DD", "DOS33") if not deep else ("SD", "DD", "DOS33", "ED", "DDF", "XDD"):
        cap = 105 if g == "DOS33" else 64
        fill = [["add", "F%d" % i, 1 + i, 0] for i in range(cap + 1)] + [["del", "F%d" % i] for i in range(0, cap, 7)] + [["add", "N%d" % i, i, 0] for i in range(20)]
        out += seqs([(g + "-blank", fill)], 1)
    if deep:
        for g in ("ED", "DDF", "XSD", "XED", "XDD"):
            out += names(g)[:4] + slots(g) + trees(g, "dir2", 3, split=1)
    return out
