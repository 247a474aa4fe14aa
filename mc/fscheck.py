"""Exploration families shared by the file-level properties C01-C06."""
import fs
from core import FILLS, chunks

ATARI = ["SD", "ED", "DD", "DDF", "XSD", "XED", "XDD"]
ALL = ATARI + ["DOS33"]


def payload(g):
    return {"SD": 125, "ED": 125, "XSD": 125, "XED": 125, "DD": 253, "DDF": 253, "XDD": 253, "DOS33": 256}[g]


# ------------------------------------------------------------------ families

def fam_lengths(res, args):
    """write one file of every given length; read back live and after reopening"""
    fx = fs.fixture(args["fixture"])
    for n in args["sizes"]:
        ops = [["add", "LEN.DAT" if fx.kind == "atari" else "LEN DAT", n, 0]]
        res.count("traces")
        res.sample({"fixture": fx.name, "ops": ops})
        res.case({"fixture": fx.name, "ops": ops}, fs.run_sequence, fx, ops, res)


def fam_seqs(res, args):
    """explicit list of operation sequences"""
    for fixture, ops in args["seqs"]:
        fx = fs.fixture(fixture)
        res.count("traces")
        res.sample({"fixture": fixture, "ops": ops})
        res.case({"fixture": fixture, "ops": ops}, fs.run_sequence, fx, ops, res)


def fam_tree(res, args):
    fx = fs.fixture(args["fixture"])
    fs.tree(res, fx, args["alphabet"], args["depth"], args.get("prefix", ()), args.get("full", False))


def fam_closure(res, args):
    fx = fs.fixture(args["fixture"])
    fs.closure(res, fx, args["alphabet"], args.get("max_states", 100000))


FAMILIES = {"lengths": fam_lengths, "seqs": fam_seqs, "tree": fam_tree, "closure": fam_closure}


def run_case(case):
    fx = fs.fixture(case["fixture"])
    fs.run_sequence(fx, case["ops"], None, case.get("reopen", False), True, 0, case.get("full", False))


# --------------------------------------------------------------------- plans

def lengths(g, what, sizes, chunk=60):
    return [("lengths", {"fixture": "%s-%s" % (g, what), "sizes": c}) for c in chunks(sorted(set(s for s in sizes if s >= 0)), chunk)]


def seqs(items, chunk=40):
    return [("seqs", {"seqs": c}) for c in chunks(items, chunk)]


def alphabet(g, extra=()):
    p = payload(g)
    return [["add", "A", 1], ["add", "B.X", p + 1], ["add", "C", 3 * p], ["del", "A"], ["del", "C"],
            ["missing", "NOPE"], ["add", "D.DAT", 0], ["add", "EE", 6 * p]] + list(extra)


def trees(g, what, depth, alpha=None, split=1, full=False):
    """one task per first operation(s)"""
    alpha = alpha or alphabet(g)
    fx = "%s-%s" % (g, what)
    out = []
    if split == 0:
        return [("tree", {"fixture": fx, "alphabet": alpha, "depth": depth, "full": full})]
    fxo = fs.fixture(fx)

    def rec(model, pre):
        if len(pre) == split:
            out.append(("tree", {"fixture": fx, "alphabet": alpha, "depth": depth, "prefix": pre, "full": full}))
            return
        for op in alpha:
            if model.enabled(op):
                m = model.clone()
                if m.expect(op) is None:
                    m.apply(op)
                rec(m, pre + [op])
    rec(fs.initial(fxo), [])
    return out


def closures(g, what, names=("A", "B", "C"), sizes=(0, 1, 2), max_states=100000):
    p = payload(g)
    alpha = []
    for n in names:
        for k in sizes:
            alpha.append(["add", n, k * p, k])
        alpha.append(["del", n])
    return [("closure", {"fixture": "%s-%s" % (g, what), "alphabet": alpha, "max_states": max_states})]


def data_sectors(g):
    if g == "DOS33":
        return [s for s in range(48, 560) if s not in fs.D.G33.system]
    return [s for s in range(4, 720) if not 360 <= s <= 368]


def positions(g, step=1, pairs=True):
    """every sector as the only free one, and as one of a pair: the file must go
    exactly there, bigger ones must be refused and change nothing"""
    p = payload(g)
    secs = data_sectors(g)
    items = []
    two = g == "DOS33"      # a DOS 3.3 file needs a track/sector list too
    for i in range(0, len(secs), step):
        s = secs[i]
        t = secs[(i + 1) % len(secs)]
        u = secs[(i * 7 + 100) % len(secs)]
        if not two:
            items.append(("%s-only:%d" % (g, s), [["add", "BIG", p + 1, 0], ["add", "ONE", p, 0], ["add", "MORE", 0, 0], ["del", "ONE"], ["add", "TWO", 5, 1]]))
        if pairs and len({s, t, u}) == 3:
            items.append(("%s-only:%d,%d" % (g, s, u), [["add", "BIG", 2 * p + 1, 0], ["add", "ONE", (p if two else 2 * p), 0], ["add", "MORE", 0, 0], ["del", "ONE"], ["add", "TWO", 5, 1]]))
    return seqs(items)


def slots(g, pairs=False):
    """full directory: delete each entry (and pairs), add into the hole"""
    fx = fs.fixture("%s-full" % g)
    names = sorted(fs.initial(fx).files)
    items = []
    for i, n in enumerate(names):
        items.append(("%s-full" % g, [["del", n], ["add", "NEW", 30, 0], ["missing", n], ["add", "NOROOM", 1, 0]]))
        if pairs:
            m = names[(i + 11) % len(names)]
            items.append(("%s-full" % g, [["del", n], ["del", m], ["add", "NEW", 30, 0], ["add", "NEW2", 31, 0], ["add", "NOROOM", 1, 0]]))
    return seqs(items, 12)


def atari_names():
    out = []
    letters = "ABCDEFGHIJKLMNOP"
    for b in range(1, 9):
        for e in range(0, 4):
            out.append(letters[:b] + ("." + letters[8:8 + e] if e else ""))
    out += ["LONGERNAME.DAT", "A.LONGEXT", "LONGERNAME", "ABCDEFGHI.TXTX", "A1B2C3.D4", "X.1"]
    out += ["A B.C D", "A. B", " A.B", "A.B.C", "AB.C.", "ABC.D C"]
    for c in [chr(x) for x in range(0x21, 0x7f) if x != 0x2e]:
        out += [c + "B.C", "AB" + c + ".C", "ABCDEFG" + c + "." + "XY" + c]
    return sorted(set(out))


def dos33_names():
    base = "ABCDEFGHIJKLMNOPQRSTUVWXYZ1234567"
    out = [base[:n] for n in range(1, 34)]
    out += ["A" + "B" * (n - 1) for n in (28, 29, 30)]
    for c in range(0x21, 0x7f):
        c = chr(c)
        out += [c + "X", "AB" + c, "AB" + c + "CD", "A" * 29 + c]
    out += [" LEADING", "TWO WORDS", "A  B", "A B C D E F G H I J K L M N O"]
    return sorted(set(out))


def names(g):
    items = []
    for n in (dos33_names() if g == "DOS33" else atari_names()):
        fx = "%s-%s" % (g, "names" if g == "DOS33" else "foreign")
        shown = fs.fixture(fx).shown(n)
        items.append((fx, [["add", n, 20, 0], ["del", shown], ["add", n, 9, 1]]))
    return seqs(items)


def types():
    items = []
    for t in fs.FTYPES:
        for n in (0, 1, 256, 257):
            items.append(("DOS33-names", [["add", "TYPE", n, 0, t], ["add", "TYPE2", 3, 0, "T"], ["del", "TYPE"], ["add", "TYPE3", 3, 0, t]]))
    return seqs(items, 8)


def flags(g, step=1):
    """a neighbour with every possible flag/type byte must be left alone and
    listed right"""
    items = []
    if g == "DOS33":
        for ty in range(0, 256, step):
            items.append(("DOS33-type:%d" % ty, [["add", "NEW", 300, 0], ["del", "HELLO"], ["del", "TYPED"], ["add", "AGAIN", 3, 0, "T"]]))
    else:
        for fl in range(1, 256, step):
            if fl & 0xc0 == 0xc0:
                continue    # in use and deleted: no DOS writes that
            items.append(("%s-flag:%d" % (g, fl), [["add", "NEW.X", 140, 0], ["del", "KEEP.DAT"], ["add", "AGAIN", 3, 0], ["del", "FLAG.DAT"], ["add", "MORE", 4, 0]]))
    return seqs(items)


def contents(g, lens):
    """data that a careless program might strip or stop at"""
    items = []
    for k in FILLS:
        for n in lens:
            items.append((g + "-tight", [["add", "A", n, k], ["add", "B", 1, k], ["del", "A"], ["add", "A", n // 2, k]]))
    return seqs(items, 12)


def tombs(g):
    """deleted entries with arbitrary contents in front of and between files"""
    kinds = fs.D_TOMBS if g == "DOS33" else fs.A_TOMBS
    seq = [["add", "NEW", 140, 0], ["add", "NEW2", 1, 0], ["add", "NEW3", 0, 0], ["del", "NEW2"], ["del", "LAST" if g == "DOS33" else "LAST.DAT"], ["add", "MORE", 3, 0]]
    return seqs([("%s-tomb:%s" % (g, k), seq[i:]) for k in sorted(kinds) for i in (0, 4)], 4)


def big(g, depth, split=1):
    """files that take a good part of the disk"""
    if g == "DOS33":
        a = [["add", "A", 122 * 256], ["add", "B", 122 * 256 + 1], ["add", "C", 245 * 256], ["add", "D", 100],
             ["del", "A"], ["del", "B"], ["del", "C"]]
    else:
        p = payload(g)
        a = [["add", "A", 255 * p], ["add", "B", 256 * p + 1], ["add", "C", 400 * p], ["add", "D", 100],
             ["del", "A"], ["del", "B"], ["del", "C"]]
    return trees(g, "blank", depth, a, split=split)


def removals():
    """delete every file of every fixture, alone and after one add"""
    items = []
    for n in ("SD-tight", "DD-tight", "ED-tight", "SD-frag", "DD-frag", "XDD-tight", "SD-foreign", "DOS33-tight", "DOS33-frag", "DOS33-names"):
        names = sorted(fs.initial(fs.fixture(n)).files)
        for x in names:
            items.append((n, [["del", x], ["add", "NEW", 400, 0]]))
            items.append((n, [["add", "NEW", 100, 0], ["del", x], ["del", "NEW"]]))
            items.append((n, [["add", "NEW", 100, 0], ["del", x, "entry"], ["missing", x, "entry"], ["add", "NEW2", 100, 0], ["missing", x, "entry"],
                              ["del", "NEW", "entry"], ["missing", "NEW", "entry"], ["add", "NEW3", 100, 0], ["missing", "NEW", "entry"], ["del", "NEW3", "entry"]]))
        items.append((n, [["del", x] for x in names]))
        items.append((n, [["del", x] for x in reversed(names)]))
        items.append((n, [["del", x, "entry"] for x in reversed(names)]))
    return seqs(items, 10)


def tagged(*tags):
    want = set(tags) | {"exception", "hang", "memory", "killed"}
    return lambda viol: bool(want & set(viol["tags"]))
