"""C19 the command line program"""
import contextlib
import functools
import io
import itertools
import os
import re
import shutil
import subprocess
import sys
import tempfile
import zlib

import atari_ref as A
from checks import c09, c12
import dos33_ref as D
import exe
import fs
from core import FILLS, Violation, chunks, filled, pattern
from cpu6502 import Crash, boot

import atrcopy

PROPERTY = "C19"
LEVEL = "model_checking"
TITLE = "the command line changes only what was asked for"
RULE = ("every command line is run for real (atrcopy.run with sys.argv) in a scratch directory; the whole tree afterwards must equal what a "
        "small model predicts from the tree before (images are compared through the independent decoders); states = distinct "
        "directory trees, transitions = commands run")
BOUNDS = {
    "quick": "add/delete/extract: all options x all file lists of <= 2 over 9/6/7 names on 4 disk formats; --dry-run in both positions; all command histories of depth <= 2 over 17 commands on 4 formats, depth 3 on one; contents of 9 kinds x 7 lengths added, summed and extracted; create: every template x partial names x existing x force; assemble/boot: all slices over 8 bounds, all address notations, repeated options, object files; read-only commands on 22 kinds of file; the installed script on 12 command lines",
    "thorough": "file lists of <= 3, histories of depth 3 on all formats (4 on one)",
}
ASSUMPTIONS = [
    "the operating system's own reads and writes succeed",
    "image files are not compressed (compressed containers are read only)",
    "an existing image is not passed to the boot command without --force, and two files of one command do not differ only in characters the disk format cannot store",
]

IMG = {"SD": "d.atr", "ED": "d.atr", "DD": "d.atr", "DOS33": "d.dsk"}
DTYPES = {"T": 0, "I": 1, "A": 2, "B": 4, "S": 8, "R": 16, "a": 32, "b": 64}


# ------------------------------------------------------------- the sandbox

class Tree:
    """scratch directory; everything below root is watched, commands run in root/o/w"""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="v19-", dir="/tmp")
        self.cwd = os.path.join(self.root, "o", "w")
        os.makedirs(self.cwd)
        self.now = {}

    def close(self):
        os.chdir("/")
        shutil.rmtree(self.root, ignore_errors=True)

    def set(self, files):
        """files: {path relative to cwd: bytes, or None for a directory}"""
        if self.now == files:
            return
        for p in sorted(self.now, reverse=True):
            if p not in files:
                q = os.path.join(self.cwd, p)
                if self.now[p] is None:
                    shutil.rmtree(q, ignore_errors=True)
                elif os.path.exists(q):
                    os.remove(q)
                q = os.path.dirname(q)
                while q != self.cwd and q.startswith(self.cwd) and not os.listdir(q):
                    os.rmdir(q)
                    q = os.path.dirname(q)
        for p in sorted(files):
            q = os.path.join(self.cwd, p)
            if files[p] is None:
                os.makedirs(q, exist_ok=True)
            elif self.now.get(p) != files[p]:
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, "wb") as fh:
                    fh.write(files[p])
        self.now = dict(files)

    def get(self):
        out = {}
        for d, dirs, names in os.walk(self.root):
            rel = os.path.relpath(d, self.cwd)
            if rel not in (".", "..", "../..") and not names and not dirs:
                out[os.path.normpath(rel)] = None
            for n in names:
                with open(os.path.join(d, n), "rb") as fh:
                    out[os.path.normpath(os.path.join(rel, n))] = fh.read()
        self.now = dict(out)
        return out


def command(argv):
    """-> (error or None, output)"""
    out = io.StringIO()
    err = None
    old = sys.argv
    sys.argv = ["atrcopy"] + list(argv)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            atrcopy.run()
    except SystemExit as e:
        if e.code:
            err = e
    except Exception as e:
        err = e
    finally:
        sys.argv = old
    return err, out.getvalue()


# ---------------------------------------------------------------- the model

def argv(c, img):
    g = []
    if c.get("verbose"):
        g.append("-v")
    if c.get("dry"):
        g.append("--dry-run")
    a = ([img] + g) if c.get("after", True) else (g + [img])
    if c["cmd"] is not None:
        a.append(c.get("alias") or c["cmd"])
    a += c.get("opts", [])
    return a + c.get("files", [])


def listing(fx, raw, what):
    files, free, problems = fx.fsck(raw)
    if problems:
        raise Violation("%s: image is damaged: %s" % (what, problems[0]))
    out = {}
    for s in sorted(files):
        e, data, secs = files[s]
        locked = bool(e["flag"] & 0x20) if fx.kind == "atari" else e["locked"]
        ty = (e["flag"] & ~0x20) if fx.kind == "atari" else e["type"]
        out[e["name"]] = (ty, locked, data, len(secs))
    return out, free


def predict_image(fx, raw, c, world):
    """-> (ok, files after the command, whether anything was written or deleted)"""
    files, free = listing(fx, raw, "before")
    nfree = len(free)
    ents = fx.entries(raw)
    slots = len(ents)
    holes = sum(1 for e in ents if (e["flag"] & 0x80 if fx.kind == "atari" else e["deleted"]))
    force = "-f" in c.get("opts", []) or "--force" in c.get("opts", [])
    new = dict(files)
    touched = False
    if c["cmd"] == "delete":
        for n in c["files"]:
            if n in new and (force or not new[n][1]):
                nfree += new.pop(n)[3]
        return True, new, len(new) != len(files)
    ty = 0x42 if fx.kind == "atari" else DTYPES["B"]
    items = []
    if c["cmd"] == "add":
        if fx.kind != "atari" and "-t" in c.get("opts", []):
            ty = DTYPES[c["opts"][c["opts"].index("-t") + 1]]
        for f in c["files"]:
            items.append((os.path.basename(f), world.get(os.path.normpath(f))))
    else:
        items.append((c["out"], c["data"]))
    for name, data in items:
        if data is None:
            return False, files, False
        n = fx.shown(name)
        if n in new:
            if not force:
                continue
            nfree += new.pop(n)[3]
            holes += 1
        need = fx.need(len(data))
        if need > nfree or (slots >= fx.capacity and not holes):
            return False, files, False
        nfree -= need
        if holes:
            holes -= 1
        else:
            slots += 1
        new[n] = (ty, False, fx.readback(data), need)
        touched = True
    return True, new, touched


def diff(a, b):
    for p in sorted(set(a) | set(b)):
        if a.get(p, 0) != b.get(p, 0):
            x, y = a.get(p, 0), b.get(p, 0)
            if x == 0:
                return "%s is missing" % p
            if y == 0:
                return "%s appeared" % p
            return "%s changed (%s bytes -> %s bytes)" % (p, x and len(x), y and len(y))
    return None


def judge(fx, img, before, c, after, err, out, root):
    line = " ".join(argv(c, img))
    dry = c.get("dry")
    cmd = c["cmd"]
    same = dict(before)

    def unchanged(what):
        d = diff(same, after)
        if d:
            raise Violation("%r: %s: %s" % (line, what, d))
    if dry:
        if err is not None and not c.get("mayfail") and cmd not in ("add", "assemble"):
            raise Violation("%r fails: %r" % (line, err))
        return unchanged("--dry-run")
    if cmd in (None, "list", "crc", "segments", "vtoc") and "-e" not in c.get("opts", []):
        if err is not None:
            raise Violation("%r fails: %r" % (line, err))
        unchanged("reading")
        files, free = listing(fx, before[img], "before")
        want = [n for n in files if not c.get("files") or n in c["files"]]
        if cmd == "crc" and not c.get("verbose"):
            lines = ["%s: %08x" % (n, zlib.crc32(files[n][2])) for n in want]
            if out.split("\n")[:-1] != lines:
                raise Violation("%r prints %s instead of %s" % (line, out.split("\n")[:3], lines[:3]))
        if cmd in (None, "list"):
            got = [s for s in out.split("\n") if s.startswith("File #")]
            if len(got) != len(want):
                raise Violation("%r lists %d files instead of %d" % (line, len(got), len(want)))
            for s, n in zip(got, want):
                words = n.split(".") if fx.kind == "atari" else [n]
                if any(w not in s for w in words) or (("-c" in c.get("opts", [])) and not s.endswith("%08x" % zlib.crc32(files[n][2]))):
                    raise Violation("%r lists %r for %s" % (line, s, n))
        if cmd == "vtoc" and fx.geo is not None:
            m = re.findall(r"\((\d+) free\)", out)
            if m[-1:] != [str(len(free))]:
                raise Violation("%r says %s free, should be %d" % (line, m, len(free)))
            bits = "".join("".join(b) for b in [re.findall("[01]", r) for r in re.findall(r"track +\d+: +\[+([01 ]*)\]", out)])
            shown = set(i for i, b in enumerate(bits, 1 if fx.kind == "atari" else 0) if b == "1")
            if set(s for s in shown if s < (720 if fx.kind == "atari" else 560)) != free:
                raise Violation("%r shows sectors %s as free" % (line, sorted(shown ^ free)[:5]))
        return
    if cmd == "vtoc":
        if err is not None:
            raise Violation("%r fails: %r" % (line, err))
        raw = bytearray(before[img])
        for s in listing(fx, before[img], "before")[1]:
            a, b = fx.sector_range(s)
            raw[a:b] = bytes(b - a)
        same[img] = bytes(raw)
        return unchanged("shredding")
    if cmd == "extract":
        files, _ = listing(fx, before[img], "before")
        o = c.get("opts", [])
        names = list(files) if "-a" in o else [n for n in c["files"] if n in files]
        for n in names:
            p = n.replace("/", "_")
            if "-l" in o:
                p = p.lower()
            if "-d" in o:
                p = os.path.join(o[o.index("-d") + 1], p)
                same.pop(os.path.dirname(p), None)
            if p.split("/")[-1] in ("..", "."):
                continue
            p = os.path.normpath(p)
            if p in same and "-f" not in o:
                continue
            data = files[n][2]
            if "-t" in o:
                data = bytes({0x7f: 9, 0x9b: 10}.get(b, b) for b in data)
            same[p] = data
        if err is not None:
            raise Violation("%r fails: %r" % (line, err))
        return unchanged("extracting")
    # commands that change the image
    ok, want, touched = predict_image(fx, before[img], c, before)
    if not ok:
        if err is None:
            raise Violation("%r reports no error" % line)
        return unchanged("failed command")
    if err is not None:
        raise Violation("%r fails: %r" % (line, err))
    if not touched:
        return unchanged("nothing to do")
    got = listing(fx, after[img], line)[0]
    if got != want:
        for n in list(want) + list(got):
            if n not in got:
                raise Violation("%r: %s is not on the disk" % (line, n))
            if n not in want:
                raise Violation("%r: %s is on the disk" % (line, n))
            if got[n] != want[n]:
                raise Violation("%r: %s is %s, should be %s" % (line, n, [x if not isinstance(x, bytes) else (len(x), x[:8]) for x in got[n]],
                                                            [x if not isinstance(x, bytes) else (len(x), x[:8]) for x in want[n]]))
    same[img] = after[img]
    if len(after[img]) != len(before[img]):
        raise Violation("%r: image size changed" % line)
    unchanged("other files")


def do(tree, fx, img, c):
    before = dict(tree.now)
    os.chdir(tree.cwd)
    try:
        err, out = command(argv(c, img))
    finally:
        os.chdir("/")
    after = tree.get()
    judge(fx, img, before, c, after, err, out, tree.root)
    return after


# ---------------------------------------------------------------- the worlds

def names(g):
    """existing, locked, new, new"""
    if g == "DOS33":
        return "KEEP", "HELLO", "NEW", "OTHER FILE"
    return "KEEP.DAT", "DOS.SYS", "NEW.DAT", "B"


@functools.lru_cache(None)
def fixture(g):
    """three files (the second locked), eight free sectors, one reusable directory entry; all other sectors are marked used"""
    k, l, n, o = names(g)
    if g == "DOS33":
        geo = D.G33
        s = [x for x in range(48, 560) if x not in geo.system]
        free = [50, 255, 271, 288, 301, 302, 400, 559]
        s = [x for x in s if x not in free]
        raw = D.build([{"slot": 0, "name": l, "type": "A", "locked": True, "data": pattern("f1", 300), "sectors": s[1:3], "ts": s[:1]},
                       {"slot": 1, "name": "OLD", "deleted": True},
                       {"slot": 2, "name": k, "type": "B", "data": pattern("f2", 700), "sectors": s[4:7], "ts": s[3:4]},
                       {"slot": 3, "name": "THIRD", "type": "T", "data": pattern("f3", 256), "sectors": s[8:9], "ts": s[7:8]}], free, fill=0xe5)
        fx = fs.Fixture("DOS33-cli", "dos33", geo, raw, s[9:])
    else:
        geo = A.GEOS[g]
        free = [5, 359, 369, 400, 512, 600, 601, 719]
        s = [x for x in range(1, 720) if x not in geo.system and x not in free]
        p = geo.payload
        raw = A.build(geo, [{"slot": 0, "name": k, "data": pattern("f1", 2 * p + 7), "sectors": s[:3]},
                            {"slot": 1, "name": "OLD.TMP", "flag": 0x80, "count": 2, "start": 50},
                            {"slot": 2, "name": l, "flag": 0x62, "data": pattern("f2", p), "sectors": s[3:4]},
                            {"slot": 3, "name": "THIRD.X", "flag": 0x42, "data": pattern("f3", 3 * p), "sectors": s[4:7]}], set(free), 0xe5)
        fx = fs.Fixture("%s-cli" % g, "atari", geo, raw, s[7:])
    assert not fx.fsck(raw)[2], fx.fsck(raw)[2]
    return fx


def world(g):
    fx = fixture(g)
    k, l, n, o = names(g)
    p = fx.geo.payload
    w = {IMG[g]: fx.raw,
         k: pattern("w" + k, p + 5), l: pattern("w" + l, 2 * p), n: pattern("w" + n, 3 * p - 1), o: b"",
         "big": pattern("big", 9 * p), "half": pattern("half", 5 * p), "sub/%s" % n: pattern("sub", 7), "unrelated": b"x" * 50, "lower.txt": b"ab\x9bc\x7f"}
    return fx, w


def case_cmd(case):
    g = case["g"]
    if case.get("world") == "paths":
        fx, w = path_world(case)
    else:
        fx, w = world(g)
    if "flag" in case:
        raw = bytearray(w[IMG[g]])
        p = fx.geo.slot_pos(0) + 2 if g == "DOS33" else raw.find(b"DOS     SYS") - 5
        raw[p] = case["flag"]
        w[IMG[g]] = bytes(raw)
    w.update({k: (bytes.fromhex(v) if v is not None else None) for k, v in case.get("extra", {}).items()})
    t = Tree()
    try:
        if case.get("world") == "paths":
            fx, w = path_world(case, t)
        t.set(w)
        key = None
        for c in case["cmds"]:
            c = dict(c)
            after = do(t, fx, IMG[g], c)
            key = repr(sorted((k, v and zlib.crc32(v)) for k, v in after.items()))
        return key
    finally:
        t.close()


def path_world(case, t=None):
    """file names on the disk that are paths"""
    root = t.root if t else "/tmp/v19-xxxxxxxx"
    files = [("A/B", 100, "T", False), ("../ESC1", 20, "B", False), (root + "/ESC2", 30, "B", False), ("..", 10, "B", False),
             ("SUB/../../X", 40, "B", False), ("/", 50, "T", False), ("KEEP", 300, "B", False)]
    fx = fs.dos33_fixture("paths", list(range(300, 310)), files)
    return fx, {"d.dsk": fx.raw, "KEEP": b"k", "../ESC0": b"outside", "SUB": None}


# -------------------------------------------------------------- single commands

def singles(tier):
    n = 3 if tier == "thorough" else 2
    out = []
    drys = [{}, {"dry": True}, {"dry": True, "after": False}]
    for g in IMG:
        k, l, new, o = names(g)
        src = [k, new, o, "big", "half", "sub/%s" % new, "missing", "./lower.txt"]
        m = n if g in ("SD", "DOS33") else 2
        for r in range(1, m + 1):
            for fl in itertools.product(src, repeat=r):
                for opts in ([], ["-f"]):
                    for d in drys if r == 1 else drys[:2]:
                        out.append({"g": g, "cmds": [dict({"cmd": "add", "opts": opts, "files": list(fl)}, **d)]})
        for r in range(1, m + 1):
            for fl in itertools.product([k, l, "THIRD" + (".X" if g != "DOS33" else ""), "missing", k.lower()], repeat=r):
                for opts in ([], ["-f"]):
                    for d in drys if r == 1 else drys[:2]:
                        out.append({"g": g, "cmds": [dict({"cmd": "delete", "opts": opts, "files": list(fl)}, **d)]})
        for r in range(1, m + 1):
            for fl in itertools.product([k, l, "THIRD" + (".X" if g != "DOS33" else ""), "missing"], repeat=r):
                for opts in extract_opts():
                    if "-a" not in opts:
                        for d in drys if r == 1 else drys[:1]:
                            out.append({"g": g, "cmds": [dict({"cmd": "extract", "opts": opts, "files": list(fl)}, **d)]})
        for opts in extract_opts():
            for d in drys:
                if "-a" in opts:
                    out.append({"g": g, "cmds": [dict({"cmd": "extract", "opts": opts, "files": []}, **d)]})
        # names that are not quite those of a file
        for nm in (k, l):
            base, dot, ext = nm.partition(".")
            near = {nm[:-1], nm + "X", nm[1:], base, base + dot, dot + ext, nm + ".", nm + " ", "X" + nm, nm + dot + ext, "*", nm[:2] + "*", base[:-1] + "?" + dot + ext, base + " " + dot + ext} - {nm, "", k, l}
            for x in sorted(near):
                for cmd, opts in (("list", []), ("list", ["-c"]), ("crc", []), ("delete", ["-f"]), ("extract", [])):
                    if x.rstrip(".") == nm and cmd in ("delete", "extract"):
                        continue
                    out.append({"g": g, "cmds": [{"cmd": cmd, "opts": opts, "files": [x]}]})
                    out.append({"g": g, "cmds": [{"cmd": cmd, "opts": opts, "files": [x, l if nm == k else k]}]})
        # read only commands
        for cmd, opts, fl in ([(None, [], [])] + [("list", o2, f2) for o2 in ([], ["-c"], ["-m"], ["-g"], ["-c", "-m"]) for f2 in ([], [k], [k, l], ["missing"])] +
                              [("crc", [], f2) for f2 in ([], [k], [k, l], ["missing"])] + [("segments", [], []), ("vtoc", [], []), ("vtoc", ["-e"], [])]):
            for d in drys + [{"verbose": True}, {"verbose": True, "after": False}]:
                out.append({"g": g, "cmds": [dict({"cmd": cmd, "opts": opts, "files": fl}, **d)]})
        for cmd, al in (("list", ["t", "ls", "dir", "catalog"]), ("extract", ["x"]), ("add", ["a"]), ("delete", ["rm", "del"]), ("vtoc", ["v"])):
            for a in al:
                for d in drys[:2]:
                    fl = {"vtoc": [], "add": [new], "delete": [k], "extract": [l]}.get(cmd, [k])
                    opts = {"vtoc": ["-e"]}.get(cmd, [])
                    out.append({"g": g, "cmds": [dict({"cmd": cmd, "alias": a, "opts": opts, "files": fl}, **d)]})
        # contents of all kinds
        p = fixture(g).geo.payload
        for f in FILLS:
            for size in (0, 1, 2, p - 1, p, p + 1, 2 * p + 3):
                cmds = [{"cmd": "add", "opts": [], "files": ["FC"]}, {"cmd": "crc", "opts": [], "files": ["FC"]}]
                cmds += [{"cmd": "extract", "opts": ["-d", "o1"], "files": ["FC"]}, {"cmd": "extract", "opts": ["-d", "o2", "-t"], "files": ["FC"]}]
                out.append({"g": g, "extra": {"FC": filled(f, "fc", size).hex()}, "cmds": cmds})
        # a locked or unlocked file with every other flag
        for fl in ([0x42 | x for x in (0, 1, 8, 9, 0x20, 0x21, 0x28, 0x29)] if g != "DOS33" else [t | x for t in (0, 1, 2, 4, 8, 16, 32, 64) for x in (0, 0x80)]):
            for cmd, opts in (("delete", []), ("delete", ["-f"]), ("extract", []), ("add", []), ("add", ["-f"]), ("list", []), ("crc", [])):
                for d in drys[:2]:
                    out.append({"g": g, "flag": fl, "cmds": [dict({"cmd": cmd, "opts": opts, "files": [l]}, **d)]})
                    out.append({"g": g, "flag": fl, "cmds": [dict({"cmd": cmd, "opts": opts, "files": [k, l] if cmd != "add" else [l, k]}, **d)]})
        if g == "DOS33":
            for t in DTYPES:
                for opts in (["-t", t], ["-f", "-t", t]):
                    for fl in ([new], [k], [l], [new, k]):
                        out.append({"g": g, "cmds": [{"cmd": "add", "opts": opts, "files": fl}]})
    for opts in extract_opts():
        for d in drys[:2]:
            if "-f" not in opts:
                out.append({"g": "DOS33", "world": "paths", "cmds": [dict({"cmd": "extract", "opts": opts if "-a" in opts else opts + ["-a"], "files": []}, **d)]})
    return out


def extract_opts():
    for a in ([], ["-a"]):
        for l in ([], ["-l"]):
            for d in ([], ["-d", "out"], ["-d", "deep/er/out"], ["-d", "sub"], ["-d", "../beside"]):
                for f in ([], ["-f"]):
                    for t in ([], ["-t"]):
                        yield a + l + d + f + t


# ---------------------------------------------------------------- histories

def alphabet(g):
    k, l, new, o = names(g)
    return [
        {"cmd": "add", "files": [new]}, {"cmd": "add", "opts": ["-f"], "files": [new, k]}, {"cmd": "add", "files": ["half"]}, {"cmd": "add", "files": [o, "lower.txt"]},
        {"cmd": "add", "opts": ["-f"], "files": ["sub/" + new]}, {"cmd": "add", "files": [o, "big"]}, {"cmd": "add", "files": [new, "missing"]},
        {"cmd": "delete", "files": [k, new]}, {"cmd": "delete", "opts": ["-f"], "files": [l]}, {"cmd": "delete", "files": [l, "half"]},
        {"cmd": "delete", "files": ["THIRD" if g == "DOS33" else "THIRD.X"]},
        {"cmd": "extract", "opts": ["-a", "-d", "out"]}, {"cmd": "extract", "opts": ["-f"], "files": [new, k]},
        {"cmd": "vtoc", "opts": ["-e"]}, {"cmd": "add", "dry": True, "opts": ["-f"], "files": [k, "lower.txt"]}, {"cmd": "delete", "dry": True, "files": [k]},
        {"cmd": None},
    ]


def history(res, args):
    g = args["g"]
    fx, w = world(g)
    alpha = alphabet(g)
    t = Tree()
    seen = set()

    def walk(state, depth, path):
        for i, c in enumerate(alpha):
            if not path and i not in args["first"]:
                continue
            t.set(state)
            res.count("transitions")
            case = {"g": g, "cmds": path + [c]}
            after = res.case(case, do, t, fx, IMG[g], c)
            if after is None:
                t.get()
                continue
            key = repr(sorted((k, v and zlib.crc32(v)) for k, v in after.items()))
            res.state(key)
            if depth > 1:
                if (key, depth - 1) in seen:
                    continue
                seen.add((key, depth - 1))
                walk(after, depth - 1, path + [c])
            else:
                res.count("traces")
    try:
        walk(w, args["depth"], [])
        res.sample({"g": g, "cmds": alpha[:args["depth"]]})
    finally:
        t.close()


# ------------------------------------------------------------------- create

TPL = os.path.join(os.path.dirname(atrcopy.__file__), "templates")


def case_create(case):
    tpl = sorted(f for f in os.listdir(TPL) if not f.endswith(".inf"))
    t = Tree()
    try:
        w = {"unrelated": b"abc", "other.atr": b"zzz"}
        if case["exists"]:
            w["new.img"] = b"old image"
        t.set(w)
        a = ["new.img"] + (["--dry-run"] if case["dry"] else []) + [case["alias"]] + (["-f"] if case["force"] else []) + [case["template"]]
        os.chdir(t.cwd)
        err, out = command(a)
        os.chdir("/")
        after = t.get()
        match = [f for f in tpl if case["template"] in f]
        if len(match) == 1 and not case["dry"] and (case["force"] or not case["exists"]):
            if err is not None:
                raise Violation("%r fails: %r" % (" ".join(a), err))
            with open(os.path.join(TPL, match[0]), "rb") as fh:
                w["new.img"] = fh.read()
        d = diff(w, after)
        if d:
            raise Violation("%r: %s" % (" ".join(a), d))
        return repr(sorted((k, len(v)) for k, v in after.items()))
    finally:
        t.close()


def creates():
    tpl = sorted(f for f in os.listdir(TPL) if not f.endswith(".inf"))
    out = []
    for t in tpl + ["dos2", "dos2sd", "autobrun", "2.5", "2.0s", "nothing", "dd", "sd.atr", ".inf", "dos33"]:
        for ex in (0, 1):
            for fo in (0, 1):
                for dry in (0, 1):
                    for al in ("create", "c"):
                        out.append({"kind": "create", "template": t, "exists": ex, "force": fo, "dry": dry, "alias": al})
    return out


# ----------------------------------------------------------- assemble and boot

DATA = {"d1": pattern("d1", 8), "d2": pattern("d2", 300), "d[3]": pattern("d3", 6), "d1@2": pattern("d4", 9)}


def obj_file(kind, spec, run):
    if kind == "xex":
        b = b"\xff\xff"
        if run:
            b += bytes([0xe0, 2, 0xe1, 2, run & 255, run >> 8])
        for o, d in spec:
            b += bytes([o & 255, o >> 8, (o + len(d) - 1) & 255, (o + len(d) - 1) >> 8]) + d
        return b
    (o, d), = spec
    return bytes([o & 255, o >> 8, len(d) & 255, len(d) >> 8]) + d


OBJS = {"o1.xex": ("xex", [(0x3000, pattern("o1", 10)), (0x3100, pattern("o2", 3))], 0x3002), "o2.xex": ("xex", [(0x4000, pattern("o3", 200))], None),
        "o4.xex": ("xex", [(0x4800, pattern("o5", 5))], 0x4801), "o3.bin": ("bsave", [(0x5000, pattern("o4", 20))], None)}


def segments_of(case):
    """-> [(address, bytes)], run"""
    segs = []
    run = case.get("run")
    for item in case.get("data", []):
        name, addr = item["file"], item["addr"]
        d = DATA[name]
        if "slice" in item:
            a, b = item["slice"]
            d = d[(int(a) if a else 0):(int(b) if b else None)]
        segs.append((addr, d))
    own = None
    for o in case.get("obj", []):
        kind, spec, r = OBJS[o]
        segs += spec
        if r and not own:
            own = r
    return segs, run or own


def note(addr, style):
    return {"0x": "0x%x", "$": "$%04X", "#": "#%d", "": "%x", "%": None}[style] % addr if style != "%" else "%" + bin(addr)[2:]


def asm_argv(case):
    a = []
    groups = []
    for item in case.get("data", []):
        s = item["file"]
        if "slice" in item:
            s += "[%s:%s]" % tuple(item["slice"])
        groups.append(s + "@" + note(item["addr"], item.get("style", "")))
    if case.get("repeat"):
        for s in groups:
            a += ["-d", s]
    elif groups:
        a += ["-d"] + groups
    for o in ([case["obj"]] if not case.get("repeat") else [[x] for x in case["obj"]]) if case.get("obj") else []:
        a += [case.get("bopt", "-b")] + o
    if case.get("run"):
        a += [case.get("ropt", "-r"), note(case["run"], case.get("rstyle", ""))]
    return a


def want_binary(segs, run, style):
    """None if it has to be refused"""
    spec = [(o, len(d)) for o, d in segs]
    if style == "xex":
        r = run or spec[0][0]
        if run and not exe.inside(spec, run):
            return None
        b = b"\xff\xff" + bytes([0xe0, 2, 0xe1, 2, r & 255, r >> 8])
        for o, d in segs:
            b += bytes([o & 255, o >> 8, (o + len(d) - 1) & 255, (o + len(d) - 1) >> 8]) + d
        return b
    lo = min(o for o, _ in spec)
    hi = max(o + n for o, n in spec)
    mem = bytearray(0x10004)
    for o, d in segs:
        mem[o:o + len(d)] = d
    if run and run != lo:
        if not exe.inside(spec, run):
            return None
        mem[lo - 3:lo] = bytes([0x4c, run & 255, run >> 8])
        lo -= 3
    return bytes([lo & 255, lo >> 8, (hi - lo) & 255, (hi - lo) >> 8]) + bytes(mem[lo:hi])


def case_asm(case):
    segs, run = segments_of(case)
    if any(not d for _, d in segs) or not segs:
        return None
    w = dict(DATA)
    for o, (kind, spec, r) in OBJS.items():
        w[o] = obj_file(kind, spec, r)
    w["unrelated"] = b"u"
    target = case["target"]
    t = Tree()
    try:
        fx = None
        if target in IMG:
            fx = fixture(target)
            img = IMG[target]
            w[img] = fx.raw
        else:
            img = target
        out = case.get("out", "OUT")
        if case.get("exists"):
            if fx is None:
                w[out if target == "." else img] = b"old"
            else:
                raise AssertionError
        t.set(w)
        dry = ["--dry-run"] if case.get("dry") else []
        force = ["-f"] if case.get("force") else []
        if case["cmd"] == "boot":
            a = [img] + dry + [case.get("alias", "boot")] + force + asm_argv(case)
        else:
            a = [img] + dry + [case.get("alias", "assemble")] + force + asm_argv(case) + ["-o", out]
        line = " ".join(a)
        os.chdir(t.cwd)
        err, text = command(a)
        os.chdir("/")
        after = t.get()
        same = dict(w)

        def unchanged(what):
            d = diff(same, after)
            if d:
                raise Violation("%r: %s: %s" % (line, what, d))
        if case.get("bad"):
            if err is None and "none" not in case["bad"]:
                raise Violation("%r reports no error" % line)
            unchanged("failed command")
            return line
        if case["cmd"] == "boot":
            if run and not exe.inside([(o, len(d)) for o, d in segs], run) and img.endswith(".atr"):
                unchanged("refused")
                return line
            if err is not None:
                raise Violation("%r fails: %r" % (line, err))
            if not dry:
                raw = after.get(img)
                if raw is None:
                    raise Violation("%r: no image" % line)
                if img.endswith(".atr"):
                    xex = want_binary(segs, run, "xex")
                    c12.check_image(raw, xex, line)
                else:
                    try:
                        mem, pc, reads = boot(raw)
                    except Crash as e:
                        raise Violation("%r: booting the disk fails: %s" % (line, e))
                    for o, d in segs:
                        if bytes(mem[o:o + len(d)]) != d:
                            raise Violation("%r: $%04x is not loaded" % (line, o))
                    if pc != (run or segs[0][0]):
                        raise Violation("%r: jumps to $%04x" % (line, pc))
                same[img] = raw
            unchanged("boot")
            return line
        lower = out.lower()
        style = "xex" if lower.endswith("xex") else "bsave" if lower.endswith(("bin", "bsave")) else ("bsave" if target == "DOS33" else "xex")
        data = want_binary(segs, run, style)
        if fx is not None:
            c = {"cmd": "assemble", "opts": force, "out": out, "data": data, "dry": case.get("dry")}
            judge(fx, img, w, c, after, err, text, t.root)
            return line
        if data is None:
            if err is None:
                raise Violation("%r reports no error" % line)
        else:
            if err is not None:
                raise Violation("%r fails: %r" % (line, err))
            if not dry and (not case.get("exists") or case.get("force")):
                same[out] = data
        unchanged("assemble")
        return line
    finally:
        t.close()


def asms():
    out = []
    bounds = ["", "0", "1", "3", "7", "8", "-1", "-8", "20"]
    one = {"file": "d1", "addr": 0x600}
    two = {"file": "d2", "addr": 0x2000}
    for a in bounds:
        for b in bounds:
            d = dict(one, slice=[a, b])
            out.append({"cmd": "assemble", "target": ".", "out": "o.xex", "data": [d]})
            out.append({"cmd": "assemble", "target": "DOS33", "data": [d]})
            out.append({"cmd": "assemble", "target": ".", "out": "o.bin", "data": [two, dict(d, addr=0x2004)]})
            out.append({"cmd": "boot", "target": "b.atr", "data": [d, two]})
    for f in DATA:
        for a in ("", "2"):
            for b in ("", "5"):
                out.append({"cmd": "assemble", "target": ".", "out": "o.xex", "data": [{"file": f, "addr": 0x700, "slice": [a, b]}]})
        if f != "d[3]":
            for tgt, o in ((".", "o.xex"), (".", "o.bin"), ("SD", "P"), ("DOS33", "P")):
                out.append({"cmd": "assemble", "target": tgt, "out": o, "data": [one, {"file": f, "addr": 0x2700}]})
    for s in ("", "$", "0x", "#", "%"):
        for addr in (0x600, 0x1234, 0xff00, 0x10, 0xabc):
            for r in (None, addr, addr + 1, addr + 7, addr + 8):
                for tgt, o in ((".", "x.xex"), (".", "X.BIN"), (".", "a.bsave"), ("SD", "P.XEX"), ("SD", "P"), ("DOS33", "P"), ("DOS33", "P.XEX")):
                    out.append({"cmd": "assemble", "target": tgt, "out": o, "data": [dict(one, addr=addr, style=s)], "run": r, "rstyle": s})
    for rep in (0, 1):
        for data in ([], [one], [one, two], [two, one], [one, two, {"file": "d1", "addr": 0x1000}]):
            for obj in ([], ["o1.xex"], ["o3.bin"], ["o2.xex", "o1.xex"], ["o1.xex", "o2.xex", "o3.bin"], ["o4.xex", "o1.xex"], ["o1.xex", "o3.bin", "o4.xex"]):
                for r in (None, 0x600, 0x3101, 0x200c, 0x9999):
                    for dry in (0, 1):
                        for k in (0, 1):
                            c = {"data": data, "obj": obj, "run": r, "repeat": rep, "dry": dry, "force": k}
                            for tgt, o, al in ((".", "x.xex", "assemble"), (".", "x.bin", "asm"), ("DD", "P.XEX", "s"), ("ED", "KEEP.DAT", "assemble"), ("DOS33", "P", "asm"), ("DOS33", "KEEP", "s")):
                                out.append(dict(c, cmd="assemble", target=tgt, out=o, alias=al))
                            if not k:
                                out.append(dict(c, cmd="boot", target="b.atr", alias="b"))
                                if all(x["addr"] >= 0x900 for x in data) and r != 0x9999:
                                    out.append(dict(c, cmd="boot", target="b.dsk"))
    for o in ("-b", "--obj", "--bload"):
        for r in ("-r", "--run-addr", "--brun"):
            out.append({"cmd": "assemble", "target": ".", "out": "x.xex", "obj": ["o1.xex"], "bopt": o, "ropt": r, "run": 0x3100})
    for ex in (0, 1):
        for fo in (0, 1):
            for dry in (0, 1):
                for o in ("x.xex", "x.bin"):
                    out.append({"cmd": "assemble", "target": ".", "out": o, "data": [one], "exists": ex, "force": fo, "dry": dry})
    out += [{"cmd": "boot", "target": "b.atr", "data": [one], "exists": 1, "force": 1, "dry": d} for d in (0, 1)]
    return out


def bads():
    """command lines that cannot succeed -> nothing may change"""
    out = []
    for img in ("d.atr", "d.dsk", "new.atr", "new.dsk", "x.xex", "k.atr", "s.atr", "garbage", "missing.atr", "b.atr", "c.car", "z.zip", "dir", "."):
        for rest in (["boot", "-d", "d1"], ["boot", "-d", "d1@zz"], ["boot", "-d", "missing@600"], ["boot"], ["boot", "-b", "missing"], ["boot", "-s", "src"],
                     ["assemble", "-d", "d1", "-o", "X"], ["assemble", "-d", "d1@", "-o", "X"], ["assemble", "-d", "nope@600", "-o", "X"], ["assemble", "-d", "d1@600"],
                     ["assemble", "-s", "src", "-o", "X"], ["assemble", "-d", "d2@2000", "-r", "1", "-o", "X"],
                     ["add", "missing"], ["add"], ["delete"], ["delete", "nope"], ["delete", "-f", "nope"], ["extract"], ["extract", "nope"], ["create"], ["create", "nothing"], ["create", "-f", "dos"],
                     ["frobnicate"], ["add", "--nonsense", "d1"], ["add", "-t"], ["--dry-run"], ["--help"], ["add", "--help"], ["create", "--help"], ["create", "dos33.dsk", "-h"],
                     ["list", "x"], ["crc"], ["segments"], ["vtoc"]):
            out.append({"kind": "bad", "img": img, "rest": rest})
        if img in ("x.xex", "k.atr", "s.atr", "garbage", "b.atr", "c.car", "z.zip", "missing.atr", "dir"):
            for rest in (["add", "d1"], ["add", "-f", "d1", "d2"], ["delete", "-f", "AUTORUN.SYS"], ["vtoc", "-e"], ["assemble", "-d", "d1@600", "-o", "X"]):
                out.append({"kind": "bad", "img": img, "rest": rest})
    return out


def case_bad(case):
    t = Tree()
    try:
        w = {"d.atr": fixture("SD").raw, "d.dsk": fixture("DOS33").raw, "x.xex": c09.base("xex")[0], "k.atr": c09.base("kboot")[0], "s.atr": c09.base("sparta128")[0],
             "garbage": pattern("garbage", 1000), "b.atr": c09.base("boot")[0], "c.car": c09.base("cart8")[0], "z.zip": c09.base("zip")[0], "dir/inside": b"i",
             "src": b"* = $600\n", "d1": DATA["d1"], "d2": DATA["d2"]}
        t.set(w)
        os.chdir(t.cwd)
        err, out = command([case["img"]] + case["rest"])
        os.chdir("/")
        d = diff(w, t.get())
        if d:
            raise Violation("%r: %s" % (" ".join([case["img"]] + case["rest"]), d))
        return repr((type(err).__name__, out))
    finally:
        t.close()


def reads():
    out = []
    for b in c09.BASES:
        for rest in ([], ["list"], ["list", "-c"], ["list", "-m"], ["crc"], ["segments"], ["vtoc"], ["extract", "-a", "--dry-run"], ["-v"], ["--dry-run", "extract", "-a", "-d", "o"],
                     ["--dry-run", "vtoc", "-e"], ["--dry-run", "add", "d1"], ["--dry-run", "delete", "-f", "NAME"]):
            out.append({"kind": "read", "base": b, "rest": rest})
    return out


def case_read(case):
    t = Tree()
    try:
        w = {"img": c09.base(case["base"])[0], "d1": b"12345"}
        t.set(w)
        os.chdir(t.cwd)
        err, out = command(["img"] + case["rest"])
        os.chdir("/")
        d = diff(w, t.get())
        if d:
            raise Violation("%s: %r: %s" % (case["base"], " ".join(case["rest"]), d))
        return repr((case["base"], case["rest"], type(err).__name__, out[:200]))
    finally:
        t.close()


# ------------------------------------------------- the installed script itself

def scripts():
    out = []
    for g in ("SD", "DOS33"):
        k, l, new, o = names(g)
        out += [{"kind": "script", "g": g, "cmd": c} for c in (
            {"cmd": "add", "files": [new, o]}, {"cmd": "delete", "files": [k, l]}, {"cmd": "extract", "opts": ["-a", "-d", "out"], "files": []}, {"cmd": "vtoc", "opts": ["-e"]},
            {"cmd": "crc"}, {"cmd": "add", "files": [new, "big"]})]
    return out


def case_script(case):
    fx, w = world(case["g"])
    img = IMG[case["g"]]
    repo = os.path.dirname(os.path.dirname(os.path.abspath(atrcopy.__file__)))
    t = Tree()
    try:
        t.set(w)
        code = "import sys; sys.path.insert(0, %r); sys.dont_write_bytecode = True; sys.argv[0] = 'atrcopy'; exec(open(%r).read())" % (
            repo, os.path.join(repo, "scripts", "atrcopy"))
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code] + argv(case["cmd"], img), cwd=t.cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=120, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        err = None if p.returncode == 0 else RuntimeError("exit %d" % p.returncode)
        judge(fx, img, w, case["cmd"], t.get(), err, p.stdout.decode("utf8", "replace"), t.root)
        return repr((p.returncode, p.stdout))
    finally:
        t.close()


# -------------------------------------------------------------------- plumbing

KINDS = {"create": case_create, "bad": case_bad, "read": case_read, "script": case_script}


def run_case(case):
    if "kind" in case:
        return KINDS[case["kind"]](case)
    if "cmds" in case:
        return case_cmd(case)
    return case_asm(case)


def fam(res, args):
    for c in args["cases"]:
        res.count("traces")
        res.count("transitions")
        res.sample(c)
        key = res.case(c, run_case, c)
        if key is not None:
            res.state(key)


FAMILIES = {k: fam for k in ("single", "create", "asm", "bad", "read", "script")}
FAMILIES["history"] = history


def plan(tier):
    deep = tier == "thorough"
    out = []
    for g in IMG:
        depth = (4 if g == "SD" else 3) if deep else (3 if g == "SD" else 2)
        n = len(alphabet(g))
        out += [("history", {"g": g, "depth": depth, "first": f}) for f in chunks(list(range(n)), 1 if depth > 2 else 6)]
    out += [("script", {"cases": c}) for c in chunks(scripts(), 2)]
    for name, cases in (("single", singles(tier)), ("create", creates()), ("asm", asms()), ("bad", bads()), ("read", reads())):
        out += [(name, {"cases": c}) for c in chunks(cases, 80)]
    return out
