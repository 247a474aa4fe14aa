#!/usr/bin/env python3
"""Development tool: mutation analysis of the checks.

usage: mutate.py OUT.jsonl [--every N] [--offset K] [--files a.py,b.py]
Makes small syntactic changes to copies of the code (one each), drops those the
existing tests notice, and runs the checks of the file against the others until
one reports a violation.  Survivors are printed for inspection: they are either
equivalent, outside of every property, or a hole in the checks.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed  # noqa: E402

HERE = seed.HERE
CHECKS = {
    "ataridos.py": "C05 C21 C23 C01 C04 C22 C08 C10",
    "dos33.py": "C21 C23 C05 C11 C01 C04 C08 C13",
    "diskimages.py": "C08 C22 C23 C05 C06 C07 C19",
    "utils.py": "C23 C05 C21 C01 C04 C08 C11",
    "segments.py": "C15 C16 C17 C18 C23 C10 C11 C13 C05",
    "executables.py": "C10 C11 C12 C13 C19",
    "parsers.py": "C22 C18 C23 C20 C07 C09",
    "__init__.py": "C19 C22 C14",
    "cartridge.py": "C20 C22 C18",
    "kboot.py": "C12 C22 C23 C18",
    "standard_delivery.py": "C13 C22 C23",
    "spartados.py": "C21 C23 C08 C22 C09",
    "container.py": "C14 C22 C09",
    "dcm.py": "C14 C22",
    "dummy.py": "C22 C20 C23",
    "mame.py": "C22 C09 C18",
}
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in",
        ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<", ast.Mod: "//"}
SKIPFN = {"__str__", "__repr__", "verbose_info", "summary", "print_files", "extra_metadata"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset
    out = []

    def put(n, text):
        s, e = span(n)
        out.append((n.lineno, s, e, text))

    def visit(n, skip):
        if isinstance(n, (ast.FunctionDef,)):
            skip = skip or n.name in SKIPFN
        if isinstance(n, ast.stmt) and hasattr(n, "lineno") and re.match(r"\s*(log\.|raise |print\(|import |from |if _xd)", lines[n.lineno - 1]):
            return
        if skip:
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = ast.get_source_segment(src, n.left), ast.get_source_segment(src, n.comparators[0])
            op = SWAP.get(type(n.ops[0]))
            if op:
                put(n, "%s %s %s" % (l, op, r))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            l, r = ast.get_source_segment(src, n.left), ast.get_source_segment(src, n.right)
            if isinstance(n.left, ast.BinOp):
                l = "(%s)" % l
            if isinstance(n.right, ast.BinOp):
                r = "(%s)" % r
            put(n, "%s %s %s" % (l, BIN[type(n.op)], r))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            put(n, str(n.value + 1))
            if n.value > 1:
                put(n, str(n.value - 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, str(not n.value))
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, op.join(ast.get_source_segment(src, v) for v in n.values))
            if len(n.values) == 2:
                put(n, ast.get_source_segment(src, n.values[0]))
                put(n, ast.get_source_segment(src, n.values[1]))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, ast.get_source_segment(src, n.operand))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and n.col_offset > 4 or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass")
        elif isinstance(n, ast.Break):
            put(n, "continue")
        elif isinstance(n, ast.Continue):
            put(n, "break")
        if isinstance(n, ast.If):
            put(n.test, "False")
            put(n.test, "True")
        for c in ast.iter_child_nodes(n):
            visit(c, skip)
    visit(tree, False)
    for line, s, e, text in out:
        new = (b[:s] + text.encode() + b[e:]).decode()
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            continue
        yield line, b[s:e].decode(), text, new


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("--every", type=int, default=20)
    a.add_argument("--offset", type=int, default=0)
    a.add_argument("--files", default=",".join(CHECKS))
    a.add_argument("--thin", type=int, default=7)
    a.add_argument("--count", action="store_true")
    o = a.parse_args()
    todo = []
    for f in o.files.split(","):
        src = open("/repo/atrcopy/" + f).read()
        ms = list(mutants(src))
        if o.count:
            print(f, len(ms))
        todo += [(f, m) for m in ms[o.offset % o.every::o.every]]
    print(len(todo), "mutants", flush=True)
    if o.count:
        return

    def test(i):
        f, (line, old, new, text) = todo[i]
        d = seed.copy("mut%d" % i)
        try:
            open(d + "/atrcopy/" + f, "w").write(text)
            return i, bool(seed.tests(d))
        except Exception:
            return i, True
        finally:
            shutil.rmtree(d, ignore_errors=True)
    if os.path.exists(o.out + ".alive"):
        alive = json.load(open(o.out + ".alive"))
    else:
      with concurrent.futures.ThreadPoolExecutor(8) as ex:
        alive = [i for i, killed in ex.map(test, range(len(todo))) if not killed]
      json.dump(alive, open(o.out + ".alive", "w"))
    print(len(alive), "pass the tests", flush=True)
    for i in alive:
        f, (line, old, new, text) = todo[i]
        d = seed.copy("mut")
        by = None
        try:
            open(d + "/atrcopy/" + f, "w").write(text)
            for c in CHECKS[f].split():
                env = dict(seed.ENV, ATRCOPY_REPO=d, VERIF_STOP_AFTER="1", VERIF_ALLTAGS="1", VERIF_THIN=str(o.thin), VERIF_EVIDENCE="/tmp/mut-ev")
                try:
                    rc, txt = seed.sh(["bash", HERE + "/run.sh", c, "--tier", "quick"], env=env)
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                if rc:
                    by = "%s:%s" % (c, rc)
                    break
        finally:
            shutil.rmtree(d, ignore_errors=True)
        rec = {"file": f, "line": line, "old": old[:100], "new": new[:100], "by": by, "src": text.split("\n")[line - 1].strip()[:120]}
        with open(o.out, "a") as fh:
            fh.write(json.dumps(rec) + "\n")
        print("%-8s %s:%d  %s  ->  %s" % (by or "SURVIVED", f, line, old[:60].replace("\n", " "), new[:60].replace("\n", " ")), flush=True)


if __name__ == "__main__":
    main()
