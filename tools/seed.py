#!/usr/bin/env python3
"""Development tool: validates planted bugs and runs checks against them.

usage: seed.py DEFS.py [ID ...]     make (DEFS.BUGS: list of dict id, property,
                                    edits [(file, old, new)], demo, needs, what)
       seed.py --check ID [CHECK..] run checks against /verif/seeded/ID
Works on scratch copies under /tmp, which are removed.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv-pypy/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '''#!/bin/bash
# run with cwd = repository
here="$(cd "$(dirname "$0")" && pwd)"
exec /opt/venv-pypy/bin/python -B -W ignore "$here/demo.py"
'''
HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())
'''


def sh(cmd, cwd=None, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def copy(tag):
    d = "/tmp/seed-%s" % tag
    shutil.rmtree(d, ignore_errors=True)
    sh(["cp", "-a", "/repo", d])
    return d


def tests(d):
    x = d + "/junit.xml"
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + x],
       cwd=d + "/test", env=dict(ENV, PYTHONPATH=d))
    ok = set()
    for c in ET.parse(x).getroot().iter("testcase"):
        if not any(k.tag in ("failure", "error", "skipped") for k in c):
            ok.add("%s::%s" % (c.get("classname"), c.get("name")))
    return STABLE - ok


def foreign_lines(patch):
    """removed lines that the original repository does not have"""
    root = subprocess.check_output(["git", "-C", "/repo", "rev-list", "HEAD"], text=True).split()
    n = int(subprocess.check_output(["git", "-C", "/repo", "rev-list", "--count", "02b9a9b..HEAD"], text=True))
    base = root[n]
    out, name, text = [], None, None
    for l in patch.split("\n"):
        if l.startswith("--- a/"):
            name = l[6:]
            text = subprocess.check_output(["git", "-C", "/repo", "show", "%s:%s" % (base, name)], text=True).split("\n")
        elif l.startswith("-") and not l.startswith("---") and l[1:] not in text:
            out.append(l)
    return out


def make(b):
    d = copy(b["id"])
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit matches %d times: %r" % (s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        rc, patch = sh(["git", "diff"], cwd=d)
        if not patch:
            return "no change"
        out = os.path.join(HERE, "seeded", b["id"])
        tmp = "/tmp/seeddef-%s" % b["id"]
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + "/patch.diff", "w").write(patch)
        open(tmp + "/demo.sh", "w").write(DEMO)
        os.chmod(tmp + "/demo.sh", 0o755)
        open(tmp + "/demo.py", "w").write(HEAD + b["demo"].strip("\n") + "\n")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(tmp + "/meta.json", "w"), indent=1)
        rc, o = sh(["bash", tmp + "/demo.sh"], cwd="/repo")
        if rc:
            return "demo fails on clean tree: " + o[-600:]
        rc, o = sh(["bash", tmp + "/demo.sh"], cwd=d)
        if not rc:
            return "demo passes with the patch"
        demo_msg = o.strip().split("\n")[-1][:150]
        bad = tests(d)
        if bad:
            return "breaks tests: %s" % sorted(bad)[:3]
        mine = foreign_lines(patch)
        if mine:
            return "touches lines that are not original: %s" % mine[:2]
        shutil.rmtree(out, ignore_errors=True)
        shutil.move(tmp, out)
        r = check(b["id"], [b["property"]], d)
        return "ok (%s) %s" % (demo_msg, r)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(i, props, d=None):
    own = d is None
    if own:
        d = copy(i)
        rc, o = sh(["git", "apply", os.path.join(HERE, "seeded", i, "patch.diff")], cwd=d)
        assert rc == 0, o
    out = []
    for p in props:
        rc, o = sh(["bash", HERE + "/run.sh", p, "--tier", "quick"], env=dict(ENV, ATRCOPY_REPO=d))
        v = [l for l in o.split("\n") if l.startswith("VIOLATION")]
        m = [l for l in o.split("\n") if "violation" in l.lower() and not l.startswith("VIOLATION")]
        out.append("%s:%s%s" % (p, "CAUGHT" if rc == 1 and v else "missed(rc=%d)" % rc, " " + (m[0][:140] if m else "") if rc == 1 else ""))
    if own:
        shutil.rmtree(d, ignore_errors=True)
    return " ".join(out)


if __name__ == "__main__":
    if sys.argv[1] == "--check":
        i = sys.argv[2]
        props = sys.argv[3:] or [json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))["property"]]
        print(i, check(i, props))
    else:
        bugs = runpy.run_path(sys.argv[1])["BUGS"]
        for b in bugs:
            if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
                continue
            print(b["id"], make(b), flush=True)
