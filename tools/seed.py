#!/usr/bin/env python3
"""seed.py SPEC.py [name...]: build planted bugs from a spec, confirm them in scratch
copies (build, stable tests, demo both ways) and run checks on the copies.
SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)].
"""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO_SH = '''#!/bin/bash
# exit 0: behaviour as promised; nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec timeout 200 /opt/venv/bin/python "$here/demo.py"
'''
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd=None, env=None, t=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode()


def tests(copy, out):
    s = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + copy)
    s = s.replace("export PYTHONDONTWRITEBYTECODE=1", "export PYTHONPATH=%s/src PYTHONDONTWRITEBYTECODE=1" % copy)
    f = copy + ".test.sh"
    open(f, "w").write(s)
    rc, log = sh(["bash", f, out])
    r = json.load(open(out))
    bad = sorted(STABLE - set(r["passed"]))
    return bad


def code(line):
    return re.sub(r"\s+#.*$", "", line).rstrip()


def replace(s, old, new):
    """replace old by new in s; else match line by line, comments and blank lines apart"""
    if s.count(old) == 1:
        return 1, s.replace(old, new)
    want = [code(x) for x in old.split("\n")]
    want = [x for x in want if x and not x.lstrip().startswith("#")]
    lines = s.split("\n")
    have = [(i, code(x)) for i, x in enumerate(lines)]
    have = [(i, x) for i, x in have if x and not x.lstrip().startswith("#")]
    hits = [k for k in range(len(have) - len(want) + 1) if all(have[k + j][1] == w for j, w in enumerate(want))]
    if len(hits) == 1:
        a, b = have[hits[0]][0], have[hits[0] + len(want) - 1][0]
        lines[a:b + 1] = new.rstrip("\n").split("\n")
        return 1, "\n".join(lines)
    return len(hits), s


def one(b, only_checks):
    copy = os.path.join(W, b["id"])
    d = os.path.join(ROOT, "seeded", b["id"])
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree("/repo", copy, symlinks=True)
    res = dict(id=b["id"], property=b["property"])
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(copy, f)
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            s = s.replace("\r\n", "\n")
            n, s = replace(s, old, new)
            if n != 1:
                return dict(res, error="edit matches %d times: %s" % (n, old[:60]))
            open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
        rc, diff = sh(["git", "diff"], cwd=copy)
        work = os.path.join(W, b["id"] + ".demo")
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        open(os.path.join(work, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(work, "demo.py"), "w").write(b["demo"])
        rc, log = sh(["bash", os.path.join(work, "demo.sh")], cwd="/repo")
        if rc:
            return dict(res, error="demo fails on the unchanged tree", log=log[-800:])
        rc, log = sh(["bash", os.path.join(work, "demo.sh")], cwd=copy)
        if not rc:
            return dict(res, error="demo passes with the bug")
        res["demo"] = log.strip().splitlines()[-1:] if log.strip() else []
        if not only_checks:
            bad = tests(copy, os.path.join(W, b["id"] + ".json"))
            if bad:
                return dict(res, error="tests fail: %s" % bad[:4])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w", newline="").write(diff)
        rc, log = sh(["git", "apply", "--check", os.path.join(d, "patch.diff")], cwd="/repo")
        if rc:
            return dict(res, error="patch does not apply", log=log)
        for n in ("demo.sh", "demo.py"):
            shutil.copy(os.path.join(work, n), os.path.join(d, n))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, log = sh(["python3-vt", os.path.join(ROOT, "check.py"), b["property"]], cwd=ROOT,
                     env=dict(ELL_REPO=copy, ELL_EVIDENCE=os.path.join(W, b["id"] + ".ev"), VERIF_SEED="1"))
        res["check"] = {0: "MISSED", 1: "caught", 2: "BROKEN"}.get(rc, rc)
        if rc != 1:
            res["log"] = log[-1200:]
        else:
            res["log"] = re.sub(r"\s+", " ", log)[:160]
    finally:
        shutil.rmtree(copy, ignore_errors=True)
    return res


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    names = [a for a in sys.argv[2:] if not a.startswith("-")]
    only = "--checks" in sys.argv
    os.makedirs(W, exist_ok=True)
    bugs = [b for b in g["BUGS"] if not names or b["id"] in names]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda b: one(b, only), bugs):
            print(json.dumps(r), flush=True)
    shutil.rmtree(W, ignore_errors=True)


main()
