#!/usr/bin/env python3
"""plant.py SPEC.py [--scratch DIR]: confirms a planted bug in a scratch copy of /repo and keeps it under /verif/seeded.

SPEC.py defines PROP, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (python text using kit.py)."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = sys.argv[1]
S = sys.argv[sys.argv.index("--scratch") + 1] if "--scratch" in sys.argv else "/tmp/seed0"
W = os.path.join(S, "repo")
name = os.path.splitext(os.path.basename(spec))[0]
ns = {}
exec(open(spec).read(), ns)


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prepare():
    if not os.path.exists(W):
        os.makedirs(S, exist_ok=True)
        sh(["cp", "-a", "/repo", W])
        shutil.rmtree(os.path.join(W, "_build"), True)
        os.makedirs(os.path.join(S, "vp"))
        for f in os.listdir("/opt/vp"):
            t = open(os.path.join("/opt/vp", f)).read() if f.endswith(".sh") else None
            if t:
                t = t.replace("/repo", W).replace("bash /opt/vp/build.sh", "bash %s/vp/build.sh" % S)
                open(os.path.join(S, "vp", f), "w").write(t)
    # same sources as /repo's HEAD
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (W, W, W))


def build():
    r = sh(["bash", S + "/vp/build.sh"])
    return r.returncode, r.stdout[-3000:]


def tests():
    o = os.path.join(S, "o.json")
    sh(["bash", S + "/vp/test.sh", o])
    return len(json.load(open(o))["passed"]), json.load(open(o))["failed"]


def die(t):
    sh("git -C %s checkout -q -- ." % W)
    print(name, "NOT KEPT:", t)
    sys.exit(1)


prepare()
root = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[0]
for f, old, new in ns["EDITS"]:
    p = os.path.join(W, f)
    t = open(p, newline="").read()
    crlf = "\r\n" in t
    if crlf:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    if t.count(old) != 1:
        die("%d occurrences in %s of:\n%s" % (t.count(old), f, old))
    open(p, "w", newline="").write(t.replace(old, new))
diff = sh("git -C %s diff" % W).stdout
gone = 0
for f in sorted({e[0] for e in ns["EDITS"]}):
    b = sh("git -C %s blame -s HEAD -- %s" % (W, f)).stdout.split("\n")
    d = sh("git -C %s diff -U0 -- %s" % (W, f)).stdout
    for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
        n = int(m.group(2) or 1)
        for i in range(n):
            l = b[int(m.group(1)) - 1 + i]
            if not re.match(r"\^", l):
                die("a line of an own commit is changed: " + l)
            gone += 1
if not gone:
    die("no original line is changed")
rc, log = build()
if rc:
    die("does not build:\n" + log)
n, failed = tests()
if failed or n != 79:
    die("tests: %d passed, failed %s" % (n, failed))
dst = os.path.join(V, "seeded", name)
tmp = tempfile.mkdtemp()
for f in ("tools/demo/kit.py", "harness/pdrv.cpp"):
    shutil.copy(os.path.join(V, f), tmp)
open(os.path.join(tmp, "demo.py"), "w").write("from kit import *\n" + ns["DEMO"].lstrip("\n") + "\nprint('fine')\n")
open(os.path.join(tmp, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
r = sh(["bash", tmp + "/demo.sh"], cwd=W)
if r.returncode == 0:
    die("the demonstration passes with the change: " + r.stdout[-800:])
with_ = r.stdout.strip()[-300:]
keep = os.path.join(S, "bug.so")
sh("git -C %s checkout -q -- ." % W)
rc, log = build()
r = sh(["bash", tmp + "/demo.sh"], cwd=W)
if r.returncode != 0:
    die("the demonstration fails without the change: " + r.stdout[-800:])
shutil.rmtree(dst, True)
shutil.copytree(tmp, dst)
shutil.rmtree(tmp, True)
open(os.path.join(dst, "patch.diff"), "w").write(diff)
json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(dst, "meta.json"), "w"), indent=1)
print(name, "kept;", ns["PROP"], "with:", with_)
