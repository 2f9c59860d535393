#!/usr/bin/env python3
"""catch.py [-j N] [-a] [ID ...]: runs the check of each planted bug's property (-a: all checks) against a scratch copy with the bug."""
import json, os, subprocess, sys, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
J = 3
ALL = False
if a[:1] == ["-j"]:
    J = int(a[1])
    a = a[2:]
if a[:1] == ["-a"]:
    ALL = True
    a = a[1:]
ids = a or sorted(os.listdir(os.path.join(V, "seeded")))


def one(i):
    d = os.path.join(V, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="catch-")
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s" % w, shell=True)
    subprocess.check_call(["git", "apply", "--unsafe-paths", "--directory=" + w, os.path.join(d, "patch.diff")], cwd="/")
    out = []
    for p in ([m["property"]] if not ALL else ["C%02d" % x for x in range(1, 33)]):
        t = time.time()
        r = subprocess.run(["python3", "checks/%s.py" % p.lower()], cwd=V, env=dict(os.environ, NC_REPO=w, NC_EVIDENCE=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION property=" + p)]
        first = r.stdout.split("\n")[0][:160]
        out.append("%-28s %s %s (%d s, %d) %s" % (i, p, "CAUGHT" if r.returncode == 1 and v else "missed" if r.returncode == 0 else "BROKEN %d" % r.returncode, time.time() - t, len(v), first))
        if not ALL or r.returncode:
            print(out[-1], flush=True)
    shutil.rmtree(w)
    return out


with ThreadPoolExecutor(J) as ex:
    list(ex.map(one, ids))
