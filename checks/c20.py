"""C20: drilling cycles."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import pathchk as pc
from nc import Check, rng, THOROUGH

ck = Check("C20", "programs of drilling cycles on mills and mill-turns (all kinds, return modes, planes, depth conventions, absolute and "
           "incremental, repeat counts, hole patterns, cancelled by G80 or by a motion); path and position of every block from the "
           "first cycle to the second block after its end against a reference model; non-trivial: distinct (control, cycle, plane, "
           "return mode, absolute/incremental, depth convention, repeat count, first or following hole)")
r = rng("c20")
N = 4000 if not THOROUGH else 20000
for kind, pt, st, out, ev, rep in pc.judged(ck, r, N, dict(cycle=5, lin=1, arc=0.3, bad=0.2, tool=0.2), kinds=("mill", "mill", "turn")):
    left = 0
    for i, ((t, e), v) in enumerate(zip(out, ev)):
        if "exc" in v:
            ck.violation("exception %s: %s" % (v["exc"], pc.where(pt, st, out, i)), rep)
            break
        left = 3 if e.kind in ("cycle", "badcycle") else left - 1 if e.kind in ("g0", "g1", "arc", "toolx", "home") else left
        k = pc.path_ok(e, v) if not e.uncounted else ""
        d = None
        if e.r and not v["r"]:
            d = "the block is rejected: %s" % v["m"]
        elif k is None:
            d = "cutting and rapid path are %r, expected %r" % (v["pr"][1:3], [e.work, e.fast])
        else:
            d = pc.pos_diff(e, v)
        if d:
            if left > 0:
                ck.violation("%s: %s" % (d, pc.where(pt, st, out, i, 8)), rep)
            break
        if k and k != "g18":
            ck.violation("cutting and rapid path are %r, expected %r: %s" % (v["pr"][1:3], [e.work, e.fast], pc.where(pt, st, out, i, 8)),
                         rep, key=k)
        if e.kind == "cycle":
            ck.saw((pt, e.info), dict(control=pt, block=t, path=v["pr"][1:3], cycle=e.info))
            ck.count("holes_G%d" % e.info[0])
ck.finish(min_distinct=300)
