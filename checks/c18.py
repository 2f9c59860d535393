"""C18: linear motions, tool exchange and base point moves, positions and ranges."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import pathchk as pc
from nc import Check, rng, THOROUGH

ck = Check("C18", "programs of rapid and linear motions, tool exchanges, base point moves, modal blocks and rejected blocks on random "
           "machines; path of every block and minimum, current and maximum of every axis after every block against a reference "
           "simulator; non-trivial: distinct (kind of block, control, machine options that matter, axes moved, units, programming)")
r = rng("c18")
N = 4000 if not THOROUGH else 20000
OWN = ("g0", "g1", "toolx", "home", "none", "select")
for W in (dict(tool=1.2, home=0.6), dict(arc=1, cycle=0.7, tool=0.8)):
    for kind, pt, st, out, ev, rep in pc.judged(ck, r, N // 2, W):
        for i, ((t, e), v) in enumerate(zip(out, ev)):
            d = None
            if "exc" in v:
                d = "exception %s" % v["exc"]
            elif e.r and not v["r"] and e.kind in OWN:
                d = "the block is rejected: %s" % v["m"]
            elif not e.uncounted and e.kind in OWN and pc.path_ok(e, v) is None:
                d = "cutting and rapid path are %r, expected %r" % (v["pr"][1:3], [e.work, e.fast])
            else:
                d = pc.pos_diff(e, v)
            if d:
                ck.violation("%s: %s" % (d, pc.where(pt, st, out, i)), rep)
                break
            c = st["cnc"]
            ck.saw((e.kind, pt, st["zp"] != (0., 0., 0.), st["kin"]["diameter_programming_2x"], c["default_programming"], c["default_motion"],
                    c["default_driver_units"], len(st["tep"]), "".join(a for a in "XYZ" if a in t)),
                   dict(control=pt, block=t, path=v["pr"][1:3], ranges=v["wr"]))
            ck.count(e.kind + "_blocks")
ck.finish(min_distinct=500)
