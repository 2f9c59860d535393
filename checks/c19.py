"""C19: arc lengths and end positions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import pathchk as pc
from nc import Check, rng, THOROUGH

ck = Check("C19", "programs rich in arcs (centre or radius, full circles, all quadrants of start and end, all planes, absolute and "
           "incremental, small and large); length and end position of every arc against the geometry; non-trivial: distinct "
           "(control, plane, direction, centre/radius, sign of radius, absolute/incremental, quadrants of start and end)")
r = rng("c19")
N = 4000 if not THOROUGH else 20000
sense = {"same": None, "other": None}
for kind, pt, st, out, ev, rep in pc.judged(ck, r, N, dict(arc=8, lin=3)):
    for i, ((t, e), v) in enumerate(zip(out, ev)):
        if "exc" in v:
            ck.violation("exception %s: %s" % (v["exc"], pc.where(pt, st, out, i)), rep)
            break
        if e.kind != "arc":
            if pc.pos_diff(e, v) or (not e.uncounted and pc.path_ok(e, v) is None):
                break               # not this property; what follows starts elsewhere
            continue
        k = pc.path_ok(e, v)
        d = None
        if e.r and not v["r"]:
            d = "the arc is rejected: %s" % v["m"]
        elif k is None:
            d = "the arc adds cutting and rapid path %r, expected %r (tolerance %g)" % (v["pr"][1:3], [e.work, e.fast], e.tol)
        else:
            d = pc.pos_diff(e, v)
        if e.g18 is not None and abs(e.g18 - e.work) > 3 * e.tol and k is not None:
            # the sense of G2 in the ZX plane is open, but it is one and the same
            me, ot = ("other", "same") if k else ("same", "other")
            if not sense[me]:
                sense[me] = t
            if sense[ot] and not d:
                d = "G2 and G3 of the ZX plane have both senses: this one and %r" % sense[ot]
        if d:
            ck.violation("%s: %s" % (d, pc.where(pt, st, out, i)), rep)
            break
        ck.saw((pt, e.info), dict(control=pt, block=t, length=v["pr"][1], expected=e.work))
        ck.count("arcs")
        ck.count("full_circles" if e.info[-1] == "full" else "arcs_" + e.info[2])
ck.finish(min_distinct=1000)
