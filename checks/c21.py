"""C21: machining time."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import pathchk as pc
from sim import near
from nc import Check, rng, THOROUGH

ck = Check("C21", "programs of motions, cycles, dwells, tool, measurement and pallet exchanges with all feed modes; the cutting and rapid "
           "time of every block against the path it reported and the feed that is active in the reference simulator, the rest of the "
           "total time against dwells and exchanges; non-trivial: distinct (kind of block, control, feed mode, surface speed, "
           "diameter programming, units, extra time)")
r = rng("c21")
N = 4000 if not THOROUGH else 20000
for kinds, W in (((None,), dict(dwell=1.5, tool=1.2, none=2.5, arc=1, cycle=1)), (("lathe", "turn"), dict(dwell=1, arc=1, cycle=0.5, tool=0.8))):
    for kind, pt, st, out, ev, rep in pc.judged(ck, r, N // 2, W, kinds=kinds):
        prev = 0.
        for i, ((t, e), v) in enumerate(zip(out, ev)):
            if "exc" in v:
                ck.violation("exception %s: %s" % (v["exc"], pc.where(pt, st, out, i)), rep)
                break
            d = None
            tot, wt, ft = v["tr"][:3]
            if pc.pos_diff(e, v):
                break               # not this property
            if e.uncounted:
                prev = tot
                continue
            w, f = v["pr"][1:3]
            mf = st["kin"]["max_fast_feed"]
            xft = 60. * f / mf
            if e.kind == "none" and (w or f):
                break
            if e.work and not e.r and v["r"]:
                d = "a cut without a feed is accepted"
            elif not near(ft, xft, 1e-6):
                d = "the rapid time of %g at feed %g is %g" % (f, mf, ft)
            elif not near(tot - prev - wt - ft, e.extra, 1e-6 * (1 + abs(prev))):
                d = "dwells and exchanges take %g, expected %g" % (tot - prev - wt - ft, e.extra)
            elif e.work > 0 and e.r and v["r"]:
                x = e.wt / e.work * w
                if not near(wt, x, 1e-6):
                    d = "the cutting time of %g is %g, expected %g" % (w, wt, x)
            elif not e.work and not w and wt:
                d = "no cut takes the cutting time %g" % wt
            if d:
                ck.violation("%s: %s" % (d, pc.where(pt, st, out, i, 10)), rep)
                break
            prev = tot
            ck.saw((e.kind, pt, e.fm, st["kin"]["diameter_programming_2x"], st["cnc"]["default_driver_units"], round(e.extra, 3)),
                   dict(control=pt, block=t, path=v["pr"][1:3], time=v["tr"][:3]))
            ck.count(e.kind + "_blocks")
            ck.count("feed_mode_%s%s" % e.fm)
            if e.extra:
                ck.count("blocks_with_extra_time")
ck.finish(min_distinct=500)
