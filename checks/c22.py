"""C22: conservation of path and time."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim, gen
import pathchk as pc
from sim import near
from nc import Check, rng, THOROUGH, PTYPES, profile

ck = Check("C22", "simulated programs with tool changes, arcs, cycles, dwells and rejected blocks, and hostile programs of random words on "
           "random machines; after every block the totals against the previous totals plus the block's parts (exactly the expected "
           "dwell and exchange time where the program is simulated), the totals per tool against the sums of its blocks; "
           "non-trivial: distinct (kind of block or its words' addresses, control, verdict, tool known/returned)")
r = rng("c22")
N = 2500 if not THOROUGH else 15000
H = 1500 if not THOROUGH else 12000
EPS = 1e-6


def follow(pt, blocks, ev, rep, exps=None, st=None):
    """blocks: texts. The online checker of the totals."""
    P = T = 0.
    tools = {}
    sums = {}
    for i, (t, v) in enumerate(zip(blocks, ev)):
        e = exps[i] if exps else None
        if "exc" in v:
            return "exception %s" % v["exc"], i
        p, q = v["pr"], v["tr"]
        for x in p[:4] + q[:4]:
            if not math.isfinite(x):
                return "a total is not a number: path %r time %r" % (p, q), i
        dp, dt = p[0] - P, q[0] - T
        tol = 1e-9 * (abs(p[0]) + abs(P)) + EPS
        tolt = 1e-9 * (abs(q[0]) + abs(T)) + EPS
        if dp < -tol or dt < -tolt:
            return "the total decreases by %g path, %g time" % (-dp, -dt), i
        part, tpart = p[1] + p[2], q[1] + q[2]
        if min(p[1], p[2], q[1], q[2]) < -EPS:
            return "a part is negative: path %r time %r" % (p[1:3], q[1:3]), i
        counted = True
        if v["r"]:
            if not near(dp, part, tol):
                return "total path grows by %g, the block's parts are %g + %g" % (dp, p[1], p[2]), i
            x = dt - tpart
            if x < -tolt:
                return "total time grows by %g, less than the block's parts %g + %g" % (dt, q[1], q[2]), i
            if e is not None and not e.uncounted and not near(x, e.extra, tolt):
                return "total time grows by %g, expected the parts %g + %g and %g" % (dt, q[1], q[2], e.extra), i
        else:
            if near(dp, 0., tol):
                counted = False
            elif not near(dp, part, tol):
                return "a rejected block adds %g to the total path, its parts are %g + %g" % (dp, p[1], p[2]), i
            if dt > tpart + (e.extra if e else 1e9) + tolt:
                return "a rejected block adds %g to the total time, its parts are %g + %g" % (dt, q[1], q[2]), i
        tool = p[4]
        if q[4] != tool:
            return "the tool of the path is %r, of the time %r" % (tool, q[4]), i
        if e is not None and tool != e.tool:
            return "the current tool is %r, expected %r" % (tool, e.tool), i
        if tool:
            old = tools.get(tool, (0., 0.))
            d3, d4 = p[3] - old[0], q[3] - old[1]
            if d3 < -tol or d4 < -tolt:
                return "the totals of tool %s go from %r to %r" % (tool, old, (p[3], q[3])), i
            if v["r"]:
                if not near(d3, part, tol) or not near(d4, tpart, tolt):
                    return "the totals of tool %s go from %r to %r, the block's parts are %r and %r" % (tool, old, (p[3], q[3]), p[1:3], q[1:3]), i
            elif not (near(d3, 0., tol) or near(d3, part, tol)) or not (near(d4, 0., tolt) or near(d4, tpart, tolt)):
                return "a rejected block changes the totals of tool %s from %r to %r" % (tool, old, (p[3], q[3])), i
            tools[tool] = (p[3], q[3])
        P, T = p[0], q[0]
        k = (e.kind if e else tuple(sorted(set(a for a in t if a.isalpha())))[:9])
        ck.saw((k, pt, v["r"], bool(tool), len(tools)), dict(control=pt, block=t, verdict=v["r"], path=p, time=q))
        ck.count("accepted" if v["r"] else "rejected")
        ck.count("blocks_with_motion" if part else "blocks_without_motion")
        if tool:
            ck.count("blocks_with_a_tool")
    return None, None


for kind, pt, st, out, ev, rep in pc.judged(ck, r, N, dict(arc=1.5, cycle=1, tool=2, dwell=1, bad=1)):
    texts = [t for t, e in out]
    # from the first motion that is not as simulated the expectations do not hold any more; the totals still have to
    exps = [e for t, e in out]
    d, i = follow(pt, texts, ev, rep, exps, st)
    if d:
        ck.violation("%s: %s" % (d, pc.where(pt, st, out, i)), rep)

# hostile programs
pre = pc.preamble()
cases, meta = [], []


def hostile(r, words, kind):
    ws = []
    for _ in range(r.randint(1, 6)):
        a = r.choice("GGGGXYZXYZIJKRQFSTMPLUVWKAC")
        if a == "G":
            n = r.choice([0, 1, 2, 3, 4, 17, 18, 19, 20, 21, 28, 53, 54, 73, 74, 76, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 94, 95, 96, 97, 98, 99,
                          r.randint(0, 200)])
            ws.append("G%d" % n)
        elif a == "M":
            ws.append("M%d" % r.choice([3, 4, 5, 6, 6, 30, 44, 60, 1]))
        elif a == "T":
            ws.append("T%s" % r.choice(["1", "2", "3", "0101", "0202", "12"]))
        elif a in "KL" and r.random() < 0.7:
            ws.append("%s%d" % (a, r.randint(0, 9)))
        else:
            v = r.choice([r.uniform(-300, 300), r.uniform(-2, 2), 0., 99999., -99999., r.uniform(0, 1e-3)])
            if a in "FSPTL":
                v = abs(v)
            ws.append("%s%s" % (a, ("%.*f" % (r.choice([0, 1, 3]), v)) if a not in "ST" else "%d" % v))
    if r.random() < 0.1:
        ws.append(r.choice(["#1", "?", "X", "G", "(open", "#100=5", "Q#100"]))
    return " ".join(ws)


for k in range(H):
    kind, pt, st, inch = sim.machine(r)
    if r.random() < 0.3:
        st["kin"]["max_fast_feed"] = r.choice([0, 0.5, 1e9])
    if r.random() < 0.3:
        st["kin"]["maximum_spindle_speed"] = 0
    cmds = [nc.new("a", pt, vcg=r.randint(0, 1), calc=1, ncs=r.randint(0, 1), zpa=r.randint(0, 1)), nc.settings("a", **st), ["rm", "a"], ["rp", "a"]]
    words = profile(pt).words["metric"]
    texts = []
    for j in range(r.randint(5, 40)):
        texts.append(gen.rich_block(r, words)[0] if r.random() < 0.1 else hostile(r, words, kind))
    cases.append(cmds + [["pg", "a", j, t] for j, t in enumerate(texts)])
    meta.append((pt, texts))
for c, R, (pt, texts) in zip(cases, nc.run_cases(pre, cases), meta):
    rep = lambda c=c: nc.script(pre) + nc.script(c)
    if R["crash"]:
        ck.crash(c, R["crash"], pre=pre)
        continue
    d, i = follow(pt, texts, R["ev"][4:], rep)
    if d:
        ck.violation("%s: %s, hostile block %d %r after %r" % (d, pt, i, texts[i], texts[max(0, i - 6):i]), rep)
ck.finish(min_distinct=500)
