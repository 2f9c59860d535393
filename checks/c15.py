"""C15: machine limits, axis ranges and rotation before cutting."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim, gen
import pathchk as pc
from nc import Check, rng, THOROUGH, PTYPES, profile

ck = Check("C15", "programs with speeds, tools and feeds around random machine maxima (plain and by macro variables), motions around random axis "
           "ranges and zero points, and all orders of cutting, speed and rotation words, with the analysis on and off; verdicts "
           "against a reference model; non-trivial: distinct (part, control, word or axis, side of the limit, spelling, analysis, verdict)")
r = rng("c15")
M = 3 if not THOROUGH else 15
pre = pc.preamble()
cases, meta = [], []
MILL = sim.MILLS


def lims(pt):
    k = dict(maximum_spindle_speed=r.choice([1, 100, 999, 3000, 9999]), numer_of_items_in_the_warehouse=r.choice([1, 5, 12, 30, 99]),
             max_working_feed=r.choice([100, 250.5, 20000, 7.25, 999]))
    lathe = "lathe" in pt
    return dict(mtt=1 if lathe else 2 if "millturn" in pt else 0, mt=12 if lathe else 16 if "millturn" in pt else 0, kin=k), k, lathe


# --- limits of words
def limit_word(words, k, lathe, macro):
    """(address, text, over)"""
    a = r.choice("STF")
    side = r.choice(["at", "above", "below", "far", "low", "low"])
    if a == "F":
        m = k["max_working_feed"]
        if m == int(m):
            m = int(m)
        t = {"at": "%s" % m, "above": "%.3f" % (m + r.choice([0.001, 0.5, 0.01])), "below": "%.3f" % (m - r.choice([0.001, 0.25])),
             "far": "%d" % (m * 3 + 10), "low": "%.1f" % (m / 3.)}[side]
        if float(t) > 99999:
            return None
        if macro and r.random() < 0.5 and "." in t:
            t = t.rstrip("0").rstrip(".")
        return a, t, float(t) > m, side
    m = k["maximum_spindle_speed"] if a == "S" else k["numer_of_items_in_the_warehouse"]
    n = {"at": m, "above": m + 1, "below": m - 1, "far": m * 3 + 5, "low": max(1, m // 3)}[side]
    if n < max(0, words[a]["rf"]) or n > words[a]["rt"]:
        return None
    t = str(n)
    if a == "T" and lathe:
        if r.random() < 0.6:
            if n > 99:
                return None
            t = "%02d%02d" % (n, r.choice([0, n if n < 100 else 1, 99]))
            if int(t) > words[a]["rt"]:
                return None
            if t.startswith("0") and (macro or r.random() < 0.35):
                t = t[1:]           # T301 is T0301
                if int(t) < 100:
                    return None
            return a, t, n > m, side + " with offset"
        if n > 99:
            return None
    if not macro and r.random() < 0.15:
        if not (a == "T" and lathe):
            t = "0" + t
    return a, t, n > m, side


for pt in PTYPES:
    words = profile(pt).words["metric"]
    for c in range(25 * M):
        st, k, lathe = lims(pt)
        on = r.random() < 0.8
        cmds = [nc.new("a", pt, vcg=0, calc=0, ncs=int(on), zpa=0), nc.settings("a", **st), ["rm", "a"]]
        if r.random() < 0.2:
            cmds[0] = nc.new("a", pt, vcg=0, calc=0, ncs=int(not on), zpa=0)
            cmds.append(["ps", "a", 1, 0, 0, int(on), 0])
        m = [None] * len(cmds)
        line = 0
        for j in range(30):
            macro = r.random() < 0.25
            ws, over, tags, used = [], False, [], set()
            for _ in range(r.choice([1, 1, 1, 2])):
                x = limit_word(words, k, lathe, macro)
                if x is None or x[0] in used:
                    continue
                used.add(x[0])
                over |= x[2]
                tags.append((x[0], x[3], macro))
                if macro:
                    v = 100 + len(ws)
                    cmds.append(["p", "a", line, "#%d=%s" % (v, x[1])])
                    m.append(("assign", True, None))
                    line += 1
                    ws.append("%s#%d" % (x[0], v))
                else:
                    ws.append(x[0] + x[1])
            if not ws:
                continue
            if r.random() < 0.3:
                ws.append(r.choice(["M8", "G0", "X10", "M5", "G54"]))
            r.shuffle(ws)
            cmds.append(["p", "a", line, " ".join(ws)])
            m.append(("limit", not (over and on), (tuple(tags), on)))
            line += 1
        cases.append(cmds)
        meta.append((pt, st, m))

# --- rotation
CUT = ["G1", "G01", "G81", "G82", "G83", "G84", "G85", "G86", "G87", "G88", "G89", "G001", "G73", "G74", "G76"]
NOCUT = ["G0", "G2", "G3", "G80", "G90", "G17", "G10", "G41", "G4", "G12", "G11", "G18"]
for pt in PTYPES:
    for c in range(60 * M):
        st, k, lathe = lims(pt)
        k.update(maximum_spindle_speed=9999, max_working_feed=99999, numer_of_items_in_the_warehouse=99)
        op = r.random() < 0.2
        st["cnc"] = dict(operator_turns_on_rotation=int(op))
        on = r.random() < 0.85
        cmds = [nc.new("a", pt, vcg=0, calc=0, ncs=int(on), zpa=0), nc.settings("a", **st), ["rm", "a"], ["rp", "a"]]
        m = [None] * 4
        G = Mm = S = rep = False
        pc_, ps_, pm_ = r.choice([(.3, .1, .1), (.15, .3, .3), (.2, .3, .02), (.2, .02, .3), (0.03, .1, .1), (0.3, 0., 0.)])
        for j in range(r.randint(3, 25)):
            if r.random() < 0.04:
                cmds.append(["rp", "a"])
                m.append(None)
                G = Mm = S = rep = False
                continue
            ws, here = [], []
            if r.random() < pc_:
                ws.append(r.choice(CUT))
                here.append("cut")
            elif r.random() < 0.3:
                ws.append(r.choice(NOCUT))
            if r.random() < ps_:
                ws.append("S%d" % r.choice([100, 500, 1]))
                here.append("S")
            if r.random() < pm_:
                ws.append(r.choice(["M3", "M4", "M03", "M04"]))
                here.append("M")
            elif r.random() < 0.2:
                ws.append(r.choice(["M5", "M8", "M30", "M13", "M43", "M14", "M33"]))
            if r.random() < 0.4:
                ws.append("X%d" % r.randint(1, 40))
            if not ws:
                ws = ["(G1)"] if r.random() < 0.3 else ["Y3"]
            if r.random() < 0.1:
                i = r.randrange(len(ws))
                if ws[i][1:].isdigit() and ws[i][0] != "(":
                    cmds.append(["p", "a", 1000 + len(cmds), "#5=%s" % ws[i][1:]])
                    m.append(("assign", True, None))
                    ws[i] = ws[i][0] + "#5"
            r.shuffle(ws)
            G |= "cut" in here
            S |= "S" in here
            Mm |= "M" in here
            ok = True
            if on and op:
                ok = not ("S" in here or "M" in here)
            elif on and G and not (S and Mm) and not rep:
                ok = False
                rep = True
            cmds.append(["p", "a", 1000 + len(cmds), " ".join(ws)])
            m.append(("rotation", ok, (tuple(here), on, op, S, Mm, G, rep)))
        cases.append(cmds)
        meta.append((pt, st, m))


# --- axis ranges
class P(sim.Prog):
    def coord(self, a=None):
        q = self.r.random()
        if a is None or a not in self.axes or q < 0.3:
            return round(self.r.uniform(-100, 100), 3)
        lo, hi = (x - self.sim.zp.get(a, 0.) for x in self.axes[a])
        t = self.r.choice([lo, hi, lo + 0.001, hi - 0.001, lo - 0.001, hi + 0.001, (lo + hi) / 2, (lo + hi) / 2, hi + 50, lo - 50])
        return t if self.sim.abs else round(t - self.sim.pos[a], 3)


for c in range(700 * M):
    e8 = lambda lo, hi: round(r.uniform(lo, hi) * 8) / 8
    axes = {a: (e8(-300, 0), e8(0.5, 300)) for a in "XYZ" if r.random() < 0.85}
    if r.random() < 0.3:
        axes = {a: (lo + o, hi + o) for a, (lo, hi) in axes.items() for o in [r.choice([0, -400, 400])]}
    kind, pt, st, inch = sim.machine(r, "mill", axes=axes, default_driver_units=0, operator_turns_on_rotation=0)
    # mostly points inside
    for pts in (st["mbp"], st["tep"]):
        for a in pts:
            if a in axes and r.random() < 0.85:
                pts[a] = round(r.uniform(axes[a][0], axes[a][1]) * 8) / 8
                pts[a] = min(max(pts[a], axes[a][0]), axes[a][1])
    p = P(r, kind, pt, st, False, dict(tool=0.4, home=0.3, bad=0.2, arc=0.7, cycle=0.25))
    p.axes = axes
    out = p.run(r.randint(5, 40))
    on = r.random() < 0.85
    cmds = sim.case(pt, st, out, cmd="p", ncs=0, zpa=int(on))
    m = [None] * 4
    for t, e in out:
        verdict, side = e.r, "inside"
        if e.kind != "bad":
            outside = False
            for a, (lo, hi) in axes.items():
                v = e.pos[a]
                lo, hi = lo - p.sim.zp.get(a, 0.), hi - p.sim.zp.get(a, 0.)
                if v > hi + 5e-4 or v < lo - 5e-4:
                    outside = True
                    side = a + ("+" if v > hi else "-")
                elif 0 < min(abs(v - lo), abs(v - hi)) < 5e-4:
                    side = "unclear"        # sums of decimal numbers
                elif v in (lo, hi) and side == "inside":
                    side = "at " + a
            if outside and on:
                verdict = False if e.kind in ("g0", "g1", "toolx", "home", "arc", "cycle") else None
            elif side == "unclear" and on:
                verdict = None
        m.append(("range", verdict, (e.kind, side, on)))
    cases.append(cmds)
    meta.append((pt, st, m))

for cmds, res, (pt, st, m) in zip(cases, nc.run_cases(pre, cases), meta):
    if res["crash"]:
        ck.crash(cmds, res["crash"], pre=pre)
        continue
    rep = lambda cmds=cmds: nc.script(pre) + nc.script(cmds)
    for i, (c, x, e) in enumerate(zip(cmds, m, res["ev"])):
        if x is None:
            continue
        part, want, tag = x
        if part == "assign":
            if e.get("r") is not True:
                break
            continue
        if want is None:
            ck.count("either_verdict")
            continue
        ck.saw((part, pt, tag, e.get("r")), dict(part=part, control=pt, block=c[3], verdict=e.get("r"), message=e.get("m"), tag=tag))
        ck.count("%s_%s" % (part, "accepted" if want else "rejected"))
        d = None
        if e.get("r") is not want:
            d = "is %s, expected the opposite" % ("accepted" if e.get("r") else "rejected: %s" % e.get("m", e))
        elif not want and part != "range" and not e.get("m"):
            d = "is rejected without a reason"
        if d:
            ck.violation("%s, %s: %r %s (%s) after %r; settings %s" % (part, pt, c[3], d, tag, [y[3] for y in cmds[max(3, i - 8):i] if len(y) > 3], st), rep)
            break
ck.finish(min_distinct=1000)
