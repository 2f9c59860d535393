"""C32: helices and spirals: relations between the lengths of turns, and plain arcs around them."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim
from nc import Check, rng, THOROUGH

ck = Check("C32", "programs of helices (full turns, quarter turns, by centre or radius, several turns, changing heights), spirals, "
           "plain arcs, circles and straight moves between them, in all planes, absolute and incremental; lengths of turns are "
           "compared among each other (same radius and height, four quarters and a full turn, scaled turns, bounds), plain arcs "
           "and spirals with their formula; non-trivial: distinct (kind of block, the block before it, plane, form, "
           "absolute/incremental, first or further turn)")
r = rng("c32")
NPROG = 900 if not THOROUGH else 9000
PY = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (20, 21, 29), (4, 3, 5), (12, 5, 13), (10, 0, 10), (0, 10, 10), (7, 24, 25)]
T = "turn"


class Prog:
    def __init__(self):
        self.out = []                        # (text, expectation)
        self.pos = dict(X=0., Y=0., Z=500.)
        self.abs, self.plane, self.g, self.f = True, 17, None, 100.
        self.last = "start"

    def block(self, to, g=None, extra=(), kind=None, want=None, info=(), force=()):
        """A block that moves to the point {axis: value}; axes that do not change are mostly left out."""
        w = []
        if g is not None and (g != self.g or r.random() < 0.6):
            w.append("G%s%d" % (r.choice(["", "", "0"]), g))
            self.g = g
        for a, v in to.items():
            d = round(v - self.pos[a], 3)
            if d == 0 and a not in force and r.random() < 0.8:
                continue
            w.append(a + sim.num(r, v if self.abs else d))
        w += list(extra)
        if r.random() < 0.1:
            self.f = float(r.choice([50, 100, 250, 1000]))
            w.append("F%d" % self.f)
        if not w:
            return
        r.shuffle(w)
        self.pos.update({a: round(v, 3) for a, v in to.items()})
        self.out.append((" ".join(w), dict(kind=kind, want=want, pos=dict(self.pos), f=self.f, info=(kind, self.last, self.plane, self.abs) + tuple(info))))
        self.last = kind

    def mode(self):
        w = []
        if r.random() < 0.3:
            self.plane = r.choice([17, 18, 19])
            w.append("G%d" % self.plane)
        if r.random() < 0.3:
            self.abs = not self.abs
            w.append("G90" if self.abs else "G91")
        if w:
            self.out.append((" ".join(w), dict(kind="mode", pos=dict(self.pos))))
            if self.last not in ("full", "quarter", "arc", "circle", "spiral"):
                self.last = "mode"

    def axes(self):
        return sim.PLANE[self.plane][:5] + ({17: "K", 18: "J", 19: "I"}[self.plane],)

    def move(self):
        g = r.choice([0, 1])
        to = {a: round(r.uniform(-90, 90), r.choice([0, 1, 3])) for a in "XYZ" if r.random() < 0.7}
        to = {a: v for a, v in to.items() if abs(v - self.pos[a]) > 0.01} or {"X": self.pos["X"] + 5}
        if r.random() < 0.15:
            to = {a: 0. for a in "XYZ" if abs(self.pos[a]) > 0.01} or {"X": 7.}
        d = math.sqrt(sum((v - self.pos[a]) ** 2 for a, v in to.items()))
        self.block(to, g, kind="rapid" if g == 0 else "line", want=(g, d))

    def radius(self):
        a, b, c = r.choice(PY)
        s = r.choice([1, 1, 0.5, 2, 0.1])
        i, j = a * s * r.choice([-1, 1]), b * s * r.choice([-1, 1])
        return i, j, c * s

    def height(self):
        return r.choice([1, 2.5, 5, 0.25, 10]) * r.choice([-1, 1])

    def num(self, a, v):
        return a + sim.num(r, round(v, 3))

    def centre(self, i, j, h):
        a1, a2, a3, i1, i2, i3 = self.axes()
        return [self.num(i1, i), self.num(i2, j), self.num(i3, r.choice([h, h, 0.796, -1, 3]))]

    def full(self):
        a1, a2, a3, i1, i2, i3 = self.axes()
        i, j, R = self.radius()
        byr = r.random() < 0.4
        g = r.choice([2, 3])
        form = lambda h: [self.num("R", R)] if byr else self.centre(i, j, h)
        for n in range(r.choice([1, 1, 2, 3, 5])):
            h = self.height()
            to = {a1: self.pos[a1], a2: self.pos[a2], a3: self.pos[a3] + h}
            first = n == 0
            if not first and r.random() < 0.3:
                i, j, R = self.radius()
                byr = r.random() < 0.5
                again = True
            else:
                again = first or r.random() < 0.3
            self.block(to, g, form(h) if again else [], "full", (T, "full", R, abs(h)),
                       (byr, first, again), force=(a1, a2, a3) if first else (a3,))

    def quarter(self):
        a1, a2, a3, i1, i2, i3 = self.axes()
        byr = r.random() < 0.4
        g = r.choice([2, 3])
        ccw = (g == 3) != (self.plane == 18 and r.random() < 0)    # the sense does not matter for the length
        i, j, R = self.radius()
        done = 0
        for n in range(r.choice([1, 2, 3, 4, 6])):
            h = self.height()
            v = (-i, -j)
            e = (-v[1], v[0]) if ccw else (v[1], -v[0])
            d1, d2 = e[0] - v[0], e[1] - v[1]
            if abs(d1) < 0.01 or abs(d2) < 0.01:
                break
            to = {a1: self.pos[a1] + d1, a2: self.pos[a2] + d2, a3: self.pos[a3] + h}
            w = [self.num("R", R)] if byr else self.centre(i, j, h)
            if not byr and n and r.random() < 0.5:
                w.pop()
            self.block(to, g, w, "quarter", (T, "quarter", R, abs(h)), (byr, n == 0), force=(a1, a2, a3))
            done += 1
            i, j = -e[0], -e[1]
            if byr and r.random() < 0.3:
                i, j, R = self.radius()
        if not done:
            self.move()

    def arc(self):
        """A plain arc or circle; the height may be written though it does not change."""
        a1, a2, a3, i1, i2, i3 = self.axes()
        g = r.choice([2, 3])
        i, j, R = self.radius()
        if r.random() < 0.3:
            to = {a1: self.pos[a1], a2: self.pos[a2], a3: self.pos[a3]}
            self.block(to, g, [self.num(i1, i), self.num(i2, j)], "circle", (g, 2 * math.pi * R), ())
            return
        # half, quarter or three quarters of the circle
        n = r.choice([1, 2])
        v = (-i, -j)
        e = v
        for k in range(n):
            e = (-e[1], e[0])
        to = {a1: self.pos[a1] + e[0] - v[0], a2: self.pos[a2] + e[1] - v[1], a3: self.pos[a3]}
        if n == 1 and r.random() < 0.4:
            self.block(to, g, [self.num("R", R)], "arc", (g, math.pi / 2 * R), ("radius",))
        else:
            q = (g, math.pi * R) if n == 2 else (g, math.pi / 2 * R, 3 * math.pi / 2 * R)
            if n == 1 and self.plane != 18:
                q = (g, math.pi / 2 * R if g == 3 else 3 * math.pi / 2 * R)
            self.block(to, g, [self.num(i1, i), self.num(i2, j)], "arc", q, ("centre",))

    def spiral(self):
        a1, a2, a3, i1, i2, i3 = self.axes()
        i, j, R = self.radius()
        L = r.choice([1, 2, 5, 0.5, 10])
        if r.random() < 0.5:
            w = "L%d" % max(1, L)
            L = max(1, L)
        else:
            q = r.choice([1, 2, 5, 0.5])
            w, L = self.num("Q", q), R / q
        th = 2 * math.pi * L
        length = R / th / 2 * (th * math.sqrt(1 + th * th) + math.asinh(th))
        g = r.choice([2, 3])
        self.block({a1: self.pos[a1] + i, a2: self.pos[a2] + j}, g, [self.num(i1, i), self.num(i2, j), w], "spiral", (g, length), (w[0],),
                   force=(a1, a2))


cases, meta, pre = [], [], []
for pt in sim.MILLS:
    pre += nc.profile(pt).preamble()
for k in range(NPROG):
    pt = r.choice(sim.MILLS)
    p = Prog()
    p.out.append(("G0 G90 G17 G94 X0 Y0 Z0 F100", dict(kind="start", pos=dict(X=0., Y=0., Z=0.))))
    p.pos.update(Z=0.)
    for n in range(r.randint(3, 14)):
        p.mode()
        q = r.choice(["move", "full", "quarter", "arc", "arc", "spiral"])
        if q == "full" and p.last in ("full", "quarter") or q == "quarter" and p.last in ("full", "quarter"):
            p.move()
        getattr(p, q)()
    st = dict(mt=0, mtt=0)
    cases.append([nc.new("a", pt, ev=1, vcg=0, calc=1, ncs=0, zpa=0), nc.settings("a", **st), ["rm", "a"], ["rp", "a"]] +
                 [["pg", "a", i, t] for i, (t, e) in enumerate(p.out)])
    meta.append((pt, p.out))

turns = {}                                  # (kind, R, h) -> (length, block, replay)
close = lambda a, b, e=1e-9: abs(a - b) <= e * max(1., abs(a), abs(b)) + 1e-7
for cmds, res, (pt, out) in zip(cases, nc.run_cases(pre, cases), meta):
    if res["crash"]:
        ck.crash(cmds, res["crash"], pre=pre)
        continue
    rep = lambda cmds=cmds: nc.script(pre) + nc.script(cmds)
    for i, ((t, e), v) in enumerate(zip(out, res["ev"][4:])):
        where = "%s, block %d %r after %r" % (pt, i, t, [x for x, _ in out[max(0, i - 5):i]])
        if "exc" in v or not v["r"]:
            ck.violation("%s: the block is rejected: %s" % (where, v.get("exc") or v["m"]), rep)
            break
        bad = None
        for a in "XYZ":
            if not close(v["wr"][a][1], e["pos"][a], 1e-7):
                bad = "the position of %s is %r, expected %r" % (a, v["wr"][a][1], e["pos"][a])
        want = e.get("want")
        if not bad and want:
            work, fast = v["pr"][1:3]
            if want[0] == T:
                kind, R, h = want[1:]
                n = 1 if kind == "full" else 4
                R, h = round(R, 6), round(h, 6)
                ck.count(kind + "_turns")
                full = work * n             # four quarters are a full turn of four times the height
                key = (R, round(h * n, 6))
                if fast:
                    bad = "a helix adds rapid path %r" % fast
                elif full < math.hypot(2 * math.pi * R, h * n) * (1 - 1e-9):
                    bad = "a turn of radius %g and height %g is only %r long" % (R, h * n, full)
                elif full > 2 * math.pi * (R + h * n) * (1 + 1e-9):
                    bad = "a turn of radius %g and height %g is %r long" % (R, h * n, full)
                elif key in turns and not close(turns[key][0], full, 1e-7):
                    bad = "%s turn of radius %g and height %g is %r long, another (%s) %r (quarters taken four times)" % (
                        kind, R, h, full, turns[key][1], turns[key][0])
                turns.setdefault(key, (full, where, rep))
            else:
                ck.count(e["kind"])
                val = fast if want[0] == 0 else work
                oth = work if want[0] == 0 else fast
                if oth or not any(close(val, x, 1e-5) for x in want[1:]):
                    bad = "cutting and rapid path are %r and %r, expected %r" % (work, fast, want[1:])
            if not bad and work and not close(v["tr"][1], 60 * work / e["f"], 1e-7):
                bad = "time %r for the path %r at feed %g" % (v["tr"][1], work, e["f"])
        if bad:
            ck.violation("%s: %s" % (where, bad), rep)
            break
        if want:
            ck.saw(e["info"], dict(control=pt, block=t, path=v["pr"][1]))
# turns of one shape scaled have lengths in the same ratio, and longer ones are longer
by = {}
for (R, h), (l, where, rep) in turns.items():
    by.setdefault(round(h / R, 6), []).append((R, l, where, rep))
for q, x in by.items():
    x.sort(key=lambda y: y[0])
    for a, b in zip(x, x[1:]):
        ck.count("scaled")
        if not close(a[1] / a[0], b[1] / b[0], 1e-7):
            ck.violation("turns of the same shape, radius %g and %g, are %r and %r long: %s" % (a[0], b[0], a[1], b[1], b[2]), b[3])
ls = sorted(turns)
for i, (R, h) in enumerate(ls):
    for R2, h2 in ls[:i]:
        if R2 <= R and h2 <= h:
            ck.count("ordered")
            if turns[(R2, h2)][0] > turns[(R, h)][0] + 1e-7:
                ck.violation("a turn of radius %g and height %g is longer than one of %g and %g: %s" % (R2, h2, R, h, turns[(R, h)][1]), turns[(R, h)][2])
ck.finish(min_distinct=300)
