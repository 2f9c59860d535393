"""Reference simulator of a machine (positions, path, time) and a generator of NC programs over the specified subset.

The simulator is written from the property statements (distance, arc, cycle, feed), not from the code; where the
statements leave something open, the generator does not produce it."""
import math
import nc
from nc import PTYPES

MILLS = ["fanuc_mill", "generic_mill", "haas_mill", "makino_mill"]
LATHES = ["fanuc_lathe_system_a", "fanuc_lathe_system_b", "fanuc_lathe_system_c", "generic_lathe", "haas_lathe"]
TURNS = ["fanuc_millturn_system_a", "fanuc_millturn_system_b"]
SIMPLE = (81, 82, 85, 86, 88, 89)
TAP = (74, 84)
CYCLES = SIMPLE + TAP + (73, 76, 83, 87)
# coordinates in a block with one of these codes are offsets, axes or centres, not a point to move to
OFFSETS = {"10": "XYZR", "50.1": "XYZ", "51.1": "XYZ", "52": "XYZ", "92": "XYZ", "68": "XYZR", "68.2": "XYZIJK", "68.3": "XYZR", "68.4": "XYZIJK"}
PLANE = {17: ("X", "Y", "Z", "I", "J"), 18: ("X", "Z", "Y", "I", "K"), 19: ("Y", "Z", "X", "J", "K")}


def num(r, v, plus=False):
    """A spelling of the decimal number v (at most 3 decimals)."""
    neg = v < 0 or (v == 0 and r.random() < 0.03)
    s = "%.3f" % abs(v)
    i, f = s.split(".")
    f = f.rstrip("0")
    if f and r.random() < 0.3:
        f = f.ljust(r.randint(len(f), 3), "0")
    if not f:
        t = i + r.choice(["", "", ".", ".0"])
    elif i == "0" and r.random() < 0.3:
        t = "." + f
    else:
        t = i + "." + f
    if r.random() < 0.05 and not t.startswith("."):
        t = "0" + t
    return ("-" if neg else "+" if plus and r.random() < 0.05 else "") + t


class Exp:
    """What a block has to give."""
    def __init__(self, kind, r=True, work=0., fast=0., wt=0., ft=0., extra=0., tol=1e-6, alts=(), ttol=None):
        self.kind, self.r, self.work, self.fast, self.wt, self.ft, self.extra = kind, r, work, fast, wt, ft, extra
        self.tol, self.alts = tol, list(alts)        # alts: other (work, fast, key) that are listed findings
        self.ttol = ttol
        self.g18 = None                              # the arc length in the other sense (ZX plane)
        self.pos = self.rng = self.tool = None
        self.info = None                             # what the block exercises
        self.fm = None                               # (feed mode, surface speed) for the time
        self.uncounted = False                       # rejected before it was looked at


def cyc(g, ret, zpre, z, r, q, inc, depth_inc):
    """(cutting, rapid) of one hole of a cycle and the alternatives that are listed findings."""
    m = 2 if ret == 98 else 1
    if inc:
        d, a = abs(z), abs(r)           # R from the initial level, depth from R
    elif depth_inc:
        d, a = abs(z), abs(zpre - r)
    else:
        d, a = abs(r - z), abs(zpre - r)
    alts = []
    if g in SIMPLE:
        return d, m * a + d, alts
    if g in TAP:
        if inc and ret == 99:
            alts.append((2 * d, 0., "g91-g99-tapping"))
        return 2 * d, m * a, alts
    if g == 76:
        if inc:
            alts.append((d, (m - 1) * a + d + 2 * q, "g91-g76"))
        return d, m * a + d + 2 * q, alts
    if g == 87:
        if inc:
            return d, 2 * a + 3 * q + math.hypot(q, z), alts
        return d, abs(2 * a + 4 * q - d), alts
    n = math.floor(d / q)
    if g == 73:
        return d + n * q / 5, m * a + d + (n * q / 5 if inc else 0.), alts
    rest = d - n * q
    lin = d + n * q / 5
    tot = (n * n + n) * q + m * a + (2 * d if rest > 0 else 0.)
    return lin, tot - lin, alts


class Sim:
    def __init__(self, st, inch=False):
        self.st = st
        self.kin = dict(nc.DEF_KIN)
        self.kin.update(st.get("kin") or {})
        self.cnc = dict(nc.DEF_CNC)
        self.cnc.update(st.get("cnc") or {})
        self.zp = dict(zip("XYZ", st.get("zp", (0, 0, 0))))
        off = lambda d: {a: v - self.zp.get(a, 0.) for a, v in d.items()}
        self.mbp = off(nc.DEF_MBP if st.get("mbp") is None else st["mbp"])
        self.tep = off(nc.DEF_TEP if st.get("tep") is None else st["tep"])
        self.default_inch = inch
        self.reset()

    def reset(self):
        c = self.cnc
        self.pos = {a: self.mbp[a] for a in "XYZ"}
        self.rng = {a: [v, v] for a, v in self.pos.items()}
        self.g = c["default_motion"]
        self.inch = self.default_inch
        self.plane = c["default_work_plane"]
        self.abs = c["default_programming"] == 90
        self.fm = c["default_feed_mode"]
        self.ret = c["drill_cycle_return_value"]
        self.f = -1.
        self.s = c["default_rotation"] if c["operator_turns_on_rotation"] else -1.
        self.css = False
        self.holes = 0
        self.cd = (0., 0.)
        self.cd_alts = []
        self.tool = ""
        self.auto = False

    # ---------------------------------------------------------------
    def lathe(self, plane=None):
        return self.st["mtt"] == 1 or (self.st["mtt"] == 2 and (plane or self.plane) == 18)

    def halve(self, plane=None):
        return self.lathe(plane) and not self.kin["diameter_programming_2x"]

    def move(self, to):
        for a, v in to.items():
            self.pos[a] = v
            self.rng[a][0] = min(self.rng[a][0], v)
            self.rng[a][1] = max(self.rng[a][1], v)

    def dist(self, a, b, halve):
        h = 2. if halve else 1.
        return math.sqrt(((a["X"] - b["X"]) / h) ** 2 + (a["Y"] - b["Y"]) ** 2 + (a["Z"] - b["Z"]) ** 2)

    def times(self, e, x0, x1):
        """Fills the times of the motion of e; the speed is that at the mean diameter."""
        k = self.kin
        if e.fast and k["max_fast_feed"] > 0:
            e.ft = 60. * e.fast / k["max_fast_feed"]
        if e.work:
            if self.f < 0:
                e.r = False
                return
            if self.f == 0:
                return
            feed = self.f
            if self.lathe() and self.fm == 95:
                if self.s < 0:
                    e.r = False
                    return
                rpm = self.s
                if self.css:
                    d = (abs(x0) + abs(x1)) / 2 * (1. if self.halve() else 2.)
                    rpm = k["maximum_spindle_speed"]
                    if d > 0:
                        c = self.s * (12. if self.inch else 1000.) / (math.pi * d)
                        rpm = min(rpm, c) if rpm > 0 else c
                feed = self.f * rpm
            if feed > 0:
                e.wt = 60. * e.work / feed

    def step(self, words):
        """words: [(address, text)] of an accepted block (by syntax). Returns an Exp."""
        c, k = self.cnc, self.kin
        val = {}
        gs, ms, t, f, s = [], [], None, None, None
        pdot = False
        for a, x in words:
            if a == "G":
                gs.append(x)
            elif a == "M":
                ms.append(x)
            elif a == "T":
                t = x
            elif a == "F":
                f = float(x)
            elif a == "S":
                s = float(x)
            elif a in "XYZIJKRQLPU":
                val[a] = float(x)
                if a == "P":
                    pdot = "." in x
        gi = [int(x) for x in gs if "." not in x]
        motion = [x for x in gi if x in (0, 1, 2, 3, 80) or x in CYCLES]
        plane = ([x for x in gi if x in (17, 18, 19)] or [None])[-1]
        ab = ([x for x in gi if x in (90, 91)] or [None])[-1]
        fm = ([x for x in gi if x in (94, 95)] or [None])[-1]
        ret = ([x for x in gi if x in (98, 99)] or [None])[-1]
        css = ([x for x in gi if x in (96, 97)] or [None])[-1]
        dwell = 4 in gi
        home = 28 in gi
        exch = False
        extra = 0.
        tx = bool(c["tool_number_executes_exchange"])
        if (not tx and any(int(m) == 6 for m in ms)) or (tx and t is not None):
            exch = True
            extra += k["tool_exchange_time"] + (k["tool_measurement_time"] if k["auto_measure_after_tool_selection"] else 0)
        if not k["auto_measure_after_tool_selection"] and k["tool_measurement_code"] == "M" and \
                k["tool_measurement_code_value"] in ms:
            extra += k["tool_measurement_time"]
        if k["pallet_exchange_code"] == "M" and k["pallet_exchange_code_value"] in ms:
            extra += k["pallet_exchange_time"]
        if t is not None:
            if self.st["mtt"] == 1 and len(t) > 2:
                t = t[:len(t) // 2]
            if exch:
                self.tool = t
                if c["auto_rapid_traverse_after_tool_exchange"]:
                    self.auto = True

        def modal():
            if f is not None:
                self.f = f
            if s is not None:
                self.s = s
            if plane:
                self.plane = plane
            if ab:
                self.abs = ab == 90
            if fm:
                self.fm = fm
            if ret:
                self.ret = ret
            if css:
                self.css = css == 96
            for x in gi:
                if x in (20, 21):
                    self.inch = x == 20

        if t is not None and not exch:
            modal()
            return self.done(Exp("select", extra=extra))
        if dwell:
            extra += val.pop("X", 0.) + val.pop("U", 0.) + val.pop("P", 0.) / (1 if pdot else 1000)
        for x in gs:
            for a in OFFSETS.get(x, ""):
                val.pop(a, None)
        if exch or home:
            self.g = 0
        if self.auto and val:
            self.auto = False
            self.g = 0
        if motion:
            self.g = motion[-1]
        modal()
        g = self.g
        x0 = self.pos["X"]
        p0 = dict(self.pos)
        has = any(a not in "PLU" for a in val)
        if exch or home:
            to = {a: v for a, v in (self.tep if exch else self.mbp).items() if a in "XYZ"}
            e = Exp("toolx" if exch else "home", extra=extra)
            if c["rapid_traverse_cancel_cycle"]:
                self.holes = 0
            p1 = dict(self.pos)
            p1.update(to)
            e.fast = self.dist(p0, p1, self.halve())
            self.times(e, x0, p1["X"])
            self.move(to)
            return self.done(e)
        if g in (0, 1):
            if c["rapid_traverse_cancel_cycle" if g == 0 else "linear_interpolation_cancel_cycle"]:
                self.holes = 0
            to = {a: (val[a] if self.abs else self.pos[a] + val[a]) for a in "XYZ" if a in val}
            p1 = dict(self.pos)
            p1.update(to)
            e = Exp("g%d" % g if to else "none", extra=extra)
            d = self.dist(p0, p1, self.halve())
            if g == 0:
                e.fast = d
            else:
                e.work = d
            self.times(e, x0, p1["X"])
            self.move(to)
            return self.done(e)
        if g in (2, 3):
            if not has:
                return self.done(Exp("none", extra=extra))
            if c["circular_interpolation_cw_cancel_cycle" if g == 2 else "circular_interpolation_ccw_cancel_cycle"]:
                self.holes = 0
            a1, a2, a3, i1, i2 = PLANE[self.plane]
            to = {a: (val[a] if self.abs else self.pos[a] + val[a]) for a in (a1, a2) if a in val}
            p1 = dict(self.pos)
            p1.update(to)
            h = 2. if self.halve() and a1 == "X" else 1.
            s1, s2, e1, e2 = p0[a1] / h, p0[a2], p1[a1] / h, p1[a2]
            e = Exp("arc", extra=extra)
            quad = lambda x, y: ((x > 1e-9) - (x < -1e-9), (y > 1e-9) - (y < -1e-9))
            if "R" in val:
                R = abs(val["R"])
                ch = math.hypot(e1 - s1, e2 - s2)
                al = 2 * math.asin(min(1., ch / (2 * R)))
                if val["R"] < 0:
                    al = 2 * math.pi - al
                near = abs(ch / (2 * R) - 1)
                e.work = al * R
                e.info = (self.plane, g, "radius", self.abs, val["R"] < 0, quad(e1 - s1, e2 - s2))
                e.tol = R * (1e-5 if near > 1e-6 else 1e-2) + 1e-6
            else:
                ci, cj = s1 + val[i1], s2 + val[i2]
                R = math.hypot(val[i1], val[i2])
                if abs(s1 - e1) < 1e-9 and abs(s2 - e2) < 1e-9:
                    al = other = 2 * math.pi
                else:
                    al = math.atan2(e2 - cj, e1 - ci) - math.atan2(s2 - cj, s1 - ci)
                    if g == 2:
                        al = -al
                    al %= 2 * math.pi
                    other = 2 * math.pi - al
                e.work = al * R
                e.info = (self.plane, g, "centre", self.abs, al > math.pi, quad(s1 - ci, s2 - cj),
                          "full" if al == other == 2 * math.pi else quad(e1 - ci, e2 - cj))
                if self.plane == 18:
                    e.g18 = other * R
                # ends are given to three decimals: the chord decides the angle, badly so near a half circle
                off = abs(math.hypot(e1 - ci, e2 - cj) - R)
                cs = abs(math.cos(al / 2))
                e.tol = 1e-5 * R + 1e-6 + (8 * (off + 1e-9) / max(cs, math.sqrt(off / R + 1e-9)))
            self.times(e, x0, p1["X"])
            e.ttol = 60. * e.tol * (e.wt / e.work / 60. if e.work else 0.) if e.wt else 1e-6
            self.move(to)
            return self.done(e)
        if g == 80:
            self.holes = 0
            if c["cycle_cancel_starts_rapid_traverse"]:
                self.g = 0
            return self.done(Exp("none", extra=extra))
        # cycles
        if not has:
            return self.done(Exp("none", extra=extra))
        a1, a2, a3 = PLANE[self.plane][:3]
        if self.holes == 0 or "K" in val:
            if a3 not in val or "R" not in val or (g in (73, 83) and not val.get("Q", 0) > 0) or \
                    (g in (76, 87) and "Q" not in val):
                e = Exp("badcycle", r=False, extra=extra)
                e.uncounted = True
                return self.done(e)     # the generator ends the program here
            l, r, alts = cyc(g, self.ret, self.pos[a3], val[a3], val["R"], val.get("Q", 0.), not self.abs,
                             c["drill_cycle_z_value"] == 1)
            self.cd = (l, r)
            self.cd_alts = alts
        n = 1
        if "K" in val:
            n = int(val["K"])
            if self.abs and n > 1:
                n = 1           # not generated
        to = {a: (val[a] if self.abs else self.pos[a] + val[a] * max(n, 1)) for a in (a1, a2) if a in val}
        if self.abs:
            step = math.hypot(*(to.get(a, self.pos[a]) - self.pos[a] for a in (a1, a2)))
        else:
            step = math.hypot(*(val.get(a, 0.) for a in (a1, a2)))
        e = Exp("cycle", extra=extra)
        if n == 0:
            e.fast = step
        else:
            e.work, e.fast = n * self.cd[0], n * (self.cd[1] + step)
            e.alts = [(n * l, n * (r + step), key) for l, r, key in self.cd_alts]
        e.info = (g, self.plane, self.ret, self.abs, c["drill_cycle_z_value"], val.get("K"), min(self.holes, 2))
        self.holes += 1
        p1 = dict(self.pos)
        p1.update(to)
        self.times(e, x0, p1["X"])
        self.move(to)
        return self.done(e)

    def done(self, e):
        e.pos = dict(self.pos)
        e.rng = {a: tuple(v) for a, v in self.rng.items()}
        e.tool = self.tool
        e.fm = ("rev" if self.lathe() and self.fm == 95 else "min", "_css" if self.css and self.lathe() else "")
        return e


# ------------------------------------------------------------------ machines
def machine(r, kind=None, **kw):
    """A random machine: (control type, settings dict, units of the driver)."""
    kind = kind or r.choice(["mill", "mill", "mill", "lathe", "turn"])
    pt = r.choice({"mill": MILLS, "lathe": LATHES, "turn": TURNS}[kind])
    mtt = {"mill": 0, "lathe": 1, "turn": 2}[kind]
    q = lambda lo, hi: round(r.uniform(lo, hi) * 8) / 8
    pts = lambda: {"X": q(-200, 200), "Y": q(-200, 200), "Z": q(0, 500)}
    tep = pts()
    if r.random() < 0.2:
        del tep[r.choice("XYZ")]
    mbp = pts()
    if r.random() < 0.7:
        mbp.update(I=0., J=0., K=0.)
    meas = r.random() < 0.4
    pal = r.random() < 0.4
    kin = dict(max_working_feed=r.choice([5000, 20000, 12345.5]), max_fast_feed=r.choice([10000, 20000, 33333.3, 500]),
               maximum_spindle_speed=r.choice([3000, 10000, 500]), tool_exchange_time=r.choice([0, 1, 6, 17]),
               pallet_exchange_time=r.choice([1, 9]), tool_measurement_time=r.choice([0, 3, 11]),
               diameter_programming_2x=r.randint(0, 1), auto_measure_after_tool_selection=int(r.random() < 0.3),
               tool_measurement_code="M" if meas else "", tool_measurement_code_value="44" if meas else "",
               pallet_exchange_code="M" if pal else "", pallet_exchange_code_value="60" if pal else "")
    z = lambda p: int(r.random() < p)
    inch = z(0.25)
    cnc = dict(default_motion=z(0.4), default_work_plane=r.choice([17, 17, 18, 19]) if kind != "lathe" else 18,
               default_driver_units=inch, default_programming=91 if r.random() < 0.2 and not pt.endswith("_a") else 90,
               default_feed_mode=r.choice([94, 95]) if kind != "mill" else 94,
               drill_cycle_z_value=z(0.3), drill_cycle_return_value=r.choice([98, 99]),
               rapid_traverse_cancel_cycle=z(0.4), linear_interpolation_cancel_cycle=z(0.4),
               circular_interpolation_cw_cancel_cycle=z(0.4), circular_interpolation_ccw_cancel_cycle=z(0.4),
               cycle_cancel_starts_rapid_traverse=z(0.5), operator_turns_on_rotation=z(0.15),
               default_rotation=r.choice([500, 1200]), tool_number_executes_exchange=z(0.8 if kind == "lathe" else 0.3),
               auto_rapid_traverse_after_tool_exchange=z(0.3))
    st = dict(mt={"mill": r.choice([0, 1, 7]), "lathe": r.choice([12, 13, 14]), "turn": 16}[kind], mtt=mtt, mbp=mbp, tep=tep,
              kin=kin, cnc=cnc, zp=(q(-50, 50), q(-50, 50), q(-50, 50)) if r.random() < 0.5 else (0., 0., 0.))
    for k, v in kw.items():
        if k in cnc:
            cnc[k] = v
        elif k in kin:
            kin[k] = v
        else:
            st[k] = v
    return kind, pt, st, bool(inch)


# ------------------------------------------------------------------ programs
PYTH = [(16, 63), (63, 16), (25, 60), (60, 25), (33, 56), (56, 33), (39, 52), (52, 39), (65, 0), (0, 65)]


class Prog:
    """Generates a program for a machine; out: [(text, Exp)]."""
    def __init__(self, r, kind, pt, st, inch, w=None):
        self.r, self.kind, self.pt = r, kind, pt
        self.sim = Sim(st, inch)
        self.out = []
        self.w = dict(lin=6, arc=0, cycle=0, tool=0.6, home=0.3, dwell=0.4, none=1, bad=0.4, select=0.2)
        self.w.update(w or {})
        self.can_inc = not pt.endswith("_a")
        self.n = 10
        self.stop = False

    def emit(self, words, comment=True):
        r = self.r
        seen = set()                    # no M code twice; one only on a Haas control, an exchange first
        for w in sorted([w for w in words if w[0] == "M"], key=lambda w: int(w[1]) != 6):
            if int(w[1]) in seen or (seen and "haas" in self.pt):
                words = [x for x in words if x is not w]
            seen.add(int(w[1]))
        e = self.sim.step(words)
        if max(abs(v) for v in self.sim.pos.values()) > 8500:
            self.stop = True            # near the word ranges
        ws = [a + x for a, x in words]
        t = (" " if r.random() < 0.7 else "").join(ws)
        if r.random() < 0.15:
            t = "N%d " % self.n + t
            self.n += 10
        if comment and r.random() < 0.05:
            t += " (X99 G1)"
        self.out.append((t, e))
        return e

    def g(self, n):
        return ("G", ("0" if n < 10 and self.r.random() < 0.3 else "") + str(n))

    def coord(self, a=None):
        r = self.r
        k = r.random()
        if k < 0.15:
            return float(r.randint(-50, 50))
        if k < 0.2:
            return 0.
        if k < 0.3:
            return round(r.uniform(-1, 1), 3)
        if k < 0.33:
            return round(r.uniform(-8000, 8000), 2)
        return round(r.uniform(-300, 300), r.choice([0, 1, 2, 3]))

    def feed(self):
        r = self.r
        if self.kind != "mill" and self.sim.fm == 95:
            return num(r, r.choice([0.1, 0.25, 0.05, 0.333, 1.5]))
        return num(r, r.choice([100., 250.5, 37.125, 1000., 8.]))

    def spices(self, p=0.15, plane=True, prog=True):
        """Modal words that may join a motion block."""
        r = self.r
        w = []
        if r.random() < p or (self.sim.f < 0 and r.random() < 0.5):
            w.append(("F", self.feed()))
        if r.random() < p:
            w.append(("S", str(r.choice([100, 800, 1500, 2500]))))
        if r.random() < p:
            w.append(("M", r.choice(["3", "04", "5", "8", "9", "8", "44", "060", "60", "044"])))
            if r.random() < 0.1:
                w.append(("M", r.choice(["8", "44", "60"])))
        if plane and self.kind != "lathe" and r.random() < p / 2:
            w.append(self.g(r.choice([17, 18, 19])))
        if prog and self.can_inc and r.random() < p:
            w.append(self.g(r.choice([90, 91])))
        if r.random() < p / 2 and self.kind != "mill" and self.can_inc:
            w.append(self.g(r.choice([94, 95])))
        if r.random() < p / 2 and self.kind != "mill":
            w.append(self.g(r.choice([96, 97])))
        if r.random() < p / 3 and self.kind != "lathe" and self.can_inc:
            w.append(self.g(r.choice([98, 99])))
        return w

    def shuffle(self, w):
        self.r.shuffle(w)
        return w

    # --- blocks
    def lin(self):
        r, s = self.r, self.sim
        w = self.spices()
        modal = s.g in (0, 1) and not (s.auto)
        if not modal or r.random() < 0.5:
            w.append(self.g(r.choice([0, 1])))
        axes = [a for a in "XYZ" if r.random() < 0.6] or [r.choice("XYZ")]
        for a in axes:
            v = self.coord(a)
            if r.random() < 0.1 and s.abs:
                v = round(s.pos[a], 3)      # stay
            w.append((a, num(r, v)))
        self.emit(self.shuffle(w))

    def arc(self):
        r, s = self.r, self.sim
        if s.auto:
            return self.lin()
        pre = []
        if self.kind != "lathe" and r.random() < 0.4:
            pre = [self.g(r.choice([17, 18, 19]))]
        if self.can_inc and r.random() < 0.2:
            pre.append(self.g(r.choice([90, 91])))
        if pre and r.random() < 0.5:
            self.emit(list(pre))
            pre = []
        plane = next((int(x) for a, x in pre if x in ("17", "18", "19")), s.plane)
        ab = next((x == "90" for a, x in pre if x in ("90", "91")), s.abs)
        a1, a2, a3, i1, i2 = PLANE[plane]
        g = r.choice([2, 3])
        w = pre + [x for x in self.spices(0.1, plane=False, prog=False)]
        if s.g != g or r.random() < 0.6:
            w.append(self.g(g))
        halve = s.halve(plane) and a1 == "X"
        useR = halve or r.random() < 0.3
        p1, p2 = s.pos[a1], s.pos[a2]
        if useR:
            while True:
                sc = r.choice([60, 60, 60, 3, 0.3])
                d1, d2 = round(r.uniform(-sc, sc), 2), round(r.uniform(-sc, sc), 2)
                ch = math.hypot(d1 / (2 if halve else 1), d2)
                if ch > sc / 60 and ch > 0.02:
                    break
            R = round(ch / 2 * r.choice([1.01, 1.2, 1.5, 3, 20]) + 0.01, 3)
            if r.random() < 0.4:
                R = -R
            # the end rounded to three decimals
            e1, e2 = round(p1 + d1, 3), round(p2 + d2, 3)
            ends = [(a1, e1 if ab else d1), (a2, e2 if ab else d2)]
            w += [(a, num(r, v)) for a, v in ends] + [("R", num(r, R))]
            return self.emit(self.shuffle(w))
        k = r.random()
        if k < 0.65:
            # ends exactly on the circle
            sc = r.choice([0.2, 1, 2, 0.5, 0.1, 0.02, 0.01])
            sa, sb = r.choice(PYTH), r.choice(PYTH)
            sg = lambda q: (q[0] * r.choice([-1, 1]) * sc, q[1] * r.choice([-1, 1]) * sc)
            st, en = sg(sa), sg(sb)
            if r.random() < 0.1:
                en = st
            i, j = -st[0], -st[1]
            d1, d2 = en[0] - st[0], en[1] - st[1]
        else:
            R = r.uniform(5, 150)
            t0, t1 = r.uniform(0, 2 * math.pi), r.uniform(0, 2 * math.pi)
            sw = abs(math.sin((t1 - t0) / 2))
            if sw < 0.2 or abs(math.cos((t1 - t0) / 2)) < 0.2:
                return self.arc()
            i, j = round(-R * math.cos(t0), 3), round(-R * math.sin(t0), 3)
            d1, d2 = round(i + R * math.cos(t1), 3), round(j + R * math.sin(t1), 3)
            # put the end onto the circle through the rounded centre
            rr = math.hypot(i, j)
            f = rr / math.hypot(d1 - i, d2 - j)
            d1, d2 = i + (d1 - i) * f, j + (d2 - j) * f
        e1, e2 = round(p1 + d1, 3), round(p2 + d2, 3)
        full = abs(d1) < 1e-9 and abs(d2) < 1e-9
        if not full and math.hypot(e1 - p1, e2 - p2) < 0.05:
            return self.lin()
        ends = [(a1, e1 if ab else d1), (a2, e2 if ab else d2)]
        if full:
            if r.random() < 0.5 or any(abs(round(v, 3) - v) > 1e-12 for v in (p1, p2)):
                ends = []
        else:
            ends = [(a, v) for a, v in ends if not (r.random() < 0.7 and ((not ab and v == 0) or (ab and v == s.pos[a])))]
        w += [(a, num(r, v)) for a, v in ends] + [(i1, num(r, i)), (i2, num(r, j))]
        self.emit(self.shuffle(w))

    def cycle(self):
        r, s = self.r, self.sim
        if self.kind == "lathe" or s.auto or s.lathe():
            return self.lin()
        e8 = lambda lo, hi: round(r.uniform(lo, hi) * 8) / 8
        a1, a2, a3 = PLANE[s.plane][:3]
        # come to a level
        lvl = e8(-20, 100) if r.random() < 0.7 else e8(1, 50)
        self.emit(([self.g(90)] if self.can_inc else []) + [self.g(0), (a3, num(r, lvl)), ("F", self.feed())])
        if self.can_inc and r.random() < 0.35:
            self.emit([self.g(91)])
        di = s.cnc["drill_cycle_z_value"] == 1
        cs = list(CYCLES)
        if di:
            cs.remove(87)
        g = r.choice(cs)
        if s.holes:
            self.emit([self.g(80)])
        for _ in range(r.choice([1, 1, 2])):
            self.hole_first(g, a1, a2, a3, e8)
            if self.stop:
                return
            for _ in range(r.randint(0, 3)):
                w = [(a, num(r, self.coord())) for a in (a1, a2) if r.random() < 0.7] or [(a1, num(r, self.coord()))]
                if r.random() < 0.1:
                    w = self.shuffle(w + self.spices(0.2, plane=False, prog=False))
                    w = [x for x in w if x not in (("G", "98"), ("G", "99"))]
                if r.random() < 0.1 and s.abs:
                    w.append(self.g(g))
                if r.random() < 0.1:
                    self.none()
                if s.g == g:
                    self.emit(w)
            k = r.random()
            if k < 0.75:
                self.emit([self.g(80)])
                g = r.choice(cs)
            else:
                # leave by a motion; the settings say whether that cancels
                self.leave(a1, a2)
                if s.holes:
                    # not cancelled: the cycle goes on where it is called again
                    self.emit([self.g(g), (a1, num(r, self.coord()))])
                    self.emit([self.g(80)])
                if not s.abs:
                    pass
            if self.sim.g not in (0, 1):
                self.emit([self.g(r.choice([0, 1])), ("X", num(r, self.coord()))])

    def leave(self, a1, a2):
        r, s = self.r, self.sim
        k = r.choice([0, 0, 1, 2, 2, 3, 3])
        if k < 2:
            return self.emit([self.g(k), ("X", num(r, self.coord()))])
        d1, d2 = round(r.uniform(5, 60), 1) * r.choice([-1, 1]), round(r.uniform(-60, 60), 1)
        e1, e2 = round(s.pos[a1] + d1, 3), round(s.pos[a2] + d2, 3)
        R = round(math.hypot(d1, d2) / 2 * r.choice([1.1, 2, 5]) + 0.01, 3)
        self.emit([self.g(k), (a1, num(r, e1 if s.abs else d1)), (a2, num(r, e2 if s.abs else d2)), ("R", num(r, R))])

    def hole_first(self, g, a1, a2, a3, e8):
        r, s = self.r, self.sim
        pre = s.pos[a3]
        e8_ = e8
        if r.random() < 0.15 and not (s.abs and s.cnc["drill_cycle_z_value"] == 1):
            # drilled upwards: everything is mirrored
            e8 = lambda lo, hi: -e8_(lo, hi)
        if s.abs:
            lev = pre - e8(0, 15) if r.random() < 0.9 else pre
            d = e8(0.25, 60)
            if g == 87:
                # back boring: down to R, up to the depth
                lev = pre - e8(10, 60)
                z = lev + e8(0, 10)
            elif s.cnc["drill_cycle_z_value"] == 1:
                z = d * r.choice([-1, -1, 1])
            else:
                z = lev - d
            R = lev
        else:
            R, z = -e8(0, 15), -e8(0.25, 60)
            if g == 87:
                R, z = -e8(10, 60), e8(0.125, 10)
        w = [self.g(g), (a3, num(r, z)), ("R", num(r, R))]
        for v in (z, R, pre):
            if abs(round(v, 3) - v) > 1e-12:
                self.stop = True
                return
        if g in (73, 83, 76, 87):
            w.append(("Q", num(r, e8_(0.25, 12) if g in (73, 83) else r.choice([0.25, 0.5, 1., 2.]))))
        for a in (a1, a2):
            if r.random() < 0.8:
                w.append((a, num(r, self.coord())))
        if self.can_inc and r.random() < 0.3:
            w.append(self.g(r.choice([98, 99])))
        k = r.random()
        if not s.abs and k < 0.4:
            w.append(("K", str(r.choice([0, 1, 2, 3, 7]) if r.random() < 0.8 else r.randint(8, r.choice([60, 400])))))
        elif s.abs and k < 0.15:
            w.append(("K", r.choice(["0", "1"])))
        if r.random() < 0.2:
            w.append(("P", "500"))
        w += [x for x in self.spices(0.1, plane=False, prog=False) if x[1] not in ("98", "99")]
        self.emit(self.shuffle(w))

    def tool(self):
        r, s = self.r, self.sim
        n = r.randint(1, 9)
        if r.random() < 0.2:
            n = r.randint(10, 99 if self.kind == "lathe" else min(9999, nc.profile(self.pt).words["metric"]["T"]["rt"]))
        if self.kind == "lathe":
            t = r.choice(["%02d%02d" % (n, n), "%d%02d" % (n, n) if False else "%02d00" % n, "%d" % n])
        else:
            t = str(n)
        w = [("T", t)]
        if not s.cnc["tool_number_executes_exchange"]:
            if r.random() < 0.15:
                w = []
            w.append(("M", r.choice(["6", "06"])))
        elif "haas" not in self.pt and r.random() < 0.2:
            w.append(("M", "8"))
        if r.random() < 0.25:
            w += [("M", m) for m in r.sample(["44", "60", "5", "9"], r.choice([1, 1, 2]))]
        self.emit(self.shuffle(w))

    def select(self):
        s = self.sim
        if s.cnc["tool_number_executes_exchange"] or s.cnc["auto_rapid_traverse_after_tool_exchange"] or not s.tool:
            return self.none()
        self.emit([("T", str(self.r.randint(1, 9)))] + ([("S", "900")] if self.r.random() < 0.2 else []) +
                  ([("F", self.feed())] if self.r.random() < 0.2 else []))

    def home(self):
        r = self.r
        w = [("G", "28")] + ([("X", "0"), ("Y", "0"), ("Z", "0")] if r.random() < 0.3 else [])
        if r.random() < 0.3:
            w.insert(r.choice([0, 0, 1]), self.g(r.choice([40, 49, 54, 61, 64])))
        self.emit(w)

    def dwell(self):
        r, s = self.r, self.sim
        w = r.choice(["P", "X", "U"])
        t = (str(r.randint(0, 5000)) if r.random() < 0.6 else num(r, r.choice([0.5, 1.25, 3.])).replace("-", "")) if w == "P" \
            else num(r, r.choice([0.5, 1., 2.25, 10.]))
        if w == "P" and "." not in t and r.random() < 0.2:
            t = "0"
        self.emit([self.g(4), (w, t)])

    def none(self):
        r, s = self.r, self.sim
        k = r.randrange(9)
        if k == 7 and self.kind == "mill" and s.g in (0, 1):
            return self.offset()
        if k == 8 and s.g in (0, 1):
            self.emit([self.g(r.choice([20, 21]))])
        elif k == 0:
            self.emit([("M", r.choice(["8", "9", "5", "01", "44", "60"]))])
        elif k == 1:
            self.emit([("F", self.feed())])
        elif k == 2:
            self.emit([("S", str(r.randint(1, 3000))), ("M", "3")])
        elif k == 3:
            self.out.append((r.choice(["(G1 X100)", "N%d" % self.n, "O1234", "N%d (comment)" % self.n]), self.sim.step([])))
            self.n += 10
        elif k == 4:
            self.emit([self.g(r.choice([40, 49, 54, 61, 64]))])
        elif k == 5 and self.can_inc and s.g in (0, 1):
            self.emit([self.g(r.choice([90, 91]))])
        elif k == 6 and self.kind != "lathe" and s.g in (0, 1):
            self.emit([self.g(r.choice([17, 18, 19]))])
        else:
            self.emit([("M", "8")])

    def offset(self):
        """A coordinate system, mirror axis or centre of rotation is set: no motion."""
        r = self.r
        c = r.choice(list(OFFSETS))
        w = [(a, num(r, self.coord())) for a in "XYZ" if r.random() < 0.6]
        if c == "10":
            w += [("L", "2"), ("P", str(r.randint(1, 6)))]
        if c in ("10", "68", "68.3") and r.random() < 0.5:
            w.append(("R", num(r, round(r.uniform(-180, 180), 2))))
        if c in ("68.2", "68.4"):
            w += [(a, num(r, round(r.uniform(-90, 90), 1))) for a in "IJK"]
        self.emit([("G", c)] + self.shuffle(w))

    def bad(self):
        r, s = self.r, self.sim
        t = r.choice(["G1 X%s Y" % num(r, self.coord()), "G1 X1 X2 F100", "G0 X%s Y5 ?" % num(r, self.coord()),
                      "G1 Z100 F", "X10 Y20 S99999999", "T99999999 M6", "G4 P", "G9999 X5"])
        e = s.done(Exp("bad", r=False))
        e.uncounted = True
        self.out.append((t, e))

    def run(self, n):
        kinds, ws = zip(*[(k, v) for k, v in self.w.items() if v > 0])
        r = self.r
        if r.random() < 0.8:
            self.emit([("F", self.feed()), ("S", str(r.choice([500, 1000, 2000])))])
        while len(self.out) < n and not self.stop:
            getattr(self, r.choices(kinds, ws)[0])()
            # a cycle, an arc or a cancelled cycle without a motion code is followed by one that says what it is
            if self.sim.g not in (0, 1) and r.random() < 0.5:
                self.emit([self.g(r.choice([0, 1])), (r.choice("XYZ"), num(r, self.coord()))])
        return self.out


def near(a, b, tol):
    return abs(a - b) <= tol + 1e-9 * max(abs(a), abs(b)) if math.isfinite(a) else False


def case(pt, st, out, cmd="pg", **new):
    kw = dict(vcg=0, calc=1, ncs=0, zpa=0)
    kw.update(new)
    return [nc.new("a", pt, **kw), nc.settings("a", **st), ["rm", "a"], ["rp", "a"]] + \
        [[cmd, "a", i, t] for i, (t, e) in enumerate(out)]
