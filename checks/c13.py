"""C13: acceptance of a block of plain words against the word table, in isolation and after other blocks."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, gen
from nc import Check, rng, profile, THOROUGH, PTYPES

ck = Check("C13", "a block of plain words (values at and around the limits of the control's word table, missing values, "
           "repeated once-only words, unknown addresses) judged by the real parser; non-trivial: distinct "
           "(table, units, set of addresses, reason of rejection)")
r = rng("c13")
N1 = 3000 if not THOROUGH else 30000         # single blocks per control
N2 = 120 if not THOROUGH else 1000           # programs per control
NR = 200 if not THOROUGH else 2000           # random tables


def reserved(words):
    """Addresses whose border with the next word could be read in two ways are kept apart by blanks anyway."""
    return ()


def expect(words, ws, verdict, haas, ev):
    if verdict and haas and ev and sum(1 for w in ws if w.addr == "M") > 1:
        return False
    return verdict


cases, meta = [], []
pre = []
for pt in PTYPES:
    p = profile(pt)
    pre += p.preamble()
    for k in range(N1 // 30):
        unit = r.choice(["metric", "metric", "imperial"])
        ev = 1 if unit == "imperial" or r.random() < 0.3 else 0
        cmds = [nc.new("a", pt, ev=ev, vcg=0, calc=0, ncs=0, zpa=0), nc.settings("a", cnc=dict(default_driver_units=0 if unit == "metric" else 1)), ["rm", "a"]]
        m = []
        for j in range(30):
            bad = r.random() < 0.5
            excl = ("G",) if ev else ()
            t, ws, v, why = gen.block(r, p.words[unit], bad, exclude=excl, maxw=6 if j % 5 else 25, once=j % 10 == 0)
            cmds.append(["p", "a", j, t])
            m.append((t, ws, expect(p.words[unit], ws, v, "haas" in pt, ev), why, unit))
        cases.append(cmds)
        meta.append((pt, 3, m, "single"))
    # histories with unit changes: the table of a block is the one selected by the blocks before it
    for k in range(N2):
        du = r.choice([0, 1])
        cmds = [nc.new("a", pt, ev=1, vcg=0, calc=0, ncs=0, zpa=0), nc.settings("a", cnc=dict(default_driver_units=du)), ["rm", "a"]]
        unit = "metric" if du == 0 else "imperial"
        m = []
        for j in range(25):
            c = r.random()
            words = p.words[unit]
            if c < 0.25:
                g = r.choice([20, 21])
                t, ws, v, why = gen.block(r, words, r.random() < 0.3, exclude=("G",), maxw=3, optional=False)
                ok = expect(words, ws, v, "haas" in pt, 1)
                txt = r.choice(["G%d", "G%03d"]) % g
                t = txt + " " + t if r.random() < 0.5 or not ok else t + " " + txt
                cmds.append(["p", "a", j, t])
                m.append((t, ws, ok, why or "units", unit))
                if ok:
                    unit = "imperial" if g == 20 else "metric"
            else:
                # values that only one of the tables allows are the interesting ones
                a = r.choice([x for x in gen.plain_addresses(words) if x != "G"])
                other = p.words["imperial" if unit == "metric" else "metric"][a]
                if r.random() < 0.6 and other != words[a]:
                    v = gen.good_value(r, other)
                    d = words[a]
                    ip, _, fp = v.lstrip("+-").partition(".")
                    iv = int(ip or 0) * (-1 if v[0] == "-" else 1)
                    ok = d["rf"] <= iv <= d["rt"] and (("." not in v) if d["dt"] == 0 else (not fp or d["df"] <= int(fp) <= d["dt"]))
                    t = a + v
                    ws = [gen.Word(a, t, ok, v)]
                    cmds.append(["p", "a", j, t])
                    m.append((t, ws, ok, "other units", unit))
                else:
                    t, ws, v, why = gen.block(r, words, r.random() < 0.5, exclude=("G",))
                    cmds.append(["p", "a", j, t])
                    m.append((t, ws, expect(words, ws, v, "haas" in pt, 1), why, unit))
        cases.append(cmds)
        meta.append((pt, 3, m, "history"))

# tables nobody wrote: any ranges for any address
for k in range(NR):
    name = "rnd%d" % k
    words = {}
    for a in r.sample(list("ABCDEFGHIJKLMNPQRSTUVWXYZ") + [",C", ",R"], r.randint(6, 20)):
        rf = r.choice([0, 1, -9, -99, -9999, 5, -99999, r.randint(-500, 500)])
        rt = rf + r.choice([0, 1, 9, 99, 99999, r.randint(0, 5000)])
        dt = r.choice([0, 0, 9, 99, 999, 9999, 99999, r.randint(1, 500)])
        df = r.choice([0, 0, 0, min(dt, r.randint(0, 5))]) if dt else 0
        words[a] = dict(rf=rf, rt=rt, df=df, dt=dt, unique=r.random() < 0.4, type="misc")
    if "N" not in words:
        words["N"] = dict(rf=1, rt=99999, df=0, dt=0, unique=False, type="numbering")
    for t in "MI":
        for a, d in words.items():
            pre.append(["gr", name, t, a, d["rf"], d["rt"], d["df"], d["dt"], 1 if d["unique"] else 0, nc.WT.index(d["type"])])
    cmds = [nc.new("a", "fanuc_mill", ev=0, vcg=0, calc=0, ncs=0, zpa=0, name=name), nc.settings("a"), ["rm", "a"]]
    m = []
    for j in range(30):
        t, ws, v, why = gen.block(r, words, r.random() < 0.5, optional=False, maxw=6 if j % 5 else 25, once=j % 10 == 0)
        # a fraction of .x without whole part or a value 0 that the sign makes "-0" are not generated
        cmds.append(["p", "a", j, t])
        m.append((t, ws, v, why, "metric"))
    cases.append(cmds)
    meta.append((name, 3, m, "random table"))

for cmds, res, (pt, skip, m, kind) in zip(cases, nc.run_cases(pre, cases), meta):
    if res["crash"]:
        ck.crash(cmds, res["crash"], pre=pre)
        continue
    for (t, ws, want, why, unit), ev in zip(m, res["ev"][skip:]):
        ck.saw((pt, unit, tuple(sorted(w.addr for w in ws)), why), dict(control=pt, units=unit, block=t, accepted=ev.get("r"), expected=want))
        ck.count("accepted" if want else "rejected")
        ck.count("blocks_" + kind.replace(" ", "_"))
        if "exc" in ev:
            ck.violation("an exception escaped for %r on %s: %s" % (t, pt, ev["exc"]), nc.script(pre) + nc.script(cmds))
        elif ev["r"] != want:
            ck.violation("%s (%s, %s): block %r was %s but the word table %s it (%s); message %r" %
                         (pt, unit, kind, t, "accepted" if ev["r"] else "rejected", "allows" if want else "forbids",
                          why, ev["m"]), nc.script(pre) + nc.script(cmds))
ck.finish(min_distinct=500)
