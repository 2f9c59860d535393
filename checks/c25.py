"""C25: renumbering against a reference that knows the written words."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, gen
from nc import Check, rng, profile, THOROUGH, PTYPES

ck = Check("C25", "programs of accepted blocks renumbered with every kind of settings (start, step, frequency, highest number, "
           "existing numbers only, leading zeros) and stripped of their numbers; every returned block is compared with the "
           "written words and the number the reference gives it; non-trivial: distinct (kind of block, settings class, "
           "outcome, wrapped)")
r = rng("c25")
NCASE = 40 if not THOROUGH else 800

cases, meta, pre = [], [], []
for pt in PTYPES:
    p = profile(pt)
    pre += p.preamble()
    words = p.words["metric"]
    numw = [a for a, d in words.items() if d["type"] == "numbering"]
    for k in range(NCASE):
        cmds = [nc.new("a", pt, ev=r.choice([0, 0, 1]), vcg=0, calc=0, ncs=0, zpa=0), nc.settings("a"), ["rm", "a"]]
        m = [None] * 3
        for prog in range(2):
            counter, freq = 1, 0
            w = r.choice(numw)
            d = words[w]
            start = r.choice([1, 10, d["rf"], d["rt"], r.randint(1, 200)])
            step = r.choice([1, 1, 2, 5, 10, 100, r.randint(1, 1000)])
            fr = r.choice([0, 1, 1, 1, 2, 3, 5])
            mx = r.choice([d["rt"], d["rt"], 20, 99, start + step * r.randint(1, 12), r.randint(1, 500)])
            ex, lz = r.random() < 0.25, r.random() < 0.3
            cmds.append(["rr", "a"])
            m.append(None)
            if r.random() < 0.8:
                cmds.append(["srn", "a", start])
                m.append(None)
                counter = start
            for j in range(35):
                t, ws, lst = gen.rich_block(r, words, maxw=4, special=0.3, raw=0.15)
                if any(a == "/" for a, v in lst[1:]) or any(a in numw for a, v in lst[1:]):
                    continue
                if r.random() < 0.04 and lst[0][0] not in ("/", "%", "O", "("):
                    t, lst = "N#%d " % j + t, [["N", "#%d" % j]] + lst
                    if lst[1][0] in numw:
                        continue
                f = lst[0][0]
                rest = lst[1:] if f in numw else lst
                if r.random() < 0.15:
                    cmds.append(["rn", "a", j, t])
                    m.append((t, rest, ("remove", f in numw, f if f in "/%O(" else ""), pt))
                    continue
                wrapped = False
                if f == "/" or f not in numw and ex or f in ("%", "O", "("):
                    exp, what = lst, "kept"
                else:
                    if fr < 2 or freq == 0:
                        n = str(counter)
                        if lz:
                            n = n.rjust(len(str(d["rt"])), "0")
                        exp, what = [[w, n]] + rest, "renumbered" if f in numw else "numbered"
                        counter += step
                        if counter > mx:
                            counter = d["rf"]
                            wrapped = True
                    else:
                        exp, what = rest, "skipped"
                    if fr > 1:
                        freq = (freq + 1) % fr
                cmds.append(["rnm", "a", j, t, w, step, fr, mx, int(ex), int(lz)])
                m.append((t, exp, (what, f if f in "/%O(" else "", min(fr, 3), ex, lz, wrapped, step == 1), pt))
        cases.append(cmds)
        meta.append(m)
for cmds, res, m in zip(cases, nc.run_cases(pre, cases), meta):
    if res["crash"]:
        ck.crash(cmds, res["crash"], pre=pre)
        continue
    rep = lambda cmds=cmds: nc.script(pre) + nc.script(cmds)
    for c, x, e in zip(cmds, m, res["ev"]):
        if x is None:
            continue
        t, exp, key, pt = x
        ck.saw(key + (tuple(a for a, v in exp[:3]),), dict(control=pt, command=c[:1] + c[3:], got=e.get("w")))
        ck.count(key[0])
        if e.get("r") is not True or e.get("w") != exp:
            ck.violation("%s: %s of %r (settings %s) gives %s, expected %s" % (pt, key[0], t, c[4:], e, exp), rep)
            break
ck.finish(min_distinct=300)
