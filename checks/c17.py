"""C17: macro variables in words, latest assignment per line, system variables."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim, gen
import pathchk as pc
from nc import Check, rng, THOROUGH, PTYPES, profile

ck = Check("C17", "twin programs, one with macro variables as word values and one with the numbers written out (motion programs and every word of "
           "every control with values in and out of range): verdicts, paths, times and ranges have to agree; programs of assignments, "
           "uses, re-evaluated lines and modal words against a model of the latest assignment per line; non-trivial: distinct "
           "(part, control, word, sign, verdict, kind of value)")
r = rng("c17")
M = 1 if not THOROUGH else 12
pre = pc.preamble()


def canon(v):
    s = "%.6f" % v
    s = s.rstrip("0").rstrip(".")
    return "0" if s in ("-0", "") else s


def big(v):
    """Text of an assigned value; the numbers written in expressions have a range, too."""
    if abs(v) < 9999:
        return canon(v)
    k = int(abs(v) // 9000)
    s = canon(abs(v) - 9000 * k)
    return "-9000*%d-%s" % (k, s) if v < 0 else "9000*%d+%s" % (k, s)


cases, meta = [], []
# --- twin motion programs
WORD = re.compile(r"([A-Z])([-+]?(?:\d+\.?\d*|\.\d+))")
for c in range(900 * M):
    kind, pt, st, inch = sim.machine(r)
    p = sim.Prog(r, kind, pt, st, inch, dict(arc=1.5, cycle=0.8, tool=0.8, bad=0))
    out = p.run(r.randint(4, 22))
    A, B, tags = [], [], []
    ids = r.sample(range(100, 150), 6)
    have = {}
    for t, e in out:
        body = t.split("(")[0]
        ws = WORD.findall(body)
        if not ws or "".join(a + v for a, v in ws) != body.replace(" ", "") or ws[0][0] == "O":
            A.append(t)
            B.append(t)
            tags.append(None)
            continue
        free = [v for v in ids]
        r.shuffle(free)
        wa, wb, used = [], [], []
        for a, v in ws:
            f = float(v)
            if a == "N" or (a == "T" and kind == "lathe") or r.random() < 0.55 or not free or "." in v and a == "P" or (f == 0 and v[0] == "-"):
                wa.append(a + v)
                wb.append(a + v)
                continue
            sg = r.choice(["", "", "", "", "-", "+"])
            if f == 0 and sg == "-":
                sg = ""
            m = -f if sg == "-" else f
            # an assigned variable with this value, or a new assignment
            old = [k for k, x in have.items() if x == m and k in free]
            k = old[0] if old and r.random() < 0.7 else free[0]
            free.remove(k)
            if have.get(k) != m:
                x = canon(m) if r.random() < 0.6 else "[%s+%s]" % (canon(m - 2), "2") if canon(m - 2) == repr(m - 2).rstrip("0").rstrip(".") else canon(m)
                # what the variable held before must not matter
                A.append("#%d=%s" % (k, x))
                B.append("#%d=%s" % (k, x))
                tags.append(None)
                have[k] = m
            wa.append("%s%s#%d" % (a, sg, k))
            wb.append(a + canon(f))
            used.append(a + sg)
        j = r.choice([" ", " ", ""])
        A.append(j.join(wa))
        B.append(j.join(wb))
        tags.append((tuple(used), e.kind))
    head = sim.case(pt, st, [])
    cases.append(head + [["pg", "a", i, t] for i, t in enumerate(A)])
    cases.append(head + [["pg", "a", i, t] for i, t in enumerate(B)])
    meta.append(("twin", pt, A, B, tags))

# --- every word, values in and out of range
for pt in PTYPES:
    for c in range(12 * M):
        u = r.choice(["metric", "metric", "imperial"])
        words = profile(pt).words[u]
        addrs = [a for a in gen.plain_addresses(words) if a not in ("N", ":", "/", "GOTO", "O") and not words[a]["type"] == "numbering"]
        A, B, tags = [], [], []
        for _ in range(60):
            a = r.choice(addrs)
            d = words[a]
            t = gen.good_value(r, d) if r.random() < 0.5 else gen.bad_value(r, d)[0]
            if t in ("", "-", "+", "."):
                continue
            f = float(t)
            cn = canon(f)
            if abs(f) > 1e6 or len(cn.partition(".")[2]) > 4 or ("." in cn and d["dt"] > 0 and len(cn.split(".")[1]) > len(str(d["dt"]))):
                continue
            if -1 < f < 0 and d["rf"] >= 0:
                continue
            sg = r.choice(["", "", "", "-"]) if f else ""
            k = r.choice([1, 2, 33, 100, 149, 500])
            x = big(-f if sg else f)
            n = r.choice(["", "", "N7 "])
            A += ["#%d=%s" % (k, x), "%s%s%s#%d" % (n, a, sg, k)]
            B += ["#%d=%s" % (k, x), "%s%s%s" % (n, a, cn)]
            tags += [None, ((a + sg,), "good" if d["rf"] <= f <= d["rt"] else "bad")]
        head = [nc.new("a", pt, vcg=r.randint(0, 1), calc=0, ncs=0, zpa=0), nc.settings("a", cnc=dict(default_driver_units=int(u != "metric"))), ["rm", "a"], ["rp", "a"]]
        cases.append(head + [["pg", "a", i, t] for i, t in enumerate(A)])
        cases.append(head + [["pg", "a", i, t] for i, t in enumerate(B)])
        meta.append(("word", pt, A, B, tags))

res = nc.run_cases(pre, cases)
for k, (part, pt, A, B, tags) in enumerate(meta):
    ca, cb, ra, rb = cases[2 * k], cases[2 * k + 1], res[2 * k], res[2 * k + 1]
    for c, x in ((ca, ra), (cb, rb)):
        if x["crash"]:
            ck.crash(c, x["crash"], pre=pre)
    if ra["crash"] or rb["crash"]:
        continue
    rep = lambda: nc.script(pre) + nc.script(ca) + nc.script(cb)
    for i, (a, b, tg) in enumerate(zip(ra["ev"][4:], rb["ev"][4:], tags)):
        if "exc" in a or "exc" in b:
            ck.violation("exception %s at %r" % ((a, b), A[i]), rep)
            break
        if tg is None:
            if a["r"] != b["r"] or (A[i].startswith("#") and not a["r"]):
                if A[i].startswith("#"):
                    ck.violation("%s: the assignment %r is %s" % (pt, A[i], "rejected: %s" % a["m"]), rep)
                break
            continue
        used, kind = tg
        for x in used:
            ck.saw((part, pt, x, kind, a["r"]), dict(part=part, control=pt, block=A[i], twin=B[i], verdict=a["r"], path=a.get("pr")))
        ck.count(part + ("_accepted" if a["r"] else "_rejected"))
        d = None
        if a["r"] != b["r"]:
            d = "verdicts %s (%s) and %s (%s)" % (a["r"], a["m"], b["r"], b["m"])
        elif part == "twin":
            for q in ("pr", "tr"):
                if a[q][4] != b[q][4] or not all(sim.near(x, y, 1e-6) for x, y in zip(a[q][:4], b[q][:4])):
                    d = "%s %s and %s" % ("paths" if q == "pr" else "times", a[q], b[q])
            if a["wr"].keys() != b["wr"].keys() or any(not sim.near(x, y, 1e-6) for w in a["wr"] for x, y in zip(a["wr"][w], b["wr"][w])):
                d = "ranges %s and %s" % (a["wr"], b["wr"])
        if d:
            ck.violation("%s: %r and its twin %r have %s; before: %r" % (pt, A[i], B[i], d, A[max(0, i - 8):i]), rep)
            break

# --- the store
SYS = dict(B=4102, D=4107, E=4108, F=4109, H=4111, M=4113, S=4119, N=4114)
cases, meta = [], []
for c in range(900 * M):
    pt = r.choice(sim.MILLS)
    words = profile(pt).words["metric"]
    st = dict(mt=0, mtt=0, cnc=dict(tool_number_executes_exchange=0))
    cmds = [nc.new("a", pt, vcg=0, calc=1, ncs=0, zpa=0), nc.settings("a", **st), ["rm", "a"], ["rp", "a"]]
    m = [None] * 4
    store = {(3101, -1): 3.141592653589793, (3102, -1): 2.718281828459045}
    ids = r.sample(range(1, 34), 2) + r.sample(range(100, 200), 3) + r.sample(range(500, 999), 1)
    kinds = {}          # line -> (what, id)
    top = 0

    def at(v, line):
        ls = [l for (i, l) in store if i == v and l <= line]
        return store[(v, max(ls))] if ls else None

    def latest(v):
        ls = [l for (i, l) in store if i == v]
        return store[(v, max(ls))] if ls else None

    for j in range(r.randint(8, 40)):
        q = r.random()
        if kinds and q < 0.15:
            line = r.choice(list(kinds))
            what, v = kinds[line]
        else:
            line = top
            top += r.choice([1, 1, 1, 2, 5])
            what = r.choice(["assign", "assign", "assign", "copy", "use", "use", "use", "sys", "sys", "unassigned", "tool"])
            v = r.choice(ids)
            kinds[line] = (what, v) if what != "sys" else ("use", v)
        if what == "copy":
            w = r.choice(ids + [3101] + [x for x in SYS.values() if latest(x) is not None])
            if at(w, line) is None or at(w, line) != latest(w):
                what = "assign"
        if what == "assign":
            x = round(r.uniform(-500, 500), r.choice([0, 1, 3]))
            cmds.append(["p", "a", line, r.choice(["#%d=%s", "#%d = %s", "N1 #%d=%s"]) % (v, canon(x))])
            if cmds[-1][3].startswith("N"):
                for b in (0, 200, 400):
                    store[(4114 + b, line)] = 1.
            store[(v, line)] = float(canon(x))
            m.append(("ok", what, None))
        elif what == "copy":
            if w == v:
                cmds.append(["p", "a", line, "#%d=#%d+1" % (v, w)])
                store[(v, line)] = at(w, line) + 1
                kinds.pop(line)     # once more would count on
            else:
                cmds.append(["p", "a", line, "#%d=#%d" % (v, w)])
                store[(v, line)] = at(w, line)
            m.append(("ok", what, None))
        elif what == "use":
            vs = [v] + (r.sample(ids, r.randint(1, 2)) if r.random() < 0.5 else [])
            ax = r.sample("XYZ", len(vs))
            xs = [at(x, line) for x in vs]
            cmds.append(["pg", "a", line, "G90 G0 " + " ".join("%s#%d" % x for x in zip(ax, vs))])
            if None in xs:
                m.append(("no", "use before assignment", "#%d" % vs[xs.index(None)]))
            else:
                m.append(("ok", "use", [(a, round(x, 3)) for a, x in zip(ax, xs) if abs(x * 1000 - round(x * 1000)) < 0.4]))
        elif what == "unassigned":
            v = r.choice([x for x in range(200, 260)])
            a = r.choice("XYZFSMG")
            cmds.append(["p", "a", line, r.choice(["M8 %s#%d", "%s#%d"]) % (a, v) if a != "M" else "M#%d" % v])
            kinds.pop(line, None)
            if r.random() < 0.4:        # not an assignment
                if r.random() < 0.5:
                    v = r.choice(ids)
                cmds[-1][3] = r.choice(["#%d X1.5", "#%d Y2 Z3", "Y1 #%d X1.5", "#%d", "X1.5 #%d", "#%d ="]) % v
                m.append(("no", "not assigned", "#%d" % v))
            else:
                m.append(("no", "unassigned", "#%d" % v))
        elif what == "tool":
            n = r.randint(1, 9)
            cmds.append(["p", "a", line, "T%d M6" % n])
            for b in (0, 200, 400):
                store[(4120 + b, line)] = float(n)
                store[(4113 + b, line)] = 6.
            m.append(("ok", "tool", None))
        else:
            ws = []
            for a in r.sample([x for x in SYS if x in words], r.randint(1, 3)):
                d = words[a]
                n = r.randint(max(1, d["rf"]), min(d["rt"], 999))
                t = str(n)
                if d["dt"] and r.random() < 0.4:
                    t += "." + str(r.randint(1, min(9, d["dt"])))
                if a == "M":
                    t = r.choice(["8", "9", "5", "03"])
                val = float(t)
                if a in "BE" and d["rf"] < 0 and r.random() < 0.4:
                    t, val = "-" + t, -val
                if a != "N" and r.random() < 0.2 and latest(v) is not None:
                    # through a variable
                    u = at(v, line)
                    if u is not None and u == int(u) and max(1, d["rf"]) <= u <= d["rt"] and a in "FS":
                        t, val = "#%d" % v, u
                ws.append((a, t))
                for b in (0, 200, 400):
                    store[(SYS[a] + b, line)] = val
            ws.sort(key=lambda x: x[0] != "N")
            cmds.append(["p", "a", line, " ".join(a + t for a, t in ws)])
            m.append(("ok", "sys", tuple(a for a, t in ws)))
        if r.random() < 0.1 or j == 7:
            cmds.append(["lm", "a", line])
            m.append(("lm", line, {i: x for (i, l), x in store.items() if l == line}))
    cmds.append(["mv", "a"])
    m.append(("mv", None, dict(store)))
    cases.append(cmds)
    meta.append((pt, m))
same = lambda a, b: a.keys() == b.keys() and all(sim.near(a[k], b[k], 1e-9) for k in a)
for cmds, res, (pt, m) in zip(cases, nc.run_cases(pre, cases), meta):
    if res["crash"]:
        ck.crash(cmds, res["crash"], pre=pre)
        continue
    rep = lambda cmds=cmds: nc.script(pre) + nc.script(cmds)
    for i, (c, x, e) in enumerate(zip(cmds, m, res["ev"])):
        if x is None:
            continue
        d = None
        if "exc" in e:
            d = "exception %s" % e["exc"]
        elif x[0] == "ok":
            if not e["r"]:
                d = "is rejected: %s" % e["m"]
            elif x[1] == "use":
                for a, v in x[2]:
                    if not sim.near(e["wr"][a][1], v, 1e-6):
                        d = "moves %s to %r, the variable's value there is %r" % (a, e["wr"][a][1], v)
        elif x[0] == "no":
            if e["r"]:
                d = "is accepted" if x[1] == "not assigned" else "is accepted, the variable has no value there"
            elif not re.search(re.escape(x[2]) + r"(?!\d)", e["m"] or ""):
                d = "is rejected without naming %s: %r" % (x[2], e["m"])
        elif x[0] == "lm":
            g = {k: v for k, v in e["lm"]}
            if not same(g, x[2]) or len(g) != len(e["lm"]):
                d = "gives the variables of line %d as %s, expected %s" % (x[1], e["lm"], x[2])
        else:
            g = {(k, l): v for k, l, v in e["mv"]}
            if not same(g, x[2]) or len(g) != len(e["mv"]):
                d = "gives other variables than assigned: %s, missing %s" % (
                    {k: v for k, v in g.items() if x[2].get(k) != v}, {k: v for k, v in x[2].items() if g.get(k) != v})
        ck.saw((x[0], x[1] if x[0] in ("ok", "no") else "", pt, x[2] if x[1] == "sys" else len(cmds) if x[0] == "mv" else None),
               dict(control=pt, block=c[2:], got=str(e)[:200]))
        ck.count("store_" + (x[1] if x[0] in ("ok", "no") else x[0]).replace(" ", "_"))
        if d:
            ck.violation("%s: %s %s; before: %r" % (pt, c[2:], d, [y[2:] for y in cmds[max(4, i - 12):i]]), rep)
            break
ck.finish(min_distinct=400)
