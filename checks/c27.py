"""C27: splitting a program: conservation of blocks, order, numbering and the place of every cut."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, gen
from nc import Check, rng, profile, THOROUGH, PTYPES

ck = Check("C27", "generated programs split by blocks, tool changes, time, path and text, with and without retraction line and "
           "'only at rapid traverse', as words and as text; the whole result is compared with the parts a reference makes of "
           "the written blocks (work path and time taken block by block from a second parser); non-trivial: distinct (mode, "
           "options, number of parts, reasons why cuts were put off)")
r = rng("c27")
NP = 200 if not THOROUGH else 1500       # programs per control
MODES = ["block_numbers", "tool_change", "time", "path", "text"]


def coord(r):
    return r.choice(["%d." % r.randint(-50, 50), "%d" % r.randint(-50, 50), "%.3f" % r.uniform(-50, 50), "0"]).replace("-0.000", "0")


def program(r, p, exact, mill, rc, lc):
    """List of (text, words). exact: only motions that the parser evaluates without complaint."""
    words = p.words["metric"]
    out = []
    g = None
    cyc = False
    nl = r.choice([0, 1, 3, 8, 20, 40, 60])
    num = r.random() < 0.5
    feed = False
    for i in range(nl):
        c = r.random()
        ws = []
        if c < 0.05:
            out.append((r.choice(["", " ", "\t"]), []))
            continue
        if c < 0.09:
            out.append(r.choice([("%", [["%", ""]]), ("O12", [["O", "12"]]), ("(A b G0)", [["(", "A b G0)"]])]))
            continue
        if c < 0.12:
            n = r.randint(100, 120)
            out.append(("#%d=5" % n, [["#", str(n)], ["=", "5"]]))
            continue
        if c < 0.16 and not exact:
            t, w, lst = gen.rich_block(r, words, exclude=("G", "M", "T"), raw=0, special=0, optional=False)
            out.append((t, lst))
            continue
        ax = "XYZ" if mill else "XZ"
        if cyc:
            if r.random() < 0.25:
                ws = ["G80"]
                cyc = False
                if rc and r.random() < 0.4:
                    ws, g = ["G0", "X" + coord(r)], 0
                elif lc and r.random() < 0.6:
                    ws, g = ["G1", "X" + coord(r)], 1
            else:
                ws = [a + coord(r) for a in "XY"]
        elif mill and r.random() < 0.06:
            ws = ["G%d" % r.choice([81, 82, 85] if exact else [81, 83, 73, 89]), "X" + coord(r), "Y" + coord(r), "Z-%d." % r.randint(1, 20), "R5.", "F100"]
            if ws[0][1:] in ("83", "73"):
                ws.append("Q2.")
            cyc = feed = True
        elif r.random() < 0.08:
            ws = ["T%d" % r.randint(1, 20), "M%s" % r.choice(["6", "06"])] if mill and r.random() < 0.8 else [r.choice(["M8", "M9", "M5"])]
        else:
            k = r.random()
            if g is None or k < 0.5:
                g = r.choice([0, 1, 1])
                ws = [r.choice(["G%d", "G0%d"]) % g]
                if r.random() < 0.3:                # codes of other groups with it
                    ws.insert(r.randrange(2), r.choice(["G90", "G40", "G17" if mill else "G18", "G64", "G49" if mill else "G40"]))
            if g == 1 and (not feed or r.random() < 0.1):
                ws.append("F%d" % r.randint(50, 900))
                feed = True
            ws += [a + coord(r) for a in r.sample(ax, r.randint(1, len(ax)))]
        lead = []
        if r.random() < 0.06 and not cyc and ws[0][0] not in "GTM":
            lead = [r.choice(["/", "/1", "/3"])]
        elif num and r.random() < 0.7:
            lead = ["N%d" % ((i + 1) * 10)]
        if r.random() < 0.08:
            ws.append("(cut %d)" % i)
        ws = lead + ws
        lst = []
        for w in ws:
            m = re.match(r"\(|/|[A-Z]", w)
            lst.append([w[0], w[1:]])
        out.append((r.choice([" ", " ", "  "]).join(ws), lst))
    return out


class Num:
    def __init__(self):
        self.n = 1

    def __call__(self, lst):
        if not lst or lst[0][0] in ("/", "%", "O", "("):
            return lst
        rest = lst[1:] if lst[0][0] in ("N", ":") else lst
        o = [["N", str(self.n)]] + rest
        self.n += 1
        if self.n > 99999:
            self.n = 1
        return o


def cuts(prog, mode, opt, meas, tex, rc, lc):
    """Indexes of the blocks that begin a new part, and why some were put off."""
    out = []
    why = set()
    acc = 0.0
    g, cyc, tools = -1, False, 0
    for i, (t, lst) in enumerate(prog):
        if g > 3:
            g = -1
        tool = False
        for a, v in lst:
            if a == "/":
                break
            if a == "G":
                n = int(v)
                if n <= 3:
                    g = n
                elif n == 80:
                    g, cyc_now = 80, False
                    cyc = False
                elif n in (73, 81, 82, 83, 85, 89):
                    g, cyc = n, True
                if n == 0 and rc or n == 1 and lc:
                    cyc = False
            elif a == "M" and int(v) == 6 and not tex:
                tool, tools = True, tools + 1
            elif a == "T" and tex:
                tool, tools = True, tools + 1
        inside = (g == -1 and cyc) or g == 80
        if mode == "text":
            if opt["text"] in t:
                out.append(i)
            continue
        if mode == "tool_change":
            if tool and tools > 1:
                out.append(i)
            continue
        lim = {"block_numbers": opt["step"], "time": opt["time"], "path": opt["path"]}[mode]
        if acc >= lim:
            if inside:
                why.add("cycle")
            elif opt["rapid"] and g != 0:
                why.add("not rapid")
            else:
                out.append(i)
                acc = 0.0
        acc += 1 if mode == "block_numbers" else meas[i]
    return out, why


cases, meta, pre = [], [], []
for pt in PTYPES:
    p = profile(pt)
    pre += p.preamble()
    mill = "mill" in pt and "turn" not in pt
    for k in range(NP):
        mode = r.choice(MODES)
        exact = mode in ("time", "path")
        tex = int(r.random() < 0.3)
        rc, lc = int(r.random() < 0.4), int(r.random() < 0.3)
        prog = program(r, p, exact, mill, rc, lc)
        opt = dict(step=r.choice([1, 2, 3, 5, 10, 100]), time=r.choice([1, 5, 20, 60]), path=r.choice([1, 10, 50, 200]),
                   text=r.choice(["G0", "T", "M6", "X", "(", "N", "cut 1", "no such", "%", " "]), rapid=int(r.random() < 0.4),
                   retr=r.choice(["", "", "G0 Z100.", "M5", "(retract)", "N5 G0 Z10."]))
        bad = None
        c = r.random()
        if c < 0.06:
            bad = "settings"
            if mode in ("tool_change", "text"):
                mode = r.choice(["block_numbers", "time", "path"])
            opt[{"block_numbers": "step", "time": "time", "path": "path"}[mode]] = r.choice([0, -1, -100])
        elif c < 0.1:
            bad = "retraction"
            opt["retr"] = "$?X"
            if mode == "text":
                mode = "block_numbers"
        elif c < 0.16 and prog:
            bad = "block"
            prog[r.randrange(len(prog))] = ("X5. $$", None)
        st = dict(mt=0 if mill else 1, cnc=dict(tool_number_executes_exchange=tex, rapid_traverse_cancel_cycle=rc, linear_interpolation_cancel_cycle=lc))
        cmds = [nc.new("b", pt, ev=1, vcg=0, calc=1, ncs=0, zpa=0), nc.settings("b", **st), ["rm", "b"],
                nc.new("a", pt, ev=r.choice([0, 1]), vcg=0, calc=r.choice([0, 1]), ncs=0, zpa=0), nc.settings("a", **st), ["rm", "a"]]
        n0 = len(cmds)
        if exact:
            for i, (t, lst) in enumerate(prog):
                cmds.append(["pg", "b", i, t])
        a = [MODES.index(mode), opt["step"], opt["time"], opt["path"], opt["text"], opt["rapid"], opt["retr"]] + [t for t, l in prog]
        cmds.append(["sf", "a"] + a)
        cmds.append(["rr", "a"])
        if exact:
            cmds += [["rm", "a"], ["rp", "a"]]
        cmds.append(["sfs", "a"] + a)
        cases.append(cmds)
        meta.append((pt, mode, prog, opt, bad, (tex, rc, lc), exact, n0))

for cmds, res, (pt, mode, prog, opt, bad, tex, exact, n0) in zip(cases, nc.run_cases(pre, cases), meta):
    if res["crash"]:
        ck.crash(cmds, res["crash"], pre=pre)
        continue
    rep = lambda cmds=cmds: nc.script(pre) + nc.script(cmds)
    ev = res["ev"][n0:]
    what = "%s, split by %s %s, %d blocks" % (pt, mode, {k: v for k, v in opt.items() if v not in ("", 0)}, len(prog))
    exc = [e for e in ev if "exc" in e]
    if exc:
        ck.violation("%s: an exception escaped: %s" % (what, exc[0]["exc"]), rep)
        continue
    meas = None
    if exact:
        meas = []
        for (t, l), e in zip(prog, ev):
            if not t.strip():
                meas.append(0.0)
            else:
                meas.append(e["pr" if mode == "path" else "tr"][1])
        if any(not e["r"] for (t, l), e in zip(prog, ev) if t.strip()) and bad is None:
            bad = "block"
        ev = ev[len(prog):]
    e1, e2 = ev[0], ev[-1]
    if bad:
        ck.saw((mode, "refused", bad), dict(settings=what, refused=bad, message=e1["m"]))
        ck.count("refused")
        if e1["r"] or e2["r"] or e1["ch"] or e2["ch"]:
            ck.violation("%s: wrong %s is not refused: %s" % (what, bad, e1), rep)
        elif not e1["m"] and bad == "settings":
            ck.violation("%s: wrong settings are refused without a reason" % what, rep)
        continue
    idx, why = cuts(prog, mode, opt, meas, *tex)
    # a cut decided by rounding is not judged
    if exact:
        lim = opt[mode]
        acc, frag = 0.0, False
        for i, x in enumerate(meas):
            if i in idx:
                acc = 0.0
            acc += x
            frag |= abs(acc - lim) < 1e-6
        if frag:
            ck.inconclusive += 1
            continue
    retr = None
    if opt["retr"]:
        m = {"G0 Z100.": [["G", "0"], ["Z", "100."]], "M5": [["M", "5"]], "(retract)": [["(", "retract)"]],
             "N5 G0 Z10.": [["N", "5"], ["G", "0"], ["Z", "10."]]}
        retr = m[opt["retr"]]
    parts = [[]]
    for i, (t, lst) in enumerate(prog):
        if i in idx:
            if retr:
                parts[-1].append(retr)
            parts.append([retr] if retr else [])
        parts[-1].append(lst)
    num = Num()
    exp = [[num(l) for l in q] for q in parts]
    ck.saw((mode, bool(opt["retr"]), opt["rapid"], min(len(parts), 6), tuple(sorted(why)), pt),
           dict(settings=what, cuts=idx[:10], first_part=[t for t, l in prog[:idx[0] if idx else 3]][:6]))
    ck.count("parts", len(parts))
    ck.count("blocks", len(prog))
    for w in why:
        ck.count("put_off_" + w.replace(" ", "_"))
    if not e1["r"] or e1["ch"] != exp:
        i = next((i for i, (x, y) in enumerate(zip(e1["ch"], exp)) if x != y), None)
        ck.violation("%s: %d parts, expected %d cut before blocks %s; first difference in part %s: %s, expected %s; verdict %s %r" %
                     (what, len(e1["ch"]), len(exp), idx, i, str(e1["ch"][i] if i is not None else "")[:300],
                      str(exp[i] if i is not None else "")[:300], e1["r"], e1["m"]), rep)
        continue
    txt = ["".join(" ".join(a + v for a, v in l) + "\r\n" for l in q) or None for q in exp]
    if not e2["r"] or e2["ch"] != txt:
        ck.violation("%s: the parts as text are %s, expected %s" % (what, str(e2["ch"])[:600], str(txt)[:600]), rep)
ck.finish(min_distinct=100)
