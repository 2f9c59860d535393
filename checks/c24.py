"""C24: unit conversion against an exact decimal conversion of the written words."""
import os, re, sys
from decimal import Decimal, ROUND_HALF_UP, ROUND_HALF_DOWN, ROUND_HALF_EVEN, getcontext
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, gen
from nc import Check, rng, profile, THOROUGH, PTYPES
getcontext().prec = 60

ck = Check("C24", "accepted and rejected blocks of every control converted between millimetres and inches; each returned word is "
           "compared with the written one (unchanged) or with an exact decimal conversion rounded to the places of the "
           "target table; converted blocks are parsed again with the target units; non-trivial: distinct (control, "
           "direction, set of addresses, kinds of words)")
r = rng("c24")
NCASE = 30 if not THOROUGH else 600
LEN = ("length", "feed")


def converted(v, d, dirn):
    """The texts allowed for the value v converted into the table row d."""
    s = v
    sign = ""
    if s[0] in "+-":
        sign, s = s[0], s[1:]
    x = Decimal(s if s[0] != "." else "0" + s)
    x = x / Decimal("25.4") if dirn == 0 else x * Decimal("25.4")
    p = len(str(d["dt"])) if d["dt"] > 0 else 0
    q = Decimal(1).scaleb(-p)
    outs = set()
    for m in (ROUND_HALF_UP, ROUND_HALF_DOWN, ROUND_HALF_EVEN):
        outs.add(x.quantize(q, rounding=m))
    return sign, outs


def same_number(got, sign, outs):
    m = re.fullmatch(r"([+-]?)(\d*)(\.(\d*))?", got)
    if not m or not (m.group(2) or m.group(4)) or m.group(1) != sign:
        return False
    return Decimal((m.group(2) or "0") + "." + (m.group(4) or "0")) in outs


def expect(lst, tgt, dirn):
    """[(word, text or (sign, values))] of the converted block."""
    out = []
    off = False
    code = lambda a, v, p: a == "G" and re.fullmatch(p, v) is not None
    g68 = any(code(a, v, r"0*68(\.[234])?") for a, v in lst)      # direction and angle of a rotation, wherever they stand
    dwell = any(code(a, v, r"0*4(\.\d*)?") for a, v in lst)       # X and U of this block are a time
    for i, (a, v) in enumerate(lst):
        if i == 0 and a == "/":
            off = True
        g = re.fullmatch(r"0*(\d+)(\.\d+)?", v) if a == "G" else None
        if off or a in ("(", "O", "%", "IF", "EQ", "GOTO", "/"):
            out.append((a, v))
            continue
        if g and g.group(1) == "4":
            off = True
            out.append((a, v))
        elif g and g.group(1) in ("20", "21") and not g.group(2):
            n = {("20", 1): "21", ("21", 0): "20"}.get((g.group(1), dirn))
            out.append((a, v if n is None else int(n)))
        elif g:
            out.append((a, v))
        elif dwell and a in ("X", "U"):
            out.append((a, v))
        elif "#" in v or "[" in v or "]" in v or a in ("#", "="):
            out.append((a, v))
        elif g68 and a in "IJKR":
            out.append((a, v))
        elif a in tgt and tgt[a]["type"] in LEN:
            out.append((a, converted(v, tgt[a], dirn)))
        else:
            out.append((a, v))
    return out


cases, meta, pre = [], [], []
for pt in PTYPES:
    p = profile(pt)
    pre += p.preamble()
    for k in range(NCASE):
        dirn, ev, unit = r.choice([(0, 0, "metric"), (0, 1, "metric"), (1, 1, "imperial"), (1, 0, "metric")])
        tgt = p.words["imperial" if dirn == 0 else "metric"]
        words = p.words[unit]
        cmds = [nc.new("a", pt, ev=ev, vcg=0, calc=0, ncs=0, zpa=0), nc.settings("a", cnc=dict(default_driver_units=0 if unit == "metric" else 1)), ["rm", "a"]]
        # b reads the converted blocks with the target units
        cmds += [nc.new("b", pt, ev=1, vcg=0, calc=0, ncs=0, zpa=0), nc.settings("b", cnc=dict(default_driver_units=1 - dirn if dirn == 1 else 1)), ["rm", "b"]]
        m = []
        for j in range(40):
            if r.random() < 0.12:
                t, ws, v, why = gen.block(r, words, True, exclude=("G", "M"))
                if why in ("unknown", "duplicate"):
                    continue
                cmds.append(["cl", "a", j, t, dirn])
                m.append((t, None))
                continue
            fixed = []
            if r.random() < 0.35:
                fixed.append(r.choice(["G4", "G04", "G21", "G20", "G021", "G020", "G68", "G28", "G94", "G71"] if ev == 0 else
                                      ["G4", "G04", "G21" if dirn == 0 else "G20", "G68", "G28"]))
            if ev == 0 and r.random() < 0.06:
                fixed.append(r.choice(["G68.2", "G68.3", "G68.4"]) if words["G"]["dt"] >= 4 else "G68")
            place = None
            if fixed and r.random() < 0.4:
                place = fixed.pop()
                for a in r.sample("XUFIJKRZ", r.randint(1, 4)):
                    if a in words:
                        fixed.append(a + gen.good_value(r, words[a]))
                fixed.insert(r.randrange(len(fixed) + 1), place)
            elif ev == 0 and r.random() < 0.06:
                fixed.append(r.choice(["G#4", "G#68", "G#20", "G#21", "G-#4"]))
            t, ws, lst = gen.rich_block(r, words, fixed=fixed, exclude=("G", "M") if ev else ("G",),
                                        raw=0 if ev else 0.15, special=0 if ev else 0.1)
            if any(a == "/" for a, v in lst[1:]):
                continue
            cmds.append(["cl", "a", j, t, dirn])
            m.append((t, lst))
        cases.append(cmds)
        meta.append((pt, dirn, ev, unit, tgt, m))

again, ameta = [], []
for cmds, res, (pt, dirn, ev, unit, tgt, m) in zip(cases, nc.run_cases(pre, cases), meta):
    if res["crash"]:
        ck.crash(cmds, res["crash"], pre=pre)
        continue
    chk, cm = cmds[:6], []
    where = "%s %s" % (pt, "mm to inch" if dirn == 0 else "inch to mm")
    for (t, lst), e in zip(m, res["ev"][6:]):
        rep = lambda cmds=cmds: nc.script(pre) + nc.script(cmds)
        if "exc" in e:
            ck.violation("%s: an exception escaped for %r: %s" % (where, t, e["exc"]), rep)
            continue
        ck.saw((pt, dirn, tuple(sorted({a for a, v in lst})) if lst else "rejected", ev),
               dict(control=pt, direction=dirn, block=t, got=e["w"]))
        if lst is None:
            ck.count("rejected")
            if e["r"]:
                ck.violation("%s: the wrong block %r is converted to %r" % (where, t, e["w"]), rep)
            continue
        if not e["r"]:
            ck.violation("%s: the block %r is rejected (%r)" % (where, t, e["m"]), rep)
            continue
        ck.count("converted")
        exp = expect(lst, tgt, dirn)
        got = e["w"]
        bad = None
        if [a for a, v in exp] != [a for a, v in got]:
            bad = "the words are %r" % (got,)
        else:
            for (a, x), (b, v) in zip(exp, got):
                if isinstance(x, int):
                    ck.count("units_swapped")
                    ok = v.lstrip("0") == str(x)
                elif isinstance(x, tuple):
                    ck.count("values_converted")
                    ok = same_number(v, *x)
                else:
                    ck.count("words_kept")
                    ok = v == x
                if not ok:
                    bad = "word %s has %r, expected %s" % (a, v, x if not isinstance(x, tuple) else (x[0], [str(y) for y in x[1]]))
                    break
        if bad:
            ck.violation("%s: %r: %s" % (where, t, bad), rep)
            continue
        # accepted again in the target units when every value is in the target ranges
        ok = True
        for a, v in got:
            if a in ("(", "O", "%", "IF", "EQ", "GOTO", "/", "#", "=") or a not in tgt or "#" in v or "[" in v:
                ok = False if a not in ("(", "/") else ok
                continue
            d = tgt[a]
            m2 = re.fullmatch(r"=?([+-]?)(\d*)(\.(\d*))?", v)
            if not m2 or not m2.group(2):
                ok = False
                break
            iv = int(m2.group(2)) * (-1 if m2.group(1) == "-" else 1)
            f = m2.group(4)
            if not d["rf"] <= iv <= d["rt"] or m2.group(1) == "-" and iv == 0 and d["rf"] >= 0 or m2.group(3) and d["dt"] == 0 or \
                    f and not d["df"] <= int(f) <= d["dt"] or a == "G" and int(m2.group(2)) in (20, 21) or a == "M":
                ok = False
                break
        if ok:
            txt = " ".join(a + v for a, v in got)
            chk.append(["p", "b", len(cm), txt])
            cm.append((t, txt))
    again.append(chk)
    ameta.append((where, cm))
for cmds, res, (where, cm) in zip(again, nc.run_cases(pre, again), ameta):
    if res["crash"]:
        ck.crash(cmds, res["crash"], pre=pre)
        continue
    for (t, txt), e in zip(cm, res["ev"][6:]):
        ck.count("parsed_again")
        if not e.get("r"):
            ck.violation("%s: %r converted to %r, which is within the ranges of the target units but is rejected: %r" %
                         (where, t, txt, e.get("m")), nc.script(pre) + nc.script(cmds))
ck.finish(min_distinct=1000)
