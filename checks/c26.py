"""C26: axes rotation against rotation matrices."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, gen
from nc import Check, rng, profile, THOROUGH, PTYPES

ck = Check("C26", "accepted blocks (coordinates, arc centres, planes, arcs of the XY plane, macro and bracket values, every other "
           "word) rotated about each axis by 90, 180 and 270 degrees, back again and four times by 90; compared word by word "
           "with the image under the rotation matrix; non-trivial: distinct (rotation, control, set of addresses, arc, plane)")
r = rng("c26")
NCASE = 30 if not THOROUGH else 600
AX = "XYZ"


def mat(opt):
    """The matrix that takes old coordinates to those in the axes turned by the angle."""
    ax, n = opt // 3, opt % 3 + 1
    c, s = [(0, 1), (-1, 0), (0, -1)][n - 1]        # cos, sin of the angle the axes turn by
    s = -s                                          # coordinates turn the other way
    i, j = (ax + 1) % 3, (ax + 2) % 3
    m = [[0] * 3 for _ in range(3)]
    m[ax][ax] = 1
    m[i][i], m[i][j], m[j][i], m[j][j] = c, -s, s, c
    return m


def neg(v):
    return v[1:] if v[0] == "-" else "-" + v.lstrip("+")


def image(lst, opt):
    m = mat(opt)
    out = []
    zc = [m[i][2] for i in range(3)]                # image of the normal of the XY plane
    flip = sum(zc) < 0
    for a, v in lst:
        base = "XYZ" if a in "XYZ" else "IJK"
        g = re.fullmatch(r"(0*)(17|18|19|2|3)", v) if a == "G" else None
        if a in ("X", "Y", "Z", "I", "J", "K"):
            k = base.index(a)
            t = [i for i in range(3) if m[i][k]][0]
            out.append((base[t], v if m[t][k] > 0 else neg(v)))
        elif g and len(g.group(2)) == 2:
            k = {"17": 2, "18": 1, "19": 0}[g.group(2)]
            t = [i for i in range(3) if m[i][k]][0]
            out.append(("G", g.group(1) + {2: "17", 1: "18", 0: "19"}[t]))
        elif g:
            n = g.group(2)
            out.append(("G", g.group(1) + (n if not flip else "3" if n == "2" else "2")))
        else:
            out.append((a, v))
    return out


def norm(a, v):
    """+5 and 5 are the same coordinate."""
    return (a, v[1:]) if a in ("X", "Y", "Z", "I", "J", "K") and v[:1] == "+" else (a, v)


def same(x, y, arcs=True):
    """arcs: the sense of an arc is compared too (only specified for arcs written in the XY plane)."""
    f = lambda l: [norm(a, v) if arcs or not (a == "G" and v.lstrip("0") in ("2", "3")) else ("G", "arc") for a, v in l]
    return f(x) == f(y)


cases, meta, pre = [], [], []
for pt in PTYPES:
    p = profile(pt)
    pre += p.preamble()
    words = p.words["metric"]
    for k in range(NCASE):
        cmds = [nc.new("a", pt, ev=r.choice([0, 0, 1]), vcg=0, calc=0, ncs=0, zpa=0), nc.settings("a"), ["rm", "a"]]
        m = [None] * 3
        for j in range(45):
            fixed = []
            c = r.random()
            if c < 0.35:
                fixed.append(r.choice(["G2", "G3", "G02", "G03"]))
                if r.random() < 0.4:
                    fixed.append(r.choice(["G17", "G017"]))
            elif c < 0.6:
                fixed.append(r.choice(["G17", "G18", "G19", "G019"]))
            elif c < 0.8:
                fixed.append(r.choice(["G1", "G0", "G4", "G28", "G81", "G20", "G171", "G13", "G12", "G#17", "G#2", "G#3", "G#19", "G#018", "G17.1", "G18.2", "G19.1"]))
            for a in r.sample("XYZIJK", r.randint(0, 4)):
                if a in words:
                    fixed.append(a + (gen.good_value(r, words[a]) if r.random() < 0.85 else r.choice(["#1", "-#1", "[#2]", "-[#2]"])))
            t, ws, lst = gen.rich_block(r, words, maxw=2, fixed=fixed, exclude=("G", "X", "Y", "Z", "I", "J", "K"), special=0.05)
            if any(a == "/" for a, v in lst[1:]):
                continue
            opt = r.randrange(9)
            chain = [opt]
            if r.random() < 0.5:
                chain = [opt, {0: opt + 2, 1: opt, 2: opt - 2}[opt % 3]]
            elif r.random() < 0.3:
                chain = [opt - opt % 3] * 4
            elif r.random() < 0.3:
                chain = [r.randrange(9) for _ in range(3)]
            cur = [tuple(x) for x in lst]
            txt = t
            for n, o in enumerate(chain):
                exp = image(cur, o)
                cmds.append(["ra", "a", j, txt, o])
                back = n + 1 == len(chain) and len(chain) in (2, 4) and not (len(chain) == 3)
                m.append((txt, exp, o, pt, [tuple(x) for x in lst] if back and lst[0][0] != "IF" else None, n == 0))
                if exp[0][0] == "IF":
                    break
                cur = exp
                txt = " ".join(a + v for a, v in exp)
        cases.append(cmds)
        meta.append(m)
for cmds, res, m in zip(cases, nc.run_cases(pre, cases), meta):
    if res["crash"]:
        ck.crash(cmds, res["crash"], pre=pre)
        continue
    rep = lambda cmds=cmds: nc.script(pre) + nc.script(cmds)
    for c, x, e in zip(cmds, m, res["ev"]):
        if x is None:
            continue
        t, exp, o, pt, orig, first = x
        name = "%s by %d" % (AX[o // 3], o % 3 * 90 + 90)
        got = [tuple(y) for y in e.get("w") or []]
        ck.saw((o, pt, tuple(sorted({a for a, v in exp})), any(a == "G" and v.lstrip("0") in "23" for a, v in exp)),
               dict(control=pt, rotation=name, block=t, got=got))
        if e.get("r") is not True or not same(got, exp, first):
            ck.violation("%s: %r rotated about %s gives %s, expected %s" % (pt, t, name, e, exp), rep)
            break
        if orig is not None:
            ck.count("rotated_back")
            if not same(got, orig, False):
                ck.violation("%s: rotating to and fro ends with %s, it was %s" % (pt, got, orig), rep)
                break
ck.finish(min_distinct=300)
