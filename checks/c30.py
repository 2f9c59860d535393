"""C30: the Heidenhain syntax check."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc
from nc import Check, rng, THOROUGH

ck = Check("C30", "Heidenhain parsers (both languages, all switches, several at a time) under ASan and UBSan given well-formed blocks, blocks with one certain fault at a "
           "known column, and hostile bytes, in shuffled order and repeatedly, with resets and the operations that do not exist for this control in "
           "between; checked: the verdict of the written grammar, the reported place and rest of the text, one answer per text, failure of absent "
           "operations; non-trivial: distinct (shape of the block, verdict)")
r = rng("c30")
NCASE = 500 if not THOROUGH else 900


def digits(n=4):
    return "".join(r.choice("0123456789") for _ in range(r.randint(1, n)))


def name():
    return "".join(r.choice("ABCXYZabcxyz0189_") for _ in range(r.randint(1, 9)))


def number(frac=True):
    t = r.choice(["", "", "+", "-"]) + digits(6)
    c = r.random()
    if frac and c < 0.4:
        t += "." + digits(5)
    elif frac and c < 0.5:
        t += "."
    return t


def word():
    c = r.random()
    if c < 0.45:
        return r.choice(["X", "Y", "Z", "IX", "IY", "IZ", "A", "C", "F", "S", "M", "R", "CC X", "PR", "PA", "DL", "DR"]) + number(), "w"
    if c < 0.6:
        return r.choice(["X", "Y", "Z", "F", "FN", "LBL"]) + r.choice(["", "+", "-"]) + "Q" + digits(4), "wq"
    if c < 0.8:
        return r.choice(["L", "C", "CR", "CC", "CT", "FMAX", "RL", "RR", "R0", "TOOL CALL 5", "TOOL DEF", "BLK FORM 0.1", "BLK FORM 0.2", "CALL LBL 1", "LBL 0",
                         "CALL PGM", "STOP", "FN 0:", "DR+", "DR-", "M30", "REP 5/5", "l x10", "TNC:/dir/prog.h", "="]), "k"
    if c < 0.9:
        return r.choice(["TOOL CALL ", "LBL ", "CALL LBL ", "TOOL DEF ", ""]) + '"' + "".join(r.choice("ABCabc019") for _ in range(r.randint(1, 8))) + '"', "s"
    return "Q%s%s=%s%s" % (digits(4), " " * r.choice([0, 0, 1, 2, 5]), " " * r.choice([0, 0, 1, 3, 6]), r.choice(["", number(), number()])), "q"


def comment():
    return ";" + "".join(chr(r.choice([r.randint(32, 125), r.randint(1, 255)])) for _ in range(r.randint(0, 15))).replace("~", "-").replace("\n", " ").replace("\r", " ")


def good():
    """(text, shape) of a well-formed block; the text does not end in a comment when open is set."""
    num = r.random() < 0.4
    t = (digits(r.choice([6, 6, 9])) + r.choice([" ", "  ", "\t"])) if num else ""
    c = r.random()
    if c < 0.12:
        b = r.choice(["BEGIN", "END"]) + " " * r.randint(1, 3) + "PGM" + " " * r.randint(1, 2) + name() + " " * r.randint(1, 2) + r.choice(["MM", "INCH"])
        return t + b, "pgm%d" % num, False
    if c < 0.27:
        b = "CYCL" + " " * r.randint(1, 2) + r.choice(["DEF", "CALL"]) + r.choice(["", " %s" % digits(3), " %s.%s" % (digits(3), digits(2))])
        for _ in range(r.randint(0, 2)):
            b += r.choice([" DRILLING", " TAPPING", " DIST 2", " DEPTH -20", " Q200=2"])
        return t + b, "cycl%d" % num, True
    ws, kinds = [], ""
    for _ in range(r.randint(1, 6)):
        w, k = word()
        ws.append(w)
        kinds += k
    return t + " ".join(ws), "%s%d" % (kinds, num), True


BAD = ["", " ", "\t  ", "10", "10 ", "L 10 20", "CYCL", "CYCL FOO", "CYCLDEF 4", "BEGIN", "BEGIN PGM", "BEGINPGM x MM", "BEGIN PGM xMM", "BEGIN PGM x CM", "END PGM x MMM", "0BEGIN PGM x MM",
       "44;comment", "Q", "Q5", "Q5 5", 'TOOL CALL "T5', 'TOOL CALL T5"', '"', '""', ";a~b", ";~~", "99999999999 L", "M3 ~ ", "~", "L X+1 ~ Y+1 ?", "-", "+5", "10 20 L X1", "!", "(L X+1)", "L X+1 [5]"]
ILL = "?!@$%&{}[]()<>|\\^*_,'`"


def bad():
    c = r.random()
    if c < 0.3:
        t = r.choice(BAD)
        return t, "fixed:" + t, None
    g, s, op = good()
    while not op:
        g, s, op = good()
    ch = r.choice(ILL)
    rest = ch + r.choice(["", " X+1", "5", ch])
    g = g.replace("\t", " ")
    return g + " " + rest, "ill:" + s, "1:%d: %s" % (len(g) + 2, rest)


def hostile():
    c = r.random()
    if c < 0.3:
        return "".join(chr(r.randint(0, 255)) for _ in range(r.randint(0, 60)))
    g = good()[0]
    for _ in range(r.randint(1, 4)):
        i = r.randint(0, len(g))
        k = r.randrange(4)
        if k == 0:
            g = g[:i] + g[i + 1:]
        elif k == 1:
            g = g[:i] + chr(r.randint(0, 255)) + g[i:]
        elif k == 2:
            g = g[:i] + r.choice(['"', "Q", "CYCL", "BEGIN", "~", ";", "9" * 40, "=", "A" * 3000, "\n", "\r\n", "\x00"]) + g[i:]
        else:
            g = g[:i] + g[i:][:4] + g[i:]
    return g


def absent(pid):
    return r.choice([["cl", pid, 0, "L X+1", r.randint(0, 1)], ["rn", pid, 0, "10 L X+1"], ["rnm", pid, 0, "10 L X+1", "N", 10, 1, 9999, 1, 0], ["ra", pid, 0, "L X+1", r.randint(0, 8)],
                     ["rc", pid, 0, "L X+1 ; a"], ["rob", pid, 0, "/L X+1"], ["sf", pid, r.randint(0, 4), 1, 1, 1, "", 0, "", "L X+1"],
                     ["sfs", pid, r.randint(0, 4), 1, 1, 1, "", 0, "", "L X+1"]])


def void(pid):
    return r.choice([["srn", pid, 5], ["rr", pid], ["mv", pid], ["lm", pid, r.randint(-1, 9)], ["gp", pid], ["rm", pid], ["rp", pid], ["ps", pid] + [r.randint(0, 1) for _ in range(5)]])


cases, meta = [], []
for k in range(NCASE):
    ids = ["a", "b"][:r.randint(1, 2)]
    cmds, m = [], []
    for i in ids:
        cmds.append(["newh", i, r.randint(0, 1)] + [r.randint(0, 1) for _ in range(5)])
        m.append(None)
    texts = []
    for j in range(60):
        c = r.random()
        if c < 0.5:
            t, s, op = good()
            if r.random() < 0.25:
                t += r.choice([" ", "" if op else " "]) + comment() + r.choice(["", "", "~"])
                s += ";"
            elif op and s[-2:-1] == "w" and r.random() < 0.3:
                t += "~"
                s += "~"
            texts.append((t, s, True, None))
        elif c < 0.8:
            t, s, msg = bad()
            texts.append((t, s, False, msg))
        else:
            texts.append((hostile(), "hostile", None, None))
    todo = texts + texts
    r.shuffle(todo)
    ln = 0
    for t, s, ok, msg in todo:
        if r.random() < 0.15:
            cmds.append(absent(r.choice(ids)))
            m.append("absent")
        if r.random() < 0.15:
            cmds.append(void(r.choice(ids)))
            m.append("void")
        ln = r.choice([ln + 1, ln + 1, 0, 100000])
        cmds.append([r.choice(["p", "v", "pg"]), r.choice(ids), ln, t])
        m.append((t, s, ok, msg))
    if r.random() < 0.8:
        for i in ids:
            cmds.append(["del", i])
            m.append(None)
    cases.append(cmds)
    meta.append(m)

for cmds, res, m in zip(cases, nc.run_cases([], cases), meta):
    if res["crash"]:
        ck.crash(cmds, res["crash"])
        continue
    rep = lambda cmds=cmds: nc.script(cmds)
    seen = {}
    for c, x, e in zip(cmds, m, res["ev"]):
        if "exc" in e:
            ck.violation("%r: exception %s" % (c, e["exc"]), rep)
            break
        if x is None:
            continue
        if x == "absent":
            ck.saw(("absent", c[0]))
            ck.count("absent_operations")
            if e.get("r") is not False:
                ck.violation("%r reports success: %s" % (c, e), rep)
                break
            continue
        if x == "void":
            ck.count("other_operations")
            continue
        t, s, ok, msg = x
        v = (e.get("r"), e.get("m"))
        ck.saw((s, v[0]), dict(block=t[:80], verdict=v[0], message=v[1]))
        ck.count("accepted" if v[0] else "rejected")
        if ok is not None and v[0] is not ok:
            ck.violation("%r is %s (%s), expected %s" % (t, "accepted" if v[0] else "rejected", v[1], "accepted" if ok else "rejected"), rep)
            break
        if ok is False and not v[1] and t:
            ck.violation("%r is rejected without a place" % t, rep)
            break
        if msg is not None and v[1] != msg:
            ck.violation("%r is reported as %r, expected %r" % (t, v[1], msg), rep)
            break
        if ok and v[1]:
            ck.violation("%r is accepted with the message %r" % (t, v[1]), rep)
            break
        if seen.setdefault(t, v) != v:
            ck.violation("%r gives %s, earlier in the session %s" % (t, v, seen[t]), rep)
            break
ck.finish(min_distinct=300)
