"""Programs for differential and sanitizer checks: no expectations, as much of the interface as possible."""
import nc, sim, gen

GC = [0, 1, 2, 3, 4, 10, 17, 18, 19, 20, 21, 28, 40, 41, 43, 49, 50, 53, 54, 65, 68, 70, 71, 72, 73, 74, 76, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89,
      90, 91, 92, 94, 95, 96, 97, 98, 99, 107, 112, 150, 12, 13, 22, 23]


def motion_words(r):
    ws = []
    for _ in range(r.randint(1, 7)):
        a = r.choice("GGGGXYZXYZIJKRQFSTMPLUVWKACBH")
        if a == "G":
            ws.append("G%d" % (r.choice(GC) if r.random() < 0.9 else r.randint(0, 300)))
        elif a == "M":
            ws.append("M%d" % r.choice([3, 4, 5, 6, 6, 30, 44, 60, 1, 98, 99]))
        elif a == "T":
            ws.append("T%s" % r.choice(["1", "2", "3", "0101", "0202", "12", "0", "9999"]))
        elif a in "KL" and r.random() < 0.7:
            ws.append("%s%d" % (a, r.randint(0, 9)))
        elif r.random() < 0.06:
            ws.append("%s#%d" % (a, r.choice([1, 2, 100, 101, 3101])))
        else:
            v = r.choice([r.uniform(-300, 300), r.uniform(-300, 300), r.uniform(-2, 2), 0., 99999., -99999., r.uniform(0, 1e-3)])
            if a in "FSPL":
                v = abs(v)
            ws.append("%s%s" % (a, ("%.*f" % (r.choice([0, 1, 3]), v)) if a != "S" else "%d" % v))
    return ws


JUNK = ["#", "##", "#1=", "#1=#", "#1=[", "#1=]", "#[1]=2", "#1=[[1]]", "X[1+2]", "X[#1]", "X-[#1]", "IF", "IF[", "GOTO", "WHILE", "END", "(", ")", "(((", "O", "%", "/", "//",
        "/1", ":", ":1", "N", "G", "G.", "G-", "G1.", "X.", "X-", "X+-1", "X--1", "X1.2.3", "=", "+", "-", "*", "[", "]", ",", ",C1", ",R1.5", "SIN", "SIN[", "#1=SIN[30",
        "#1=SQRT[-1]", "#1=1/0", "#1=TAN[90]", "#1=BCD[-5]", "#1=BIN[1e9]", "#1=FUP[99999]", "#1=99999*99999*99999*99999", "#99999999999=1", "#1=#99999999999", "#-1=1",
        "#1=#2", "#0=5", "IF [#1 EQ 1] GOTO 10", "WHILE [#1 LT 3] DO1", "END1", "O1234 NAME", "O(", "O", "M98 P1000", "G65 P9000 A1 B2", "\x00", "\xff\xfe", "G1\x00X1", "G1 X1 (unterminated",
        "A=5", "CHF=1", "RND=2", "X99999999999999999999", "X0.99999999999999999999", "N99999999999999", "G999999999999", "T99999999999", "F1e5", "\t", " ", "\r", "N1 N2 N3"]


def block(r, words, junk=0.2):
    c = r.random()
    if c < 0.45:
        return r.choice([" ", " ", ""]).join(motion_words(r))
    if c < 0.55:
        v = r.choice([1, 2, 100, 101])
        return "#%d=%s" % (v, gen.text(gen.expr(r, r.randint(0, 3), [1, 2, 100, 101, 3101])))
    if c < 1 - junk:
        return gen.rich_block(r, words)[0]
    if c < 1 - junk / 2:
        j = r.choice(JUNK)
        if r.random() < 0.4:
            j = r.choice(["N5 ", "G1 ", "X1 Y2 ", "#1=", "IF [#1 EQ 1] ", "WHILE [1 LT 2] DO1"]) + j
        if r.random() < 0.3:
            j += r.choice([" X1", "5", "]", "[", ")"])
        return j
    t = gen.rich_block(r, words)[0] if r.random() < 0.5 else " ".join(motion_words(r))
    for _ in range(r.randint(1, 3)):
        i = r.randint(0, len(t))
        k = r.randrange(4)
        if k == 0:
            t = t[:i] + t[i + 1:]
        elif k == 1:
            t = t[:i] + chr(r.choice([r.randint(0, 255), r.randint(32, 126)])).replace("\n", " ") + t[i:]
        elif k == 2:
            t = t[:i] + r.choice(JUNK) + t[i:]
        else:
            t = t[:i] + t[i:][:3] + t[i:]
    return t[:400]


def parse_op(r, pid, line, t):
    return [r.choice(["pg", "pg", "pg", "v", "p"]), pid, line, t]


def any_op(r, pid, line, t):
    """Any operation of the interface on a block."""
    k = r.randrange(12)
    if k < 4:
        return parse_op(r, pid, line, t)
    if k == 4:
        return ["cl", pid, line, t, r.randint(0, 1)]
    if k == 5:
        return [r.choice(["rn", "rc", "rob"]), pid, line, t]
    if k == 6:
        return ["rnm", pid, line, t, r.choice(["N", "N", "N", ":", "X", ""]), r.choice([1, 5, 10, 0, 99999]), r.choice([1, 1, 2, 3, 0]), r.choice([9999, 99999, 50, 0]), r.randint(0, 1), r.randint(0, 1)]
    if k == 7:
        return ["ra", pid, line, t, r.randint(0, 8)]
    if k == 8:
        return ["srn", pid, r.choice([0, 1, 10, 99999])]
    if k == 9:
        return ["rr", pid]
    if k == 10:
        return ["lm", pid, r.randint(-1, line + 1)]
    return r.choice([["mv", pid], ["gp", pid]])


def split_op(r, pid, lines):
    ty = r.randint(0, 4)
    return [r.choice(["sf", "sfs"]), pid, ty, r.choice([0, 1, 2, 5, 100]), r.choice([0, 1, 5, 60]), r.choice([0, 1, 50, 1000]), r.choice(["M30", "X1", "", "G"]), r.randint(0, 1),
            r.choice(["", "G0 Z100", "bad ?"])] + lines


def program(r, pt, n, kind=None, st=None, inch=False, junk=0.2):
    """Texts: a simulated program, hostile blocks, or a mix."""
    words = nc.profile(pt).words["imperial" if inch else "metric"]
    out = []
    c = r.random()
    if st is not None and c < 0.7:
        p = sim.Prog(r, kind, pt, st, inch, dict(arc=1, cycle=1, tool=1, bad=0.5))
        out = [t for t, e in p.run(n)]
    if c > 0.35:
        for _ in range(n if not out else max(1, n // 3)):
            out.insert(r.randint(0, len(out)), block(r, words, junk))
    return out
