"""C31: the language changes the text of the messages only."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim, hostile, gen
import pathchk as pc
from nc import Check, rng, THOROUGH, PTYPES, profile

ck = Check("C31", "the same calls (programs, hostile blocks, all operations) on an English and a Polish parser: all results have to agree, a message "
           "comes with a message, and both name the same numbers and addresses; non-trivial: distinct (control, operation, kind of message)")
r = rng("c31")
N = 2500 if not THOROUGH else 12000
pre = pc.preamble()
cases, meta = [], []


def bad_blocks(pt, n):
    """Blocks that provoke every kind of message."""
    w = profile(pt).words["metric"]
    out = []
    for _ in range(n):
        c = r.randrange(14)
        if c < 4:
            out.append(gen.block(r, w, bad=True)[0])
        elif c == 4:
            out.append("/%s X1" % r.choice(["0", "12", "a", "10"]))
        elif c == 5:
            out.append(r.choice(["G81 X1 Y1", "G83 Z-5 R1", "G76 Z-5 R1", "G2 X1 Y1", "G2 X5", "G3 X1 Z2", "G1 X5", "G18 G2 X5 Z5 I1", "G2 X1 Y1 Z1 I1", "G3 X1 Y1 J2"]))
        elif c == 6:
            out.append(r.choice(["T5 G1", "T5 G90 X1", "S99999", "T9999", "F99999", "M3 M3", "M8 M9", "G0 G1", "G17 G18 X1", "G2 G3 X1 Y1 R5", "M3 M4 M5"]))
        elif c == 7:
            out.append("#%d=%s" % (r.choice([1, 100]), r.choice(["1/0", "SQRT[-1]", "#999", "SIN[", "[1+", "*2", "", "1+*2", "FOO[1]", "2 MOD 0", "1]", "[[2]", "1 LT 2", "#[1]"])))
        elif c == 8:
            out.append("%s#%d" % (r.choice("XYZFSMG"), r.choice([777, 778, 1, 100])))
        elif c == 9:
            out.append("X#")
        else:
            out.append(" ".join(hostile.motion_words(r)))
    return out


for k in range(N):
    kind, pt, st, inch = sim.machine(r)
    flags = dict(ev=int(r.random() < 0.9), vcg=r.randint(0, 1), calc=r.randint(0, 1), ncs=r.randint(0, 1), zpa=r.randint(0, 1))
    texts = hostile.program(r, pt, r.randint(3, 20), kind, st, inch) if r.random() < 0.5 else bad_blocks(pt, 25)
    cmds = [hostile.any_op(r, "a", i, t) if r.random() < 0.25 else hostile.parse_op(r, "a", i, t) for i, t in enumerate(texts)]
    cmds += [["gp", "a"], ["mv", "a"]]
    if r.random() < 0.3:
        cmds.append(hostile.split_op(r, "a", texts[:12]))
    for lang in (0, 1):
        cases.append([nc.new("a", pt, lang=lang, **flags), nc.settings("a", **st), ["rm", "a"], ["rp", "a"]] + cmds)
    meta.append((pt, cmds))
# Heidenhain
for k in range(60):
    texts = [r.choice(["L X+10 Y-5 R0 FMAX M3", "10 L Z+100", "BEGIN PGM A MM", "CALL LBL 1", "L X", "?", "TOOL CALL 5 Z S1000", "N", "X", "L X+1 ?? Y", "99999999999 L", "CC X+1 Y+1"]) for _ in range(12)]
    for lang in (0, 1):
        cases.append([["newh", "a", lang, 1, 1, 1, 1, 1]] + [["v", "a", i, t] for i, t in enumerate(texts)])
    meta.append(("heidenhain", [["v", "a", i, t] for i, t in enumerate(texts)]))

NUM = re.compile(r"-?\d+(?:\.\d+)?")
BR = re.compile(r"\[[^\[\]]*\]")
LET = re.compile(r"(?<![\w\x80-\xff])[A-Z](?![\w\x80-\xff])", re.A)
kinds = {}


def kind_of(m):
    return re.sub(r"[-#\d.\[\]]+", "_", m.split(" <- ")[-1])[:60]


res = nc.run_cases(pre, cases)
for k, (pt, cmds) in enumerate(meta):
    c0, c1, r0, r1 = cases[2 * k], cases[2 * k + 1], res[2 * k], res[2 * k + 1]
    if r0["crash"] or r1["crash"]:
        ck.crash(c0 if r0["crash"] else c1, r0["crash"] or r1["crash"], pre=pre)
        continue
    rep = lambda: nc.script(pre) + nc.script(c0) + nc.script(c1)
    n = len(c0) - len(cmds)
    for c, x, y in zip(cmds, r0["ev"][n:], r1["ev"][n:]):
        x, y = dict(x), dict(y)
        mx, my = x.pop("m", None), y.pop("m", None)
        d = None
        if x != y:
            d = "gives different results: %s and %s" % (str(x)[:400], str(y)[:400])
        elif bool(mx) != bool(my):
            d = "has the messages %r and %r" % (mx, my)
        elif mx:
            if NUM.findall(mx) != NUM.findall(my) or BR.findall(mx) != BR.findall(my) or LET.findall(mx) != LET.findall(my):
                d = "has messages with other numbers or addresses: %r and %r" % (mx, my)
            # the reason follows the position and the rest of the block
            a, b = (m.rpartition(" <- ")[2] if " <- " in m else "" if re.match(r"\d+:\d+: ", m) else m for m in (mx, my))
            if len(re.findall(r"[a-z]{3,}", a)) >= 2:
                ck.count("reasons_in_both_languages")
                if a == b:
                    d = "has the same reason in both languages: %r" % a
            kinds.setdefault(kind_of(mx), set()).add(kind_of(my))
            ck.count("messages_compared")
        ck.saw((pt, c[0], x.get("r"), kind_of(mx) if mx else None), dict(control=pt, call=c[:4], verdict=x.get("r"), english=mx, polish=my))
        if d:
            ck.violation("%s: %r %s" % (pt, c, d), rep)
            break
ck.extra["kinds_of_messages"] = len(kinds)
if os.environ.get("SHOW"):
    for a, b in sorted(kinds.items()):
        print(repr(a), b)
ck.finish(min_distinct=500)
