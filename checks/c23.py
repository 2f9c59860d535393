"""C23: a reset parser is as good as a new one; parsers do not influence each other."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim, hostile
import pathchk as pc
from nc import Check, rng, THOROUGH

ck = Check("C23", "a program after any other program (and other operations) and a reset, the program twice with a reset between, and two parsers with "
           "interleaved calls, against the same calls of a parser that was just created; every answer has to be the same; "
           "non-trivial: distinct (scenario, control, operation, verdict, words' addresses)")
r = rng("c23")
N = 2500 if not THOROUGH else 9000
pre = pc.preamble()
cases, meta = [], []


def prog(pid, kind, pt, st, inch, n, ops=False):
    out = []
    for i, t in enumerate(hostile.program(r, pt, n, kind, st, inch)):
        out.append(hostile.any_op(r, pid, i, t) if ops and r.random() < 0.3 else hostile.parse_op(r, pid, i, t))
    return out + [["gp", pid], ["mv", pid]]


def setup(pid, pt, st, flags):
    return [nc.new(pid, pt, **flags), nc.settings(pid, **st), ["rm", pid]]


def ren(cmds, pid):
    return [[c[0], pid] + list(c[2:]) for c in cmds]


for k in range(N):
    kind, pt, st, inch = sim.machine(r)
    flags = dict(ev=int(r.random() < 0.92), vcg=r.randint(0, 1), calc=int(r.random() < 0.85), ncs=r.randint(0, 1), zpa=r.randint(0, 1), lang=r.randint(0, 1))
    A = prog("a", kind, pt, st, inch, r.randint(3, 25), ops=True)
    if r.random() < 0.15:
        A.append(hostile.split_op(r, "a", hostile.program(r, pt, 8, kind, st, inch)))
    if r.random() < 0.3:
        A.append(r.choice([["p", "a", 99, "G91 G1 X5 F3 S100 M3"], ["p", "a", 99, "G20"], ["p", "a", 99, "G21"], ["p", "a", 99, "G18 G3 X1 Z2 R50"],
                           ["p", "a", 99, "G98 G81 X1 Z-5 R2 K3"], ["p", "a", 99, "T5 M6"], ["p", "a", 99, "G96 S200"], ["p", "a", 99, "G95 F0.2"], ["p", "a", 99, "G1"]]))
    B = prog("a", kind, pt, st, inch, r.randint(3, 25), ops=True)
    S = setup("a", pt, st, flags)
    X = [["rr", "a"], ["srn", "a", 10], ["rm", "a"], ["rp", "a"]]
    if r.random() < 0.5:
        X = X[:2] + [X[3], X[2]]
    base = S + [["rr", "a"], ["srn", "a", 10]] + B
    cases.append(base)
    nb = len(S) + 2
    m = [("base", nb, None)]
    sc = r.choice(["after", "after", "twice", "pair"])
    if sc == "after":
        cases.append(S + A + X + B)
        m.append((sc, len(S) + len(A) + len(X), None))
    elif sc == "twice":
        cases.append(S + [["rr", "a"], ["srn", "a", 10]] + B + X + B)
        m.append((sc, nb + len(B) + len(X), None))
    else:
        # another parser with other settings at the same time
        k2, pt2, st2, inch2 = sim.machine(r)
        C = setup("b", pt2, st2, dict(flags, vcg=r.randint(0, 1), lang=r.randint(0, 1))) + ren(prog("b", k2, pt2, st2, inch2, r.randint(3, 25), ops=True), "b")
        mix, idx, i, j = [], [], 0, 0
        while i < len(base) or j < len(C):
            if j >= len(C) or (i < len(base) and r.random() < 0.5):
                idx.append(len(mix))
                mix.append(base[i])
                i += 1
            else:
                mix.append(C[j])
                j += 1
        cases.append(mix)
        m.append((sc, None, idx[nb:]))
    meta.append((pt, B, m))
res = nc.run_cases(pre, cases)
for k, (pt, B, m) in enumerate(meta):
    c0, c1, r0, r1 = cases[2 * k], cases[2 * k + 1], res[2 * k], res[2 * k + 1]
    if r0["crash"] or r1["crash"]:
        ck.crash(c0 if r0["crash"] else c1, r0["crash"] or r1["crash"], pre=pre)
        continue
    rep = lambda: nc.script(pre) + nc.script(c0) + nc.script(c1)
    sc, start, idx = m[1]
    e0 = r0["ev"][m[0][1]:]
    e1 = [r1["ev"][i] for i in idx] if idx is not None else r1["ev"][start:]
    for b, x, y in zip(B, e0, e1):
        ck.saw((sc, pt, b[0], x.get("r"), "".join(sorted(set(q for q in str(b[3]) if q.isalpha())))[:8] if len(b) > 3 else ""),
               dict(scenario=sc, control=pt, call=b, answer=str(x)[:200]))
        ck.count(sc + "_calls")
        x, y = dict(x), dict(y)
        x.pop("id", None)
        y.pop("id", None)
        if x != y:
            ck.violation("%s, %s: %r gives %s, in a new parser %s" % (sc, pt, b, str(y)[:500], str(x)[:500]), rep)
            break
ck.finish(min_distinct=1000)
