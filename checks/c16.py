"""C16: assigned macro expressions against a reference evaluator."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, gen
from nc import Check, rng, profile, THOROUGH, PTYPES

ck = Check("C16", "random expression trees (numbers, macro variables, functions, operators, brackets; some with broken text) "
           "assigned in programs on all controls, judged after each block against a reference evaluator; non-trivial: "
           "distinct (expression shape with numbers abstracted, outcome)")
r = rng("c16")
NP = 500 if not THOROUGH else 6000        # programs
NB = 14                                    # expressions per program

ALLF = gen.FUNCS + gen.MORE_FUNCS
pre = []
for pt in PTYPES:
    pre += profile(pt).preamble()
# the word table of fanuc_mill with every function and operator the evaluator knows
for u, t in (("metric", "M"), ("imperial", "I")):
    for w, d in profile("fanuc_mill").words[u].items():
        pre.append(["gr", "full", t, w, d["rf"], d["rt"], d["df"], d["dt"], 1 if d["unique"] else 0, nc.WT.index(d["type"])])
for o in profile("fanuc_mill").ops + ["MOD", "ASIN", "ACOS", "EXP"]:
    pre.append(["op", "full", o])


def shape(e):
    if e[0] == "num":
        return "n"
    if e[0] == "var":
        return "#"
    return (e[0] if e[0] != "op" and e[0] != "fn" else e[1],) + tuple(shape(x) for x in e[1:] if isinstance(x, tuple))


def breakit(r, t):
    """A text that is no expression, and what was done to it."""
    c = r.random()
    if c < 0.35 and "[" in t:
        i = r.choice([i for i, x in enumerate(t) if x in "[]"])
        return t[:i] + t[i + 1:], "bracket removed"
    if c < 0.5:
        return t + "]" if r.random() < 0.5 else "[" + t, "bracket added"
    if c < 0.7:
        return t + r.choice(["+", "-", "*", "/", " AND", " OR"]), "operand missing"
    if c < 0.8:
        return "", "nothing assigned"
    if c < 0.9:
        return t + r.choice(["*[]", "+SIN[]", "+[]"]), "empty brackets"
    return r.choice(["*", "/"]) + t, "operator first"


cases, meta = [], []
for k in range(NP):
    pt = r.choice(PTYPES)
    name, ops, funcs = pt, ["+", "-", "*", "/", "AND", "OR", "XOR"], gen.FUNCS
    if r.random() < 0.4:
        pt, name, ops, funcs = "fanuc_mill", "full", ops + ["MOD", "MOD"], ALLF
    ids = r.sample(range(100, 200), 6) + r.sample(range(1, 34), 4) + [3101]
    cmds = [nc.new("a", pt, vcg=0, calc=r.choice([0, 1]), name=name, ncs=0, zpa=0), nc.settings("a"), ["rm", "a"]]
    m = []
    assigned = [3101]
    for j in range(NB):
        tgt = r.choice(ids[:-1])
        un = [i for i in ids if i not in assigned]
        e = gen.expr(r, r.choice([1, 2, 2, 3, 3, 4, 5 if THOROUGH else 4]), assigned, funcs, ops, un if un and r.random() < 0.08 else ())
        if r.random() < 0.02:
            for _ in range(r.randint(5, 60)):
                e = ("br", e)
        if r.random() < 0.05:
            # BIN and BCD of long numbers
            f = r.choice(["BIN", "BCD"])
            n = r.randint(0, 10 ** r.randint(5, 9))
            n = min(n, 2 ** 32 - 1) if f == "BCD" else int(str(r.randint(0, 10 ** r.randint(5, 10))), 16)
            ds = []
            while n:
                ds.append(n % 9999)
                n //= 9999
            x = ("num", str(ds[-1] if ds else 0))
            for q in reversed(ds[:-1]):
                x = ("op", "+", ("op", "*", ("br", x) if x[0] == "op" else x, ("num", "9999")), ("num", str(q)))
            e = ("fn", f, x)
        elif r.random() < 0.06:
            # halves and whole numbers of both signs
            e = ("fn", r.choice(["ROUND", "ROUND", "FIX", "FUP"]), ("num", "%s%d.%s" % (r.choice(["-", "-", ""]), r.choice([0, 1, 2, 3, 4, r.randint(5, 9999)]), r.choice(["5", "5", "50", "500", "0", "49", "51", "4999", "001"]))))
        t = gen.text(e, r.choice(["", "", " "]))
        broken = ""
        if r.random() < 0.15:
            t, broken = breakit(r, t)
        lhs = "#%d=%s" % (tgt, t)
        if r.random() < 0.1:
            lhs = "N%d " % r.randint(1, 99) + lhs
        if len(lhs) > 900:
            continue
        cmds += [["p", "a", j, lhs], ["mv", "a"]]
        m.append((tgt, e, lhs, broken))
        if not broken and tgt not in assigned:
            assigned.append(tgt)
    cases.append(cmds)
    meta.append((name, m))


def latest(mv):
    d = {}
    for i, l, v in mv:
        if i not in d or l >= d[i][0]:
            d[i] = (l, v)
    return {i: v for i, (l, v) in d.items()}


for cmds, res, (name, m) in zip(cases, nc.run_cases(pre, cases), meta):
    if res["crash"]:
        ck.crash(cmds, res["crash"], pre=pre)
        continue
    ev = res["ev"][3:]
    env = {3101: 3.141592653589793, 3102: 2.718281828459045}
    rep = lambda: nc.script(pre) + nc.script(cmds)
    for j, (tgt, e, t, broken) in enumerate(m):
        p, q = ev[2 * j], ev[2 * j + 1]
        if "exc" in p:
            ck.violation("an exception escaped for %r: %s" % (t, p["exc"]), rep())
            break
        after = latest(q["mv"])
        others = {i: v for i, v in after.items() if i != tgt and not 4000 <= i < 4600}
        was = {i: v for i, v in env.items() if i != tgt}
        if others != was:
            ck.violation("%r changed other variables: %s -> %s" % (t, was, others), rep())
        want, sure, why = None, True, broken
        if not broken:
            want, sure, why = gen.judge(e, env)
        # literals the lexer cannot hold are not generated; large intermediate values are doubles
        got = after.get(tgt)
        ck.saw((name if name == "full" else "", shape(e) if not broken else broken, want is not None), dict(block=t, expected=want, got=got, accepted=p["r"], why=why))
        if not sure:
            ck.count("fragile_skipped")
        elif want is None:
            ck.count("no_value")
            if p["r"]:
                ck.violation("%r has no value (%s) but was accepted, #%d=%s" % (t, why, tgt, got), rep())
            elif got != env.get(tgt):
                ck.violation("%r was rejected but assigned #%d: %s -> %s" % (t, tgt, env.get(tgt), got), rep())
            elif not p["m"]:
                ck.violation("%r was rejected without a reason" % t, rep())
        else:
            ck.count("valued")
            if not p["r"]:
                ck.violation("%r has the value %.12g but was rejected: %r" % (t, want, p["m"]), rep())
            elif got is None or not abs(got - want) <= 1e-8 * max(1.0, abs(want)):
                ck.violation("%r has the value %.12g, the parser assigned %s" % (t, want, got), rep())
        env = {i: v for i, v in after.items() if not 4000 <= i < 4600}
ck.finish(min_distinct=300)
