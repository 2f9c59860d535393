"""C28: removing comments, optional block marks and numbers removes just that."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, gen
from nc import Check, rng, profile, THOROUGH, PTYPES

ck = Check("C28", "accepted blocks with comments, optional block marks and numbers in all places; the words left by each removal "
           "are compared with the written words, then the removal is applied to its own result; non-trivial: distinct "
           "(operation, control, number and places of the removed words, number of words)")
r = rng("c28")
NCASE = 40 if not THOROUGH else 800


def left(op, lst):
    if op == "rc":
        return [x for x in lst if x[0] != "("]
    if op == "rob":
        i = 0
        while i < len(lst) and lst[i][0] == "/" and lst[i][1]:
            i += 1
        return lst[i:]
    return lst[1:] if lst and lst[0][0] in ("N", ":") else lst


cases, meta, pre = [], [], []
for pt in PTYPES:
    p = profile(pt)
    pre += p.preamble()
    words = p.words["metric"]
    for k in range(NCASE):
        cmds = [nc.new("a", pt, ev=r.choice([0, 0, 1]), vcg=0, calc=0, ncs=0, zpa=0), nc.settings("a"), ["rm", "a"]]
        m = [None] * 3
        for j in range(40):
            t, ws, lst = gen.rich_block(r, words, maxw=5, special=0.08, raw=0.15, optional=False, comments=False)
            if ws and ws[0].kind != "comment":
                for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                    ws.insert(r.randint(0, len(ws)), gen.comment(r))
                if r.random() < 0.45:
                    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5, 9])):
                        v = r.choice(["", "1", "2", "9", "01", "007"]) if not ws or ws[0].kind != "opt" else r.choice("123456789")
                        ws.insert(0, gen.Word("/", "/" + v, True, v, kind="opt"))
                t, lst = gen.join(r, ws), gen.wordlist(ws, words)
            lead = 0
            while lead < len(lst) and lst[lead][0] == "/":
                lead += 1
            if any(v == "" for a, v in lst[:lead]) and lead > 1 or sum(1 for x in lst if x[0] in ("N", ":")) > 1:
                continue
            for op in ("rc", "rob", "rn"):
                exp = left(op, lst)
                cmds.append([op, "a", j, t])
                m.append((op, t, lst, exp, pt))
                if exp and exp[0][0] != "IF" and r.random() < 0.5:
                    t2 = " ".join(a + v for a, v in exp)
                    cmds.append([op, "a", j, t2])
                    m.append((op + " again", t2, exp, left(op, exp), pt))
        cases.append(cmds)
        meta.append(m)
for cmds, res, m in zip(cases, nc.run_cases(pre, cases), meta):
    if res["crash"]:
        ck.crash(cmds, res["crash"], pre=pre)
        continue
    rep = lambda cmds=cmds: nc.script(pre) + nc.script(cmds)
    for c, x, e in zip(cmds, m, res["ev"]):
        if x is None:
            continue
        op, t, lst, exp, pt = x
        ck.saw((op, pt, tuple(i for i, y in enumerate(lst) if y[0] in "(/N"), len(lst)), dict(control=pt, operation=op, block=t, got=e.get("w")))
        ck.count(op.replace(" ", "_"))
        ck.count("words_removed", len(lst) - len(exp))
        if e.get("r") is not True or e.get("w") != exp:
            ck.violation("%s: %s of %r gives %s, expected %s" % (pt, op, t, e, exp), rep)
            break
ck.finish(min_distinct=300)
