"""C12: the words of an accepted block are the words written in it."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, gen
from nc import Check, rng, profile, THOROUGH, PTYPES

ck = Check("C12", "blocks of plain words, macro assignments and conditions, words with macro values, program names, comments, and "
           "random edits of them, on all controls; the words read back from an accepted block are compared with the words the "
           "generator wrote and, put together, with the text without blanks; non-trivial: distinct (kind, control, addresses, "
           "forms of the values) among accepted blocks")
r = rng("c12")
NC = 70 if not THOROUGH else 1200       # cases per control
NB = 40


def squeeze(t):
    """The text without the blanks outside comments."""
    out, inc = "", False
    for c in t:
        if c == "(" and not inc:
            inc = True
        if not inc and c in " \t":
            continue
        if c == ")":
            inc = False
        out += c
    return out


def form(v):
    return re.sub(r"\d+", "d", v)


def wordlist(ws, words):
    """What the interface must return for the words of the generator."""
    out = []
    for w in ws:
        if w.kind == "comment":
            out.append(["(", w.text[1:]])
        elif w.kind == "opt":
            out.append(["/", w.val])
        else:
            out.append([w.addr, ("=" if words[w.addr]["type"] == "assignable" else "") + w.val])
    return out


def macro_block(r, words):
    c = r.random()
    sp = r.choice(["", "", " "])
    if c < 0.35:
        e = gen.text(gen.expr(r, r.randint(0, 3), [1, 2, 100, 3101]), sp)
        return "#%d%s=%s%s" % (r.randint(1, 999), sp, sp, e)
    if c < 0.5:
        a, b = gen.text(gen.expr(r, 1, [1, 2, 100])), gen.text(gen.expr(r, 1, [1, 2, 100]))
        return r.choice(["IF[%s %s %s]GOTO%d", "IF [ %s %s %s ] GOTO %d", "WHILE[%s %s %s]DO%d"]) % \
            (a, r.choice(["EQ", "NE", "GT", "GE", "LT", "LE"]), b, r.randint(1, 3))
    if c < 0.55:
        return r.choice(["O%d" % r.randint(1, 9999), "O00%d" % r.randint(1, 99), "OABC_1", "O%d (%s)" % (r.randint(1, 9999), "A b  c"), "%", "GOTO%d" % r.randint(1, 99), "END1"])
    ws = []
    for a in r.sample([x for x in gen.plain_addresses(words) if x not in ("N",)], r.randint(1, 4)):
        v = r.choice(["#%d", "-#%d", "[#%d]", "-[#%d]", "#%d"]) % r.randint(1, 300)
        if r.random() < 0.4:
            v = gen.good_value(r, words[a])
        if r.random() < 0.1:
            v = "[%s%s%s]" % (v, r.choice("+-*"), r.randint(1, 9)) if v[0] not in "[+" else v
        ws.append(a + ("=" if words[a]["type"] == "assignable" else "") + r.choice(["", "", " "]) + v)
    if r.random() < 0.3:
        ws.insert(r.randint(0, len(ws)), gen.comment(r).text)
    return " ".join(ws)


def mutate(r, t):
    t = list(t)
    for _ in range(r.randint(1, 3)):
        c = r.random()
        i = r.randrange(len(t) + 1)
        if c < 0.35 and t:
            del t[min(i, len(t) - 1)]
        elif c < 0.8:
            t.insert(i, r.choice(" ..--+0123456789[]#()=/,GXYZMTRN*\t"))
        elif len(t) > 1:
            j = r.randrange(len(t) - 1)
            t[j], t[j + 1] = t[j + 1], t[j]
    return "".join(t)


cases, meta, pre = [], [], []
for pt in PTYPES:
    p = profile(pt)
    pre += p.preamble()
    for k in range(NC):
        unit = r.choice(["metric", "imperial"])
        ev = r.choice([0, 0, 1])
        cmds = [nc.new("a", pt, ev=ev, vcg=0, calc=0, ncs=0, zpa=0), nc.settings("a", cnc=dict(default_driver_units=0 if unit == "metric" else 1)), ["rm", "a"],
                ["p", "a", 0, "#1=2"], ["p", "a", 0, "#2=3."], ["p", "a", 0, "#100=10"]]
        m = []
        for j in range(NB):
            c = r.random()
            want = None
            if c < 0.45:
                t, ws, v, why = gen.block(r, p.words[unit], False, exclude=("G",) if ev else (), maxw=r.choice([2, 5, 9]))
                kind = "plain"
                want = wordlist(ws, p.words[unit])
            elif c < 0.7:
                t, kind = macro_block(r, p.words[unit]), "macro"
            else:
                t = gen.block(r, p.words[unit], False)[0] if r.random() < 0.6 else macro_block(r, p.words[unit])
                t, kind = mutate(r, t), "edited"
            if re.search(r"(?<!GOT)O\s*\w+[ \t]+[A-Za-z]", t) or "\0" in t or "\n" in t:
                continue        # the name after a program number is not kept, by design
            cmds.append(["v", "a", j + 1, t])
            m.append((t, kind, want))
        cases.append(cmds)
        meta.append((pt, m))

for cmds, res, (pt, m) in zip(cases, nc.run_cases(pre, cases), meta):
    if res["crash"]:
        ck.crash(cmds, res["crash"], pre=pre)
        continue
    rep = lambda: nc.script(pre) + nc.script(cmds)
    for (t, kind, want), e in zip(m, res["ev"][6:]):
        if "exc" in e:
            ck.violation("an exception escaped for %r: %s" % (t, e["exc"]), rep())
            break
        if not e["r"]:
            ck.saw()
            ck.count("rejected_" + kind)
            continue
        ck.count("accepted_" + kind)
        got = e["w"]
        ck.saw((kind, pt, tuple((a, form(v)) for a, v in got)), dict(control=pt, block=t, words=got))
        if want is not None and got != want:
            ck.violation("%s: block %r was read as %s, it says %s" % (pt, t, got, want), rep())
        text = "".join(a + v for a, v in got)
        if text != squeeze(t):
            ck.violation("%s: the words of %r put together are %r" % (pt, t, text), rep())
ck.finish(min_distinct=500)
