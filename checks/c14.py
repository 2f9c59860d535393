"""C14: codes of one group exclude each other in a block."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, gen
from nc import Check, rng, profile, THOROUGH, PTYPES

ck = Check("C14", "pairs and larger sets of G and M codes of every control in random spellings (leading zeros, decimals, macro "
           "variables), with the group check on and off; verdicts against the intersection of the group tables; non-trivial: "
           "distinct (control, multiset of codes, checking on or off)")
r = rng("c14")
NPAIR = 1500 if not THOROUGH else 10 ** 9     # pairs per control and letter: a sample, or all
NSET = 500 if not THOROUGH else 6000
NTAB = 60 if not THOROUGH else 600            # invented tables


def in_table(d, code, rest):
    if not d["rf"] <= code <= d["rt"]:
        return False
    return rest == 0 or (d["dt"] > 0 and d["df"] <= rest <= d["dt"])


def spell(r, l, c, d, macros, spare):
    code, rest = c
    z = r.choice(["", "", "", "0", "00"])
    s = z + str(code) + (".%d" % rest if rest else r.choice(["", "", "", ".", ".0"]) if d["dt"] and d["df"] == 0 else "")
    if d["dt"] == 0 and rest:
        return None
    if r.random() < (0.5 if rest else 0.2):
        v = spare.pop() if spare else None
        if v is not None:
            macros.append((v, s))
            return l + r.choice(["#%d", "[#%d]"]) % v if False else "%s#%d" % (l, v)
    return l + s


def clash(groups, codes):
    seen = set()
    for c in codes:
        g = groups.get(c, set())
        if g & seen:
            return True
        seen |= g
    return False


pre, cases, meta = [], [], []


def program(pt, name, p_words, gg, mg, blocks, vcg, haas):
    """blocks: list of lists of (letter, (code, rest)); one program per 40 blocks."""
    for i in range(0, len(blocks), 40):
        ev = [nc.new("a", pt, vcg=vcg, calc=0, ncs=0, zpa=0, name=name), nc.settings("a"), ["rm", "a"]]
        m = []
        line = 0
        for b in blocks[i:i + 40]:
            macros, spare = [], list(range(1, 33))
            r.shuffle(spare)
            ws = [spell(r, l, c, p_words[l], macros, spare) for l, c in b]
            if None in ws:
                continue
            for v, s in macros:
                ev.append(["p", "a", line, "#%d=%s" % (v, s)])
                m.append(("#%d=%s" % (v, s), True, None))
                line += 1
            t = (" " if r.random() < 0.8 else "").join(ws)
            if r.random() < 0.1:
                t = "N%d " % r.randint(1, 99) + t
            want = not (vcg and (clash(gg, [c for l, c in b if l == "G"]) or clash(mg, [c for l, c in b if l == "M"])))
            if haas and sum(1 for l, c in b if l == "M") > 1:
                want = False
            ev.append(["p", "a", line, t])
            m.append((t, want, (name, vcg, tuple(sorted(b)))))
            line += 1
        cases.append(ev)
        meta.append((pt, m))


for pt in PTYPES:
    p = profile(pt)
    pre += p.preamble()
    w = p.words["metric"]
    for l in "GM":
        a, b = w[l], p.words["imperial"][l]
        assert a == b
    tabs = {l: p.code_groups(l) for l in "GM"}
    allc = {}
    for l in "GM":
        known = [c for c in tabs[l] if in_table(w[l], *c)]
        other = [(c, 0) for c in range(w[l]["rf"], min(w[l]["rt"], 999) + 1) if (c, 0) not in tabs[l]]
        other += [(c, 1) for c, _ in known if in_table(w[l], c, 1) and (c, 1) not in tabs[l]]
        allc[l] = known + r.sample(other, min(len(other), 12))
    for vcg in (1, 0):
        blocks = []
        for l in "GM":
            pairs = list(itertools.product(allc[l], repeat=2))
            same = [x for x in pairs if clash(tabs[l], x)]
            n = NPAIR if vcg else NPAIR // 5
            if len(pairs) > n:
                pairs = r.sample(pairs, n // 2) + r.sample(same, min(len(same), n // 2))
            blocks += [[(l, a), (l, b)] for a, b in pairs]
        for _ in range(NSET if vcg else NSET // 5):
            n = r.randint(2, 6)
            b = []
            tries = 0
            while len(b) < n and tries < 40:
                tries += 1
                l = r.choice("GGGM")
                c = r.choice(allc[l])
                # most sets keep free of clashes up to the last code, which then decides
                if len(b) < n - 1 and clash(tabs[l], [x for k, x in b if k == l] + [c]):
                    continue
                b.append((l, c))
            blocks.append(b)
        r.shuffle(blocks)
        program(pt, pt, w, tabs["G"], tabs["M"], blocks, vcg, "haas" in pt)

# tables nobody wrote: codes in several groups
fm = profile("fanuc_mill")
for k in range(NTAB):
    name = "tab%d" % k
    tabs = {"G": {}, "M": {}}
    for u, t in (("metric", "M"), ("imperial", "I")):
        for wd, d in fm.words[u].items():
            pre.append(["gr", name, t, wd, d["rf"], d["rt"], d["df"], d["dt"], 1 if d["unique"] else 0, nc.WT.index(d["type"])])
    allc = {}
    for l, cmd in (("G", "gg"), ("M", "mg")):
        d = fm.words["metric"][l]
        cs = []
        while len(cs) < r.randint(4, 14):
            c = (r.randint(max(0, d["rf"]), min(d["rt"], 99)), r.choice([0, 0, 0, 1, 2, 9]) if d["dt"] else 0)
            if in_table(d, *c) and c not in cs and (l, c) not in (("G", (20, 0)), ("G", (21, 0))):
                cs.append(c)
        for g in range(r.randint(1, 5)):
            for c in r.sample(cs, r.randint(1, len(cs))):
                pre.append([cmd, name, "g%d" % g, c[0], c[1]])
                tabs[l].setdefault(c, set()).add("g%d" % g)
        allc[l] = cs
    blocks = []
    for _ in range(40):
        blocks.append([(l, r.choice(allc[l])) for l in (r.choice("GGM") for _ in range(r.randint(1, 5)))])
    program("fanuc_mill", name, fm.words["metric"], tabs["G"], tabs["M"], blocks, 1, False)

for cmds, res, (pt, m) in zip(cases, nc.run_cases(pre, cases), meta):
    if res["crash"]:
        ck.crash(cmds, res["crash"], pre=pre)
        continue
    for (t, want, key), e in zip(m, res["ev"][3:]):
        rep = lambda: nc.script(pre) + nc.script(cmds)
        if "exc" in e:
            ck.violation("an exception escaped for %r: %s" % (t, e["exc"]), rep())
            break
        if key is None:
            if not e["r"]:
                ck.violation("%s: assignment %r was rejected: %r" % (pt, t, e["m"]), rep())
            continue
        ck.saw(key, dict(control=pt, block=t, accepted=e["r"]))
        ck.count("compatible" if want else "excluded")
        if e["r"] != want:
            ck.violation("%s (group check %s): block %r was %s but its codes %s; message %r" %
                         (pt, "on" if key[1] else "off", t, "accepted" if e["r"] else "rejected",
                          "exclude each other" if not want else "may stand together", e["m"]), rep())
        elif not want and not e["m"]:
            ck.violation("%s: %r was rejected without a reason" % (pt, t), rep())
ck.finish(min_distinct=1000)
