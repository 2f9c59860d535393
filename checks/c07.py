"""C07: hover tells the value a macro variable has at that line."""
import json, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim, lsp
import pathchk as pc
from nc import Check, rng, THOROUGH

ck = Check("C07", "sessions of the real server over all controls: (a) documents of assignments (numbers, expressions over other variables, system variables of the words F, S, B, E, D, H, N, T, values "
           "overwritten, invalid assignments), uses, wrong blocks, comments, foreign characters and blank lines, with a store modelled by the check itself; (b) simulated and mutated programs with "
           "the store of a directly driven parser; hovered at every token and at other positions, after opening and after changing; non-trivial: distinct (kind of token, described, value known, "
           "assigned on that line, number of assignments so far, foreign characters before it)")
r = rng("c07")
NSES = 80 if not THOROUGH else 800
SYS = dict(B=4102, D=4107, E=4108, F=4109, H=4111, M=4113, S=4119, N=4114)
UNI = ["", "", "", "", "ą", "中", "😀 ", "é", "ż\u0301", "\t"]


def fmt(x):
    t = ("%.4f" % x).rstrip("0").rstrip(".")
    return "0" if t in ("", "-0") else t


def model_doc(pt, n):
    """(lines, {id: {line from 1: value}})"""
    words = nc.profile(pt).words["metric"]
    gc = [c // 10 if c % 10 == 0 else c / 10 for c in ()] or [c for v in nc.profile(pt).groups["G"].values() for c, rest in v if not rest]
    store = {3101: {-1: 3.141592653589793}, 3102: {-1: 2.718281828459045}}
    ids = r.sample(range(1, 34), 3) + r.sample(range(100, 200), 2) + r.sample(range(500, 999), 2) + [r.randint(6000, words["#"]["rt"])]
    lines = []
    latest = lambda i: store[i][max(store[i])] if store.get(i) else None
    com = lambda: r.choice(["", "", "", " (%s#%d %s)" % (r.choice(UNI), r.choice(ids), r.choice(UNI)), " (G#%d M0)" % r.choice(ids)])

    def put(i, l, v):
        store.setdefault(i, {})[l] = v

    def sysput(w, l, v):
        for b in (0, 200, 400):
            put(SYS[w] + b, l, v)
    while len(lines) < n:
        l = len(lines) + 1
        q = r.random()
        i = r.choice(ids)
        ref = r.choice(["#%d", "#%d", "#%d", "#0%d"]) % i
        if q < 0.35:
            d = r.choice([0, 0, 1, 3, 4])
            v = float(fmt(round(r.choice([r.uniform(-10, 10), r.uniform(-9999, 9999), r.choice([0, 1, 2, 3, 17, 54, 90, 8, 5])]), d)))
            nb = r.random() < 0.1
            lines.append(("N7 " if nb else "") + ref + r.choice(["=", " = ", "= "]) + fmt(v) + com())
            if nb:
                sysput("N", l, 7.)
            put(i, l, v)
        elif q < 0.5:
            k = [x for x in ids if latest(x) is not None and abs(latest(x)) < 1e6]
            if not k:
                continue
            j = r.choice(k)
            a = r.randint(1, 9)
            e, v = r.choice([("#%d+%d" % (j, a), latest(j) + a), ("[#%d-%d]*2" % (j, a), (latest(j) - a) * 2), ("#%d/4" % j, latest(j) / 4), ("ABS[#%d]" % j, abs(latest(j))), ("#%d" % j, latest(j))])
            lines.append(ref + "=" + e + com())
            put(i, l, v)
        elif q < 0.56:
            lines.append(r.choice(["%s=1/0", "%s=SQRT[0-1]", "%s=", "%s=#77777+1", "%s=[1+2"]) % ref)
        elif q < 0.64:
            k = [x for x in ids if latest(x) is not None and float(latest(x)).is_integer() and latest(x) in gc]
            lines.append(("G#%d" % r.choice(k) if k else "(G#%d)" % i) + com())
        elif q < 0.72:
            w = r.choice([x for x in "FSBEDH" if x in words])
            v = r.randint(max(1, words[w]["rf"]), min(words[w]["rt"], 90))
            lines.append("%s%d" % (w, v))
            sysput(w, l, float(v))
        elif q < 0.82:
            lines.append("(%s%s%s)" % (r.choice(UNI), r.choice(["G#%d", "M#%d", "#%d", "#%d#%d" % (r.choice(ids), i) + "%d"]) % i, r.choice(UNI)))
        elif q < 0.9:
            lines.append(r.choice(["?%s %s", "%s?? %s", "%s)%s"]) % (r.choice(UNI), ref))
        elif q < 0.95:
            lines.append(r.choice(["", " ", "\t"]))
        else:
            lines.append("(#%d #%d #%s #)" % (r.choice(list(SYS.values())) if r.random() < 0.7 else 3101, r.choice([3102, 5021, 100, 4111, 4313, 2001]), r.choice(["0", "1", "000000001", "1234567890"])))
    return lines, store


def positions(lines, many):
    out = set()
    for l, t in enumerate(lines):
        for rx in lsp.TOKEN:
            for m in rx.finditer(t):
                a = lsp.u16(t[:m.start()])
                b = a + len(m.group())
                out.add((l, r.choice([a, b - 1, r.randint(a, b - 1)])))
                if r.random() < 0.3:
                    out.add((l, r.choice([a - 1, b])))
        if many and t and r.random() < 0.2:
            out |= {(l, c) for c in range(-1, min(lsp.u16(t) + 2, 60))}
    out |= {(len(lines), 0), (len(lines) + 5, 3), (r.randint(0, len(lines)), 10000)}
    out = sorted(x for x in out if x[1] >= 0)
    return out if len(out) <= 250 else sorted(r.sample(out, 250))


with lsp.Scratch("c07") as sc:
    ses, docs = [], []
    for k in range(NSES):
        user = None
        if k % 3 == 0:
            user = {str(r.choice([1, 5, 17, 33, 100, 150, 500, 600, r.randint(1, 999)])): ("Ąä \"%d\"" % r.randint(0, 99), r.choice(["", "one\ntwo", "x"])) for _ in range(8)}
        modelled = k % 4 != 3
        if modelled:
            pt = nc.PTYPES[k % len(nc.PTYPES)]
            st = dict(mtt=1 if "lathe" in pt else 2 if "millturn" in pt else 0)
        else:
            kind, pt, st, inch = sim.machine(r)
        sp = sc.file(lsp.settings_json(pt, **st), "s%d.json" % k)
        up = None if user is None else sc.file(json.dumps(dict(version="1.0", descriptions={c: {t: x} for c, (t, x) in user.items()})), "u%d.json" % k)
        calc = r.random() < 0.5
        msgs, hov = [lsp.req(0, "initialize", {})], []
        for j in range(r.randint(1, 4)):
            uri = "file:///%d.nc" % (j // 2)
            if modelled:
                lines, store = model_doc(pt, r.choice([3, 12, 30]) if k % 16 or j else r.choice([300, 4500, 9000]))
                di = None
                text = "\n".join(lines)
            else:
                text = lsp.document(r, pt, kind, st, inch, r.choice([3, 15, 40]), 0.3)
                if r.random() < 0.7:
                    text = "#1=%d\n#2=%d\n" % (r.randint(0, 3), r.randint(-9, 9)) + text
                lines, store, di = text.split("\n"), None, len(docs)
                docs.append((pt, st, text, calc))
            if text.endswith("\n"):
                lines = text[:-1].split("\n")
            msgs.append(lsp.opened(uri, text) if j % 2 == 0 else lsp.changed(uri, text))
            ps = positions(lines, j == 0)
            r.shuffle(ps)
            for l, c in ps:
                msgs.append(lsp.hover("h%d" % len(hov), uri, l, c))
                hov.append((lines, store, di, l, c))
        a = lsp.args(sp, up, calc=calc)
        ses.append((pt, user, a, b"".join(lsp.frame(m) for m in msgs), hov, [x for x in (sp, up) if x]))
    pre = pc.preamble()
    stores = [None] * len(docs)
    for c in (False, True):
        ix = [i for i, d in enumerate(docs) if d[3] == c]
        for i, w in zip(ix, lsp.analyse(pre, [docs[i][:3] for i in ix], "v" if c else "p")):
            if w[3]:
                ck.crash(w[0], w[3], pre=pre)
            else:
                s = stores[i] = {}
                for v, l, x in w[2][0]["mv"]:
                    s.setdefault(v, {})[l] = x
    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(lambda s: lsp.run(s[3], s[2]), ses))


def one(s, o):
    pt, user, a, stream, hov, files = s
    if o.bad():
        return o.bad()
    try:
        ans = {m["id"]: m for m in lsp.frames(o.out) if "id" in m}
    except lsp.FrameError as x:
        return "the written stream: %s" % x
    for i, (lines, store, di, l, c) in enumerate(hov):
        store = store if di is None else stores[di]
        if store is None:
            continue
        try:
            g = ans["h%d" % i]["result"]
        except KeyError:
            return "no answer to hover %d: %r" % (i, ans.get("h%d" % i))
        w = lsp.hover_expected(lines, store, l, c, pt, user)
        ck.count("hovered")
        if w is None:
            ck.count("nothing")
            if g is not None:
                return "hover of %r in line %d at %d shows %r, expected nothing" % (lines[l] if l < len(lines) else "", l, c, g)
            continue
        k, t, p, q = lsp.token(lines[l], c)
        n = t.split("#")[-1] if "#" in t else None
        v = store.get(int(n), {}) if n else {}
        ck.saw((k, "**" in list(w[0])[0], n is not None and any(x <= l + 1 for x in v), l + 1 in v, min(5, len([x for x in v if x <= l + 1])), bool(lines[l][:p].encode("ascii", "ignore").decode() != lines[l][:p]),
                min(9, l // 4), di is None), dict(control=pt, line=lines[l], at=[l, c], shown=g))
        if g is None or g["contents"] not in w[0]:
            return "hover of %r in line %d at %d shows %r, expected %r; document: %r" % (lines[l], l, c, g, w, lines[:l + 1][-30:])
        if g["range"] != dict(start=dict(line=l, character=w[1]), end=dict(line=l, character=w[2])):
            return "hover of %r in line %d at %d covers %r, expected %d to %d" % (lines[l], l, c, g["range"], w[1], w[2])
    return None


for s, o in zip(ses, runs):
    bad = one(s, o)
    ck.count("sessions")
    if bad:
        ck.violation("%s%s: %s" % (s[0], " with user descriptions" if s[1] else "", bad), lambda: lsp.replay(s[3], s[2], s[5]))
ck.finish(min_distinct=100)
