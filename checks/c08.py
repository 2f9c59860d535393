"""C08: descriptions shown are those of the configuration."""
import os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, lsp
from nc import Check, rng, THOROUGH

ck = Check("C08", "sessions of the real server over all controls, with and without a settings file and with user macro descriptions (overriding, new, ranges, names, foreign characters): "
           "every described code hovered in several spellings, codes without description, variables inside and outside ranges; completion asked before and after opening documents "
           "and again; every offered entry resolved; oracle: the description files of conf; non-trivial: distinct (control, user file, code, spelling class) plus entries resolved")
r = rng("c08")
NSES = 44 if not THOROUGH else 440


def user_file():
    d = {}
    base = list(lsp.descriptions("fanuc_mill", "macros"))
    for _ in range(r.randint(1, 12)):
        c = r.choice([str(r.randint(1, 999)), str(r.randint(1, 99999)), r.choice(base), r.choice(base), "name%d" % r.randint(0, 9), "x"])
        t = r.choice(["Moja zmienna żółta", "Tool \"A\"", "a\\b", "Długość 中 😀", "offset", "T"]) + str(r.randint(0, 99))
        x = r.choice(["", "one line", "first\nsecond\n\nthird", "Range: #%d-#%d" % (lambda a: (a, a + r.randint(0, 30)))(r.choice([r.randint(500, 900), r.randint(9000, 99999), r.randint(100000, 99999999)])), "tab\there", "of the user,\nRange: #%d-#%d - #%d-#%d\nAttribute: R" % (lambda a, b: (a, a + r.randint(0, 9), b, b + r.randint(0, 200)))(r.randint(100, 900), r.randint(20000, 30000)),
                      "[{" * r.randint(200, 600), "\\\"[" * r.randint(200, 600), "long " * r.randint(50, 900), "ąę **x**"])
        d[c] = (t, x)
    return d


def spellings(c):
    yield c
    yield "0" + c
    yield "00" + c
    if len(c) > 1 and c[0] == "0" and c[1] != ".":
        yield c[1:]


def macro_values(n):
    return {}


with lsp.Scratch("c08") as sc:
    ses = []
    for k in range(NSES):
        pt = nc.PTYPES[k % len(nc.PTYPES)]
        deflt = pt == "fanuc_mill" and k // len(nc.PTYPES) % 2 == 1
        user = user_file() if k // len(nc.PTYPES) % 4 in (1, 2) else None
        import json
        up = None if user is None else sc.file(json.dumps(dict(version="1.0", descriptions={c: {t: x} for c, (t, x) in user.items()}), ensure_ascii=r.random() < 0.5), "u%d.json" % k)
        sp = None if deflt else sc.file(lsp.settings_json(pt), "s%d.json" % k)
        lines, want = [], []
        toks = []
        for kind, l in (("gcode", "G"), ("mcode", "M")):
            d = lsp.descriptions(pt, kind)
            for c in d:
                for s in spellings(c):
                    if len(s.split(".")[0]) <= 9:
                        toks.append((l if r.random() < 0.7 else l.lower()) + s)
            toks += [l + str(r.choice([r.randint(0, 999), r.randint(100, 99999)])) + r.choice(["", "", ".%d" % r.randint(0, 9)]) for _ in range(20)]
        dm = dict(lsp.descriptions(pt, "macros"))
        dm.update(user or {})
        toks += ["#" + c for c in dm if c.isdigit() and len(c) <= 9]
        for a, b, c in lsp.ranges(dm):
            toks += ["#%d" % x for x in {a, b, a - 1, b + 1, (a + b) // 2} if x > 0]
        toks += ["#%d" % r.choice([r.randint(1, 999), r.randint(1, 99999)]) for _ in range(20)]
        r.shuffle(toks)
        while toks:
            n = r.randint(1, 6)
            part, toks = toks[:n], toks[n:]
            t = r.choice(["?", "? ", "?ż"])       # a wrong block: sets no system variable
            for x in part:
                t += r.choice([" ", " ", "  ", "(ż ", "("]) + x
            lines.append(t + r.choice(["", " ", ")", " X1.5"]))
        text = r.choice(["\n", "\n", "\r\n"]).join(lines)
        msgs = [lsp.req(0, "initialize", {})]
        early = r.random() < 0.5
        if early:
            msgs.append(lsp.completion("c1", "file:///a.nc"))
        msgs.append(lsp.opened("file:///a.nc", text))
        hov = []
        for i, t in enumerate(text.split("\n")):
            n = lsp.u16(t)
            ch = set()
            for rx in lsp.TOKEN:
                for m in rx.finditer(t):
                    a = lsp.u16(t[:m.start()])
                    ch |= {r.choice([a, a + len(m.group()) - 1, a + r.randrange(len(m.group()))])}
            for c in sorted(ch):
                hov.append((i, c))
                msgs.append(lsp.hover("h%d" % (len(hov) - 1), "file:///a.nc", i, c))
        msgs.append(lsp.completion("c2", "file:///a.nc", r.randint(0, 5), 0))
        if r.random() < 0.5:
            msgs.append(lsp.opened("file:///b.nc", "G0 X1"))
        msgs.append(lsp.completion("c3", "file:///b.nc"))
        lab = sorted(lsp.labels(pt, user or ()))
        r.shuffle(lab)
        items = []
        for i, l in enumerate(lab):
            it = dict(label=l)
            if r.random() < 0.8:
                it.update(kind=15, insertTextFormat=2, data=r.randint(1, 999))
            items.append(it)
            msgs.append(lsp.resolve_item("r%d" % i, it))
        a = lsp.args(sp, up, calc=r.random() < 0.5)
        ses.append((pt, user, a, b"".join(lsp.frame(m) for m in msgs), text.split("\n"), hov, items, [x for x in (sp, up) if x], early))
    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(lambda s: lsp.run(s[3], s[2]), ses))


def one(s, o):
    pt, user, a, stream, lines, hov, items, files, early = s
    if o.bad():
        return o.bad()
    try:
        ans = {m["id"]: m for m in lsp.frames(o.out) if "id" in m}
    except lsp.FrameError as x:
        return "the written stream: %s" % x
    res = lambda i: ans[i]["result"]
    try:
        lab = lsp.labels(pt, user or ())
        for c in (["c1"] if early else []) + ["c2", "c3"]:
            got = [x["label"] for x in res(c)]
            ck.count("offered", len(got))
            if sorted(got) != sorted(lab):
                twice = sorted({x for x in got if got.count(x) > 1}) if len(got) != len(set(got)) else []
                return "completion %s: missing %s, offered twice %s, not described %s" % (c, sorted(lab - set(got))[:8], twice[:8], sorted(set(got) - lab)[:8])
            if len({x["data"] for x in res(c)}) != len(got):
                return "completion %s: two entries have the same data" % c
        macros = {3101: {-1: 3.141592653589793}, 3102: {-1: 2.718281828459045}}
        for i, (l, c) in enumerate(hov):
            w = lsp.hover_expected(lines, macros, l, c, pt, user)
            g = res("h%d" % i)
            ck.count("hovered")
            tok = lsp.token(lines[l], c)
            if tok:
                ck.saw((pt, user is not None, tok[1]), dict(control=pt, token=tok[1], shown=g and g["contents"][:80]))
            if w is None:
                if g is not None:
                    return "hover of %r in line %d at %d shows %r, expected nothing" % (lines[l], l, c, g)
                continue
            if g is None or g["contents"] not in w[0] or g["range"] != dict(start=dict(line=l, character=w[1]), end=dict(line=l, character=w[2])):
                return "hover of %r in line %d at %d shows %r, expected %r" % (lines[l], l, c, g, w)
        dm = dict(lsp.descriptions(pt, "macros"))
        dm.update(user or {})
        for i, it in enumerate(items):
            g = res("r%d" % i)
            ck.count("resolved")
            l = it["label"]
            d = lsp.code_desc(lsp.descriptions(pt, "gcode" if l[0] == "G" else "mcode"), l[1:]) if l[0] != "#" else dm.get(l[1:])
            if {k: g.get(k) for k in it} != it or (g.get("detail") or "") != d[0] or (g.get("documentation") or "") != d[1]:
                return "the entry %r is resolved to %r, described as %r" % (it, g, d)
    except (KeyError, TypeError, IndexError) as x:
        return "missing or malformed answer (%r)" % x
    return None


for s, o in zip(ses, runs):
    bad = one(s, o)
    ck.count("sessions")
    if bad:
        ck.violation("%s%s: %s" % (s[0], " with user descriptions" if s[1] else "", bad), lambda: lsp.replay(s[3], s[2], s[7]))
ck.finish(min_distinct=500)
