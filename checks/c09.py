"""C09: code lenses show the running totals."""
import json, os, re, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim, lsp
import pathchk as pc
from nc import Check, rng, THOROUGH

ck = Check("C09", "sessions of the real server over all controls and machines with path calculation on (and some off); the code lenses of each document are compared with the totals of "
           "a directly driven parser over the same lines: lines, parts shown, numbers (to the last shown digit) and format; each lens is resolved, as are lines without one; "
           "non-trivial: distinct (control, parts shown, hours shown, size of the numbers)")
r = rng("c09")
NSES = 90 if not THOROUGH else 900
TOL = 0.01
PARTS = ["path", "time", "tool", "rpath", "rtime", "cpath", "ctime"]
PAT = [r"Total path = (?P<path>\S+)", r"Total time = (?P<time>\S+)", r"T(?P<tid>\S*) total path = (?P<tool>\S+)", r"Total rapid path = (?P<rpath>\S+)",
       r"Total rapid time = (?P<rtime>\S+)", r"Total cut path = (?P<cpath>\S+)", r"Total cut time = (?P<ctime>\S+)"]
RE = re.compile("".join(r"(?: \| %s)?" % p for p in PAT) + "$")


def seconds(t):
    m = re.match(r"(?:(\d+):(\d\d)|(\d{1,2})):(\d\d)\.(\d\d\d)$", t)
    if not m:
        return None
    h, mi = (int(m.group(1)), int(m.group(2))) if m.group(1) else (0, int(m.group(3)))
    if m.group(1) and h == 0 or mi > 59 or int(m.group(4)) > 59:
        return None
    return h * 3600 + mi * 60 + int(m.group(4)) + int(m.group(5)) / 1000


def expected(ev):
    """{line: {part: (value, shown or None if too close to call)}}, tool id"""
    out, prev = {}, 0.
    s = dict(rpath=0., rtime=0., cpath=0., ctime=0.)
    for i, l, e in ev:
        pr, tr = e["pr"], e["tr"]
        if tr[0] == prev:
            continue
        prev = tr[0]
        s["cpath"] += pr[1]
        s["rpath"] += pr[2]
        s["ctime"] += tr[1]
        s["rtime"] += tr[2]
        show = lambda v: None if abs(v - TOL) < 1e-7 else v >= TOL
        a, b = show(pr[3]), show(pr[0] - pr[3])
        tool = False if a is False or b is False else None if a is None or b is None else True
        out[i] = dict(path=(pr[0], show(pr[0])), time=(tr[0], show(tr[0])), tool=(pr[3], tool), rpath=(s["rpath"], show(pr[2])), rtime=(s["rtime"], show(tr[2])),
                      cpath=(s["cpath"], show(pr[1])), ctime=(s["ctime"], show(tr[1])), tid=pr[4])
    return out


def judge(title, w):
    m = RE.match(title)
    if not m:
        return "unknown form"
    for p in PARTS:
        v, show = w[p]
        g = m.group(p)
        if show is not None and (g is not None) != show:
            return "%s is %s" % (p, "missing" if show else "shown")
        if g is None:
            continue
        if p.endswith("time"):
            x = seconds(g)
            if x is None or abs(x - v) > 0.00051 + abs(v) * 1e-12:
                return "%s is %s, expected %r s" % (p, g, v)
        else:
            if not re.match(r"-?\d+\.\d\d$", g) or abs(float(g) - v) > 0.00501 + abs(v) * 1e-12:
                return "%s is %s, expected %r" % (p, g, v)
        if p == "tool" and m.group("tid") != w["tid"]:
            return "tool is %r, expected %r" % (m.group("tid"), w["tid"])
    return None


with lsp.Scratch("c09") as sc:
    ses, docs = [], []
    for k in range(NSES):
        kind, pt, st, inch = sim.machine(r)
        if r.random() < 0.3:
            st["kin"]["max_fast_feed"] = r.choice([1, 20, 100])
            st["kin"]["tool_exchange_time"] = r.choice([3599, 3600, 59, 60, 7000])
        calc = r.random() < 0.9
        small = k % 6 == 5
        if small:
            st["tep"] = dict((a, st["mbp"][a]) for a in "XYZ")
        path = sc.file(lsp.settings_json(pt, **st))
        exp, msgs = [], [lsp.req(0, "initialize", {})]
        for j in range(r.randint(1, 3)):
            uri = "file:///d%d.nc" % j
            text = lsp.document(r, pt, kind, st, inch, r.choice([3, 20, 50]), r.choice([0.0, 0.1, 0.3]))
            if small:
                # totals that differ by little
                ls = []
                for t in range(1, r.randint(3, 6)):
                    ls.append("T%d%s" % (r.choice([t, t, t * 111]), "" if st["cnc"]["tool_number_executes_exchange"] else " M6"))
                    m = r.choice([0.6, 0.6, 0.009, 0.004])
                    ls += ["G91 G%d X%s F%d" % (r.randint(0, 1), sim.num(r, round(r.uniform(-m, m), 3)), r.choice([1, 100])) for _ in range(r.randint(1, 3 if m > 0.1 else 12))]
                    if r.random() < 0.4:
                        ls.append("G1 Y1.5 F100")
                text = "\n".join(ls)
            msgs.append(lsp.opened(uri, text))
            n = text.count("\n") + 2
            msgs.append(lsp.lenses("L%d" % j, uri))
            for i in range(n):
                msgs.append(lsp.resolve_lens("R%d-%d" % (j, i), i))
            exp.append((j, n, len(docs)))
            docs.append((pt, st, text))
        a = lsp.args(path, calc=calc)
        ses.append((a, b"".join(lsp.frame(m) for m in msgs), exp, pt, calc, path))
    pre = pc.preamble()
    want = lsp.analyse(pre, docs, "pg")
    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(lambda s: lsp.run(s[1], s[0]), ses))
    for (a, stream, exp, pt, calc, path), o in zip(ses, runs):
        rep = lambda: lsp.replay(stream, a, [path])
        if o.bad():
            ck.violation(o.bad(), rep)
            continue
        try:
            ans = {m["id"]: m for m in lsp.frames(o.out, raw=True) if "id" in m}
        except lsp.FrameError as x:
            ck.violation("the written stream: %s" % x, rep)
            continue
        for j, n, di in exp:
            script, ev, last, crash = want[di]
            if crash:
                ck.crash(script, crash, pre=pre)
                break
            w = expected(ev) if calc else {}
            bad = None
            try:
                res = ans["L%d" % j]["result"]
                got = [(x["range"]["start"]["line"], x["command"]["title"]) for x in res or []]
                if any(x["range"]["end"]["line"] != x["range"]["start"]["line"] for x in res or []):
                    bad = "a lens ends on another line"
                rs = [ans["R%d-%d" % (j, i)]["result"] for i in range(n)]
            except (KeyError, TypeError) as x:
                ck.violation("missing or malformed answer (%s): %s" % (x, str(ans)[:400]), rep)
                break
            ck.count("documents")
            ck.count("lenses", len(got))
            if [l for l, t in got] != sorted(w):
                bad = "lenses on the lines %s, expected %s" % ([l for l, t in got], sorted(w))
            for l, t in got if not bad else []:
                m = RE.match(t)
                ck.saw((pt, tuple(p for p in PARTS if m and m.group(p)), t.count(":") > 2, len(t) // 8), dict(control=pt, line=l, title=t))
                x = judge(t, w[l])
                if x:
                    bad = "line %d: lens %r: %s" % (l, t, x)
                    break
            g = dict(got)
            for i, x in enumerate(rs if not bad else []):
                ck.count("resolved")
                t = None if not x else x.get("command", {}).get("title")
                if t != g.get(i):
                    bad = "line %d: the lens %r resolves to %r" % (i, g.get(i), x)
                    break
            if not calc:
                ck.saw((pt, "off"))
            if bad:
                ck.violation("%s (path calculation %s): %s" % (pt, "on" if calc else "off", bad), rep)
                break


# several documents at a time: their lenses are resolved after all of them were asked for
def interleaved(job):
    k, pt, a, texts, order = job
    se = lsp.Session(a)
    se.send(lsp.req(0, "initialize", {}))
    bad, n = None, 0
    for j, t in enumerate(texts):
        se.send(lsp.opened("file:///%d" % j, t))
    for j in range(len(texts)):
        se.send(lsp.lenses("L%d" % j, "file:///%d" % j))
    got = {}
    while len(got) < len(texts) + 1:
        kind, m = se.get()
        if kind != "msg":
            bad = "no answer (%s)" % kind
            break
        if "id" in m:
            got[m["id"]] = m
    if not bad:
        all_ = [(j, x) for j in range(len(texts)) for x in got["L%d" % j].get("result") or []]
        order.shuffle(all_)
        for i, (j, x) in enumerate(all_[:40]):
            y = dict(x)
            y.pop("command", None)
            se.send(lsp.req(1000 + i, "codeLens/resolve", y))
            kind, m = se.get()
            if kind != "msg":
                bad = "no answer (%s)" % kind
                break
            n += 1
            z = m.get("result") or {}
            if m.get("id") != 1000 + i or z.get("command", {}).get("title") != x["command"]["title"] or z.get("range") != x["range"]:
                bad = "of %d documents, document %d: the lens %r resolves to %r" % (len(texts), j, x, m)
                break
    o = se.close()
    return bad or o.bad(), n, se.sent


with lsp.Scratch("c09") as sc:
    import random
    jobs = []
    for k in range(16 if not THOROUGH else 200):
        kind, pt, st, inch = sim.machine(r)
        path = sc.file(lsp.settings_json(pt, **st))
        texts = [lsp.document(r, pt, kind, st, inch, r.choice([10, 30]), 0.1) for _ in range(r.randint(2, 4))]
        jobs.append((k, pt, lsp.args(path), texts, random.Random(r.random())))
    with ThreadPoolExecutor(8) as ex:
        for job, (bad, n, sent) in zip(jobs, ex.map(interleaved, jobs)):
            ck.count("resolved_across_documents", n)
            if bad:
                ck.violation("%s: %s" % (job[1], bad), lambda: lsp.replay(sent, job[2], []))
ck.finish(min_distinct=100)
