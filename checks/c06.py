"""C06: the answers for a document depend on its current text only."""
import json, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim, lsp
from nc import Check, rng, THOROUGH

ck = Check("C06", "histories of the real server: up to six (in some histories up to 70) documents opened, changed, closed, reopened and asked about (diagnostics, hover, code lens, resolved lens, completion) in random order; "
           "every answer is compared with that of a fresh server that was only given that text (and the questions in another order, a part of them one server per question); "
           "closed and never opened documents have to have no hover and no lens; non-trivial: distinct (kind of question, result given, other documents open, times opened or changed, texts seen by the server before)")
r = rng("c06")
NSES = 120 if not THOROUGH else 500
URIS = ["file:///a.nc", "file:///b.nc", "file:///A.nc", "file:///a.nc ", "file:///ż.nc", "untitled:Untitled-1", ""]


def key(m):
    m = json.loads(json.dumps(m))
    m.pop("id", None)
    return json.dumps(m, sort_keys=True, ensure_ascii=False)


def norm(m):
    """An answer without its identifier; the order of the offered entries is not part of it."""
    if m is None:
        return None
    m = {x: y for x, y in m.items() if x != "id"}
    if isinstance(m.get("result"), list) and m["result"] and "label" in m["result"][0]:
        m["result"] = sorted(x["label"] for x in m["result"])
    return m


with lsp.Scratch("c06") as sc:
    ses = []
    fresh = {}          # (session, uri, text) -> set of questions
    for k in range(NSES):
        kind, pt, st, inch = sim.machine(r)
        path = None if k % 10 == 0 else sc.file(lsp.settings_json(pt, **st))
        if path is None:
            kind, pt, st, inch = "mill", "fanuc_mill", {"cnc": dict(nc.DEF_CNC), "kin": dict(nc.DEF_KIN), "mtt": 0, "mbp": dict(nc.DEF_MBP), "tep": dict(nc.DEF_TEP), "zp": (0., 0., 0.)}, False
        a = lsp.args(path, calc=r.random() < 0.8)
        many = k % 20 == 19     # dozens of documents are open at the same time
        uris = r.sample(URIS, r.randint(1, 6)) if not many else ["file:///d%d.nc" % i for i in range(r.choice([20, 40, 70]))]
        pool = []
        for _ in range(r.randint(2, 6)):
            t = lsp.document(r, pt, kind, st, inch, 3 if many else r.choice([2, 8, 25, 300 if k % 6 == 0 else 25]), r.choice([0.05, 0.3]))
            if r.random() < 0.6:
                t = r.choice(["#1=%d\n#2=#1+1\n" % r.randint(0, 3), "G21\nT%d M6\nG1 X10 F%d\n" % (r.randint(1, 9), r.randint(1, 900)), "#1=5\nX#1\nG#1\n"]) + t + r.choice(["\n#1=7", "\nG#1 (#1 #2)", "\n(#1)"])
            pool.append(t)
            while r.random() < 0.5:
                # another text that hardly differs: one character somewhere, mostly late, mostly the same length
                t = pool[-1]
                i = max(0, len(t) - r.choice([1, 3, 10, 100])) if r.random() < 0.6 else r.randrange(len(t) + 1)
                c = r.choice("0123456789.XGM ?")
                pool.append(r.choice([t[:i] + c + t[i + 1:], t[:i] + c + t[i + 1:], t[:i] + t[i + 1:], t[:i] + c + t[i:], t + "\n", t.replace("1", "2", 1)]))
        if k % 3 == 0 and not many:
            # long texts of one length that differ in the last line or in the first one only
            t = pool[0]
            while len(t) < r.choice([1000, 5000, 20000]):
                t += "\n" + r.choice(["(%d)" % r.randint(0, 10 ** 9), "N%d" % r.randint(1, 9999), "G0 X%d" % r.randint(0, 99)])
            pool += [t + "\n" + x + "\nG#1 (#1)" for x in ("#1=5", "#1=6", "X..9", "G0X9")]
            if r.random() < 0.4:
                pool += [x + "\n" + t for x in ("#1=5", "#1=6", "X..9")]
            pool = r.sample(pool, min(len(pool), 7))
        pool += ["", "G#1\n#1\n#4109"] if r.random() < 0.5 else []
        state, times, log, msgs, seen = {}, {}, [], [lsp.req(0, "initialize", {})], set()
        for step in range(r.randint(10, 60) + (len(uris) * 2 if many else 0)):
            u = r.choice(uris)
            q = r.random()
            if many and step < len(uris):
                u, q = uris[step], 0
            times.setdefault(u, 0)
            ctx = (min(3, len(state)), min(4, times[u]), min(4, len(seen)))
            if q < 0.16 or (q < 0.3 and not state):
                t = r.choice(pool)
                msgs.append(lsp.opened(u, t))
            elif q < 0.3:
                u = r.choice(list(state))
                t = r.choice(pool)
                m = lsp.changed(u, t)
                while r.random() < 0.2:
                    m["params"]["contentChanges"].insert(0, dict(text=r.choice(pool)))     # the last one is the content
                msgs.append(m)
            elif q < 0.38:
                msgs.append(lsp.closed(u))
                state.pop(u, None)
                continue
            else:
                i = "q%d" % step
                t = state.get(u)
                if q < 0.7:
                    ls = (t or r.choice(pool)).split("\n")
                    l = r.randrange(len(ls) + 1) if r.random() < 0.6 else max(0, len(ls) - r.randint(1, 2))
                    x = ls[l] if l < len(ls) else ""
                    cs = [lsp.u16(x[:m.start()]) + 1 for rx in lsp.TOKEN for m in rx.finditer(x)] or [0]
                    m = lsp.hover(i, u, l, r.choice(cs))
                elif q < 0.82:
                    m = lsp.lenses(i, u)
                elif q < 0.92:
                    m = lsp.resolve_lens(i, r.randrange(1 + (t or "\n\n").count("\n")))
                    m["params"]["data"] = u
                else:
                    m = lsp.completion(i, u)
                msgs.append(m)
                log.append(("ask", i, u, t, m, ctx))
                if t is not None:
                    fresh.setdefault((k, u, t), {})[key(m)] = m
                continue
            state[u] = t
            times[u] += 1
            seen.add(t)
            log.append(("diag", None, u, t, None, ctx))
            fresh.setdefault((k, u, t), {})
        ses.append((pt, a, b"".join(lsp.frame(m) for m in msgs), log, path))
    # the fresh servers
    jobs = []
    for (k, u, t), qs in fresh.items():
        qs = list(qs.values())
        r.shuffle(qs)
        parts = [[x] for x in qs[:3]] + [qs[3:]] if r.random() < 0.3 else [qs]
        for part in parts:
            part = [dict(x, id=i) for i, x in enumerate(part)]
            jobs.append(((k, u, t), part, ses[k][1], b"".join(lsp.frame(m) for m in [lsp.opened(u, t)] + part)))
    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(lambda s: lsp.run(s[2], s[1]), ses))
        fr = list(ex.map(lambda j: lsp.run(j[3], j[2]), jobs))
want = {}
ck.count("fresh_servers", len(jobs))
for (where, part, a, stream), o in zip(jobs, fr):
    bad = o.bad()
    if not bad:
        try:
            out = lsp.frames(o.out)
            ans = {m["id"]: m for m in out if "id" in m}
            d = [m for m in out if m.get("method") == "textDocument/publishDiagnostics"]
            w = want.setdefault(where, {})
            if w.setdefault("diag", d[0]["params"]) != d[0]["params"]:
                bad = "two fresh servers publish different diagnostics"
            for m in part:
                w[key(m)] = norm(ans[m["id"]])
        except (lsp.FrameError, KeyError, IndexError) as x:
            bad = "a fresh server: %r" % x
    if bad:
        ck.violation(bad, lambda: lsp.replay(stream, a))
for (k, (pt, a, stream, log, path)), o in zip(enumerate(ses), runs):
    rep = lambda: lsp.replay(stream, a, [path] if path else [])
    bad = o.bad()
    out = []
    if not bad:
        try:
            out = lsp.frames(o.out)
        except lsp.FrameError as x:
            bad = "the written stream: %s" % x
    ck.count("histories")
    ans = {m["id"]: m for m in out if "id" in m}
    pub = iter([m for m in out if m.get("method") == "textDocument/publishDiagnostics"])
    for what, i, u, t, m, ctx in log if not bad else []:
        if what == "diag":
            g = next(pub, {}).get("params")
            w = want.get((k, u, t), {}).get("diag")
            name = "diagnostics"
        else:
            g = ans.get(i)
            g = norm(g)
            name = m["method"]
            if t is None:
                if name == "textDocument/completion":
                    w = g
                else:
                    w = dict(jsonrpc="2.0", result=None)
            else:
                w = want.get((k, u, t), {}).get(key(m))
        ck.saw((name, t is None, (g or {}).get("result") is None and not (g or {}).get("diagnostics")) + ctx, dict(control=pt, question=name, document=u, answer=str(g)[:150]))
        ck.count(name)
        if g != w:
            bad = "%s of %r (%s): %s, a fresh server given the text says %s" % (name, u, "closed or never opened" if t is None else "open", json.dumps(g)[:700], json.dumps(w)[:700])
            break
    if bad:
        ck.violation("%s: %s" % (pt, bad), rep)
ck.finish(min_distinct=100)
