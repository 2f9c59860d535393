"""C05: diagnostics name exactly the wrong blocks."""
import os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim, lsp
import pathchk as pc
from nc import Check, rng, THOROUGH

ck = Check("C05", "sessions of the real server (ASan, UBSan) over all controls and machines in which documents of simulated, wrong and mutated blocks (blank lines, "
           "trailing blanks, CR LF, foreign characters) are opened and changed; every published list is compared, entry by entry, with the verdicts and reasons of "
           "a directly driven parser given the same lines; non-trivial: distinct (control, path calculation, number of entries, column known, reason text without digits)")
r = rng("c05")
NSES = 150 if not THOROUGH else 700
import re
with lsp.Scratch("c05") as sc:
    ses, docs = [], []
    for k in range(NSES):
        kind, pt, st, inch = sim.machine(r)
        deflt = k % 12 == 0
        if deflt:
            kind, pt, st, inch = "mill", "fanuc_mill", dict(cnc=dict(nc.DEF_CNC), kin=dict(nc.DEF_KIN), mtt=0, mbp=dict(nc.DEF_MBP), tep=dict(nc.DEF_TEP), zp=(0., 0., 0.)), False
        calc = r.random() < 0.6
        if not deflt and r.random() < 0.5:
            # ranges of the axes anywhere, also wholly below or above zero
            st["axes"] = {}
            for a in "XYZ":
                b = r.choice([-300, -40, 10, 250])
                st["axes"][a] = (float(b), b + r.choice([30., 200.5, 600.]))
        gg = nc.profile(pt).code_groups("G")
        mg = nc.profile(pt).code_groups("M")
        path = None if deflt else sc.file(lsp.settings_json(pt, **st))
        msgs, exp = [lsp.req(0, "initialize", {})], []
        for j in range(r.randint(2, 6)):
            uri = "file:///%s%d.nc" % (r.choice(["a", "b ", "ż"]), j)
            for q in range(r.choice([1, 1, 2])):
                n = r.choice([1, 3, 15, 15, 40]) if j or k % 8 else r.choice([150, 400, 1200])
                if k < 4 and j == 0 and q == 0:
                    # a very long document: wrong blocks behind line 32768 and line 65536
                    fill = [["", "(a)", "X1"], ["", "", "", "X2"], ["(a b)", "?"], [""]][k]
                    ls = [r.choice(fill) for _ in range([33000, 66000, 33000, 140000][k] + r.randint(0, 500))]
                    for b in (32766, 32767, 32768, 65534, 65535, 65536, 131072, len(ls) - 1, r.randrange(len(ls))):
                        if b < len(ls):
                            ls[b] = r.choice(["?", "X..", "X1 X1", "G1 X999999999"])
                    text = "\n".join(ls)
                else:
                    text = r.choice(["", "\n", " "]) if r.random() < 0.04 else lsp.document(r, pt, kind, st, inch, n, r.choice([0.05, 0.25, 0.5]))
                if r.random() < 0.5:
                    # two codes of one group, of several if there are such
                    ls = text.split("\n")
                    for _ in range(r.randint(1, 12)):
                        l, t = r.choice([("G", gg), ("G", gg), ("M", mg)])
                        cs = sorted(t, key=lambda c: (-len(t[c]), c))
                        a = r.choice(cs[:max(3, len([c for c in cs if len(t[c]) > 1]))] if r.random() < 0.5 else cs)
                        b = r.choice([c for c in cs if t[c] & t[a]])
                        ls.insert(r.randint(0, len(ls)), " ".join(l + str(c[0]) + (".%d" % c[1] if c[1] else "") for c in r.sample([a, b], 2)))
                    text = "\n".join(ls)
                msgs.append(lsp.opened(uri, text) if q == 0 else lsp.changed(uri, text))
                exp.append((uri, len(docs)))
                docs.append((pt, st, text, calc))
        a = lsp.args(path, calc=calc)
        import json
        stream = b"".join(lsp.frame(json.dumps(m, ensure_ascii=r.random() < 0.5).encode("utf-8")) for m in msgs)
        ses.append((a, stream, exp, pt, calc, path))
    pre = pc.preamble()
    want = [None] * len(docs)
    for c in (False, True):
        ix = [i for i, d in enumerate(docs) if d[3] == c]
        for i, w in zip(ix, lsp.analyse(pre, [docs[i][:3] for i in ix], "v" if c else "p")):
            want[i] = w
    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(lambda s: lsp.run(s[1], s[0]), ses))
    for (a, stream, exp, pt, calc, path), o in zip(ses, runs):
        rep = lambda: lsp.replay(stream, a, [path] if path else [])
        if o.bad():
            ck.violation(o.bad(), rep)
            continue
        try:
            out = lsp.frames(o.out, raw=True)
        except lsp.FrameError as x:
            ck.violation("the written stream: %s" % x, rep)
            continue
        pub = [m for m in out if m.get("method") == "textDocument/publishDiagnostics"]
        if len(pub) != len(exp):
            ck.violation("%d documents were opened or changed, %d lists published" % (len(exp), len(pub)), rep)
            continue
        for (uri, di), m in zip(exp, pub):
            script, ev, last, crash = want[di]
            if crash:
                ck.crash(script, crash, pre=pre)
                break
            w = lsp.diagnostics(ev)
            try:
                d = m["params"]["diagnostics"]
                g = [(x["range"]["start"]["line"], x["range"]["start"]["character"], x["message"]) for x in d]
                ends = all(x["range"]["end"]["line"] == x["range"]["start"]["line"] and x["range"]["end"]["character"] >= x["range"]["start"]["character"] for x in d)
            except (KeyError, TypeError) as x:
                ck.violation("malformed publication %s: %s" % (m, x), rep)
                break
            ck.count("documents")
            ck.count("lines", len(ev))
            ck.count("entries", len(g))
            for x in w or [(0, 0, "")]:
                ck.saw((pt, calc, min(len(w), 5), x[1] > 0, re.sub(r"\d+", "9", x[2])[:40]), dict(control=pt, calc=calc, entry=x))
            if m["params"].get("uri") != lsp.byt(uri):
                ck.violation("published for %r, expected %r" % (m["params"].get("uri"), uri), rep)
                break
            if g != w or not ends:
                q = next((i for i in range(max(len(g), len(w))) if i >= len(g) or i >= len(w) or g[i] != w[i]), None)
                ck.violation("%s, %s: entry %s is %r, expected %r (%d entries, expected %d)" % (pt, uri, q, g[q] if q is not None and q < len(g) else None,
                             w[q] if q is not None and q < len(w) else None, len(g), len(w)), rep)
                break
    # a null character is a character like others: it does not end the document
    def split(m):
        return [(x["range"]["start"]["line"], x["range"]["start"]["character"], x["message"]) for x in m["params"]["diagnostics"]]
    jobs = []
    for k in range(20):
        kind, pt, st, inch = sim.machine(r)
        ls = lsp.document(r, pt, kind, st, inch, 12, 0.4, 0).split("\n")
        at = sorted(r.sample(range(len(ls) + 1), r.randint(1, 3)))
        for i in reversed(at):
            ls.insert(i, None)
        nul = {i for i, l in enumerate(ls) if l is None}
        a = lsp.args(sc.file(lsp.settings_json(pt, **st)), calc=r.random() < 0.5)
        t = ["\n".join((w if l is None else l) for l in ls) for w in (r.choice(["(a\x00b)", "(\x00)", "\x00", "? \x00X1"]), "")]
        jobs.append((a, b"".join(lsp.frame(lsp.opened(u, x)) for u, x in zip(("file:///n", "file:///b"), t)), nul))
    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(lambda s: lsp.run(s[1], s[0]), jobs))
    for (a, stream, nul), o in zip(jobs, runs):
        bad = o.bad()
        if not bad:
            try:
                x, y = [split(m) for m in lsp.frames(o.out, raw=True)]
                if [e for e in x if e[0] not in nul] != y:
                    bad = "with null characters on the lines %s: %r, with these lines empty: %r" % (sorted(nul), x, y)
            except (lsp.FrameError, ValueError, KeyError) as e:
                bad = "the written stream: %r" % e
        ck.count("documents_with_null_characters")
        if bad:
            ck.violation(bad, lambda: lsp.replay(stream, a))
ck.finish(min_distinct=100)
